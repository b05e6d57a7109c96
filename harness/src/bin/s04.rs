//! Undefined terms: equality saturation in a domain with partial operators.
use mc::dom::*;
use mc::eqs::*;
use mc::refeg::*;
use mc::*;
use ruler::enumo::{Ruleset, Scheduler, Workload};
use ruler::{EGraph, SynthAnalysis};
use std::collections::BTreeMap;

/// Total completion of an operator: every undefined entry becomes 1.
fn total(t: &S, env: &BTreeMap<String, Option<u8>>) -> u8 {
    let (op, kids) = t.op();
    if kids.is_empty() {
        if let Some(v) = env.get(op) {
            return v.unwrap();
        }
        return fin_apply(op, &[]).unwrap_or(1);
    }
    let args: Vec<Option<u8>> = kids.iter().map(|k| Some(total(k, env))).collect();
    fin_apply(op, &args).unwrap_or(1)
}

fn vars_of(ts: &[S]) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for t in ts {
        for x in term_vars(t) {
            if !v.contains(&x) {
                v.push(x);
            }
        }
    }
    v.sort();
    v
}

fn valid(r: &R, f: &dyn Fn(&S, &BTreeMap<String, Option<u8>>) -> Option<u8>) -> bool {
    let (l, rr) = (r.l.ground(), r.r.ground());
    assignments(&vars_of(&[l.clone(), rr.clone()]), &[Some(0), Some(1)])
        .iter()
        .all(|e| f(&l, e) == f(&rr, e))
}

fn invariants(
    eg: &EGraph<Fin, SynthAnalysis>,
    envs: &[BTreeMap<String, Option<u8>>],
) -> Result<(), String> {
    for c in eg.classes() {
        let t = S::p(&c.data.simplest.to_string());
        if c.data.cvec.len() != envs.len() {
            return Err(format!("vector of {} has length {}", t, c.data.cvec.len()));
        }
        for (i, e) in envs.iter().enumerate() {
            if let Some(v) = c.data.cvec[i] {
                if v != total(&t, e) {
                    return Err(format!("class of {}: sample {:?} is {}, which no member justifies", t, e, v));
                }
            }
            // justified by some member
            let mut want = None;
            for n in &c.nodes {
                let op = n.to_string();
                let x = if n.kids.is_empty() {
                    e.get(&op).copied().unwrap_or_else(|| fin_apply(&op, &[]))
                } else {
                    let a: Vec<Option<u8>> = n.kids.iter().map(|k| eg[*k].data.cvec[i]).collect();
                    fin_apply(&op, &a)
                };
                want = want.or(x);
            }
            if want != c.data.cvec[i] {
                return Err(format!("class of {}: sample {:?} is {:?}, members say {:?}", t, e, c.data.cvec[i], want));
            }
        }
        if c.data.cvec.iter().all(|x| x.is_none()) {
            let mut ns: Vec<_> = c
                .nodes
                .iter()
                .map(|n| (n.to_string(), n.kids.iter().map(|k| eg.find(*k)).collect::<Vec<_>>()))
                .collect();
            ns.sort();
            ns.dedup();
            if ns.len() > 1 {
                return Err(format!(
                    "terms undefined on every sample were merged: {}",
                    ns.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join(", ")
                ));
            }
        }
    }
    Ok(())
}

/// Reference round that leaves undefined classes alone; exact when both sides
/// of every rule are the same partial function.
fn round_def(rf: &mut RefEg, rules: &[R], envs: &[BTreeMap<String, Option<u8>>]) -> Result<bool, Blowup> {
    let snap = rf.fingerprint();
    let sm = smallest(rf, &|_| true, 2000).ok_or(Blowup)?;
    let def: BTreeMap<usize, bool> = sm
        .iter()
        .map(|(c, ts)| {
            let t = ts.iter().next().unwrap();
            (*c, envs.iter().any(|e| fin_eval(t, e).is_some()))
        })
        .collect();
    let mut ms = vec![];
    for r in rules {
        for (c, s) in rf.ematch(&r.l) {
            if def[&rf.find(c)] {
                ms.push((r, c, s));
            }
        }
    }
    for (r, c, s) in ms {
        let id = rf.add_inst(&r.r, &s);
        rf.union(c, id);
        if rf.nnodes() > rf.cap {
            return Err(Blowup);
        }
    }
    rf.rebuild();
    Ok(snap != rf.fingerprint())
}

fn run(terms: &[S], rules: &[R], k: usize, o: &mut Obs) -> Result<(), String> {
    let vars = vars_of(terms);
    let ts = strs(terms);
    let w = Workload::new(ts.iter().map(|x| x.as_str()).collect::<Vec<_>>());
    let eg = w.to_egraph::<Fin>();
    // sample order as in the variable vectors
    let n = 1usize << vars.len();
    let envs: Vec<BTreeMap<String, Option<u8>>> = (0..n)
        .map(|i| {
            vars.iter()
                .map(|v| {
                    let id = eg.lookup(Fin { op: Op::new(v).unwrap(), kids: vec![] }).unwrap();
                    (v.clone(), eg[id].data.cvec[i])
                })
                .collect()
        })
        .collect();
    let mut base = RefEg::new();
    for v in &vars {
        base.add(&S::A(v.clone()));
    }
    for t in terms {
        base.add(t);
    }
    let set: Ruleset<Fin> = to_ruleset(rules);
    let same_partial = rules.iter().all(|r| valid(r, &|t, e| fin_eval(t, e)));
    for s in 0..3 {
        let mut full = base.clone();
        full.cap = 3000;
        let (sched, ok) = match s {
            0 => (Scheduler::Simple(unlimited(k)), full.simple(rules, k).is_ok()),
            1 => (Scheduler::Saturating(unlimited(k)), full.run_saturating(rules, k).is_ok()),
            _ => (Scheduler::Compress(unlimited(k)), full.simple(rules, k).is_ok()),
        };
        if !ok {
            continue;
        }
        let out = sched.run(&eg, &set);
        o.traces(1);
        o.trans(k);
        o.state(&(s, full.fingerprint()));
        let who = ["Simple", "Saturating", "Compress"][s];
        invariants(&out, &envs).map_err(|e| format!("{}: {}", who, e))?;
        embeds(&out, &full).map_err(|e| format!("{}: {}", who, e))?;
        if s == 0 && same_partial {
            let mut want = base.clone();
            let mut good = true;
            for _ in 0..k {
                match round_def(&mut want, rules, &envs) {
                    Ok(true) => {}
                    Ok(false) => break,
                    Err(_) => {
                        good = false;
                        break;
                    }
                }
            }
            if good {
                iso(&out, &want).map_err(|e| format!("{}: {}", who, e))?;
            }
        }
        if k == 0 {
            continue;
        }
        // matches on terms defined from the start must have been applied
        for r in rules {
            for (c, sub) in base.ematch(&r.l) {
                let sm = smallest(&base, &|_| true, 10).unwrap();
                let m: BTreeMap<String, S> = sub
                    .iter()
                    .map(|(v, c)| (v.clone(), sm[c].iter().next().unwrap().clone()))
                    .collect();
                let (l, rr) = (r.l.subst(&m), r.r.subst(&m));
                let _ = c;
                let def = |t: &S| envs.iter().any(|e| fin_eval(t, e).is_some());
                if !def(&l) || !def(&rr) || (s == 2 && base.lookup(&rr).is_none()) {
                    continue;
                }
                let x = out.lookup_expr(&expr(&l));
                let y = out.lookup_expr(&expr(&rr));
                if x.is_none() || x.map(|i| out.find(i)) != y.map(|i| out.find(i)) {
                    return Err(format!("{}: {} and {} are defined and match {} but are not equated", who, l, rr, r));
                }
            }
        }
    }
    Ok(())
}

/// One application of one rule to its own left-hand side: it equates the two
/// sides exactly if both are defined somewhere.  `extra` variables lengthen the
/// vectors.
fn fires(r: &R, extra: usize, o: &mut Obs) -> Result<(), String> {
    let (l, rr) = (r.l.ground(), r.r.ground());
    let mut terms = vec![l.clone()];
    for i in 0..extra {
        terms.push(a(&format!("e{}", i)));
    }
    let vars = vars_of(&terms);
    let ts = strs(&terms);
    let w = Workload::new(ts.iter().map(|x| x.as_str()).collect::<Vec<_>>());
    let eg = w.to_egraph::<Fin>();
    let mut base = RefEg::new();
    for t in &terms {
        base.add(t);
    }
    for v in &vars {
        base.add(&S::A(v.clone()));
    }
    let ms = base.ematch(&r.l);
    let root = base.lookup(&l).unwrap();
    if ms.len() != 1 || base.find(ms[0].0) != root || base.lookup(&rr) == Some(root) {
        o.show("more than one match");
        return Ok(());
    }
    let envs = assignments(&vars, &[Some(0), Some(1)]);
    let def = |t: &S| envs.iter().any(|e| fin_eval(t, e).is_some());
    let out = Scheduler::Simple(unlimited(1)).run(&eg, &to_ruleset::<Fin>(&[r.clone()]));
    let x = out.lookup_expr(&expr(&l)).map(|i| out.find(i));
    let y = out.lookup_expr(&expr(&rr)).map(|i| out.find(i));
    let want = def(&l) && def(&rr);
    o.trans(1);
    o.traces(1);
    o.state(&(r, extra, want));
    if x.is_none() {
        return Err("the term is gone".into());
    }
    if (x == y) != want {
        return Err(format!(
            "{} is {}defined, {} is {}defined, after one application of the rule they are {}equated",
            l,
            if def(&l) { "" } else { "un" },
            rr,
            if def(&rr) { "" } else { "un" },
            if x == y { "" } else { "not " }
        ));
    }
    Ok(())
}

fn explore(ctx: &mut Ctx) {
    type Sig = (&'static [&'static str], &'static [(&'static str, usize)], usize, usize);
    let sigs: Vec<Sig> = vec![
        (&["?x", "?y", "0", "U"], &[("u1_", 1), ("b0_11", 2)], 3, 3),
        (&["?x", "?y", "1"], &[("u_0", 1), ("u10", 1), ("b01_1", 2)], 3, 3),
        (&["?x", "?y"], &[("u__", 1), ("u0_", 1), ("b_001", 2)], 4, 3),
        (&["?x", "?y", "0"], &[("u10", 1), ("b1___", 2)], 4, 4),
        (&["?x", "1"], &[("b0_11", 2), ("b__11", 2)], 3, 3),
        (&["?x", "U"], &[("u11", 1), ("u1_", 1), ("u_1", 1)], 4, 4),
    ];
    for (leaves, ops, psize, tsize) in sigs {
        let pats = terms_upto(leaves, ops, psize);
        let gl: Vec<String> = leaves.iter().map(|x| x.replace("?x", "a").replace("?y", "b")).collect();
        let gls: Vec<&str> = gl.iter().map(|x| x.as_str()).collect();
        let terms = terms_upto(&gls, ops, tsize);
        let mut rules = vec![];
        for l in &pats {
            for r in &pats {
                let rule = R::new(l.clone(), r.clone());
                if l != r && rule.bound() && rule.alpha() == R::new(S::p(&rule.l.to_string()), rule.r.clone()).alpha() && valid(&rule, &|t, e| Some(total(t, e))) {
                    rules.push(rule);
                }
            }
        }
        let mut seen = std::collections::BTreeSet::new();
        rules.retain(|r| seen.insert(r.alpha()));
        for r in &rules {
            for extra in [0, 1, 2, 3, 4, 5] {
                ctx.case(|| format!("{:?}: {} on its own left-hand side, {} more variables", ops, r, extra), |o| fires(r, extra, o));
            }
        }
        let small: Vec<S> = terms.iter().take(ctx.pick(26, 40)).cloned().collect();
        for r in &rules {
            for k in 1..=2 {
                ctx.case(|| format!("{:?}: {} rounds of {}", ops, k, r), |o| run(&small, &[r.clone()], k, o));
            }
            // the single-term e-graphs
            for t in terms.iter().filter(|t| t.size() > 1).take(ctx.pick(12, 60)) {
                ctx.case(|| format!("{:?}: 2 rounds of {} on {}", ops, r, t), |o| run(&[t.clone()], &[r.clone()], 2, o));
            }
        }
        let step = (rules.len() / ctx.pick(40, 120)).max(1);
        let some: Vec<&R> = rules.iter().step_by(step).collect();
        for i in 0..some.len() {
            for j in i + 1..some.len() {
                for k in 1..=2 {
                    let rs = vec![some[i].clone(), some[j].clone()];
                    ctx.case(|| format!("{:?}: {} rounds of {:?}", ops, k, strs(&rs)), |o| run(&small[..12.min(small.len())], &rs, k, o));
                }
            }
        }
        let nonexp: Vec<R> = rules.iter().filter(|r| r.r.size() <= r.l.size()).cloned().collect();
        for m in 1..6 {
            let rs: Vec<R> = nonexp.iter().enumerate().filter(|(i, _)| i % m == 0).map(|x| x.1.clone()).collect();
            for k in 0..=2 {
                ctx.case(|| format!("{:?}: {} rounds of every {}th of {} rules", ops, k, m, nonexp.len()), |o| run(&terms[..terms.len().min(60)], &rs, k, o));
            }
        }
    }
    // larger terms, more variables, deep undefined positions
    for n in 1..=ctx.pick(9usize, 11) {
        for (i, part) in ["u1_", "u_0", "u__", "u10", "u_1", "u0_"].iter().enumerate() {
            for (j, part2) in ["u1_", "u__", "u_1", "u10"].iter().enumerate() {
                for shape in 0..3usize {
                    let mk = || {
                        let v = |k: usize| a(&format!("?v{}", k % n));
                        let mut l = v(0);
                        let mut r = v(0);
                        for k in 1..=n {
                            l = S::L(vec![a(if k % 2 == 0 { "b0001" } else { "b0110" }), l, if k == n { S::L(vec![a(part), v(k)]) } else { v(k) }]);
                            r = S::L(vec![a(if k % 2 == 0 { "b0001" } else { "b0110" }), if k == 1 { S::L(vec![a(part2), r]) } else { r }, v(k)]);
                        }
                        match shape {
                            0 => R::new(S::L(vec![a(part), l.clone()]), S::L(vec![a(part2), l])),
                            1 => R::new(l, r),
                            _ => R::new(S::L(vec![a(part), S::L(vec![a("u11"), l.clone()])]), S::L(vec![a(part2), S::L(vec![a(part), S::L(vec![a("u11"), r])])])),
                        }
                    };
                    let _ = (i, j);
                    ctx.case(
                        || format!("{} on its own left-hand side", mk()),
                        |o| {
                            let r = mk();
                            // the library asserts that a common total model exists
                            if !valid(&r, &|t, e| Some(total(t, e))) {
                                return Ok(());
                            }
                            fires(&r, 0, o)
                        },
                    );
                }
            }
        }
    }
}

fn main() {
    mc::main(
        Check {
            id: "S04",
            level: "model_checking",
            rule: "6 signatures of partial operators over {0,1}; every rule over patterns up to size 3-4 that is valid in a \
                   fixed total completion, alone on whole workloads and on single terms, in pairs and in bulk, under the \
                   three schedulers for 0..2 rounds; one application of every rule to its own left-hand side with vectors of \
                   length 1-256, equating the sides exactly if both are defined somewhere; state = reference graph. Invariants on every resulting class; exact \
                   comparison when both sides are the same partial function.",
            assumptions: &["rules have a common total model (the library asserts otherwise)"],
            ..Check::DEFAULT
        },
        explore,
    )
}
