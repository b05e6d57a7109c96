//! Simple scheduling performs exactly the rounds it is limited to.
use mc::dom::*;
use mc::eqs::*;
use mc::refeg::*;
use mc::*;
use ruler::enumo::{Ruleset, Scheduler};
use ruler::Limits;

fn one(terms: &[S], unions: &[(usize, usize)], rules: &[R], k: usize, o: &mut Obs) -> Result<(), String> {
    let (eg, rf) = mirror::<Free>(terms, unions);
    let set: Ruleset<Free> = to_ruleset(rules);
    let mut want = rf.clone();
    let n = match want.simple(rules, k) {
        Ok(n) => n,
        Err(_) => return Ok(()),
    };
    o.trans(n);
    o.state(&want.fingerprint());
    // the most matches any rule has in any round
    let mut most = 0;
    let mut step = rf.clone();
    for _ in 0..k {
        for r in rules {
            most = most.max(step.ematch(&r.l).len());
        }
        if step.simple(rules, 1).is_err() {
            break;
        }
    }
    let limits = Limits { iter: k, node: 1_000_000, match_: most };
    let out = Scheduler::Simple(limits).run(&eg, &set);
    iso(&out, &want).map_err(|e| format!("after {} rounds: {}", k, e))?;
    iso(&eg, &rf).map_err(|e| format!("the input e-graph changed: {}", e))?;
    for t in terms {
        let id = eg.lookup_expr(&expr(t)).unwrap();
        if out.lookup_expr(&expr(t)).map(|x| out.find(x)) != Some(out.find(id)) {
            return Err(format!("the id of {} does not denote it in the result", t));
        }
    }
    Ok(())
}

fn limited(terms: &[S], unions: &[(usize, usize)], rules: &[R], l: Limits, o: &mut Obs) -> Result<(), String> {
    let (eg, rf) = mirror::<Free>(terms, unions);
    let set: Ruleset<Free> = to_ruleset(rules);
    for s in 0..3 {
        let mut want = rf.clone();
        let sched = match s {
            0 => Scheduler::Simple(l),
            1 => Scheduler::Saturating(l),
            _ => Scheduler::Compress(l),
        };
        let r = match s {
            0 => want.simple(rules, l.iter).map(|_| ()),
            1 => want.run_saturating(rules, l.iter).map(|_| ()),
            _ => ref_compress(&rf, rules, l.iter).map(|x| want = x),
        };
        if r.is_err() {
            continue;
        }
        o.state(&(s, want.fingerprint()));
        o.trans(l.iter);
        o.traces(1);
        let out = sched.run(&eg, &set);
        embeds(&out, &want).map_err(|e| format!("{:?}: {}", sched, e))?;
        for t in terms {
            let id = eg.lookup_expr(&expr(t)).unwrap();
            if out.lookup_expr(&expr(t)).map(|x| out.find(x)) != Some(out.find(id)) {
                return Err(format!("{:?}: the id of {} does not denote it in the result", sched, t));
            }
        }
        for (i, j) in unions {
            if out.lookup_expr(&expr(&terms[*i])) != out.lookup_expr(&expr(&terms[*j])) {
                return Err(format!("{:?}: an equality of the input was lost", sched));
            }
        }
    }
    Ok(())
}

fn explore(ctx: &mut Ctx) {
    let pool: Vec<S> = ["a", "(f a)", "(f (f a))", "(g a B)", "(g (f a) (g a B))", "(h a 0)", "(h (f a) (f 0))",
                        "(g a a)", "(f (f (f B)))", "(g (g a B) 0)"].iter().map(|t| S::p(t)).collect();
    let rules: Vec<R> = ["(f ?x) ==> (g ?x ?x)", "(g ?x ?y) ==> (g ?y ?x)", "(f (f ?x)) ==> ?x", "(f ?x) ==> (f (f ?x))",
                         "(g (g ?x ?y) ?z) ==> (g ?x (g ?y ?z))", "?x ==> (f ?x)", "(h ?x 0) ==> ?x", "(f ?x) ==> 0",
                         "0 ==> (f 0)", "(g ?x ?x) ==> ?x", "(h ?x ?y) ==> (g (f ?x) (f ?y))", "(g ?x B) ==> (h B ?x)",
                         "(g (f ?x) ?y) ==> (f (g ?x ?y))"]
        .iter().map(|t| R::p(t)).collect();
    let mut graphs: Vec<(Vec<S>, Vec<(usize, usize)>)> = vec![];
    for c in combos(pool.len(), 1, 2) {
        let ts: Vec<S> = c.iter().map(|i| pool[*i].clone()).collect();
        graphs.push((ts.clone(), vec![]));
        if ts.len() == 2 {
            graphs.push((ts, vec![(0, 1)]));
        }
    }
    graphs.push((vec![], vec![]));
    graphs.push((pool.clone(), vec![]));
    graphs.push((pool.clone(), vec![(0, 4), (3, 8)]));
    let sets = combos(rules.len(), 0, ctx.pick(2, 3));
    for (ts, us) in &graphs {
        for rs in &sets {
            let rr: Vec<R> = rs.iter().map(|i| rules[*i].clone()).collect();
            for k in 0..=ctx.pick(3, 4) {
                ctx.case(
                    || format!("{} rounds of {:?} on {:?} {:?}", k, strs(&rr), strs(ts), us),
                    |o| one(ts, us, &rr, k, o),
                );
            }
        }
    }
    // limits
    for (ts, us) in &graphs {
        for rs in combos(rules.len(), 1, 2) {
            let rr: Vec<R> = rs.iter().map(|i| rules[*i].clone()).collect();
            if ctx.quick() && rs.len() == 2 && (rs[0] * 5 + rs[1] + ts.len()) % 2 != 0 {
                continue;
            }
            for (node, m) in [(0, 1000), (1, 1000), (4, 1000), (9, 3), (1000, 0), (1000, 1), (1000, 2), (1000, 3), (25, 5)] {
                for iter in [1, 3] {
                    let l = Limits { iter, node, match_: m };
                    ctx.case(
                        || format!("{:?} {:?} on {:?} {:?}", l, strs(&rr), strs(ts), us),
                        |o| limited(ts, us, &rr, l, o),
                    );
                }
            }
        }
    }
    // larger inputs
    for n in [20usize, 60, 150] {
        let big: Vec<S> = (0..n)
            .map(|i| {
                let mut t = S::p(if i % 3 == 0 { "a" } else { "B" });
                for b in 0..8 {
                    t = if i >> b & 1 == 1 { S::mk("f", vec![t]) } else { S::mk("g", vec![t, S::p("0")]) };
                }
                t
            })
            .collect();
        let many: Vec<R> = (0..n)
            .map(|i| R::p(&format!("(g{} ?x) ==> (g{} ?x)", i, i + 1)))
            .chain(rules.iter().take(2).cloned())
            .collect();
        for k in 1..=2 {
            let mut ts = big.clone();
            ts.push(S::p("(g0 (g5 a))"));
            ctx.case(|| format!("{} terms, {} rounds", n, k), |o| one(&ts, &[(0, 1)], &rules[..3], k, o));
            ctx.case(|| format!("{} rules, {} rounds", n, k), |o| one(&ts[n - 3..], &[], &many, k, o));
        }
        // long chains need as many rounds as rules
        for k in [n - 1, n, n + 1] {
            let chain: Vec<R> = (0..n).rev().map(|i| R::p(&format!("(g{} ?x) ==> (g{} ?x)", i, i + 1))).collect();
            ctx.case(|| format!("chain of {} rules, {} rounds", n, k), |o| one(&[S::p("(g0 a)")], &[], &chain, k, o));
        }
    }
    // size families
    let cap = ctx.pick(66, 130);
    for n in sizes().into_iter().filter(|n| *n <= cap) {
        for kind in 0..mc::systems::KINDS {
            let rounds = mc::systems::system(kind, n).rounds;
            for k in rounds {
                ctx.case(
                    || format!("{}, {} rounds", mc::systems::system(kind, n).name, k),
                    |o| {
                        let s = mc::systems::system(kind, n);
                        one(&s.terms, &s.unions, &s.rules, k, o)
                    },
                );
            }
        }
    }
}

fn main() {
    mc::main(
        Check {
            id: "S01",
            level: "model_checking",
            rule: "every start e-graph of 1-2 of 10 terms (with and without a union) x every ruleset of at most \
                   2 (thorough 3) of 13 rules (expanding, collapsing, permuting) x 0..3 (4) rounds, the match \
                   limit set to exactly the number of matches needed: the result must be isomorphic to the naive \
                   e-graph after the same rounds; plus tight node and match limits under all three schedulers, \
                   where the result must embed in it; plus up to 150 terms and 150-rule chains. State = reference \
                   e-graph; transition = one round.",
            assumptions: &["no time-out (600 s) of the runner"],
            ..Check::DEFAULT
        },
        explore,
    )
}
