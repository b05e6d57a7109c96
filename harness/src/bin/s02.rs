//! Compress scheduling merges, and only merges, existing classes.
use mc::dom::*;
use mc::eqs::*;
use mc::refeg::*;
use mc::*;
use ruler::enumo::{Ruleset, Scheduler};

fn one(terms: &[S], unions: &[(usize, usize)], rules: &[R], k: usize, o: &mut Obs) -> Result<(), String> {
    let (eg, rf) = mirror::<Free>(terms, unions);
    let set: Ruleset<Free> = to_ruleset(rules);
    let want = match ref_compress(&rf, rules, k) {
        Ok(w) => w,
        Err(_) => return Ok(()),
    };
    o.trans(k);
    o.state(&(rf.fingerprint(), want.fingerprint()));
    let out = Scheduler::Compress(unlimited(k)).run(&eg, &set);
    if out.number_of_classes() > eg.number_of_classes() {
        return Err("the number of classes grew".into());
    }
    iso(&out, &want).map_err(|e| format!("after {} rounds: {}", k, e))?;
    iso(&eg, &rf).map_err(|e| format!("the input e-graph changed: {}", e))?;
    for t in terms {
        let id = eg.lookup_expr(&expr(t)).unwrap();
        if out.lookup_expr(&expr(t)).map(|x| out.find(x)) != Some(out.find(id)) {
            return Err(format!("the id of {} does not denote it in the result", t));
        }
    }
    Ok(())
}

fn fin(terms: &[S], rules: &[R], k: usize, o: &mut Obs) -> Result<(), String> {
    use ruler::enumo::Workload;
    let ts: Vec<String> = strs(terms);
    let w = Workload::new(ts.iter().map(|x| x.as_str()).collect::<Vec<_>>());
    let eg = w.to_egraph::<Fin>();
    let set: Ruleset<Fin> = to_ruleset(rules);
    let mut rf = RefEg::new();
    for t in terms {
        rf.add(t);
    }
    for v in ["a", "b"] {
        if terms.iter().any(|t| mentions(t, v)) {
            rf.add(&S::p(v));
        }
    }
    let want = match ref_compress(&rf, rules, k) {
        Ok(w) => w,
        Err(_) => return Ok(()),
    };
    o.trans(k);
    o.state(&(rf.fingerprint(), want.fingerprint()));
    let out = Scheduler::Compress(unlimited(k)).run(&eg, &set);
    let map = iso(&out, &want)?;
    // vectors still belong to the terms of the classes
    let mut vars = vec![];
    for t in terms {
        for v in term_vars(t) {
            if !vars.contains(&v) {
                vars.push(v);
            }
        }
    }
    let mut rows: Vec<_> = assignments(&vars, &[Some(0), Some(1)]);
    for c in out.classes() {
        let t = S::p(&c.data.simplest.to_string());
        if want.lookup(&t) != Some(map[&out.find(c.id)]) {
            return Err(format!("{} recorded in a class it does not belong to", t));
        }
        let mut got = c.data.cvec.clone();
        let mut exp: Vec<Option<u8>> = rows.iter().map(|e| fin_eval(&t, e)).collect();
        got.sort();
        exp.sort();
        if got != exp {
            return Err(format!("vector of the class of {} is {:?}", t, c.data.cvec));
        }
    }
    rows.clear();
    Ok(())
}

fn explore(ctx: &mut Ctx) {
    let pool: Vec<S> = ["a", "(f a)", "(f (f a))", "(g a B)", "(g B a)", "(g (f a) (g a B))", "(h a 0)", "(h (f a) (f 0))",
                        "(g a a)", "(f (f (f B)))", "(h B 0)"].iter().map(|t| S::p(t)).collect();
    let rules: Vec<R> = ["(f ?x) ==> (g ?x ?x)", "(g ?x ?y) ==> (g ?y ?x)", "(f (f ?x)) ==> ?x", "(f ?x) ==> (k (f ?x) ?x)",
                         "(k (f ?x) ?y) ==> (h ?x ?y)", "?x ==> (p ?x)", "(h ?x 0) ==> ?x", "(p (p ?x)) ==> (f ?x)",
                         "(g ?x ?x) ==> ?x", "(h ?x ?y) ==> (q (f ?x) (f ?y))", "(q ?x (f 0)) ==> ?x",
                         "(g ?x B) ==> (f ?x)"]
        .iter().map(|t| R::p(t)).collect();
    let mut graphs: Vec<(Vec<S>, Vec<(usize, usize)>)> = vec![];
    for c in combos(pool.len(), 1, ctx.pick(3, 4)) {
        let ts: Vec<S> = c.iter().map(|i| pool[*i].clone()).collect();
        graphs.push((ts.clone(), vec![]));
        if ts.len() >= 2 {
            graphs.push((ts, vec![(0, 1)]));
        }
    }
    graphs.push((vec![], vec![]));
    graphs.push((pool.clone(), vec![]));
    graphs.push((pool.clone(), vec![(0, 5), (3, 7)]));
    for (ts, us) in &graphs {
        for rs in combos(rules.len(), 0, 2) {
            let rr: Vec<R> = rs.iter().map(|i| rules[*i].clone()).collect();
            for k in 0..=ctx.pick(3, 4) {
                ctx.case(
                    || format!("compress {} rounds of {:?} on {:?} {:?}", k, strs(&rr), strs(ts), us),
                    |o| one(ts, us, &rr, k, o),
                );
            }
        }
    }
    // three-way merges reached only through terms that are not kept
    for rs in combos(rules.len(), 3, 3) {
        let rr: Vec<R> = rs.iter().map(|i| rules[*i].clone()).collect();
        for k in 1..=4 {
            ctx.case(
                || format!("compress {} rounds of {:?} on the whole pool", k, strs(&rr)),
                |o| one(&pool, &[], &rr, k, o),
            );
        }
    }
    // many classes merging into one, and many merging pairwise
    for n in [3usize, 7, 16, 33, 100, 200] {
        let ts: Vec<S> = (0..n).map(|i| S::p(&format!("(c{} a)", i))).collect();
        let sets: Vec<Vec<R>> = vec![
            (0..n).map(|i| R::p(&format!("(c{} ?x) ==> (c0 ?x)", i))).collect(),
            (0..n).map(|i| R::p(&format!("(c{} ?x) ==> (c{} ?x)", i, (i + 1) % n))).collect(),
            (0..n).map(|i| R::p(&format!("(c{} ?x) ==> (m{} ?x)", i, i % 7))).collect(),
            (0..n).map(|i| R::p(&format!("(c{} ?x) ==> (z (c{} ?x))", i, i / 2))).collect(),
        ];
        for (i, rs) in sets.iter().enumerate() {
            for k in [1, 2, 3] {
                ctx.case(
                    || format!("{} classes, rules #{}, {} rounds", n, i, k),
                    |o| one(&ts, &[], rs, k, o),
                );
            }
        }
    }
    // with vectors
    let fterms = terms_upto(&["a", "b", "0"], &[("u10", 1), ("b0001", 2)], 3);
    let frules: Vec<R> = ["(u10 (u10 ?x)) ==> ?x", "(b0001 ?x ?y) ==> (b0001 ?y ?x)", "(b0001 ?x ?x) ==> ?x",
                          "(b0001 ?x 0) ==> 0", "?x ==> (u10 (u10 ?x))", "(b0001 ?x (u10 ?x)) ==> 0"]
        .iter().map(|t| R::p(t)).collect();
    for rs in combos(frules.len(), 0, frules.len()) {
        let rr: Vec<R> = rs.iter().map(|i| frules[*i].clone()).collect();
        for k in 0..=3 {
            ctx.case(|| format!("vectors: {} rounds of {:?}", k, strs(&rr)), |o| fin(&fterms, &rr, k, o));
        }
    }
    // size families
    let cap = ctx.pick(66, 130);
    for n in sizes().into_iter().filter(|n| *n <= cap) {
        for kind in 0..mc::systems::KINDS {
            let rounds = mc::systems::system(kind, n).rounds;
            for k in rounds {
                ctx.case(
                    || format!("{}, {} rounds", mc::systems::system(kind, n).name, k),
                    |o| {
                        let s = mc::systems::system(kind, n);
                        one(&s.terms, &s.unions, &s.rules, k, o)
                    },
                );
            }
        }
    }
}

fn main() {
    mc::main(
        Check {
            id: "S02",
            level: "model_checking",
            rule: "every start e-graph of 1-3 (thorough 4) of 11 terms with and without a union x every ruleset of at \
                   most 2 of 12 rules x 0..3 (4) rounds, all 3-rule sets on the whole pool, up to 200 classes merging \
                   at once, and a domain with vectors; the result must be isomorphic to the start graph with exactly \
                   the classes identified that the naive saturation equates. State = (start, result) graphs.",
            assumptions: &["resource limits are not reached"],
            ..Check::DEFAULT
        },
        explore,
    )
}
