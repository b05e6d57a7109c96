//! Derivability queries.
use mc::dom::*;
use mc::eqs::*;
use mc::refeg::*;
use mc::*;
use ruler::enumo::{Rule, Ruleset};
use ruler::{DeriveType, Limits};

fn dt(both: bool) -> DeriveType {
    if both {
        DeriveType::LhsAndRhs
    } else {
        DeriveType::Lhs
    }
}

fn one(own: &[R], against: &[R], iters: usize, o: &mut Obs) -> Result<(), String> {
    let set: Ruleset<Free> = to_ruleset(own);
    let before = set.to_str_vec();
    for both in [false, true] {
        let mut want = vec![];
        for r in against {
            match model(own, both, r, iters) {
                Ok((w, g)) => {
                    o.trans(iters);
                    o.traces(1);
                    o.state(&(own, r, both, g.fingerprint()));
                    let rule: Rule<Free> = to_ruleset::<Free>(&[r.clone()]).iter().next().unwrap().clone();
                    let got = set.can_derive(dt(both), &rule, unlimited(iters));
                    if got != w {
                        return Err(format!("can_derive({:?}, {}) = {} with {} iterations, expected {}", dt(both), r, got, iters, w));
                    }
                    want.push((r.clone(), w));
                }
                Err(_) => {}
            }
        }
        let ag: Ruleset<Free> = to_ruleset(&want.iter().map(|x| x.0.clone()).collect::<Vec<_>>());
        let (can, cannot) = set.derive(dt(both), &ag, unlimited(iters));
        for (half, bit) in [(&can, true), (&cannot, false)] {
            let w: Vec<R> = want.iter().filter(|x| x.1 == bit).map(|x| x.0.clone()).collect();
            if rules_of(half) != w {
                return Err(format!("derive({:?}): derivable = {} gives {:?}, expected {:?}", dt(both), bit, half.to_str_vec(), strs(&w)));
            }
        }
        o.show(format!("{} of {} derivable", can.len(), want.len()));
    }
    if set.to_str_vec() != before {
        return Err("the ruleset changed".into());
    }
    Ok(())
}

/// Under tight limits a positive answer must still be a consequence.
fn limited(own: &[R], against: &[R], l: Limits, o: &mut Obs) -> Result<(), String> {
    let set: Ruleset<Free> = to_ruleset(own);
    for both in [false, true] {
        for r in against {
            if let Ok((w, g)) = model(own, both, r, l.iter) {
                o.state(&(own, r, both, g.fingerprint()));
                o.trans(l.iter);
                o.traces(1);
                let rule: Rule<Free> = to_ruleset::<Free>(&[r.clone()]).iter().next().unwrap().clone();
                if set.can_derive(dt(both), &rule, l) && !w {
                    return Err(format!("{:?}: {} reported derivable, it does not follow", l, r));
                }
            }
        }
    }
    Ok(())
}

/// Goals from a start term to terms its saturation does and does not reach.
fn goals(terms: &[S], rules: &[R], k: usize, part: usize) -> Vec<R> {
    let mut out: Vec<R> = vec![];
    let pvar = |t: &S| t.map_atoms(&mut |x| if is_var_name(x) && x.len() > 1 && x.as_bytes()[1].is_ascii_digit() || x == "a" { format!("?{}", x) } else { x.to_string() });
    // operators are never confused with variables: map leaves only
    fn leaves(t: &S, f: &dyn Fn(&S) -> S) -> S {
        let (op, kids) = t.op();
        if kids.is_empty() {
            f(t)
        } else {
            S::mk(op, kids.iter().map(|k| leaves(k, f)).collect())
        }
    }
    for t in terms.iter().skip(part).step_by(1 + terms.len() / 3) {
        let mut g = RefEg::new();
        let id = g.add(t);
        if g.run_saturating(rules, k).is_err() {
            continue;
        }
        let id = g.find(id);
        let cost = g.costs(&|_| true);
        let by = g.by_class();
        // smallest term of a class, first node in order
        fn best(g: &RefEg, by: &std::collections::BTreeMap<usize, Vec<(String, Vec<usize>)>>, cost: &std::collections::BTreeMap<usize, usize>, c: usize) -> S {
            let c = g.find(c);
            for (op, ks) in &by[&c] {
                if 1 + ks.iter().map(|k| cost[&g.find(*k)]).sum::<usize>() == cost[&c] {
                    return S::mk(op, ks.iter().map(|k| best(g, by, cost, *k)).collect());
                }
            }
            unreachable!()
        }
        let mut picks: Vec<S> = vec![];
        for (op, ks) in by[&id].iter().take(4) {
            picks.push(S::mk(op, ks.iter().map(|k| best(&g, &by, &cost, *k)).collect()));
        }
        for c in by.keys().rev().take(3) {
            picks.push(best(&g, &by, &cost, *c));
        }
        let size = t.size();
        for p in picks {
            if p.size() > 4 * size + 200 {
                continue;
            }
            let r = R::new(leaves(t, &pvar), leaves(&p, &pvar));
            for x in [r.rev(), r] {
                if x.bound() && !out.contains(&x) {
                    out.push(x);
                }
            }
        }
    }
    out
}

fn explore(ctx: &mut Ctx) {
    let rules: Vec<R> = [
        "(g ?x ?y) ==> (g ?y ?x)", "(f (f ?x)) ==> ?x", "(g ?x ?x) ==> (f ?x)", "(f ?x) ==> (h ?x 0)", "(h ?x 0) ==> ?x",
        "(g (g ?x ?y) ?z) ==> (g ?x (g ?y ?z))", "(f (g ?x ?y)) ==> (g (f ?x) (f ?y))", "?x ==> (f (f ?x))", "(g ?x 0) ==> 0",
        "(h ?x ?y) ==> (h ?y ?x)", "(f ?y) ==> (g ?y 0)", "0 ==> (f 0)",
    ].iter().map(|t| R::p(t)).collect();
    let pats = terms_upto(&["?x", "?y", "0"], &[("f", 1), ("g", 2)], 3);
    let mut against: Vec<R> = vec![];
    for l in &pats {
        for r in &pats {
            let x = R::new(l.clone(), r.clone());
            if l != r && x.bound() && l.size() + r.size() <= 6 {
                against.push(x);
            }
        }
    }
    for t in ["(f (f (f (f ?a)))) ==> ?a", "?a ==> (f (f (f (f ?a))))", "(g ?a (g ?b ?c)) ==> (g (g ?c ?b) ?a)", "(g ?p ?q) ==> (f (f (g ?q ?p)))",
              "(h (f (f ?a)) 0) ==> ?a", "(f (g (f ?a) (f ?b))) ==> (g ?b ?a)", "(g ?x (f ?x)) ==> (g (f ?x) ?x)", "(g (f (f ?z)) ?z) ==> (f ?z)",
              "(h 0 (f ?w)) ==> (f ?w)", "(f ?a) ==> (f ?a)", "(g (g ?a ?b) (g ?c ?d)) ==> (g (g ?d ?c) (g ?b ?a))"] {
        against.push(R::p(t));
    }
    let chunks: Vec<Vec<R>> = against.chunks(9).map(|c| c.to_vec()).collect();
    for rs in combos(rules.len(), 0, ctx.pick(2, 3)) {
        let own: Vec<R> = rs.iter().map(|i| rules[*i].clone()).collect();
        for iters in 0..=ctx.pick(2, 3) {
            for (i, ag) in chunks.iter().enumerate() {
                ctx.case(
                    || format!("{} iterations, own {:?}, against #{}", iters, strs(&own), i),
                    |o| one(&own, ag, iters, o),
                );
            }
        }
    }
    for rs in combos(rules.len(), 1, 2) {
        let own: Vec<R> = rs.iter().map(|i| rules[*i].clone()).collect();
        for (i, ag) in chunks.iter().enumerate() {
            if ctx.quick() && (i + rs[0]) % 2 != 0 {
                continue;
            }
            for (node, m) in [(0, 100), (2, 100), (6, 100), (1000, 0), (1000, 1), (1000, 2), (12, 3)] {
                let l = Limits { iter: 2, node, match_: m };
                ctx.case(|| format!("{:?}, own {:?}, against #{}", l, strs(&own), i), |o| limited(&own, ag, l, o));
            }
        }
    }
    // proofs that need exactly n non-saturating iterations
    for n in 1..=ctx.pick(7usize, 12) {
        let own: Vec<R> = (0..n).map(|i| R::p(&format!("(c{} ?x) ==> (c{} (w ?x))", i, i + 1))).rev().collect();
        let mut t = S::p("?x");
        for _ in 0..n {
            t = S::mk("w", vec![t]);
        }
        let goal = R::new(S::p("(c0 ?x)"), S::mk(&format!("c{}", n), vec![t]));
        let back = goal.rev();
        for iters in n.saturating_sub(1)..=n + 1 {
            ctx.case(
                || format!("proof of {} steps, {} iterations", n, iters),
                |o| one(&own, &[goal.clone(), back.clone()], iters, o),
            );
        }
    }
    // many rules on both sides
    for n in [10usize, 40, 130, 300] {
        let own: Vec<R> = (0..n).map(|i| R::p(&format!("(c{} ?x) ==> (c{} ?x)", i, i / 2))).collect();
        let ag: Vec<R> = (0..n).map(|i| R::p(&format!("(c{} ?x) ==> (c{} ?x)", i, i / 3))).collect();
        ctx.case(|| format!("{} rules against {}", n, n), |o| one(&own, &ag[n - 10..], 1, o));
    }
    // sides with hundreds of different subterms
    for n in [60usize, 120, 190, 210, 255, 260, 330, 520] {
        if ctx.quick() && n > 400 {
            continue;
        }
        for at in [0usize, 1, n / 2, n - 2, n - 1] {
            let tower = |from: &str, swap: usize| (0..n).fold(S::p("?x"), |t, i| S::mk(&format!("{}{}", if i == swap { "d" } else { from }, i), vec![t]));
            let own = vec![R::p(&format!("(c{} ?y) ==> (d{} ?y)", at, at))];
            let ag = vec![R::new(tower("c", n), tower("c", at)), R::new(tower("c", at), tower("c", n)), R::new(tower("c", n), tower("c", (at + 1) % n))];
            for k in [1usize, 2] {
                ctx.case(|| format!("towers of {} operators differing at {}, {} iterations", n, at, k), |o| one(&own, &ag, k, o));
            }
            // a proof through a large graph
            if ctx.quick() && (at != 1 || n > 260) {
                continue;
            }
            let mut many: Vec<R> = (0..n).map(|i| R::p(&format!("(c{} ?y) ==> (e{} ?y)", i, i))).collect();
            many.push(R::p(&format!("(e{} ?y) ==> (d{} ?y)", at, at)));
            for k in [1usize, 2] {
                ctx.case(|| format!("towers of {} operators differing at {} in two steps, {} iterations", n, at, k), |o| one(&many, &ag, k, o));
            }
        }
    }
    // size families: own rules of a system, goals between terms of its result
    let cap = ctx.pick(34, 66);
    for n in sizes().into_iter().filter(|n| *n <= cap) {
        for kind in 0..mc::systems::KINDS {
            for k in 1..=2usize {
                for part in 0..4usize {
                    ctx.case(
                        || format!("{}, {} iterations, goals #{}", mc::systems::system(kind, n).name, k, part),
                        |o| {
                            let s = mc::systems::system(kind, n);
                            let ags = goals(&s.terms, &s.rules, k, part);
                            one(&s.rules, &ags, k, o)
                        },
                    );
                }
            }
        }
    }
    // large sides, equal up to a permutation that commutativity explains, or
    // different in one place
    for n in 1..=ctx.pick(24usize, 40) {
        for shape in 0..4 {
            for v in 1..=4usize {
                for (i, own) in [
                    &["(g ?x ?y) ==> (g ?y ?x)"][..],
                    &["(f (f ?x)) ==> ?x", "(g ?x ?x) ==> ?x"],
                    &["(f ?x) ==> (g ?x ?x)"],
                    &["(g ?x ?x) ==> (f ?x)", "(f ?a) ==> ?a"],
                    &["(w ?a ?b) ==> (w ?b ?a)", "?x ==> (f (f ?x))"],
                ]
                .iter()
                .enumerate()
                {
                    let mk = || {
                        let vs: Vec<S> = (0..v).map(|j| a(&format!("?{}", mc::systems::var_name(j, (n + i) % 6)))).collect();
                        let l = mc::systems::big(n, shape, &vs);
                        // swap or change arguments somewhere
                        fn edit(t: &S, at: &mut i64, how: usize) -> S {
                            let (op, kids) = t.op();
                            if kids.is_empty() {
                                return t.clone();
                            }
                            *at -= 1;
                            let here = *at == 0;
                            let mut ks: Vec<S> = kids.iter().map(|k| edit(k, at, how)).collect();
                            if here {
                                match how {
                                    0 => ks.reverse(),
                                    1 => return ks[0].clone(),
                                    2 => return S::mk("f", vec![S::mk("f", vec![S::mk(op, ks)])]),
                                    _ => {
                                        let x = ks[0].clone();
                                        *ks.last_mut().unwrap() = x;
                                    }
                                }
                            }
                            S::mk(op, ks)
                        }
                        let mut rs = vec![];
                        for how in 0..4 {
                            let r = R::new(l.clone(), edit(&l, &mut (1 + (n * 3 + v + how) as i64 % (n as i64 + 1)), how));
                            for x in [r.rev(), r] {
                                if x.bound() && !rs.contains(&x) {
                                    rs.push(x);
                                }
                            }
                        }
                        rs
                    };
                    for k in [1, 2] {
                        ctx.case(
                            || format!("{:?}, {} iterations, {} nodes, {} variables, shape {}", own, k, n, v, shape),
                            |o| one(&own.iter().map(|t| R::p(t)).collect::<Vec<_>>(), &mk(), k, o),
                        );
                    }
                }
            }
        }
    }
}

fn main() {
    mc::main(
        Check {
            id: "D01",
            level: "model_checking",
            rule: "every ruleset of at most 2 (thorough 3) of 12 rules x every rule over patterns up to size 3 (and 11 larger) \
                   x both derive types x 0..2 (3) iterations, compared with the reference saturation; proofs needing exactly \
                   n iterations, size families (11 kinds of systems up to size 34 (66), goals between large terms), up to 300 rules, and soundness under tight node/match limits. State = reference graph.",
            assumptions: &["no time-out (600 s) of the runner"],
            ..Check::DEFAULT
        },
        explore,
    )
}
