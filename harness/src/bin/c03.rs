//! Candidates extracted from two e-graphs (fast-forwarding).
use mc::dom::*;
use mc::eqs::*;
use mc::*;
use ruler::enumo::{Ruleset, Scheduler};

fn allowed(op: &str) -> bool {
    !op.starts_with('_')
}

/// eg2 = eg1 after `how`.
fn one(ts: &[S], us: &[(usize, usize)], extra: &[S], merges: &[(usize, usize)], rules: &[R], sched: usize, k: usize, o: &mut Obs) -> Result<(), String> {
    let (eg1, rf1) = mirror::<Free>(ts, us);
    let mut eg2 = eg1.clone();
    let mut rf2 = rf1.clone();
    let all: Vec<S> = ts.iter().chain(extra).cloned().collect();
    let ids: Vec<_> = all.iter().map(|t| eg2.add_expr(&expr(t))).collect();
    let rids: Vec<_> = all.iter().map(|t| rf2.add(t)).collect();
    for (i, j) in merges {
        eg2.union(ids[*i], ids[*j]);
        rf2.union(rids[*i], rids[*j]);
    }
    eg2.rebuild();
    rf2.rebuild();
    if !rules.is_empty() {
        let set: Ruleset<Free> = to_ruleset(rules);
        if sched == 0 {
            eg2 = Scheduler::Simple(unlimited(k)).run(&eg2, &set);
            if rf2.simple(rules, k).is_err() {
                return Ok(());
            }
        } else {
            eg2 = Scheduler::Compress(unlimited(k)).run(&eg2, &set);
            rf2 = match ref_compress(&rf2, rules, k) {
                Ok(x) => x,
                Err(_) => return Ok(()),
            };
        }
    }
    // pairs of classes of the first graph that the second identifies
    let cs: Vec<usize> = rf1.classes().into_iter().collect();
    let mut pairs = vec![];
    for (i, x) in cs.iter().enumerate() {
        for y in &cs[i + 1..] {
            if rf2.find(*x) == rf2.find(*y) {
                pairs.push((*x, *y));
            }
        }
    }
    let reps = match smallest(&rf1, &allowed, 300) {
        Some(r) => r,
        None => return Ok(()),
    };
    let got = rules_of(&Ruleset::extract_candidates(&eg1, &eg2));
    o.outcome(&strs(&got));
    o.show(format!("{} pairs, {} candidates", pairs.len(), got.len()));
    for g in &got {
        let mut bad = false;
        g.l.walk(&mut |x| bad |= matches!(x, S::A(y) if y.starts_with('_')));
        g.r.walk(&mut |x| bad |= matches!(x, S::A(y) if y.starts_with('_')));
        if bad {
            return Err(format!("{} uses an operator that is not allowed", g));
        }
    }
    check_candidates(&got, &pairs, &reps)
}

fn explore(ctx: &mut Ctx) {
    let pool: Vec<S> = ["a", "b", "B", "(f a)", "(f b)", "(_h a)", "(f (_h a))", "(g a b)", "(g b a)", "(_k a b)", "_c", "(g (f a) _c)", "(f (f a))", "0"]
        .iter().map(|t| S::p(t)).collect();
    let npool = ctx.pick(11, pool.len());
    let pool: Vec<S> = if ctx.quick() { pool[..npool].to_vec() } else { pool };
    // arbitrary merges
    for c in combos(pool.len(), 2, 4) {
        let ts: Vec<S> = c.iter().map(|i| pool[*i].clone()).collect();
        let n = ts.len();
        let all: Vec<(usize, usize)> = (0..n).flat_map(|i| (i + 1..n).map(move |j| (i, j))).collect();
        for us in std::iter::once(vec![]).chain(all.iter().map(|u| vec![*u])) {
            for m in combos(all.len(), 0, 2) {
                let ms: Vec<(usize, usize)> = m.iter().map(|i| all[*i]).collect();
                if us.len() == 1 && ms.len() == 2 && ctx.quick() && n == 4 {
                    continue;
                }
                ctx.case(
                    || format!("{:?} unions {:?}, then merges {:?}", strs(&ts), us, ms),
                    |o| one(&ts, &us, &[], &ms, &[], 0, 0, o),
                );
            }
        }
    }
    // growth by rules, as fast-forwarding does it
    let rules: Vec<R> = ["(f ?x) ==> (_h ?x)", "(_h ?x) ==> (f (f ?x))", "(_k ?x ?y) ==> (g ?y ?x)", "(g ?x ?y) ==> (_k ?x ?y)", "(_k ?x ?y) ==> (_k ?y ?x)",
                         "(f (_h ?x)) ==> ?x", "(_h (_h ?x)) ==> ?x", "(g ?x ?x) ==> (f ?x)", "_c ==> (f B)", "(f ?x) ==> (_k ?x _c)", "(g ?x _c) ==> ?x"]
        .iter().map(|t| R::p(t)).collect();
    let base = terms_upto(&["a", "b"], &[("f", 1), ("g", 2)], 3);
    let base2: Vec<S> = terms_upto(&["a", "b", "_c"], &[("f", 1), ("_h", 1), ("_k", 2)], 3);
    for c in combos(rules.len(), 1, ctx.pick(3, 4)) {
        let rs: Vec<R> = c.iter().map(|i| rules[*i].clone()).collect();
        for (name, ts) in [("b1", &base), ("b2", &base2), ("pool", &pool)] {
            for (sched, k) in [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3)] {
                ctx.case(
                    || format!("{} after {} rounds ({}) of {:?}", name, k, ["simple", "compress"][sched], strs(&rs)),
                    |o| one(ts, &[], &[], &[], &rs, sched, k, o),
                );
            }
        }
    }
    // terms present only in the second graph are not candidates
    for i in 0..pool.len() {
        for j in 0..pool.len() {
            for t in ["(f (f (f a)))", "(g B B)", "c"] {
                let ts = vec![pool[i].clone(), S::p("(g b B)")];
                ctx.case(
                    || format!("{:?} then adding {} {}", strs(&ts), t, pool[j]),
                    |o| one(&ts, &[], &[S::p(t), pool[j].clone()], &[(0, 2), (1, 3)], &[], 0, 0, o),
                );
            }
        }
    }
    for n in [10usize, 50, 120] {
        let ts: Vec<S> = (0..n).map(|i| S::p(&format!("({}c{} a)", if i % 9 == 8 { "_" } else { "" }, i))).collect();
        let ms: Vec<(usize, usize)> = (0..n).filter(|i| i % 7 != 0).map(|i| (i, i - i % 7)).collect();
        ctx.case(|| format!("{} terms in groups of 7", n), |o| one(&ts, &[], &[], &ms, &[], 0, 0, o));
    }
    // terms of every size, merged in groups; disallowed operators anywhere
    for n in 1..=ctx.pick(30usize, 60) {
        for shape in 0..4usize {
            for bad in 0..3usize {
                let mk = || {
                    let vs = [a("a"), a("b"), a("B")];
                    let mut ts: Vec<S> = vec![];
                    for i in 0..5usize {
                        let t = mc::systems::big(n / (1 + i % 3) + i % 2, (shape + i) % 4, &vs[..1 + (i + n) % 3]);
                        ts.push(S::mk(&format!("c{}", i), vec![t.clone()]));
                        // the same with a disallowed operator somewhere inside
                        let mut at = 1 + (n * (i + 1)) % (n + 2);
                        fn taint(t: &S, at: &mut usize) -> S {
                            let (op, kids) = t.op();
                            if kids.is_empty() {
                                return t.clone();
                            }
                            *at = at.saturating_sub(1);
                            let here = *at == 0;
                            if here {
                                *at = usize::MAX;
                            }
                            let ks = kids.iter().map(|k| taint(k, at)).collect();
                            S::mk(&format!("{}{}", if here { "_" } else { "" }, op), ks)
                        }
                        if i % 3 < bad {
                            ts.push(taint(&t, &mut at));
                        }
                        ts.push(t);
                    }
                    let m = ts.len();
                    let mut us = vec![];
                    let mut ms = vec![];
                    for i in 1..m {
                        match (i * 3 + n + bad) % 5 {
                            0 => us.push((i - 1, i)),
                            1 => ms.push((i / 2, i)),
                            2 => ms.push((0, i)),
                            _ => {}
                        }
                    }
                    (ts, us, ms)
                };
                ctx.case(
                    || format!("terms of about {} nodes, shape {}, disallowed {}", n, shape, bad),
                    |o| {
                        let (ts, us, ms) = mk();
                        one(&ts, &us, &[], &ms, &[], 0, 0, o)?;
                        one(&ts, &[], &[], &us, &[], 0, 0, o)
                    },
                );
            }
        }
    }
    // groups of every size
    for n in sizes().into_iter().filter(|n| *n <= 66) {
        for g in [1usize, 2, 3, 4, 5, 6, 9, 17, 33] {
            let ts: Vec<S> = (0..n).map(|i| S::p(&format!("(c{} {})", i, ["a", "b", "B", "_c"][(i * i) % 4]))).collect();
            let ms: Vec<(usize, usize)> = (0..n).filter(|i| i % g != 0).map(|i| (if n % 2 == 0 { i - 1 } else { i - i % g }, i)).collect();
            ctx.case(|| format!("{} terms in groups of {}", n, g), |o| one(&ts, &[], &[], &ms, &[], 0, 0, o));
        }
    }
}

fn main() {
    mc::main(
        Check {
            id: "C03",
            level: "exploration",
            rule: "every set of 2-4 of 11 (thorough 14) terms with allowed and disallowed operators, with at most one union \
                   before and two merges after; every set of at most 3 (4) of 11 rules growing or compressing three start \
                   graphs; terms that exist only afterwards; groups of up to 120 terms, terms of up to 30 (60) nodes with a disallowed operator anywhere. Candidates must be exactly the \
                   newly identified pairs of classes that have allowed terms, represented by smallest allowed terms. \
                   Outcome = candidate list.",
            assumptions: &[],
            ..Check::DEFAULT
        },
        explore,
    )
}
