//! Saturating scheduling and the classification of rules it relies on.
use mc::dom::*;
use mc::eqs::*;
use mc::refeg::*;
use mc::*;
use ruler::enumo::{Rule, Ruleset, Scheduler};

fn classify(l: &S, r: &S, o: &mut Obs) -> Result<(), String> {
    let rule = R::new(l.clone(), r.clone());
    let want = RefEg::saturating(&rule);
    let x: Rule<Free> = Rule::new(&l.to_string().parse().unwrap(), &r.to_string().parse().unwrap()).unwrap();
    o.state(&rule);
    if x.is_saturating() != want {
        return Err(format!("{} is classified saturating = {}, expected {}", rule, !want, want));
    }
    Ok(())
}

/// The guarantee behind the classification: applying a saturating rule to any
/// e-graph adds no class.
fn guarantee(rule: &R, graphs: &[(Vec<S>, Vec<(usize, usize)>)], o: &mut Obs) -> Result<(), String> {
    let x: Rule<Free> = to_ruleset::<Free>(&[rule.clone()]).iter().next().unwrap().clone();
    if !x.is_saturating() {
        return Ok(());
    }
    for (ts, us) in graphs {
        let (mut eg, _) = mirror::<Free>(ts, us);
        let before = eg.number_of_classes();
        let ms = x.rewrite.search(&eg);
        x.rewrite.apply(&mut eg, &ms);
        eg.rebuild();
        o.trans(1);
        if eg.number_of_classes() > before {
            return Err(format!("saturating rule {} adds a class on {:?} {:?}", rule, strs(ts), us));
        }
    }
    Ok(())
}

fn one(terms: &[S], unions: &[(usize, usize)], rules: &[R], k: usize, o: &mut Obs) -> Result<(), String> {
    let (eg, rf) = mirror::<Free>(terms, unions);
    let set: Ruleset<Free> = to_ruleset(rules);
    let mut want = rf.clone();
    match want.run_saturating(rules, k) {
        Ok(n) => o.trans(n),
        Err(_) => return Ok(()),
    }
    o.state(&want.fingerprint());
    let out = Scheduler::Saturating(unlimited(k)).run(&eg, &set);
    iso(&out, &want).map_err(|e| format!("{} iterations: {}", k, e))?;
    iso(&eg, &rf).map_err(|e| format!("the input e-graph changed: {}", e))?;
    Ok(())
}

fn explore(ctx: &mut Ctx) {
    let pats = terms_upto(&["?x", "?y", "0"], &[("f", 1), ("g", 2)], ctx.pick(5, 5));
    let pool: Vec<S> = ["a", "(f a)", "(f (f (f (f (f a)))))", "(g a (g B (g a 0)))", "(g (f a) (g a B))", "(h a 0)",
                        "(h (f a) (f 0))", "(f (g (f a) (f B)))"].iter().map(|t| S::p(t)).collect();
    let mut graphs: Vec<(Vec<S>, Vec<(usize, usize)>)> = vec![];
    for c in combos(pool.len(), 1, 2) {
        let ts: Vec<S> = c.iter().map(|i| pool[*i].clone()).collect();
        graphs.push((ts.clone(), vec![]));
        if ts.len() == 2 {
            graphs.push((ts, vec![(0, 1)]));
        }
    }
    graphs.push((pool.clone(), vec![]));
    graphs.push((pool.clone(), vec![(0, 4), (3, 6)]));
    let mut more = pats.clone();
    for p in ["(f (g ?x (f ?y)))", "(h ?x ?y ?x)", "(h (f ?x) (f ?x) (f (f ?x)))", "(k (f ?x) (g ?x ?y))", "(g (f ?x) (f (f ?y)))"] {
        more.push(S::p(p));
    }
    for l in &more {
        for r in &more {
            let rule = R::new(l.clone(), r.clone());
            if !rule.bound() {
                continue;
            }
            ctx.case(|| format!("classify {}", rule), |o| classify(l, r, o));
            if l.size() + r.size() <= ctx.pick(6, 7) {
                ctx.case(|| format!("guarantee {}", rule), |o| guarantee(&rule, &graphs, o));
            }
        }
    }
    let rules: Vec<R> = [
        // saturating
        "(g ?x ?y) ==> (g ?y ?x)", "(f (f ?x)) ==> ?x", "(g ?x ?x) ==> (f ?x)", "(h ?x 0) ==> ?x", "(m ?x) ==> (f ?x)",
        "(p (m ?x)) ==> ?x",
        // not saturating
        "(f ?x) ==> (m (m ?x))", "(g ?x (g ?y ?z)) ==> (g (g ?x ?y) ?z)", "(h ?x ?y) ==> (g (f ?x) (f ?y))", "(f ?x) ==> (p (m (f ?x)))",
        "(g ?x ?y) ==> (q (p ?x))", "(q ?x) ==> (m (p ?x))",
    ].iter().map(|t| R::p(t)).collect();
    for (ts, us) in &graphs {
        for rs in combos(rules.len(), 0, ctx.pick(3, 4)) {
            let rr: Vec<R> = rs.iter().map(|i| rules[*i].clone()).collect();
            for k in 0..=3 {
                ctx.case(
                    || format!("saturating {} iterations of {:?} on {:?} {:?}", k, strs(&rr), strs(ts), us),
                    |o| one(ts, us, &rr, k, o),
                );
            }
        }
    }
    // long saturation phases between single steps of the others
    for n in [5usize, 12, 35, 70] {
        let chain: Vec<R> = (0..n)
            .map(|i| R::p(&if i % 5 == 4 { format!("(c{} ?x) ==> (w (w (c{} ?x)))", i, i + 1) } else { format!("(c{} ?x) ==> (c{} ?x)", i, i + 1) }))
            .chain([R::p("(w (w ?x)) ==> ?x")])
            .collect();
        let mut rev = chain.clone();
        rev.reverse();
        for k in 0..=(n / 5 + 1).min(10) {
            ctx.case(|| format!("chain of {} rules, {} iterations", n, k), |o| one(&[S::p("(c0 a)")], &[], &chain, k, o));
            ctx.case(|| format!("reversed chain of {} rules, {} iterations", n, k), |o| one(&[S::p("(c0 a)")], &[], &rev, k, o));
        }
    }
    // one saturation phase of many rounds: by a chain of rules, and by equalities
    // each of which enables the next
    for n in [1usize, 2, 3, 5, 9, 11, 13, 17, 31, 33, 65, ctx.pick(101, 260)] {
        for tail in 0..3usize {
            let mut chain: Vec<R> = (0..n).map(|i| R::p(&format!("(c{} ?x) ==> (c{} ?x)", i, i + 1))).collect();
            let mut peel: Vec<R> = (0..n).map(|i| R::p(&format!("(h{} z) ==> z", i))).collect();
            let tower = (0..n).fold(a("z"), |t, i| S::L(vec![a(&format!("h{}", i)), t]));
            if tail > 0 {
                // ... then a step of a rule that is not saturating
                chain.push(R::p(&format!("(c{} ?x) ==> (w (w ?x))", n)));
                peel.push(R::p(&format!("(h{} ?x) ==> (w (w ?x))", n - 1)));
            }
            if tail > 1 {
                chain.push(R::p("(w (w ?x)) ==> (v (c0 ?x))"));
                peel.push(R::p("(w (w z)) ==> (v (h0 0))"));
            }
            for k in 0..=2 {
                ctx.case(|| format!("a phase of {} rounds, tail {}, {} iterations", n, tail, k), |o| one(&[S::p("(c0 a)")], &[], &chain, k, o));
                ctx.case(|| format!("a phase of {} merges, tail {}, {} iterations", n, tail, k), |o| one(&[tower.clone()], &[], &peel, k, o));
                ctx.case(|| format!("phases of {} rounds on two terms, tail {}, {} iterations", n, tail, k), |o| one(&[tower.clone(), S::p("(q (c0 a) (c0 b))")], &[], &[chain.clone(), peel.clone()].concat(), k, o));
            }
        }
    }
    // size families
    let cap = ctx.pick(34, 66);
    for n in sizes().into_iter().filter(|n| *n <= cap) {
        for kind in 0..mc::systems::KINDS {
            let rounds = mc::systems::system(kind, n).rounds;
            for k in rounds {
                ctx.case(
                    || format!("{}, {} rounds", mc::systems::system(kind, n).name, k),
                    |o| {
                        let s = mc::systems::system(kind, n);
                        one(&s.terms, &s.unions, &s.rules, k, o)
                    },
                );
            }
        }
    }
    for n in sizes().into_iter().filter(|n| *n <= cap) {
        for m in sizes().into_iter().filter(|n| *n <= cap) {
            for v in 1..=5usize {
                for shape in 0..4 {
                    let mk = move || {
                        let vs: Vec<S> = (0..v).map(|i| a(&format!("?{}", mc::systems::var_name(i, (n + m) % 6)))).collect();
                        let lhs = mc::systems::big(n, shape, &vs);
                        let lv = lhs.pvars();
                        let used: Vec<S> = vs.iter().filter(|v| lv.contains(&v.to_string())).cloned().collect();
                        let rhs = match (n + m + v) % 5 {
                            // a subterm, a permutation, something bigger or unrelated
                            0 => {
                                let mut sub = vec![];
                                lhs.subterms(&mut sub);
                                sub[m % sub.len()].clone()
                            }
                            1 => S::mk("g", vec![used[m % used.len()].clone(), used[0].clone()]),
                            2 => {
                                let mut sub = vec![];
                                lhs.subterms(&mut sub);
                                S::mk("k", vec![sub[m % sub.len()].clone(), sub[sub.len() / 2].clone()])
                            }
                            _ => mc::systems::big(m, (shape + m) % 4, &used),
                        };
                        (lhs, rhs)
                    };
                    ctx.case(
                        || {
                            let (l, r) = mk();
                            format!("classify {} ==> {}", l, r)
                        },
                        |o| {
                            let (l, r) = mk();
                            classify(&l, &r, o)
                        },
                    );
                }
            }
        }
    }
}

fn main() {
    mc::main(
        Check {
            id: "S03",
            level: "model_checking",
            rule: "classification: every rule over patterns up to size 5 against the definition, and for \
                   every rule classified saturating one application on every start graph must add no class; scheduler: \
                   every start graph of 1-2 of 8 terms x every ruleset of at most 3 (4) of 12 rules x 0..3 \
                   iterations, plus chains of up to 70 rules, isomorphic to the reference phases. State = reference \
                   graph; transition = one round.",
            assumptions: &["resource limits are not reached"],
            ..Check::DEFAULT
        },
        explore,
    )
}
