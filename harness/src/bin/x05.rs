//! Inference recipes under separate resource limits: each must be exactly its
//! documented steps, every step under the limits given for it.
use mc::dom::*;
use mc::eqs::*;
use mc::*;
use ruler::enumo::{Filter, Metric, Ruleset, Scheduler, Workload};
use ruler::recipe_utils::*;
use ruler::{Limits, SynthLanguage};
use std::collections::BTreeSet;

const NO_RULES: &str = "Didn't learn any rules";

fn wl(ts: &[S]) -> Workload {
    let txt = strs(ts);
    Workload::new(txt.iter().map(|x| x.as_str()).collect::<Vec<_>>())
}

/// The steps of `run_workload`.
fn steps<L: SynthLanguage>(w: Workload, prior: &Ruleset<L>, pl: Limits, ml: Limits, fast: bool) -> Ruleset<L> {
    let eg = w.to_egraph::<L>();
    let eg = Scheduler::Compress(pl).run(&eg, prior);
    let mut c = if fast { Ruleset::fast_cvec_match(&eg) } else { Ruleset::cvec_match(&eg) };
    c.minimize(prior.clone(), Scheduler::Compress(ml)).0
}

/// The steps of `run_fast_forwarding`.
fn ff_steps<L: SynthLanguage>(w: Workload, prior: &Ruleset<L>, pl: Limits, ml: Limits) -> Ruleset<L> {
    let start = w.to_egraph::<L>();
    let (allowed, _) = prior.partition(|r| L::is_allowed_rewrite(&r.lhs, &r.rhs));
    let compressed = Scheduler::Compress(pl).run(&start, &allowed);
    let exploratory = L::get_exploratory_rules();
    let grown = Scheduler::Simple(pl).run(&compressed, &exploratory);
    let mut c = Ruleset::extract_candidates(&compressed, &grown);
    let all = prior.union(&exploratory);
    let merged = Scheduler::Compress(pl).run(&grown, &all);
    c.extend(Ruleset::extract_candidates(&grown, &merged));
    c.minimize(prior.clone(), Scheduler::Compress(ml)).0
}

fn same<L: SynthLanguage>(got: Result<Ruleset<L>, String>, want: &Ruleset<L>, may_panic: bool, o: &mut Obs) -> Result<(), String> {
    let got = match got {
        Ok(g) => g.to_str_vec(),
        Err(e) if may_panic && e.contains(NO_RULES) => vec![],
        Err(e) => return Err(e),
    };
    let want = want.to_str_vec();
    o.trans(1);
    o.outcome(&want);
    o.show(format!("learned {:?}", want));
    if got.iter().collect::<BTreeSet<_>>() != want.iter().collect::<BTreeSet<_>>() {
        return Err(format!("learned {:?}, but its steps under the given limits learn {:?}", got, want));
    }
    Ok(())
}

fn limits(ctx: &Ctx) -> Vec<Limits> {
    let all = 1_000_000;
    let mut v = vec![];
    for iter in 0..=ctx.pick(2, 5) {
        v.push(Limits { iter, node: all, match_: all });
    }
    for (iter, node, match_) in [(1, all, 1), (3, all, 4), (2, 3, all), (3, 15, all), (2, 30, 3)] {
        v.push(Limits { iter, node, match_ });
    }
    if !ctx.quick() {
        for (iter, node, match_) in [(2, all, 2), (4, 60, all), (0, 1, 1), (2, all, 0), (5, all, 3), (1, 20, all), (2, 45, all), (3, 25, 10), (1, 1, 1), (6, 100, 20)] {
            v.push(Limits { iter, node, match_ });
        }
    }
    v
}

fn explore(ctx: &mut Ctx) {
    let ls = limits(ctx);
    // terms over total and partial operators
    let mut spaces: Vec<(&str, Vec<S>)> = vec![
        ("and, not", terms_upto(&["a", "b"], &[("b0001", 2), ("u10", 1)], 3)),
        ("chain", terms_upto(&["a"], &[("u10", 1), ("u01", 1)], 5)),
        ("xor, constants", terms_upto(&["a", "0", "1"], &[("b0110", 2)], 3)),
        ("partial", terms_upto(&["a", "b"], &[("b0_11", 2), ("u1_", 1)], 3)),
        ("nested", ["(b0001 (b0001 a b) c)", "(b0001 a (b0001 b c))", "(b0001 c (b0001 b a))", "(b0111 (b0001 a a) a)", "(b0001 (b0001 a a) (b0001 b b))",
                    "(u10 (u10 (u10 (u10 a))))", "(u10 (u10 (b0001 a a)))"].iter().map(|t| S::p(t)).collect()),
    ];
    if !ctx.quick() {
        spaces.push(("and, or", terms_upto(&["a", "b"], &[("b0001", 2), ("b0111", 2)], 3)));
        spaces.push(("three", terms_upto(&["a", "b", "c"], &[("b0001", 2)], 4)));
        spaces.push(("ternary", terms_upto(&["a", "b"], &[("t01010011", 3), ("u10", 1)], 3)));
    }
    let rules: Vec<R> = ["(u10 (u10 ?x)) ==> ?x", "(b0001 ?x ?y) ==> (b0001 ?y ?x)", "(b0001 (b0001 ?x ?y) ?z) ==> (b0001 ?x (b0001 ?y ?z))",
                         "(u01 ?x) ==> (u10 (u10 ?x))", "(b0110 ?x ?x) ==> 0", "(b0001 ?x ?x) ==> ?x", "?x ==> (b0001 ?x ?x)", "(b0_11 ?x (u1_ ?x)) ==> (u1_ ?x)"]
        .iter().map(|t| R::p(t)).collect();
    let mut priors: Vec<Vec<R>> = vec![vec![]];
    for i in 0..rules.len() {
        priors.push(vec![rules[i].clone()]);
    }
    priors.push(vec![rules[0].clone(), rules[5].clone()]);
    priors.push(vec![rules[1].clone(), rules[2].clone(), rules[5].clone()]);
    priors.push(rules[..7].to_vec());
    for (name, ts) in &spaces {
        for p in &priors {
            if !p.iter().all(|r| {
                let mut ok = true;
                let txt = strs(ts).join(" ");
                r.l.walk(&mut |x| if let S::A(y) = x { ok &= y.starts_with('?') || txt.contains(y.as_str()) || p.len() > 3 });
                ok
            }) {
                continue;
            }
            for pl in &ls {
                for ml in &ls {
                    for fast in [true, false] {
                        ctx.case(
                            || format!("{} prior {:?} {:?} then {:?} fast {}", name, strs(p), pl, ml, fast),
                            |o| {
                                let set: Ruleset<Fin> = to_ruleset(p);
                                let want = steps(wl(ts), &set, *pl, *ml, fast);
                                let got = guard(|| run_workload(wl(ts), set, *pl, *ml, fast));
                                if want.is_empty() != matches!(&got, Err(e) if e.contains(NO_RULES)) {
                                    return Err(format!("inference must fail exactly when nothing can be learned: {:?}", got.map(|g| g.to_str_vec())));
                                }
                                same(got, &want, true, o)
                            },
                        );
                    }
                }
            }
        }
    }
    // fast-forwarding
    let expl: Vec<Vec<&str>> = vec![
        vec![],
        vec!["(f ?x) ==> (_h ?x)", "(_h ?x) ==> (g ?x ?x)"],
        vec!["(g ?x ?y) ==> (_k ?x ?y)", "(_k ?x ?y) ==> (_k ?y ?x)", "(_k ?x ?y) ==> (g ?x ?y)"],
        vec!["(f ?x) ==> (_h (_h ?x))", "(_h (_h (_h (_h ?x)))) ==> (_h (_h ?x))"],
    ];
    let prior: Vec<Vec<&str>> = vec![
        vec![],
        vec!["(f (f ?x)) ==> ?x"],
        vec!["(_h ?x) ==> (f ?x)", "(g ?x ?x) ==> (_h ?x)"],
        vec!["(g ?x ?y) ==> (g ?y ?x)", "(_k ?x ?x) ==> (f ?x)", "(g ?x ?x) ==> ?x"],
    ];
    let spaces: Vec<(&str, Vec<S>)> = vec![
        ("f, g", terms_upto(&["a", "b"], &[("f", 1), ("g", 2)], 3)),
        ("deep f", terms_upto(&["a"], &[("f", 1), ("_h", 1)], 5)),
        ("mixed", ["(g a b)", "(g b a)", "(f (f (f a)))", "(_h a)", "(f (_h b))", "(g (f a) (f a))", "(_k a b)", "(f a)", "a"].iter().map(|t| S::p(t)).collect()),
    ];
    for (name, ts) in &spaces {
        for e in &expl {
            for p in &prior {
                for pl in &ls {
                    for ml in &ls {
                        ctx.case(
                            || format!("fast-forwarding {} exploratory {:?} prior {:?} {:?} then {:?}", name, e, p, pl, ml),
                            |o| {
                                *EXPLORATORY.lock().unwrap() = e.iter().map(|x| x.to_string()).collect();
                                let set: Ruleset<Free> = to_ruleset(&p.iter().map(|x| R::p(x)).collect::<Vec<_>>());
                                let want = ff_steps(wl(ts), &set, *pl, *ml);
                                same(guard(|| run_fast_forwarding(wl(ts), set, *pl, *ml)), &want, false, o)
                            },
                        );
                    }
                }
            }
        }
    }
    // recursive inference: each level runs with everything learned before
    let langs: Vec<(Lang, usize)> = vec![
        (Lang::new(&[], &["a", "b"], &[&["u10"], &["b0001"]]), 5),
        (Lang::new(&["0", "1"], &["a"], &[&["u10", "u01"]]), 5),
        (Lang::new(&["0"], &["a", "b"], &[&[], &["b0001", "b0110"]]), 4),
        (Lang::new(&["1"], &["a", "b"], &[&["u1_"], &["b0111"]]), 4),
        (Lang::new(&[], &["a", "b", "c"], &[&["u01"], &[], &["t01010011"]]), 4),
        (Lang::new(&["0"], &["a"], &[&["u10"], &["b0001"], &["t00010111"]]), 4),
    ];
    for (lang, top) in &langs {
        for (m, metric) in [("atoms", Metric::Atoms), ("lists", Metric::Lists), ("depth", Metric::Depth)] {
            let top = if m == "atoms" { *top } else { 2 };
            for n in 1..=top {
                for p in &priors[..ctx.pick(6, 11)] {
                    ctx.case(
                        || format!("recursive inference {:?} {} {} prior {:?}", lang, m, n, strs(p)),
                        |o| {
                            let set: Ruleset<Fin> = to_ruleset(p);
                            let lower = match guard(|| recursive_rules(metric, n - 1, lang.clone(), set.clone())) {
                                Ok(x) => x,
                                Err(e) if e.contains(NO_RULES) => return Ok(()),
                                Err(e) => return Err(e),
                            };
                            let known = lower.union(&set);
                            let mut w = iter_metric(base_lang(lang.ops.len()), "EXPR", metric, n)
                                .filter(Filter::Contains("VAR".parse().unwrap()))
                                .plug("VAR", &Workload::new(lang.vars.clone()))
                                .plug("VAL", &Workload::new(lang.vals.clone()));
                            for (i, ops) in lang.ops.iter().enumerate() {
                                w = w.plug(format!("OP{}", i + 1), &Workload::new(ops));
                            }
                            let want = steps(w, &known, Limits::synthesis(), Limits::minimize(), true).union(&known);
                            match guard(|| recursive_rules(metric, n, lang.clone(), set)) {
                                Err(e) if e.contains(NO_RULES) && n >= 3 && want.len() == known.len() => Ok(()),
                                got => same(got, &want, false, o),
                            }
                        },
                    );
                }
            }
        }
    }
}

fn main() {
    mc::main(
        Check {
            id: "X05",
            level: "exploration",
            rule: "every pair of 8 (thorough 21) limits (0-5 rounds, node and match limits that bite or not) for the two phases x 5 (8) term spaces x \
                   up to 12 prior sets x both matching modes; fast-forwarding with the same pairs of limits x 3 spaces x 4 exploratory x 4 \
                   prior sets; recursive inference over 6 languages and 3 metrics, level by level. The result must be the set of rules that the documented steps, \
                   run one by one under the limits given for each, learn. Outcome = learned ruleset.",
            assumptions: &["the single steps are decided by W04, S01, S02, C01-C03 and M01-M03"],
            ..Check::DEFAULT
        },
        explore,
    )
}
