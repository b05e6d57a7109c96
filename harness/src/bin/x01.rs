//! Rule inference over a workload, end to end.
use mc::dom::*;
use mc::eqs::*;
use mc::learn::*;
use mc::refeg::*;
use mc::*;
use ruler::enumo::{Ruleset, Workload};
use ruler::recipe_utils::run_workload;
use std::sync::atomic::{AtomicU64, Ordering};

static INCONCLUSIVE: AtomicU64 = AtomicU64::new(0);

fn one(ts: &[S], prior: &[R], fast: bool, k: usize, o: &mut Obs) -> Result<(), String> {
    let txt = strs(ts);
    let w = Workload::new(txt.iter().map(|x| x.as_str()).collect::<Vec<_>>());
    let set: Ruleset<Fin> = to_ruleset(prior);
    let learned = match guard(|| run_workload(w, set, unlimited(k), unlimited(k), fast)) {
        Ok(c) => rules_of(&c),
        Err(e) if e.contains("Didn't learn any rules") => vec![],
        Err(e) => return Err(e),
    };
    o.outcome(&strs(&learned));
    o.show(format!("learned {:?}", strs(&learned)));
    sound(&learned)?;
    for r in &learned {
        if prior.contains(r) {
            return Err(format!("{} is returned as new but is a prior rule", r));
        }
    }
    // both sides come from the workload (the prior rules only identify its terms)
    let mut g = RefEg::new();
    for t in ts {
        g.add(t);
    }
    if let Ok(g) = ref_compress(&g, prior, k) {
        for r in &learned {
            if g.lookup(&r.l.ground()).is_none() || g.lookup(&r.r.ground()).is_none() {
                return Err(format!("{} relates terms that the workload, compressed by the prior rules, does not contain", r));
            }
        }
    }
    let obl = obligations(ts, &|_| true);
    let mut rules = prior.to_vec();
    rules.extend(learned);
    match complete(ts, &rules, &obl, k)? {
        Some(n) => {
            o.state(&(strs(ts), strs(&rules)));
            o.trans(n);
        }
        None => {
            INCONCLUSIVE.fetch_add(1, Ordering::Relaxed);
        }
    }
    Ok(())
}

/// Full matching with a validator that judges a total extension of the partial
/// operators: everything its vectors do not tell apart must be learned.
fn lenient(ts: &[S], prior: &[R], c: u8, k: usize, o: &mut Obs) -> Result<(), String> {
    let txt = strs(ts);
    let w = Workload::new(txt.iter().map(|x| x.as_str()).collect::<Vec<_>>());
    let set: Ruleset<Fin> = to_ruleset(prior);
    FIN_COMPLETION.store(c, Ordering::SeqCst);
    let got = guard(|| run_workload(w, set, unlimited(k), unlimited(k), false));
    FIN_COMPLETION.store(255, Ordering::SeqCst);
    let learned = match got {
        Ok(c) => rules_of(&c),
        Err(e) if e.contains("Didn't learn any rules") => vec![],
        Err(e) => return Err(e),
    };
    o.outcome(&strs(&learned));
    o.show(format!("learned {:?}", strs(&learned)));
    for r in &learned {
        if prior.contains(r) {
            return Err(format!("{} is returned as new but is a prior rule", r));
        }
        if !r.bound() {
            return Err(format!("rule with unbound variable learned: {}", r));
        }
        if !fin_equiv_total(&r.l.ground(), &r.r.ground(), c) {
            return Err(format!("{} was learned although the validator rejects it", r));
        }
    }
    let obl = obligations_total(ts, c);
    let mut rules = prior.to_vec();
    rules.extend(learned);
    match complete(ts, &rules, &obl, k)? {
        Some(n) => {
            o.state(&(strs(ts), strs(&rules)));
            o.trans(n);
        }
        None => {
            INCONCLUSIVE.fetch_add(1, Ordering::Relaxed);
        }
    }
    Ok(())
}

fn tables(n: usize, syms: &[char]) -> Vec<String> {
    let mut out = vec![String::new()];
    for _ in 0..n {
        out = out.iter().flat_map(|s| syms.iter().map(move |c| format!("{}{}", s, c))).collect();
    }
    out
}

fn explore(ctx: &mut Ctx) {
    let cap = ctx.pick(200, 600);
    let mut cases: Vec<(Vec<S>, String)> = vec![];
    let mut add = |leaves: &[&str], ops: &[(String, usize)], n: usize| {
        let o: Vec<(&str, usize)> = ops.iter().map(|(a, b)| (a.as_str(), *b)).collect();
        let ts = terms_upto(leaves, &o, n);
        if ts.len() <= cap {
            cases.push((ts, format!("terms up to size {} over {:?} {:?}", n, leaves, o)));
        }
    };
    // every unary operator, every binary operator, with and without constants
    for u in tables(2, &['0', '1', '_']) {
        for leaves in [&["a"][..], &["a", "b"], &["a", "0"], &["a", "0", "1"], &["a", "UNK"]] {
            add(leaves, &[(format!("u{}", u), 1)], 5);
        }
        for v in tables(2, &['0', '1', '_']) {
            if u < v {
                add(&["a", "b"], &[(format!("u{}", u), 1), (format!("u{}", v), 1)], 3);
                add(&["a", "1"], &[(format!("u{}", u), 1), (format!("u{}", v), 1)], 4);
            }
        }
    }
    let bins = tables(4, &['0', '1', '_']);
    for (i, b) in bins.iter().enumerate() {
        add(&["a", "b"], &[(format!("b{}", b), 2)], 3);
        add(&["a", "0", "1"], &[(format!("b{}", b), 2)], 3);
        add(&["a"], &[(format!("b{}", b), 2)], ctx.pick(7, 9));
        add(&["a", "b", "c"], &[(format!("b{}", b), 2)], 3);
        for u in ["10", "1_", "00", "_0"] {
            add(&["a", "b"], &[(format!("b{}", b), 2), (format!("u{}", u), 1)], ctx.pick(3, 4));
            add(&["a", "0"], &[(format!("b{}", b), 2), (format!("u{}", u), 1)], 4);
        }
    }
    for t in ["00010111", "01010011", "0__1__01", "01101001"] {
        add(&["a", "b"], &[(format!("t{}", t), 3)], 4);
        add(&["a", "0"], &[(format!("t{}", t), 3)], 4);
        add(&["a", "b", "1"], &[(format!("t{}", t), 3)], 4);
    }
    // two binary operators together, larger terms
    for (i, b) in bins.iter().enumerate() {
        for (j, c) in bins.iter().enumerate() {
            if i < j && (i * 31 + j * 7) % ctx.pick(3, 1) == 0 {
                add(&["a", "b"], &[(format!("b{}", b), 2), (format!("b{}", c), 2)], 3);
                add(&["a", "1"], &[(format!("b{}", b), 2), (format!("b{}", c), 2)], 3);
            }
        }
        add(&["a", "b"], &[(format!("b{}", b), 2)], 5);
        add(&["a", "b", "c", "d"], &[(format!("b{}", b), 2)], 3);
    }
    add(&["a", "b"], &[("b0001".into(), 2), ("b0111".into(), 2)], 3);
    add(&["a", "b"], &[("b0110".into(), 2), ("u10".into(), 1)], 4);
    add(&["a", "b", "0", "1"], &[("b0001".into(), 2), ("b0111".into(), 2), ("u10".into(), 1)], 3);
    let priors: Vec<Vec<R>> = vec![
        vec![],
        vec![R::p("(b0001 ?x ?y) ==> (b0001 ?y ?x)"), R::p("(u10 (u10 ?x)) ==> ?x"), R::p("(b0111 ?x ?x) ==> ?x")],
        vec![R::p("(u10 (u10 ?a)) ==> ?a"), R::p("(b0110 ?a ?a) ==> 0"), R::p("(b0001 ?a ?a) ==> ?a"), R::p("?a ==> (u10 (u10 ?a))")],
    ];
    for (ts, name) in &cases {
        for (pi, p) in priors.iter().enumerate() {
            let p: Vec<R> = p.iter().filter(|r| {
                let mut used = true;
                r.l.walk(&mut |x| if let S::A(y) = x {
                    if !y.starts_with('?') && !name.contains(&format!("{:?}", y)) {
                        used = false;
                    }
                });
                used
            }).cloned().collect();
            if pi > 0 && p.is_empty() {
                continue;
            }
            for fast in [true, false] {
                for k in [2, 3] {
                    if k == 3 && pi > 0 {
                        continue;
                    }
                    ctx.case(
                        || format!("{} prior {:?} fast {} iter {}", name, strs(&p), fast, k),
                        |o| one(ts, &p, fast, k, o),
                    );
                }
            }
        }
    }
    // partial operators under a lenient validator, any number of prior rules
    let distract: Vec<R> = ["(b0001 ?x ?y) ==> (b0001 ?y ?x)", "(b0111 ?x ?y) ==> (b0111 ?y ?x)", "(b0001 ?x ?x) ==> ?x", "(b0111 ?x ?x) ==> ?x",
                            "(u10 (u10 ?x)) ==> ?x", "(b0110 ?x ?y) ==> (b0110 ?y ?x)", "(b0001 ?x (b0001 ?y ?z)) ==> (b0001 (b0001 ?x ?y) ?z)",
                            "(b0001 ?x (b0111 ?x ?y)) ==> ?x", "(b0110 ?x ?x) ==> 0"].iter().map(|t| R::p(t)).collect();
    for (i, b) in bins.iter().enumerate().filter(|(_, b)| b.contains('_')) {
        let b = format!("b{}", b);
        for (j, (leaves, extra, n)) in [(&["a", "b"][..], None, 3), (&["a", "0", "1"], None, 3), (&["a", "b"], Some("u1_"), 3), (&["a"], Some("u_0"), 5)].into_iter().enumerate() {
            let mut ops: Vec<(&str, usize)> = vec![(b.as_str(), 2)];
            if let Some(u) = extra {
                ops.push((u, 1));
            }
            let ts = terms_upto(leaves, &ops, n);
            if ts.len() > 90 {
                continue;
            }
            for c in [0, 1] {
                for np in [0, 1, 2, 3, 4, 5, 6, 9] {
                    if np > 0 && (i + j + np) % ctx.pick(2, 1) != 0 {
                        continue;
                    }
                    ctx.case(
                        || format!("terms up to size {} over {:?} {:?}, undefined counts as {}, {} unrelated priors", n, leaves, ops, c, np),
                        |o| lenient(&ts, &distract[..np], c, 2, o),
                    );
                }
            }
        }
    }
    // the same, where the prior rules identify terms of the space
    for (i, b) in bins.iter().enumerate().filter(|(_, b)| b.contains('_')) {
        let b = format!("b{}", b);
        for (j, (leaves, extra, n, prior)) in [
            (&["a", "b"][..], "u01", 3, &["(u01 ?x) ==> ?x"][..]),
            (&["a", "0"], "u10", 4, &["(u10 (u10 ?x)) ==> ?x"]),
            (&["a", "b"], "u01", 3, &["(u01 ?p) ==> ?p", "?p ==> (u01 ?p)", "(u10 (u10 ?x)) ==> ?x"]),
            (&["a"], "u10", 5, &["(u10 (u10 (u10 ?x))) ==> (u10 ?x)"]),
        ]
        .into_iter()
        .enumerate()
        {
            let ts = terms_upto(leaves, &[(b.as_str(), 2), (extra, 1)], n);
            if ts.len() > 120 || (i + j) % ctx.pick(2, 1) != 0 {
                continue;
            }
            let prior: Vec<R> = prior.iter().map(|t| R::p(t)).collect();
            for c in [0, 1] {
                ctx.case(
                    || format!("terms up to size {} over {:?} {} {}, undefined counts as {}, prior {:?}", n, leaves, b, extra, c, strs(&prior)),
                    |o| lenient(&ts, &prior, c, 2, o),
                );
            }
        }
    }
    for (i, u) in tables(2, &['0', '1', '_']).iter().enumerate().filter(|(_, u)| u.contains('_')) {
        let u = format!("u{}", u);
        for (leaves, ops, n, prior) in [
            (&["a"][..], &["u01"][..], 4, "(u01 ?x) ==> ?x"),
            (&["a", "b"], &["u10"], 4, "(u10 (u10 ?x)) ==> ?x"),
            (&["a", "1"], &["u10", "u01"], 4, "(u01 ?x) ==> ?x"),
            (&["a", "b", "0"], &["u01"], 3, "?x ==> (u01 ?x)"),
            (&["a", "b"], &["u10", "u01"], 4, "(u01 (u10 ?x)) ==> (u10 ?x)"),
        ] {
            let mut all: Vec<(&str, usize)> = ops.iter().map(|o| (*o, 1)).collect();
            all.insert(i % (ops.len() + 1), (u.as_str(), 1));
            let ts = terms_upto(leaves, &all, n);
            for c in [0, 1] {
                ctx.case(
                    || format!("terms up to size {} over {:?} {:?}, undefined counts as {}, prior {}", n, leaves, all, c, prior),
                    |o| lenient(&ts, &[R::p(prior)], c, 2, o),
                );
            }
        }
    }
    // total operators, many prior rules that mix with the space
    for np in 0..=distract.len() {
        for skip in 0..ctx.pick(3, distract.len()) {
            let p: Vec<R> = distract.iter().cycle().skip(skip).take(np).cloned().collect();
            for (leaves, ops, n) in [(&["a", "b"][..], &[("b0001", 2), ("b0111", 2)][..], 3), (&["a", "b", "c"], &[("b0001", 2)], 3), (&["a", "0"], &[("b0110", 2), ("u10", 1)], 4)] {
                let ts = terms_upto(leaves, ops, n);
                for fast in [true, false] {
                    ctx.case(
                        || format!("terms up to size {} over {:?} {:?}, prior {:?}, fast {}", n, leaves, ops, strs(&p), fast),
                        |o| one(&ts, &p, fast, 2, o),
                    );
                }
            }
        }
    }
    // parts of a term space: soundness and completeness on what is there
    let full = terms_upto(&["a", "b", "0"], &[("u10", 1), ("b0001", 2), ("u1_", 1)], 3);
    for m in 2..ctx.pick(8, 20) {
        for s in 0..m {
            let ts: Vec<S> = full.iter().filter(|t| t.size() <= 2 || t.size() == 3).enumerate().filter(|(i, t)| t.size() <= 1 || i % m == s).map(|x| x.1.clone()).collect();
            for fast in [true, false] {
                ctx.case(
                    || format!("slice {}/{} of the term space, fast {}", s, m, fast),
                    |o| {
                        let txt = strs(&ts);
                        let w = Workload::new(txt.iter().map(|x| x.as_str()).collect::<Vec<_>>());
                        match guard(|| run_workload::<Fin>(w, Ruleset::default(), unlimited(2), unlimited(2), fast)) {
                            Ok(c) => {
                                o.outcome(&c.to_str_vec());
                                sound(&rules_of(&c))
                            }
                            Err(e) if e.contains("Didn't learn any rules") => Ok(()),
                            Err(e) => Err(e),
                        }
                    },
                );
            }
        }
    }
    ctx.count("completeness outside the caps", INCONCLUSIVE.load(Ordering::Relaxed));
}

fn main() {
    mc::main(
        Check {
            id: "X01",
            level: "exploration",
            rule: "whole term spaces (at most 200, thorough 600, terms) over every unary and binary operator table on {0,1,undefined}, pairs of \
                   operators, ternary operators, 1-4 variables and constants, three priors, both matching modes; every learned \
                   rule must be the same partial function on both sides and relate terms of the workload, and every two terms of \
                   the space that are equal must be provable (naive saturation) from prior and learned rules. The same for \
                   0-9 prior rules (also such as identify terms of the space), and with a validator that judges a total extension of partial operators (full matching: \
                   every accepted pair of terms that agree wherever both are defined must be provable). Outcome = learned ruleset.",
            assumptions: &["obligations whose smallest term has inessential variables are skipped (no orientable rule need exist)"],
            ..Check::DEFAULT
        },
        explore,
    )
}
