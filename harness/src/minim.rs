//! Inputs for the checks of rule selection (minimization).
use crate::dom::*;
use crate::engine::*;
use crate::eqs::*;
use crate::refeg::*;
use crate::term::*;
use ruler::enumo::{Ruleset, Scheduler, Workload};
use ruler::SynthLanguage;
use std::collections::BTreeMap;
use std::sync::atomic::Ordering;

#[derive(Clone, Debug)]
pub struct MinIn {
    pub cands: Vec<R>,
    pub prior: Vec<R>,
    /// alpha-normalised rule text -> verdict (1 invalid, 2 unknown)
    pub verdicts: BTreeMap<String, u8>,
    pub k: usize,
    pub sched: usize,
    /// semantics of FIN instead of verdicts
    pub fin: bool,
}

impl MinIn {
    pub fn text(&self) -> String {
        let v: Vec<String> = self.verdicts.iter().map(|(k, v)| format!("{}:{}", k, v)).collect();
        let show = |xs: &[R]| {
            if xs.len() <= 8 {
                format!("{:?}", strs(xs))
            } else {
                format!("{} rules #{:x}", xs.len(), h64(&strs(xs)))
            }
        };
        format!(
            "candidates {} prior {} verdicts {:?} {} {}{}",
            show(&self.cands),
            show(&self.prior),
            v,
            ["Compress", "Simple", "Saturating"][self.sched],
            self.k,
            if self.fin { " (FIN)" } else { "" }
        )
    }
    pub fn valid(&self, r: &R) -> bool {
        if let Some(v) = self.verdicts.get(&r.alpha().to_string()) {
            return *v == 0;
        }
        if self.fin {
            let (l, rr) = (r.l.ground(), r.r.ground());
            !mentions(&l, "UNK") && !mentions(&rr, "UNK") && fin_equiv(&l, &rr)
        } else {
            true
        }
    }
    /// The reference run of the chosen scheduler (as far as equalities between
    /// existing terms are concerned).
    pub fn run_ref(&self, g: &mut RefEg, rules: &[R]) -> Result<(), Blowup> {
        if self.sched == 2 {
            g.run_saturating(rules, self.k).map(|_| ())
        } else {
            g.simple(rules, self.k).map(|_| ())
        }
    }
    pub fn run_real(&self) -> Real {
        if self.fin {
            self.go::<Fin>()
        } else {
            self.go::<Free>()
        }
    }
    fn go<L: SynthLanguage>(&self) -> Real {
        *VERDICTS.lock().unwrap() = self.verdicts.clone();
        FREE_DEFAULT.store(0, Ordering::Relaxed);
        let l = unlimited(self.k);
        let sched = match self.sched {
            0 => Scheduler::Compress(l),
            1 => Scheduler::Simple(l),
            _ => Scheduler::Saturating(l),
        };
        let mut c: Ruleset<L> = to_ruleset(&self.cands);
        let p: Ruleset<L> = to_ruleset(&self.prior);
        VALIDATE_LOG.lock().unwrap().clear();
        LOG_VALIDATE.store(true, Ordering::Relaxed);
        let (chosen, invalid) = c.minimize(p, sched);
        LOG_VALIDATE.store(false, Ordering::Relaxed);
        let asked = VALIDATE_LOG.lock().unwrap().drain(..).map(|(l, r)| R::new(S::p(&l), S::p(&r))).collect();
        VERDICTS.lock().unwrap().clear();
        let names = |rs: &Ruleset<L>| -> Result<Vec<R>, String> {
            let mut out = vec![];
            for (name, rule) in rs {
                let r = rule_of::<L>(rule);
                if **name != *r.to_string() || *rule.name != *r.to_string() {
                    return Err(format!("rule {} is stored as {}", r, name));
                }
                out.push(r);
            }
            Ok(out)
        };
        Real {
            asked,
            left: c.len(),
            chosen: names(&chosen),
            invalid: names(&invalid),
        }
    }
}

pub struct Real {
    /// rules the validator was asked about
    pub asked: Vec<R>,
    pub left: usize,
    pub chosen: Result<Vec<R>, String>,
    pub invalid: Result<Vec<R>, String>,
}

fn verdict_sets(cands: &[R], prior: &[R], deep: bool) -> Vec<BTreeMap<String, u8>> {
    let mut out = vec![BTreeMap::new()];
    let keys: Vec<String> = cands.iter().map(|r| r.alpha().to_string()).collect();
    for (i, k) in keys.iter().enumerate() {
        out.push([(k.clone(), 1 + (i % 2) as u8)].into_iter().collect());
        if deep {
            out.push([(k.clone(), 2 - (i % 2) as u8)].into_iter().collect());
            for k2 in &keys[i + 1..] {
                out.push([(k.clone(), 1), (k2.clone(), 2)].into_iter().collect());
            }
        }
    }
    if keys.len() > 1 {
        out.push(keys.iter().map(|k| (k.clone(), 1)).collect());
    }
    // reverses that are not candidates
    let rev: BTreeMap<String, u8> = cands
        .iter()
        .filter(|r| !cands.contains(&r.rev()))
        .map(|r| (r.rev().alpha().to_string(), 1))
        .filter(|(k, _)| !keys.contains(k))
        .collect();
    if !rev.is_empty() {
        out.push(rev);
    }
    let _ = prior;
    out
}

/// All inputs, in a fixed order.
pub fn enumerate(ctx: &mut Ctx, f: &mut dyn FnMut(&mut Ctx, MinIn)) {
    let pool: Vec<R> = [
        "(f ?a) ==> (g ?a ?a)",
        "(g ?a ?a) ==> (f ?a)",
        "(g ?a ?b) ==> (g ?b ?a)",
        "(g ?b ?a) ==> (g ?a ?b)",
        "(f (f ?a)) ==> ?a",
        "?a ==> (f (f ?a))",
        "(f (f (f ?a))) ==> (f ?a)",
        "(f ?a) ==> (f (f (f ?a)))",
        "(g (f ?a) (f ?a)) ==> (f (f ?a))",
        "(h ?a 0) ==> ?a",
        "(h 0 ?a) ==> ?a",
        "(h ?a ?b) ==> (h ?b ?a)",
        "(f ?a) ==> 0",
        "(g ?a ?b) ==> (f ?a)",
        "(g ?a ?b) ==> (f ?b)",
        "(h (f ?a) 0) ==> (f ?a)",
    ]
    .iter()
    .map(|t| R::p(t))
    .collect();
    let priors: Vec<Vec<R>> = vec![
        vec![],
        vec![pool[4].clone()],
        vec![pool[2].clone(), pool[9].clone()],
        vec![R::p("(k ?a) ==> ?a"), pool[0].clone(), pool[11].clone()],
        vec![R::p("(k ?a) ==> ?a")],
    ];
    let deep = !ctx.quick();
    for c in combos(pool.len(), 0, ctx.pick(3, 4)) {
        let cands: Vec<R> = c.iter().map(|i| pool[*i].clone()).collect();
        let vs = verdict_sets(&cands, &[], deep && cands.len() <= 3);
        for (pi, prior) in priors.iter().enumerate() {
            for (k, sched) in [(0, 0), (1, 0), (2, 0), (2, 1), (1, 2), (0, 2)] {
                if (k, sched) != (2, 0) && pi > 2 {
                    continue;
                }
                for v in &vs {
                    f(ctx, MinIn { cands: cands.clone(), prior: prior.clone(), verdicts: v.clone(), k, sched, fin: false });
                }
            }
        }
        // the candidates in the opposite order
        let mut rev = cands.clone();
        rev.reverse();
        if rev.len() > 1 {
            f(ctx, MinIn { cands: rev, prior: vec![], verdicts: BTreeMap::new(), k: 2, sched: 0, fin: false });
        }
    }
    // candidates of cvec matching in a finite domain, semantic validation
    for (leaves, ops, n) in [
        (&["a", "b"][..], &[("u10", 1)][..], 4usize),
        (&["a", "b"], &[("b0001", 2)], 3),
        (&["a"], &[("u10", 1), ("b0111", 2)], 4),
        (&["a", "0"], &[("u1_", 1), ("b0_11", 2)], 3),
        (&["a", "b", "0"], &[("b0001", 2)], 3),
        (&["a", "1"], &[("u0_", 1), ("u_1", 1)], 3),
        (&["a", "UNK"], &[("u10", 1), ("b0111", 2)], 3),
        (&["a", "b"], &[("u10", 1), ("b0001", 2)], 3),
    ] {
        let ts = terms_upto(leaves, ops, n);
        let txt = strs(&ts);
        for fast in [true, false] {
            let cands: Vec<R> = {
                let eg = Workload::new(txt.iter().map(|x| x.as_str()).collect::<Vec<_>>()).to_egraph::<Fin>();
                let c = if fast { Ruleset::fast_cvec_match(&eg) } else { Ruleset::cvec_match(&eg) };
                // a panic here is some other check's business
                rules_of(&c)
            };
            for prior in [vec![], vec![R::p("(u10 (u10 ?a)) ==> ?a")], vec![R::p("(b0001 ?a ?b) ==> (b0001 ?b ?a)"), R::p("(b0001 ?b ?a) ==> (b0001 ?a ?b)")]] {
                for (k, sched) in [(1, 0), (2, 0), (1, 2)] {
                    for take in [7usize, 19, 60] {
                        let part: Vec<R> = if cands.len() > take {
                            cands.iter().step_by(cands.len() / take).cloned().collect()
                        } else {
                            cands.clone()
                        };
                        f(ctx, MinIn { cands: part, prior: prior.clone(), verdicts: BTreeMap::new(), k, sched, fin: true });
                    }
                }
            }
        }
    }
    // many candidates, many prior rules
    for n in [9usize, 17, 40, 100] {
        let cands: Vec<R> = (0..n)
            .flat_map(|i| {
                let r = R::p(&format!("(c{} ?a) ==> (c{} ?a)", i, i / 2));
                if i % 3 == 0 && i > 0 {
                    vec![r.rev(), r]
                } else if i > 0 {
                    vec![r]
                } else {
                    vec![]
                }
            })
            .collect();
        let prior: Vec<R> = (0..n).map(|i| R::p(&format!("(c{} ?a) ==> (d{} ?a)", i, i % 5))).collect();
        let mut v = BTreeMap::new();
        for (i, r) in cands.iter().enumerate() {
            if i % 4 == 1 {
                v.insert(r.alpha().to_string(), 1 + (i % 2) as u8);
            }
        }
        for (p, vv) in [(vec![], BTreeMap::new()), (vec![], v.clone()), (prior.clone(), v.clone()), (prior[..n / 3].to_vec(), BTreeMap::new())] {
            for k in [1, 2] {
                f(ctx, MinIn { cands: cands.clone(), prior: p.clone(), verdicts: vv.clone(), k, sched: 0, fin: false });
            }
        }
    }
    // distinct scores, so that the outcome is fully determined
    for n in [4usize, 8, 12] {
        let cands: Vec<R> = (1..n)
            .map(|i| {
                let mut t = S::p("?a");
                for _ in 0..i {
                    t = S::mk("f", vec![t]);
                }
                R::new(t, S::p(if i % 2 == 0 { "?a" } else { "(f ?a)" }))
            })
            .filter(|r| r.l != r.r)
            .collect();
        for m in 0..n {
            let mut v = BTreeMap::new();
            if m < cands.len() {
                v.insert(cands[m].alpha().to_string(), 2);
            }
            for k in [1, 2, 3] {
                let mut perm = cands.clone();
                perm.rotate_left(m % cands.len());
                f(ctx, MinIn { cands: perm.clone(), prior: vec![], verdicts: v.clone(), k, sched: 0, fin: false });
                perm.reverse();
                f(ctx, MinIn { cands: perm, prior: vec![], verdicts: v.clone(), k, sched: 0, fin: false });
            }
        }
    }

    // Score comparisons: the prior equates everything as soon as it is applied,
    // so exactly one best candidate (with its reverse) can be chosen
    let leveller = vec![R::p("?x ==> 0")];
    let mut varied: Vec<R> = vec![];
    {
        let tower = |ops: &[&str], t: S| ops.iter().fold(t, |t, o| S::mk(o, vec![t]));
        let x = S::p("?a");
        for (l, r) in [
            (&["p", "p"][..], &["q", "q"][..]),
            (&["p", "r"], &["q", "q"]),
            (&["p", "r"], &["q", "s"]),
            (&["p", "p", "p", "p"], &["q"]),
            (&["p", "p", "p"], &["q", "q"]),
            (&["p", "r", "p"], &["q", "q"]),
            (&["p", "r", "s"], &["q", "q"]),
            (&["p", "r", "s"], &["q", "t"]),
            (&["p", "r", "s"], &["u", "t"]),
            (&["p", "r", "s", "t", "u"], &["q", "v"]),
            (&["p", "r", "s", "t", "t"], &["q", "v"]),
            (&["p", "r", "s", "s", "t"], &["q", "q"]),
            (&["p"], &["p", "p", "p", "p", "p"]),
            (&["p"], &["q", "p", "q", "p", "q", "p", "q", "p"]),
        ] {
            varied.push(R::new(tower(l, x.clone()), tower(r, x.clone())));
        }
        for t in [
            "(g ?a ?b) ==> (g ?b ?a)",
            "(g ?a ?b) ==> ?a",
            "(g ?a ?b) ==> (f ?b)",
            "(g ?a (g ?b ?c)) ==> (g ?c (g ?b ?a))",
            "(g ?a (g ?b ?c)) ==> (f ?a)",
            "(h ?a ?b ?c) ==> ?a",
            "(h ?a ?b ?c) ==> (h ?a ?c ?b)",
            "(w ?a ?b ?c ?d ?e) ==> ?a",
            "(w ?a ?b ?c ?d ?e) ==> (w ?e ?d ?c ?b ?a)",
            "(w ?a ?b ?c ?d) ==> (w ?d ?c ?b ?a)",
            "(w ?a ?b ?c ?d 0) ==> (w ?d ?c ?b ?a 0)",
            "(w ?a ?b ?c ?d 0 1) ==> (w ?d ?c ?b ?a 0 1)",
            "(w ?a ?b ?c ?d 0 1 2) ==> (w ?d ?c ?b ?a 0 2)",
            "(g ?a 0) ==> ?a",
            "(g ?a 0) ==> (g 0 ?a)",
            "(g ?a 0) ==> (f ?a)",
            "(g 0 1) ==> 1",
            "(f 0) ==> 1",
            "(f 0) ==> (f 1)",
            "(f 0) ==> (p C)",
            "(p C) ==> (f C)",
            "C ==> D",
            "C ==> 0",
            "?a ==> (f ?a)",
            "?a ==> (g ?a ?a)",
            "(g (f ?a) (f ?b)) ==> (f (g ?a ?b))",
            "(g (f (f ?a)) (p ?b)) ==> (g ?a ?b)",
            "(g (g ?a ?b) (g ?a ?b)) ==> (g ?a ?b)",
            "(g (g (g ?a ?b) ?b) ?b) ==> (g ?a ?b)",
            "(g (g (g ?a ?b) (g ?a ?b)) (g (g ?a ?b) (g ?a ?b))) ==> (g ?a ?b)",
            "(g (g (g ?a ?b) ?b) ?a) ==> (g (g (g ?b ?a) ?a) ?b)",
        ] {
            varied.push(R::p(t));
        }
    }
    // the same towers over operators whose names are hard to tell apart
    fn rename(t: &S, names: &[(&str, &str)]) -> S {
        let (op, kids) = t.op();
        let to = names.iter().find(|n| n.0 == op).map_or(op, |n| n.1);
        if kids.is_empty() {
            t.clone()
        } else {
            S::mk(to, kids.iter().map(|k| rename(k, names)).collect())
        }
    }
    let mut alike: Vec<R> = vec![];
    for names in [
        &[("p", "op"), ("q", "op1"), ("r", "op10"), ("s", "op12"), ("t", "Op"), ("u", "oP1"), ("v", "o")][..],
        &[("p", "xop"), ("q", "yop"), ("r", "xyop"), ("s", "zop"), ("t", "op"), ("u", "p"), ("v", "1op")],
        &[("p", "+"), ("q", "++"), ("r", "-"), ("s", "--"), ("t", "+-"), ("u", "-+"), ("v", "<")],
    ] {
        for r in varied[..14].iter() {
            alike.push(R::new(rename(&r.l, names), rename(&r.r, names)));
        }
    }
    for (i, x) in alike.iter().enumerate() {
        for (j, y) in alike.iter().enumerate() {
            if i != j && (i / 14 == j / 14 || i % 14 == j % 14) {
                f(ctx, MinIn { cands: vec![x.clone(), y.clone()], prior: leveller.clone(), verdicts: BTreeMap::new(), k: 1, sched: 0, fin: false });
            }
        }
    }
    for (i, x) in varied.iter().enumerate() {
        for (j, y) in varied.iter().enumerate() {
            if i == j {
                continue;
            }
            for with_rev in 0..3 {
                let mut cands = vec![x.clone(), y.clone()];
                if with_rev > 0 && x.rev().bound() {
                    cands.insert(with_rev - 1, x.rev());
                }
                if with_rev > 0 && cands.len() == 2 {
                    continue;
                }
                let mut v = BTreeMap::new();
                if (i + j) % 5 == 0 {
                    v.insert(x.alpha().to_string(), 1 + ((i + j) % 2) as u8);
                }
                f(ctx, MinIn { cands, prior: leveller.clone(), verdicts: v, k: 1, sched: 0, fin: false });
            }
        }
    }
    for c in combos(varied.len(), 3, 3) {
        if ctx.quick() && (c[0] * 3 + c[1] * 5 + c[2]) % 4 != 0 {
            continue;
        }
        let mut cands: Vec<R> = c.iter().map(|i| varied[*i].clone()).collect();
        cands.rotate_left(c[2] % 3);
        let mut v = BTreeMap::new();
        if c[1] % 2 == 0 {
            v.insert(cands[1].alpha().to_string(), 1);
        }
        f(ctx, MinIn { cands, prior: leveller.clone(), verdicts: v, k: 1, sched: 0, fin: false });
    }
    // many candidates that stay independent of each other, distinct scores
    for n in (1..=20usize).chain([24, 31, 32, 33, 39]) {
        for style in 0..4usize {
            let cands: Vec<R> = (0..n)
                .flat_map(|i| {
                    let vs: Vec<S> = (0..=i % 4).map(|j| a(&format!("?v{}", j))).collect();
                    let lhs = S::mk("t", vec![crate::systems::big(1 + i / 4 + style, (i + style) % 4, &vs), S::mk(&format!("c{}", i), vs.clone())]);
                    let r = match (i + style) % 3 {
                        0 => R::new(lhs, S::mk(&format!("c{}", i), vs.clone())),
                        1 => R::new(S::mk(&format!("c{}", i), vs.clone()), lhs),
                        _ => R::new(lhs, vs[0].clone()),
                    };
                    // a consequence of it, to be dropped, and its reverse
                    match (i + n) % 4 {
                        0 => vec![R::new(S::mk("f", vec![r.l.clone()]), S::mk("f", vec![r.r.clone()])), r.clone()],
                        1 if r.rev().bound() => vec![r.clone(), r.rev()],
                        _ => vec![r],
                    }
                })
                .collect();
            let mut v = BTreeMap::new();
            for (i, r) in cands.iter().enumerate() {
                if style > 0 && (i * 7 + n) % (style + 2) == 0 {
                    v.insert(r.alpha().to_string(), 1 + (i % 2) as u8);
                }
            }
            let prior: Vec<R> = (0..n.min(style * 4)).map(|i| R::new(S::mk(&format!("c{}", i), vec![a("?a"), a("?b")]), S::mk(&format!("d{}", i), vec![a("?b"), a("?a")]))).collect();
            f(ctx, MinIn { cands: cands.clone(), prior: vec![], verdicts: v.clone(), k: 1, sched: 0, fin: false });
            f(ctx, MinIn { cands, prior, verdicts: v, k: 2, sched: [0, 1, 2, 0][style], fin: false });
        }
    }
}
