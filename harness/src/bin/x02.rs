//! Fast-forwarding, end to end.
use mc::dom::*;
use mc::eqs::*;
use mc::refeg::*;
use mc::*;
use ruler::enumo::{Ruleset, Workload};
use ruler::recipe_utils::run_fast_forwarding;
use std::collections::BTreeSet;
use std::sync::atomic::{AtomicU64, Ordering};

static SKIPPED: AtomicU64 = AtomicU64::new(0);

fn allowed(op: &str) -> bool {
    !op.starts_with('_')
}
fn allowed_term(t: &S) -> bool {
    let mut ok = true;
    t.walk(&mut |x| ok &= !matches!(x, S::A(y) if y.starts_with('_')));
    ok
}

struct In<'a> {
    ts: &'a [S],
    prior: Vec<R>,
    expl: Vec<R>,
    k: usize,
    /// index (modulo) of a candidate the validator rejects (1) or cannot decide (2)
    reject: Option<(usize, u8)>,
}

/// The phases of the algorithm on the reference e-graph: the candidates that
/// must come out, as sets of acceptable rules per oriented pair of classes.
fn phases(m: &In) -> Option<Vec<BTreeSet<R>>> {
    let mut g0 = RefEg::new();
    for t in m.ts {
        g0.add(t);
    }
    let ok: Vec<R> = m.prior.iter().filter(|r| allowed_term(&r.l) && allowed_term(&r.r)).cloned().collect();
    let g1 = ref_compress(&g0, &ok, m.k).ok()?;
    let mut g2 = g1.clone();
    g2.simple(&m.expl, m.k).ok()?;
    let mut all = m.prior.clone();
    for e in &m.expl {
        if !all.contains(e) {
            all.push(e.clone());
        }
    }
    let g3 = ref_compress(&g2, &all, m.k).ok()?;
    let mut out = vec![];
    for (x, y) in [(&g1, &g2), (&g2, &g3)] {
        let reps = smallest(x, &allowed, 60)?;
        let cs: Vec<usize> = x.classes().into_iter().collect();
        let mut pairs = vec![];
        for (i, a) in cs.iter().enumerate() {
            for b in &cs[i + 1..] {
                if y.find(*a) == y.find(*b) {
                    pairs.push((*a, *b));
                }
            }
        }
        for ((p, _), set) in acceptable(&pairs, &reps) {
            if set.is_empty() {
                continue;
            }
            let mut set = set;
            if p == usize::MAX {
                // some representatives cannot be oriented: optional
                set.insert(R::p("?optional ==> ?optional"));
            }
            out.push(set);
        }
    }
    if out.iter().map(|s| s.len()).sum::<usize>() > 4000 {
        return None;
    }
    Some(out)
}

fn one(m: &In, o: &mut Obs) -> Result<(), String> {
    let groups = match phases(m) {
        Some(g) => g,
        None => {
            SKIPPED.fetch_add(1, Ordering::Relaxed);
            return Ok(());
        }
    };
    let optional = R::p("?optional ==> ?optional");
    let union: BTreeSet<R> = groups.iter().flat_map(|s| s.iter().cloned()).filter(|r| *r != optional).collect();
    let mut rejected: Option<R> = None;
    VERDICTS.lock().unwrap().clear();
    if let Some((i, v)) = m.reject {
        if union.is_empty() {
            return Ok(());
        }
        let r = union.iter().nth(i % union.len()).unwrap().clone();
        VERDICTS.lock().unwrap().insert(r.to_string(), v);
        rejected = Some(r);
    }
    *EXPLORATORY.lock().unwrap() = strs(&m.expl);
    let txt = strs(m.ts);
    let w = Workload::new(txt.iter().map(|x| x.as_str()).collect::<Vec<_>>());
    let set: Ruleset<Free> = to_ruleset(&m.prior);
    let res = guard(|| run_fast_forwarding(w, set, unlimited(m.k), unlimited(m.k)));
    VERDICTS.lock().unwrap().clear();
    let chosen = rules_of(&res?);
    o.state(&strs(&chosen));
    o.trans(groups.len());
    o.show(format!("{} candidate groups, chose {:?}", groups.len(), strs(&chosen)));
    for c in &chosen {
        if !allowed_term(&c.l) || !allowed_term(&c.r) {
            return Err(format!("{} uses an operator that is not allowed", c));
        }
        if m.prior.contains(c) {
            return Err(format!("{} is returned as new but is a prior rule", c));
        }
        if !union.contains(&c.alpha()) {
            return Err(format!("{} was learned but no merged pair of classes justifies it", c));
        }
        if Some(c.alpha()) == rejected {
            return Err(format!("{} was learned although the validator did not accept it", c));
        }
    }
    // everything else must follow
    let mut g = RefEg::new();
    g.cap = 20_000;
    for r in &union {
        g.add(&r.l.ground());
        g.add(&r.r.ground());
    }
    let mut rules = m.prior.clone();
    rules.extend(chosen.iter().cloned());
    for _ in 0..4 {
        let n = g.nclasses();
        g = match ref_compress(&g, &rules, m.k) {
            Ok(x) => x,
            Err(_) => {
                SKIPPED.fetch_add(1, Ordering::Relaxed);
                return Ok(());
            }
        };
        g.cap = 20_000;
        if g.nclasses() == n {
            break;
        }
    }
    for s in &groups {
        if s.contains(&optional) || rejected.as_ref().map_or(false, |r| s.contains(r)) {
            continue;
        }
        if !s.iter().any(|r| g.lookup(&r.l.ground()) == g.lookup(&r.r.ground())) {
            return Err(format!(
                "{} became equal during fast-forwarding, but it was neither learned nor follows from {:?}",
                s.iter().next().unwrap(), strs(&rules)
            ));
        }
    }
    Ok(())
}

fn explore(ctx: &mut Ctx) {
    let spaces: Vec<(&str, Vec<S>)> = vec![
        ("f1", terms_upto(&["a", "b"], &[("f", 1), ("g", 2)], 3)),
        ("f1h", terms_upto(&["a", "_c"], &[("f", 1), ("_h", 1), ("g", 2)], 3)),
        ("chain", terms_upto(&["a", "0"], &[("f", 1), ("_h", 1)], 4)),
        ("mixed", ["(g a b)", "(f (f a))", "(_h a)", "(f (_h b))", "(g (f a) (f b))", "(_k a b)", "(f a)", "0", "(g a 0)"].iter().map(|t| S::p(t)).collect()),
        ("two", ["(f a)", "(g a a)"].iter().map(|t| S::p(t)).collect()),
    ];
    let expl: Vec<R> = ["(f ?x) ==> (_h ?x)", "(_h ?x) ==> (f ?x)", "(g ?x ?y) ==> (_k ?x ?y)", "(_k ?x ?y) ==> (_k ?y ?x)", "(f ?x) ==> (_k ?x _c)",
                        "(g ?x ?x) ==> (_h ?x)", "0 ==> _c"]
        .iter().map(|t| R::p(t)).collect();
    let prior: Vec<R> = ["(_h (_h ?x)) ==> ?x", "(_k ?x ?y) ==> (_k ?y ?x)", "(f (f ?x)) ==> ?x", "(g ?x ?y) ==> (g ?y ?x)", "(_k ?x _c) ==> ?x",
                         "(g ?x (_h ?x)) ==> _c", "(f (_h ?x)) ==> ?x", "(_k (_h ?x) ?y) ==> (_h (_k ?x ?y))", "(f 0) ==> 0", "(_h _c) ==> _c"]
        .iter().map(|t| R::p(t)).collect();
    for (name, ts) in &spaces {
        for e in combos(expl.len(), 0, ctx.pick(3, 4)) {
            for p in combos(prior.len(), 0, ctx.pick(2, 3)) {
                for k in [1, 2, 3] {
                    if k == 3 && p.len() + e.len() > 3 {
                        continue;
                    }
                    let base = (e.len() * 3 + p.len() + k) % 4;
                    for reject in [None, Some((base, 1)), Some((base * 5 + 1, 2))] {
                        if reject.is_some() && k != 2 {
                            continue;
                        }
                        let m = In {
                            ts,
                            prior: p.iter().map(|i| prior[*i].clone()).collect(),
                            expl: e.iter().map(|i| expl[*i].clone()).collect(),
                            k,
                            reject,
                        };
                        ctx.case(
                            || format!("{} exploratory {:?} prior {:?} rounds {} reject {:?}", name, strs(&m.expl), strs(&m.prior), k, reject),
                            |o| one(&m, o),
                        );
                    }
                }
            }
        }
    }
    // one forbidden operator somewhere in a large prior rule: two such rules
    // share a side, so that the equality they imply appears in the last phase
    for n in ctx.pick(vec![0usize, 1, 2, 3, 5, 8], (0..12).collect::<Vec<_>>()) {
        let pre = |t: S| (0..n).fold(t, |t, i| if i % 2 == 0 { S::L(vec![a("p"), t]) } else { S::L(vec![a("q"), a("0"), t]) });
        let post = |t: S| (0..n).fold(t, |t, i| if i % 2 == 0 { S::L(vec![a("p"), t]) } else { S::L(vec![a("q"), t, a("0")]) });
        let places: Vec<(&str, S, S)> = vec![
            ("innermost", pre(S::p("(_h ?x)")), pre(S::p("(_h a)"))),
            ("innermost, last", post(S::p("(_h ?x)")), post(S::p("(_h a)"))),
            ("outermost", S::L(vec![a("_h"), pre(a("?x"))]), S::L(vec![a("_h"), pre(a("a"))])),
            ("leaf", S::L(vec![a("g"), a("_c"), pre(a("?x"))]), S::L(vec![a("g"), a("_c"), pre(a("a"))])),
            ("last leaf", S::L(vec![a("g"), pre(a("?x")), a("_c")]), S::L(vec![a("g"), pre(a("a")), a("_c")])),
            ("deep leaf", S::L(vec![a("g"), pre(S::p("(g _c ?x)")), a("0")]), S::L(vec![a("g"), pre(S::p("(g _c a)")), a("0")])),
            ("nowhere", S::L(vec![a("g"), pre(S::p("(g 0 ?x)")), a("0")]), S::L(vec![a("g"), pre(S::p("(g 0 a)")), a("0")])),
        ];
        for (place, pat, term) in places {
            let ts = vec![term.clone(), S::p("(f a)"), S::p("(k a a)"), S::p("(f (f b))")];
            for flip in [false, true] {
                for with in [false, true] {
                    let prior: Vec<R> = [R::new(pat.clone(), S::p("(f ?x)")), R::new(pat.clone(), S::p("(k ?x ?x)"))]
                        .into_iter()
                        .map(|r| if flip { R::new(r.r, r.l) } else { r })
                        .collect();
                    let expl = if with { vec![R::p("(f ?x) ==> (_m ?x)"), R::p("(k ?x ?y) ==> (k ?y ?x)")] } else { vec![] };
                    for k in [1, 2] {
                        let m = In { ts: &ts, prior: prior.clone(), expl: expl.clone(), k, reject: None };
                        ctx.case(
                            || format!("forbidden operator {}, size {}, flipped {}, exploratory {}, {} rounds", place, n, flip, with, k),
                            |o| one(&m, o),
                        );
                    }
                }
            }
        }
    }
    // many prior rules, many exploratory rules, wide rules
    for np in 0..=prior.len() {
        for ne in 0..=expl.len() {
            for (name, ts) in &spaces[2..] {
                for rev in [false, true] {
                    if (np + ne) % 2 == 1 && rev {
                        continue;
                    }
                    let mut p: Vec<R> = prior.iter().take(np).cloned().collect();
                    let mut e: Vec<R> = expl.iter().take(ne).cloned().collect();
                    if rev {
                        p = prior.iter().rev().take(np).cloned().collect();
                        e = expl.iter().rev().take(ne).cloned().collect();
                    }
                    for k in [1, 2] {
                        let m = In { ts, prior: p.clone(), expl: e.clone(), k, reject: None };
                        ctx.case(
                            || format!("{}: {} prior rules, {} exploratory rules, reversed {}, {} rounds", name, np, ne, rev, k),
                            |o| one(&m, o),
                        );
                    }
                }
            }
        }
    }
    let most = ctx.pick(34, 130);
    for n in sizes().into_iter().filter(|n| *n <= most) {
        // n independent equalities to find, each through one exploratory rule
        let ts: Vec<S> = (0..n).flat_map(|i| [S::p(&format!("(f{} a)", i)), S::p(&format!("(g a v{}x)", i).replace(&format!("v{}x", i), &format!("C{}", i)))]).collect();
        let e: Vec<R> = (0..n).map(|i| R::p(&format!("(f{} ?x) ==> (g ?x C{})", i, i))).collect();
        let hidden: Vec<R> = (0..n).flat_map(|i| [R::p(&format!("(f{} ?x) ==> (_m{} ?x)", i, i)), R::p(&format!("(g ?x C{}) ==> (_m{} ?x)", i, i))]).collect();
        for (how, p, e) in [("exploratory", vec![], e.clone()), ("prior", e.clone(), vec![]), ("forbidden prior", hidden.clone(), vec![]), ("forbidden exploratory", vec![], hidden.clone()),
                            ("half and half", hidden.iter().step_by(2).cloned().collect(), hidden.iter().skip(1).step_by(2).cloned().collect())] {
            let m = In { ts: &ts, prior: p, expl: e, k: 2, reject: None };
            ctx.case(|| format!("{} equalities, {}", n, how), |o| one(&m, o));
        }
    }
    // long translation chains: exactly as many rounds as permitted
    for n in [1usize, 2, 3, 5, 8] {
        let ex: Vec<R> = (0..n)
            .map(|i| R::p(&format!("({} ?x) ==> ({} ?x)", if i == 0 { "f".to_string() } else { format!("_c{}", i) }, if i + 1 == n { "g".to_string() } else { format!("_c{}", i + 1) })))
            .collect();
        let ts: Vec<S> = ["(f a)", "(g a)", "(f (g b))", "(g (f b))"].iter().map(|t| S::p(t)).collect();
        for k in 1..=9 {
            let m = In { ts: &ts, prior: vec![], expl: ex.clone(), k, reject: None };
            ctx.case(|| format!("chain of {} exploratory rules, {} rounds", n, k), |o| one(&m, o));
            let m = In { ts: &ts, prior: ex.clone(), expl: vec![R::p("(f ?x) ==> (_c1 ?x)")], k, reject: None };
            ctx.case(|| format!("chain of {} prior rules, {} rounds", n, k), |o| one(&m, o));
        }
    }
    ctx.count("outside the model's caps", SKIPPED.load(Ordering::Relaxed));
}

fn main() {
    mc::main(
        Check {
            id: "X02",
            level: "model_checking",
            rule: "5 workloads over allowed and disallowed operators x every set of at most 3 (thorough 4) of 7 exploratory rules x \
                   every set of at most 2 (3) of 10 prior rules x 1-3 rounds, with all candidates accepted or one rejected or \
                   undecided, plus translation chains of up to 8 rules under 1-9 rounds, up to 10 prior with up to 7 exploratory rules, \
                   a forbidden operator at each place of rules up to depth 8 (11), and up to 34 (130) equalities at once. The documented phases run on a naive \
                   e-graph; learned rules must be among its candidates and every candidate must be learned, rejected or provable. \
                   State = learned ruleset; transition = one candidate group judged.",
            assumptions: &["a pair of classes with several smallest representatives may be represented by any of them"],
            ..Check::DEFAULT
        },
        explore,
    )
}
