//! Building mirrored e-graphs, and reference versions of the schedulers,
//! candidate generation and scoring.
use crate::dom::*;
use crate::refeg::*;
use crate::term::*;
use ruler::{EGraph, Limits, SynthAnalysis, SynthLanguage};
use std::collections::{BTreeMap, BTreeSet};

pub fn unlimited(iter: usize) -> Limits {
    Limits {
        iter,
        node: 10_000_000,
        match_: 10_000_000,
    }
}

pub fn expr<L: SynthLanguage>(t: &S) -> egg::RecExpr<L> {
    t.to_string().parse().unwrap_or_else(|_| panic!("term {}", t))
}

/// The same start graph in both worlds: terms, then unions of pairs of them.
pub fn mirror<L: SynthLanguage>(
    terms: &[S],
    unions: &[(usize, usize)],
) -> (EGraph<L, SynthAnalysis>, RefEg) {
    let mut eg: EGraph<L, SynthAnalysis> = EGraph::default();
    let mut rf = RefEg::new();
    let ids: Vec<_> = terms.iter().map(|t| eg.add_expr(&expr(t))).collect();
    let rids: Vec<_> = terms.iter().map(|t| rf.add(t)).collect();
    for (i, j) in unions {
        eg.union(ids[*i], ids[*j]);
        rf.union(rids[*i], rids[*j]);
    }
    eg.rebuild();
    rf.rebuild();
    (eg, rf)
}

/// Reference for `Scheduler::Compress`.
pub fn ref_compress(rf: &RefEg, rules: &[R], k: usize) -> Result<RefEg, Blowup> {
    let mut out = rf.clone();
    out.simple(rules, k)?;
    let mut res = rf.clone();
    let cs: Vec<usize> = res.classes().into_iter().collect();
    let mut by: BTreeMap<usize, usize> = BTreeMap::new();
    for c in cs {
        let o = out.find(c);
        match by.get(&o) {
            Some(f) => {
                res.union(*f, c);
            }
            None => {
                by.insert(o, c);
            }
        }
    }
    res.rebuild();
    Ok(res)
}

/// Homomorphism from the real e-graph into the reference: every node of the
/// real graph exists in the reference and every real equality holds there.
pub fn embeds<L: SynthLanguage>(eg: &EGraph<L, SynthAnalysis>, rf: &RefEg) -> Result<(), String> {
    use std::collections::HashMap;
    let mut map: HashMap<egg::Id, usize> = HashMap::new();
    let mut pending: Vec<(egg::Id, String, Vec<egg::Id>)> = vec![];
    for c in eg.classes() {
        for n in &c.nodes {
            pending.push((
                eg.find(c.id),
                n.to_string(),
                n.children().iter().map(|k| eg.find(*k)).collect(),
            ));
        }
    }
    loop {
        let mut rest = vec![];
        let mut progress = false;
        for (c, op, ks) in pending {
            if !ks.iter().all(|k| map.contains_key(k)) {
                rest.push((c, op, ks));
                continue;
            }
            progress = true;
            let kk: Vec<usize> = ks.iter().map(|k| map[k]).collect();
            match rf.class_of(&op, &kk) {
                None => {
                    return Err(format!(
                        "the e-graph contains a node {} which the unlimited run does not reach",
                        op
                    ))
                }
                Some(rc) => match map.get(&c) {
                    Some(x) if *x != rc => {
                        return Err(format!(
                            "the e-graph equates terms (node {}) which the rules do not",
                            op
                        ))
                    }
                    Some(_) => {}
                    None => {
                        map.insert(c, rc);
                    }
                },
            }
        }
        pending = rest;
        if pending.is_empty() {
            return Ok(());
        }
        if !progress {
            return Err("e-graph contains a class with no finite term".into());
        }
    }
}

/// Every smallest term of every class (only over operators accepted by `ok`),
/// at most `cap` per class.
pub fn smallest(
    rf: &RefEg,
    ok: &dyn Fn(&str) -> bool,
    cap: usize,
) -> Option<BTreeMap<usize, BTreeSet<S>>> {
    let cost = rf.costs(ok);
    let by = rf.by_class();
    let mut order: Vec<(usize, usize)> = cost.iter().map(|(c, n)| (*n, *c)).collect();
    order.sort();
    let mut out: BTreeMap<usize, BTreeSet<S>> = BTreeMap::new();
    for (n, c) in order {
        let mut set = BTreeSet::new();
        for (op, ks) in &by[&c] {
            if !ok(op) {
                continue;
            }
            let ks: Vec<usize> = ks.iter().map(|k| rf.find(*k)).collect();
            if ks.iter().any(|k| !cost.contains_key(k)) {
                continue;
            }
            if 1 + ks.iter().map(|k| cost[k]).sum::<usize>() != n {
                continue;
            }
            let mut acc: Vec<Vec<S>> = vec![vec![]];
            for k in &ks {
                let mut next = vec![];
                for p in &acc {
                    for t in &out[k] {
                        let mut q = p.clone();
                        q.push(t.clone());
                        next.push(q);
                    }
                }
                acc = next;
                if acc.len() > cap {
                    return None;
                }
            }
            for kids in acc {
                set.insert(S::mk(op, kids));
            }
        }
        if set.len() > cap {
            return None;
        }
        out.insert(c, set);
    }
    Some(out)
}

/// Replace variable leaves (lower-case names) by pattern variables.
pub fn lift(t: &S) -> S {
    match t.op() {
        (op, kids) if kids.is_empty() => {
            if is_var_name(op) {
                S::A(format!("?{}", op))
            } else {
                t.clone()
            }
        }
        (op, kids) => S::mk(op, kids.iter().map(lift).collect()),
    }
}

/// Documented score: more variables, fewer constants, smaller larger side,
/// smaller total, fewer distinct operators are better.
pub fn score(r: &R) -> [i32; 5] {
    let mut vars = BTreeSet::new();
    let mut ops = BTreeSet::new();
    let mut consts = 0;
    let mut visit = |t: &S| {
        let mut v = vec![];
        t.subterms(&mut v);
        for x in v {
            let (op, kids) = x.op();
            if x.is_pvar() {
                vars.insert(op.to_string());
            } else if kids.is_empty() {
                if op.as_bytes()[0].is_ascii_digit() {
                    consts += 1;
                }
            } else {
                ops.insert(op.to_string());
            }
        }
    };
    visit(&r.l);
    visit(&r.r);
    let (a, b) = (r.l.size() as i32, r.r.size() as i32);
    [vars.len() as i32, -consts, -a.max(b), -(a + b), -(ops.len() as i32)]
}

/// Candidates the pairs of classes in `pairs` must give rise to.  `reps` are
/// the possible representatives.  Returns per ordered pair the acceptable
/// (alpha-normalised) rules; an empty set means no rule can be made.
pub fn acceptable(
    pairs: &[(usize, usize)],
    reps: &BTreeMap<usize, BTreeSet<S>>,
) -> Vec<((usize, usize), BTreeSet<R>)> {
    let mut out = vec![];
    for (x, y) in pairs {
        for (p, q) in [(x, y), (y, x)] {
            let mut set = BTreeSet::new();
            let mut unbound = 0;
            let (ps, qs) = match (reps.get(p), reps.get(q)) {
                (Some(a), Some(b)) => (a, b),
                _ => continue,
            };
            for e1 in ps {
                for e2 in qs {
                    let r = R::new(lift(e1), lift(e2));
                    if r.bound() {
                        set.insert(r.alpha());
                    } else {
                        unbound += 1;
                    }
                }
            }
            // if some choice of representatives cannot be oriented, its
            // absence is legitimate
            if unbound == 0 || set.is_empty() {
                out.push(((*p, *q), set));
            } else {
                out.push(((*p, *q), set));
                out.last_mut().unwrap().0 = (usize::MAX, usize::MAX);
            }
        }
    }
    out
}

/// The real candidates are exactly justified by the pairs.
pub fn check_candidates(
    got: &[R],
    pairs: &[(usize, usize)],
    reps: &BTreeMap<usize, BTreeSet<S>>,
) -> Result<(), String> {
    let acc = acceptable(pairs, reps);
    let gota: BTreeSet<R> = got.iter().map(|r| r.alpha()).collect();
    let exact: BTreeSet<&R> = got.iter().collect();
    let union: BTreeSet<&R> = acc.iter().flat_map(|(_, s)| s.iter()).collect();
    for g in got {
        if !union.contains(&g.alpha()) {
            return Err(format!("{} is proposed but no matching pair of classes justifies it", g));
        }
        let rev = g.rev();
        if rev.bound() && !exact.contains(&rev) {
            return Err(format!("{} is proposed without its reverse", g));
        }
    }
    for ((p, _), set) in &acc {
        if *p != usize::MAX && !set.is_empty() && set.is_disjoint(&gota) {
            return Err(format!(
                "a matching pair of classes is not proposed: {}",
                set.iter().next().unwrap()
            ));
        }
    }
    Ok(())
}

/// All outcomes (chosen, invalid) the selection algorithm allows: ties in score
/// may be broken either way, everything else is determined.
pub fn minimize_outcomes(
    cands: &[R],
    prior: &[R],
    run: &dyn Fn(&mut RefEg, &[R]) -> Result<(), Blowup>,
    valid: &dyn Fn(&R) -> bool,
    cap: usize,
    visit: &mut dyn FnMut(&BTreeSet<R>, &BTreeSet<R>),
) -> Result<Option<BTreeSet<(BTreeSet<R>, BTreeSet<R>)>>, Blowup> {
    type St = (BTreeSet<R>, BTreeSet<R>, BTreeSet<R>); // remaining, chosen(+prior), invalid
    let p: BTreeSet<R> = prior.iter().cloned().collect();
    let mut seen: BTreeSet<St> = BTreeSet::new();
    let mut work: Vec<St> = vec![(cands.iter().cloned().collect(), p.clone(), BTreeSet::new())];
    let mut out = BTreeSet::new();
    while let Some(st) = work.pop() {
        if !seen.insert(st.clone()) {
            continue;
        }
        if seen.len() > cap {
            return Ok(None);
        }
        let (rem, chosen, invalid) = st;
        visit(&rem, &chosen);
        if rem.is_empty() {
            out.insert((chosen.difference(&p).cloned().collect(), invalid));
            continue;
        }
        // `select`: pop best-scored candidates until one is added
        let mut fronts = vec![(rem, BTreeSet::<R>::new(), invalid)];
        let mut done = vec![];
        while let Some((rem, sel, inv)) = fronts.pop() {
            if !sel.is_empty() || rem.is_empty() {
                done.push((rem, sel, inv));
                continue;
            }
            let best = rem.iter().map(score).max().unwrap();
            for r in rem.iter().filter(|r| score(r) == best) {
                let mut rem2 = rem.clone();
                rem2.remove(r);
                let (mut sel2, mut inv2) = (sel.clone(), inv.clone());
                if valid(r) {
                    sel2.insert(r.clone());
                } else {
                    inv2.insert(r.clone());
                }
                let rev = r.rev();
                if rev.bound() && rem2.contains(&rev) {
                    if valid(&rev) {
                        sel2.insert(rev);
                    } else {
                        inv2.insert(rev);
                    }
                }
                fronts.push((rem2, sel2, inv2));
            }
        }
        for (rem, sel, inv) in done {
            let mut ch = chosen.clone();
            ch.extend(sel);
            // `shrink`
            let mut g = RefEg::new();
            let ids: Vec<(usize, usize, R)> = rem
                .iter()
                .map(|r| (g.add(&r.l.ground()), g.add(&r.r.ground()), r.clone()))
                .collect();
            let rules: Vec<R> = ch.iter().cloned().collect();
            run(&mut g, &rules)?;
            let rem2: BTreeSet<R> = ids
                .into_iter()
                .filter(|(l, r, _)| g.find(*l) != g.find(*r))
                .map(|x| x.2)
                .collect();
            work.push((rem2, ch, inv));
        }
    }
    Ok(Some(out))
}

/// Reference for `can_derive`; also the final graph.
pub fn model(own: &[R], both: bool, r: &R, iters: usize) -> Result<(bool, RefEg), Blowup> {
    let (l, rr) = (r.l.ground(), r.r.ground());
    let mut g = RefEg::new();
    g.add(&l);
    if both {
        g.add(&rr);
    }
    g.run_saturating(own, iters)?;
    let x = g.lookup(&l);
    let res = x.is_some() && x == g.lookup(&rr);
    Ok((res, g))
}
