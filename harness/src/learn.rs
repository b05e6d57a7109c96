//! Oracle for end-to-end rule inference over the finite domain.
use crate::dom::*;
use crate::eqs::*;
use crate::refeg::*;
use crate::term::*;
use std::collections::{BTreeMap, BTreeSet};

pub fn all_vars(ts: &[S]) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for t in ts {
        for x in term_vars(t) {
            if !v.contains(&x) {
                v.push(x);
            }
        }
    }
    v.sort();
    v
}

/// Variables the function of `t` really depends on.
fn essential(t: &S, vars: &[String]) -> BTreeSet<String> {
    let envs = assignments(vars, &[Some(0), Some(1)]);
    let mut out = BTreeSet::new();
    for e in &envs {
        for v in vars {
            let mut f = e.clone();
            f.insert(v.clone(), e[v].map(|x| 1 - x));
            if fin_eval(t, e) != fin_eval(t, &f) {
                out.insert(v.clone());
            }
        }
    }
    out
}

/// Every learned rule is the same partial function on both sides.
pub fn sound(rules: &[R]) -> Result<(), String> {
    for r in rules {
        let (l, rr) = (r.l.ground(), r.r.ground());
        if mentions(&l, "UNK") || mentions(&rr, "UNK") {
            return Err(format!("{} was learned although its validity is unknown", r));
        }
        if !fin_equiv(&l, &rr) {
            return Err(format!("unsound rule learned: {}", r));
        }
        if !r.bound() {
            return Err(format!("rule with unbound variable learned: {}", r));
        }
    }
    Ok(())
}

/// Groups of terms of `ts` that rule inference over the whole space `ts`
/// (all terms up to some size) must be able to prove equal.
pub fn obligations(ts: &[S], relevant: &dyn Fn(&S) -> bool) -> Vec<Vec<S>> {
    let vars = all_vars(ts);
    let envs = assignments(&vars, &[Some(0), Some(1)]);
    let mut by: BTreeMap<Vec<Option<u8>>, Vec<S>> = BTreeMap::new();
    for t in ts {
        if !relevant(t) {
            continue;
        }
        let v: Vec<Option<u8>> = envs.iter().map(|e| fin_eval(t, e)).collect();
        if v.iter().all(|x| x.is_none()) {
            continue;
        }
        by.entry(v).or_default().push(t.clone());
    }
    let mut out = vec![];
    for g in by.into_values() {
        let m = g.iter().map(|t| t.size()).min().unwrap();
        let ess = essential(&g[0], &vars);
        let ok = g
            .iter()
            .filter(|t| t.size() == m)
            .all(|t| term_vars(t).into_iter().collect::<BTreeSet<_>>() == ess && !mentions(t, "UNK"));
        let g: Vec<S> = g.into_iter().filter(|t| !mentions(t, "UNK")).collect();
        if ok && g.len() > 1 {
            out.push(g);
        }
    }
    out
}

/// Ok(None): outside the caps.
pub fn complete(ts: &[S], rules: &[R], obl: &[Vec<S>], k: usize) -> Result<Option<usize>, String> {
    let mut g = RefEg::new();
    g.cap = 30_000;
    for t in ts {
        g.add(t);
    }
    let mut blown = false;
    for _ in 0..6 {
        let n = g.nclasses();
        match ref_compress(&g, rules, k) {
            Ok(x) => g = x,
            Err(_) => {
                blown = true;
                match ref_compress(&g, rules, 1) {
                    Ok(x) => g = x,
                    Err(_) => return Ok(None),
                }
            }
        }
        g.cap = 30_000;
        if g.nclasses() == n {
            break;
        }
    }
    let mut pairs = 0;
    for grp in obl {
        let c0 = g.lookup(&grp[0]);
        for t in &grp[1..] {
            pairs += 1;
            if g.lookup(t) != c0 || c0.is_none() {
                if blown {
                    return Ok(None);
                }
                return Err(format!("{} and {} are equal but the rules learned do not prove it", grp[0], t));
            }
        }
    }
    Ok(Some(pairs))
}

/// Pairs of terms that full matching makes a candidate and the validator (for
/// completion c) accepts in some direction.
pub fn obligations_total(ts: &[S], c: u8) -> Vec<Vec<S>> {
    let vars = all_vars(ts);
    let envs = assignments(&vars, &[Some(0), Some(1)]);
    let part: Vec<Vec<Option<u8>>> = ts.iter().map(|t| envs.iter().map(|e| fin_eval(t, e)).collect()).collect();
    let total: Vec<Vec<Option<u8>>> = ts.iter().map(|t| envs.iter().map(|e| fin_eval_total(t, e, c)).collect()).collect();
    let tv: Vec<BTreeSet<String>> = ts.iter().map(|t| term_vars(t).into_iter().collect()).collect();
    let mut out = vec![];
    for i in 0..ts.len() {
        for j in i + 1..ts.len() {
            if total[i] == total[j]
                && part[i].iter().zip(&part[j]).any(|(x, y)| x.is_some() && x == y)
                && (tv[i].is_subset(&tv[j]) || tv[j].is_subset(&tv[i]))
            {
                out.push(vec![ts[i].clone(), ts[j].clone()]);
            }
        }
    }
    out
}
