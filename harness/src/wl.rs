//! Denotational model of workloads, filters and patterns over plain trees.
use crate::term::*;
use ruler::enumo::{Filter, Metric, Pattern, Workload};
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum M {
    Atoms,
    Lists,
    Depth,
}
pub const METRICS: [M; 3] = [M::Atoms, M::Lists, M::Depth];

impl M {
    pub fn real(self) -> Metric {
        match self {
            M::Atoms => Metric::Atoms,
            M::Lists => Metric::Lists,
            M::Depth => Metric::Depth,
        }
    }
}

pub fn measure(t: &S, m: M) -> usize {
    match t {
        S::A(_) => match m {
            M::Lists => 0,
            _ => 1,
        },
        S::L(xs) => match m {
            M::Atoms => {
                let mut n = 0;
                for x in xs {
                    n += measure(x, m)
                }
                n
            }
            M::Lists => {
                let mut n = 1;
                for x in xs {
                    n += measure(x, m)
                }
                n
            }
            M::Depth => {
                let mut d = 0;
                for x in xs {
                    d = d.max(measure(x, m))
                }
                d + 1
            }
        },
    }
}

/// Filters, with patterns as trees: "*" wild, "?x" variable.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum F {
    Lt(M, usize),
    Eq(M, usize),
    Contains(S),
    Excludes(S),
    Canon(Vec<String>),
    And(Vec<F>),
    Or(Vec<F>),
    Not(Box<F>),
}

fn pmatch(p: &S, t: &S, env: &mut BTreeMap<String, S>) -> bool {
    match (p, t) {
        (S::A(x), _) if x == "*" => true,
        (S::A(x), _) if x.starts_with('?') => match env.get(x) {
            Some(b) => b == t,
            None => {
                env.insert(x.clone(), t.clone());
                true
            }
        },
        (S::A(x), S::A(y)) => x == y,
        (S::L(ps), S::L(ts)) => {
            ps.len() == ts.len() && ps.iter().zip(ts).all(|(p, t)| pmatch(p, t, env))
        }
        _ => false,
    }
}
pub fn pat_matches(p: &S, t: &S) -> bool {
    pmatch(p, t, &mut BTreeMap::new())
}
pub fn contains(p: &S, t: &S) -> bool {
    pat_matches(p, t)
        || match t {
            S::A(_) => false,
            S::L(xs) => xs.iter().any(|x| contains(p, x)),
        }
}
/// Is the term its own canonical renaming: the distinguished symbols occur
/// (first occurrences, left to right) in the order s1, s2, s3, ...
pub fn is_canon(t: &S, syms: &[String]) -> bool {
    let mut seen: Vec<String> = vec![];
    t.walk(&mut |x| {
        if let S::A(y) = x {
            if syms.contains(y) && !seen.contains(y) {
                seen.push(y.clone());
            }
        }
    });
    seen[..] == syms[..seen.len()]
}

impl F {
    pub fn test(&self, t: &S) -> bool {
        match self {
            F::Lt(m, n) => measure(t, *m) < *n,
            F::Eq(m, n) => measure(t, *m) == *n,
            F::Contains(p) => contains(p, t),
            F::Excludes(p) => !contains(p, t),
            F::Canon(s) => is_canon(t, s),
            F::And(fs) => fs.iter().all(|f| f.test(t)),
            F::Or(fs) => fs.iter().any(|f| f.test(t)),
            F::Not(f) => !f.test(t),
        }
    }
    pub fn real(&self) -> Filter {
        match self {
            F::Lt(m, n) => Filter::MetricLt(m.real(), *n),
            F::Eq(m, n) => Filter::MetricEq(m.real(), *n),
            F::Contains(p) => Filter::Contains(p.to_string().parse::<Pattern>().unwrap()),
            F::Excludes(p) => Filter::Excludes(p.to_string().parse::<Pattern>().unwrap()),
            F::Canon(s) => Filter::Canon(s.clone()),
            F::And(fs) => Filter::And(fs.iter().map(|f| f.real()).collect()),
            F::Or(fs) => Filter::Or(fs.iter().map(|f| f.real()).collect()),
            F::Not(f) => Filter::Invert(Box::new(f.real())),
        }
    }
}

/// Every combination of independent choices of a peg per occurrence.
pub fn plug(t: &S, name: &str, pegs: &[S]) -> Vec<S> {
    match t {
        S::A(x) if x == name => pegs.to_vec(),
        S::A(_) => vec![t.clone()],
        S::L(xs) => {
            let mut acc: Vec<Vec<S>> = vec![vec![]];
            for x in xs {
                let opts = plug(x, name, pegs);
                let mut next = vec![];
                for p in &acc {
                    for o in &opts {
                        let mut q = p.clone();
                        q.push(o.clone());
                        next.push(q);
                    }
                }
                acc = next;
            }
            acc.into_iter().map(S::L).collect()
        }
    }
}

/// The number of terms `plug` would produce.
pub fn plug_count(t: &S, name: &str, n: usize) -> usize {
    match t {
        S::A(x) if x == name => n,
        S::A(_) => 1,
        S::L(xs) => xs
            .iter()
            .fold(1usize, |a, x| a.saturating_mul(plug_count(x, name, n))),
    }
}

pub fn forced(w: &Workload) -> Vec<S> {
    w.force().iter().map(crate::dom::sexp_of).collect()
}
/// A workload holding exactly these trees (built without the parser).
pub fn wset(ts: &[S]) -> Workload {
    Workload::Set(ts.iter().map(crate::dom::to_sexp).collect())
}

pub fn same_multiset(x: &[S], y: &[S]) -> Result<(), String> {
    let mut x: Vec<&S> = x.iter().collect();
    let mut y: Vec<&S> = y.iter().collect();
    x.sort();
    y.sort();
    if x == y {
        return Ok(());
    }
    let mut cnt: BTreeMap<&S, (i64, i64)> = BTreeMap::new();
    for t in &x {
        cnt.entry(t).or_default().0 += 1;
    }
    for t in &y {
        cnt.entry(t).or_default().1 += 1;
    }
    for (t, (p, q)) in cnt {
        if p != q {
            return Err(format!(
                "term {} occurs {} time(s), expected {} (total {} terms, expected {})",
                t,
                p,
                q,
                x.len(),
                y.len()
            ));
        }
    }
    unreachable!()
}
