//! Independent s-expression / term / pattern type used by the oracles.
use std::collections::BTreeMap;
use std::fmt;

/// A tree.  Atoms are leaves; lists are interior nodes.  For *terms* of an
/// operator language the first child of a list is the operator atom.
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum S {
    A(String),
    L(Vec<S>),
}

impl fmt::Display for S {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            S::A(a) => write!(f, "{}", a),
            S::L(xs) => {
                write!(f, "(")?;
                for (i, x) in xs.iter().enumerate() {
                    if i > 0 {
                        write!(f, " ")?;
                    }
                    write!(f, "{}", x)?;
                }
                write!(f, ")")
            }
        }
    }
}

pub fn strs<T: fmt::Display>(xs: &[T]) -> Vec<String> {
    xs.iter().map(|x| x.to_string()).collect()
}

pub fn a(s: &str) -> S {
    S::A(s.to_string())
}
pub fn l(xs: Vec<S>) -> S {
    S::L(xs)
}

impl S {
    /// Parse one s-expression (whitespace-insensitive).
    pub fn parse(s: &str) -> Result<S, String> {
        let mut toks = vec![];
        let mut cur = String::new();
        for c in s.chars() {
            match c {
                '(' | ')' => {
                    if !cur.is_empty() {
                        toks.push(std::mem::take(&mut cur));
                    }
                    toks.push(c.to_string());
                }
                c if c.is_whitespace() => {
                    if !cur.is_empty() {
                        toks.push(std::mem::take(&mut cur));
                    }
                }
                c => cur.push(c),
            }
        }
        if !cur.is_empty() {
            toks.push(cur);
        }
        let mut pos = 0;
        let r = Self::go(&toks, &mut pos)?;
        if pos != toks.len() {
            return Err(format!("trailing tokens in {:?}", s));
        }
        Ok(r)
    }
    fn go(t: &[String], pos: &mut usize) -> Result<S, String> {
        if *pos >= t.len() {
            return Err("eof".into());
        }
        let tok = &t[*pos];
        *pos += 1;
        if tok == "(" {
            let mut v = vec![];
            loop {
                if *pos >= t.len() {
                    return Err("eof in list".into());
                }
                if t[*pos] == ")" {
                    *pos += 1;
                    return Ok(S::L(v));
                }
                v.push(Self::go(t, pos)?);
            }
        } else if tok == ")" {
            Err("unexpected )".into())
        } else {
            Ok(S::A(tok.clone()))
        }
    }
    pub fn p(s: &str) -> S {
        S::parse(s).unwrap_or_else(|e| panic!("S::p({:?}): {}", s, e))
    }

    /// Operator view of a term: (op, children).
    pub fn op(&self) -> (&str, &[S]) {
        match self {
            S::A(x) => (x, &[]),
            S::L(xs) => match &xs[0] {
                S::A(x) => (x, &xs[1..]),
                _ => panic!("not a term: {}", self),
            },
        }
    }
    pub fn mk(op: &str, kids: Vec<S>) -> S {
        if kids.is_empty() {
            S::A(op.to_string())
        } else {
            let mut v = vec![S::A(op.to_string())];
            v.extend(kids);
            S::L(v)
        }
    }
    /// Number of nodes of the term.
    pub fn size(&self) -> usize {
        1 + self.op().1.iter().map(|k| k.size()).sum::<usize>()
    }
    pub fn is_pvar(&self) -> bool {
        matches!(self, S::A(x) if x.starts_with('?'))
    }
    /// Pattern variables in order of first occurrence.
    pub fn pvars(&self) -> Vec<String> {
        let mut v = vec![];
        self.walk(&mut |t| {
            if let S::A(x) = t {
                if x.starts_with('?') && !v.contains(x) {
                    v.push(x.clone());
                }
            }
        });
        v
    }
    pub fn walk(&self, f: &mut impl FnMut(&S)) {
        f(self);
        if let S::L(xs) = self {
            for x in xs {
                x.walk(f);
            }
        }
    }
    /// Subterms (operator view), including self.
    pub fn subterms(&self, out: &mut Vec<S>) {
        for k in self.op().1 {
            k.subterms(out);
        }
        out.push(self.clone());
    }
    /// Replace atoms.
    pub fn map_atoms(&self, f: &mut impl FnMut(&str) -> String) -> S {
        match self {
            S::A(x) => S::A(f(x)),
            S::L(xs) => S::L(xs.iter().map(|x| x.map_atoms(f)).collect()),
        }
    }
    /// Pattern to ground term: ?x -> x
    pub fn ground(&self) -> S {
        self.map_atoms(&mut |x| x.strip_prefix('?').unwrap_or(x).to_string())
    }
    pub fn subst(&self, m: &BTreeMap<String, S>) -> S {
        match self {
            S::A(x) => m.get(x).cloned().unwrap_or_else(|| self.clone()),
            S::L(xs) => S::L(xs.iter().map(|x| x.subst(m)).collect()),
        }
    }
}

/// A rule as a pair of patterns.
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct R {
    pub l: S,
    pub r: S,
}
impl fmt::Display for R {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{} ==> {}", self.l, self.r)
    }
}
impl R {
    pub fn new(l: S, r: S) -> R {
        R { l, r }
    }
    pub fn p(s: &str) -> R {
        let (l, r) = s.split_once("==>").unwrap();
        R {
            l: S::p(l),
            r: S::p(r),
        }
    }
    pub fn rev(&self) -> R {
        R {
            l: self.r.clone(),
            r: self.l.clone(),
        }
    }
    /// All variables of the right-hand side are bound on the left.
    pub fn bound(&self) -> bool {
        let lv = self.l.pvars();
        self.r.pvars().iter().all(|v| lv.contains(v))
    }
    /// Rename variables in order of first occurrence (lhs then rhs).
    pub fn alpha(&self) -> R {
        let mut m: BTreeMap<String, String> = BTreeMap::new();
        let mut f = |x: &str| {
            if x.starts_with('?') {
                let n = m.len();
                m.entry(x.to_string())
                    .or_insert_with(|| format!("?v{}", n))
                    .clone()
            } else {
                x.to_string()
            }
        };
        let l = self.l.map_atoms(&mut f);
        let r = self.r.map_atoms(&mut f);
        R { l, r }
    }
}

/// All terms over `leaves` and `ops` (name, arity) of size <= n (operator nodes
/// and leaves both count 1), smallest first, deterministic order.
pub fn terms_upto(leaves: &[&str], ops: &[(&str, usize)], n: usize) -> Vec<S> {
    let mut by: Vec<Vec<S>> = vec![vec![]; n + 1];
    for k in 1..=n {
        let mut out = vec![];
        if k == 1 {
            out.extend(leaves.iter().map(|x| a(x)));
        }
        for (op, ar) in ops {
            if *ar == 0 || k < ar + 1 {
                continue;
            }
            let mut kids: Vec<(Vec<S>, usize)> = vec![(vec![], k - 1)];
            for i in 0..*ar {
                let mut next = vec![];
                for (ks, rem) in kids {
                    let last = i + 1 == *ar;
                    for s in 1..=rem {
                        if last && s != rem {
                            continue;
                        }
                        if rem - s < ar - i - 1 {
                            continue;
                        }
                        for t in &by[s] {
                            let mut k2 = ks.clone();
                            k2.push(t.clone());
                            next.push((k2, rem - s));
                        }
                    }
                }
                kids = next;
            }
            for (ks, _) in kids {
                out.push(S::mk(op, ks));
            }
        }
        by[k] = out;
    }
    by.concat()
}

/// All sublists (as index sets) of 0..n with size in lo..=hi, lexicographic.
pub fn combos(n: usize, lo: usize, hi: usize) -> Vec<Vec<usize>> {
    let mut out = vec![];
    fn go(n: usize, start: usize, lo: usize, hi: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if cur.len() >= lo {
            out.push(cur.clone());
        }
        if cur.len() == hi {
            return;
        }
        for i in start..n {
            cur.push(i);
            go(n, i + 1, lo, hi, cur, out);
            cur.pop();
        }
    }
    go(n, 0, lo, hi, &mut vec![], &mut out);
    out
}

/// All sequences of length k over 0..n.
pub fn seqs(n: usize, k: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    for _ in 0..k {
        let mut next = vec![];
        for s in &out {
            for i in 0..n {
                let mut t = s.clone();
                t.push(i);
                next.push(t);
            }
        }
        out = next;
    }
    out
}

/// All permutations of 0..n.
pub fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in perms(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            out.push(q);
        }
    }
    out.sort();
    out
}

/// Sizes at which implementations like to change behaviour.
pub fn sizes() -> Vec<usize> {
    let mut v: Vec<usize> = (1..=20).collect();
    for p in [24usize, 25, 30, 32, 40, 48, 50, 60, 64, 80, 96, 100, 120, 128, 150, 200, 250, 256, 300, 400, 500, 512, 600, 800, 1000, 1024, 1500, 2000, 2048, 3000, 4000, 4096, 5000] {
        for d in [-1i64, 0, 1, 2] {
            v.push((p as i64 + d) as usize);
        }
    }
    v.sort();
    v.dedup();
    v
}
