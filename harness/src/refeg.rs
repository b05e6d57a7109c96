//! Naive reference e-graph: the executable specification the real equality
//! saturation is compared with.  No hash-consing tricks, no deferred rebuild:
//! congruence closure is a plain fixpoint.
use crate::term::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Default)]
pub struct RefEg {
    uf: Vec<usize>,
    nodes: BTreeMap<(String, Vec<usize>), usize>,
    pub cap: usize,
}

pub type Sub = BTreeMap<String, usize>;

/// The model exceeded its node cap; the case is out of the stated bounds.
#[derive(Debug, Clone, Copy)]
pub struct Blowup;

impl RefEg {
    pub fn new() -> Self {
        RefEg {
            cap: 4000,
            ..Default::default()
        }
    }
    pub fn find(&self, mut i: usize) -> usize {
        while self.uf[i] != i {
            i = self.uf[i];
        }
        i
    }
    fn add_node(&mut self, op: &str, kids: Vec<usize>) -> usize {
        let kids: Vec<usize> = kids.into_iter().map(|k| self.find(k)).collect();
        let key = (op.to_string(), kids);
        if let Some(&c) = self.nodes.get(&key) {
            return self.find(c);
        }
        let id = self.uf.len();
        self.uf.push(id);
        self.nodes.insert(key, id);
        id
    }
    pub fn add(&mut self, t: &S) -> usize {
        let (op, kids) = t.op();
        let ks: Vec<usize> = kids.iter().map(|k| self.add(k)).collect();
        self.add_node(op, ks)
    }
    pub fn lookup(&self, t: &S) -> Option<usize> {
        let (op, kids) = t.op();
        let mut ks = vec![];
        for k in kids {
            ks.push(self.find(self.lookup(k)?));
        }
        self.nodes
            .get(&(op.to_string(), ks))
            .map(|c| self.find(*c))
    }
    /// Class of a node whose children are given as canonical classes.
    pub fn class_of(&self, op: &str, kids: &[usize]) -> Option<usize> {
        self.nodes
            .get(&(op.to_string(), kids.to_vec()))
            .map(|c| self.find(*c))
    }
    pub fn union(&mut self, x: usize, y: usize) -> bool {
        let (x, y) = (self.find(x), self.find(y));
        if x == y {
            return false;
        }
        let (lo, hi) = (x.min(y), x.max(y));
        self.uf[hi] = lo;
        true
    }
    pub fn rebuild(&mut self) {
        loop {
            let mut next: BTreeMap<(String, Vec<usize>), usize> = BTreeMap::new();
            let mut unions = vec![];
            for ((op, kids), c) in &self.nodes {
                let k: Vec<usize> = kids.iter().map(|k| self.find(*k)).collect();
                let c = self.find(*c);
                match next.get(&(op.clone(), k.clone())) {
                    Some(&d) if d != c => unions.push((c, d)),
                    Some(_) => {}
                    None => {
                        next.insert((op.clone(), k), c);
                    }
                }
            }
            self.nodes = next;
            if unions.is_empty() {
                for c in self.nodes.values_mut() {
                    let mut i = *c;
                    while self.uf[i] != i {
                        i = self.uf[i];
                    }
                    *c = i;
                }
                return;
            }
            for (x, y) in unions {
                self.union(x, y);
            }
        }
    }
    pub fn classes(&self) -> BTreeSet<usize> {
        self.nodes.values().map(|c| self.find(*c)).collect()
    }
    pub fn nclasses(&self) -> usize {
        self.classes().len()
    }
    pub fn nnodes(&self) -> usize {
        self.nodes.len()
    }
    /// (class -> its nodes)
    pub fn by_class(&self) -> BTreeMap<usize, Vec<(String, Vec<usize>)>> {
        let mut m: BTreeMap<usize, Vec<(String, Vec<usize>)>> = BTreeMap::new();
        for ((op, ks), c) in &self.nodes {
            m.entry(self.find(*c))
                .or_default()
                .push((op.clone(), ks.clone()));
        }
        m
    }
    /// Canonical dump up to class renaming is expensive; this is a dump in
    /// terms of class ids, deterministic for a deterministic history.
    pub fn fingerprint(&self) -> Vec<(String, Vec<usize>, usize)> {
        self.nodes
            .iter()
            .map(|((o, k), c)| (o.clone(), k.clone(), self.find(*c)))
            .collect()
    }

    /// All matches of a pattern.  Requires a rebuilt graph.
    pub fn ematch(&self, pat: &S) -> Vec<(usize, Sub)> {
        let by = self.by_class();
        let mut out = vec![];
        for c in by.keys() {
            for s in self.match_in(&by, pat, *c, Sub::new()) {
                out.push((*c, s));
            }
        }
        out
    }
    fn match_in(
        &self,
        by: &BTreeMap<usize, Vec<(String, Vec<usize>)>>,
        pat: &S,
        c: usize,
        sub: Sub,
    ) -> Vec<Sub> {
        if pat.is_pvar() {
            let (v, _) = pat.op();
            return match sub.get(v) {
                Some(&d) if d != c => vec![],
                Some(_) => vec![sub],
                None => {
                    let mut s = sub;
                    s.insert(v.to_string(), c);
                    vec![s]
                }
            };
        }
        let (op, kids) = pat.op();
        let mut out: BTreeSet<Sub> = BTreeSet::new();
        for (o, ks) in &by[&c] {
            if o != op || ks.len() != kids.len() {
                continue;
            }
            let mut subs = vec![sub.clone()];
            for (kp, kc) in kids.iter().zip(ks) {
                let mut next = vec![];
                for s in subs {
                    next.extend(self.match_in(by, kp, *kc, s));
                }
                subs = next;
            }
            out.extend(subs);
        }
        out.into_iter().collect()
    }
    pub fn add_inst(&mut self, pat: &S, sub: &Sub) -> usize {
        if pat.is_pvar() {
            return self.find(sub[pat.op().0]);
        }
        let (op, kids) = pat.op();
        let ks: Vec<usize> = kids.iter().map(|k| self.add_inst(k, sub)).collect();
        self.add_node(op, ks)
    }
    /// One equality-saturation round: search every rule on the current graph,
    /// then apply every match, then restore congruence.
    pub fn round(&mut self, rules: &[R]) -> Result<(), Blowup> {
        let mut ms = vec![];
        for r in rules {
            for m in self.ematch(&r.l) {
                ms.push((r, m));
            }
        }
        for (r, (c, sub)) in ms {
            let id = self.add_inst(&r.r, &sub);
            self.union(c, id);
            if self.nodes.len() > self.cap * 2 {
                return Err(Blowup);
            }
        }
        self.rebuild();
        if self.nodes.len() > self.cap {
            return Err(Blowup);
        }
        Ok(())
    }
    /// k rounds, stopping at saturation.
    pub fn simple(&mut self, rules: &[R], k: usize) -> Result<usize, Blowup> {
        let mut n = 0;
        for _ in 0..k {
            let snap = self.fingerprint();
            self.round(rules)?;
            n += 1;
            if snap == self.fingerprint() {
                break;
            }
        }
        Ok(n)
    }
    pub fn to_fixpoint(&mut self, rules: &[R], max: usize) -> Result<usize, Blowup> {
        let mut n = 0;
        loop {
            let snap = self.fingerprint();
            self.round(rules)?;
            n += 1;
            if snap == self.fingerprint() {
                return Ok(n);
            }
            if n > max {
                return Err(Blowup);
            }
        }
    }
    /// A rule is saturating iff adding its right-hand side (with its variables
    /// as fresh constants) to an e-graph holding the left-hand side and
    /// equating the two adds no class.
    pub fn saturating(r: &R) -> bool {
        let mut g = RefEg::new();
        let li = g.add(&r.l.ground());
        let n0 = g.nclasses();
        let ri = g.add(&r.r.ground());
        g.union(li, ri);
        g.rebuild();
        g.nclasses() <= n0
    }
    pub fn run_saturating(&mut self, rules: &[R], iters: usize) -> Result<usize, Blowup> {
        let (sat, other): (Vec<R>, Vec<R>) =
            rules.iter().cloned().partition(RefEg::saturating);
        let mut n = 0;
        for _ in 0..iters {
            n += self.to_fixpoint(&sat, 200)?;
            n += self.simple(&other, 1)?;
        }
        n += self.to_fixpoint(&sat, 200)?;
        Ok(n)
    }
    /// Size of the smallest term of each class, counting only ops accepted by `ok`.
    pub fn costs(&self, ok: &dyn Fn(&str) -> bool) -> BTreeMap<usize, usize> {
        let by = self.by_class();
        let mut cost: BTreeMap<usize, usize> = BTreeMap::new();
        loop {
            let mut changed = false;
            for (c, ns) in &by {
                for (op, ks) in ns {
                    if !ok(op) {
                        continue;
                    }
                    let mut s = 1usize;
                    let mut known = true;
                    for k in ks {
                        match cost.get(&self.find(*k)) {
                            Some(x) => s += x,
                            None => {
                                known = false;
                                break;
                            }
                        }
                    }
                    if known && cost.get(c).map_or(true, |x| s < *x) {
                        cost.insert(*c, s);
                        changed = true;
                    }
                }
            }
            if !changed {
                return cost;
            }
        }
    }
}

/// Structural isomorphism between a real (rebuilt) e-graph and the reference.
/// Both must contain exactly the same nodes and the same partition.
pub fn iso<L: ruler::SynthLanguage>(
    eg: &ruler::EGraph<L, ruler::SynthAnalysis>,
    rf: &RefEg,
) -> Result<std::collections::HashMap<egg::Id, usize>, String> {
    use std::collections::HashMap;
    let mut map: HashMap<egg::Id, usize> = HashMap::new();
    let mut nodes: Vec<(egg::Id, String, Vec<egg::Id>)> = vec![];
    let mut real_classes = 0;
    for c in eg.classes() {
        real_classes += 1;
        for n in &c.nodes {
            nodes.push((
                eg.find(c.id),
                n.to_string(),
                n.children().iter().map(|k| eg.find(*k)).collect(),
            ));
        }
    }
    // duplicates cannot count twice
    nodes.sort();
    nodes.dedup();
    let real_nodes = nodes.len();
    let mut pending = nodes;
    loop {
        let mut rest = vec![];
        let mut progress = false;
        for (c, op, ks) in pending {
            if ks.iter().all(|k| map.contains_key(k)) {
                progress = true;
                let kk: Vec<usize> = ks.iter().map(|k| map[k]).collect();
                match rf.nodes.get(&(op.clone(), kk)) {
                    None => {
                        return Err(format!(
                            "the e-graph contains a node {}({} children) the reference does not",
                            op,
                            ks.len()
                        ))
                    }
                    Some(rc) => {
                        let rc = rf.find(*rc);
                        match map.get(&c) {
                            Some(x) if *x != rc => {
                                return Err(format!(
                                "the e-graph equates terms (node {}) the reference keeps apart",
                                op
                            ))
                            }
                            Some(_) => {}
                            None => {
                                map.insert(c, rc);
                            }
                        }
                    }
                }
            } else {
                rest.push((c, op, ks));
            }
        }
        pending = rest;
        if pending.is_empty() {
            break;
        }
        if !progress {
            return Err("e-graph contains a class with no finite term".into());
        }
    }
    let distinct: std::collections::HashSet<usize> = map.values().copied().collect();
    if distinct.len() != real_classes {
        return Err(format!(
            "the e-graph keeps apart terms the reference equates ({} classes, reference {})",
            real_classes,
            rf.nclasses()
        ));
    }
    if real_classes != rf.nclasses() {
        return Err(format!(
            "number of e-classes is {}, the reference has {}",
            real_classes,
            rf.nclasses()
        ));
    }
    if real_nodes != rf.nnodes() {
        return Err(format!(
            "number of e-nodes is {}, the reference has {}",
            real_nodes,
            rf.nnodes()
        ));
    }
    Ok(map)
}
