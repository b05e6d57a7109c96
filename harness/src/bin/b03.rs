//! Rule inference over bit-vector domains, end to end, at several widths.
use mc::bvs::*;
use mc::dom::*;
use mc::eqs::*;
use mc::learn::*;
use mc::wl::M;
use mc::*;
use ruler::enumo::Workload;
use ruler::recipe_utils::{recursive_rules, run_workload, Lang};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicU64, Ordering};

static INCONCLUSIVE: AtomicU64 = AtomicU64::new(0);
static FALSE_FRIENDS: AtomicU64 = AtomicU64::new(0);

fn is_lit(s: &str) -> bool {
    s.starts_with("#b") || s.chars().all(|c| c.is_ascii_digit())
}

fn vars_of(t: &S, out: &mut BTreeSet<String>) {
    let (op, kids) = t.op();
    if kids.is_empty() {
        if !is_lit(op) {
            out.insert(op.to_string());
        }
    }
    for k in kids {
        vars_of(k, out);
    }
}

/// The values of terms for every assignment, computed bottom up.
struct Table {
    n: u32,
    vars: Vec<String>,
    memo: BTreeMap<S, Vec<u128>>,
}
impl Table {
    fn new(n: u32, vars: Vec<String>) -> Self {
        Table { n, vars, memo: BTreeMap::new() }
    }
    fn rows(&self) -> usize {
        1usize << (self.n as usize * self.vars.len())
    }
    fn get(&mut self, t: &S) -> Vec<u128> {
        if let Some(v) = self.memo.get(t) {
            return v.clone();
        }
        let (op, kids) = t.op();
        let v: Vec<u128> = if kids.is_empty() {
            match self.vars.iter().position(|x| x == op) {
                Some(i) => (0..self.rows()).map(|r| (r as u128 >> (i as u32 * self.n)) & mask(self.n)).collect(),
                None => vec![bv_lit(op, self.n).unwrap(); self.rows()],
            }
        } else {
            let ks: Vec<Vec<u128>> = kids.iter().map(|k| self.get(k)).collect();
            (0..self.rows())
                .map(|r| {
                    let xs: Vec<u128> = ks.iter().map(|k| k[r]).collect();
                    bv_apply(op, &xs, self.n)
                })
                .collect()
        };
        self.memo.insert(t.clone(), v.clone());
        v
    }
    fn essential(&mut self, t: &S) -> BTreeSet<String> {
        let v = self.get(t);
        let mut out = BTreeSet::new();
        for (i, x) in self.vars.iter().enumerate() {
            let low = i as u32 * self.n;
            let clear = !((mask(self.n) as usize) << low);
            if (0..v.len()).any(|r| v[r] != v[r & clear]) {
                out.insert(x.clone());
            }
        }
        out
    }
}

fn sound_bv(rules: &[R], n: u32) -> Result<(), String> {
    for r in rules {
        if !r.bound() {
            return Err(format!("rule with unbound variable learned: {}", r));
        }
        let (l, rr) = (r.l.ground(), r.r.ground());
        let mut vs = BTreeSet::new();
        vars_of(&l, &mut vs);
        vars_of(&rr, &mut vs);
        let mut t = Table::new(n, vs.into_iter().collect());
        if t.get(&l) != t.get(&rr) {
            return Err(format!("unsound rule learned at width {}: {}", n, r));
        }
    }
    Ok(())
}

/// Groups of terms equal for every assignment that must become provable, and
/// the number of groups that the library's own samples do not tell apart.
fn obligations_bv(ts: &[S], n: u32, samples: &[u128]) -> Vec<Vec<S>> {
    let mut vs = BTreeSet::new();
    for t in ts {
        vars_of(t, &mut vs);
    }
    let vars: Vec<String> = vs.into_iter().collect();
    let mut tab = Table::new(n, vars.clone());
    let rows: Vec<usize> = (0..tab.rows()).filter(|r| (0..vars.len()).all(|i| samples.contains(&((*r as u128 >> (i as u32 * n)) & mask(n))))).collect();
    let mut by: BTreeMap<Vec<u128>, Vec<S>> = BTreeMap::new();
    let mut sampled: BTreeSet<Vec<u128>> = BTreeSet::new();
    for t in ts {
        let v = tab.get(t);
        sampled.insert(rows.iter().map(|r| v[*r]).collect());
        by.entry(v).or_default().push(t.clone());
    }
    FALSE_FRIENDS.fetch_add((by.len() - sampled.len()) as u64, Ordering::Relaxed);
    let mut out = vec![];
    for g in by.into_values() {
        let m = g.iter().map(|t| t.size()).min().unwrap();
        let ess = tab.essential(&g[0]);
        let ok = g.iter().filter(|t| t.size() == m).all(|t| {
            let mut v = BTreeSet::new();
            vars_of(t, &mut v);
            v == ess
        });
        if ok && g.len() > 1 {
            out.push(g);
        }
    }
    out
}

fn samples(n: u32) -> Vec<u128> {
    let m = mask(n);
    let h = 1u128 << (n - 1);
    let mut s: Vec<u128> = [0, 1, m, h, h + 1, h + m, h + m - 1].iter().map(|x| x & m).collect();
    s.sort();
    s.dedup();
    s
}

macro_rules! at_width {
    ($n:expr, $f:ident, $($arg:expr),*) => {
        match $n {
            1 => $f::<bv1::Bv>($($arg),*),
            2 => $f::<bv2::Bv>($($arg),*),
            3 => $f::<bv3::Bv>($($arg),*),
            4 => $f::<bv4::Bv>($($arg),*),
            5 => $f::<bv5::Bv>($($arg),*),
            _ => $f::<bv8::Bv>($($arg),*),
        }
    };
}

fn infer<L: ruler::SynthLanguage>(ts: &[S], prior: &[R], fast: bool, k: usize) -> Vec<R> {
    let txt = strs(ts);
    let w = Workload::new(txt.iter().map(|x| x.as_str()).collect::<Vec<_>>());
    rules_of(&run_workload::<L>(w, to_ruleset(prior), unlimited(k), unlimited(k), fast))
}

fn recurse<L: ruler::SynthLanguage>(l: &Lang, m: M, n: usize, prior: &[R]) -> Vec<R> {
    rules_of(&recursive_rules::<L>(m.real(), n, l.clone(), to_ruleset(prior)))
}

fn judge(ts: &[S], rules: &[R], n: u32, k: usize, o: &mut Obs) -> Result<(), String> {
    let obl = obligations_bv(ts, n, &samples(n));
    match complete(ts, rules, &obl, k)? {
        Some(p) => {
            o.state(&(strs(ts), strs(rules)));
            o.trans(p);
        }
        None => {
            INCONCLUSIVE.fetch_add(1, Ordering::Relaxed);
        }
    }
    Ok(())
}

fn one(ts: &[S], n: u32, prior: &[R], fast: bool, k: usize, o: &mut Obs) -> Result<(), String> {
    let learned = match guard(|| at_width!(n, infer, ts, prior, fast, k)) {
        Ok(c) => c,
        Err(e) if e.contains("Didn't learn any rules") => vec![],
        Err(e) => return Err(e),
    };
    o.outcome(&(n, strs(&learned)));
    o.show(format!("learned {:?}", strs(&learned)));
    sound_bv(&learned, n)?;
    if let Some(r) = learned.iter().find(|r| prior.contains(r)) {
        return Err(format!("{} is returned as new but is a prior rule", r));
    }
    let mut rules = prior.to_vec();
    rules.extend(learned);
    judge(ts, &rules, n, k, o)
}

fn rec(l: &Lang, ts: &[S], m: M, size: usize, n: u32, prior: &[R], o: &mut Obs) -> Result<(), String> {
    let got = match guard(|| at_width!(n, recurse, l, m, size, prior)) {
        Ok(c) => c,
        Err(e) if e.contains("Didn't learn any rules") => return Ok(()),
        Err(e) => return Err(e),
    };
    o.outcome(&(n, strs(&got)));
    o.show(format!("result {:?}", strs(&got)));
    for p in prior {
        if !got.contains(p) {
            return Err(format!("prior rule {} is missing from the result", p));
        }
    }
    let new: Vec<R> = got.iter().filter(|r| !prior.contains(r)).cloned().collect();
    sound_bv(&new, n)?;
    judge(ts, &got, n, 2, o)
}

fn fits(t: &S, n: u32) -> bool {
    let mut ok = true;
    t.walk(&mut |x| {
        if let S::A(y) = x {
            if is_lit(y) && y.parse::<u128>().map_or(true, |v| v > mask(n)) {
                ok = false;
            }
        }
    });
    ok
}

fn explore(ctx: &mut Ctx) {
    let cap = ctx.pick(110, 400);
    let widths: Vec<u32> = ctx.pick(vec![1, 2, 3, 4], vec![1, 2, 3, 4, 5, 8]);
    let mut spaces: Vec<(Vec<&str>, Vec<(&str, usize)>, usize)> = vec![];
    for op in OPS2 {
        for leaves in [&["a", "b"][..], &["a", "0", "1"], &["a", "1", "2"], &["a", "3", "7"], &["a", "b", "0"], &["a", "5"]] {
            spaces.push((leaves.to_vec(), vec![(op, 2)], 3));
        }
        spaces.push((vec!["a"], vec![(op, 2)], ctx.pick(5, 7)));
        spaces.push((vec!["a", "1"], vec![(op, 2)], 5));
        spaces.push((vec!["a", "b", "c"], vec![(op, 2)], 3));
        for u in OPS1 {
            spaces.push((vec!["a", "b"], vec![(op, 2), (u, 1)], 3));
            spaces.push((vec!["a", "1"], vec![(op, 2), (u, 1)], 4));
            spaces.push((vec!["a", "0"], vec![(op, 2), (u, 1)], 4));
        }
        for op2 in OPS2 {
            if op < op2 {
                spaces.push((vec!["a", "b"], vec![(op, 2), (op2, 2)], 3));
                spaces.push((vec!["a", "1"], vec![(op, 2), (op2, 2)], 3));
                spaces.push((vec!["a", "0", "2"], vec![(op, 2), (op2, 2)], 3));
                // functions that differ only where no variable is sampled
                spaces.push((vec!["a", "2", "4"], vec![(op, 2), (op2, 2)], 3));
                spaces.push((vec!["a", "3", "5"], vec![(op, 2), (op2, 2)], 3));
                spaces.push((vec!["a", "4", "6"], vec![(op, 2), (op2, 2)], 3));
                spaces.push((vec!["a", "2"], vec![(op, 2), (op2, 2)], 5));
                spaces.push((vec!["a"], vec![(op, 2), (op2, 2), ("~", 1)], 4));
                spaces.push((vec!["a", "2"], vec![(op, 2), (op2, 2), ("~", 1)], 3));
                spaces.push((vec!["a", "1"], vec![(op, 2), (op2, 2), ("-", 1)], 3));
            }
        }
    }
    spaces.push((vec!["a", "0", "1"], vec![("-", 1), ("~", 1)], 4));
    spaces.push((vec!["a", "b"], vec![("-", 1), ("~", 1)], 5));
    let priors: Vec<Vec<R>> = vec![
        vec![],
        ["(+ ?x ?y) ==> (+ ?y ?x)", "(& ?x ?y) ==> (& ?y ?x)", "(* ?x ?y) ==> (* ?y ?x)", "(| ?x ?x) ==> ?x", "(^ ?x ?x) ==> 0", "(~ (~ ?x)) ==> ?x", "(-- ?x ?y) ==> (+ ?x (- ?y))"]
            .iter()
            .map(|t| R::p(t))
            .collect(),
    ];
    for (leaves, ops, size) in &spaces {
        for n in &widths {
            let ts: Vec<S> = terms_upto(leaves, ops, *size);
            if ts.len() > cap || !ts.iter().all(|t| fits(t, *n)) || (*n as usize * leaves.iter().filter(|x| !is_lit(x)).count() > 16) {
                continue;
            }
            for (pi, p) in priors.iter().enumerate() {
                for fast in [true, false] {
                    if ctx.quick() && pi > 0 && (fast || *n > 3) {
                        continue;
                    }
                    if ctx.quick() && !fast && ops.len() > 1 && *n % 2 == 0 {
                        continue;
                    }
                    ctx.case(
                        || format!("width {}: terms up to size {} over {:?} {:?} prior {:?} fast {}", n, size, leaves, ops, strs(p), fast),
                        |o| one(&ts, *n, p, fast, 2, o),
                    );
                }
            }
        }
    }
    // large groups of terms that agree on the samples, some of them everywhere
    for op in OPS2 {
        for op2 in OPS2 {
            for (li, lits) in [&["1", "2", "4", "8"][..], &["2", "3", "4", "6"], &["2", "4", "10", "12"], &["2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "12", "13"]].into_iter().enumerate() {
                for n in &widths[ctx.pick(3, 2)..ctx.pick(4, 5)] {
                    let mut ts: BTreeSet<S> = BTreeSet::new();
                    for k in lits {
                        for m in lits {
                            let x = S::mk(op2, vec![a("a"), a(k)]);
                            for t in [S::mk(op, vec![x.clone(), a(m)]), S::mk(op, vec![a(m), x.clone()])] {
                                let mut sub = vec![];
                                t.subterms(&mut sub);
                                ts.extend(sub);
                            }
                        }
                    }
                    let ts: Vec<S> = ts.into_iter().filter(|t| fits(t, *n)).collect();
                    if li == 3 && !(["&", "|"].contains(&op) && ["+", "--"].contains(&op2)) {
                        continue;
                    }
                    if ctx.quick() && li > 0 && !["&", "|", "*", "^", "+"].contains(&op) {
                        continue;
                    }
                    ctx.case(
                        || format!("width {}: {} terms ({} ({} a k) m), ({} m ({} a k)) for {:?}", n, ts.len(), op, op2, op, op2, lits),
                        |o| one(&ts, *n, &[], true, 2, o),
                    );
                }
            }
        }
    }
    // recursively, over a language
    for op in OPS2 {
        for u in OPS1 {
            for (vals, vars) in [(&["0", "1"][..], &["a"][..]), (&[], &["a", "b"])] {
                for (m, size) in [(M::Atoms, 3), (M::Depth, 2), (M::Atoms, 4)] {
                    let l = Lang::new(vals, vars, &[&[u], &[op]]);
                    let leaves: Vec<&str> = vals.iter().chain(vars).cloned().collect();
                    let ts: Vec<S> = terms_upto(&leaves, &[(u, 1), (op, 2)], if matches!(m, M::Depth) { 3 } else { size })
                        .into_iter()
                        .filter(|t| mc::wl::measure(t, m) <= size)
                        .filter(|t| {
                            let mut v = BTreeSet::new();
                            vars_of(t, &mut v);
                            !v.is_empty()
                        })
                        .collect();
                    for n in &widths {
                        if *n == 8 && vars.len() > 1 {
                            continue;
                        }
                        if ctx.quick() && size == 4 && *n != 3 {
                            continue;
                        }
                        for p in &priors[..ctx.pick(1, 2)] {
                            ctx.case(
                                || format!("width {}: language {:?} {:?} up to {:?} {} prior {:?}", n, l.ops, leaves, m, size, strs(p)),
                                |o| rec(&l, &ts, m, size, *n, p, o),
                            );
                        }
                    }
                }
            }
        }
    }
    ctx.count("completeness outside the caps", INCONCLUSIVE.load(Ordering::Relaxed));
    ctx.count("functions the samples do not tell apart", FALSE_FRIENDS.load(Ordering::Relaxed));
}

fn main() {
    mc::main(
        Check {
            id: "B03",
            level: "exploration",
            rule: "whole term spaces (at most 110, thorough 400, terms) over every operator and pair of operators of the bit-vector domains, \
                   1-3 variables and literals, widths 1-4 (thorough 1-5, 8), two priors, both matching modes, and recursive inference \
                   over small languages; every learned rule is evaluated for every assignment, and every two terms of the space that are equal for every \
                   assignment must be provable (naive saturation) from prior and learned rules. Outcome = learned ruleset.",
            assumptions: &["obligations whose smallest term has inessential variables are skipped (no orientable rule need exist)"],
            ..Check::DEFAULT
        },
        explore,
    )
}
