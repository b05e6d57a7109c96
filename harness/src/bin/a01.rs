//! E-class analysis data after any history of adds, unions and rebuilds.
use mc::dom::*;
use mc::refeg::*;
use mc::*;
use ruler::{EGraph, SynthAnalysis, SynthLanguage};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicUsize, Ordering};

static LEN: AtomicUsize = AtomicUsize::new(2);
fn len() -> usize {
    LEN.load(Ordering::Relaxed)
}

#[derive(Clone, PartialEq, Debug)]
struct Data {
    cvec: Vec<Option<u8>>,
    lo: Option<u8>,
    hi: Option<u8>,
}

fn node_data(op: &str, ks: &[&Data]) -> Data {
    let unk = Data { cvec: vec![None; len()], lo: None, hi: None };
    if let Some((lo, hi, cvec)) = ivl_leaf(op) {
        return Data { cvec, lo, hi };
    }
    if ks.is_empty() && op.as_bytes()[0].is_ascii_digit() {
        let v = op.as_bytes()[0] - b'0';
        return Data { cvec: vec![Some(v); len()], lo: Some(v), hi: Some(v) };
    }
    match (op, ks) {
        ("inc", [x]) => Data {
            cvec: x.cvec.iter().map(|c| c.map(|v| v.saturating_add(1))).collect(),
            lo: x.lo.map(|v| v.saturating_add(1)),
            hi: x.hi.map(|v| v.saturating_add(1)),
        },
        ("max", [x, y]) => Data {
            cvec: (0..len())
                .map(|i| match (x.cvec[i], y.cvec[i]) {
                    (Some(a), Some(b)) => Some(a.max(b)),
                    _ => None,
                })
                .collect(),
            lo: match (x.lo, y.lo) {
                (None, z) | (z, None) => z,
                (Some(a), Some(b)) => Some(a.max(b)),
            },
            hi: match (x.hi, y.hi) {
                (Some(a), Some(b)) => Some(a.max(b)),
                _ => None,
            },
        },
        _ => unk,
    }
}

/// Least fixpoint of the analysis over the reference graph, including constant
/// materialisation for singleton intervals.
fn analyse(rf: &mut RefEg) -> Result<BTreeMap<usize, Data>, String> {
    loop {
        let by = rf.by_class();
        let mut d: BTreeMap<usize, Data> = by
            .keys()
            .map(|c| (*c, Data { cvec: vec![None; len()], lo: None, hi: None }))
            .collect();
        loop {
            let mut changed = false;
            for (c, ns) in &by {
                for (op, ks) in ns {
                    let kd: Vec<Data> = ks.iter().map(|k| d[&rf.find(*k)].clone()).collect();
                    let nd = node_data(op, &kd.iter().collect::<Vec<_>>());
                    let cur = d.get_mut(c).unwrap();
                    for i in 0..len() {
                        match (cur.cvec[i], nd.cvec[i]) {
                            (None, Some(v)) => {
                                cur.cvec[i] = Some(v);
                                changed = true;
                            }
                            (Some(x), Some(y)) if x != y => {
                                return Err("inconsistent history".into())
                            }
                            _ => {}
                        }
                    }
                    if nd.lo.or(nd.hi).or(nd.cvec.iter().flatten().copied().max()) > Some(100) {
                        return Err("inconsistent history".into());
                    }
                    let lo = match (cur.lo, nd.lo) {
                        (None, z) | (z, None) => z,
                        (Some(a), Some(b)) => Some(a.max(b)),
                    };
                    let hi = match (cur.hi, nd.hi) {
                        (None, z) | (z, None) => z,
                        (Some(a), Some(b)) => Some(a.min(b)),
                    };
                    if lo != cur.lo || hi != cur.hi {
                        cur.lo = lo;
                        cur.hi = hi;
                        changed = true;
                    }
                }
            }
            if !changed {
                break;
            }
        }
        let mut grew = false;
        for (c, x) in &d {
            if let (Some(l), Some(h)) = (x.lo, x.hi) {
                if l > h {
                    return Err("inconsistent history".into());
                }
                if l == h {
                    let before = rf.nnodes();
                    let k = rf.add(&S::A(l.to_string()));
                    grew |= rf.union(*c, k) || rf.nnodes() != before;
                }
            }
        }
        if !grew {
            return Ok(d);
        }
        rf.rebuild();
    }
}

fn check_simplest<L: SynthLanguage>(
    eg: &EGraph<L, SynthAnalysis>,
    rf: &RefEg,
    map: &std::collections::HashMap<egg::Id, usize>,
) -> Result<(), String> {
    let ok = |op: &str| !op.starts_with('_');
    let cost = rf.costs(&ok);
    for c in eg.classes() {
        let rc = map[&eg.find(c.id)];
        let s = &c.data.simplest;
        let t = S::p(&s.to_string());
        match rf.lookup(&t) {
            Some(x) if x == rc => {}
            _ => return Err(format!("recorded simplest term {} is not a member of its class", t)),
        }
        if let Some(best) = cost.get(&rc) {
            let mut allowed = true;
            let mut v = vec![];
            t.subterms(&mut v);
            for x in &v {
                allowed &= ok(x.op().0);
            }
            if !allowed || t.size() != *best {
                return Err(format!("recorded simplest term {} of its class; the smallest allowed one has size {}", t, best));
            }
        }
    }
    Ok(())
}

#[derive(Clone, Copy)]
enum Op {
    Add(usize),
    Union(usize, usize),
    Rebuild,
}

fn run_ivl(pool: &[S], hist: &[Op], o: &mut Obs) -> Result<(), String> {
    let mut rf = RefEg::new();
    for op in hist {
        match op {
            Op::Add(i) => {
                rf.add(&pool[*i]);
            }
            Op::Union(i, j) => {
                let x = rf.add(&pool[*i]);
                let y = rf.add(&pool[*j]);
                rf.union(x, y);
            }
            Op::Rebuild => {}
        }
    }
    rf.rebuild();
    // histories that equate different values are outside the property
    let Ok(d) = analyse(&mut rf) else {
        o.show("equates different values");
        return Ok(());
    };
    let mut eg: EGraph<Ivl, SynthAnalysis> = EGraph::default();
    eg.analysis.cvec_len = len();
    let expr = |t: &S| t.to_string().parse::<egg::RecExpr<Ivl>>().unwrap();
    for op in hist {
        o.trans(1);
        match op {
            Op::Add(i) => {
                eg.add_expr(&expr(&pool[*i]));
            }
            Op::Union(i, j) => {
                let x = eg.add_expr(&expr(&pool[*i]));
                let y = eg.add_expr(&expr(&pool[*j]));
                eg.union(x, y);
            }
            Op::Rebuild => {
                eg.rebuild();
            }
        }
    }
    eg.rebuild();
    o.state(&rf.fingerprint());
    o.show(format!("{} classes", rf.nclasses()));
    let map = iso(&eg, &rf)?;
    for c in eg.classes() {
        let want = &d[&map[&eg.find(c.id)]];
        let got = &c.data;
        if got.cvec != want.cvec {
            return Err(format!("class of {}: vector {:?}, members justify {:?}", got.simplest, got.cvec, want.cvec));
        }
        if got.interval.low != want.lo || got.interval.high != want.hi {
            return Err(format!(
                "class of {}: interval {:?}, intersection over members is [{:?}, {:?}]",
                got.simplest, got.interval, want.lo, want.hi
            ));
        }
        let def = want.cvec.iter().any(|x| x.is_some());
        if got.is_defined() != def {
            return Err(format!("class of {}: defined = {}, expected {}", got.simplest, got.is_defined(), def));
        }
    }
    check_simplest(&eg, &rf, &map)
}

fn run_free(pool: &[S], hist: &[Op], o: &mut Obs) -> Result<(), String> {
    let mut eg: EGraph<Free, SynthAnalysis> = EGraph::default();
    let mut rf = RefEg::new();
    let expr = |t: &S| t.to_string().parse::<egg::RecExpr<Free>>().unwrap();
    for op in hist {
        o.trans(1);
        match op {
            Op::Add(i) => {
                eg.add_expr(&expr(&pool[*i]));
                rf.add(&pool[*i]);
            }
            Op::Union(i, j) => {
                let x = eg.add_expr(&expr(&pool[*i]));
                let y = eg.add_expr(&expr(&pool[*j]));
                eg.union(x, y);
                let x = rf.add(&pool[*i]);
                let y = rf.add(&pool[*j]);
                rf.union(x, y);
            }
            Op::Rebuild => {
                eg.rebuild();
            }
        }
    }
    eg.rebuild();
    rf.rebuild();
    o.state(&rf.fingerprint());
    o.show(format!("{} classes", rf.nclasses()));
    let map = iso(&eg, &rf)?;
    for c in eg.classes() {
        if !c.data.is_defined() || !c.data.cvec.is_empty() {
            return Err("a class without vectors must count as defined".into());
        }
    }
    check_simplest(&eg, &rf, &map)
}

fn hist_text(pool: &[S], h: &[Op]) -> String {
    h.iter()
        .map(|op| match op {
            Op::Add(i) => format!("add {}", pool[*i]),
            Op::Union(i, j) => format!("union {} {}", pool[*i], pool[*j]),
            Op::Rebuild => "rebuild".into(),
        })
        .collect::<Vec<_>>()
        .join("; ")
}

fn explore(ctx: &mut Ctx) {
    // families of terms denoting the same vector of values: unions inside a
    // family are always consistent
    let fams: Vec<Vec<&str>> = vec![
        vec!["I..2.", "I1..2", "I.3..", "I2...", "I.2..", "(inc I...1)"], // (2,2)
        vec!["I...1", "I0.1.", "I.1.."],                                   // (1,1)
        vec!["I131.", "I...3", "(max I...1 I..1.)"],                       // (1,3)
        vec!["I..1.", "I0..3"],                                            // (1,3)
        vec!["(inc I2...)", "I3...", "(inc (inc I.1..))"],                 // (3,3)
        vec!["(max I131. I..2.)", "I24.."],                                // (2,3)
    ];
    // families 2 and 3 denote the same vector: merge them
    let mut families: Vec<Vec<S>> = vec![];
    for (i, f) in fams.iter().enumerate() {
        let ts: Vec<S> = f.iter().map(|t| S::p(t)).collect();
        if i == 3 {
            families[2].extend(ts);
        } else {
            families.push(ts);
        }
    }
    let pool: Vec<S> = families.concat();
    let mut ops = vec![Op::Rebuild];
    for i in 0..pool.len() {
        ops.push(Op::Add(i));
    }
    let mut base = 0;
    for f in &families {
        for i in 0..f.len() {
            for j in 0..f.len() {
                if i < j || (i > j && (i + j) % 3 == 0) {
                    ops.push(Op::Union(base + i, base + j));
                }
            }
        }
        base += f.len();
    }
    let fpool: Vec<S> = [
        "a", "B", "(f a)", "(_h a)", "(f (f a))", "(f (_h a))", "(g a B)", "(g (f a) (_h B))", "_c", "(_h _c)", "(g a a)",
    ]
    .iter()
    .map(|t| S::p(t))
    .collect();
    let mut fops = vec![Op::Rebuild];
    for i in 0..fpool.len() {
        for j in i + 1..fpool.len() {
            fops.push(Op::Union(i, j));
        }
    }
    fn go(
        ctx: &mut Ctx,
        pool: &[S],
        ops: &[Op],
        cur: &mut Vec<Op>,
        max: usize,
        f: fn(&[S], &[Op], &mut Obs) -> Result<(), String>,
    ) {
        if ctx.stopped() {
            return;
        }
        if !cur.is_empty() {
            ctx.case(|| hist_text(pool, cur), |o| f(pool, cur, o));
        }
        if cur.len() == max {
            return;
        }
        for op in ops {
            if let (Op::Rebuild, Some(Op::Rebuild) | None) = (op, cur.last()) {
                continue;
            }
            cur.push(*op);
            go(ctx, pool, ops, cur, max, f);
            cur.pop();
        }
    }
    go(ctx, &pool, &ops, &mut vec![], ctx.pick(3, 4), run_ivl);
    go(ctx, &fpool, &fops, &mut vec![], ctx.pick(3, 4), run_free);
    // every order of interleaving a fixed multiset of operations
    let longs: Vec<Vec<Op>> = {
        let at = |t: &str| pool.iter().position(|x| x == &S::p(t)).unwrap();
        vec![
            vec![
                Op::Union(at("I..2."), at("I1..2")),
                Op::Union(at("I1..2"), at("(inc I...1)")),
                Op::Union(at("I...1"), at("I.1..")),
                Op::Union(at("I0.1."), at("I.1..")),
                Op::Union(at("(inc (inc I.1..))"), at("I3...")),
                Op::Rebuild,
            ],
            vec![
                Op::Union(at("I2..."), at("I.2..")),
                Op::Add(at("(inc I2...)")),
                Op::Union(at("(inc (inc I.1..))"), at("(inc I2...)")),
                Op::Union(at("I0.1."), at("I.1..")),
                Op::Rebuild,
                Op::Union(at("I.3.."), at("(inc I...1)")),
            ],
            vec![
                Op::Union(at("I131."), at("I...3")),
                Op::Union(at("(max I131. I..2.)"), at("I24..")),
                Op::Union(at("(max I...1 I..1.)"), at("I0..3")),
                Op::Union(at("I..2."), at("I2...")),
                Op::Union(at("I0.1."), at("I...1")),
                Op::Rebuild,
            ],
        ]
    };
    for l in &longs {
        for p in perms(l.len()) {
            let h: Vec<Op> = p.iter().map(|i| l[*i]).collect();
            ctx.case(|| hist_text(&pool, &h), |o| run_ivl(&pool, &h, o));
        }
    }

    // Parents first: which of two merged classes has parents, how many, and
    // which of them has the smaller term, the more defined vector or the
    // tighter interval decides what has to be propagated where
    // (second family: intervals that never become constants)
    let fams1: Vec<Vec<&str>> = vec![
        vec!["I..1.", "I...1", "I....", "I1...", "I.1..", "(inc I..5.)", "(inc I..00)", "(inc (max I..0. I...0))", "I0211"],
        vec!["I0...", "I.5..", "I..1.", "I04..", "I1...", "I.4.1", "(inc I.4..)", "(max I0.1. I05..)", "I...."],
    ];
    for fam in &fams1 {
    let f1: Vec<S> = fam
        .iter()
        .map(|t| S::p(t))
        .collect();
    let mut parents: Vec<S> = f1.iter().map(|t| S::L(vec![a("inc"), t.clone()])).collect();
    for (i, j) in [(0usize, 0usize), (0, 1), (2, 5), (3, 6), (7, 2), (4, 8)] {
        parents.push(S::L(vec![a("max"), f1[i].clone(), f1[j].clone()]));
    }
    for i in [0usize, 2, 5, 6] {
        parents.push(S::L(vec![a("inc"), S::L(vec![a("inc"), f1[i].clone()])]));
    }
    let ppool: Vec<S> = f1.iter().chain(&parents).cloned().collect();
    let unions: Vec<(usize, usize)> = (0..f1.len()).flat_map(|i| (0..f1.len()).map(move |j| (i, j))).filter(|(i, j)| i != j).collect();
    for ps in combos(parents.len(), 0, ctx.pick(2, 3)) {
        for (n, u) in unions.iter().enumerate() {
            for (m, v) in unions.iter().enumerate() {
                // second unions: all of them for few parents
                if ps.len() >= 2 && (n + m) % 5 != ps[0] % 5 {
                    continue;
                }
                let mut h: Vec<Op> = ps.iter().map(|i| Op::Add(f1.len() + i)).collect();
                h.push(Op::Union(u.0, u.1));
                if (n + m) % 2 == 0 {
                    h.push(Op::Rebuild);
                }
                h.push(Op::Union(v.0, v.1));
                ctx.case(|| hist_text(&ppool, &h), |o| run_ivl(&ppool, &h, o));
            }
        }
    }
    }
    // vectors of every length: one class defines what the other does not
    for n in 1..=20usize {
        let leaf = |lo: char, hi: char, f: &dyn Fn(usize) -> bool| a(&format!("I{}{}{}", lo, hi, (0..n).map(|i| if f(i) { '1' } else { '.' }).collect::<String>()));
        for k in 0..n {
            let ls = [
                leaf('.', '.', &|i| i == k),
                leaf('.', '.', &|i| i != k),
                leaf('.', '.', &|i| i < k),
                leaf('0', '.', &|i| i >= k),
                leaf('.', '.', &|_| false),
                leaf('.', '2', &|_| true),
            ];
            let mut pool: Vec<S> = ls.to_vec();
            for l in &ls {
                pool.push(S::L(vec![a("inc"), l.clone()]));
            }
            for u in combos(6, 2, 2) {
                for w in combos(6, 2, 2) {
                    for ps in [vec![], vec![6 + u[0]], vec![6 + u[1]], vec![6 + u[0], 6 + w[1]]] {
                        let mut h: Vec<Op> = ps.iter().map(|i| Op::Add(*i)).collect();
                        h.push(Op::Union(u[0], u[1]));
                        if u != w {
                            h.push(Op::Union(w[1], w[0]));
                        }
                        ctx.case(
                            || format!("vectors of length {}: {}", n, hist_text(&pool, &h)),
                            |o| {
                                LEN.store(n, Ordering::Relaxed);
                                let r = run_ivl(&pool, &h, o);
                                LEN.store(2, Ordering::Relaxed);
                                r
                            },
                        );
                    }
                }
            }
        }
    }
    // terms of every size: composite simplest terms, sharing and large classes
    for n in 1..=ctx.pick(24usize, 60) {
        let mut deep = a("a");
        let mut left = a("B");
        let mut bad = a("a");
        for i in 0..n {
            deep = S::L(vec![a("f"), deep]);
            left = if i % 3 == 2 { S::L(vec![a("g"), left.clone(), left]) } else { S::L(vec![a("g"), left, a("a")]) };
            if left.size() > 300 {
                left = S::p("(f B)");
            }
            bad = S::L(vec![a(if i == n / 2 { "_h" } else { "f" }), bad]);
        }
        let wide = S::L(std::iter::once(a("w")).chain((0..n).map(|i| [a("a"), deep.clone(), left.clone()][(i * i) % 3].clone())).collect());
        let pool = vec![
            S::L(vec![a("g"), deep.clone(), left.clone()]),
            S::L(vec![a("g"), left.clone(), deep.clone()]),
            S::L(vec![a("t"), deep.clone(), bad.clone(), left.clone()]),
            wide,
            S::L(vec![a("g"), bad.clone(), bad.clone()]),
            deep,
            left,
            bad,
            a("c"),
            S::L(vec![a("u"), a("c"), a("c"), a("B")]),
        ];
        let un = combos(pool.len(), 2, 2);
        for (i, u) in un.iter().enumerate() {
            for (j, v) in un.iter().enumerate() {
                if n > 12 && (i + j) % 4 != n % 4 {
                    continue;
                }
                let mut h: Vec<Op> = (0..pool.len()).filter(|k| (k * 7 + i + j) % 3 > 0).map(Op::Add).collect();
                h.push(Op::Union(u[0], u[1]));
                if (i + j) % 2 == 1 {
                    h.push(Op::Rebuild);
                }
                h.push(Op::Union(v[1], v[0]));
                ctx.case(|| format!("terms of depth {}: {}", n, hist_text(&pool, &h).chars().take(300).collect::<String>()), |o| run_free(&pool, &h, o));
            }
        }
    }
    // large classes: n members merged in different orders
    for n in sizes().into_iter().filter(|n| *n <= 130) {
        let mut pool: Vec<S> = (0..n).map(|i| S::p(&format!("(f{} {} {})", i % 5, ["a", "B", "_c", "(g a B)"][i % 4], format!("x{}", i)))).collect();
        pool.push(a("k"));
        for r in 0..4 {
            let mut h: Vec<Op> = vec![];
            for i in 1..n {
                match r {
                    0 => h.push(Op::Union(i - 1, i)),
                    1 => h.push(Op::Union(n - i, n - i - 1)),
                    2 => h.push(Op::Union(0, (i * 7) % n)),
                    _ => h.push(Op::Union(i / 2, i)),
                }
                if i % 9 == 4 {
                    h.push(Op::Rebuild);
                }
            }
            if n % 2 == 0 {
                h.push(Op::Union(n / 2, n));
            }
            h.retain(|op| !matches!(op, Op::Union(i, j) if i == j));
            ctx.case(|| format!("{} members merged, order {}", n, r), |o| run_free(&pool, &h, o));
        }
        let pool: Vec<S> = (0..n)
            .map(|i| match i % 4 {
                0 => (0..i % 9).fold(a("I..1."), |t, _| S::L(vec![a("max"), t, a("I....")])),
                1 => S::p(&format!("(max I.1.. (max I...1 (max I.... (inc I..{}.))))", if i % 8 == 1 { "0" } else { "." })),
                2 => a("I1..."),
                _ => (0..i % 7).fold(a("I.3.."), |t, _| S::L(vec![a("max"), t, a("I.2..")])),
            })
            .collect();
        for r in 0..3 {
            let h: Vec<Op> = (1..n)
                .map(|i| match r {
                    0 => Op::Union(i - 1, i),
                    1 => Op::Union(i, i / 3),
                    _ => Op::Union(n - i, n - i - 1),
                })
                .collect();
            ctx.case(|| format!("{} members with vectors merged, order {}", n, r), |o| run_ivl(&pool, &h, o));
        }
    }
}

fn main() {
    mc::main(
        Check {
            id: "A01",
            level: "model_checking",
            rule: "every history of at most 3 (thorough 4) adds, unions and rebuilds over 20 terms with \
                   partial vectors and intervals (unions only inside families denoting the same values) \
                   and over 11 uninterpreted terms with disallowed operators, plus every permutation of \
                   three 6-operation histories, every pair of unions after every set of at most 2 (3) of 19 parents, vectors of length 1-20, \
                   terms of depth up to 24 (60) and classes of up to 130 members; the real e-graph must be isomorphic to the reference \
                   closure and every class carry the reference analysis. State = reference graph.",
            assumptions: &["histories are semantically consistent (the library asserts otherwise)"],
            ..Check::DEFAULT
        },
        explore,
    )
}
