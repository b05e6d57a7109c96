//! Workload algebra: every builder history against the denotational model.
use mc::wl::*;
use mc::*;
use ruler::enumo::Workload;

#[derive(Clone)]
enum Op {
    Plug(&'static str, usize),
    Filter(F),
    Append(usize),
}

/// A workload expression together with its denotation.
#[derive(Clone)]
struct Both {
    real: Workload,
    model: Vec<S>,
    text: String,
}

const CAP: usize = 4000;

fn set(ts: &[&str]) -> Both {
    let model: Vec<S> = ts.iter().map(|t| S::p(t)).collect();
    Both {
        real: wset(&model),
        model,
        text: format!("{{{}}}", ts.join(", ")),
    }
}

impl Both {
    fn plug(&self, name: &str, p: &Both) -> Option<Both> {
        let mut n = 0usize;
        for t in &self.model {
            n = n.saturating_add(plug_count(t, name, p.model.len()));
        }
        if n > CAP {
            return None;
        }
        Some(Both {
            real: self.real.clone().plug(name, &p.real),
            model: self
                .model
                .iter()
                .flat_map(|t| mc::wl::plug(t, name, &p.model))
                .collect(),
            text: format!("{}.plug({:?}, {})", self.text, name, p.text),
        })
    }
    fn filter(&self, f: &F) -> Option<Both> {
        Some(Both {
            real: self.real.clone().filter(f.real()),
            model: self.model.iter().filter(|t| f.test(t)).cloned().collect(),
            text: format!("{}.filter({:?})", self.text, f),
        })
    }
    fn append(&self, o: &Both) -> Option<Both> {
        if self.model.len() + o.model.len() > CAP {
            return None;
        }
        Some(Both {
            real: self.real.clone().append(o.real.clone()),
            model: self.model.iter().chain(o.model.iter()).cloned().collect(),
            text: format!("{}.append({})", self.text, o.text),
        })
    }
}

fn explore(ctx: &mut Ctx) {
    let lt = |m, n| F::Lt(m, n);
    let args: Vec<Both> = {
        let empty = set(&[]);
        let a = set(&["a"]);
        let self_ref = set(&["x", "(f x)"]);
        let multi = set(&["a", "(g y)", "(f a a)"]);
        // non-literal workloads
        let plugged = set(&["x", "(f y y)"]).plug("y", &set(&["a", "b"])).unwrap();
        let empty_plug = set(&["x"]).plug("x", &set(&["z"]).filter(&lt(M::Atoms, 1)).unwrap()).unwrap();
        let appended = plugged.append(&set(&["(h x y)"])).unwrap();
        let filtered = set(&["a", "b", "(f a b)", "(f b b)"])
            .filter(&F::Contains(S::p("b")))
            .unwrap();
        let mut v = vec![empty, a, self_ref, multi, plugged, empty_plug, appended, filtered];
        v.push(set(&["()", "x"]));
        v
    };
    let filters: Vec<F> = vec![
        lt(M::Atoms, 3),
        lt(M::Atoms, 4),
        lt(M::Atoms, 2),
        lt(M::Depth, 3),
        lt(M::Lists, 2),
        F::Eq(M::Atoms, 3),
        F::Contains(S::p("a")),
        F::Excludes(S::p("a")),
        F::Excludes(S::p("(f ?x ?x)")),
        F::And(vec![lt(M::Atoms, 4), F::Excludes(S::p("b"))]),
        F::And(vec![lt(M::Depth, 3), F::Contains(S::p("y"))]),
        F::And(vec![F::And(vec![lt(M::Atoms, 5), lt(M::Atoms, 4)]), lt(M::Lists, 3)]),
        F::Or(vec![F::Contains(S::p("x")), lt(M::Atoms, 2)]),
        F::Not(Box::new(lt(M::Atoms, 2))),
        F::Not(Box::new(F::Excludes(S::p("x")))),
        F::Canon(vec!["a".into(), "b".into()]),
        F::Not(Box::new(F::Contains(S::p("(f * *)")))),
    ];
    let starts: Vec<Both> = vec![
        set(&["x", "(f x y)", "(g x)", "a"]),
        set(&["(f (g x) x)", "y", "x"]),
        set(&["(x y)", "(* x *)", "?x", "b"]),
        set(&[]),
    ];
    let mut ops: Vec<Op> = vec![];
    for i in 0..args.len() {
        ops.push(Op::Plug("x", i));
        ops.push(Op::Append(i));
    }
    for i in [0, 3, 4] {
        ops.push(Op::Plug("y", i));
    }
    // names that are meaningful to the *pattern* language are ordinary atoms here
    for n in ["*", "?x", "f"] {
        ops.push(Op::Plug(n, 0));
        ops.push(Op::Plug(n, 3));
    }
    for f in &filters {
        ops.push(Op::Filter(f.clone()));
    }
    let depth = ctx.pick(3, 4);
    fn apply(w: &Both, op: &Op, args: &[Both]) -> Option<Both> {
        match op {
            Op::Plug(n, i) => w.plug(n, &args[*i]),
            Op::Filter(f) => w.filter(f),
            Op::Append(i) => w.append(&args[*i]),
        }
    }
    fn judge(w: &Both, depth: usize, o: &mut Obs) -> Result<(), String> {
        let got = forced(&w.real);
        o.trans(depth);
        let mut m = w.model.clone();
        m.sort();
        o.state(&m);
        o.show(format!("{} terms", m.len()));
        same_multiset(&got, &w.model)?;
        // forcing is a function of the workload
        if forced(&w.real.clone()) != got {
            return Err("forcing twice gives different results".into());
        }
        Ok(())
    }
    /// Builds the history only in the worker that judges it.
    fn lazy(ctx: &mut Ctx, depth: usize, build: impl Fn() -> Option<Both>) {
        ctx.case(
            || build().map_or("beyond the term cap".into(), |w| w.text),
            |o| match build() {
                Some(w) => judge(&w, depth, o),
                None => Ok(()),
            },
        );
    }
    fn go(ctx: &mut Ctx, w: &Both, d: usize, max: usize, ops: &[Op], args: &[Both]) {
        if ctx.stopped() {
            return;
        }
        ctx.case(|| w.text.clone(), |o| judge(w, d, o));
        if d == max {
            return;
        }
        for op in ops {
            // at the last level build nothing that is not this worker's
            match apply(w, op, args) {
                Some(w2) => go(ctx, &w2, d + 1, max, ops, args),
                None => ctx.count("histories beyond the term cap", 1),
            }
        }
    }
    for s in &starts {
        go(ctx, s, 0, depth, &ops, &args);
    }
    // Results as operands: (A op B) appended to / plugged into (C op D)
    let mut lvl: Vec<Both> = vec![];
    for s in &starts[..3] {
        for op in ops.iter() {
            if let Some(w) = apply(s, op, &args) {
                lvl.push(w);
            }
        }
    }
    let step = ctx.pick(2, 1);
    for (i, w) in lvl.iter().enumerate() {
        for v in lvl.iter().skip(i % step).step_by(step) {
            if let Some(x) = w.append(v) {
                ctx.case(|| x.text.clone(), |o| judge(&x, 3, o));
                if let Some(y) = x.append(&args[6]) {
                    ctx.case(|| y.text.clone(), |o| judge(&y, 4, o));
                }
            }
            if let Some(x) = w.plug("x", v) {
                ctx.case(|| x.text.clone(), |o| judge(&x, 3, o));
                if let Some(y) = x.filter(&filters[9]) {
                    ctx.case(|| y.text.clone(), |o| judge(&y, 4, o));
                }
            }
        }
    }
    // long chains of one operation
    for f in &filters {
        for g in &filters {
            let base = starts[0].plug("x", &args[3]).unwrap().plug("y", &args[3]);
            if let Some(b) = base {
                for k in 1..=3 {
                    let mut w = b.clone();
                    for _ in 0..k {
                        w = w.filter(f).unwrap().filter(g).unwrap();
                    }
                    if let Some(w2) = w.plug("a", &args[4]) {
                        let w2 = w2.filter(g).unwrap().filter(f).unwrap();
                        ctx.case(|| w2.text.clone(), |o| judge(&w2, 2 * k + 5, o));
                    }
                    ctx.case(|| w.text.clone(), |o| judge(&w, 2 * k + 2, o));
                }
            }
        }
    }

    // Every filter of a larger family, directly on top of plugs and appends
    let leaves: Vec<F> = vec![
        lt(M::Atoms, 2),
        lt(M::Atoms, 4),
        lt(M::Depth, 2),
        lt(M::Depth, 3),
        lt(M::Lists, 1),
        lt(M::Lists, 2),
        F::Eq(M::Atoms, 1),
        F::Eq(M::Atoms, 3),
        F::Eq(M::Depth, 1),
        F::Eq(M::Depth, 2),
        F::Eq(M::Lists, 1),
        F::Contains(S::p("a")),
        F::Contains(S::p("(f ?x ?x)")),
        F::Contains(S::p("*")),
        F::Excludes(S::p("a")),
        F::Excludes(S::p("x")),
        F::Excludes(S::p("(f ?x ?x)")),
        F::Excludes(S::p("(g *)")),
        F::Canon(vec!["a".into(), "b".into()]),
        F::Canon(vec!["b".into(), "a".into()]),
        F::Canon(vec!["a".into(), "y".into()]),
        F::Canon(vec![]),
        F::And(vec![]),
        F::Or(vec![]),
    ];
    let mut fam: Vec<F> = leaves.clone();
    for f in &leaves {
        fam.push(F::Not(Box::new(f.clone())));
        fam.push(F::Not(Box::new(F::Not(Box::new(f.clone())))));
        fam.push(F::And(vec![f.clone()]));
        fam.push(F::Or(vec![f.clone()]));
    }
    for f in &leaves {
        for g in &leaves {
            if f != g {
                fam.push(F::And(vec![f.clone(), g.clone()]));
                fam.push(F::Or(vec![f.clone(), g.clone()]));
                fam.push(F::Not(Box::new(F::And(vec![f.clone(), g.clone()]))));
                fam.push(F::Not(Box::new(F::Or(vec![f.clone(), g.clone()]))));
                fam.push(F::And(vec![F::Not(Box::new(f.clone())), g.clone()]));
                fam.push(F::Or(vec![F::Not(Box::new(f.clone())), g.clone()]));
            }
        }
    }
    let mut bases: Vec<Both> = vec![];
    for s in &starts[..3] {
        for (n, i) in [("x", 2usize), ("x", 3), ("x", 4), ("x", 7), ("x", 8), ("y", 3), ("x", 0)] {
            if let Some(w) = s.plug(n, &args[i]) {
                if let Some(w2) = w.plug("y", &args[7]) {
                    bases.push(w2);
                }
                bases.push(w.append(&args[3]).unwrap());
                bases.push(w);
            }
        }
    }
    for (i, b) in bases.iter().enumerate() {
        for f in &fam {
            lazy(ctx, 3, || b.filter(f));
            let g = &leaves[i % leaves.len()];
            lazy(ctx, 4, || b.filter(f)?.filter(g));
            lazy(ctx, 5, || b.filter(f)?.plug("a", &args[4])?.filter(&leaves[(i * 7) % leaves.len()]));
        }
    }
    for f in &leaves {
        for g in &fam {
            for b in [&bases[4], &bases[13]] {
                lazy(ctx, 5, || b.filter(f)?.filter(g));
                lazy(ctx, 5, || b.filter(g)?.filter(f));
            }
        }
    }
    // every ordered pair of related filters: subsumption must be real
    let mut related: Vec<F> = vec![];
    for p in ["a", "b", "f", "*", "?v", "(f ?x ?x)", "(f ?x ?y)", "(f a *)", "(f * a)", "(f a b)", "(f a a)", "(g *)", "(g x)", "(g (f * *))", "(f (g *) *)", "(* *)"] {
        related.push(F::Contains(S::p(p)));
        related.push(F::Excludes(S::p(p)));
        if !p.contains('?') {
            related.push(F::Not(Box::new(F::Excludes(S::p(p)))));
        }
    }
    for m in METRICS {
        for n in 1..=5 {
            related.push(lt(m, n));
            related.push(F::Eq(m, n));
            if n > 1 && n < 4 {
                related.push(F::Not(Box::new(lt(m, n))));
            }
        }
    }
    related.push(F::Canon(vec!["a".into(), "b".into()]));
    related.push(F::Canon(vec!["a".into()]));
    related.push(F::Canon(vec!["b".into(), "a".into()]));
    let rel_base = || set(&["x", "(f x x)", "(g x)", "(f (g x) b)"]).plug("x", &set(&["a", "b", "(f a b)", "(g a)", "(f b b)"]));
    for (i, f) in related.iter().enumerate() {
        for (j, g) in related.iter().enumerate() {
            lazy(ctx, 3, || rel_base()?.filter(f)?.filter(g));
            lazy(ctx, 3, || rel_base()?.filter(&F::And(vec![f.clone(), g.clone()])));
            let h = &related[(i * 7 + j * 3) % related.len()];
            lazy(ctx, 4, || rel_base()?.filter(f)?.filter(g)?.filter(h));
        }
    }
    // unusual pegs: empty lists, one peg, repeated pegs, pegs mentioning the name
    for t in ["x", "(f x)", "(f x x)", "(x)", "(x x b)", "((x) y)", "()"] {
        for (i, pegs) in [&["()"][..], &["()", "()"], &["()", "a"], &["(())"], &["a"], &["a", "a"], &["x"], &["x", "x"], &["(x)"], &["(f x)", "x"], &["(())", "()"], &["y", "x"]].iter().enumerate() {
            let w = || set(&[t, "b", "x"]).plug("x", &set(pegs));
            lazy(ctx, 2, w);
            lazy(ctx, 3, || w()?.plug("x", &set(&["c", "d"])));
            lazy(ctx, 3, || w()?.append(&set(&["()"])));
            for f in &leaves {
                lazy(ctx, 3, || w()?.filter(f));
            }
            lazy(ctx, 4, || w()?.plug("y", &set(&["()"]))?.filter(&leaves[i % leaves.len()]));
        }
    }
    // long chains of different filters: every order of every subset
    let eight: Vec<F> = vec![
        lt(M::Atoms, 6),
        lt(M::Depth, 3),
        lt(M::Lists, 3),
        F::Excludes(S::p("(g *)")),
        F::Contains(S::p("f")),
        F::Not(Box::new(F::Eq(M::Atoms, 4))),
        F::Excludes(S::p("b")),
        F::Canon(vec!["a".into(), "y".into()]),
    ];
    let chain_base = starts[0].plug("x", &args[3]).unwrap().plug("y", &args[3]).unwrap();
    for k in 4..=ctx.pick(6usize, 8) {
        for order in perms(8) {
            // one representative order of the filters left out
            if order[k..].windows(2).any(|w| w[0] > w[1]) {
                continue;
            }
            lazy(ctx, k + 3, || {
                let mut w = chain_base.clone();
                for i in &order[..k] {
                    w = w.filter(&eight[*i])?;
                }
                Some(w)
            });
        }
    }
    for k in 4..=8usize {
        for r in 0..8 {
            // nested conjunctions, left and right
            let fs: Vec<F> = (0..k).map(|i| eight[(i * 3 + r) % 8].clone()).collect();
            for cut in 0..=k {
                lazy(ctx, 5, || chain_base.filter(&F::And(fs[..cut].to_vec()))?.filter(&F::And(fs[cut..].to_vec())));
                // single filters before and after a conjunction
                lazy(ctx, 6, || {
                    let mut w = chain_base.clone();
                    for f in &fs[..cut] {
                        w = w.filter(f)?;
                    }
                    w.filter(&F::And(fs[cut..].to_vec()))
                });
                lazy(ctx, 6, || {
                    let mut w = chain_base.filter(&F::And(fs[..cut].to_vec()))?;
                    for f in &fs[cut..] {
                        w = w.filter(f)?;
                    }
                    Some(w)
                });
                lazy(ctx, 6, || chain_base.filter(&fs[0])?.filter(&F::And(fs[1..=cut.max(1).min(k - 1)].to_vec()))?.filter(&F::Or(fs[cut..].to_vec())));
            }
        }
    }
    // Sizes: many pegs, many terms, many parts, wide and deep terms
    let names = |p: &str, n: usize| -> Vec<S> { (0..n).map(|i| a(&format!("{}{}", p, i))).collect() };
    let both = |m: Vec<S>, t: String| Both { real: wset(&m), model: m, text: t };
    for n in sizes().into_iter().filter(|n| *n <= 2050) {
        let pegs = both(names("p", n), format!("{{p0..p{}}}", n));
        for t in ["x", "(f x)", "(f a x)", "(g (f x b) a)", "(f y (g x) x)"] {
            let w = || set(&[t, "b"]).plug("x", &pegs);
            lazy(ctx, 2, w);
            for f in [lt(M::Atoms, 3), F::Excludes(S::p("p7")), F::Contains(S::p("p0")), F::Not(Box::new(F::Contains(S::p("p1"))))] {
                lazy(ctx, 3, || w()?.filter(&f));
            }
        }
        let many = both(names("x", n), format!("{{x0..x{}}}", n));
        lazy(ctx, 2, || many.plug("x0", &args[3]));
        lazy(ctx, 2, || many.plug("x3", &args[0]));
        lazy(ctx, 2, || many.append(&pegs));
        lazy(ctx, 2, || many.append(&args[4]));
        lazy(ctx, 2, || args[4].append(&many));
    }
    for n in 1..=40usize {
        // appends of many parts, literal and computed, from both sides
        for kind in 0..4 {
            let mut w = if kind % 2 == 0 { set(&[]) } else { args[4].clone() };
            for i in 0..n {
                let part = if (i + kind) % 3 == 0 { args[5].append(&set(&["(f a x)"])).unwrap() } else { both(names("q", i % 4), format!("{} atoms", i % 4)) };
                w = if kind < 2 { w.append(&part).unwrap() } else { part.append(&w).unwrap() };
            }
            ctx.case(|| w.text.clone(), |o| judge(&w, n, o));
            if let Some(v) = w.filter(&lt(M::Atoms, 3)).unwrap().plug("x", &args[3]) {
                ctx.case(|| v.text.clone(), |o| judge(&v, n + 2, o));
            }
        }
        // wide and deep terms
        let wide = S::L((0..n).map(|i| a(if i % 9 == 1 { "x" } else { "c" })).collect());
        let mut deep = a("x");
        for _ in 0..n {
            deep = S::L(vec![a("g"), deep]);
        }
        let ws = both(vec![wide, deep], format!("{{wide {}, deep {}}}", n, n));
        for i in [0, 3, 6] {
            if let Some(w) = ws.plug("x", &args[i]) {
                ctx.case(|| w.text.clone(), |o| judge(&w, 2, o));
                for f in [lt(M::Depth, n + 1), lt(M::Atoms, n + 1), lt(M::Lists, n), F::Eq(M::Depth, n + 1), F::Eq(M::Atoms, n), F::Excludes(S::p("(g x)"))] {
                    let v = w.filter(&f).unwrap();
                    ctx.case(|| v.text.clone(), |o| judge(&v, 3, o));
                }
            }
        }
        // long chains of plugs
        let mut w = set(&["(f x0 z)", "z"]);
        for i in 0..n {
            let peg = set(&[&format!("(g x{})", i + 1), "z"].iter().map(|s| &s[..]).collect::<Vec<_>>()[..]);
            w = w.plug(&format!("x{}", i), &peg).unwrap();
            if i % 5 == 4 {
                w = w.filter(&lt(M::Depth, n)).unwrap();
            }
        }
        ctx.case(|| w.text.clone(), |o| judge(&w, n, o));
    }
}

fn main() {
    mc::main(
        Check {
            id: "W01",
            level: "model_checking",
            rule: "every sequence of workload builder operations (17 filters, 17+ plugs, 9 appends) \
                   up to depth 3 (thorough 4) from four start sets, plus all pairs of one-step results \
                   combined, 3400 filters on 60 plugged and appended workloads, every order of every 4-6 (8) of 8 filters, \
                   and size families (up to 2050 pegs or terms, 40 parts, width and depth 40); state = the denoted multiset of terms; each history is replayed on the \
                   real builder and the forced workload compared with the model as a multiset",
            assumptions: &["histories whose model exceeds 4000 terms are outside the bound"],
            ..Check::DEFAULT
        },
        explore,
    )
}
