use mc::wl::*;
use mc::*;

/// All trees with lists of at most `w` children and depth <= d over `atoms`.
fn trees(atoms: &[&str], widths: &[usize]) -> Vec<S> {
    let base: Vec<S> = atoms.iter().map(|x| a(x)).collect();
    let mut cur = base.clone();
    for w in widths {
        let mut next = base.clone();
        for k in 0..=*w {
            for s in seqs(cur.len(), k) {
                next.push(S::L(s.iter().map(|i| cur[*i].clone()).collect()));
            }
        }
        cur = next;
    }
    cur
}

fn judge(f: &F, terms: &[S], obs: &mut Obs) -> Result<(), String> {
    let real = f.real();
    let w = wset(terms).filter(real);
    let got = forced(&w);
    let want: Vec<S> = terms.iter().filter(|t| f.test(t)).cloned().collect();
    obs.traces(terms.len());
    obs.outcome(&(f, want.len()));
    obs.show(format!("{} of {} terms satisfy it", want.len(), terms.len()));
    if got != want {
        same_multiset(&got, &want)?;
        return Err("filtering changed the order of the workload".into());
    }
    Ok(())
}

fn explore(ctx: &mut Ctx) {
    // 1. metrics: every tree, every bound
    let big = trees(&["x", "y", "f"], &[3, 2]);
    let mut deep = trees(&["x", "f"], &[1, 2, 2]);
    deep.push(S::p("(a (b (c (d (e (f (g (h (i (j k))))))))))"));
    deep.push(S::p("(a b c d e f g h i j k l m n o p q r s t u v w x y z)"));
    for m in METRICS {
        for n in 0..=12usize {
            for f in [F::Lt(m, n), F::Eq(m, n)] {
                ctx.case(|| format!("{:?} over {} trees", f, big.len()), |o| judge(&f, &big, o));
                ctx.case(|| format!("{:?} over deep trees", f), |o| judge(&f, &deep, o));
            }
        }
        for n in [13, 24, 25, 26, 27] {
            for f in [F::Lt(m, n), F::Eq(m, n)] {
                ctx.case(|| format!("{:?} over deep trees", f), |o| judge(&f, &deep, o));
            }
        }
    }
    // 2. patterns: every pattern of depth <= 2 (3 children) against every tree;
    //    every pattern of depth <= 3 (2 children) against the smaller trees
    let p2 = trees(&["x", "f", "*", "?a", "?b"], &[3]);
    for p in &p2 {
        for f in [F::Contains(p.clone()), F::Excludes(p.clone())] {
            ctx.case(|| format!("{:?} over {} trees", f, big.len()), |o| judge(&f, &big, o));
        }
    }
    let small = trees(&["x", "y"], &[2, 2]);
    let p3 = trees(&["x", "*", "?a", "?b"], &[2, 2]);
    for p in &p3 {
        for f in [F::Contains(p.clone()), F::Excludes(p.clone())] {
            ctx.case(|| format!("{:?} over {} trees", f, small.len()), |o| judge(&f, &small, o));
        }
    }
    let wide: Vec<S> = {
        let mut v = trees(&["x", "y"], &[4]);
        v.extend(trees(&["x", "f"], &[2, 3]));
        v
    };
    for s in seqs(4, 4) {
        let al = ["?a", "?b", "x", "*"];
        let p = S::L(s.iter().map(|i| a(al[*i])).collect());
        for f in [F::Contains(p.clone()), F::Excludes(p.clone())] {
            ctx.case(|| format!("{:?} over {} trees", f, wide.len()), |o| judge(&f, &wide, o));
        }
    }
    if !ctx.quick() {
        let p3b = trees(&["x", "f", "?a", "?b"], &[2, 3]);
        for p in &p3b {
            let f = F::Contains(p.clone());
            ctx.case(|| format!("{:?} over {} trees", f, small.len()), |o| judge(&f, &small, o));
        }
        let wider = trees(&["x", "y", "f"], &[2, 3]);
        for p in &p3b {
            for f in [F::Contains(p.clone()), F::Excludes(p.clone())] {
                ctx.case(|| format!("{:?} over {} wider trees", f, wider.len()), |o| judge(&f, &wider, o));
            }
        }
        let deeper = trees(&["x", "y"], &[2, 2, 2]);
        for p in trees(&["x", "?a", "?b"], &[2, 2]).iter().chain(&trees(&["x", "?a"], &[1, 2, 2])) {
            for f in [F::Contains(p.clone()), F::Excludes(p.clone())] {
                ctx.case(|| format!("{:?} over {} deeper trees", f, deeper.len()), |o| judge(&f, &deeper, o));
            }
        }
    }
    // 3. canonicity: every list of distinct symbols
    let ct = {
        let mut v = trees(&["a", "b", "c", "x"], &[2, 2]);
        v.extend(trees(&["a", "b", "c", "d"], &[4]));
        v.extend(trees(&["a", "b", "c"], &[3, 3]).into_iter().step_by(ctx.pick(37, 3)));
        v
    };
    let syms = ["a", "b", "c", "d"];
    for k in 0..=4usize {
        for s in seqs(4, k) {
            let mut d = s.clone();
            d.sort();
            d.dedup();
            if d.len() != s.len() {
                continue;
            }
            let f = F::Canon(s.iter().map(|i| syms[*i].to_string()).collect());
            ctx.case(|| format!("{:?} over {} trees", f, ct.len()), |o| judge(&f, &ct, o));
        }
    }
    // 4. boolean combinations
    let leaves = vec![
        F::Lt(M::Atoms, 3),
        F::Lt(M::Atoms, 5),
        F::Lt(M::Depth, 3),
        F::Eq(M::Lists, 1),
        F::Contains(S::p("x")),
        F::Excludes(S::p("(f ?a ?a)")),
        F::Canon(vec!["x".into(), "y".into()]),
    ];
    let mut l2: Vec<F> = leaves.clone();
    for k in 0..=ctx.pick(3usize, 3) {
        for s in seqs(leaves.len(), k) {
            let fs: Vec<F> = s.iter().map(|i| leaves[*i].clone()).collect();
            l2.push(F::And(fs.clone()));
            l2.push(F::Or(fs));
        }
    }
    for f in leaves.iter() {
        l2.push(F::Not(Box::new(f.clone())));
    }
    let few = trees(&["x", "y", "f"], &[2, 2]);
    for f in &l2 {
        ctx.case(|| format!("{:?} over {} trees", f, few.len()), |o| judge(f, &few, o));
        let g = F::Not(Box::new(f.clone()));
        ctx.case(|| format!("{:?} over {} trees", g, few.len()), |o| judge(&g, &few, o));
    }
    let step = ctx.pick(5, 1);
    let l3: Vec<F> = l2.iter().step_by(step).cloned().collect();
    for (i, f) in l3.iter().enumerate() {
        for g in leaves.iter().chain(l2[..].iter().skip(i % 7).step_by(97)) {
            for h in [
                F::And(vec![f.clone(), g.clone()]),
                F::Or(vec![g.clone(), f.clone()]),
                F::Not(Box::new(F::And(vec![g.clone(), f.clone()]))),
            ] {
                ctx.case(|| format!("{:?} over {} trees", h, few.len()), |o| judge(&h, &few, o));
            }
        }
    }

    // 5. unusual names: every pattern and symbol list over them
    let odd = ["?", "?_", "?a", "?ab", "??a", "*", "**", "_", "a", "ab", "A", "-1", "1", "=>", "f"];
    let odd_terms: Vec<S> = {
        let mut v: Vec<S> = odd.iter().map(|x| a(x)).collect();
        for s in seqs(odd.len(), 2) {
            v.push(S::L(s.iter().map(|i| a(odd[*i])).collect()));
            v.push(S::L(vec![a("f"), a(odd[s[0]]), S::L(vec![a("g"), a(odd[s[1]])])]));
        }
        v
    };
    for x in odd {
        for f in [F::Contains(a(x)), F::Excludes(a(x)), F::Canon(vec![x.to_string()])] {
            ctx.case(|| format!("{:?} over odd names", f), |o| judge(&f, &odd_terms, o));
        }
        for y in odd {
            for p in [S::L(vec![a(x), a(y)]), S::L(vec![a("f"), a(x), S::L(vec![a("g"), a(y)])]), S::L(vec![a("f"), a(y), S::L(vec![a(x), a("*")])])] {
                for f in [F::Contains(p.clone()), F::Excludes(p.clone())] {
                    ctx.case(|| format!("{:?} over odd names", f), |o| judge(&f, &odd_terms, o));
                }
            }
            if x != y {
                let f = F::Canon(vec![x.to_string(), y.to_string()]);
                ctx.case(|| format!("{:?} over odd names", f), |o| judge(&f, &odd_terms, o));
            }
        }
    }
    // 6. canonicity with many symbols: every order of first occurrences, flat,
    //    nested left, nested right and repeated
    let names: Vec<String> = (0..12).map(|i| format!("s{}", i)).collect();
    for n in 1..=ctx.pick(6usize, 7) {
        let mut ts = vec![];
        for q in perms(n) {
            for k in 0..=n {
                let atoms: Vec<S> = q[..k].iter().map(|i| a(&names[*i])).collect();
                ts.push(S::L(atoms.clone()));
                if atoms.is_empty() {
                    continue;
                }
                ts.push(atoms.iter().skip(1).fold(atoms[0].clone(), |l, x| S::L(vec![l, x.clone()])));
                ts.push(atoms.iter().rev().skip(1).fold(atoms[k - 1].clone(), |l, x| S::L(vec![x.clone(), l])));
                let mut rep = atoms.clone();
                rep.insert(k / 2, S::L(atoms.iter().rev().take(2).cloned().collect()));
                rep.push(a("z"));
                rep.extend(atoms.iter().rev().cloned());
                ts.push(S::L(vec![a("f"), S::L(rep)]));
            }
        }
        ts.sort();
        ts.dedup();
        for m in n..=12usize.min(n + 3) {
            for r in 0..2 {
                let mut syms = names[..m].to_vec();
                if r == 1 {
                    syms.reverse();
                }
                let f = F::Canon(syms);
                ctx.case(|| format!("{:?} over {} terms with {} symbols", f, ts.len(), n), |o| judge(&f, &ts, o));
            }
        }
    }
    // 7. wide patterns and terms: every placement of one difference
    for n in sizes().into_iter().filter(|n| *n <= 130) {
        let flat = |f: &dyn Fn(usize) -> S| S::L((0..n).map(f).collect());
        let mut ts = vec![
            flat(&|_| a("x")),
            flat(&|i| a(if i % 2 == 0 { "x" } else { "y" })),
            flat(&|i| S::L(vec![a("g"), a(if i % 3 == 0 { "x" } else { "y" })])),
            S::L((0..n + 1).map(|_| a("x")).collect()),
            S::L((1..n).map(|_| a("x")).collect()),
        ];
        for k in [0, 1, n / 2, n.saturating_sub(2), n - 1] {
            ts.push(flat(&|i| a(if i == k { "y" } else { "x" })));
            ts.push(flat(&|i| if i == k { S::p("(g y)") } else { a("x") }));
        }
        let nested: Vec<S> = ts.iter().map(|t| S::L(vec![a("h"), S::L(vec![t.clone()])])).collect();
        ts.extend(nested);
        let mut deep = a("x");
        for i in 0..n {
            deep = if i % 4 == 3 { S::L(vec![a("k"), deep, a("y")]) } else { S::L(vec![a("k"), a("y"), deep]) };
            if i + 3 > n || i < 2 {
                ts.push(deep.clone());
            }
        }
        let mut ps = vec![
            flat(&|_| a("*")),
            flat(&|_| a("?a")),
            flat(&|i| a(if i % 2 == 0 { "?a" } else { "?b" })),
            flat(&|i| a(&format!("?v{}", i))),
            flat(&|i| a(if i + 1 == n { "x" } else { "*" })),
            flat(&|i| a(if i == 0 { "y" } else { "?a" })),
            flat(&|i| a(if i + 1 == n { "?b" } else { "?a" })),
            S::p("(k x y)"),
            S::p("(k y x)"),
            S::p("(g y)"),
            a("x"),
        ];
        ps.push(deep.clone());
        for p in &ps {
            for f in [F::Contains(p.clone()), F::Excludes(p.clone())] {
                ctx.case(|| format!("{:?} over terms of width and depth {}", f, n), |o| judge(&f, &ts, o));
            }
        }
        for m in METRICS {
            for d in 0..4 {
                for f in [F::Lt(m, (n + d).saturating_sub(1)), F::Eq(m, (n + d).saturating_sub(1)), F::Lt(m, 2 * n + d), F::Eq(m, 2 * n + d)] {
                    ctx.case(|| format!("{:?} over terms of width and depth {}", f, n), |o| judge(&f, &ts, o));
                }
            }
        }
        // long conjunctions and disjunctions, one member deciding
        for k in [0, 1, n / 2, n - 1] {
            for d in [F::Contains(S::p("(g y)")), F::Eq(M::Atoms, 3), F::Not(Box::new(F::Excludes(a("y"))))] {
                let and = F::And((0..n).map(|i| if i == k { d.clone() } else { F::Lt(M::Atoms, 10_000 + i) }).collect());
                let or = F::Or((0..n).map(|i| if i == k { d.clone() } else { F::Lt(M::Atoms, 0) }).collect());
                for f in [and, or] {
                    ctx.case(|| format!("{} filters, number {} decides: {:?}", n, k, d), |o| judge(&f, &few, o));
                }
            }
        }
        let mut not = F::Contains(a("y"));
        for _ in 0..n {
            not = F::Not(Box::new(not));
        }
        ctx.case(|| format!("{} inversions", n), |o| judge(&not, &few, o));
    }
    // 7b. a variable bound to lists that differ in one place
    for n in 1..=ctx.pick(7usize, 12) {
        let mk = |k: Option<usize>, deep: bool| {
            S::L((0..n).map(|i| if Some(i) == k { if deep { S::p("(h (h b))") } else { a("b") } } else if deep { S::p("(h (h a))") } else { a("a") }).collect())
        };
        let mut sub: Vec<S> = vec![];
        for deep in [false, true] {
            sub.push(mk(None, deep));
            for k in 0..n {
                sub.push(mk(Some(k), deep));
            }
        }
        sub.push(S::L((0..n + 1).map(|_| a("a")).collect()));
        sub.push(S::L((1..n).map(|_| a("a")).collect()));
        let mut ts = vec![];
        for x in &sub {
            for y in &sub {
                ts.push(S::L(vec![a("f"), x.clone(), y.clone()]));
                if n < 5 {
                    ts.push(S::L(vec![a("f"), x.clone(), S::L(vec![a("g"), y.clone(), y.clone()])]));
                }
            }
        }
        for p in ["(f ?a ?a)", "(f ?abc ?abc)", "(f ?a (g ?a ?a))", "(f ?a (g ?b ?b))", "(f * ?a)"] {
            for f in [F::Contains(S::p(p)), F::Excludes(S::p(p))] {
                ctx.case(|| format!("{:?} over pairs of lists of {}", f, n), |o| judge(&f, &ts, o));
            }
        }
    }
    // 8. large workloads keep order and duplicates
    for n in sizes() {
        let ts: Vec<S> = (0..n).map(|i| if i % 7 == 3 { S::L(vec![a("f"), a(&format!("x{}", i % 11))]) } else { a(&format!("x{}", i)) }).collect();
        for f in [F::Lt(M::Atoms, 2), F::Contains(S::p("(f ?a)")), F::Excludes(S::p("x3"))] {
            ctx.case(|| format!("{:?} over {} terms", f, n), |o| judge(&f, &ts, o));
        }
    }
}

fn main() {
    mc::main(
        Check {
            id: "W02",
            level: "exploration",
            rule: "every filter of a bounded grammar (metric bounds 0..12 and 24..27; all patterns \
                   of depth<=2/width<=3 and depth<=3/width<=2 over atoms, * and two variables; all \
                   symbol lists of length<=4; boolean combinations to depth 3; 15 unusual names in every position; all orders of 6 (7) \
                   symbols; width and depth up to 130; up to 5000 terms) applied to every tree \
                   of a bounded shape; evaluations = (filter, tree) pairs; an outcome is a distinct \
                   (filter, number of survivors)",
            assumptions: &["canonicity is stated for lists of distinct symbols"],
            ..Check::DEFAULT
        },
        explore,
    )
}
