//! Grammar iteration is complete and bounded; substitution is uniform.
use mc::wl::*;
use mc::*;
use ruler::enumo::{Filter, Workload};
use ruler::recipe_utils::{base_lang, iter_metric, substitute};

/// All ways of filling the placeholder occurrences of `t` from `fill`, keeping
/// the measure <= n (pruned: a placeholder counts as a minimal term).
fn fillings(t: &S, atom: &str, fill: &[S], m: M, n: usize) -> Vec<S> {
    fn first_hole(t: &S, atom: &str) -> bool {
        match t {
            S::A(x) => x == atom,
            S::L(xs) => xs.iter().any(|x| first_hole(x, atom)),
        }
    }
    // replace the leftmost hole (marked fillers protect already filled parts)
    fn put(t: &S, atom: &str, by: &S, done: &mut bool) -> S {
        match t {
            S::A(x) if x == atom && !*done => {
                *done = true;
                by.clone()
            }
            S::A(_) => t.clone(),
            S::L(xs) => S::L(xs.iter().map(|x| put(x, atom, by, done)).collect()),
        }
    }
    let mut work = vec![t.clone()];
    let mut out = vec![];
    while let Some(p) = work.pop() {
        if measure(&p, m) > n {
            continue;
        }
        if !first_hole(&p, atom) {
            out.push(p);
            continue;
        }
        for f in fill {
            let mut done = false;
            work.push(put(&p, atom, f, &mut done));
        }
    }
    out
}

/// The terms of the grammar (placeholder-free) with measure <= n.
fn language(g: &[S], atom: &str, m: M, n: usize, cap: usize) -> Option<Vec<S>> {
    let mut known: Vec<S> = vec![];
    loop {
        let mut next = vec![];
        for t in g {
            next.extend(fillings(t, atom, &known, m, n));
            if next.len() > cap {
                return None;
            }
        }
        next.sort();
        if next == known {
            return Some(known);
        }
        known = next;
    }
}

fn explore(ctx: &mut Ctx) {
    let mut grammars: Vec<(String, Workload, Vec<S>, &str)> = vec![];
    for k in 0..=4usize {
        let mut model = vec![a("VAR"), a("VAL")];
        for i in 1..=k {
            let mut v = vec![a(&format!("OP{}", i))];
            v.extend((0..i).map(|_| a("EXPR")));
            model.push(S::L(v));
        }
        let bl = base_lang(k);
        let m2 = model.clone();
        ctx.case(
            || format!("base_lang({})", k),
            |o| {
                o.outcome(&k);
                same_multiset(&forced(&bl), &m2)
            },
        );
        grammars.push((format!("base_lang({})", k), bl, model, "EXPR"));
    }
    for i in 5..9usize {
        ctx.case(
            || format!("base_lang({})", i),
            |o| {
                o.outcome(&i);
                let got = forced(&base_lang(i));
                let mut want = vec![a("VAR"), a("VAL")];
                for j in 1..=i {
                    let mut v = vec![a(&format!("OP{}", j))];
                    v.extend((0..j).map(|_| a("EXPR")));
                    want.push(S::L(v));
                }
                same_multiset(&got, &want)
            },
        );
    }
    for (atom, ts) in [
        ("e", vec!["x", "(f e)", "(g e e)"]),
        ("e", vec!["x", "y", "0", "(if b e e)", "(- e)"]),
        ("E", vec!["a", "(f (g E) E)", "(h E)"]),
        ("E", vec!["a", "(f (g E))"]),
        ("E", vec!["(k)", "(f E c)"]),
        ("E", vec!["(f a a)", "(f E (g E))", "b"]),
        ("E", vec!["a"]),
        ("E", vec![]),
        ("E", vec!["(f E)"]),
        ("e", vec!["e2", "(f e e2)", "(e3 e)"]),
    ] {
        let g: Vec<S> = ts.iter().map(|t| S::p(t)).collect();
        grammars.push((format!("{{{}}}", ts.join(", ")), wset(&g), g, atom));
    }
    // grammars that are not literal sets
    let ap = base_lang(1).append(Workload::new(["(OP2 EXPR EXPR)", "W"]));
    grammars.push((
        "base_lang(1).append({(OP2 EXPR EXPR), W})".into(),
        ap.clone(),
        forced(&ap),
        "EXPR",
    ));
    let pl = base_lang(2)
        .plug("OP1", &Workload::new(["~", "-"]))
        .plug("VAL", &Workload::empty());
    grammars.push((
        "base_lang(2).plug(OP1,{~,-}).plug(VAL,{})".into(),
        pl.clone(),
        vec![
            S::p("VAR"),
            S::p("(~ EXPR)"),
            S::p("(- EXPR)"),
            S::p("(OP2 EXPR EXPR)"),
        ],
        "EXPR",
    ));
    let fl = base_lang(3).filter(Filter::Excludes("OP2".parse().unwrap()));
    grammars.push((
        "base_lang(3).filter(Excludes OP2)".into(),
        fl,
        vec![S::p("VAR"), S::p("VAL"), S::p("(OP1 EXPR)"), S::p("(OP3 EXPR EXPR EXPR)")],
        "EXPR",
    ));

    let cap = ctx.pick(1300, 7000);
    let maxn = ctx.pick(7, 9);
    for (name, w, g, atom) in &grammars {
        for m in METRICS {
            let mut prev = g.len();
            for n in 1..=maxn {
                // the real iteration materialises every filling before filtering
                let work: u64 = g
                    .iter()
                    .map(|t| plug_count(t, atom, prev) as u64)
                    .fold(0, |x, y| x.saturating_add(y));
                if work > ctx.pick(150_000, 3_000_000) {
                    break;
                }
                // measured size of the language (model side) bounds the case
                let lang = match language(g, atom, m, n, cap) {
                    Some(l) => l,
                    None => break,
                };
                prev = lang.len();
                let desc = || format!("iter_metric({}, {:?}, {:?}, {})", name, atom, m, n);
                ctx.case(desc, |o| {
                    let got = forced(&iter_metric(w.clone(), atom, m.real(), n));
                    o.outcome(&(name, m, n, lang.len()));
                    o.show(format!("{} terms", lang.len()));
                    same_multiset(&got, &lang)
                });
                // the recipe pipeline: keep terms with variables, then plug names in
                if name.starts_with("base_lang(") && name.len() == 12 && lang.len() <= 120 {
                    let k: usize = name[10..11].parse().unwrap();
                    for (vars, vals, ops) in [
                        (vec!["a", "b"], vec!["0"], vec![vec!["-"], vec!["+", "*"], vec!["ite"], vec!["q"]]),
                        (vec!["a"], vec![], vec![vec!["-", "~"], vec!["+"], vec![], vec![]]),
                        (vec!["a"], vec!["0", "1"], vec![vec![], vec!["&"], vec!["ite"], vec!["r"]]),
                    ] {
                        let want: Vec<S> = {
                            let mut cur: Vec<S> =
                                lang.iter().filter(|t| contains(&a("VAR"), t)).cloned().collect();
                            let ss = |v: &[&str]| v.iter().map(|x| a(x)).collect::<Vec<S>>();
                            let mut plugs = vec![("VAR".to_string(), ss(&vars)), ("VAL".to_string(), ss(&vals))];
                            for i in 0..k {
                                plugs.push((format!("OP{}", i + 1), ss(&ops[i])));
                            }
                            for (nm, ps) in &plugs {
                                cur = cur.iter().flat_map(|t| mc::wl::plug(t, nm, ps)).collect();
                            }
                            cur
                        };
                        if want.len() > 20_000 {
                            continue;
                        }
                        ctx.case(
                            || format!("pipeline {} {:?} {} vars={:?} vals={:?} ops={:?}", name, m, n, vars, vals, ops),
                            |o| {
                                let mut w2 = iter_metric(w.clone(), atom, m.real(), n)
                                    .filter(Filter::Contains("VAR".parse().unwrap()))
                                    .plug("VAR", &Workload::new(vars.iter()))
                                    .plug("VAL", &Workload::new(vals.iter()));
                                for i in 0..k {
                                    w2 = w2.plug(format!("OP{}", i + 1), &Workload::new(ops[i].iter()));
                                }
                                o.outcome(&(name, m, n, &vars, want.len()));
                                same_multiset(&forced(&w2), &want)
                            },
                        );
                    }
                }
            }
        }
    }
    // substitute: one value for every occurrence at once, for each value
    let wk: Vec<Vec<&str>> = vec![
        vec!["(f x x)", "x", "y"],
        vec!["(f (g x) (h x y x))", "(x x)"],
        vec!["()", "a"],
        vec![],
    ];
    let subs: Vec<Vec<&str>> = vec![
        vec![],
        vec!["a"],
        vec!["a", "b", "(k x)"],
        vec!["x", "y", "(f x x)", "()"],
    ];
    for w in &wk {
        for s in &subs {
            for atom in ["x", "y", "f", "z", "*", "?x"] {
                let m: Vec<S> = w.iter().map(|t| S::p(t)).collect();
                let p: Vec<S> = s.iter().map(|t| S::p(t)).collect();
                ctx.case(
                    || format!("substitute({:?}, {:?}, {:?})", w, s, atom),
                    |o| {
                        let want: Vec<S> = p
                            .iter()
                            .flat_map(|v| m.iter().flat_map(move |t| mc::wl::plug(t, atom, &[v.clone()])))
                            .collect();
                        let got = forced(&substitute(wset(&m), wset(&p), atom));
                        o.outcome(&want);
                        same_multiset(&got, &want)?;
                        // the substitution set may itself be a computed workload
                        let comp = wset(&[a("Q")]).plug("Q", &wset(&p));
                        same_multiset(&forced(&substitute(wset(&m), comp, atom)), &want)
                    },
                );
            }
        }
    }

    // Thin grammars iterated far beyond the bounds above
    let thin: Vec<(Vec<&str>, &str)> = vec![
        (vec!["a", "(f E)"], "E"),
        (vec!["(k)", "(f (g E) c)"], "E"),
        (vec!["a", "(f E)", "(g E b)"], "E"),
        (vec!["a", "(f a E)", "(h E E)"], "E"),
        (vec!["VAR", "VAL", "(OP1 EXPR)"], "EXPR"),
        (vec!["a", "b", "(p E E E)"], "E"),
        (vec!["(f b b b)", "(g E)"], "E"),
    ];
    for (ts, atom) in &thin {
        let g: Vec<S> = ts.iter().map(|t| S::p(t)).collect();
        for m in METRICS {
            let mut prev = g.len();
            for n in 1..=ctx.pick(40usize, 80) {
                let work: u64 = g.iter().map(|t| plug_count(t, atom, prev) as u64).fold(0, |x, y| x.saturating_add(y));
                if work > 60_000 {
                    break;
                }
                let lang = match language(&g, atom, m, n, 600) {
                    Some(l) => l,
                    None => break,
                };
                prev = lang.len();
                ctx.case(
                    || format!("iter_metric({{{}}}, {:?}, {:?}, {})", ts.join(", "), atom, m, n),
                    |o| {
                        o.outcome(&(ts, m, n, lang.len()));
                        same_multiset(&forced(&iter_metric(wset(&g), atom, m.real(), n)), &lang)
                    },
                );
            }
        }
    }
    // a wide grammar: many productions
    for k in sizes().into_iter().filter(|k| *k <= 260) {
        let mut g: Vec<S> = (0..k).map(|i| a(&format!("v{}", i))).collect();
        g.push(S::p("(f E)"));
        g.extend((0..k).map(|i| S::L(vec![a(&format!("u{}", i)), a("E")])));
        for (m, n) in [(M::Atoms, 1usize), (M::Depth, 1), (M::Atoms, 2), (M::Lists, 0), (M::Lists, 1), (M::Depth, 2)] {
            if n == 0 || (k > 40 && n > 1) {
                continue;
            }
            if (m == M::Lists || n > 1) && k > 40 {
                continue;
            }
            ctx.case(
                || format!("iter_metric of a grammar with {} productions, {:?}, {}", 2 * k + 1, m, n),
                |o| {
                    let lang = language(&g, "E", m, n, 100_000).unwrap();
                    o.outcome(&(k, m, n, lang.len()));
                    same_multiset(&forced(&iter_metric(wset(&g), "E", m.real(), n)), &lang)
                },
            );
        }
        let bl = base_lang(k);
        ctx.case(
            || format!("base_lang({})", k),
            |o| {
                o.outcome(&k);
                let mut want = vec![a("VAR"), a("VAL")];
                for j in 1..=k {
                    let mut v = vec![a(&format!("OP{}", j))];
                    v.extend((0..j).map(|_| a("EXPR")));
                    want.push(S::L(v));
                }
                same_multiset(&forced(&bl), &want)
            },
        );
    }
    // substitute, by size: many values, many terms, large values, large terms
    for n in sizes().into_iter().filter(|n| *n <= 1030) {
        let atoms = |p: &str, k: usize| -> Vec<S> { (0..k).map(|i| a(&format!("{}{}", p, i))).collect() };
        let mut tall = a("x");
        let mut big = a("q");
        for i in 0..n.min(60) {
            tall = S::L(vec![a("f"), if i % 3 == 0 { a("x") } else { a("c") }, tall]);
            big = S::L(vec![a("h"), big, a("q")]);
        }
        let wide = S::L((0..n.min(300)).map(|i| a(if i % 5 == 2 { "x" } else { "c" })).collect());
        let some = vec![S::p("(f x x)"), S::p("x"), S::p("y")];
        for (what, w, p) in [
            ("many values", some.clone(), atoms("v", n)),
            ("many terms", atoms("t", n).into_iter().map(|t| S::L(vec![a("g"), t, a("x")])).collect(), vec![a("p"), S::p("(h x)")]),
            ("large values", some.clone(), vec![big.clone(), a("p"), S::L(vec![big, a("x")])]),
            ("large terms", vec![tall, wide, a("x")], vec![a("p"), S::p("(h x)"), a("p")]),
            ("square", atoms("t", n.min(60)).into_iter().map(|t| S::L(vec![a("x"), t, a("x")])).collect(), atoms("v", n.min(60))),
        ] {
            ctx.case(
                || format!("substitute, {} ({})", what, n),
                |o| {
                    let want: Vec<S> = p.iter().flat_map(|v| w.iter().flat_map(move |t| mc::wl::plug(t, "x", &[v.clone()]))).collect();
                    o.outcome(&(what, n));
                    same_multiset(&forced(&substitute(wset(&w), wset(&p), "x")), &want)
                },
            );
        }
    }
}

fn main() {
    mc::main(
        Check {
            id: "W03",
            level: "exploration",
            rule: "every (grammar, metric, n) with n>=1 whose language has at most 1300 (thorough \
                   7000) terms, 18 grammars; iterated workload compared as a multiset with the \
                   language enumerated from the grammar; 7 thin grammars to bound 40 (80), grammars \
                   of up to 500 productions; substitution over 96 combinations and by size up to 1030. An outcome \
                   is a distinct (input, number of terms).",
            assumptions: &["n >= 1; every recursive production is a list with an operator"],
            ..Check::DEFAULT
        },
        explore,
    )
}
