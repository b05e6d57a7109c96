//! Materialising a workload: every term present, nothing equated, every
//! characteristic vector is the evaluation over the full cross product.
use mc::bvs::*;
use mc::dom::*;
use mc::wl::*;
use mc::*;
use ruler::enumo::Workload;
use ruler::SynthLanguage;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::sync::atomic::Ordering;

fn subterms_of(ts: &[S]) -> BTreeSet<S> {
    let mut v = vec![];
    for t in ts {
        t.subterms(&mut v);
    }
    v.into_iter().collect()
}

fn check<L: SynthLanguage>(
    w: &Workload,
    ts: &[S],
    is_var: &dyn Fn(&str) -> bool,
    cell: &dyn Fn(&Option<L::Constant>) -> Option<u128>,
    eval: &dyn Fn(&S, &BTreeMap<String, Option<u128>>) -> Option<u128>,
    sample_count: usize,
    cvecs: bool,
    o: &mut Obs,
) -> Result<(), String> {
    let eg = w.to_egraph::<L>();
    let subs = subterms_of(ts);
    if eg.number_of_classes() != subs.len() {
        return Err(format!(
            "{} e-classes for {} distinct subterms",
            eg.number_of_classes(),
            subs.len()
        ));
    }
    let mut ids = BTreeMap::new();
    for t in &subs {
        let e: egg::RecExpr<L> = t.to_string().parse().map_err(|_| "parse".to_string())?;
        match eg.lookup_expr(&e) {
            None => return Err(format!("{} is not in the e-graph", t)),
            Some(id) => {
                if let Some(u) = ids.insert(eg.find(id), t.clone()) {
                    return Err(format!("{} and {} share an e-class", t, u));
                }
            }
        }
    }
    o.state(&ts.len());
    o.show(format!("{} classes", subs.len()));
    if !cvecs {
        o.outcome(&subs);
        return Ok(());
    }
    let vars: Vec<&S> = subs
        .iter()
        .filter(|t| matches!(t, S::A(x) if is_var(x)))
        .collect();
    let by: BTreeMap<S, egg::Id> = ids.iter().map(|(i, t)| (t.clone(), *i)).collect();
    // the samples of the variables form the full cross product
    let col = |t: &S| -> Vec<Option<u128>> { eg[by[t]].data.cvec.iter().map(cell).collect() };
    let mut cols = BTreeMap::new();
    // 0: whatever samples the domain chose, as long as they are combined fully
    let sample_count = if sample_count > 0 || vars.is_empty() {
        sample_count
    } else {
        col(vars[0]).into_iter().collect::<BTreeSet<_>>().len()
    };
    let len = sample_count.pow(vars.len() as u32);
    for v in &vars {
        let c = col(v);
        if c.len() != len {
            return Err(format!(
                "variable {} has a vector of length {}, the cross product of {} samples over {} variables is {}",
                v, c.len(), sample_count, vars.len(), len
            ));
        }
        cols.insert(v.to_string(), c);
    }
    let mut seen = BTreeSet::new();
    let mut envs = vec![];
    for i in 0..len {
        let env: BTreeMap<String, Option<u128>> =
            cols.iter().map(|(v, c)| (v.clone(), c[i])).collect();
        if !seen.insert(env.clone()) {
            return Err(format!("assignment {:?} is sampled twice, so another one is missing", env));
        }
        envs.push(env);
    }
    for t in &subs {
        let c = col(t);
        if c.len() != len {
            return Err(format!("{} has a vector of length {}, expected {}", t, c.len(), len));
        }
        for (i, env) in envs.iter().enumerate() {
            let want = eval(t, env);
            if c[i] != want {
                return Err(format!("{} at {:?}: {:?}, expected {:?}", t, env, c[i], want));
            }
        }
    }
    o.outcome(&(subs, sample_count));
    o.traces(envs.len().max(1));
    Ok(())
}

fn fin(w: &Workload, ts: &[S], range: u8, o: &mut Obs) -> Result<(), String> {
    FIN_RANGE.store(range, Ordering::Relaxed);
    check::<Fin>(
        w,
        ts,
        &|x| is_var_name(x),
        &|c| c.map(|x| x as u128),
        &|t, e| {
            let e: BTreeMap<String, Option<u8>> =
                e.iter().map(|(k, v)| (k.clone(), v.map(|x| x as u8))).collect();
            fin_eval(t, &e).map(|x| x as u128)
        },
        2 + range as usize,
        true,
        o,
    )
}

fn show(ts: &[S]) -> String {
    let mut s = String::new();
    for t in ts.iter().take(8) {
        let _ = write!(s, "{}; ", t);
    }
    if ts.len() > 8 {
        let _ = write!(s, "... {} terms", ts.len());
    }
    s
}

fn explore(ctx: &mut Ctx) {
    // 1. small workloads, every ordered choice of terms
    let pool: Vec<S> = [
        "a", "b", "c", "x1", "0", "1", "N", "(u10 a)", "(u0_ b)", "(u__ a)", "(b0001 a b)",
        "(b0111 b a)", "(b01_1 a a)", "(b0110 a 1)", "(u10 (b0001 c a))", "(b1101 (u10 b) 0)",
        "(t00011101 a b c)", "(b1000 N a)", "(u01 0)", "(b0010 a (u10 a))",
    ]
    .iter()
    .map(|t| S::p(t))
    .collect();
    let kmax = ctx.pick(4, 5);
    for range in [0u8, 1] {
        for k in 0..=kmax {
            for s in seqs(pool.len(), k) {
                let ts: Vec<S> = s.iter().map(|i| pool[*i].clone()).collect();
                ctx.case(
                    || format!("Fin range {} workload [{}]", range, show(&ts)),
                    |o| fin(&wset(&ts), &ts, range, o),
                );
            }
        }
    }
    // 2. whole term spaces, many variables
    for (leaves, ops, n) in [
        (vec!["a", "b", "0"], vec![("u10", 1), ("b0111", 2)], 4),
        (vec!["b", "a", "c", "d"], vec![("b0001", 2), ("u_1", 1)], 3),
        (vec!["e", "a", "b", "c", "d", "f"], vec![("b0110", 2)], 3),
        (vec!["a", "1"], vec![("u10", 1), ("u1_", 1), ("b_111", 2)], ctx.pick(5, 6)),
        (vec!["a", "b", "c", "d", "e", "f", "g", "h"], vec![("u10", 1)], 3),
        (vec!["0", "1"], vec![("u10", 1), ("b0111", 2)], 5),
    ] {
        let ts = terms_upto(&leaves, &ops, n);
        for rev in [false, true] {
            let mut ts = ts.clone();
            if rev {
                ts.reverse();
            }
            for range in [0u8, 1] {
                if range == 1 && leaves.len() > 5 {
                    continue;
                }
                ctx.case(
                    || format!("Fin range {} workload [{}]", range, show(&ts)),
                    |o| fin(&wset(&ts), &ts, range, o),
                );
            }
            // composite workload denoting the same terms
            ctx.case(
                || format!("Fin appended/plugged workload [{}]", show(&ts)),
                |o| {
                    let (l, r) = ts.split_at(ts.len() / 2);
                    let w = Workload::new(["HOLE"]).plug("HOLE", &wset(r)).append(wset(l));
                    fin(&w, &ts, 0, o)
                },
            );
        }
    }
    // 3. uninterpreted terms: nothing equated
    let free = terms_upto(&["a", "b", "C"], &[("f", 1), ("g", 2), ("h", 3)], 4);
    for c in combos(free.len().min(ctx.pick(60, 110)), 1, 2) {
        let ts: Vec<S> = c.iter().map(|i| free[free.len() - 1 - *i * 3 % free.len()].clone()).collect();
        ctx.case(
            || format!("Free workload [{}]", show(&ts)),
            |o| check::<Free>(&wset(&ts), &ts, &|_| false, &|_| None, &|_, _| None, 1, false, o),
        );
    }
    ctx.case(
        || format!("Free workload [{}]", show(&free)),
        |o| check::<Free>(&wset(&free), &free, &|_| false, &|_| None, &|_, _| None, 1, false, o),
    );
    // 4. the bit-vector domain at every instantiated width
    macro_rules! bv {
        ($m:ident, $n:literal) => {{
            let pool: Vec<S> = [
                "a", "b", "0", "1", "(+ a b)", "(-- b a)", "(* a a)", "(- a)", "(~ b)", "(<< a 1)",
                "(>> b a)", "(& a b)", "(| a (~ a))", "(^ (- b) 1)", "(<< 1 b)", "(>> (~ 0) a)",
            ]
            .iter()
            .map(|t| S::p(t))
            .collect();
            let mut ws: Vec<Vec<S>> = combos(pool.len(), 0, 2)
                .into_iter()
                .map(|c| c.iter().map(|i| pool[*i].clone()).collect())
                .collect();
            ws.push(pool.clone());
            ws.push(terms_upto(
                &["a", "b", "1"],
                &[("+", 2), ("--", 2), ("*", 2), ("<<", 2), (">>", 2), ("&", 2), ("|", 2), ("^", 2), ("~", 1), ("-", 1)],
                3,
            ));
            ws.push(vec![S::p("(* (+ a b) (-- c d))")]);
            for ts in ws {
                ctx.case(
                    || format!("BV{} workload [{}]", $n, show(&ts)),
                    |o| {
                        check::<$m::Bv>(
                            &wset(&ts),
                            &ts,
                            &|x| x.as_bytes()[0].is_ascii_lowercase(),
                            &|c| c.as_ref().map(|x| x.0),
                            &|t, e| {
                                let e: BTreeMap<String, u128> =
                                    e.iter().map(|(k, v)| (k.clone(), v.unwrap())).collect();
                                Some(bv_eval(t, &e, $n))
                            },
                            0,
                            true,
                            o,
                        )
                    },
                );
            }
        }};
    }
    bv!(bv2, 2);
    bv!(bv3, 3);
    bv!(bv4, 4);
    bv!(bv8, 8);
    bv!(bv32, 32);
    bv!(bv64, 64);
    bv!(bv128, 128);

    // 5. sizes: many terms with the variables in different places, deep and
    //    wide terms, similar variable names
    let top = ctx.pick(2050, 5002);
    for n in sizes().into_iter().filter(|n| *n <= top) {
        // n distinct ground terms, binary counters over total operators
        let ground: Vec<S> = (0..n)
            .map(|i| {
                let mut t = a(if i % 2 == 0 { "0" } else { "1" });
                let mut k = i / 2;
                while k > 0 {
                    t = S::L(vec![a(if k % 2 == 0 { "u10" } else { "u01" }), t]);
                    k /= 2;
                }
                t
            })
            .collect();
        for at in [0, 1, n / 2, n - 1] {
            let mut ts = ground.clone();
            ts[at.min(n - 1)] = S::p("(b0110 a (u10 b))");
            if at + 1 < n {
                ts[n - 1] = S::p("(u_1 c)");
            }
            ctx.case(
                || format!("{} terms, variables first in number {}", n, at),
                |o| fin(&wset(&ts), &ts, 0, o),
            );
        }
        let rep: Vec<S> = (0..n).map(|i| if i % 5 == 4 { S::p("(u10 a)") } else { ground[i % 3 % n].clone() }).collect();
        ctx.case(|| format!("{} terms with repetitions", n), |o| fin(&wset(&rep), &rep, 1, o));
    }
    for n in sizes().into_iter().filter(|n| *n <= 202) {
        let (mut left, mut right) = (a("a"), a("b"));
        for i in 0..n {
            left = if i % 3 == 0 { S::L(vec![a("u10"), left]) } else { S::L(vec![a("b0110"), left, a("b")]) };
            right = if i % 3 == 1 { S::L(vec![a("b01_1"), a("a"), right]) } else { S::L(vec![a("t00011101"), a("0"), right, a("c")]) };
        }
        for ts in [vec![left.clone()], vec![right.clone(), left.clone()], vec![a("c"), S::L(vec![a("b0001"), left.clone(), right.clone()])]] {
            ctx.case(|| format!("terms of depth {} ({})", n, ts.len()), |o| fin(&wset(&ts), &ts, 0, o));
        }
        let wide = vec![
            S::L(std::iter::once(a("F")).chain((0..n).map(|i| a(&format!("X{}", i)))).collect()),
            S::L(std::iter::once(a("F")).chain((0..n).map(|i| a(&format!("X{}", (i * 3) % n)))).collect()),
            S::L(std::iter::once(a("F")).chain((0..n + 1).map(|_| S::p("(G X0)"))).collect()),
            left.clone(),
        ];
        ctx.case(
            || format!("terms of width {}", n),
            |o| check::<Free>(&wset(&wide), &wide, &|_| false, &|_| None, &|_, _| None, 1, false, o),
        );
    }
    // long vectors in large e-graphs, constants met early or late
    for nv in 1..=ctx.pick(9usize, 11) {
        for n in [1usize, 9, 33, 65, 130, 260].into_iter().filter(|n| nv < 8 || *n <= 65) {
            let v = |i: usize| a(&format!("v{}", i % nv));
            let mut ts: Vec<S> = (0..nv).map(v).collect();
            for i in 0..n {
                let mut t = v(i);
                let mut k = i / nv + 1;
                while k > 0 {
                    t = if k % 2 == 0 { S::L(vec![a("u10"), t]) } else { S::L(vec![a("b0110"), v(i + k), t]) };
                    k /= 2;
                }
                ts.push(t);
            }
            ts.push(a("1"));
            ts.push(a("0"));
            ts.push(S::L(vec![a("b01_1"), v(0), a("0")]));
            for rev in [false, true] {
                if rev {
                    ts.reverse();
                }
                ctx.case(|| format!("{} variables, {} terms, reversed {}", nv, n, rev), |o| fin(&wset(&ts), &ts, 0, o));
            }
        }
    }
    let near = ["a", "aa", "aB", "ab", "a1", "a10", "b", "ba", "a_", "x", "x1"];
    for c in combos(near.len(), 1, ctx.pick(4, 6)) {
        let mut ts: Vec<S> = c.iter().map(|i| a(near[*i])).collect();
        ts.push(c.iter().skip(1).fold(a(near[c[0]]), |l, i| S::L(vec![a("b0111"), l, a(near[*i])])));
        for r in 0..2 {
            if r == 1 {
                ts.reverse();
            }
            ctx.case(|| format!("Fin workload [{}]", show(&ts)), |o| fin(&wset(&ts), &ts, 0, o));
        }
    }
    {
        // bit-vector variables by any name, and many of them
        let names = ["a", "A", "x", "X", "ab", "aB", "v1", "v10"];
        for c in combos(names.len(), 1, 3) {
            let mut ts: Vec<S> = c.iter().map(|i| a(names[*i])).collect();
            ts.push(c.iter().skip(1).fold(a(names[c[0]]), |l, i| S::L(vec![a("+"), l, a(names[*i])])));
            ctx.case(
                || format!("BV4 workload [{}]", show(&ts)),
                |o| {
                    check::<bv4::Bv>(
                        &wset(&ts),
                        &ts,
                        &|x| x.as_bytes()[0].is_ascii_alphabetic(),
                        &|c| c.as_ref().map(|x| x.0),
                        &|t, e| {
                            let e: BTreeMap<String, u128> = e.iter().map(|(k, v)| (k.clone(), v.unwrap())).collect();
                            Some(bv_eval(t, &e, 4))
                        },
                        0,
                        true,
                        o,
                    )
                },
            );
        }
        for n in sizes().into_iter().filter(|n| *n <= 520) {
            let ts: Vec<S> = (0..n)
                .map(|i| match i % 4 {
                    0 => S::p(&format!("(+ a {})", i % 16)),
                    1 => S::p(&format!("(^ (* b {}) a)", i % 16)),
                    2 => S::p(&format!("(<< {} (-- a {}))", i % 16, i / 16 % 16)),
                    _ => S::p(&format!("(& (| a {}) (~ {}))", i % 16, i / 16 % 16)),
                })
                .collect();
            ctx.case(
                || format!("BV4 workload of {} terms", n),
                |o| {
                    check::<bv4::Bv>(
                        &wset(&ts),
                        &ts,
                        &|x| x.as_bytes()[0].is_ascii_alphabetic(),
                        &|c| c.as_ref().map(|x| x.0),
                        &|t, e| {
                            let e: BTreeMap<String, u128> = e.iter().map(|(k, v)| (k.clone(), v.unwrap())).collect();
                            Some(bv_eval(t, &e, 4))
                        },
                        0,
                        true,
                        o,
                    )
                },
            );
        }
    }
}

fn main() {
    mc::main(
        Check {
            id: "W04",
            level: "exploration",
            rule: "every sequence of at most 4 (thorough 5) terms from a 20-term pool over a finite \
                   domain with partial operators (variables over {0,1} and {0,1,undefined}), whole term \
                   spaces with up to 8 variables, uninterpreted pools, size families (up to 2050 (5002) terms, depth and width 202, \
                   similar variable names) and the real bit-vector domain \
                   at 7 widths; every class and every vector cell compared with direct evaluation. \
                   evaluations = assignments compared; an outcome is a distinct set of subterms.",
            assumptions: &["the finite domain is the harness's own SynthLanguage instance, which \
                            initialises variables through the library's cross-product helper"],
            ..Check::DEFAULT
        },
        explore,
    )
}
