//! Bit-vector arithmetic is arithmetic modulo 2^N.
use mc::bvs::*;
use mc::eqs::expr;
use mc::*;
use ruler::{SynthLanguage, BV};
use std::collections::{BTreeMap, BTreeSet};

fn lattice(n: u32) -> Vec<u128> {
    let m = mask(n);
    let mut v: BTreeSet<u128> = BTreeSet::new();
    for k in 0..n {
        let p = 1u128 << k;
        if k < 4 || k + 4 >= n || k % 16 < 2 || k % 16 == 15 || (60..70).contains(&k) {
            for x in [p, p.wrapping_sub(1), p + (p >> 1), p.wrapping_add(1), p.wrapping_neg(), p.wrapping_neg().wrapping_sub(1)] {
                v.insert(x & m);
            }
        }
    }
    for x in [0u128, 1, 2, 3, 5, 7, n as u128 - 1, n as u128, n as u128 + 1, 2 * n as u128, 63, 64, 65, 127, 128, 129, 255, 256,
        0x5555_5555_5555_5555_5555_5555_5555_5555, 0xaaaa_aaaa_aaaa_aaaa_aaaa_aaaa_aaaa_aaaa,
        0x0123_4567_89ab_cdef_0123_4567_89ab_cdef, u128::MAX, u128::MAX - 1, 1 << 32, (1 << 32) + 4, 1 << 64, (1 << 64) + 1, (1 << 64) + n as u128] {
        v.insert(x & m);
    }
    v.into_iter().collect()
}

fn direct<const N: u128>(op: &str, a: BV<N>, b: BV<N>) -> BV<N> {
    match op {
        "+" => a.wrapping_add(b),
        "--" => a.wrapping_sub(b),
        "*" => a.wrapping_mul(b),
        "<<" => a.my_shl(b),
        ">>" => a.my_shr(b),
        "&" => a & b,
        "|" => a | b,
        "^" => a ^ b,
        "-" => a.wrapping_neg(),
        "~" => !a,
        _ => unreachable!(),
    }
}

/// The operations and literals alone, at any width.
fn plain<const N: u128>(ctx: &mut Ctx) {
    let n = N as u32;
    ctx.case(
        || format!("width {}: operations and literals on boundary values", n),
        |o| {
            let vals: Vec<u128> = if n <= 4 {
                (0..=mask(n)).collect()
            } else {
                let h = 1u128 << (n - 1);
                [0u128, 1, 2, 3, 5, n as u128 - 1, n as u128, n as u128 + 1, h - 2, h - 1, h, h + 1, h + (h >> 1), h >> 1, (h >> 1) + 1, mask(n) - 1, mask(n),
                 0x5555_5555_5555_5555_5555_5555_5555_5555, 0x0123_4567_89ab_cdef_0123_4567_89ab_cdef, 1 << 32, 1 << 31, 1 << 63, 1 << 64, u64::MAX as u128, 127, 128]
                    .iter()
                    .map(|x| x & mask(n))
                    .collect::<BTreeSet<_>>()
                    .into_iter()
                    .collect()
            };
            for x in &vals {
                for op in OPS1 {
                    let got = direct(op, BV::<N>::from(*x), BV::<N>::from(0)).0;
                    if got != bv_apply(op, &[*x], n) {
                        return Err(format!("({} {}) = {}, expected {} (mod 2^{})", op, x, got, bv_apply(op, &[*x], n), n));
                    }
                }
                for y in &vals {
                    for op in OPS2 {
                        let got = direct(op, BV::<N>::from(*x), BV::<N>::from(*y)).0;
                        let want = bv_apply(op, &[*x, *y], n);
                        if got != want {
                            return Err(format!("({} {} {}) = {}, expected {} (mod 2^{})", op, x, y, got, want, n));
                        }
                        o.outcome(&(n, op, *x, *y, want));
                    }
                }
                let over = x.wrapping_add(1u128.checked_shl(n).unwrap_or(0));
                for (text, w) in [(format!("{}", x), *x), (format!("#b{:b}", x), *x), (format!("{}", over), over & mask(n)), (format!("#b{:b}", over), over & mask(n))] {
                    match text.parse::<BV<N>>() {
                        Ok(b) if b.0 == w && b.to_string() == w.to_string() => {}
                        e => return Err(format!("literal {} is read as {:?}, expected {}", text, e, w)),
                    }
                }
            }
            Ok(())
        },
    );
}

fn width<L, const N: u128>(ctx: &mut Ctx)
where
    L: SynthLanguage<Constant = BV<N>>,
{
    let n = N as u32;
    let m = mask(n);
    let vals: Vec<u128> = if n <= ctx.pick(6, 8) { (0..=m).collect() } else { lattice(n) };
    let ops: Vec<(&str, usize)> = OPS2.iter().map(|o| (*o, 2)).chain(OPS1.iter().map(|o| (*o, 1))).collect();
    for (op, arity) in &ops {
        let (op, arity) = (*op, *arity);
        for (ix, x) in vals.iter().enumerate() {
            let vals = &vals;
            ctx.case(
                || format!("width {}: {} on first argument {}", n, op, x),
                |o| {
                    let text = if arity == 1 { format!("({} a)", op) } else { format!("({} a b)", op) };
                    let e = expr::<L>(&S::p(&text));
                    let node = e.as_ref().last().unwrap().clone();
                    let ys: Vec<u128> = if arity == 1 { vec![0] } else { vals.clone() };
                    let bx = BV::<N>::from(*x);
                    // direct operations
                    for y in &ys {
                        let got = direct(op, bx, BV::<N>::from(*y));
                        let args = if arity == 1 { vec![*x] } else { vec![*x, *y] };
                        let want = bv_apply(op, &args, n);
                        if got.0 != want {
                            return Err(format!("{} {:?} = {}, expected {} (mod 2^{})", op, args, got.0, want, n));
                        }
                        o.outcome(&(n, op, *x, *y, want));
                    }
                    o.traces(ys.len() * 2);
                    // the same through the language's evaluation of vectors, with undefined cells in between
                    let mut va: Vec<Option<BV<N>>> = vec![];
                    let mut vb: Vec<Option<BV<N>>> = vec![];
                    for (i, y) in ys.iter().enumerate() {
                        va.push(Some(bx));
                        vb.push(Some(BV::<N>::from(*y)));
                        if (i + ix) % 5 == 0 {
                            va.push(None);
                            vb.push(Some(BV::<N>::from(*y)));
                            va.push(Some(bx));
                            vb.push(None);
                            va.push(None);
                            vb.push(None);
                        }
                    }
                    let kids: Vec<egg::Id> = node.children().to_vec();
                    let out = node.eval(va.len(), |id| if *id == kids[0] { &va } else { &vb });
                    if out.len() != va.len() {
                        return Err(format!("{}: vector of length {} from vectors of length {}", op, out.len(), va.len()));
                    }
                    for i in 0..out.len() {
                        let want = if arity == 1 {
                            va[i].map(|a| bv_apply(op, &[a.0], n))
                        } else {
                            va[i].and_then(|a| vb[i].map(|b| bv_apply(op, &[a.0, b.0], n)))
                        };
                        if out[i].map(|x| x.0) != want {
                            return Err(format!("evaluating {} on {:?} {:?}: {:?}, expected {:?}", op, va[i], vb[i], out[i], want));
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    // constants, conversion, text
    let raw: BTreeSet<u128> = vals.iter().chain(lattice(128).iter()).cloned().collect();
    for x in raw {
        ctx.case(
            || format!("width {}: literal {}", n, x),
            |o| {
                let w = x & m;
                let bad = |what: &str, got: u128| Err(format!("{} of {} is {}, expected {}", what, x, got, w));
                if BV::<N>::from(x).0 != w {
                    return bad("conversion", BV::<N>::from(x).0);
                }
                if BV::<N>::new(x).0 != w {
                    return bad("construction", BV::<N>::new(x).0);
                }
                for text in [format!("{}", x), format!("#b{:b}", x), format!("00{}", x)] {
                    match text.parse::<BV<N>>() {
                        Ok(b) if b.0 == w => {}
                        Ok(b) => return bad(&format!("parsing {}", text), b.0),
                        Err(_) => return Err(format!("{} is not accepted as a literal", text)),
                    }
                    // as a term
                    let e: egg::RecExpr<L> = text.parse().map_err(|_| format!("term {}", text))?;
                    let node = e.as_ref().last().unwrap();
                    if !node.is_constant() || node.is_var() {
                        return Err(format!("{} is not a constant of the language", text));
                    }
                    let none = vec![];
                    let cv = node.eval(3, |_| &none);
                    if cv != vec![Some(BV::<N>(w)); 3] {
                        return Err(format!("literal {} evaluates to {:?}, expected {}", text, cv, w));
                    }
                    let i = node.mk_interval(|_| unreachable!());
                    if i.low != Some(BV::<N>(w)) || i.high != Some(BV::<N>(w)) {
                        return Err(format!("interval of literal {}: {:?}", text, i));
                    }
                    let p = e.to_string();
                    if p.parse::<u128>().ok() != Some(w) {
                        return Err(format!("literal {} prints as {}", text, p));
                    }
                }
                o.outcome(&(n, w));
                Ok(())
            },
        );
    }
    for text in ["", "#b", "#b2", "#b10x", "-1", "+-1", "1x", "#x10", "abc", "#b-1", " 1", "1.0", "99999999999999999999999999999999999999999999999",
                 "#b111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111"] {
        ctx.case(
            || format!("width {}: malformed literal {:?}", n, text),
            |_| match guard(|| text.parse::<BV<N>>()) {
                Ok(Err(_)) => Ok(()),
                Ok(Ok(x)) => Err(format!("accepted as {}", x)),
                Err(e) => Err(e),
            },
        );
    }
    ctx.case(
        || format!("width {}: named constants and order", n),
        |o| {
            let h = 1u128 << (n - 1);
            let want = [("ZERO", BV::<N>::ZERO, 0), ("ALL_ONES", BV::<N>::ALL_ONES, m), ("NEG_ONE", BV::<N>::NEG_ONE, m), ("MIN", BV::<N>::MIN, h), ("MAX", BV::<N>::MAX, h - 1)];
            for (name, got, w) in want {
                if got.0 != w {
                    return Err(format!("{} is {}, expected {}", name, got.0, w));
                }
            }
            for x in &vals {
                for y in &vals {
                    if BV::<N>::from(*x).cmp(&BV::<N>::from(*y)) != x.cmp(y) || (BV::<N>::from(*x) == BV::<N>::from(*y)) != (x == y) {
                        return Err(format!("comparison of {} and {}", x, y));
                    }
                }
            }
            o.outcome(&n);
            Ok(())
        },
    );
    // whole terms, evaluated in an e-graph over the domain's own samples
    let lits = ["0", "1", "2", &m.to_string()].map(|x| x.to_string());
    let leaves: Vec<&str> = ["a", "b"].into_iter().chain(lits.iter().map(|x| x.as_str())).collect();
    let ts = mc::terms_upto(&leaves, &ops, 3);
    let deep = mc::terms_upto(&["a", lits[3].as_str()], &ops, ctx.pick(4, 5));
    let mut batches: Vec<Vec<S>> = ts.chunks(60).map(|c| c.to_vec()).collect();
    batches.extend(deep.chunks(150).map(|c| c.to_vec()));
    for b in batches {
        ctx.case(
            || format!("width {}: evaluation of {} .. {}", n, b[0], b[b.len() - 1]),
            |o| {
                let mut txt = strs(&b);
                txt.push("(+ a b)".into());
                let w = ruler::enumo::Workload::new(txt.iter().map(|x| x.as_str()).collect::<Vec<_>>());
                let eg = w.to_egraph::<L>();
                let col = |t: &S| eg[eg.lookup_expr(&expr::<L>(t)).unwrap()].data.cvec.clone();
                let (ca, cb) = (col(&S::p("a")), col(&S::p("b")));
                for t in &b {
                    let c = col(t);
                    if c.len() != ca.len() {
                        return Err(format!("{} has {} values, expected {}", t, c.len(), ca.len()));
                    }
                    for i in 0..ca.len() {
                        let env: BTreeMap<String, u128> = [("a".to_string(), ca[i].unwrap().0), ("b".to_string(), cb[i].unwrap().0)].into();
                        let want = bv_eval(t, &env, n);
                        if c[i].map(|x| x.0) != Some(want) {
                            return Err(format!("{} at {:?}: {:?}, expected {}", t, env, c[i], want));
                        }
                    }
                    o.outcome(&(n, t.to_string()));
                }
                o.traces(b.len() * ca.len());
                Ok(())
            },
        );
    }
}

fn explore(ctx: &mut Ctx) {
    macro_rules! all {
        ($($n:literal)*) => { $(plain::<$n>(ctx);)* };
    }
    all!(1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63 64 65 66 67 68 69 70 71 72 73 74 75 76 77 78 79 80 81 82 83 84 85 86 87 88 89 90 91 92 93 94 95 96 97 98 99 100 101 102 103 104 105 106 107 108 109 110 111 112 113 114 115 116 117 118 119 120 121 122 123 124 125 126 127 128);
    width::<bv1::Bv, 1>(ctx);
    width::<bv2::Bv, 2>(ctx);
    width::<bv3::Bv, 3>(ctx);
    width::<bv4::Bv, 4>(ctx);
    width::<bv5::Bv, 5>(ctx);
    width::<bv8::Bv, 8>(ctx);
    width::<bv16::Bv, 16>(ctx);
    width::<bv32::Bv, 32>(ctx);
    width::<bv64::Bv, 64>(ctx);
    width::<bv65::Bv, 65>(ctx);
    width::<bv127::Bv, 127>(ctx);
    width::<bv128::Bv, 128>(ctx);
}

fn main() {
    mc::main(
        Check {
            id: "B01",
            level: "exploration",
            rule: "every width from 1 to 128: every operator on all pairs of about 25 boundary values, and their literals; 12 of them: every operator on every pair of values up to width 6 (thorough 8) and on a boundary \
                   lattice of about 100 values squared above, directly and through vector evaluation with undefined cells; \
                   every literal of the lattice in decimal and binary, malformed literals, constants, order; every term up to \
                   size 3 (over one variable and one literal up to 4 (5)) evaluated in an e-graph. Outcome = value computed.",
            assumptions: &[],
            ..Check::DEFAULT
        },
        explore,
    )
}
