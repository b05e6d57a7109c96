//! The bit-vector validator agrees with exhaustive evaluation.
use mc::bvs::*;
use mc::*;
use ruler::{Pattern, SynthLanguage, ValidationResult};
use std::collections::{BTreeMap, BTreeSet};

fn verdict<L: SynthLanguage>(l: &S, r: &S, must_decide: bool) -> Result<Option<bool>, String> {
    let (lp, rp): (Pattern<L>, Pattern<L>) = (l.to_string().parse().unwrap(), r.to_string().parse().unwrap());
    // an undecided query may be a time-out of the solver on a busy machine
    for _ in 0..if must_decide { 5 } else { 1 } {
        match L::validate(&lp, &rp) {
            ValidationResult::Valid => return Ok(Some(true)),
            ValidationResult::Invalid => return Ok(Some(false)),
            ValidationResult::Unknown => {}
        }
    }
    Ok(None)
}

fn check<L: SynthLanguage>(l: &S, r: &S, truth: bool, must: bool, n: u32) -> Result<(), String> {
    match verdict::<L>(l, r, must)? {
        Some(v) if v == truth => Ok(()),
        Some(v) => Err(format!(
            "width {}: {} ==> {} is judged {}, it {}",
            n, l, r, if v { "valid" } else { "invalid" },
            if truth { "holds for all values" } else { "does not hold" }
        )),
        None if must => Err(format!("width {}: {} ==> {} is not decided", n, l, r)),
        None => Ok(()),
    }
}

fn pvars(t: &S) -> BTreeSet<String> {
    let mut v = BTreeSet::new();
    t.walk(&mut |x| if let S::A(a) = x { if a.starts_with('?') { v.insert(a.clone()); } });
    v
}

/// Value table over all assignments to `vars`.
fn table(t: &S, vars: &[&str], n: u32) -> Vec<u128> {
    let mut out = vec![];
    let k = 1u128 << n;
    for i in 0..k.pow(vars.len() as u32) {
        let mut env = BTreeMap::new();
        let mut j = i;
        for v in vars {
            env.insert(v.to_string(), j % k);
            j /= k;
        }
        out.push(bv_eval(t, &env, n));
    }
    out
}

/// All pairs of terms over the small width.
fn small<L: SynthLanguage>(ctx: &mut Ctx, n: u32, leaves: &[&str], size: usize, stride: usize) {
    let ops: Vec<(&str, usize)> = OPS2.iter().map(|o| (*o, 2)).chain(OPS1.iter().map(|o| (*o, 1))).collect();
    let ts = terms_upto(leaves, &ops, size);
    let vars: Vec<&str> = leaves.iter().cloned().filter(|l| l.starts_with('?')).collect();
    let tabs: Vec<Vec<u128>> = ts.iter().map(|t| table(t, &vars, n)).collect();
    let mut first: BTreeMap<&Vec<u128>, usize> = BTreeMap::new();
    for (i, t) in tabs.iter().enumerate() {
        first.entry(t).or_insert(i);
    }
    let reps: BTreeSet<usize> = first.values().cloned().collect();
    for (i, l) in ts.iter().enumerate() {
        {
            ctx.case(
                || format!("width {}: {} against all terms up to size {}", n, l, size),
                |o| {
                    for (j, r) in ts.iter().enumerate() {
                        // true rules and rules failing in one place against one term of each function, and every stride-th other
                        let d = tabs[i].iter().zip(&tabs[j]).filter(|(x, y)| x != y).count();
                        let near = d <= 1 && reps.contains(&j);
                        if !near && (i * 7 + j) % stride != 0 {
                            continue;
                        }
                        check::<L>(l, r, d == 0, true, n)?;
                        o.outcome(&(n, i, j, d == 0));
                        o.traces(1);
                    }
                    Ok(())
                },
            );
        }
    }
}

fn samples(n: u32) -> Vec<u128> {
    let m = mask(n);
    let mut v: BTreeSet<u128> = BTreeSet::new();
    for k in 0..n {
        v.insert(1u128 << k);
        v.insert((1u128 << k) - 1);
        v.insert(m - (1u128 << k));
    }
    for x in [n as u128 - 1, n as u128, n as u128 + 1, m, m - 1, 0x0123_4567_89ab_cdef_fedc_ba98_7654_3210 & m] {
        v.insert(x & m);
    }
    v.into_iter().collect()
}

/// Ground facts and one-variable facts with wide literals.
fn wide<L: SynthLanguage>(ctx: &mut Ctx, n: u32) {
    let m = mask(n);
    let few = ctx.pick(16, 1);
    let lits: Vec<u128> = samples(n).into_iter().enumerate().filter(|(i, x)| i % ctx.pick(3, 1) == 0 || n <= 8 || *x == n as u128 || *x == n as u128 - 1 || *x == mask(n)).map(|x| x.1).collect();
    let a = |x: u128| S::A(x.to_string());
    for (i, x) in lits.iter().enumerate() {
        ctx.case(
            || format!("width {}: facts about literal {}", n, x),
            |o| {
                // equality of literals, differing in exactly one bit
                check::<L>(&a(*x), &a(*x), true, true, n)?;
                for k in 0..n {
                    if k as usize % few == i % few {
                        check::<L>(&a(*x), &a(*x ^ (1u128 << k)), false, true, n)?;
                    }
                }
                o.traces(n as usize + 1);
                for (oi, (op, ar)) in OPS2.iter().map(|o| (*o, 2)).chain(OPS1.iter().map(|o| (*o, 1))).enumerate() {
                    let ys = if ar == 1 { vec![0] } else { vec![lits[(i * 5 + 3) % lits.len()], n as u128 & m, (n as u128 - 1) & m, 64 & m, m, 1] };
                    for (yi, y) in ys.into_iter().enumerate() {
                        // quick: a rotating third of the second operands
                        if few > 1 && n > 8 && ar == 2 && (i + oi + yi) % 3 != 0 {
                            continue;
                        }
                        let args = if ar == 1 { vec![*x] } else { vec![*x, y] };
                        let v = bv_apply(op, &args, n);
                        let t = S::mk(op, args.iter().map(|z| a(*z)).collect());
                        check::<L>(&t, &a(v), true, true, n)?;
                        if few == 1 {
                            check::<L>(&a(v), &t, true, true, n)?;
                        }
                        for (q, k) in [0, 1, n / 2, n.saturating_sub(2), n - 1, 63, 64].into_iter().enumerate() {
                            if k < n && (few == 1 || (i + q + (y & 255) as usize) % 4 == 0) {
                                check::<L>(&t, &a(v ^ (1u128 << k)), false, true, n)?;
                                o.traces(1);
                            }
                        }
                        o.outcome(&(n, op, args, v));
                    }
                }
                // facts for all values of a variable
                let p = S::A("?a".into());
                let f = |op: &str, l: &S, r: &S| S::mk(op, vec![l.clone(), r.clone()]);
                let all: Vec<(S, S, bool)> = vec![
                    (f("&", &p, &a(*x)), p.clone(), *x == m),
                    (f("|", &p, &a(*x)), p.clone(), *x == 0),
                    (f("^", &p, &a(*x)), p.clone(), *x == 0),
                    (f("+", &p, &a(*x)), p.clone(), *x == 0),
                    (f("--", &p, &a(*x)), p.clone(), *x == 0),
                    (f("<<", &p, &a(*x)), p.clone(), *x == 0),
                    (f(">>", &p, &a(*x)), p.clone(), *x == 0),
                    (f("<<", &p, &a(*x)), a(0), *x >= n as u128),
                    (f(">>", &p, &a(*x)), a(0), *x >= n as u128),
                    (f("&", &p, &a(*x)), a(0), *x == 0),
                    (f("|", &p, &a(*x)), a(m), *x == m),
                    (f("^", &p, &a(*x)), S::mk("~", vec![p.clone()]), *x == m),
                    (f("^", &f("^", &p, &a(*x)), &a(*x)), p.clone(), true),
                    (f("--", &f("+", &p, &a(*x)), &a(*x)), p.clone(), true),
                    (f("+", &p, &a(*x)), f("--", &p, &a((m - x).wrapping_add(1) & m)), true),
                    (f("--", &a(*x), &p), f("--", &p, &a(*x)), *x == 0 && n == 1),
                ];
                for (fi, (l, r, truth)) in all.into_iter().enumerate() {
                    if few > 1 && n > 8 && i >= 4 && (i + fi) % 3 != 0 {
                        continue;
                    }
                    // width 1: x -- p versus p -- x coincide
                    let truth = if n <= 3 {
                        table(&l, &["?a"], n) == table(&r, &["?a"], n)
                    } else {
                        truth
                    };
                    check::<L>(&l, &r, truth, true, n)?;
                    if few == 1 {
                        check::<L>(&r, &l, truth, true, n)?;
                    }
                    o.outcome(&(n, l.to_string(), r.to_string(), truth));
                    o.traces(2);
                }
                Ok(())
            },
        );
    }
    // laws that hold at every width, and near-laws that fail at every width > 1
    let laws = [
        ("(+ ?a ?b)", "(+ ?b ?a)", true), ("(--  ?a ?b)", "(-- ?b ?a)", false), ("(- (- ?a))", "?a", true), ("(~ (~ ?a))", "?a", true),
        ("(- ?a)", "(+ (~ ?a) 1)", true), ("(- ?a)", "(~ ?a)", false), ("(-- ?a ?b)", "(+ ?a (- ?b))", true),
        ("(~ (& ?a ?b))", "(| (~ ?a) (~ ?b))", true), ("(~ (& ?a ?b))", "(& (~ ?a) (~ ?b))", false),
        ("(^ ?a ?b)", "(-- (| ?a ?b) (& ?a ?b))", true), ("(+ ?a ?b)", "(+ (^ ?a ?b) (<< (& ?a ?b) 1))", true),
        ("(+ ?a ?b)", "(| ?a ?b)", false), ("(<< (>> ?a 1) 1)", "?a", false), ("(>> (<< ?a 1) 1)", "?a", false),
        ("(<< (<< ?a 1) 1)", "(<< ?a 2)", true), ("(+ ?a ?a)", "(<< ?a 1)", true), ("(* ?a 2)", "(+ ?a ?a)", true),
        ("(* ?a 0)", "0", true), ("(* ?a 1)", "?a", true), ("(& ?a (~ ?a))", "0", true), ("(| ?a (~ ?a))", "(- 1)", true),
        ("(^ ?a ?a)", "0", true), ("(^ ?a ?b)", "(^ ?b ?a)", true), ("(<< ?a ?b)", "(<< ?b ?a)", false), ("(>> ?a ?b)", "(<< ?a ?b)", false),
        ("(& ?a (| ?a ?b))", "?a", true), ("(| ?a (& ?a ?b))", "?a", true), ("(| ?a (| ?a ?b))", "?a", false), ("?a", "?b", false),
        ("?a", "?a", true), ("(-- ?a ?a)", "0", true), ("(>> ?a ?a)", "0", true), ("(<< ?a (- 1))", "0", true), ("(* ?a ?b)", "(* ?b ?a)", true),
        ("(& ?a (& ?b ?c))", "(& (& ?a ?b) ?c)", true), ("(+ ?a (+ ?b ?c))", "(+ (+ ?a ?b) ?c)", true), ("(-- ?a (-- ?b ?c))", "(-- (-- ?a ?b) ?c)", false),
        ("(<< ?a (+ ?b ?c))", "(<< (<< ?a ?b) ?c)", false), ("(>> (>> ?a ?b) ?c)", "(>> (>> ?a ?c) ?b)", true),
    ];
    for (l, r, t) in laws {
        ctx.case(
            || format!("width {}: law {} = {}", n, l, r),
            |o| {
                let (l, r) = (S::p(l), S::p(r));
                let truth = if n <= 3 {
                    let v: BTreeSet<String> = pvars(&l).union(&pvars(&r)).cloned().collect();
                    let v: Vec<&str> = v.iter().map(|x| x.as_str()).collect();
                    table(&l, &v, n) == table(&r, &v, n)
                } else {
                    t
                };
                let txt = format!("{} {}", l, r);
                let hard = n > 8 && (txt.contains('*') || txt.contains("?c"));
                check::<L>(&l, &r, truth, !hard, n)?;
                check::<L>(&r, &l, truth, !hard, n)?;
                o.outcome(&(n, l.to_string(), r.to_string()));
                Ok(())
            },
        );
    }
}

/// Rules that fail for a single value, which inverts a few rounds of a mixing
/// function: the solver may give up, but it must not accept them.
fn hidden<L: SynthLanguage>(ctx: &mut Ctx, n: u32) {
    for rounds in 1..=ctx.pick(3u32, 6) {
        for secret in [mask(n) / 3, 0x9e37_79b9_7f4a_7c15_f39c_c060_5ced_c834 & mask(n)] {
            ctx.case(
                || format!("width {}: a rule that fails only for {} behind {} rounds of mixing", n, secret, rounds),
                |o| {
                    let lit = |x: u128| S::A((x & mask(n)).to_string());
                    let f = |op: &str, l: S, r: S| S::mk(op, vec![l, r]);
                    let mut t = S::A("?a".into());
                    for i in 0..rounds {
                        t = f("*", t, lit(0xd6e8_feb8_6659_fd93_a076_1d64_78bd_642f ^ (i as u128 * 2)));
                        t = f("^", t.clone(), f(">>", t, lit((n / 2 - i) as u128)));
                        t = f("*", t.clone(), f("+", f("+", t.clone(), t), lit(1)));
                    }
                    let env: BTreeMap<String, u128> = [("?a".to_string(), secret)].into_iter().collect();
                    let k = bv_eval(&t, &env, n);
                    let d = f("^", t, lit(k));
                    let l = f(">>", f("|", d.clone(), S::mk("-", vec![d])), lit(n as u128 - 1));
                    if bv_eval(&l, &env, n) != 0 {
                        return Err("harness: the rule does not fail".into());
                    }
                    let r = S::A("1".into());
                    let v = verdict::<L>(&l, &r, false)?;
                    if v == Some(true) {
                        return Err(format!("width {}: {} ==> 1 is judged valid, it is 0 for {}", n, l, secret));
                    }
                    o.outcome(&(n, rounds, secret, v));
                    o.show(format!("{:?}", v));
                    Ok(())
                },
            );
        }
    }
}

/// Variables by any name; many variables.
fn names<L: SynthLanguage>(ctx: &mut Ctx, n: u32) {
    let pool = ["?a", "?aa", "?ab", "?A", "?b", "?x1", "?x2", "?x10", "?a_", "?x-y"];
    for i in 0..pool.len() {
        for j in 0..pool.len() {
            ctx.case(
                || format!("width {}: variables {} and {}", n, pool[i], pool[j]),
                |o| {
                    let (x, y) = (S::A(pool[i].into()), S::A(pool[j].into()));
                    for op in OPS2 {
                        let t = S::mk(op, vec![x.clone(), y.clone()]);
                        for (l, r) in [
                            (t.clone(), S::mk(op, vec![y.clone(), x.clone()])),
                            (t.clone(), S::mk(op, vec![x.clone(), x.clone()])),
                            (S::mk(op, vec![y.clone(), y.clone()]), t.clone()),
                            (t.clone(), x.clone()),
                            (x.clone(), y.clone()),
                            (S::mk("-", vec![x.clone()]), S::mk("-", vec![y.clone()])),
                        ] {
                            let mut vs = vec![pool[i]];
                            if i != j {
                                vs.push(pool[j]);
                            }
                            let truth = table(&l, &vs, n) == table(&r, &vs, n);
                            check::<L>(&l, &r, truth, true, n)?;
                            o.outcome(&(n, i, j, l.to_string(), r.to_string()));
                            o.traces(1);
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    // bitwise chains: rotations are equal, leaving out any variable is not
    let most = ctx.pick(34, 130);
    for k in sizes().into_iter().filter(|k| *k >= 2 && *k <= most) {
        for op in ["&", "|", "^"] {
            ctx.case(
                || format!("width {}: {} of {} variables", n, op, k),
                |o| {
                    let chain = |vs: Vec<usize>, right: bool| -> S {
                        let at = |i: &usize| S::A(format!("?v{}", i));
                        let mut it = vs.iter();
                        let first = at(it.next().unwrap());
                        it.fold(first, |t, i| if right { S::mk(op, vec![at(i), t]) } else { S::mk(op, vec![t, at(i)]) })
                    };
                    let all = chain((0..k).collect(), false);
                    check::<L>(&all, &chain((0..k).rev().collect(), true), true, true, n)?;
                    check::<L>(&all, &chain((0..k).map(|i| (i + 1) % k).collect(), false), true, true, n)?;
                    for drop in [0, 1, k / 2, k - 1] {
                        let rest: Vec<usize> = (0..k).filter(|i| *i != drop).collect();
                        check::<L>(&all, &chain(rest.clone(), true), false, true, n)?;
                        let mut twice = rest;
                        twice.push(k);
                        check::<L>(&all, &chain(twice, false), false, true, n)?;
                    }
                    o.outcome(&(n, op, k));
                    o.traces(10);
                    Ok(())
                },
            );
        }
    }
    // both sides mention the same variables in the same order, one occurrence differs
    for k in (1..=ctx.pick(9usize, 20)).chain([13, 33]) {
        for op in ["&", "|", "^", "+"] {
            ctx.case(
                || format!("width {}: {} of {} variables, one of them changed", n, op, k),
                |o| {
                    let not = |t: S| S::mk("~", vec![t]);
                    let chain = |f: &dyn Fn(usize, S) -> S, shape: usize| -> S {
                        let at = |i: usize| f(i, S::A(format!("?v{}", i)));
                        match shape {
                            0 => (1..k).fold(at(0), |t, i| S::mk(op, vec![t, at(i)])),
                            _ => (0..k - 1).rev().fold(at(k - 1), |t, i| S::mk(op, vec![at(i), t])),
                        }
                    };
                    for shape in 0..2 {
                        let plain = chain(&|_, t| t, shape);
                        for i in 0..k {
                            if k > 9 && i > 2 && i < k - 2 && i != k / 2 {
                                continue;
                            }
                            let same = chain(&|j, t| if i == j { not(not(t)) } else { t }, 1 - shape);
                            let changed = chain(&|j, t| if i == j { not(t) } else { t }, shape);
                            check::<L>(&plain, &same, true, true, n)?;
                            check::<L>(&plain, &changed, false, true, n)?;
                            check::<L>(&changed, &plain, false, true, n)?;
                            o.traces(3);
                        }
                    }
                    o.outcome(&(n, op, k, "changed"));
                    Ok(())
                },
            );
        }
    }
}

fn explore(ctx: &mut Ctx) {
    hidden::<bv16::Bv>(ctx, 16);
    hidden::<bv32::Bv>(ctx, 32);
    hidden::<bv64::Bv>(ctx, 64);
    hidden::<bv128::Bv>(ctx, 128);
    names::<bv2::Bv>(ctx, 2);
    names::<bv4::Bv>(ctx, 4);
    if !ctx.quick() {
        names::<bv1::Bv>(ctx, 1);
        names::<bv3::Bv>(ctx, 3);
    }
    small::<bv1::Bv>(ctx, 1, &["?a", "?b", "0", "1"], 3, ctx.pick(17, 1));
    small::<bv2::Bv>(ctx, 2, &["?a", "?b", "0", "2"], 3, ctx.pick(23, 1));
    small::<bv3::Bv>(ctx, 3, &["?a", "?b", "1", "4"], 3, ctx.pick(23, 1));
    small::<bv4::Bv>(ctx, 4, &["?a", "?b", "4", "15"], 3, ctx.pick(29, 1));
    small::<bv2::Bv>(ctx, 2, &["?a", "3"], ctx.pick(4, 5), ctx.pick(101, 7));
    small::<bv4::Bv>(ctx, 4, &["?a"], 4, ctx.pick(13, 1));
    if !ctx.quick() {
        small::<bv5::Bv>(ctx, 5, &["?a", "?b", "5", "4"], 3, 5);
        small::<bv8::Bv>(ctx, 8, &["?a", "8", "7", "128"], 3, 3);
    }
    wide::<bv1::Bv>(ctx, 1);
    wide::<bv3::Bv>(ctx, 3);
    wide::<bv4::Bv>(ctx, 4);
    wide::<bv8::Bv>(ctx, 8);
    if !ctx.quick() {
        wide::<bv16::Bv>(ctx, 16);
        wide::<bv127::Bv>(ctx, 127);
    }
    wide::<bv32::Bv>(ctx, 32);
    wide::<bv64::Bv>(ctx, 64);
    wide::<bv65::Bv>(ctx, 65);
    wide::<bv128::Bv>(ctx, 128);
}

fn main() {
    mc::main(
        Check {
            id: "B02",
            level: "exploration",
            rule: "widths 1-4 (thorough also 5 and 8): pairs of terms up to size 3-4 over all ten operators, every true rule and \
                   every false rule failing on one assignment, every 3rd-9th (1st) other false rule, judged by evaluating both \
                   sides on all assignments; widths up to 128: literals at every bit position, ground facts with near-miss \
                   results, one-variable facts, 39 laws and near-laws; rules failing for one value behind up to \
                   3 (6) rounds of mixing; variables by any name and up to 34 (130) of them, also with any one occurrence negated. Outcome = judged pair.",
            assumptions: &["z3 decides every query without a multiplication of two variables; an undecided query is repeated (time-out)"],
            case_timeout_s: 300,
            ..Check::DEFAULT
        },
        explore,
    )
}
