//! Rule texts, generalisation and instantiation.
use mc::dom::*;
use mc::systems::{big, var_name};
use mc::*;
use ruler::enumo::Rule;
use ruler::{EGraph, HashMap, Pattern, SynthAnalysis, SynthLanguage};
use std::collections::BTreeMap;
use std::sync::atomic::Ordering;

/// The rewrite of `rule` performs lhs -> rhs on the ground instance, and only that.
fn performs(rule: &Rule<Free>) -> Result<(), String> {
    let r = rule_of(rule);
    let (l, rr) = (r.l.ground(), r.r.ground());
    let mut g: EGraph<Free, SynthAnalysis> = EGraph::default();
    let li = g.add_expr(&l.to_string().parse().unwrap());
    g.rebuild();
    let mut rf = mc::refeg::RefEg::new();
    rf.add(&l);
    let ms = rule.rewrite.search(&g);
    rule.rewrite.apply(&mut g, &ms);
    g.rebuild();
    rf.round(&[r.clone()]).map_err(|_| "blowup")?;
    mc::refeg::iso(&g, &rf).map_err(|e| format!("applying the rewrite of {}: {}", r, e))?;
    let ri = g.lookup_expr(&rr.to_string().parse::<egg::RecExpr<Free>>().unwrap());
    if ri.map(|x| g.find(x)) != Some(g.find(li)) {
        return Err(format!("the rewrite of {} does not equate its sides", r));
    }
    Ok(())
}

fn same(rule: &Rule<Free>, want: &R) -> Result<(), String> {
    if rule_of(rule) != *want {
        return Err(format!("parsed as {}", rule_of(rule)));
    }
    let name = want.to_string();
    if *rule.name != *name || rule.to_string() != name || rule.rewrite.name.as_str() != name {
        return Err(format!("named {:?} / {:?} / {:?}", rule.name, rule.to_string(), rule.rewrite.name));
    }
    performs(rule)
}

fn gen(e1: &S, e2: &S) -> (S, S) {
    let mut m: HashMap<ruler::Symbol, ruler::Var> = HashMap::default();
    let l = Free::generalize(&e1.to_string().parse().unwrap(), &mut m);
    let r = Free::generalize(&e2.to_string().parse().unwrap(), &mut m);
    (S::p(&l.to_string()), S::p(&r.to_string()))
}

/// One injective renaming of variables to pattern variables for both sides.
fn generalises(e1: &S, e2: &S) -> Result<(), String> {
    let (l, r) = gen(e1, e2);
    let mut m: BTreeMap<String, String> = BTreeMap::new();
    fn walk(t: &S, p: &S, m: &mut BTreeMap<String, String>) -> bool {
        let (o1, k1) = t.op();
        let (o2, k2) = p.op();
        if k1.is_empty() && is_var_name(o1) {
            if !k2.is_empty() || !o2.starts_with('?') {
                return false;
            }
            return m.entry(o1.to_string()).or_insert_with(|| o2.to_string()) == o2;
        }
        o1 == o2 && k1.len() == k2.len() && k1.iter().zip(k2).all(|(x, y)| walk(x, y, m))
    }
    if !walk(e1, &l, &mut m) || !walk(e2, &r, &mut m) {
        return Err(format!("gives {} / {}", l, r));
    }
    let img: std::collections::BTreeSet<&String> = m.values().collect();
    if img.len() != m.len() {
        return Err(format!("identifies different variables: {} / {}", l, r));
    }
    Ok(())
}

/// The rewrite of `rule` does exactly what the rule says on every match of an
/// e-graph built from `terms` and the unions of `merge`.
fn acts(rule: &R, terms: &[S], merge: &[(usize, usize)], rounds: usize) -> Result<usize, String> {
    let (f, _) = Rule::<Free>::from_string(&rule.to_string())?;
    let mut g: EGraph<Free, SynthAnalysis> = EGraph::default();
    let mut rf = mc::refeg::RefEg::new();
    let ids: Vec<_> = terms.iter().map(|t| (g.add_expr(&t.to_string().parse().unwrap()), rf.add(t))).collect();
    for (i, j) in merge {
        g.union(ids[*i].0, ids[*j].0);
        rf.union(ids[*i].1, ids[*j].1);
    }
    g.rebuild();
    rf.rebuild();
    for _ in 0..rounds {
        let ms = f.rewrite.search(&g);
        f.rewrite.apply(&mut g, &ms);
        g.rebuild();
        rf.round(&[rule.clone()]).map_err(|_| "blowup")?;
        mc::refeg::iso(&g, &rf).map_err(|e| format!("applying the rewrite of {}: {}", rule, e))?;
    }
    Ok(rf.nclasses())
}

fn explore_sizes(ctx: &mut Ctx) {
    let max = ctx.pick(66, 300);
    let ns: Vec<usize> = sizes().into_iter().filter(|n| *n <= max).collect();
    // large rules, many variables, every naming style
    for n in ns.iter().cloned() {
        for k in [1usize, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 16, 17, 20, 25, 26] {
            if k > 2 * n + 1 {
                continue;
            }
            for shape in 0..4usize {
                let style = (n + k + shape) % 6;
                let mk = move || {
                    let vs: Vec<S> = (0..k).map(|i| a(&format!("?{}", var_name(i, style)))).collect();
                    let mut ls = vs.clone();
                    if (n + k) % 2 == 0 {
                        ls.push(a("0"));
                    }
                    let l = S::L(vec![a("h"), big(n, shape, &ls), S::L(std::iter::once(a("all")).chain(vs.iter().cloned()).collect())]);
                    let mut rl: Vec<S> = vs.iter().rev().take(k.max(2) - 1).cloned().collect();
                    if n % 3 == 0 {
                        rl.push(a("1"));
                    }
                    let r = match n % 4 {
                        0 => big(1 + n / 2, (shape + 1) % 4, &rl),
                        1 => big(n, (shape + 2) % 4, &rl),
                        2 => rl[0].clone(),
                        _ => S::L(vec![a("k"), big(n, shape, &rl), rl[rl.len() - 1].clone()]),
                    };
                    R::new(l, r)
                };
                ctx.case(
                    || format!("rule with {} nodes, {} variables, shape {}, names {}: {}", n, k, shape, style, mk().to_string().chars().take(200).collect::<String>()),
                    |o| {
                        let rule = mk();
                        o.outcome(&rule);
                        let (f, b) = Rule::<Free>::from_string(&rule.to_string())?;
                        same(&f, &rule)?;
                        if b.is_some() {
                            return Err("reverse rule present".into());
                        }
                        let lp: Pattern<Free> = rule.l.to_string().parse().unwrap();
                        let rp: Pattern<Free> = rule.r.to_string().parse().unwrap();
                        same(&Rule::new(&lp, &rp).ok_or("not constructed")?, &rule)?;
                        let (f, b) = Rule::<Free>::from_string(&format!("{} <=> {}", rule.l, rule.l))?;
                        let id = R::new(rule.l.clone(), rule.l.clone());
                        same(&f, &id)?;
                        same(&b.ok_or("no reverse rule")?, &id)?;
                        // one unbound variable
                        let r2 = S::L(vec![a("g"), rule.r.clone(), a("?unbound")]);
                        let rp2: Pattern<Free> = r2.to_string().parse().unwrap();
                        if Rule::new(&lp, &rp2).is_some() {
                            return Err("constructed with an unbound variable".into());
                        }
                        // both sides go back to their ground terms
                        for (p, t) in [(&lp, &rule.l), (&rp, &rule.r)] {
                            let back = S::p(&Free::instantiate(p).to_string());
                            if back != t.ground() {
                                return Err(format!("instantiate({}) = {}", t, back));
                            }
                        }
                        Ok(())
                    },
                );
                ctx.case(
                    || format!("generalize: {} nodes, {} variables, shape {}, names {}", n, k, shape, style),
                    |o| {
                        let rule = mk();
                        let (l, r) = (rule.l.ground(), rule.r.ground());
                        o.outcome(&(&l, &r));
                        generalises(&l, &r)
                    },
                );
            }
        }
    }
    // rewrites on larger e-graphs: classes with many nodes, many matches per
    // class, several classes per match
    let rules: Vec<R> = [
        "(f ?a) ==> ?a",
        "(f ?a) ==> (g ?a ?a)",
        "(g ?a ?b) ==> (g ?b ?a)",
        "(g ?a ?a) ==> ?a",
        "(g ?a (f ?b)) ==> (f (g ?a ?b))",
        "?a ==> (f ?a)",
        "(g ?a 0) ==> 0",
        "(f (f ?a)) ==> (h ?a ?a ?a)",
        "(g (g ?a ?b) ?c) ==> (g ?a (g ?b ?c))",
        "(f ?a) ==> (k 0)",
    ]
    .iter()
    .map(|t| R::p(t))
    .collect();
    let cap = ctx.pick(40, 100);
    for (i, rule) in rules.iter().enumerate() {
        for n in ns.iter().cloned().filter(|n| *n <= cap) {
            for shape in 0..5usize {
                let build = || {
                    let mut ts: Vec<S> = vec![];
                    let x = |i: usize| a(&format!("x{}", i));
                    for j in 0..n {
                        ts.push(match (shape, j % 4) {
                            (0, _) => x(j),
                            (1, 0) | (2, 1) => S::L(vec![a("f"), x(j)]),
                            (1, 1) | (3, 0) => S::L(vec![a("g"), x(j), S::L(vec![a("f"), x(j + 1)])]),
                            (1, 2) => S::L(vec![a("g"), x(j), a("0")]),
                            (2, 0) => S::L(vec![a("f"), S::L(vec![a("f"), x(j)])]),
                            (2, _) => S::L(vec![a("g"), S::L(vec![a("g"), x(j), x(0)]), a("0")]),
                            (3, _) => S::L(vec![a("g"), x(j % 3), x(j / 2)]),
                            (_, 3) => x(j),
                            _ => S::L(vec![a("f"), x(j)]),
                        });
                    }
                    let mut merge = vec![];
                    match shape {
                        0 | 1 | 4 => {
                            for j in 1..n {
                                merge.push((j - 1, j));
                            }
                        }
                        2 => {
                            for j in 2..n {
                                merge.push((j % 2, j));
                            }
                        }
                        _ => {}
                    }
                    // parents of the merged members
                    for j in 0..n.min(6) {
                        ts.push(S::L(vec![a("f"), ts[j].clone()]));
                        ts.push(S::L(vec![a("g"), ts[j].clone(), ts[n - 1 - j].clone()]));
                        ts.push(S::L(vec![a("g"), ts[j].clone(), S::L(vec![a("f"), ts[j / 2].clone()])]));
                    }
                    (ts, merge)
                };
                ctx.case(
                    || format!("{} on {} members, shape {}", rule, n, shape),
                    |o| {
                        let (ts, merge) = build();
                        let k = acts(rule, &ts, &merge, if i == 8 || n > 20 { 1 } else { 2 })?;
                        o.outcome(&(k, i, n, shape));
                        Ok(())
                    },
                );
            }
        }
    }
}
fn explore(ctx: &mut Ctx) {
    let mut pats: Vec<S> = terms_upto(&["?a", "?b", "0"], &[("f", 1), ("g", 2)], ctx.pick(3, 4));
    for p in ["(h ?a ?b ?c)", "(<= ?a ?b)", "(>= ?a (- ?b))", "(== ?a ?b)", "(< (> ?a 1) ?b)", "(k ?a ?b ?a ?b ?c)",
              "(= ?a)", "(-> ?a ?b)", "-1/2", "(f (f (f (f ?xyz))))", "(if ?b0 ?a ?A)"] {
        pats.push(S::p(p));
    }
    // 1. rule texts
    for l in &pats {
        for r in &pats {
            let rule = R::new(l.clone(), r.clone());
            if !rule.bound() {
                continue;
            }
            for (arrow, bi) in [("=>", false), ("==>", false), ("<=>", true)] {
                if bi && !rule.rev().bound() {
                    continue;
                }
                for pad in 0..3usize {
                    let txt = match pad {
                        0 => format!("{} {} {}", l, arrow, r),
                        1 => format!("  {}   {}  {} ", l, arrow, r),
                        _ => format!("{} {} {}\n", l, arrow, r),
                    };
                    ctx.case(
                        || format!("rule text {:?}", txt),
                        |o| {
                            o.outcome(&(&rule, bi));
                            let (f, b) = Rule::<Free>::from_string(&txt)?;
                            same(&f, &rule)?;
                            match (bi, b) {
                                (false, None) => Ok(()),
                                (true, Some(b)) => same(&b, &rule.rev()),
                                (_, b) => Err(format!("reverse rule present: {}", b.is_some())),
                            }
                        },
                    );
                }
            }
        }
    }
    for l in &pats {
        for r in &pats {
            for sep in ["", " ", " = ", " == ", " <= ", " >= ", " -> ", " <- ", " <> "] {
                let txt = format!("{}{}{}", l, sep, r);
                if txt.contains("=>") {
                    continue;
                }
                ctx.case(
                    || format!("not a rule {:?}", txt),
                    |o| {
                        o.outcome(&txt);
                        match Rule::<Free>::from_string(&txt) {
                            Err(_) => Ok(()),
                            Ok((f, _)) => Err(format!("accepted as {}", f)),
                        }
                    },
                );
            }
        }
    }
    // 2. construction from patterns: exactly the bound pairs; validity is the
    //    validator's "valid" verdict and nothing else
    for l in &pats {
        for r in &pats {
            let rule = R::new(l.clone(), r.clone());
            ctx.case(
                || format!("Rule::new({}, {})", l, r),
                |o| {
                    o.outcome(&rule);
                    let lp: Pattern<Free> = l.to_string().parse().unwrap();
                    let rp: Pattern<Free> = r.to_string().parse().unwrap();
                    match (Rule::new(&lp, &rp), rule.bound()) {
                        (None, false) => Ok(()),
                        (Some(x), true) => {
                            same(&x, &rule)?;
                            for v in 0..3u8 {
                                FREE_DEFAULT.store(v, Ordering::Relaxed);
                                let ok = x.is_valid();
                                FREE_DEFAULT.store(0, Ordering::Relaxed);
                                if ok != (v == 0) {
                                    return Err(format!("is_valid() = {} under verdict {:?}", ok, verdict(v)));
                                }
                            }
                            Ok(())
                        }
                        (x, b) => Err(format!("constructed: {}, right-hand side bound: {}", x.is_some(), b)),
                    }
                },
            );
        }
    }
    // 3. generalisation: one injective renaming of variables to pattern
    //    variables for both sides, independent of the variables' names
    let ts = terms_upto(&["a", "b", "x", "0"], &[("f", 1), ("g", 2)], ctx.pick(4, 5));
    let step = ctx.pick(3, 17);
    let renamings: Vec<Vec<(&str, &str)>> = vec![
        vec![("a", "b"), ("b", "a")],
        vec![("a", "q"), ("b", "zz"), ("x", "a")],
        vec![("a", "x"), ("x", "b"), ("b", "a")],
    ];
    for (i, e1) in ts.iter().enumerate() {
        for e2 in ts.iter().skip(i % step).step_by(step) {
            ctx.case(
                || format!("generalize({}, {})", e1, e2),
                |o| {
                    let (l, r) = gen(e1, e2);
                    o.outcome(&(&l, &r));
                    generalises(e1, e2)?;
                    for ren in &renamings {
                        let mm: BTreeMap<&str, &str> = ren.iter().cloned().collect();
                        let mut f = |x: &str| mm.get(x).unwrap_or(&x).to_string();
                        let (l2, r2) = gen(&e1.map_atoms(&mut f), &e2.map_atoms(&mut f));
                        if (&l2, &r2) != (&l, &r) {
                            return Err(format!("gives {} / {} but after renaming {:?}: {} / {}", l, r, ren, l2, r2));
                        }
                    }
                    // instantiating gives the term back up to that renaming
                    let back = |p: &S| {
                        let p: Pattern<Free> = p.to_string().parse().unwrap();
                        S::p(&Free::instantiate(&p).to_string())
                    };
                    if back(&l) != l.ground() || back(&r) != r.ground() {
                        return Err(format!("instantiate gives {} / {}", back(&l), back(&r)));
                    }
                    Ok(())
                },
            );
        }
    }
}

fn explore_all(ctx: &mut Ctx) {
    explore(ctx);
    explore_sizes(ctx);
}

fn main() {
    mc::main(
        Check {
            id: "R01",
            level: "exploration",
            rule: "every pair of 26+ patterns in every arrow and spacing form, every non-arrow separator, \
                   every construction from two patterns under every validator verdict, and every pair of \
                   a term space for generalisation under three renamings; rules of up to 66 (thorough 300) nodes and \
                   26 variables in six naming styles; ten rewrites on e-graphs whose classes have up to 40 (100) \
                   members, in lockstep with the reference closure; an outcome is a distinct rule \
                   or pattern pair",
            assumptions: &["operator names do not contain the arrow =>", "the arrow is separated by spaces"],
            ..Check::DEFAULT
        },
        explore_all,
    )
}
