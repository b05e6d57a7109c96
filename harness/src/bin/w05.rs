//! Workloads and rulesets survive being written to and read from files.
use mc::dom::*;
use mc::wl::*;
use mc::*;
use ruler::enumo::{Ruleset, Workload};
use std::path::PathBuf;

fn dir() -> PathBuf {
    // a scratch directory of this worker, inside the parent's scratch
    let d = scratch_root();
    d
}

fn trees() -> Vec<S> {
    let base: Vec<S> = ["x", "(f x)", "()", "-1/2", "#b01", "?v", "(if (< a b) (~ a) (- b 1))"]
        .iter()
        .map(|t| S::p(t))
        .collect();
    let mut out = base.clone();
    for k in 0..=2 {
        for s in seqs(base.len(), k) {
            out.push(S::L(s.iter().map(|i| base[*i].clone()).collect()));
        }
    }
    out
}

fn pats() -> Vec<S> {
    ["?a", "?b", "0", "(f ?a)", "(g ?a ?b)", "(g ?b ?a)", "(f (f ?a))", "(<= ?a ?b)", "(>= ?b ?a)", "(if ?a ?b 0)"]
        .iter()
        .map(|t| S::p(t))
        .collect()
}

fn same_rules(got: &Ruleset<Free>, want: &Ruleset<Free>) -> Result<(), String> {
    let (g, w) = (rules_of(got), rules_of(want));
    if g != w {
        return Err(format!("read back {:?}, wrote {:?}",
            g.iter().map(|r| r.to_string()).collect::<Vec<_>>(),
            w.iter().map(|r| r.to_string()).collect::<Vec<_>>()));
    }
    if got.to_str_vec() != want.to_str_vec() || got != want {
        return Err("names differ after the round trip".into());
    }
    // every rule can be looked up and carries a rewrite for itself
    for r in got.iter() {
        if !want.contains(r) {
            return Err(format!("{} is not contained", r));
        }
        let mut g = egg::EGraph::<Free, ruler::SynthAnalysis>::default();
        let l: egg::RecExpr<Free> = rule_of(r).l.ground().to_string().parse().unwrap();
        let rr: egg::RecExpr<Free> = rule_of(r).r.ground().to_string().parse().unwrap();
        g.add_expr(&l);
        g.rebuild();
        let ms = r.rewrite.search(&g);
        let n = r.rewrite.apply(&mut g, &ms).len();
        g.rebuild();
        if l != rr && (n == 0 || g.lookup_expr(&l) != g.lookup_expr(&rr) || g.lookup_expr(&rr).is_none()) {
            return Err(format!("the rewrite of {} does not perform it", r));
        }
    }
    Ok(())
}

fn explore(ctx: &mut Ctx) {
    let d = dir();
    let f = d.join("w.terms");
    let f = f.to_str().unwrap();
    let ts = trees();
    // histories of writes to one path followed by a read: the last write wins
    let round = |hist: &[Vec<S>], f: &str, o: &mut Obs| -> Result<(), String> {
        let _ = std::fs::remove_file(f);
        for w in hist {
            wset(w).to_file(f);
            o.trans(1);
        }
        let last = hist.last().unwrap();
        o.state(last);
        let back = Workload::from_file(f);
        let got = forced(&back);
        if &got != last {
            return Err(format!("read back {:?}", got.iter().map(|t| t.to_string()).collect::<Vec<_>>()));
        }
        Ok(())
    };
    let show = |h: &[Vec<S>]| {
        h.iter()
            .map(|w| format!("[{}{}]", w.iter().take(6).map(|t| t.to_string()).collect::<Vec<_>>().join(", "),
                if w.len() > 6 { format!(", ... {} terms", w.len()) } else { String::new() }))
            .collect::<Vec<_>>()
            .join(" then ")
    };
    for k in 0..=2 {
        for s in seqs(ts.len(), k) {
            if k == 2 && (s[0] * 7 + s[1]) % ctx.pick(3, 1) != 0 {
                continue;
            }
            let w: Vec<S> = s.iter().map(|i| ts[*i].clone()).collect();
            ctx.case(|| format!("workload {}", show(&[w.clone()])), |o| round(&[w.clone()], f, o));
        }
    }
    let sizes: Vec<Vec<S>> = {
        let big: Vec<S> = (0..ctx.pick(3000, 40000))
            .map(|i| S::p(&format!("(op{} (neg x{}) {})", i % 7, i, i * 31)))
            .collect();
        vec![vec![], ts[..1].to_vec(), ts[..5].to_vec(), ts.clone(), big]
    };
    for k in 1..=3 {
        for s in seqs(sizes.len(), k) {
            let h: Vec<Vec<S>> = s.iter().map(|i| sizes[*i].clone()).collect();
            ctx.case(|| format!("workload {}", show(&h)), |o| round(&h, f, o));
        }
    }
    // computed workloads
    for (i, w) in [
        Workload::new(["x", "(f x)"]).plug("x", &wset(&ts)),
        wset(&ts).append(wset(&ts)),
        Workload::new(["(g x x)"]).plug("x", &wset(&ts)).filter(F::Contains(S::p("x")).real()),
    ]
    .into_iter()
    .enumerate()
    {
        ctx.case(
            || format!("computed workload {}", i),
            |o| {
                w.to_file(f);
                o.state(&i);
                let back = Workload::from_file(f);
                if back.force() != w.force() {
                    return Err("round trip differs".into());
                }
                Ok(())
            },
        );
    }

    // rulesets
    let ps = pats();
    let rf = d.join("r.rules");
    let rf = rf.to_str().unwrap();
    let mut rules: Vec<R> = vec![];
    for x in &ps {
        for y in &ps {
            let r = R::new(x.clone(), y.clone());
            if r.bound() {
                rules.push(r);
            }
        }
    }
    let rround = |hist: &[Vec<R>], o: &mut Obs| -> Result<(), String> {
        let _ = std::fs::remove_file(rf);
        for w in hist {
            to_ruleset::<Free>(w).to_file(rf);
            o.trans(1);
        }
        let last = hist.last().unwrap();
        o.state(last);
        same_rules(&Ruleset::from_file(rf), &to_ruleset(last))
    };
    let rshow = |h: &[Vec<R>]| {
        h.iter()
            .map(|w| format!("[{}]", w.iter().take(6).map(|t| t.to_string()).collect::<Vec<_>>().join(", ")))
            .collect::<Vec<_>>()
            .join(" then ")
    };
    for k in 0..=2 {
        for s in seqs(rules.len(), k) {
            let w: Vec<R> = s.iter().map(|i| rules[*i].clone()).collect();
            ctx.case(|| format!("ruleset {}", rshow(&[w.clone()])), |o| rround(&[w.clone()], o));
        }
    }
    let rsizes = [vec![], rules[..1].to_vec(), rules[3..9].to_vec(), rules.clone()];
    for k in 1..=3 {
        for s in seqs(rsizes.len(), k) {
            let h: Vec<Vec<R>> = s.iter().map(|i| rsizes[*i].clone()).collect();
            ctx.case(|| format!("ruleset {}", rshow(&h)), |o| rround(&h, o));
        }
    }
    // hand-written files: every arrow form and lines that are not rules
    let lines: Vec<(String, Vec<R>)> = {
        let mut v = vec![
            ("".to_string(), vec![]),
            ("// a comment".to_string(), vec![]),
            ("(f ?a) = ?a".to_string(), vec![]),
            ("; (comment)".to_string(), vec![]),
            ("# rules for f".to_string(), vec![]),
            ("-----".to_string(), vec![]),
            ("end".to_string(), vec![]),
            ("(f ?a) -> ?a".to_string(), vec![]),
            ("(f ?a) > ?a".to_string(), vec![]),
            ("   ".to_string(), vec![]),
        ];
        for (l, r, bi) in [
            ("(f ?a)", "?a", false),
            ("(g ?a ?b)", "(g ?b ?a)", true),
            ("(f (f ?a))", "(f ?a)", true),
            ("(<= ?a ?b)", "(>= ?b ?a)", true),
        ] {
            let f = R::new(S::p(l), S::p(r));
            v.push((format!("{} => {}", l, r), vec![f.clone()]));
            v.push((format!("{} ==> {}", l, r), vec![f.clone()]));
            if bi {
                v.push((format!("{} <=> {}", l, r), vec![f.clone(), f.rev()]));
            }
            v.push((format!("  {}   ==>   {}  ", l, r), vec![f]));
        }
        v
    };
    for k in 0..=ctx.pick(3, 4) {
        for s in seqs(lines.len(), k) {
            ctx.case(
                || format!("rules file {:?}", s.iter().map(|i| &lines[*i].0).collect::<Vec<_>>()),
                |o| {
                    let text: String = s.iter().map(|i| lines[*i].0.clone() + "\n").collect();
                    std::fs::write(rf, &text).unwrap();
                    let mut want: Vec<R> = vec![];
                    for i in &s {
                        for r in &lines[*i].1 {
                            if !want.contains(r) {
                                want.push(r.clone());
                            }
                        }
                    }
                    o.state(&want);
                    o.trans(1);
                    let got = Ruleset::<Free>::from_file(rf);
                    if rules_of(&got) != want {
                        return Err(format!("read {:?}", got.to_str_vec()));
                    }
                    let direct = Ruleset::<Free>::new(s.iter().map(|i| lines[*i].0.clone()));
                    same_rules(&got, &direct)
                },
            );
        }
    }

    // the same without a newline at the end, and longer files
    for (i, (line, want)) in lines.iter().enumerate() {
        for n in [0usize, 1, 7, 50] {
            ctx.case(
                || format!("rules file of {} lines ending in {:?} without newline", n + 1, line),
                |o| {
                    let mut text = String::new();
                    let mut w: Vec<R> = vec![];
                    for k in 0..n {
                        let (l, rs) = &lines[(k * 5 + i) % lines.len()];
                        text += &format!("{}\n", l);
                        w.extend(rs.iter().cloned());
                        let x = R::p(&format!("(p{} ?x ?y) ==> (q{} ?y)", k, k));
                        text += &format!("{}\n", x);
                        w.push(x);
                    }
                    text += line;
                    w.extend(want.iter().cloned());
                    let mut u: Vec<R> = vec![];
                    for r in w {
                        if !u.contains(&r) {
                            u.push(r)
                        }
                    }
                    std::fs::write(rf, &text).unwrap();
                    o.state(&u);
                    o.trans(1);
                    let got = Ruleset::<Free>::from_file(rf);
                    if rules_of(&got) != u {
                        return Err(format!("read {:?}", got.to_str_vec()));
                    }
                    Ok(())
                },
            );
        }
    }
    // names made of any printable characters except those of the syntax
    let mut names: Vec<String> = vec![];
    for c in (33u8..127).map(|c| c as char).chain(['é', 'λ', '\u{1F600}', '\u{feff}']) {
        if "()\"".contains(c) {
            continue;
        }
        for t in [format!("{}", c), format!("a{}", c), format!("{}a", c), format!("a{}b", c), format!("{}{}", c, c), format!("a{}.", c), format!("-{}", c)] {
            if !t.starts_with('?') && !t.contains("=>") && !names.contains(&t) {
                names.push(t);
            }
        }
    }
    for (i, n) in names.iter().enumerate() {
        let m = &names[(i * 31 + 7) % names.len()];
        let w = vec![a(n), S::L(vec![a(n)]), S::L(vec![a(n), a(m)]), S::L(vec![a("f"), S::L(vec![a(m), a(n)]), a(n)]), a(m)];
        for k in 1..=w.len() {
            ctx.case(|| format!("workload {}", show(&[w[..k].to_vec()])), |o| round(&[w[..k].to_vec()], f, o));
            ctx.case(|| format!("workload {}", show(&[w[k - 1..].to_vec()])), |o| round(&[w[k - 1..].to_vec()], f, o));
        }
        let v = a("?v");
        let rs = vec![
            R::new(S::L(vec![a(n), v.clone()]), v.clone()),
            R::new(S::L(vec![a("f"), v.clone(), a(n)]), S::L(vec![a(m), a(n), v.clone()])),
            R::new(S::L(vec![a("f"), v.clone()]), a(n)),
        ];
        for k in 1..=3 {
            ctx.case(|| format!("ruleset {}", rshow(&[rs[..k].to_vec()])), |o| rround(&[rs[..k].to_vec()], o));
            ctx.case(|| format!("ruleset {}", rshow(&[rs[k - 1..].to_vec()])), |o| rround(&[rs[k - 1..].to_vec()], o));
        }
    }
    // sizes: many rules, large rules, many terms, large terms
    let top = ctx.pick(1030, 5002);
    for n in mc::sizes().into_iter().filter(|n| *n <= top) {
        ctx.case(
            || format!("ruleset of {} rules", n),
            |o| {
                let w: Vec<R> = (0..n)
                    .map(|i| match i % 3 {
                        0 => R::p(&format!("(f{} ?a ?b) ==> (g ?b)", i)),
                        1 => R::p(&format!("(f{} ?b ?a) ==> (g ?a)", i)),
                        _ => R::p(&format!("(g ?b) ==> (f{} ?b ?b)", i - 2)),
                    })
                    .collect();
                rround(&[w], o)
            },
        );
        let mut deep = S::p("?a");
        let mut left = S::p("?b");
        for i in 0..n.min(300) {
            deep = S::L(vec![a(if i % 2 == 0 { "f" } else { "gg" }), deep]);
            left = S::L(vec![a("h"), left, a(["?a", "?b", "0"][i % 3])]);
        }
        let wide = S::L(std::iter::once(a("w")).chain((0..n.min(1000)).map(|i| a(["?b", "?a", "x"][i % 3]))).collect());
        for w in [vec![R::new(deep.clone(), S::p("?a"))], vec![R::new(left.clone(), S::p("(f ?b)")), R::new(deep.clone(), S::p("?a"))], vec![R::new(wide.clone(), S::p("0")), R::new(S::p("(h ?a ?b)"), S::p("?b"))]] {
            ctx.case(|| format!("rules of size {}", n), |o| rround(&[w.clone()], o));
        }
        let many: Vec<S> = (0..n).map(|i| S::p(&format!("(op{} (neg x{}) {})", i % 7, i / 2, i % 31))).collect();
        ctx.case(|| format!("workload of {} terms", n), |o| round(&[many.clone()], f, o));
        let large = vec![deep.ground(), a("x"), wide.ground(), left.ground(), S::L(vec![])];
        ctx.case(|| format!("terms of size {}", n), |o| round(&[large.clone()], f, o));
    }
    let _ = std::fs::remove_dir_all(&d);
}

fn main() {
    mc::main(
        Check {
            id: "W05",
            level: "model_checking",
            rule: "every workload of at most 2 terms over 64 tree shapes, every history of up to 3 \
                   writes of differently sized workloads/rulesets to one path, every ruleset of at most \
                   2 rules over 72 rules, every rules file of at most 3 (thorough 4) lines over 25 line \
                   forms, and size families (1030 (5002) rules or terms, rules of up to 1000 nodes); the file read back must be exactly the last one written. State = contents \
                   denoted by the file; transition = one write.",
            assumptions: &["terms and rules are over operator names free of whitespace, parentheses and \
                            the rule arrow; rules carry their canonical name"],
            ..Check::DEFAULT
        },
        explore,
    )
}
