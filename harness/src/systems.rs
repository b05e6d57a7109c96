//! Size-parameterised rewrite systems: start terms, unions, rules and the
//! numbers of rounds worth running.
use crate::term::*;

pub struct Sys {
    pub name: String,
    pub terms: Vec<S>,
    pub unions: Vec<(usize, usize)>,
    pub rules: Vec<R>,
    pub rounds: Vec<usize>,
}

/// A pattern with `n` operator nodes over the given leaves.
pub fn big(n: usize, shape: usize, leaves: &[S]) -> S {
    let at = |i: usize| leaves[(i * 5 + i / 3) % leaves.len()].clone();
    match shape {
        0 => (0..n).fold(at(0), |t, i| if i % 3 == 1 { l(vec![a("g"), at(i), t]) } else { l(vec![a("f"), t]) }),
        1 => {
            fn bal(n: usize, k: &mut usize, at: &dyn Fn(usize) -> S) -> S {
                if n == 0 {
                    *k += 1;
                    return at(*k);
                }
                let m = (n - 1) / 2;
                l(vec![a("g"), bal(m, k, at), bal(n - 1 - m, k, at)])
            }
            bal(n, &mut 0, &at)
        }
        2 => l(std::iter::once(a("w")).chain((0..n.max(1)).map(at)).collect()),
        _ => l(std::iter::once(a("w")).chain((0..n.max(1)).map(|i| if i % 2 == 0 { l(vec![a("f"), at(i)]) } else { at(i) })).collect()),
    }
}

/// Names that differ in one place only, long names, digits, capitals.
pub fn var_name(i: usize, style: usize) -> String {
    match style {
        0 => ["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z"]
            [(i * 7 + 3) % 26]
            .to_string(),
        1 => format!("x{}", i),
        2 => format!("v{}a", i),
        3 => format!("long_variable_{}", i),
        4 => format!("{}y", "x".repeat(i + 1).chars().take(20).collect::<String>()),
        _ => format!("{}{}", (b'a' + (i % 26) as u8) as char, ["", "1", "'", "A", "0x"][(i / 3) % 5]),
    }
}

fn at(op: &str, i: usize, args: Vec<S>) -> S {
    S::mk(&format!("{}{}", op, i), args)
}
fn tower(op: &str, n: usize, t: S) -> S {
    (0..n).fold(t, |t, _| S::mk(op, vec![t]))
}

pub const KINDS: usize = 11;

/// System number `kind` of size `n`.
pub fn system(kind: usize, n: usize) -> Sys {
    let p = S::p;
    let mut terms = vec![];
    let mut unions = vec![];
    let mut rules = vec![];
    let mut rounds = vec![1, 2];
    let name;
    match kind {
        0 => {
            name = "one growing chain among bystanders";
            terms.push(p("(p a)"));
            for i in 0..n {
                terms.push(at("by", i, vec![a("a")]));
            }
            rules.push(R::p("(p ?x) ==> (p (w ?x))"));
            rules.push(R::p("(by1 ?x) ==> (by2 ?x)"));
            rounds = vec![1, 4, 5, 8, n.min(30)];
        }
        1 => {
            name = "a long rewrite sequence among bystanders";
            terms.push(p("(s0 a)"));
            for i in 0..n {
                terms.push(at("by", i, vec![at("x", i % 5, vec![])]));
                rules.push(R::new(at("s", n - 1 - i, vec![a("?x")]), at("s", n - i, vec![a("?x")])));
            }
            rounds = vec![1, n.saturating_sub(1), n, n + 1];
        }
        2 => {
            name = "rules over many variables";
            for i in 0..n.min(40) {
                let k = 1 + (i + n) % 12;
                let vs: Vec<S> = (0..k).map(|j| a(&format!("?{}", var_name(j, i % 6)))).collect();
                let mut rot = vs.clone();
                rot.rotate_left(k / 2);
                rules.push(R::new(at("o", i, vs.clone()), if i % 3 == 0 { at("q", i, rot) } else { S::mk("t", vec![at("o", i, rot), vs[k - 1].clone()]) }));
                terms.push(at("o", i, (0..k).map(|j| at("y", (j + i) % 14, vec![])).collect()));
            }
        }
        3 => {
            name = "few merges among many classes";
            for i in 0..n {
                terms.push(at("l", i, vec![a("a")]));
                terms.push(at("r", i, vec![a("a")]));
            }
            for j in [0usize, n / 2, n - 1] {
                let r = R::new(at("l", j, vec![a("?x")]), at("r", j, vec![a("?x")]));
                if !rules.contains(&r) && (n + j) % 4 != 1 {
                    rules.push(r);
                }
            }
        }
        4 => {
            name = "a tower collapsing";
            terms.push(tower("f", n, a("a")));
            terms.push(tower("f", n / 2, a("B")));
            rules.push(R::p("(f (f ?x)) ==> ?x"));
            rounds = vec![1, 2, 3];
        }
        5 => {
            name = "a union at the bottom of towers";
            terms.push(a("a"));
            terms.push(a("B"));
            terms.push(tower("f", n, a("a")));
            terms.push(tower("f", n, a("B")));
            terms.push(tower("f", n, a("C")));
            terms.push(S::mk("g", vec![tower("f", n / 2, a("a")), tower("f", n / 2, a("B"))]));
            unions.push((0, 1));
            rules.push(R::p("(g ?x ?x) ==> C"));
            rules.push(R::p("(f C) ==> (f a)"));
            rounds = vec![1, 2, 3];
        }
        6 => {
            name = "a rule with large sides";
            let vs: Vec<S> = (0..1 + n % 7).map(|i| a(&format!("?v{}", i))).collect();
            let m = n.min(60);
            let lhs = big(m, n % 4, &vs);
            let lv = lhs.pvars();
            let used: Vec<S> = vs.iter().filter(|v| lv.contains(&v.to_string())).cloned().collect();
            let rhs = if used.is_empty() { a("0") } else { big(1 + m / 2, (n + 1) % 4, &used) };
            terms.push(lhs.ground());
            terms.push(S::mk("f", vec![lhs.map_atoms(&mut |x| if x.starts_with('?') { "z".into() } else { x.to_string() })]));
            rules.push(R::new(lhs, rhs));
        }
        7 => {
            name = "many members in one class";
            for i in 0..n {
                terms.push(at("m", i, vec![at("x", i % 3, vec![])]));
                if i > 0 {
                    unions.push((if n % 2 == 0 { i - 1 } else { i / 2 }, i));
                }
            }
            terms.push(S::mk("f", vec![at("m", n / 2, vec![at("x", (n / 2) % 3, vec![])])]));
            terms.push(S::mk("g", vec![at("m", 0, vec![at("x", 0, vec![])]), at("m", n - 1, vec![at("x", (n - 1) % 3, vec![])])]));
            rules.push(R::p("(f ?x) ==> ?x"));
            rules.push(R::p("(g ?x ?x) ==> (f ?x)"));
            rules.push(R::new(at("m", n - 1, vec![a("?x")]), S::mk("f", vec![a("?x")])));
        }
        8 => {
            name = "many matches of one rule";
            for i in 0..n {
                terms.push(S::mk("g", vec![at("x", i, vec![]), at("x", (i * 3 + 1) % n, vec![])]));
            }
            rules.push(R::p("(g ?x ?y) ==> (g ?y ?x)"));
            rules.push(R::new(S::mk("g", vec![at("x", n - 1, vec![]), a("?y")]), a("?y")));
        }
        9 => {
            name = "many rules on one class";
            terms.push(p("(f (f a))"));
            terms.push(p("(d0 (f a))"));
            terms.push(at("d", n - 1, vec![p("(f a)")]));
            for i in 0..n {
                rules.push(R::new(p(if i % 2 == 0 { "(f ?x)" } else { "(f (f ?x))" }), at("d", i, vec![a("?x")])));
            }
        }
        _ => {
            name = "pairwise merges";
            for i in 0..n {
                terms.push(at("e", i, vec![a("a")]));
            }
            for i in 0..n / 2 {
                rules.push(R::new(at("e", 2 * i, vec![a("?x")]), at("e", 2 * i + 1, vec![a("?x")])));
            }
        }
    }
    rounds.sort();
    rounds.dedup();
    Sys { name: format!("{} (size {})", name, n), terms, unions, rules, rounds }
}
