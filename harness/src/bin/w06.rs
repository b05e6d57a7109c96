//! Reading the texts of S-expressions and patterns.
use mc::dom::*;
use mc::wl::*;
use mc::*;
use ruler::enumo::{Pattern, Sexp, Workload};

/// What a text denotes: its first expression.  Err(true): no expression, must
/// be rejected.  Err(false): not specified (the empty text, a line break before the
/// expression).
fn denotes(text: &str) -> Result<S, bool> {
    let cs: Vec<char> = text.chars().collect();
    if cs.is_empty() {
        return Err(false);
    }
    let mut i = 0;
    while i < cs.len() && cs[i] == ' ' {
        i += 1;
    }
    if i == cs.len() || cs[i] == ')' {
        return Err(true);
    }
    if cs[i] == '\n' {
        return Err(false);
    }
    let mut stack: Vec<Vec<S>> = vec![];
    loop {
        // invariant: cs[i..] starts after a complete prefix
        let mut done = None;
        match cs.get(i) {
            None => return Err(true),
            Some(' ') | Some('\n') => i += 1,
            Some('(') => {
                stack.push(vec![]);
                i += 1;
            }
            Some(')') => {
                done = stack.pop().map(S::L);
                i += 1;
            }
            Some(_) => {
                let mut w = String::new();
                while i < cs.len() && !" ()\n".contains(cs[i]) {
                    w.push(cs[i]);
                    i += 1;
                }
                done = Some(S::A(w));
            }
        }
        if let Some(d) = done {
            match stack.last_mut() {
                Some(top) => top.push(d),
                None => return Ok(d),
            }
        }
    }
}

/// The pattern as a tree: the inverse of how patterns are read.
fn pattern_tree(p: &Pattern) -> Result<S, String> {
    Ok(match p {
        Pattern::Wild => a("*"),
        Pattern::Var(v) if v.starts_with('?') => a(v),
        Pattern::Var(v) => return Err(format!("{} was read as a variable", v)),
        Pattern::Lit(x) if x != "*" && !x.starts_with('?') => a(x),
        Pattern::Lit(x) => return Err(format!("{} was read as a literal", x)),
        Pattern::List(xs) => S::L(xs.iter().map(pattern_tree).collect::<Result<_, _>>()?),
    })
}

fn one(text: &str) -> Result<bool, String> {
    let want = denotes(text);
    let got = guard(|| text.parse::<Sexp>()).map_err(|e| format!("reading {:?} panicked: {}", text, e))?;
    let pat = guard(|| text.parse::<Pattern>()).map_err(|e| format!("reading {:?} as a pattern panicked: {}", text, e))?;
    match want {
        Err(false) => return Ok(false),
        Err(true) => {
            if let Ok(x) = got {
                return Err(format!("{:?} was read as {}", text, x));
            }
            if let Ok(x) = pat {
                return Err(format!("{:?} was read as the pattern {:?}", text, x));
            }
        }
        Ok(t) => {
            let x = got.map_err(|e| format!("{:?} was rejected: {}", text, e))?;
            if sexp_of(&x) != t {
                return Err(format!("{:?} was read as {} instead of {}", text, x, t));
            }
            let p = pat.map_err(|e| format!("{:?} was rejected as a pattern: {}", text, e))?;
            let pt = pattern_tree(&p)?;
            if pt != t {
                return Err(format!("{:?} was read as the pattern {:?} instead of {}", text, p, t));
            }
            let printed = x.to_string();
            let again = guard(|| printed.parse::<Sexp>()).map_err(|e| format!("reading {:?} panicked: {}", printed, e))?;
            if again.as_ref().ok() != Some(&x) {
                return Err(format!("{} is printed as {:?}, which reads as {:?}", t, printed, again));
            }
        }
    }
    Ok(true)
}

/// The text of a tree with the `style`-th way to separate things.
fn render(t: &S, style: usize) -> String {
    let (open, sep, close) = [("(", " ", ")"), ("( ", "  ", " )"), ("(", "\n", "\n)"), ("( \n", " \n ", ")"), ("(", " ", " ) ")][style];
    match t {
        S::A(x) => x.clone(),
        S::L(xs) => {
            let kids: Vec<String> = xs.iter().map(|x| render(x, style)).collect();
            format!("{}{}{}", open, kids.join(sep), close)
        }
    }
}

/// Without any separator that is not needed.
fn dense(t: &S) -> String {
    match t {
        S::A(x) => x.clone(),
        S::L(xs) => {
            let mut s = String::from("(");
            let mut word = false;
            for x in xs {
                let is_word = matches!(x, S::A(_));
                if word && is_word {
                    s.push(' ');
                }
                s.push_str(&dense(x));
                word = is_word;
            }
            s.push(')');
            s
        }
    }
}

fn tree_case(ts: &[S], o: &mut Obs) -> Result<(), String> {
    let mut texts = vec![];
    for t in ts {
        for st in 0..5 {
            texts.push((t.clone(), render(t, st)));
        }
        texts.push((t.clone(), format!("  {}  ", dense(t))));
    }
    for (t, x) in &texts {
        if denotes(x).as_ref() != Ok(t) {
            return Err(format!("harness: {:?} is not {}", x, t));
        }
        o.traces(1);
        o.outcome(t);
        one(x)?;
    }
    // a workload made from texts
    let w = guard(|| Workload::new(texts.iter().map(|x| x.1.as_str()).collect::<Vec<_>>()))?;
    let got = forced(&w);
    let want: Vec<S> = texts.into_iter().map(|x| x.0).collect();
    if got != want {
        same_multiset(&got, &want)?;
        return Err("the terms of a workload are in another order than its texts".into());
    }
    Ok(())
}

fn trees(atoms: &[&str], widths: &[usize]) -> Vec<S> {
    let base: Vec<S> = atoms.iter().map(|x| a(x)).collect();
    let mut cur = base.clone();
    for w in widths {
        let mut next = base.clone();
        for k in 0..=*w {
            for s in seqs(cur.len(), k) {
                next.push(S::L(s.iter().map(|i| cur[*i].clone()).collect()));
            }
        }
        cur = next;
    }
    cur
}

fn explore(ctx: &mut Ctx) {
    let alpha = ['(', ')', 'a', '?', '*', ' ', '\n'];
    let mut prefixes: Vec<String> = vec![String::new()];
    for _ in 0..3 {
        prefixes = prefixes.iter().flat_map(|p| alpha.iter().map(move |c| format!("{}{}", p, c))).collect();
    }
    let more = ctx.pick(4, 6);
    for p in &prefixes {
        ctx.case(
            || format!("every text of up to {} characters from {:?} that starts with {:?}", p.len() + more, alpha, p),
            |o| {
                let mut cur = vec![p.clone()];
                let (mut good, mut all) = (0usize, 0usize);
                for i in 0..=more {
                    for t in &cur {
                        all += 1;
                        o.traces(1);
                        if one(t)? {
                            good += 1;
                        }
                    }
                    if i < more {
                        cur = cur.iter().flat_map(|p| alpha.iter().map(move |c| format!("{}{}", p, c))).collect();
                    }
                }
                o.outcome(&(p, good));
                o.show(format!("{} texts, {} specified", all, good));
                Ok(())
            },
        );
    }
    for p in ["", "(", ")", "a", "?", "*", " ", "((", "(a", "a ", "??", "?*", "**", "*a", " a", " (", "()"] {
        ctx.case(|| format!("{:?}", p), |o| { o.outcome(p); one(p).map(|_| ()) });
    }
    let ts = trees(&["a", "?x", "*", "-1"], &[2, 3]);
    for c in ts.chunks(400) {
        ctx.case(|| format!("{} trees from {}", c.len(), c[0]), |o| tree_case(c, o));
    }
    let ts = trees(&["f", "?"], &[1, 2, 2]);
    for c in ts.chunks(400) {
        ctx.case(|| format!("{} deep trees from {}", c.len(), c[0]), |o| tree_case(c, o));
    }
    // names
    let names = ["EXPR", "?*", "*?", "**", "a*", "a?", "=>", "==>", "<=>", "#b01", "-", "--", "~", "<<", "a.b", "a,b", "[x]", "{x}", "é", "变量", "'", "a\"b", "\\", ";", "|", "a;b", "#t", "1/2", "-3", "+4", "0x1f", "?αβ", "_", "?_", "%", "a\u{301}"];
    for (i, x) in names.iter().enumerate() {
        for y in &names[..=i] {
            let ts: Vec<S> = vec![a(x), l(vec![a(x)]), l(vec![a(x), a(y)]), l(vec![l(vec![a(y), a(x)]), a(y)]), l(vec![a("f"), l(vec![]), a(x), l(vec![a(y)])])];
            ctx.case(|| format!("names {:?} and {:?}", x, y), |o| tree_case(&ts, o));
        }
    }
    // wide, deep and long
    for n in sizes() {
        let deep = (0..n.min(400)).fold(a("x"), |t, i| l(vec![a(&format!("f{}", i % 3)), t]));
        let deep2 = (0..n.min(400)).fold(l(vec![]), |t, _| l(vec![t]));
        let wide = l((0..n).map(|i| a(&format!("x{}", i))).collect());
        let long = a(&"n".repeat(n.max(1)));
        let longvar = a(&format!("?{}", "v".repeat(n)));
        for t in [deep, deep2, wide, long.clone(), longvar.clone(), l(vec![long, longvar])] {
            ctx.case(|| format!("a tree of size {} made for {}", t.size(), n), |o| tree_case(&[t.clone()], o));
        }
    }
    // texts that end inside a list, at every position
    for t in ["(+ (- 1 2) (f ?x *))", "((((a) b) c) d)", "(f (g (h (i j))))"] {
        for i in 1..t.len() {
            ctx.case(|| format!("{:?}", &t[..i]), |o| { o.outcome(&t[..i]); one(&t[..i]).map(|_| ()) });
        }
    }
}

fn main() {
    mc::main(
        Check {
            id: "W06",
            level: "exploration",
            rule: "every text of up to 7 (thorough 9) characters from parentheses, a, ?, *, space and line break; every tree of width<=3 \
                   and depth<=3 over four atoms in six renderings; 36 unusual names pairwise; wide, deep and long texts; every prefix of nested \
                   texts: read as an S-expression and as a pattern and compared with the tree of the text's first expression (or rejection), and \
                   printed and read back. Outcome = tree, or number of specified texts per prefix.",
            assumptions: &["the empty text, quoted strings, tabs inside words and line breaks before the expression are not specified; what follows the first expression is ignored"],
            ..Check::DEFAULT
        },
        explore,
    )
}
