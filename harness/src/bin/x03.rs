//! Recursive rule inference over a grammar.
use mc::dom::*;
use mc::learn::*;
use mc::wl::*;
use mc::*;
use ruler::enumo::Ruleset;
use ruler::recipe_utils::{recursive_rules, Lang};
use std::collections::BTreeSet;
use std::sync::atomic::{AtomicU64, Ordering};

static INCONCLUSIVE: AtomicU64 = AtomicU64::new(0);

/// Every term of the language whose measure is at most n, by fixpoint, with a
/// variable in it.
fn language(l: &Lang, m: M, n: usize, cap: usize) -> Option<Vec<S>> {
    Some(language_all(l, m, n, cap)?.into_iter().filter(|t| !term_vars(t).is_empty()).collect())
}

fn language_all(l: &Lang, m: M, n: usize, cap: usize) -> Option<BTreeSet<S>> {
    let mut all: BTreeSet<S> = l.vals.iter().chain(&l.vars).map(|x| S::A(x.clone())).filter(|t| measure(t, m) <= n).collect();
    loop {
        let cur: Vec<S> = all.iter().cloned().collect();
        for (i, ops) in l.ops.iter().enumerate() {
            for op in ops {
                // all argument tuples, pruned by measure
                let mut tuples: Vec<Vec<S>> = vec![vec![]];
                for _ in 0..=i {
                    let mut next = vec![];
                    for t in &tuples {
                        for x in &cur {
                            let mut u = t.clone();
                            u.push(x.clone());
                            if measure(&S::mk(op, u.clone()), m) <= n {
                                next.push(u);
                            }
                        }
                        if next.len() > cap * 8 {
                            return None;
                        }
                    }
                    tuples = next;
                }
                for t in tuples {
                    all.insert(S::mk(op, t));
                }
            }
        }
        if all.len() > cap {
            return None;
        }
        if all.len() == cur.len() {
            break;
        }
    }
    Some(all)
}

/// Number of terms of the unexpanded grammar.
fn template_size(l: &Lang, m: M, n: usize, cap: usize) -> Option<usize> {
    language_all(l, m, n, cap).map(|x| x.len())
}

fn run(l: &Lang, m: M, n: usize, prior: &[R]) -> Result<Option<Vec<R>>, String> {
    match guard(|| recursive_rules::<Fin>(m.real(), n, l.clone(), to_ruleset(prior))) {
        Ok(x) => Ok(Some(rules_of(&x))),
        Err(e) if e.contains("Didn't learn any rules") => Ok(None),
        // rules over partial operators need not have a common total model; the library asserts that
        Err(e) if e.contains("cvecs do not match") && l.ops.iter().flatten().any(|x| x.contains('_')) => Ok(None),
        Err(e) => Err(e),
    }
}

fn one(l: &Lang, m: M, n: usize, prior: &[R], ts: &[S], o: &mut Obs) -> Result<(), String> {
    let partial = l.ops.iter().flatten().any(|x| x.contains('_'));
    let smaller = if n > 0 { run(l, m, n - 1, prior)? } else { None };
    let got = run(l, m, n, prior)?;
    let rules = match (&got, &smaller) {
        (Some(g), _) => g.clone(),
        // it stops when a level of size 3 or more has nothing to learn
        (None, Some(s)) if n >= 3 && !partial => {
            if n == 1 { prior.to_vec() } else { s.clone() }
        }
        (None, None) if n >= 4 => return Ok(()),
        (None, _) if partial => return Ok(()),
        _ => return Err("recursive_rules gave up although nothing must be learned at this size".into()),
    };
    o.outcome(&strs(&rules));
    o.state(&strs(&rules));
    o.show(format!("{} terms, {} rules{}", ts.len(), rules.len(), if got.is_none() { " (nothing new)" } else { "" }));
    if n == 0 {
        return if rules.is_empty() { Ok(()) } else { Err(format!("rules at size 0: {:?}", strs(&rules))) };
    }
    for p in prior.iter().chain(smaller.iter().flatten()) {
        if !rules.contains(p) {
            return Err(format!("{} (prior, or learned at a smaller size) is missing from the result", p));
        }
    }
    let new: Vec<R> = rules.iter().filter(|r| !prior.contains(r)).cloned().collect();
    sound(&new)?;
    let ops: BTreeSet<&String> = l.ops.iter().flatten().collect();
    for r in &new {
        for t in [&r.l, &r.r] {
            let mut bad = None;
            let mut sub = vec![];
            t.subterms(&mut sub);
            for x in sub {
                let (op, kids) = x.op();
                let known = if kids.is_empty() { x.is_pvar() || op == "0" || op == "1" || l.vals.iter().any(|v| v == op) } else { ops.contains(&op.to_string()) };
                if !known {
                    bad = Some(op.to_string());
                }
            }
            if let Some(b) = bad {
                return Err(format!("{} mentions {}, which is not in the language", r, b));
            }
            if measure(&t.ground(), m) > n {
                return Err(format!("{} is larger than {:?} {}", r, m, n));
            }
        }
    }
    // with partial operators the fast matching this uses may miss candidates (documented)
    if partial {
        return Ok(());
    }
    let obl = obligations(ts, &|_| true);
    match complete(ts, &rules, &obl, 2)? {
        Some(k) => o.trans(k),
        None => {
            INCONCLUSIVE.fetch_add(1, Ordering::Relaxed);
        }
    }
    Ok(())
}

fn explore(ctx: &mut Ctx) {
    let un = ["u10", "u1_", "u00", "u01"];
    let bin = ["b0001", "b0110", "b01_1", "b1101", "b0011"];
    let ter = ["t00010111", "t01010011", "t0_1_0111"];
    let qua = ["q0001000000000001", "q0110100110010110"];
    let mut op_sets: Vec<Vec<Vec<&str>>> = vec![vec![], vec![vec![]], vec![vec![], vec![], vec![], vec![]]];
    for u in un {
        op_sets.push(vec![vec![u]]);
        op_sets.push(vec![vec![u], vec![]]);
        for b in bin {
            op_sets.push(vec![vec![u], vec![b]]);
            op_sets.push(vec![vec![u], vec![b], vec![]]);
        }
        for v in un {
            if u < v {
                op_sets.push(vec![vec![u, v]]);
            }
        }
        for t in ter {
            op_sets.push(vec![vec![u], vec![], vec![t]]);
            op_sets.push(vec![vec![u], vec![bin[0]], vec![t]]);
        }
        op_sets.push(vec![vec![u], vec![], vec![], vec![qua[0]]]);
    }
    for (i, b) in bin.iter().enumerate() {
        op_sets.push(vec![vec![], vec![b]]);
        op_sets.push(vec![vec![], vec![b, bin[(i + 1) % bin.len()]]]);
        op_sets.push(vec![vec!["u10"], vec![b, bin[(i + 2) % bin.len()]]]);
    }
    for t in ter {
        op_sets.push(vec![vec![], vec![], vec![t]]);
    }
    for q in qua {
        op_sets.push(vec![vec![], vec![], vec![], vec![q]]);
        op_sets.push(vec![vec![], vec![bin[1]], vec![], vec![q]]);
    }
    let priors: Vec<Vec<R>> = vec![
        vec![],
        vec![R::p("(b0001 ?x ?y) ==> (b0001 ?y ?x)"), R::p("(u10 (u10 ?x)) ==> ?x")],
        vec![R::p("(b0110 ?x ?x) ==> 0"), R::p("(u00 ?x) ==> 0"), R::p("(t00010111 ?a ?a ?b) ==> ?a"), R::p("(b0110 ?y ?x) ==> (b0110 ?x ?y)")],
    ];
    let cap = ctx.pick(150, 400);
    for ops in &op_sets {
        for (vals, vars) in [(&[][..], &["a"][..]), (&["0"], &["a"]), (&["0", "1"], &["a", "b"]), (&[], &["a", "b", "c"]), (&["1"], &["b", "a"]), (&["0"], &[])] {
            let l = Lang::new(vals, vars, &ops.iter().map(|x| &x[..]).collect::<Vec<_>>());
            for m in METRICS {
                for n in 0..=ctx.pick(6, 8) {
                    let names: Vec<String> = (0..ops.len()).map(|i| format!("OP{}", i + 1)).collect();
                    let template = Lang::new(&["VAL"], &["VAR"], &names.iter().map(|x| vec![x.as_str()]).collect::<Vec<_>>().iter().map(|x| &x[..]).collect::<Vec<_>>());
                    // the library substitutes the whole previous level into every argument
                    let levels: Option<Vec<usize>> = (0..=n).map(|i| template_size(&template, m, i, 3000)).collect();
                    match levels {
                        Some(v) if v.iter().map(|x| (*x as f64).powi(ops.len() as i32)).sum::<f64>() < ctx.pick(3e4, 3e5) => {}
                        _ => break,
                    }
                    let ts = match language(&l, m, n, cap) {
                        Some(t) => t,
                        None => break,
                    };
                    if n > 3 && m != M::Atoms && ops.iter().flatten().count() == 0 {
                        break;
                    }
                    for (pi, p) in priors.iter().enumerate() {
                        let p: Vec<R> = p.iter().filter(|r| ops.iter().flatten().any(|x| r.l.op().0 == *x)).cloned().collect();
                        if pi > 0 && p.is_empty() {
                            continue;
                        }
                        ctx.case(
                            || format!("{:?} up to {:?} {} with prior {:?}", l, m, n, strs(&p)),
                            |o| one(&l, m, n, &p, &ts, o),
                        );
                    }
                }
            }
        }
    }
    ctx.count("completeness outside the caps", INCONCLUSIVE.load(Ordering::Relaxed));
}

fn main() {
    mc::main(
        Check {
            id: "X03",
            level: "exploration",
            rule: "operator sets with 0-4 arities (also with empty arities) over {0,1,undefined} x 6 choices of constants and \
                   variables x 3 metrics x every bound whose language has at most 150 (thorough 400) terms x up to 3 priors: \
                   prior and smaller levels are kept, rules are sound, within the language and the bound, and (for total operators) all equal \
                   terms of the language (generated by fixpoint) are provable. Outcome = resulting ruleset.",
            assumptions: &["obligations whose smallest term has inessential variables are skipped (no orientable rule need exist)"],
            ..Check::DEFAULT
        },
        explore,
    )
}
