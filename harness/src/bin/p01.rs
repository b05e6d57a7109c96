//! Printed reports.
use mc::capture::stdout_of;
use mc::dom::*;
use mc::eqs::*;
use mc::wl::*;
use mc::*;
use ruler::enumo::{Ruleset, Scheduler, Workload};
use ruler::recipe_utils::*;
use ruler::{DeriveType, Limits, Phase};
use std::collections::BTreeSet;
use std::path::PathBuf;

/// Whole numbers in a text, in order (numbers with a point are left out).
fn numbers(s: &str) -> Vec<usize> {
    s.split(|c: char| !(c.is_ascii_alphanumeric() || c == '.' || c == '_' || c == '-'))
        .filter_map(|w| w.trim_end_matches('.').parse().ok())
        .collect()
}

/// The printed lines must denote exactly the rules, a reversible pair once.
fn lists_rules(lines: &[&str], want: &[R]) -> Result<(), String> {
    let lines: Vec<&str> = lines.iter().copied().filter(|l| !l.trim().is_empty()).collect();
    let back: Ruleset<Free> = Ruleset::new(lines.iter());
    let (x, y): (BTreeSet<R>, BTreeSet<R>) = (rules_of(&back).into_iter().collect(), want.iter().cloned().collect());
    if x != y {
        return Err(format!("printed {:?}, expected exactly {:?}", lines, strs(want)));
    }
    let pairs = y.iter().filter(|r| r.rev() != **r && r.rev().bound() && y.contains(&r.rev())).count() / 2;
    if lines.len() != y.len() - pairs {
        return Err(format!("printed {:?}, with a rule listed twice", lines));
    }
    Ok(())
}

fn printed(w: &Workload, want: &[S], o: &mut Obs) -> Result<(), String> {
    let ((), txt) = stdout_of(|| w.pretty_print());
    let got: Vec<S> = txt.lines().map(|l| S::parse(l).map_err(|e| format!("printed line {:?}: {}", l, e))).collect::<Result<_, _>>()?;
    o.outcome(&got.len());
    o.trans(got.len());
    let order: Vec<S> = forced(w);
    if got != order {
        return Err(format!("printed {:?}, the terms in order are {:?}", strs(&got), strs(&order)));
    }
    same_multiset(&got, want)
}

struct Dir(PathBuf);
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn report(own: &[R], against: &[R], both: bool, how: usize, o: &mut Obs) -> Result<(), String> {
    let l = Limits::deriving();
    let mut can = 0;
    let mut missing = vec![];
    let mut judged: Vec<R> = vec![];
    for r in against {
        // rules whose reference run stays far below the deriving limits
        match model(own, both, r, l.iter) {
            Ok((w, g)) if g.nnodes() < 150 => {
                o.state(&g.fingerprint());
                o.trans(l.iter);
                judged.push(r.clone());
                if w {
                    can += 1
                } else {
                    missing.push(r.clone())
                }
            }
            _ => (),
        }
    }
    o.traces(1);
    let d = Dir(scratch_root().join("p"));
    std::fs::create_dir_all(&d.0).unwrap();
    let (one, two) = (d.0.join("own.rules"), d.0.join("other.txt"));
    let text = |rs: &[R]| -> String {
        let mut s = String::new();
        if how == 1 {
            s.push_str("// a comment\n\n");
        }
        for r in rs {
            s.push_str(&format!("{}\n", r));
            if how == 2 {
                s.push_str("\n");
            }
        }
        s
    };
    std::fs::write(&one, text(own)).unwrap();
    std::fs::write(&two, text(&judged)).unwrap();
    let dt = if both { DeriveType::LhsAndRhs } else { DeriveType::Lhs };
    let (one, two) = (one.to_str().unwrap(), two.to_str().unwrap());
    let ((), txt) = stdout_of(|| Ruleset::<Free>::print_derive(dt, one, two));
    o.show(format!("{} of {} derivable", can, judged.len()));
    o.outcome(&(strs(own), strs(&missing), both));
    let (a, b) = (txt.find(one), txt.find(two));
    if a.is_none() || b.is_none() || a > b {
        return Err(format!("the report must name {} and then {}:\n{}", one, two, txt));
    }
    let head_end = txt.find("Missing").ok_or_else(|| format!("no list of missing rules in\n{}", txt))?;
    let head = txt[..head_end].replace(one, "").replace(two, "");
    let want = vec![own.len(), judged.len(), can, missing.len()];
    if numbers(&head) != want {
        return Err(format!("the report must count {:?} (rules, rules, derivable, not derivable):\n{}", want, txt));
    }
    let rest: Vec<&str> = txt[head_end..].lines().skip(1).collect();
    lists_rules(&rest, &missing)
}

fn summary(what: &str, run: &mut dyn FnMut() -> Ruleset<Free>, prior: usize, o: &mut Obs) -> Result<(), String> {
    let (got, txt) = stdout_of(|| guard(|| run()));
    let got = match got {
        Ok(g) => rules_of(&g),
        Err(e) if e.contains("Didn't learn any rules") => return Ok(()),
        Err(e) => return Err(e),
    };
    let lines: Vec<&str> = txt.lines().collect();
    let at = lines.iter().position(|l| l.starts_with("Learned")).ok_or_else(|| format!("{}: no summary in\n{}", what, txt))?;
    let set: BTreeSet<R> = got.iter().cloned().collect();
    let pairs = set.iter().filter(|r| r.rev().bound() && set.contains(&r.rev())).count() / 2;
    let want = vec![got.len() - pairs, got.len(), prior];
    if numbers(lines[at]) != want {
        return Err(format!("{}: the summary must count {:?} (bidirectional, total, prior): {}", what, want, lines[at]));
    }
    o.outcome(&want);
    o.trans(1);
    lists_rules(&lines[at + 1..], &got)
}

fn explore(ctx: &mut Ctx) {
    // workloads
    let pool: Vec<S> = ["a", "x", "()", "(f x)", "(f x y)", "((f x) (g))", "(f (f x))", "(() x)", "?x", "*", "-1", "\"q\"", "(if (< x 0) (~ x) x)"].iter().map(|t| S::p(t)).collect();
    for k in 0..=ctx.pick(3, 4) {
        for s in seqs(pool.len(), k) {
            let ts: Vec<S> = s.iter().map(|i| pool[*i].clone()).collect();
            ctx.case(|| format!("print {:?}", strs(&ts)), |o| printed(&wset(&ts), &ts, o));
        }
    }
    let pegs: Vec<S> = ["a", "(g b)", "x", "()"].iter().map(|t| S::p(t)).collect();
    for s in combos(pool.len(), 1, 3) {
        for p in combos(pegs.len(), 0, 3) {
            ctx.case(
                || format!("print plugged {:?} {:?}", s, p),
                |o| {
                    let ts: Vec<S> = s.iter().map(|i| pool[*i].clone()).collect();
                    let ps: Vec<S> = p.iter().map(|i| pegs[*i].clone()).collect();
                    let mut want: Vec<S> = ts.iter().flat_map(|t| plug(t, "x", &ps)).collect();
                    want.extend(ts.iter().cloned());
                    want.retain(|t| measure(t, M::Atoms) < 4);
                    let w = wset(&ts).plug("x", &wset(&ps)).append(wset(&ts)).filter(F::Lt(M::Atoms, 4).real());
                    printed(&w, &want, o)
                },
            );
        }
    }
    for n in sizes().into_iter().filter(|n| *n <= 1000) {
        ctx.case(
            || format!("print {} terms", n),
            |o| {
                let ts: Vec<S> = (0..n).map(|i| S::p(&format!("(f (g v{}) {})", i * 7 % 13, i))).collect();
                printed(&wset(&ts), &ts, o)?;
                let wide = vec![S::L((0..n).map(|i| S::A(format!("v{}", i))).collect())];
                printed(&wset(&wide), &wide, o)
            },
        );
    }
    // derivability reports
    let rules: Vec<R> = ["(f (f ?x)) ==> ?x", "(g ?x ?y) ==> (g ?y ?x)", "(g ?x ?x) ==> (f ?x)", "(f ?x) ==> (g ?x ?x)", "(f ?x) ==> ?x", "(g ?x 0) ==> ?x", "(f ?a) ==> (h ?a ?a)",
                         "(h ?a ?b) ==> (g ?a ?b)", "(g (f ?x) ?y) ==> (f (g ?x ?y))"].iter().map(|t| R::p(t)).collect();
    let mut goals = rules.clone();
    for t in ["?x ==> (f (f ?x))", "?x ==> (g ?x 0)", "(g ?a (f (f ?b))) ==> (g ?a ?b)", "(g ?b ?a) ==> (g ?b (f (f ?a)))", "(f 0) ==> 0", "0 ==> (f 0)", "(g 0 ?x) ==> ?x", "(h ?a ?b) ==> (h ?b ?a)",
              "(f (f (f (f (f (f ?x)))))) ==> ?x"] {
        goals.push(R::p(t));
    }
    for s in combos(rules.len(), 0, ctx.pick(2, 3)) {
        let own: Vec<R> = s.iter().map(|i| rules[*i].clone()).collect();
        for both in [false, true] {
            for how in 0..3 {
                ctx.case(|| format!("report {:?} on all goals both {} file form {}", strs(&own), both, how), |o| report(&own, &goals, both, how, o));
            }
            for g in combos(goals.len(), 0, 1).into_iter().chain(combos(goals.len(), 2, 2).into_iter().filter(|g| (g[0] + g[1] + s.len()) % ctx_step(s.len()) == 0)) {
                let ag: Vec<R> = g.iter().map(|i| goals[*i].clone()).collect();
                ctx.case(|| format!("report {:?} on {:?} both {}", strs(&own), strs(&ag), both), |o| report(&own, &ag, both, 0, o));
            }
        }
    }
    let cap = ctx.pick(130, 600);
    for n in sizes().into_iter().filter(|n| *n <= cap) {
        ctx.case(
            || format!("report on {} rules", n),
            |o| {
                let own: Vec<R> = (0..n).filter(|i| i % 3 != 1).map(|i| R::p(&format!("(f{} ?x) ==> (g{} ?x)", i, i))).collect();
                let ag: Vec<R> = (0..n).map(|i| if i % 2 == 0 { R::p(&format!("(f{} ?x) ==> (g{} ?x)", i, i)) } else { R::p(&format!("(g{} ?x) ==> (f{} ?x)", i, i)) }).collect();
                report(&own, &ag, n % 2 == 0, n % 3, o)
            },
        );
    }
    // proofs of exactly n growing rounds: the deriving limits allow five
    for n in 1..=ctx.pick(8, 14) {
        for from in 0..3 {
            for both in [false, true] {
                ctx.case(
                    || format!("report on proofs of up to {} rounds, from {} both {}", n, from, both),
                    |o| {
                        let own: Vec<R> = (0..n).map(|i| R::p(&format!("(f{} ?x) ==> (f{} (u ?x))", i, i + 1))).collect();
                        let u = |k: usize| (0..k).fold(a("?x"), |t, _| S::L(vec![a("u"), t]));
                        let ag: Vec<R> = (from..=n).map(|k| R::new(S::L(vec![a("f0"), a("?x")]), S::L(vec![a(&format!("f{}", k)), u(k)]))).filter(|r| r.l != r.r).collect();
                        report(&own, &ag, both, from, o)
                    },
                );
            }
        }
    }
    // summaries of inference
    let ff = vec![(vec!["(f ?x) ==> (_h ?x)", "(g ?x ?x) ==> (_h ?x)"], vec!["(f (f ?x)) ==> ?x"]), (vec![], vec!["(_h ?x) ==> (f ?x)", "(g ?x ?y) ==> (g ?y ?x)", "(_h ?x) ==> (g ?x ?x)"]), (vec!["(g ?x ?y) ==> (_k ?x ?y)", "(_k ?x ?y) ==> (_k ?y ?x)"], vec![])];
    for (e, p) in &ff {
        for n in 1..=ctx.pick(4, 5) {
            for k in 0..3 {
                ctx.case(
                    || format!("summary of fast-forwarding, terms up to {}, {} rounds, {:?} {:?}", n, k, e, p),
                    |o| {
                        *EXPLORATORY.lock().unwrap() = e.iter().map(|x| x.to_string()).collect();
                        let ts = terms_upto(&["a", "b"], &[("f", 1), ("g", 2), ("_h", 1)], n);
                        let pr: Vec<R> = p.iter().map(|x| R::p(x)).collect();
                        summary("fast-forwarding", &mut || run_fast_forwarding(wset(&ts), to_ruleset(&pr), unlimited(k), unlimited(k)), pr.len(), o)
                    },
                );
            }
        }
    }
    let prior: Vec<R> = ["(b0001 ?x ?y) ==> (b0001 ?y ?x)", "(u10 (u10 ?x)) ==> ?x", "(b0001 ?x ?x) ==> ?x", "?x ==> (u10 (u10 ?x))"].iter().map(|t| R::p(t)).collect();
    for np in 0..=prior.len() {
        for (leaves, n) in [(&["a"][..], 4), (&["a", "b"], 3), (&["a", "0", "1"], 3), (&["a", "b", "c"], 3)] {
            for fast in [true, false] {
                for k in 0..3 {
                    ctx.case(
                        || format!("summary of inference, {:?} up to {}, {} priors, {} rounds, fast {}", leaves, n, np, k, fast),
                        |o| {
                            let ts = terms_upto(leaves, &[("u10", 1), ("b0001", 2)], n);
                            let run = || run_workload::<Fin>(wset(&ts), to_ruleset(&prior[..np]), unlimited(k), unlimited(k), fast);
                            summary("inference", &mut || to_ruleset(&rules_of(&run())), np, o)
                        },
                    );
                }
            }
        }
    }
    // names of phases
    for name in ["", "lifting", "a b", "(x) y", "é"] {
        for kind in 0..3 {
            for k in [0, 1, 7] {
                ctx.case(
                    || format!("phase {:?} {} {}", name, kind, k),
                    |o| {
                        let l = unlimited(k);
                        let (scheduler, word) = match kind {
                            0 => (Scheduler::Simple(l), "eqsat"),
                            1 => (Scheduler::Saturating(l), "sat"),
                            _ => (Scheduler::Compress(l), "compress"),
                        };
                        let p: Phase<Free> = Phase { rules: to_ruleset(&rules[..k.min(3)]), rules_name: name.to_string(), scheduler };
                        o.outcome(&p.to_string());
                        let want = format!("{} ({})", word, name);
                        if p.to_string() != want {
                            return Err(format!("a phase is shown as {:?}, expected {:?}", p.to_string(), want));
                        }
                        Ok(())
                    },
                );
            }
        }
    }
}

fn ctx_step(n: usize) -> usize {
    if n < 2 {
        1
    } else {
        7
    }
}

fn main() {
    mc::main(
        Check {
            id: "P01",
            level: "model_checking",
            rule: "printing: every sequence of at most 3 (thorough 4) of 13 terms, plugged, appended and filtered workloads, up to 1000 terms; derivability reports: every \
                   ruleset of at most 2 (3) of 9 rules against 18 goals alone, in pairs and together, both derive types, three file forms, up to 130 (600) rules, the \
                   counts and the missing rules being those of the reference saturation; the summary of every inference over 40 settings and of fast-forwarding over 36. \
                   State = reference graph; transition = a round or printed line.",
            assumptions: &["reports are judged on goals whose reference run stays far below the deriving limits"],
            ..Check::DEFAULT
        },
        explore,
    )
}
