//! Fast candidate generation: classes with identical vectors.
use mc::dom::*;
use mc::eqs::*;
use mc::refeg::*;
use mc::*;
use ruler::enumo::{Ruleset, Scheduler, Workload};
use ruler::{EGraph, SynthAnalysis, SynthLanguage};
use std::collections::{BTreeMap, BTreeSet};

type V = Vec<Option<u8>>;

fn judge<L: SynthLanguage>(
    eg: &EGraph<L, SynthAnalysis>,
    rf: &RefEg,
    vec_of: &dyn Fn(usize) -> V,
    o: &mut Obs,
) -> Result<(), String> {
    let cs: Vec<usize> = rf.classes().into_iter().collect();
    let vs: BTreeMap<usize, V> = cs.iter().map(|c| (*c, vec_of(*c))).collect();
    let mut pairs = vec![];
    for (i, x) in cs.iter().enumerate() {
        for y in &cs[i + 1..] {
            if vs[x] == vs[y] && vs[x].iter().any(|c| c.is_some()) {
                pairs.push((*x, *y));
            }
        }
    }
    let reps = match smallest(rf, &|_| true, 400) {
        Some(r) => r,
        None => return Ok(()),
    };
    let cands = Ruleset::fast_cvec_match(eg);
    let got = rules_of(&cands);
    o.outcome(&strs(&got));
    o.show(format!("{} pairs, {} candidates", pairs.len(), got.len()));
    check_candidates(&got, &pairs, &reps)?;
    // never more than full matching
    let full: BTreeSet<R> = rules_of(&Ruleset::cvec_match(eg)).iter().map(|r| r.alpha()).collect();
    for g in &got {
        if !full.contains(&g.alpha()) {
            return Err(format!("{} is not a candidate of full matching", g));
        }
    }
    Ok(())
}

fn leaves(names: &[String], o: &mut Obs) -> Result<(), String> {
    let len = names[0].len() - 3;
    let mut eg: EGraph<Ivl, SynthAnalysis> = EGraph::default();
    eg.analysis.cvec_len = len;
    let mut rf = RefEg::new();
    for n in names {
        eg.add_expr(&expr(&S::A(n.clone())));
        rf.add(&S::A(n.clone()));
    }
    eg.rebuild();
    rf.rebuild();
    let by = rf.by_class();
    judge(&eg, &rf, &|c| ivl_leaf(&by[&c][0].0).unwrap().2, o)
}

fn merged(ts: &[S], unions: &[(usize, usize)], o: &mut Obs) -> Result<(), String> {
    let txt = strs(ts);
    let w = Workload::new(txt.iter().map(|x| x.as_str()).collect::<Vec<_>>());
    let mut eg = w.to_egraph::<Fin>();
    let mut vars = vec![];
    let mut rf = RefEg::new();
    for t in ts {
        for v in term_vars(t) {
            rf.add(&S::A(v.clone()));
            if !vars.contains(&v) {
                vars.push(v);
            }
        }
        rf.add(t);
    }
    for (i, j) in unions {
        let (x, y) = (eg.add_expr(&expr(&ts[*i])), eg.add_expr(&expr(&ts[*j])));
        eg.union(x, y);
        let (x, y) = (rf.add(&ts[*i]), rf.add(&ts[*j]));
        rf.union(x, y);
    }
    eg.rebuild();
    rf.rebuild();
    let envs = assignments(&vars, &[Some(0), Some(1)]);
    let sm = smallest(&rf, &|_| true, 400).unwrap();
    judge(&eg, &rf, &|c| {
        let t = sm[&c].iter().next().unwrap();
        envs.iter().map(|e| fin_eval(t, e)).collect()
    }, o)
}

fn terms(ts: &[S], rules: &[R], k: usize, o: &mut Obs) -> Result<(), String> {
    let txt = strs(ts);
    let w = Workload::new(txt.iter().map(|x| x.as_str()).collect::<Vec<_>>());
    let mut eg = w.to_egraph::<Fin>();
    let mut vars = vec![];
    let mut rf = RefEg::new();
    for t in ts {
        for v in term_vars(t) {
            rf.add(&S::A(v.clone()));
            if !vars.contains(&v) {
                vars.push(v);
            }
        }
        rf.add(t);
    }
    if !rules.is_empty() {
        eg = Scheduler::Compress(unlimited(k)).run(&eg, &to_ruleset(rules));
        rf = match ref_compress(&rf, rules, k) {
            Ok(x) => x,
            Err(_) => return Ok(()),
        };
    }
    let envs = assignments(&vars, &[Some(0), Some(1)]);
    let sm = smallest(&rf, &|_| true, 400).unwrap();
    judge(&eg, &rf, &|c| {
        let t = sm[&c].iter().next().unwrap();
        envs.iter().map(|e| fin_eval(t, e)).collect()
    }, o)
}

fn explore(ctx: &mut Ctx) {
    for (len, n) in [(1usize, 5usize), (2, ctx.pick(4, 5)), (3, 3)] {
        let mut vs: Vec<String> = vec![];
        let m = 3usize.pow(len as u32);
        for i in 0..m {
            let mut s = String::new();
            let mut x = i;
            for _ in 0..len {
                s.push(['.', '0', '1'][x % 3]);
                x /= 3;
            }
            for k in ['.', '9'] {
                vs.push(format!("I.{}{}", k, s));
            }
            if len < 3 {
                vs.push(format!("I.8{}", s));
            }
        }
        for c in combos(vs.len(), 1, n) {
            let names: Vec<String> = c.iter().map(|i| vs[*i].clone()).collect();
            ctx.case(|| format!("leaves {:?}", names), |o| leaves(&names, o));
        }
        ctx.case(|| format!("all {} leaves of length {}", vs.len(), len), |o| leaves(&vs, o));
    }
    // long vectors differing in one place
    for len in [4usize, 8, 15, 20] {
        for p in 0..len {
            for (x, y) in [('0', '1'), ('.', '0'), ('1', '.')] {
                let mk = |q: usize, c: char, k: char| {
                    let v: String = (0..len).map(|i| if i == q { c } else { ['0', '1', '.'][i % 3] }).collect();
                    format!("I.{}{}", k, v)
                };
                let names = vec![mk(p, x, '.'), mk(p, y, '.'), mk(p, x, '9'), mk((p + 1) % len, y, '8')];
                ctx.case(|| format!("leaves {:?}", names), |o| leaves(&names, o));
            }
        }
    }
    let pool: Vec<S> = ["a", "b", "0", "1", "(u10 a)", "(u1_ b)", "(u1_ a)", "(u__ a)", "(u__ b)", "(b0001 a b)", "(b0001 b a)", "(b0_11 a b)",
                        "(b0_11 b a)", "(u10 (u10 a))", "(b0001 a 0)", "(t00010011 a b a)", "(u11 b)", "(b0011 a b)", "(b0_11 a a)", "U"]
        .iter().map(|t| S::p(t)).collect();
    for c in combos(pool.len(), 1, ctx.pick(4, 5)) {
        let ts: Vec<S> = c.iter().map(|i| pool[*i].clone()).collect();
        ctx.case(|| format!("terms {:?}", strs(&ts)), |o| terms(&ts, &[], 0, o));
    }
    for (leaves, ops, n) in [
        (&["a", "b"][..], &[("u10", 1), ("b0001", 2)][..], 4usize),
        (&["a", "b", "0"], &[("u1_", 1), ("b0_11", 2)], 3),
        (&["a", "b", "c"], &[("b0111", 2)], 3),
        (&["a", "U"], &[("u__", 1), ("b01_1", 2)], 4),
        (&["a", "b", "c", "d", "e", "f"], &[("u10", 1)], 3),
        (&["a", "b"], &[("t00010011", 3), ("u0_", 1)], 4),
        (&["b", "a"], &[("b_001", 2), ("u01", 1)], 4),
    ] {
        let ts = terms_upto(leaves, ops, n);
        let mut rev = ts.clone();
        rev.reverse();
        for (name, t) in [("", ts.clone()), (" reversed", rev)] {
            ctx.case(|| format!("all {} terms over {:?} {:?}{}", t.len(), leaves, ops, name), |o| terms(&t, &[], 0, o));
        }
        for (r, k) in [("(b0001 ?x ?y) ==> (b0001 ?y ?x)", 1), ("(u10 (u10 ?x)) ==> ?x", 1), ("(u01 ?x) ==> ?x", 2),
                       ("(b0_11 ?x ?x) ==> ?x", 1), ("(b0111 ?x ?x) ==> ?x", 1)] {
            ctx.case(|| format!("all terms over {:?} {:?} after {}", leaves, ops, r), |o| terms(&ts, &[R::p(r)], k, o));
        }
    }
    // large and oddly shaped classes, long partial vectors
    for sh in mc::classes::shapes(ctx.quick()) {
        ctx.case(|| sh.name.clone(), |o| merged(&sh.terms, &sh.unions, o));
    }
}

fn main() {
    mc::main(
        Check {
            id: "C02",
            level: "exploration",
            rule: "every set of at most 3-5 leaves over all vectors of length 1-3 (each vector available two or three times), \
                   vectors up to length 20 differing in one place, every set of at most 4 (thorough 5) of 20 terms, 7 whole \
                   term spaces, also after compression; classes whose members disagree in size and depth, up to 40 (100) members or classes \
                   per vector. Candidates must be exactly the pairs with equal, not wholly undefined \
                   vectors, and a subset of full matching. Outcome = candidate list.",
            assumptions: &["classes without any vector (domains that do not use vectors) are out of scope"],
            ..Check::DEFAULT
        },
        explore,
    )
}
