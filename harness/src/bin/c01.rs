//! Candidate generation by characteristic vector matching.
use mc::dom::*;
use mc::eqs::*;
use mc::refeg::*;
use mc::*;
use ruler::enumo::{Ruleset, Scheduler, Workload};
use ruler::{EGraph, SynthAnalysis, SynthLanguage};
use std::collections::BTreeMap;

type V = Vec<Option<u8>>;

fn compatible(a: &V, b: &V) -> bool {
    a.iter().zip(b).all(|(x, y)| x.is_none() || y.is_none() || x == y)
        && a.iter().zip(b).any(|(x, y)| x.is_some() && x == y)
}

/// Compare with the definition, given the classes of the reference graph and
/// their vectors.
fn judge<L: SynthLanguage>(
    eg: &EGraph<L, SynthAnalysis>,
    rf: &RefEg,
    vec_of: &dyn Fn(usize) -> V,
    o: &mut Obs,
) -> Result<(), String> {
    let cs: Vec<usize> = rf.classes().into_iter().collect();
    let vs: BTreeMap<usize, V> = cs.iter().map(|c| (*c, vec_of(*c))).collect();
    let mut pairs = vec![];
    for (i, x) in cs.iter().enumerate() {
        for y in &cs[i + 1..] {
            if compatible(&vs[x], &vs[y]) {
                pairs.push((*x, *y));
            }
        }
    }
    let reps = match smallest(rf, &|_| true, 400) {
        Some(r) => r,
        None => return Ok(()),
    };
    let cands = Ruleset::cvec_match(eg);
    let got = rules_of(&cands);
    o.outcome(&strs(&got));
    o.show(format!("{} pairs, {} candidates", pairs.len(), got.len()));
    if got.len() != cands.len() {
        return Err("inconsistent ruleset".into());
    }
    check_candidates(&got, &pairs, &reps)
}

/// Leaves with arbitrary vectors, arbitrary unions of compatible ones.
fn leaves(names: &[String], unions: &[(usize, usize)], o: &mut Obs) -> Result<(), String> {
    let len = names[0].len() - 3;
    let ts: Vec<S> = names.iter().map(|n| S::A(n.clone())).collect();
    let mut eg: EGraph<Ivl, SynthAnalysis> = EGraph::default();
    eg.analysis.cvec_len = len;
    let mut rf = RefEg::new();
    for t in &ts {
        eg.add_expr(&expr(t));
        rf.add(t);
    }
    for (i, j) in unions {
        let (x, y) = (eg.lookup_expr(&expr(&ts[*i])).unwrap(), eg.lookup_expr(&expr(&ts[*j])).unwrap());
        eg.union(x, y);
        let (x, y) = (rf.lookup(&ts[*i]).unwrap(), rf.lookup(&ts[*j]).unwrap());
        rf.union(x, y);
    }
    eg.rebuild();
    rf.rebuild();
    let by = rf.by_class();
    judge(&eg, &rf, &|c| {
        let mut v = vec![None; len];
        for (op, _) in &by[&c] {
            for (i, x) in ivl_leaf(op).unwrap().2.iter().enumerate() {
                v[i] = v[i].or(*x);
            }
        }
        v
    }, o)
}

fn merged(ts: &[S], unions: &[(usize, usize)], o: &mut Obs) -> Result<(), String> {
    let txt = strs(ts);
    let w = Workload::new(txt.iter().map(|x| x.as_str()).collect::<Vec<_>>());
    let mut eg = w.to_egraph::<Fin>();
    let mut vars = vec![];
    let mut rf = RefEg::new();
    for t in ts {
        for v in term_vars(t) {
            rf.add(&S::A(v.clone()));
            if !vars.contains(&v) {
                vars.push(v);
            }
        }
        rf.add(t);
    }
    for (i, j) in unions {
        let (x, y) = (eg.add_expr(&expr(&ts[*i])), eg.add_expr(&expr(&ts[*j])));
        eg.union(x, y);
        let (x, y) = (rf.add(&ts[*i]), rf.add(&ts[*j]));
        rf.union(x, y);
    }
    eg.rebuild();
    rf.rebuild();
    let envs = assignments(&vars, &[Some(0), Some(1)]);
    let sm = smallest(&rf, &|_| true, 400).unwrap();
    judge(&eg, &rf, &|c| {
        let t = sm[&c].iter().next().unwrap();
        envs.iter().map(|e| fin_eval(t, e)).collect()
    }, o)
}

fn terms(ts: &[S], rules: &[R], k: usize, o: &mut Obs) -> Result<(), String> {
    let txt = strs(ts);
    let w = Workload::new(txt.iter().map(|x| x.as_str()).collect::<Vec<_>>());
    let mut eg = w.to_egraph::<Fin>();
    let mut vars = vec![];
    let mut rf = RefEg::new();
    for t in ts {
        for v in term_vars(t) {
            rf.add(&S::A(v.clone()));
            if !vars.contains(&v) {
                vars.push(v);
            }
        }
        rf.add(t);
    }
    if !rules.is_empty() {
        eg = Scheduler::Compress(unlimited(k)).run(&eg, &to_ruleset(rules));
        rf = match ref_compress(&rf, rules, k) {
            Ok(x) => x,
            Err(_) => return Ok(()),
        };
    }
    let envs = assignments(&vars, &[Some(0), Some(1)]);
    let sm = smallest(&rf, &|_| true, 400).unwrap();
    judge(&eg, &rf, &|c| {
        // every term of a class denotes the same partial function here
        let t = sm[&c].iter().next().unwrap();
        envs.iter().map(|e| fin_eval(t, e)).collect()
    }, o)
}

fn vecs(len: usize, vals: &[Option<u8>]) -> Vec<V> {
    let mut out: Vec<V> = vec![vec![]];
    for _ in 0..len {
        let mut next = vec![];
        for v in &out {
            for x in vals {
                let mut w = v.clone();
                w.push(*x);
                next.push(w);
            }
        }
        out = next;
    }
    out
}
fn name(i: usize, v: &V) -> String {
    // the upper bound digit only makes the names distinct
    format!("I.{}{}", if i == 0 { '.' } else { '9' }, v.iter().map(|x| x.map_or('.', |d| (b'0' + d) as char)).collect::<String>())
}

fn explore(ctx: &mut Ctx) {
    // 1. matching logic on arbitrary vectors
    for (len, vals, n) in [
        (1usize, vec![None, Some(0), Some(1), Some(2)], 3usize),
        (2, vec![None, Some(0), Some(1)], 4),
        (3, vec![None, Some(0), Some(1)], ctx.pick(4, 4)),
        (4, vec![None, Some(0), Some(1)], ctx.pick(2, 3)),
    ] {
        let vs = vecs(len, &vals);
        for c in combos(vs.len(), 1, n) {
            let names: Vec<String> = c.iter().map(|i| name(0, &vs[*i])).collect();
            ctx.case(|| format!("leaves {:?}", names), |o| leaves(&names, &[], o));
            // a second leaf with the vector of the first
            let mut dup = names.clone();
            dup.push(name(1, &vs[c[0]]));
            ctx.case(|| format!("leaves {:?}", dup), |o| leaves(&dup, &[], o));
            if c.len() >= 2 {
                let ok = vs[c[0]].iter().zip(&vs[c[1]]).all(|(x, y)| x.is_none() || y.is_none() || x == y);
                if ok {
                    ctx.case(|| format!("leaves {:?} first two merged", dup), |o| leaves(&dup, &[(0, 1)], o));
                }
            }
        }
        // all at once
        let names: Vec<String> = vs.iter().map(|v| name(0, v)).collect();
        ctx.case(|| format!("all {} vectors of length {}", vs.len(), len), |o| leaves(&names, &[], o));
        let mut rev = names.clone();
        rev.reverse();
        ctx.case(|| format!("all {} vectors of length {}, reversed", vs.len(), len), |o| leaves(&rev, &[], o));
        for m in [3, 5, 8] {
            let some: Vec<String> = names.iter().step_by(m).cloned().collect();
            ctx.case(|| format!("every {}th vector of length {}", m, len), |o| leaves(&some, &[], o));
        }
    }
    // the deciding sample at any position of a long vector
    for len in [5usize, 8, 9, 16, 33, 100] {
        for p in 0..len {
            let mk = |d: Option<u8>, q: usize, base: Option<u8>| {
                let mut v = vec![base; len];
                v[q] = d;
                v
            };
            // names are limited to 24 characters: longer vectors go through FIN
            if len + 3 > 24 {
                break;
            }
            let cases: Vec<Vec<V>> = vec![
                vec![mk(Some(1), p, Some(0)), vec![Some(0); len]],
                vec![mk(Some(1), p, None), vec![Some(1); len]],
                vec![mk(Some(1), p, None), mk(Some(1), (p + 1) % len, None), mk(Some(0), p, Some(1))],
                vec![mk(None, p, Some(1)), vec![Some(1); len], mk(Some(0), p, Some(1))],
            ];
            for c in cases {
                let names: Vec<String> = c.iter().map(|v| name(0, v)).collect();
                ctx.case(|| format!("leaves {:?}", names), |o| leaves(&names, &[], o));
            }
        }
    }
    // 2. terms: representatives, shared generalisation, partial operators
    let pool: Vec<S> = ["a", "b", "0", "1", "(u10 a)", "(u1_ b)", "(u_0 a)", "(u__ a)", "(b0001 a b)", "(b0001 b a)", "(b0_11 a b)",
                        "(b0_11 b b)", "(u10 (u10 a))", "(b01_1 (u10 b) a)", "(b0001 a 0)", "(t00010011 a b a)", "(u11 b)"]
        .iter().map(|t| S::p(t)).collect();
    for c in combos(pool.len(), 1, ctx.pick(4, 5)) {
        let ts: Vec<S> = c.iter().map(|i| pool[*i].clone()).collect();
        ctx.case(|| format!("terms {:?}", strs(&ts)), |o| terms(&ts, &[], 0, o));
    }
    for (leaves, ops, n) in [
        (&["a", "b"][..], &[("u10", 1), ("b0001", 2)][..], 3usize),
        (&["a", "b", "0"], &[("u1_", 1), ("b0_11", 2)], 3),
        (&["a", "b", "c"], &[("b0111", 2)], 3),
        (&["a", "U"], &[("u__", 1), ("b01_1", 2)], 4),
        (&["a", "b", "c", "d", "e"], &[("u10", 1)], 3),
        (&["a"], &[("t00010011", 3), ("u0_", 1)], 5),
        (&["b", "a"], &[("b_001", 2), ("u01", 1)], 4),
    ] {
        let ts = terms_upto(leaves, ops, n);
        let mut rev = ts.clone();
        rev.reverse();
        for (name, t) in [("", ts.clone()), (" reversed", rev)] {
            ctx.case(|| format!("all {} terms over {:?} {:?}{}", t.len(), leaves, ops, name), |o| terms(&t, &[], 0, o));
        }
        for (r, k) in [("(b0001 ?x ?y) ==> (b0001 ?y ?x)", 1), ("(u10 (u10 ?x)) ==> ?x", 1), ("(u01 ?x) ==> ?x", 2),
                       ("(b0_11 ?x ?x) ==> ?x", 1), ("(u1_ (u1_ ?x)) ==> (u1_ (u1_ ?x))", 1), ("(b0111 ?x ?x) ==> ?x", 1)] {
            ctx.case(|| format!("all terms over {:?} {:?} after {}", leaves, ops, r), |o| terms(&ts, &[R::p(r)], k, o));
        }
    }
    // large and oddly shaped classes, long partial vectors
    for sh in mc::classes::shapes(ctx.quick()) {
        ctx.case(|| sh.name.clone(), |o| merged(&sh.terms, &sh.unions, o));
    }
}

fn main() {
    mc::main(
        Check {
            id: "C01",
            level: "exploration",
            rule: "every set of at most 3-4 vectors over {undefined,0,1(,2)} of length 1-4 as leaves (also with duplicates and \
                   merged classes), whole vector spaces at once, the deciding sample at every position of vectors up to length \
                   16; every set of at most 4 (thorough 5) of 17 terms over partial operators and 7 whole term spaces, also \
                   after compression; classes whose members disagree in size and depth, up to 40 (100) members or classes \
                   per vector, holes and conflicts at chosen samples of 2^5 (2^6). Candidates must be exactly those of the definition over every choice of smallest \
                   representatives. Outcome = candidate list.",
            assumptions: &[],
            ..Check::DEFAULT
        },
        explore,
    )
}
