//! Partitioning and derivability do not depend on the thread schedule.
use mc::dom::*;
use mc::refeg::*;
use mc::sched::*;
use mc::*;
use ruler::enumo::Ruleset;
use ruler::{DeriveType, Limits};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

/// Becomes false once the code under test turns out not to run its predicate
/// calls concurrently; schedules are then not imposed any more.
static CONTROL: AtomicBool = AtomicBool::new(true);

fn rules(n: usize) -> Vec<R> {
    (0..n)
        .map(|i| R::p(&format!("(op{} ?a) ==> (op{} (f ?a))", i, (i * 5 + 1) % n)))
        .collect()
}

fn partition_case(
    pool: &rayon::ThreadPool,
    n: usize,
    mask: usize,
    gates: usize,
    sched: &[usize],
    o: &mut Obs,
) -> Result<bool, String> {
    let rs = rules(n);
    let set: Ruleset<Free> = to_ruleset(&rs);
    let calls: Vec<AtomicUsize> = (0..n).map(|_| AtomicUsize::new(0)).collect();
    let sc = Sched::new();
    let control = CONTROL.load(Ordering::Relaxed);
    let idx = |r: &ruler::enumo::Rule<Free>| rs.iter().position(|x| *x == rule_of(r)).unwrap();
    let mut imposed = false;
    let (yes, no) = std::thread::scope(|s| {
        let h = s.spawn(|| {
            if control {
                sc.drive(n, sched, Duration::from_millis(1500))
            } else {
                sc.drive(0, &[], Duration::from_millis(1))
            }
        });
        let r = pool.install(|| {
            set.partition(|r| {
                let i = idx(r);
                for _ in 0..gates {
                    sc.yield_point(i);
                }
                calls[i].fetch_add(1, Ordering::SeqCst);
                mask >> i & 1 == 1
            })
        });
        imposed = h.join().unwrap() && control;
        r
    });
    if !imposed {
        CONTROL.store(false, Ordering::Relaxed);
    }
    o.trans(sched.len());
    o.state(&(n, mask, sched));
    for i in 0..n {
        if calls[i].load(Ordering::SeqCst) != 1 {
            return Err(format!("predicate evaluated {} times on {}", calls[i].load(Ordering::SeqCst), rs[i]));
        }
    }
    for (half, bit) in [(&yes, 1), (&no, 0)] {
        let want: Vec<R> = (0..n).filter(|i| mask >> i & 1 == bit).map(|i| rs[i].clone()).collect();
        let got = rules_of(half);
        if got != want {
            return Err(format!(
                "under schedule {:?} the {} half is {:?}",
                sched,
                if bit == 1 { "yes" } else { "no" },
                half.to_str_vec()
            ));
        }
    }
    Ok(imposed)
}

// ---- derive: yield points are the library's constructions of variable nodes
static CUR: Mutex<Option<Arc<Sched>>> = Mutex::new(None);
static COUNTS: Mutex<BTreeMap<usize, usize>> = Mutex::new(BTreeMap::new());

fn task_of(v: &str) -> Option<usize> {
    v.strip_prefix('r').and_then(|x| x[..x.len() - 1].parse().ok())
}
fn hook(v: &str) {
    if let Some(t) = task_of(v) {
        let s = CUR.lock().unwrap().clone();
        match s {
            Some(s) => s.yield_point(t),
            None => *COUNTS.lock().unwrap().entry(t).or_default() += 1,
        }
    }
}

fn derive_model(own: &[R], dt: DeriveType, r: &R, iters: usize) -> bool {
    let (l, rr) = (r.l.ground(), r.r.ground());
    let mut g = RefEg::new();
    g.add(&l);
    if let DeriveType::LhsAndRhs = dt {
        g.add(&rr);
    }
    g.run_saturating(own, iters).unwrap();
    let x = g.lookup(&l);
    x.is_some() && x == g.lookup(&rr)
}

fn explore(ctx: &mut Ctx) {
    let pool = rayon::ThreadPoolBuilder::new().num_threads(9).build().unwrap();
    let pref = &pool;
    let mut uncontrolled = 0u64;
    for (n, gates) in [(0usize, 1usize), (1, 2), (2, 3), (3, 2), (3, 3), (4, 2), (5, 1), (6, 1), (7, 1)] {
        if n == 7 && ctx.quick() {
            continue;
        }
        let scheds = interleavings(&vec![gates; n], usize::MAX);
        let masks: Vec<usize> = if n <= 3 {
            (0..1 << n).collect()
        } else {
            vec![0, (1 << n) - 1, 0b0110101 & ((1 << n) - 1), 0b1001010 & ((1 << n) - 1)]
        };
        for mask in masks {
            for sc in &scheds {
                ctx.case(
                    || format!("partition of {} rules, verdict mask {:b}, schedule {:?}", n, mask, sc),
                    |o| {
                        if !partition_case(pref, n, mask, gates, sc, o)? {
                            uncontrolled += 1;
                        }
                        Ok(())
                    },
                );
            }
        }
    }
    // larger sets: every pool size, no imposed schedule
    for n in [8usize, 9, 16, 33, 100, 257, 1000] {
        for threads in 1..=9usize {
            for seed in 0..ctx.pick(3u64, 20) {
                ctx.case(
                    || format!("partition of {} rules on {} threads, mask {}", n, threads, seed),
                    |o| {
                        let p = rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap();
                        let rs = rules(n);
                        let set: Ruleset<Free> = to_ruleset(&rs);
                        let pred = |r: &R| h64(&(r, seed)) % 3 != 0;
                        let calls = AtomicUsize::new(0);
                        let (y, no) = p.install(|| {
                            set.partition(|r| {
                                calls.fetch_add(1, Ordering::SeqCst);
                                pred(&rule_of(r))
                            })
                        });
                        o.state(&(n, threads, seed));
                        let (wy, wn): (Vec<R>, Vec<R>) = rs.iter().cloned().partition(|r| pred(r));
                        if rules_of(&y) != wy || rules_of(&no) != wn {
                            return Err("wrong halves".into());
                        }
                        if calls.load(Ordering::SeqCst) != n {
                            return Err(format!("{} predicate calls", calls.load(Ordering::SeqCst)));
                        }
                        Ok(())
                    },
                );
            }
        }
    }
    // derive
    let own: Vec<Vec<R>> = vec![
        vec![R::p("(f (f ?x)) ==> ?x"), R::p("(g ?x) ==> (f ?x)")],
        vec![R::p("(f ?x) ==> (g ?x)"), R::p("(g (g ?x)) ==> ?x"), R::p("(h ?x) ==> (g (f ?x))")],
    ];
    // rule i uses variable r<i>a so that its yield points identify it
    let against: Vec<(&str, &str)> = vec![
        ("(g (f ?V))", "?V"),
        ("(h ?V)", "(k ?V)"),
        ("(f (f (f ?V)))", "(f ?V)"),
        ("(h ?V)", "?V"),
    ];
    for (oi, own) in own.iter().enumerate() {
        for n in [2usize, 3] {
            for rot in 0..against.len() {
                for dt in [DeriveType::Lhs, DeriveType::LhsAndRhs] {
                    let ag: Vec<R> = (0..n)
                        .map(|i| {
                            let (l, r) = against[(i + rot) % against.len()];
                            let v = format!("?r{}a", i);
                            R::new(S::p(&l.replace("?V", &v)), S::p(&r.replace("?V", &v)))
                        })
                        .collect();
                    let limits = Limits { iter: 1, node: 100_000, match_: 100_000 };
                    let want: Vec<bool> = ag.iter().map(|r| derive_model(own, dt, r, 1)).collect();
                    // measure the number of yield points per rule on a free run
                    let ownset: Ruleset<Free> = to_ruleset(own);
                    let agset: Ruleset<Free> = to_ruleset(&ag);
                    *MKVAR_HOOK.lock().unwrap() = Some(hook);
                    COUNTS.lock().unwrap().clear();
                    *CUR.lock().unwrap() = None;
                    MKVAR_ON.store(true, Ordering::Relaxed);
                    let _ = guard(|| ownset.derive(dt, &agset, limits));
                    MKVAR_ON.store(false, Ordering::Relaxed);
                    let counts: Vec<usize> = (0..n)
                        .map(|i| COUNTS.lock().unwrap().get(&i).copied().unwrap_or(0))
                        .collect();
                    let scheds = interleavings(&counts, ctx.pick(1, 2));
                    let scheds: Vec<_> = scheds.into_iter().take(20_000).collect();
                    for sc in scheds {
                        ctx.case(
                            || format!("derive #{} {:?} {:?} schedule {:?}", oi, dt, ag.iter().map(|r| r.to_string()).collect::<Vec<_>>(), sc),
                            |o| {
                                let s = Arc::new(Sched::new());
                                let control = CONTROL.load(Ordering::Relaxed) && counts.iter().all(|c| *c > 0);
                                *CUR.lock().unwrap() = Some(s.clone());
                                MKVAR_ON.store(true, Ordering::Relaxed);
                                let res = std::thread::scope(|t| {
                                    let h = t.spawn(|| {
                                        if control {
                                            s.drive(n, &sc, Duration::from_millis(1500))
                                        } else {
                                            s.drive(0, &[], Duration::from_millis(1))
                                        }
                                    });
                                    let r = guard(|| pref.install(|| ownset.derive(dt, &agset, limits)));
                                    if !h.join().unwrap() {
                                        CONTROL.store(false, Ordering::Relaxed);
                                    }
                                    r
                                });
                                MKVAR_ON.store(false, Ordering::Relaxed);
                                *CUR.lock().unwrap() = None;
                                if !(CONTROL.load(Ordering::Relaxed) && control) {
                                    uncontrolled += 1;
                                }
                                let (can, cannot) = res?;
                                o.trans(sc.len());
                                o.state(&(oi, n, rot, &sc));
                                for (half, bit) in [(&can, true), (&cannot, false)] {
                                    let w: Vec<R> = ag.iter().zip(&want).filter(|(_, b)| **b == bit).map(|(r, _)| r.clone()).collect();
                                    if rules_of(half) != w {
                                        return Err(format!("derivable = {}: {:?}", bit, half.to_str_vec()));
                                    }
                                }
                                Ok(())
                            },
                        );
                    }
                }
            }
        }
    }
    ctx.count("schedules not imposed (code did not stop at the expected points)", uncontrolled);
}

fn main() {
    mc::main(
        Check {
            id: "R03",
            level: "model_checking",
            rule: "partition: every interleaving of the predicate calls of n rules with g yield points \
                   each, (n,g) in (1,2),(2,3),(3,3),(4,2),(5,1),(6,1) (thorough also (7,1)), imposed on \
                   the real thread pool by a controlled scheduler, times verdict masks; derive: every \
                   interleaving of 2 and 3 concurrent derivability queries with at most 1 (thorough 2) \
                   preemptions, yield points being the domain callbacks. State = (input, schedule); \
                   transition = one granted step.",
            assumptions: &["code between two yield points runs without interference"],
            single_thread: false,
            ..Check::DEFAULT
        },
        explore,
    )
}
