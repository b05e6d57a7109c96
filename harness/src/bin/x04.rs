//! Rule inference gives the same rules on every run.
use mc::bvs::*;
use mc::dom::*;
use mc::eqs::*;
use mc::wl::*;
use mc::*;
use ruler::enumo::{Filter, Metric, Ruleset, Workload};
use ruler::recipe_utils::*;
use ruler::{DeriveType, SynthLanguage};

#[derive(Clone, Debug)]
enum Job {
    Infer(Vec<S>, Vec<R>, bool, usize),
    Recursive(Vec<Vec<&'static str>>, usize),
    Forward(Vec<S>, Vec<R>, Vec<R>),
    Derive(Vec<R>, Vec<R>, bool),
    Bv(usize, usize),
    Terms(usize, usize),
}

fn bv<L: SynthLanguage>(size: usize) -> Vec<String> {
    let w = iter_metric(base_lang(2), "EXPR", Metric::Atoms, size)
        .filter(Filter::Contains("VAR".parse().unwrap()))
        .plug("VAR", &Workload::new(["a", "b"]))
        .plug("VAL", &Workload::new(["0", "1"]))
        .plug("OP1", &Workload::new(["~", "-"]))
        .plug("OP2", &Workload::new(["&", "+", "<<"]));
    run_workload::<L>(w, Ruleset::default(), unlimited(2), unlimited(2), true).to_str_vec()
}

fn wl(ts: &[S]) -> Workload {
    let t = strs(ts);
    Workload::new(t.iter().map(|x| x.as_str()).collect::<Vec<_>>())
}

fn run(j: &Job) -> Vec<String> {
    let go = || match j {
        Job::Infer(ts, p, fast, k) => run_workload::<Fin>(wl(ts), to_ruleset(p), unlimited(*k), unlimited(*k), *fast).to_str_vec(),
        Job::Recursive(ops, n) => {
            let l = Lang::new(&["0", "1"], &["a", "b"], &ops.iter().map(|x| &x[..]).collect::<Vec<_>>());
            recursive_rules::<Fin>(Metric::Atoms, *n, l, Ruleset::default()).to_str_vec()
        }
        Job::Forward(ts, p, e) => {
            *EXPLORATORY.lock().unwrap() = strs(e);
            run_fast_forwarding::<Free>(wl(ts), to_ruleset(p), unlimited(2), unlimited(2)).to_str_vec()
        }
        Job::Derive(own, ag, both) => {
            let d = if *both { DeriveType::LhsAndRhs } else { DeriveType::Lhs };
            let (a, b) = to_ruleset::<Free>(own).derive(d, &to_ruleset(ag), unlimited(3));
            let mut v = a.to_str_vec();
            v.push("--".into());
            v.extend(b.to_str_vec());
            v
        }
        Job::Bv(i, n) => match i {
            0 => bv::<bv2::Bv>(*n),
            1 => bv::<bv4::Bv>(*n),
            _ => bv::<bv8::Bv>(*n),
        },
        Job::Terms(k, n) => {
            let w = iter_metric(base_lang(*k), "EXPR", METRICS[*n % 3].real(), 2 + *n / 3);
            strs(&forced(&w.plug("VAR", &Workload::new(["a", "b"]))))
        }
    };
    match guard(go) {
        Ok(x) => x,
        Err(e) => vec![e],
    }
}

fn jobs(thorough: bool) -> Vec<Job> {
    let mut out = vec![];
    for k in 1..=3 {
        for n in 0..=if k < 3 { 5 } else { 3 } {
            out.push(Job::Terms(k, n));
        }
    }
    let bins = ["b0001", "b0110", "b0111", "b1101", "b01_1", "b0011", "b1000"];
    let uns = ["u10", "u1_", "u00"];
    for b in bins {
        for u in uns {
            let ts = terms_upto(&["a", "b", "0"], &[(b, 2), (u, 1)], 3);
            for fast in [true, false] {
                out.push(Job::Infer(ts.clone(), vec![], fast, 2));
                let comm = R::p(&format!("({} ?x ?y) ==> ({} ?y ?x)", b, b));
                if fin_equiv(&comm.l.ground(), &comm.r.ground()) {
                    out.push(Job::Infer(ts.clone(), vec![comm], fast, 1));
                }
            }
            out.push(Job::Recursive(vec![vec![u], vec![b]], 4));
        }
        out.push(Job::Infer(terms_upto(&["a", "b", "c"], &[(b, 2)], 3), vec![], true, 3));
    }
    // candidates in several value groups that nothing but their order tells apart
    for ops in [&[("b0001", 2), ("b1000", 2)][..], &[("b0110", 2), ("b1001", 2)], &[("b0001", 2), ("b1110", 2), ("b_110", 2)], &[("b0111", 2), ("b1101", 2), ("b_001", 2), ("b1_11", 2)],
                &[("u10", 1), ("u1_", 1), ("u_0", 1), ("u01", 1)]] {
        for leaves in [&["a", "b"][..], &["a", "b", "c"], &["a", "0", "1"]] {
            for n in [2, 3] {
                let ts = terms_upto(leaves, ops, n);
                for fast in [true, false] {
                    out.push(Job::Infer(ts.clone(), vec![], fast, 2));
                    out.push(Job::Infer(ts.iter().rev().cloned().collect(), vec![], fast, 2));
                }
            }
        }
    }
    let expl: Vec<R> = ["(f ?x) ==> (_h ?x)", "(g ?x ?y) ==> (_k ?x ?y)", "(_k ?x ?y) ==> (_k ?y ?x)", "(g ?x ?x) ==> (_h ?x)", "0 ==> _c"].iter().map(|t| R::p(t)).collect();
    let prior: Vec<R> = ["(_h (_h ?x)) ==> ?x", "(_k ?x _c) ==> ?x", "(f (f ?x)) ==> ?x", "(_k (_h ?x) ?y) ==> (_h (_k ?x ?y))"].iter().map(|t| R::p(t)).collect();
    let ts = terms_upto(&["a", "b", "0"], &[("f", 1), ("g", 2)], 3);
    for e in combos(expl.len(), 1, 3) {
        for p in combos(prior.len(), 0, 2) {
            out.push(Job::Forward(ts.clone(), p.iter().map(|i| prior[*i].clone()).collect(), e.iter().map(|i| expl[*i].clone()).collect()));
        }
    }
    let rules: Vec<R> = ["(g ?x ?y) ==> (g ?y ?x)", "(f (f ?x)) ==> ?x", "(g ?x ?x) ==> (f ?x)", "(h ?x 0) ==> ?x", "(g (g ?x ?y) ?z) ==> (g ?x (g ?y ?z))"].iter().map(|t| R::p(t)).collect();
    let pats = terms_upto(&["?x", "?y", "0"], &[("f", 1), ("g", 2)], 3);
    let ag: Vec<R> = pats.iter().flat_map(|l| pats.iter().map(move |r| R::new(l.clone(), r.clone()))).filter(|r| r.bound() && r.l != r.r).collect();
    for c in combos(rules.len(), 1, 2) {
        for both in [false, true] {
            out.push(Job::Derive(c.iter().map(|i| rules[*i].clone()).collect(), ag.clone(), both));
        }
    }
    for i in 0..3 {
        out.push(Job::Bv(i, 3));
    }
    if thorough {
        for i in 0..3 {
            out.push(Job::Bv(i, 4));
        }
        for b in bins {
            out.push(Job::Infer(terms_upto(&["a", "b", "0", "1"], &[(b, 2), ("u10", 1)], 4), vec![], true, 2));
            out.push(Job::Recursive(vec![vec!["u10"], vec![b]], 5));
        }
    }
    out
}

fn in_pool(n: usize, j: &Job) -> Vec<String> {
    let pool = rayon::ThreadPoolBuilder::new().num_threads(n).stack_size(64 << 20).build().unwrap();
    pool.install(|| run(j))
}

fn explore(ctx: &mut Ctx) {
    let js = jobs(!ctx.quick());
    for (i, j) in js.iter().enumerate() {
        let thorough = !ctx.quick();
        ctx.case(
            || format!("{:?}", j).chars().take(400).collect(),
            |o| {
                let first = in_pool(1, j);
                o.outcome(&first);
                o.state(&first);
                o.show(format!("{} results", first.len()));
                if first.len() == 1 && first[0].contains("panicked") && !first[0].contains("Didn't learn") {
                    return Err(first[0].clone());
                }
                // other jobs in between change the process's history
                let _ = in_pool(2, &js[(i * 13 + 5) % js.len()]);
                for n in [1, 2, 3, 8] {
                    let again = in_pool(n, j);
                    o.trans(1);
                    if again != first {
                        return Err(format!("with {} threads, second run: {:?}; first run: {:?}", n, again, first));
                    }
                }
                o.traces(6);
                // a process of its own
                let out = std::process::Command::new(std::env::current_exe().unwrap())
                    .args(["--child", if thorough { "1" } else { "0" }, &i.to_string()])
                    .output()
                    .map_err(|e| e.to_string())?;
                let text = String::from_utf8_lossy(&out.stderr).to_string();
                let other: Vec<String> = text.lines().filter_map(|l| l.strip_prefix("RESULT ")).map(|x| x.to_string()).collect();
                let flat: Vec<String> = first.iter().flat_map(|x| x.lines()).map(|x| x.to_string()).collect();
                let otherflat: Vec<String> = other;
                if flat != otherflat && !(flat.len() > 0 && flat[0].contains("panicked")) {
                    return Err(format!("in another process: {:?}; first run: {:?}", otherflat, flat));
                }
                Ok(())
            },
        );
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() == 4 && args[1] == "--child" {
        let js = jobs(args[2] == "1");
        let j = js[args[3].parse::<usize>().unwrap()].clone();
        let r = std::thread::Builder::new().stack_size(256 << 20).spawn(move || run(&j)).unwrap().join().unwrap();
        for x in r.iter().flat_map(|x| x.lines()) {
            eprintln!("RESULT {}", x);
        }
        return;
    }
    mc::main(
        Check {
            id: "X04",
            level: "exploration",
            rule: "about 300 inference jobs (full, fast, recursive, fast-forwarding, derivation, bit-vectors, term enumeration); \
                   each is run on 1, 2, 3 and 8 threads, after unrelated jobs in the same process, and in a process of its own; \
                   all runs must give the same rules in the same order. Outcome = result.",
            assumptions: &["thread schedules inside one pool are those the machine produces; R03 explores them exhaustively for the only parallel operation"],
            single_thread: false,
            ..Check::DEFAULT
        },
        explore,
    )
}
