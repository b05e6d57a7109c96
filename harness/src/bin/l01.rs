//! The experiment log is append-only and its rows say what happened.
use mc::dom::*;
use mc::eqs::*;
use mc::*;
use ruler::enumo::{Ruleset, Scheduler};
use ruler::{logger, Limits, Phase};
use serde_json::{json, Value};
use std::path::{Path, PathBuf};
use std::time::Duration;

#[derive(Clone, Debug)]
enum Op {
    /// ruleset, spec name, baseline, baseline name, milliseconds
    Baseline(Vec<R>, &'static str, Vec<R>, &'static str, u64),
    /// domain, generated, ported, rejected by the validator
    Bv(&'static str, Vec<R>, Vec<R>, Vec<R>, u64),
    /// (scheduler, name) of each phase, rules
    Ff([(u8, &'static str); 3], Vec<R>, u64),
}

fn dname(both: bool) -> &'static str {
    if both {
        "LhsAndRhs"
    } else {
        "Lhs"
    }
}

/// what a derivability entry must say
fn deriv(own: &[R], against: &[R], both: bool, typed: bool) -> Result<Value, Blowup2> {
    let mut can = vec![];
    let mut cannot = vec![];
    for r in against {
        if model(own, both, r, Limits::deriving().iter).map_err(|_| Blowup2)?.0 {
            can.push(r.to_string());
        } else {
            cannot.push(r.to_string());
        }
    }
    Ok(if typed {
        json!({"derive_type": dname(both), "can": can, "cannot": cannot, "time": "T"})
    } else {
        json!({"can": can, "cannot": cannot, "time": "T"})
    })
}

#[derive(Debug)]
struct Blowup2;

fn expected(op: &Op, loc: &dyn Fn(&str) -> String) -> Result<Value, Blowup2> {
    Ok(match op {
        Op::Baseline(rs, spec, base, bname, ms) => {
            let skip = |a: &str, b: &str| a == "herbie" && (b == "rational_replicate" || b == "rational_best");
            let d = |own: &[R], ag: &[R]| -> Result<Value, Blowup2> {
                Ok(json!({"lhs": deriv(own, ag, false, true)?, "lhs_rhs": deriv(own, ag, true, true)?}))
            };
            json!({
                "TYPE": "baseline", "spec_name": spec, "baseline_name": bname, "loc": loc(spec), "rules": strs(rs),
                "time": *ms as f64 / 1000.0,
                "derivability": {
                    "enumo_derives_baseline": if skip(spec, bname) { json!({}) } else { d(rs, base)? },
                    "baseline_derives_enumo": if skip(bname, spec) { json!({}) } else { d(base, rs)? },
                }
            })
        }
        Op::Bv(domain, gen, ported, bad, ms) => {
            let sound: Vec<R> = ported.iter().filter(|r| !bad.contains(r)).cloned().collect();
            json!({
                "TYPE": "bv", "domain": domain,
                "direct_gen": {"rules": strs(gen), "time": *ms as f64 / 1000.0},
                "from_bv4": {"rules": strs(&sound), "time": "T"},
                "derivability": {"lhs": deriv(&sound, gen, false, false)?, "lhs_rhs": deriv(&sound, gen, true, false)?}
            })
        }
        Op::Ff(ph, rs, ms) => {
            let name = |p: &(u8, &str)| format!("{} ({})", ["eqsat", "sat", "compress"][p.0 as usize], p.1);
            json!({"TYPE": "ff_phases", "phase1": name(&ph[0]), "phase2": name(&ph[1]), "phase3": name(&ph[2]),
                   "time": *ms as f64 / 1000.0, "rules": strs(rs)})
        }
    })
}

fn perform(op: &Op) {
    match op {
        Op::Baseline(rs, spec, base, bname, ms) => {
            logger::write_baseline::<Free>(&to_ruleset(rs), spec, &to_ruleset(base), bname, Duration::from_millis(*ms))
        }
        Op::Bv(domain, gen, ported, bad, ms) => {
            {
                let mut v = VERDICTS.lock().unwrap();
                v.clear();
                v.insert("(none) ==> (none)".into(), 0);
                for (i, b) in bad.iter().enumerate() {
                    v.insert(b.alpha().to_string(), 1 + (i % 2) as u8);
                }
            }
            logger::write_bv_derivability::<Free>(domain, to_ruleset(gen), Duration::from_millis(*ms), to_ruleset(ported));
            VERDICTS.lock().unwrap().clear();
        }
        Op::Ff(ph, rs, ms) => {
            let phase = |p: &(u8, &'static str)| Phase::<Free> {
                rules: to_ruleset(rs),
                rules_name: p.1.to_string(),
                scheduler: [Scheduler::Simple(unlimited(1)), Scheduler::Saturating(unlimited(2)), Scheduler::Compress(unlimited(3))][p.0 as usize],
            };
            logger::write_ff_phase(phase(&ph[0]), phase(&ph[1]), phase(&ph[2]), Duration::from_millis(*ms), &to_ruleset::<Free>(rs))
        }
    }
}

/// Equal, where "T" stands for any non-negative number.
fn agrees(want: &Value, got: &Value, at: &str) -> Result<(), String> {
    match (want, got) {
        (Value::String(t), Value::Number(n)) if t == "T" => {
            if n.as_f64().map_or(false, |x| x >= 0.0) {
                Ok(())
            } else {
                Err(format!("{}: {} is not a duration", at, n))
            }
        }
        (Value::Object(a), Value::Object(b)) => {
            for (k, v) in a {
                match b.get(k) {
                    Some(w) => agrees(v, w, &format!("{}.{}", at, k))?,
                    None => return Err(format!("{}: no field {}", at, k)),
                }
            }
            for k in b.keys() {
                if !a.contains_key(k) {
                    return Err(format!("{}: unexpected field {}", at, k));
                }
            }
            Ok(())
        }
        (Value::Array(a), Value::Array(b)) if a.len() == b.len() => {
            for (i, (x, y)) in a.iter().zip(b).enumerate() {
                agrees(x, y, &format!("{}[{}]", at, i))?;
            }
            Ok(())
        }
        (Value::Number(a), Value::Number(b)) if a.as_f64() == b.as_f64() => Ok(()),
        _ if want == got => Ok(()),
        _ => Err(format!("{}: {} where {} is expected", at, got, want)),
    }
}

struct Dir(PathBuf);
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::env::set_current_dir("/");
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn read(p: &Path) -> Result<Vec<Value>, String> {
    let s = std::fs::read_to_string(p).map_err(|e| format!("output.json: {}", e))?;
    serde_json::from_str(&s).map_err(|e| format!("output.json is not an array of rows: {}", e))
}

/// A source text of n lines: blank lines, CRLF, an unterminated last line
fn source(n: usize) -> String {
    let mut t: String = (0..n)
        .map(|i| match (n + i) % 5 {
            0 => "\n",
            1 => "// line\r\n",
            2 => "    \n",
            3 => "\tlet x = \"a\\nb\";\n",
            _ => "}\n",
        })
        .collect();
    if n % 3 == 2 && t.ends_with("}\n") {
        t.pop();
    }
    t
}

/// A file that is not an array of rows is left alone, and the next call works.
fn refused(bad: &str, op: &Op, thread: bool, o: &mut Obs) -> Result<(), String> {
    let d = Dir(scratch_root().join("l01"));
    std::fs::create_dir_all(d.0.join("nightly/data")).unwrap();
    std::env::set_current_dir(&d.0).unwrap();
    let file = d.0.join("nightly/data/output.json");
    std::fs::write(&file, bad).unwrap();
    if thread {
        let op = op.clone();
        let _ = std::thread::Builder::new().stack_size(64 << 20).spawn(move || guard(|| perform(&op))).unwrap().join();
    } else {
        let _ = guard(|| perform(op));
    }
    let now = std::fs::read_to_string(&file).map_err(|e| e.to_string())?;
    if now != bad {
        return Err(format!("the file contained {:?} and was replaced by {:?}", bad, now));
    }
    std::fs::write(&file, "[7]").unwrap();
    guard(|| perform(op)).map_err(|e| format!("after an earlier failure: {}", e))?;
    let rows = read(&file)?;
    if rows.len() != 2 || rows[0] != json!(7) {
        return Err(format!("after an earlier failure: {} rows", rows.len()));
    }
    o.state(&(bad, thread));
    o.trans(2);
    Ok(())
}

/// initial: None: no directory; Some(text): file contents
fn one(initial: Option<&str>, locs: &[(&str, usize)], ops: &[&Op], o: &mut Obs) -> Result<(), String> {
    let d = Dir(scratch_root().join("l01"));
    std::fs::create_dir_all(&d.0).unwrap();
    std::env::set_current_dir(&d.0).unwrap();
    let file = d.0.join("nightly/data/output.json");
    let mut model: Vec<Value> = vec![];
    if let Some(t) = initial {
        std::fs::create_dir_all(file.parent().unwrap()).unwrap();
        std::fs::write(&file, t).unwrap();
        if !t.is_empty() {
            model = serde_json::from_str(t).unwrap();
        }
    }
    std::fs::create_dir_all(d.0.join("tests/recipes")).unwrap();
    for (n, k) in locs {
        std::fs::write(d.0.join(format!("tests/recipes/{}.rs", n)), source(*k)).unwrap();
    }
    let loc = |n: &str| locs.iter().find(|x| x.0 == n).map_or("-".to_string(), |x| x.1.to_string());
    for op in ops {
        let want = match expected(op, &loc) {
            Ok(w) => w,
            Err(_) => return Ok(()),
        };
        guard(|| perform(op)).map_err(|e| format!("logging {:?}: {}", op, e))?;
        let rows = read(&file)?;
        if rows.len() != model.len() + 1 {
            return Err(format!("{} rows after adding one to {}", rows.len(), model.len()));
        }
        for (i, m) in model.iter().enumerate() {
            if rows[i] != *m {
                return Err(format!("row {} changed from {} to {}", i, m, rows[i]));
            }
        }
        agrees(&want, &rows[model.len()], "row")?;
        model.push(rows[model.len()].clone());
        o.state(&strs(&model.iter().map(|v| v.to_string().len()).collect::<Vec<_>>()));
        o.state(&want.to_string());
        o.trans(1);
    }
    o.show(format!("{} rows", model.len()));
    Ok(())
}

fn explore(ctx: &mut Ctx) {
    let p = |xs: &[&str]| -> Vec<R> { xs.iter().map(|t| R::p(t)).collect() };
    let r0 = p(&[]);
    let r1 = p(&["(g ?x ?y) ==> (g ?y ?x)"]);
    let r2 = p(&["(f (f ?x)) ==> ?x", "(g ?x ?x) ==> (f ?x)", "(g (f (f ?x)) ?y) ==> (g ?y ?x)"]);
    let r3 = p(&["(f (f (f ?x))) ==> (f ?x)", "(g ?y ?x) ==> (g ?x ?y)", "?x ==> (f (f ?x))", "(g ?x (g ?x ?x)) ==> (g (f ?x) ?x)"]);
    let sets = [&r0, &r1, &r2, &r3];
    let mut ops: Vec<Op> = vec![];
    let names = [("nat", "oldnat"), ("herbie", "rational_best"), ("herbie", "rational_replicate"), ("rational_best", "herbie"),
                 ("rational_replicate", "herbie"), ("herbie", "herbie"), ("rational", "rational_best"), ("quote\"d\\name", "näme\n")];
    for (i, (s, b)) in names.iter().enumerate() {
        for (j, x) in sets.iter().enumerate() {
            for (k, y) in sets.iter().enumerate() {
                if i < 4 || (i + j + k) % 3 == 0 {
                    ops.push(Op::Baseline((*x).clone(), s, (*y).clone(), b, (i * 1000 + j * 7 + k) as u64));
                }
            }
        }
    }
    for x in sets {
        for y in sets {
            for bad in std::iter::once(vec![]).chain(y.iter().map(|r| vec![r.clone()])).chain(std::iter::once(y.clone())) {
                ops.push(Op::Bv("bv8", x.clone(), y.clone(), bad, 12));
            }
        }
    }
    for i in 0..27u8 {
        let ph = [(i % 3, "allowed"), (i / 3 % 3, "exploratory"), (i / 9, "all (\"rules\")")];
        ops.push(Op::Ff(ph, sets[i as usize % 4].clone(), i as u64 * 100));
    }
    let inits: Vec<Option<String>> = vec![
        None,
        Some("".into()),
        Some("[]".into()),
        Some("[{\"TYPE\":\"bv\",\"z\":1,\"a\":[1.5,null,{\"k\":\"v\"}],\"n\":12345678901234567890,\"s\":\"\\u00e9\\n\\\"\"},[],null,3]".into()),
        Some(format!("[{}]", (0..300).map(|i| format!("{{\"row\":{},\"text\":\"{}\"}}", i, "x".repeat(i))).collect::<Vec<_>>().join(" ,\n"))),
    ];
    let locs: Vec<Vec<(&str, usize)>> = vec![vec![], vec![("nat", 17), ("herbie", 0)], vec![("rational", 1), ("nat", 300), ("oldnat", 5)]];
    // every operation on every initial state
    for op in &ops {
        for (i, init) in inits.iter().enumerate() {
            for (j, l) in locs.iter().enumerate() {
                ctx.case(
                    || format!("initial state {}, recipes {}, {:?}", i, j, op),
                    |o| one(init.as_deref(), l, &[op], o),
                );
            }
        }
    }
    // histories
    let pick: Vec<&Op> = ops.iter().step_by(ops.len() / 7).collect();
    for k in 2..=ctx.pick(3, 4) {
        for s in seqs(pick.len(), k) {
            let h: Vec<&Op> = s.iter().map(|i| pick[*i]).collect();
            for (i, init) in inits.iter().enumerate().take(4) {
                if i != 0 && (s.iter().sum::<usize>() + i) % 3 != 0 {
                    continue;
                }
                ctx.case(
                    || format!("initial state {}, history {:?}", i, s),
                    |o| one(init.as_deref(), &locs[1], &h, o),
                );
            }
        }
    }
    for bad in ["{", "[1,", "no rows", "{}", "[] x", "null", "\"text\"", "[{\"TYPE\":\"bv\"}", "[1]]", "// rows\n[]"] {
        for op in &pick {
            for thread in [false, true] {
                ctx.case(|| format!("file contains {:?}, other thread {}, {:?}", bad, thread, op), |o| refused(bad, op, thread, o));
            }
        }
    }
    // long rulesets
    let most = ctx.pick(130, 260);
    for n in sizes().into_iter().filter(|n| *n <= most) {
        let rs = |from: usize, to: usize| -> Vec<R> { (from..to).map(|i| R::p(&format!("(f{} ?x) ==> (h{} ?x)", i, i))).collect() };
        for (k, op) in [
            Op::Baseline(rs(0, n), "nat", rs(n, 2 * n), "oldnat", 5),
            Op::Baseline(rs(0, n), "herbie", rs(n / 2, n + n / 3), "rational_best", 5),
            Op::Bv("bv128", rs(0, n), rs(n / 3, n), rs(n / 2, n), 5),
            Op::Bv("bv128", rs(0, n), vec![], vec![], 5),
            Op::Ff([(0, "allowed"), (1, "exploratory"), (2, "all")], rs(0, n), 5),
        ]
        .into_iter()
        .enumerate()
        {
            ctx.case(|| format!("row {} over {} rules", k, n), |o| one(None, &[("nat", n), ("herbie", 2 * n)], &[&op], o));
        }
    }
    for n in [20usize, 60] {
        let h: Vec<&Op> = (0..n).map(|i| &ops[(i * 31) % ops.len()]).collect();
        ctx.case(|| format!("{} rows", n), |o| one(None, &locs[2], &h, o));
    }
}

fn main() {
    mc::main(
        Check {
            id: "L01",
            level: "model_checking",
            rule: "about 180 logging operations (baseline rows incl. the skip list, bit-vector rows with rejected rules, all 27 \
                   phase combinations) on each of 5 initial states and 3 sets of recipe files, and every history of 2-3 (thorough \
                   4) of 8 operations; after each call the file is the previous rows plus one row whose derivability is recomputed \
                   by a reference saturation; rows over up to 130 (260) rules; files that are not arrays of rows are left alone and the next call works. State = log contents; transition = one call.",
            assumptions: &["durations are only required to be non-negative numbers"],
            ..Check::DEFAULT
        },
        explore,
    )
}
