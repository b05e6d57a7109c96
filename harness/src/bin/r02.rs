//! Rulesets as ordered sets: every operation history against the model.
use mc::capture::stdout_of;
use mc::dom::*;
use mc::*;
use ruler::enumo::{Rule, Ruleset};
use std::collections::BTreeSet;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Add(usize),
    AddAll(usize),
    Extend(usize),
    Union(usize),
    UnionInto(usize),
    Remove(usize),
    Part(usize, bool),
}

#[derive(Clone, Debug)]
struct Model {
    rules: Vec<R>,
    /// insertion order is still determined (no removal of an inner rule yet)
    ordered: bool,
}
impl Model {
    fn add(&mut self, r: &R) {
        if !self.rules.contains(r) {
            self.rules.push(r.clone());
        }
    }
}

fn preds() -> Vec<fn(&R) -> bool> {
    vec![
        |_| true,
        |_| false,
        |r| r.l.size() > r.r.size(),
        |r| r.l.to_string().contains("g"),
    ]
}

fn observe(rs: &Ruleset<Free>, m: &Model, all: &[R], o: &mut Obs) -> Result<(), String> {
    let got: Vec<R> = rules_of(rs);
    let (gs, ms): (BTreeSet<&R>, BTreeSet<&R>) = (got.iter().collect(), m.rules.iter().collect());
    o.state(&m.rules);
    if gs != ms || got.len() != m.rules.len() {
        return Err(format!("holds {:?}, expected {:?}", names(&got), names(&m.rules)));
    }
    if m.ordered && got != m.rules {
        return Err(format!("order {:?}, expected {:?}", names(&got), names(&m.rules)));
    }
    if rs.len() != m.rules.len() || rs.is_empty() != m.rules.is_empty() {
        return Err("len/is_empty".into());
    }
    if rs.to_str_vec() != names(&got) {
        return Err(format!("to_str_vec gives {:?}", rs.to_str_vec()));
    }
    for r in all {
        let x = to_ruleset::<Free>(&[r.clone()]);
        if rs.contains(x.iter().next().unwrap()) != m.rules.contains(r) {
            return Err(format!("contains({}) is wrong", r));
        }
    }
    // the rule stored under a name is that rule
    for (n, r) in rs {
        if **n != *r.name || **n != rule_of(r).to_string() {
            return Err(format!("{} stored under {}", r, n));
        }
    }
    // bidirectional length: a rule and its reverse count once
    let pairs = m
        .rules
        .iter()
        .filter(|r| r.rev().bound() && m.rules.contains(&r.rev()))
        .count();
    if rs.bidir_len() != m.rules.len() - pairs / 2 {
        return Err(format!("bidir_len {} for {:?}", rs.bidir_len(), names(&got)));
    }
    // the printed form lists every rule, a reversible pair once
    let ((), txt) = stdout_of(|| rs.pretty_print());
    let lines: Vec<&str> = txt.lines().filter(|l| !l.trim().is_empty()).collect();
    if lines.len() != rs.bidir_len() {
        return Err(format!("printed {} lines for {} bidirectional rules:\n{}", lines.len(), rs.bidir_len(), txt));
    }
    let back: Ruleset<Free> = Ruleset::new(lines.iter());
    let bs: Vec<R> = rules_of(&back);
    if bs.iter().collect::<BTreeSet<_>>() != ms {
        return Err(format!("printed as\n{}which denotes {:?}, expected {:?}", txt, names(&bs), names(&m.rules)));
    }
    Ok(())
}

fn names(rs: &[R]) -> Vec<String> {
    rs.iter().map(|r| r.to_string()).collect()
}

fn run(
    start: &[R],
    hist: &[Op],
    rules: &[R],
    sets: &[Vec<R>],
    o: &mut Obs,
) -> Result<(), String> {
    let ps = preds();
    let mut rs: Ruleset<Free> = to_ruleset(start);
    let mut m = Model { rules: vec![], ordered: true };
    for r in start {
        m.add(r);
    }
    let mk = |r: &R| -> Rule<Free> { to_ruleset::<Free>(&[r.clone()]).iter().next().unwrap().clone() };
    for op in hist {
        o.trans(1);
        match *op {
            Op::Add(i) => {
                rs.add(mk(&rules[i]));
                m.add(&rules[i]);
            }
            Op::AddAll(i) => {
                let x: Vec<Rule<Free>> = sets[i].iter().map(mk).collect();
                rs.add_all(x.iter().collect());
                sets[i].iter().for_each(|r| m.add(r));
            }
            Op::Extend(i) => {
                rs.extend(to_ruleset(&sets[i]));
                sets[i].iter().for_each(|r| m.add(r));
            }
            Op::Union(i) => {
                let other: Ruleset<Free> = to_ruleset(&sets[i]);
                let before = rs.clone();
                let u = rs.union(&other);
                if rs != before || rules_of(&other).len() != to_ruleset::<Free>(&sets[i]).len() {
                    return Err("union changed an operand".into());
                }
                rs = u;
                sets[i].iter().for_each(|r| m.add(r));
            }
            Op::UnionInto(i) => {
                let other: Ruleset<Free> = to_ruleset(&sets[i]);
                rs = other.union(&rs);
                let mut m2 = Model { rules: vec![], ordered: m.ordered };
                sets[i].iter().for_each(|r| m2.add(r));
                m.rules.iter().for_each(|r| m2.add(r));
                m = m2;
            }
            Op::Remove(i) => {
                rs.remove_all(to_ruleset(&sets[i]));
                let n = m.rules.len();
                m.rules.retain(|r| !sets[i].contains(r));
                if m.rules.len() != n {
                    m.ordered = false;
                }
            }
            Op::Part(i, keep) => {
                let p = ps[i];
                let (y, n) = rs.partition(|r| p(&rule_of(r)));
                // both halves together are the set, and each side obeys the predicate
                for (half, want) in [(&y, true), (&n, false)] {
                    for r in half.iter() {
                        if p(&rule_of(r)) != want {
                            return Err(format!("partition put {} on the {} side", r, want));
                        }
                    }
                    let mm = Model {
                        rules: m.rules.iter().filter(|r| p(r) == want).cloned().collect(),
                        ordered: m.ordered,
                    };
                    observe(half, &mm, rules, o)?;
                }
                rs = if keep { y } else { n };
                m.rules.retain(|r| p(r) == keep);
            }
        }
    }
    observe(&rs, &m, rules, o)?;
    // equality: same rules in the same order
    if m.ordered {
        if rs != to_ruleset(&m.rules) {
            return Err("not equal to a ruleset holding the same rules in the same order".into());
        }
        if !m.rules.is_empty() {
            let mut less = m.rules.clone();
            less.pop();
            if rs == to_ruleset(&less) {
                return Err("equal to a smaller ruleset".into());
            }
            let mut other = m.rules.clone();
            if let Some(r) = rules.iter().find(|r| !m.rules.contains(r)) {
                *other.last_mut().unwrap() = r.clone();
                if rs == to_ruleset(&other) {
                    return Err("equal to a ruleset with another rule".into());
                }
            }
        }
    }
    Ok(())
}

fn explore(ctx: &mut Ctx) {
    let f = R::p("(f ?a) ==> ?a");
    let c = R::p("(g ?a ?b) ==> (g ?b ?a)");
    let d = R::p("(f (f ?a)) ==> (f ?a)");
    let e = R::p("(g ?a 0) ==> ?a");
    let k = R::p("(g ?a ?b) ==> 0");
    let z = R::p("(f 0) ==> 1");
    let rules = vec![f.clone(), f.rev(), c.clone(), c.rev(), d.clone(), d.rev(), e.clone(), k.clone(), z.clone(), z.rev()];
    let sets: Vec<Vec<R>> = vec![
        vec![],
        vec![f.clone()],
        vec![f.rev(), f.clone()],
        vec![c.clone(), d.clone(), c.rev()],
        vec![k.clone(), e.clone(), d.rev(), z.rev()],
        rules.clone(),
    ];
    let mut ops = vec![];
    for i in 0..rules.len() {
        ops.push(Op::Add(i));
    }
    for i in 0..sets.len() {
        ops.push(Op::Extend(i));
        ops.push(Op::Union(i));
        ops.push(Op::UnionInto(i));
        ops.push(Op::Remove(i));
        ops.push(Op::AddAll(i));
    }
    for i in 0..preds().len() {
        ops.push(Op::Part(i, true));
        ops.push(Op::Part(i, false));
    }
    let starts = vec![vec![], vec![e.clone(), f.clone(), z.clone(), c.clone()], rules.clone()];
    let depth = ctx.pick(3, 4);
    for s in &starts {
        for n in 0..=depth {
            let mut idx = vec![0usize; n];
            loop {
                let h: Vec<Op> = idx.iter().map(|i| ops[*i]).collect();
                ctx.case(
                    || format!("start {:?} history {:?}", names(s), h.iter().map(|op| match op {
                        Op::Add(i) => format!("add {}", rules[*i]),
                        Op::AddAll(i) => format!("add_all {:?}", names(&sets[*i])),
                        Op::Extend(i) => format!("extend {:?}", names(&sets[*i])),
                        Op::Union(i) => format!("union {:?}", names(&sets[*i])),
                        Op::UnionInto(i) => format!("{:?} union this", names(&sets[*i])),
                        Op::Remove(i) => format!("remove_all {:?}", names(&sets[*i])),
                        Op::Part(i, k) => format!("partition p{} keep {}", i, k),
                    }).collect::<Vec<_>>()),
                    |o| run(s, &h, &rules, &sets, o),
                );
                let mut p = n;
                while p > 0 {
                    p -= 1;
                    idx[p] += 1;
                    if idx[p] < ops.len() {
                        break;
                    }
                    idx[p] = 0;
                    if p == 0 {
                        p = usize::MAX;
                        break;
                    }
                }
                if n == 0 || p == usize::MAX || ctx.stopped() {
                    break;
                }
            }
        }
    }
    // many rules: sizes around powers of two, one and two directions
    let cap = ctx.pick(300, 1100);
    for n in sizes().into_iter().filter(|n| *n <= cap) {
        let mut big = vec![];
        for i in 0..n {
            let r = R::p(&match i % 5 {
                3 => format!("(op{} 0) ==> c{}", i, i),
                4 => format!("(op{} ?x{} ?b ?c ?d) ==> (h ?d ?c ?b ?x{})", i, i, i),
                _ => format!("(op{} ?a ?b) ==> (f (op{} ?b ?a))", i, i),
            });
            big.push(r.clone());
            if i % 3 != 1 {
                big.push(r.rev());
            }
        }
        for (j, rm) in [(0, 2), (1, 3), (2, 1)] {
            ctx.case(
                || format!("{} operators, step {}/{}", n, j, rm),
                |o| {
                    let sel: Vec<R> = big.iter().skip(j).step_by(rm).cloned().collect();
                    let hist = [Op::Extend(0), Op::Part(2, true), Op::Union(0), Op::Remove(1), Op::UnionInto(1), Op::Part(3, false)];
                    for k in 0..=hist.len() {
                        run(&big, &hist[..k], &big[..3.min(big.len())], &[big.clone(), sel.clone()], o)?;
                    }
                    // rules already there, at the front, in the middle and at the end
                    let some = [big[0].clone(), big[big.len() / 2].clone(), big[big.len() - 1].clone()];
                    for h in [
                        vec![Op::Add(0)],
                        vec![Op::Add(1), Op::Add(2), Op::Add(0)],
                        vec![Op::AddAll(1), Op::Add(2)],
                        vec![Op::Extend(1), Op::Add(1)],
                        vec![Op::Remove(1), Op::Add(1), Op::AddAll(0), Op::Add(0)],
                        vec![Op::Union(1), Op::Remove(0), Op::Add(2)],
                    ] {
                        run(&big, &h, &some, &[big.clone(), sel.clone()], o)?;
                    }
                    Ok(())
                },
            );
        }
    }
}

fn main() {
    mc::main(
        Check {
            id: "R02",
            level: "model_checking",
            rule: "every history of at most 3 (thorough 4) ruleset operations (48 operations over 10 rules \
                   and 6 rulesets) from 3 start sets, plus histories over rulesets of up to 500 rules; \
                   after each the content, order, membership, lengths, printed form and equality are \
                   compared with an ordered-set model. State = model content.",
            assumptions: &["the order of the remaining rules after a removal is unspecified",
                           "no rule is its own reverse"],
            ..Check::DEFAULT
        },
        explore,
    )
}
