//! Selection is best-first and non-redundant.
use mc::eqs::*;
use mc::minim::*;
use mc::refeg::*;
use mc::*;
use std::collections::BTreeSet;

/// The score mentions constants once per node; candidates with a constant
/// repeated on a side would make it depend on sharing.
fn clear_score(r: &R) -> bool {
    for t in [&r.l, &r.r] {
        let mut seen = BTreeSet::new();
        let mut twice = false;
        t.walk(&mut |x| {
            if let S::A(y) = x {
                if y.as_bytes()[0].is_ascii_digit() {
                    twice |= !seen.insert(y.clone());
                }
            }
        });
        if twice {
            return false;
        }
    }
    true
}

fn explore(ctx: &mut Ctx) {
    let mut skipped = 0u64;
    enumerate(ctx, &mut |ctx, m| {
        ctx.case(
            || m.text(),
            |o| {
                let real = m.run_real();
                let (chosen, invalid) = (real.chosen?, real.invalid?);
                let ch: BTreeSet<R> = chosen.iter().cloned().collect();
                let inv: BTreeSet<R> = invalid.iter().cloned().collect();
                o.show(format!("chosen {:?}", strs(&chosen)));
                // Not provable from the prior and the strictly better rules chosen.
                for r in &chosen {
                    if !m.cands.iter().all(clear_score) {
                        break;
                    }
                    let mut rules = m.prior.clone();
                    rules.extend(chosen.iter().filter(|c| score(c) > score(r)).cloned());
                    let mut g = RefEg::new();
                    let (l, rr) = (g.add(&r.l.ground()), g.add(&r.r.ground()));
                    if rules.len() > m.prior.len() && m.run_ref(&mut g, &rules).is_ok() && g.find(l) == g.find(rr) {
                        // the prior alone is only applied after the first choice
                        let first = chosen.iter().map(score).max().unwrap();
                        if score(r) < first {
                            return Err(format!("{} was chosen although better rules {:?} derive it", r, strs(&rules)));
                        }
                    }
                }
                if !m.cands.iter().all(clear_score) || m.cands.len() > 40 {
                    skipped += 1;
                    return Ok(());
                }
                let mut steps = 0;
                let outs = minimize_outcomes(
                    &m.cands,
                    &m.prior,
                    &|g: &mut RefEg, rs: &[R]| m.run_ref(g, rs),
                    &|r| m.valid(r),
                    400,
                    &mut |rem, chosen| {
                        steps += 1;
                        o.state(&(rem, chosen));
                    },
                );
                o.trans(steps);
                match outs {
                    Ok(Some(set)) => {
                        o.outcome(&set);
                        if !set.contains(&(ch.clone(), inv.clone())) {
                            let alt: Vec<String> = set
                                .iter()
                                .take(3)
                                .map(|(c, i)| format!("chosen {:?} invalid {:?}", strs(&c.iter().collect::<Vec<_>>()), strs(&i.iter().collect::<Vec<_>>())))
                                .collect();
                            return Err(format!(
                                "chosen {:?} invalid {:?}; best-first selection gives one of {:?}",
                                strs(&chosen),
                                strs(&invalid),
                                alt
                            ));
                        }
                    }
                    _ => skipped += 1,
                }
                Ok(())
            },
        )
    });
    ctx.count("outcome set too large or outside the model", skipped);
}

fn main() {
    mc::main(
        Check {
            id: "M03",
            level: "model_checking",
            rule: "the inputs of M01; the result must be one of the outcomes of the nondeterministic selection model (every \
                   order of equally scored candidates explored, redundancy decided by the naive e-graph), and no chosen \
                   rule may follow from the prior and better chosen rules. State = (remaining, chosen) of the model.",
            assumptions: &["candidate rules repeat no constant within one side (the score counts shared nodes)"],
            ..Check::DEFAULT
        },
        explore,
    )
}
