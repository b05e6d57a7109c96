//! Selection never loses a candidate.
use mc::minim::*;
use mc::refeg::*;
use mc::*;

fn explore(ctx: &mut Ctx) {
    let mut blown = 0u64;
    enumerate(ctx, &mut |ctx, m| {
        ctx.case(
            || m.text(),
            |o| {
                let real = m.run_real();
                let (chosen, invalid) = (real.chosen?, real.invalid?);
                let mut g = RefEg::new();
                let ids: Vec<(usize, usize)> = m.cands.iter().map(|r| (g.add(&r.l.ground()), g.add(&r.r.ground()))).collect();
                let mut rules = m.prior.clone();
                rules.extend(chosen.iter().cloned());
                if m.run_ref(&mut g, &rules).is_err() {
                    blown += 1;
                    return Ok(());
                }
                o.state(&g.fingerprint());
                o.trans(m.cands.len());
                o.show(format!("chosen {:?}", strs(&chosen)));
                for (r, (l, rr)) in m.cands.iter().zip(ids) {
                    if chosen.contains(r) || invalid.contains(r) || m.prior.contains(r) {
                        continue;
                    }
                    if g.find(l) != g.find(rr) {
                        return Err(format!(
                            "candidate {} was dropped: not chosen, not invalid, not derivable from prior and chosen {:?}",
                            r,
                            strs(&chosen)
                        ));
                    }
                }
                Ok(())
            },
        )
    });
    ctx.count("reference saturation exceeded its cap", blown);
}

fn main() {
    mc::main(
        Check {
            id: "M02",
            level: "model_checking",
            rule: "the inputs of M01; every candidate must be chosen, reported invalid, prior, or equated by the reference \
                   saturation with prior and chosen rules on the candidates' terms. State = final reference graph; \
                   transition = one candidate judged.",
            assumptions: &[],
            ..Check::DEFAULT
        },
        explore,
    )
}
