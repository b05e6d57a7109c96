//! Selection only ever returns validated candidates.
use mc::minim::*;
use mc::*;

fn explore(ctx: &mut Ctx) {
    enumerate(ctx, &mut |ctx, m| {
        ctx.case(
            || m.text(),
            |o| {
                let real = m.run_real();
                let (chosen, invalid) = (real.chosen?, real.invalid?);
                o.state(&(strs(&chosen), strs(&invalid)));
                o.trans(chosen.len() + invalid.len());
                o.show(format!("chosen {:?} invalid {:?}", strs(&chosen), strs(&invalid)));
                if real.left != 0 {
                    return Err(format!("{} candidates left undecided", real.left));
                }
                for r in &chosen {
                    if !m.cands.contains(r) {
                        return Err(format!("{} was chosen but is not a candidate", r));
                    }
                    if !m.valid(r) {
                        return Err(format!("{} was chosen but does not validate", r));
                    }
                    if m.prior.contains(r) {
                        return Err(format!("{} is returned as new but is a prior rule", r));
                    }
                }
                for r in &invalid {
                    if !m.cands.contains(r) {
                        return Err(format!("{} is reported invalid but is not a candidate", r));
                    }
                    if m.valid(r) {
                        return Err(format!("{} is reported invalid but validates", r));
                    }
                }
                for r in &real.asked {
                    if m.cands.contains(r) && !m.valid(r) && !invalid.contains(r) {
                        return Err(format!("candidate {} failed validation but is not reported as invalid", r));
                    }
                }
                Ok(())
            },
        )
    });
}

fn main() {
    mc::main(
        Check {
            id: "M01",
            level: "model_checking",
            rule: "every set of at most 3 (thorough 4) of 16 candidate rules x 5 priors x verdicts (all valid, each one \
                   invalid or unknown, all invalid, reverses invalid) x schedulers and 0..2 rounds; cvec candidates of 8 \
                   finite term spaces with semantic validation; up to 130 candidates and 100 prior rules. 45 rules of varied \
                   scores in pairs and triples under a prior that equates everything; up to 39 independent candidates with \
                   consequences and reverses. State = (chosen, invalid); transition = one decision.",
            assumptions: &[],
            ..Check::DEFAULT
        },
        explore,
    )
}
