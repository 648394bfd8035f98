//! C22 (second part): reading what an unrelated schema wrote.

use crate::cat::*;
use crate::dec::compare;
use crate::run::*;
use mc::eng::*;
use mc::model::*;
use std::collections::HashSet;

/// Every type's documents read as every other type.
pub struct Cross;
impl Suite for Cross {
    fn name(&self) -> &'static str { "cross-reading" }
    fn bounds(&self, tier: Tier) -> String {
        format!("all {0} x {0} ordered pairs of catalog types, all values of level {1} of the writer up to {2} bytes; read in 3 modes x {{ignore, reject unknown fields}}, against the reference decoder",
                catalog().len(), tier.q("0", "0..1"), tier.q(300, 3000))
    }
    fn units(&self, _: Tier) -> usize { catalog().len() }
    fn unit(&self, u: usize, tier: Tier, cx: &mut Cx) {
        let w = &catalog()[u];
        let mut seen = HashSet::new();
        for l in 0..tier.q(1, 2) { for i in 0..(w.n)(l) {
            let b = encode(&w.sch, &(w.val)(l, i));
            if b.len() > tier.q(300, 3000) || !seen.insert(b.clone()) { continue; }
            for r in 0..catalog().len() { cx.run(self, Case::b("cross-reading", &[r as u64], &b)); }
            if cx.past_deadline() { return; }
        } }
    }
    fn exec(&self, c: &Case, _: &ChRef, st: &mut Stats) -> Res {
        let t = &catalog()[c.ints[0] as usize];
        st.state(hash(&(c.ints[0], &c.bytes)));
        for mode in [STREAM_COPY, STREAM_BORROW, ENV_SEEK] {
            if !supports(t, mode) { continue; }
            for lim in [Lim::wide(), Lim::strict()] { compare(t, mode, &c.bytes, &lim, false, st)?; }
        }
        Ok(())
    }
    fn show(&self, c: &Case) -> String { format!("{} as {}", hx(&c.bytes), catalog()[c.ints[0] as usize].name) }
}

pub fn c22() -> Check {
    Check { id: "C22", level: "model_checking", rule: "Between unrelated schemas the outcome must be the reference decoder's.", suites: vec![Box::new(Cross)] }
}
