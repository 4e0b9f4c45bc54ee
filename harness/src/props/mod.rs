pub mod alloc;
pub mod checker;
pub mod debug;
pub mod enc;
pub mod flow;
pub mod graph;
pub mod history;
pub mod known;
pub mod limits;
#[cfg(regalloc2_verif)]
pub mod moves;
pub mod serial;
pub mod sets;
pub mod ssa;

use crate::ctx::{Space, Tier};

pub struct Prop {
    pub note: &'static str,
    pub assumptions: &'static [&'static str],
    pub spaces: Vec<Space>,
}

pub fn find(id: &str, tier: Tier) -> Option<Prop> {
    let n: u32 = id.strip_prefix('P')?.parse().ok()?;
    match n {
        1..=7 => Some(alloc::prop(id, tier)),
        0 => Some(alloc::screen(tier, false)),
        99 => Some(alloc::screen(tier, true)),
        8 => Some(limits::p08(tier)),
        9 => Some(ssa::p09(tier)),
        10 => Some(flow::p10(tier)),
        11 => Some(history::p11(tier)),
        12 => Some(history::p12(tier)),
        #[cfg(regalloc2_verif)]
        13 => Some(moves::p13(tier)),
        #[cfg(regalloc2_verif)]
        14 => Some(moves::p14(tier)),
        #[cfg(regalloc2_verif)]
        15 => Some(moves::p15(tier)),
        16 => Some(graph::p16(tier)),
        17 => Some(sets::p17(tier)),
        18 => Some(sets::p18(tier)),
        19 => Some(enc::p19(tier)),
        20 => Some(debug::p20(tier)),
        21 => Some(debug::p21(tier)),
        22 => Some(checker::p22(tier)),
        23 => Some(checker::p23(tier)),
        24 => Some(serial::p24(tier)),
        25 => Some(graph::p25(tier)),
        26 => Some(graph::p26(tier)),
        #[cfg(regalloc2_verif)]
        27 => Some(sets::p27(tier)),
        #[cfg(not(regalloc2_verif))]
        13..=15 | 27 => Some(Prop {
            note: "the guarded re-exports do not build on this tree: only allocated functions are judged",
            assumptions: &[],
            spaces: alloc::e2e(id),
        }),
        _ => None,
    }
}
