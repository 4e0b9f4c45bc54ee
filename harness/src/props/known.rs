//! Fixed cases for recorded findings: inputs on which the code is known to break a property in a way
//! that is not repaired here. They are kept out of the main scopes and explored by this space; what
//! `known_findings.txt` lists is reported as KNOWN-FINDING, anything else about them is a violation.

use crate::ctx::*;
use crate::explore::*;
use crate::gen::Case;
use crate::ir::*;
use crate::props::{alloc, debug};
use crate::run::{self, Algo, Res};
use crate::text;

pub struct K {
    pub name: &'static str,
    pub algo: Algo,
    pub env: EnvSpec,
    pub text: &'static str,
    pub entry: &'static str,
    pub multi_defs: bool,
}

fn k(name: &'static str, algo: Algo, nregs: usize, text: &'static str) -> K {
    K {
        name,
        algo,
        env: EnvSpec::ints(&(0..nregs).collect::<Vec<_>>(), &[]),
        text,
        entry: "",
        multi_defs: false,
    }
}

fn cases(id: &str) -> Vec<K> {
    use Algo::*;
    match id {
        "P01" => vec![
            // the moves of the edge are made before the branch, which then clobbers their destination
            k(
                "ion-branch-clobber",
                Ion,
                2,
                "e -> a b: d0:r |\n a -> j: | !0\n b -> j: |\n j: u0:f0",
            ),
        ],
        "P02" => vec![
            K {
                entry: "e",
                ..k("fast-entry-not-first", Fast, 2, "x:\n e -> x: d0:r |")
            },
            // a block is laid out before the block that dominates it
            k(
                "fast-block-order",
                Fast,
                2,
                "e -> m: d0:r |\n x: u0:r u1:r\n m -> x: d1:r |",
            ),
            // a branch's definition is passed as a block argument and is also live elsewhere
            k(
                "fast-branch-def-argument-and-live",
                Fast,
                2,
                "e -> x() y(1): d1:a\n x: u1:a\n y(0): u0:a u1:a",
            ),
        ],
        "P03" => vec![
            K {
                multi_defs: true,
                ..k("fast-multi-def", Fast, 2, "e: d0:r d0:r | u0:r | u0:a")
            },
            K {
                multi_defs: true,
                ..k(
                    "ion-multi-def-split",
                    Ion,
                    2,
                    "e: d0:r d0:r | !0 !1 | d1:a d1:a u0:f1 | !0 !1 | u0:a",
                )
            },
        ],
        "P07" => vec![
            K {
                multi_defs: true,
                ..k(
                    "ion-multi-def-panic",
                    Ion,
                    2,
                    "e: d0:r | d1:a d1:r u0:f1 | d2:a d2:r u0:f1 | d3:a d3:r u1:f1 | u0:a u1:a u2:a",
                )
            },
            k(
                "fast-any-takes-last-register",
                Fast,
                2,
                "e: d0:a d1:a d2:a | u0:a u1:r u2:r | u0:a u1:a u2:a",
            ),
            K {
                env: EnvSpec::ints(&[0], &[]).stack(&[(8, 0)]),
                ..k(
                    "fast-stack-move-scratch",
                    Fast,
                    1,
                    "e: d0:a d1:a | u0:f8 d2:r u1:r | u0:a u1:a u2:a",
                )
            },
        ],
        "P21" => vec![k(
            "fast-label-in-other-block",
            Fast,
            2,
            "e -> a b: |\n a -> c: d0:a |\n b: \n c: u0:a",
        )],
        _ => vec![],
    }
}

pub fn spaces(id: &'static str) -> Vec<Space> {
    let cs = cases(id);
    if cs.is_empty() {
        return vec![];
    }
    vec![space(
        "known-cases",
        "fixed cases of recorded findings",
        move |t, ch| {
            let c = ch.pick(&cs);
            let mut func = text::func(c.text, c.entry);
            func.multi_defs = c.multi_defs;
            let case = Case {
                func,
                env: c.env.build(),
            };
            if let Res::Err(e) = run::alloc(&case.func, &case.env, c.algo) {
                let mut f = fail(
                    "Error",
                    format!("{:?}: error {:?} on a feasible function", c.algo, e),
                    case.dump(),
                );
                f.case = c.name.into();
                return Leaf::Bad(vec![f]);
            }
            let leaf = if id == "P21" {
                debug::judge_form(&case, c.algo, debug::Form::AllRanges, debug::STRICT, t)
            } else {
                alloc::judge_any(alloc::kinds(id), &case, &[c.algo], t)
            };
            match leaf {
                Leaf::Bad(mut fs) => {
                    fs.iter_mut().for_each(|f| f.case = c.name.into());
                    Leaf::Bad(fs)
                }
                l => l,
            }
        },
    )]
}
