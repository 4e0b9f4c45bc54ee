//! P01-P07: every function of the scopes through the real allocators, judged by the product checker.

use super::Prop;
use crate::ctx::*;
use crate::explore::*;
use crate::gen::*;
use crate::ir;
use crate::run::{self, Algo};
use crate::scopes::{self, Who2};
use regalloc2::{Operand, OperandConstraint, PRegSet};

/// Violation kinds that break each property.
pub fn kinds(id: &str) -> &'static [&'static str] {
    match id {
        "P01" | "P02" => &["Value", "ValueTrashed", "ValueSlot", "Panic", "Error"],
        "P03" => &["Constraint", "Panic", "Error"],
        "P04" => &["Interference", "ValueTrashed", "Panic", "Error"],
        "P05" => &["Edit", "Panic", "Error"],
        "P06" => &["Frame", "ValueSlot", "Panic", "Error"],
        "P07" => &["Panic", "Error"],
        _ => unreachable!(),
    }
}

pub fn failures(case: &Case, j: run::Judged, ks: &[&str]) -> Leaf {
    let bad: Vec<Failure> = j
        .bad
        .iter()
        .filter(|(k, _)| ks.contains(&k.as_str()))
        .map(|(k, w)| {
            fail(
                k.clone(),
                w.clone(),
                format!(
                    "{}{}",
                    case.full_dump(),
                    j.out
                        .as_ref()
                        .map_or(String::new(), |o| ir::out_dump(&case.func, o))
                ),
            )
        })
        .collect();
    if bad.is_empty() {
        Leaf::Ok
    } else {
        Leaf::Bad(bad)
    }
}

pub fn scope_space(ks: &'static [&'static str], sc: Scope, algos: Vec<Algo>) -> Space {
    let bounds = format!(
        "instructions <= {}{}, per block <= {}, block params <= {}, shapes {}, first shapes {}, cfgs {:?}, layouts {:?}, envs {}",
        sc.max_insts,
        if sc.exact_insts { " (exactly)" } else { "" },
        sc.max_per_block,
        sc.max_params,
        sc.shapes.len(),
        sc.first.len(),
        sc.cfgs.iter().map(|c| c.name).collect::<Vec<_>>(),
        sc.layouts,
        sc.envs.len()
    );
    let name = format!("{}/{:?}", sc.name, algos);
    space(name, bounds, move |t, ch| {
        let case = match sc.build(ch) {
            None => return Leaf::Pruned,
            Some(c) => c,
        };
        judge_case(ks, &case, &algos, t)
    })
}

pub fn judge_case(ks: &[&str], case: &Case, algos: &[Algo], t: &mut Tally) -> Leaf {
    let ok = |a: &&Algo| crate::feas::supported(&case.func, **a);
    let algos: Vec<Algo> = algos.iter().filter(ok).copied().collect();
    judge_any(ks, case, &algos, t)
}

/// `judge_case`, also on programs that the allocator is known not to support.
pub fn judge_any(ks: &[&str], case: &Case, algos: &[Algo], t: &mut Tally) -> Leaf {
    let mut leaf = Leaf::Ok;
    for &a in algos {
        let j = run::judge(case, a, false);
        t.states += j.stats.states;
        t.transitions += j.stats.transitions;
        if j.edits > 0 {
            t.nontrivial += 1;
            t.sample(|| {
                format!(
                    "{}{}",
                    case.dump(),
                    ir::out_dump(&case.func, j.out.as_ref().unwrap())
                )
            });
        }
        if let Leaf::Bad(b) = failures(case, j, ks) {
            leaf = match leaf {
                Leaf::Bad(mut x) => {
                    x.extend(b);
                    Leaf::Bad(x)
                }
                _ => Leaf::Bad(b),
            };
        }
    }
    leaf
}

fn algos_of(id: &str) -> Vec<Algo> {
    match id {
        "P01" => vec![Algo::Ion],
        "P02" => vec![Algo::Fast],
        _ => vec![Algo::Ion, Algo::Fast],
    }
}

pub fn who(w: Who2, a: Algo) -> bool {
    match w {
        Who2::Both => true,
        Who2::IonOnly => a == Algo::Ion,
        Who2::FastOnly => a == Algo::Fast,
    }
}

pub fn feasible(c: &Case) -> bool {
    use crate::feas::*;
    let ok = |i: &ir::InstData| feasible(&i.ops, i.clobbers, &c.env, Mode::Conservative);
    let listed = PRegSet::from(&c.env);
    let fixed_ok = |o: &Operand| match o.constraint() {
        OperandConstraint::FixedReg(p) if o.as_fixed_nonallocatable().is_none() => {
            listed.contains(p) || c.env.fixed_stack_slots.contains(&p)
        }
        _ => true,
    };
    c.func
        .insts
        .iter()
        .all(|i| wellformed(&i.ops, i.clobbers) && i.ops.iter().all(fixed_ok) && ok(i))
}

/// The parametric families, judged for the violation kinds `ks`.
pub fn family_spaces(ks: &'static [&'static str], tier: Tier, algos: &[Algo]) -> Vec<Space> {
    let mut v = vec![];
    for f in crate::families::all(tier) {
        let algos: Vec<Algo> = algos.iter().copied().filter(|a| who(f.who, *a)).collect();
        if !algos.is_empty() {
            let (make, name) = (f.make, format!("family {}/{:?}", f.name, algos));
            v.push(space(name, f.bounds, move |t, ch| match make(ch) {
                None => Leaf::Pruned,
                Some(c) if !feasible(&c) => Leaf::Pruned,
                Some(c) => judge_case(ks, &c, &algos, t),
            }));
        }
    }
    v
}

pub fn prop(id: &str, tier: Tier) -> Prop {
    let id: &'static str = ["P01", "P02", "P03", "P04", "P05", "P06", "P07"]
        .into_iter()
        .find(|x| *x == id)
        .unwrap();
    let mut spaces = vec![];
    for e in scopes::all(tier) {
        if std::env::var("VMC_ALL").is_err()
            && !(if tier.thorough() { e.thorough } else { e.quick }).contains(&id)
        {
            continue;
        }
        let mut algos = algos_of(id);
        algos.retain(|a| who(e.who, *a));
        if !algos.is_empty() {
            spaces.push(scope_space(kinds(id), e.scope, algos));
        }
    }
    spaces.extend(family_spaces(kinds(id), tier, &algos_of(id)));
    if id == "P05" {
        spaces.push(walk_space(tier));
    }
    spaces.extend(super::known::spaces(id));
    Prop {
        note: "every function of each scope is generated (complete enumeration of the choice tree), allocated by the \
               real code, and the product of input program and allocated program is explored exhaustively: a state is \
               (block, storage location -> set of values held); nontrivial = the output contains inserted moves",
        assumptions: &[
            "inputs obey the documented rules (SSA, no critical edges, operand rules of doc/GENERAL.md)",
            "bounded scopes: sizes and alphabets as listed per space",
            "regalloc2 is built with debug assertions and overflow checks",
        ],
        spaces,
    }
}

/// Hand-made outputs: every small list of sorted edits over every split of instructions into blocks, blocks
/// in any order in the instruction list.
fn walk_space(tier: Tier) -> Space {
    let (ni, ne) = tier.pick((5, 6), (7, 8));
    space(
        "walking chosen edit lists",
        format!(
            "up to {} instructions in every split into blocks, block numbers in either order, every sorted list of up to {} edits \
             (none after the last instruction of a block)",
            ni, ne
        ),
        move |t, ch| {
            use crate::ir::{BlockData, Func, IKind, InstData};
            use regalloc2::*;
            let n = 1 + ch.choose(ni);
            let mut f = Func {
                entry: Block::new(0),
                blocks: vec![],
                insts: vec![],
                num_vregs: 0,
                labels: vec![],
                slot_size: [1, 1, 1],
                last_slot: false,
                multi_defs: false,
            };
            let mut first = 0;
            for k in 0..n {
                let end = k + 1 == n || ch.flag();
                f.insts.push(InstData {
                    kind: if end { IKind::Ret } else { IKind::Op },
                    ops: vec![],
                    clobbers: PRegSet::empty(),
                });
                if end {
                    f.blocks.push(BlockData {
                        first,
                        end: k + 1,
                        ..Default::default()
                    });
                    first = k + 1;
                }
            }
            if f.blocks.len() > 1 && ch.flag() {
                f.blocks.reverse();
            }
            let ib = f.insn_block();
            let pts: Vec<ProgPoint> = (0..2 * n as u32)
                .map(ProgPoint::from_index)
                .filter(|p| {
                    let k = p.inst().index();
                    p.pos() == InstPosition::Before || f.blocks[ib[k]].end != k + 1
                })
                .collect();
            let mut out = Output::default();
            let mut from = 0;
            while out.edits.len() < ne {
                // one of the remaining points, or stop
                let c = ch.choose(pts.len() - from + 1);
                if c == pts.len() - from {
                    break;
                }
                from += c;
                out.edits.push((
                    pts[from],
                    Edit::Move {
                        from: Allocation::stack(SpillSlot::new(out.edits.len())),
                        to: Allocation::reg(PReg::new(out.edits.len(), RegClass::Int)),
                    },
                ));
            }
            t.states += f.blocks.len() as u64;
            t.transitions += (n + out.edits.len()) as u64;
            let dump = || format!("{}edits {:?}", f.dump(), out.edits);
            if !out.edits.is_empty() && f.blocks.len() > 1 {
                t.nontrivial += 1;
                t.sample(dump);
            }
            match run::guard(|| crate::product::walk_problem(&f, &out)) {
                Ok(None) => Leaf::Ok,
                Ok(Some(e)) => bad("Edit", e, dump()),
                Err(p) => bad("Panic", p, dump()),
            }
        },
    )
}

/// The quick scopes whose names start with one of `names`, judged for the violation kinds `ks`.
pub fn end_to_end(names: &[&str], algo: Algo, ks: &'static [&'static str]) -> Vec<Space> {
    let mut v = vec![];
    for e in scopes::all(Tier::Quick) {
        if !names.iter().any(|n| e.scope.name.starts_with(n)) {
            continue;
        }
        let ok = match e.who {
            Who2::Both => true,
            Who2::IonOnly => algo == Algo::Ion,
            Who2::FastOnly => algo == Algo::Fast,
        };
        if ok {
            let mut s = scope_space(ks, e.scope, vec![algo]);
            s.name = format!("end-to-end {}", s.name);
            v.push(s);
        }
    }
    v
}

/// What the properties about internal parts also mean for allocated functions: the scopes that exercise
/// that part most, judged by the product checker.
pub fn e2e(id: &str) -> Vec<Space> {
    const FLOW: &[&str] = &["Value", "ValueTrashed", "ValueSlot", "Panic", "Error"];
    const MOVES: &[&str] = &[
        "Value",
        "ValueTrashed",
        "ValueSlot",
        "Edit",
        "Panic",
        "Error",
    ];
    const PLACE: &[&str] = &["Value", "Constraint", "Interference", "Panic", "Error"];
    use Algo::*;
    match id {
        "P13" => end_to_end(&["cfg-params", "line-multi-constraint"], Ion, FLOW),
        "P14" => end_to_end(&["fixed-stack", "classes", "high-regs"], Ion, MOVES),
        "P15" => end_to_end(
            &[
                "line-one-value",
                "line-evict",
                "line-early-late",
                "line-stack",
                "cfg-large",
                "fixed-stack",
                "nonalloc",
            ],
            Ion,
            FLOW,
        ),
        "P16" | "P26" => end_to_end(&["cfg-basic"], Ion, PLACE),
        "P25" => end_to_end(&["limit", "high-regs"], Ion, PLACE),
        "P27" => {
            let mut v = end_to_end(
                &["line-basic", "line-evict", "line-two-ops", "high-regs"],
                Fast,
                PLACE,
            );
            v.extend(end_to_end(&["slot-sharing", "line-evict"], Ion, MOVES));
            v
        }
        _ => vec![],
    }
}

/// Every kind of violation at once, on the faster scopes (for development: tools/mutate).
pub fn screen(tier: Tier, slow: bool) -> Prop {
    const SLOW: &[&str] = &[
        "cfg-basic",
        "cfg-large-params",
        "cfg-params-3",
        "cfg-order-dom",
        "cfg-branch-ops",
    ];
    const KS: &[&str] = &[
        "Value",
        "ValueTrashed",
        "ValueSlot",
        "Constraint",
        "Interference",
        "Edit",
        "Frame",
        "Panic",
        "Error",
    ];
    let mut spaces = vec![];
    let wanted: Vec<Algo> = match std::env::var("VMC_ALGO").as_deref() {
        Ok("ion") => vec![Algo::Ion],
        Ok("fast") => vec![Algo::Fast],
        _ => vec![Algo::Ion, Algo::Fast],
    };
    if !slow {
        spaces.extend(family_spaces(KS, tier, &wanted));
    }
    for e in scopes::all(tier) {
        if SLOW.contains(&&e.scope.name[..]) != slow
            || ["cfg-order", "fixed-stack-cfg", "cfg-branch-defs-mem"].contains(&&e.scope.name[..])
        {
            continue;
        }
        let mut algos = wanted.clone();
        algos.retain(|a| who(e.who, *a));
        if algos.is_empty() {
            continue;
        }
        spaces.push(scope_space(KS, e.scope, algos));
    }
    Prop {
        note: "",
        assumptions: &[],
        spaces,
    }
}
