//! Brute-force feasibility of one instruction's register demands.

use crate::product::{allocatable, is_fixed_stack};
use regalloc2::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    /// What the constraints literally demand: the most permissive reading.
    Liberal,
    /// What the documentation reserves in addition: with a reusing definition, all other inputs stay
    /// live through the whole instruction; several operands naming one value each need a register of
    /// their own ("too many ... Reg-constrained Operands are live at once").
    Conservative,
}

/// The documented restrictions on one instruction: a register is named by several fixed operands only
/// as early use plus late definition; clobbers are disjoint from fixed definitions and fixed late uses;
/// a stack-constrained value is not also used by another operand of the instruction.
pub fn wellformed(ops: &[Operand], clobbers: PRegSet) -> bool {
    for (i, o) in ops.iter().enumerate() {
        if o.as_fixed_nonallocatable().is_some() {
            continue;
        }
        if let OperandConstraint::Reuse(j) = o.constraint() {
            if ops[j].constraint() == OperandConstraint::Stack {
                return false; // a register is reused, not a stack slot
            }
            if ops[j].class() != o.class() {
                return false;
            }
            if let OperandConstraint::FixedReg(p) = ops[j].constraint() {
                if clobbers.contains(p) {
                    return false; // in effect a fixed definition in a clobbered register
                }
            }
        }
        let early_use = o.kind() == OperandKind::Use && o.pos() == OperandPos::Early;
        let late_def = o.kind() == OperandKind::Def && o.pos() == OperandPos::Late;
        if let OperandConstraint::FixedReg(p) = o.constraint() {
            if !early_use && clobbers.contains(p) {
                return false;
            }
        }
        for q in &ops[i + 1..] {
            if q.as_fixed_nonallocatable().is_some() {
                continue;
            }
            let q_early_use = q.kind() == OperandKind::Use && q.pos() == OperandPos::Early;
            let q_late_def = q.kind() == OperandKind::Def && q.pos() == OperandPos::Late;
            if let (OperandConstraint::FixedReg(a), OperandConstraint::FixedReg(b)) =
                (o.constraint(), q.constraint())
            {
                let same_def = late_def && q_late_def && o.vreg() == q.vreg();
                if a == b && !(early_use && q_late_def || late_def && q_early_use || same_def) {
                    return false;
                }
            }
            if o.vreg() == q.vreg()
                && (o.constraint() == OperandConstraint::Stack
                    || q.constraint() == OperandConstraint::Stack)
            {
                return false;
            }
        }
    }
    true
}

/// Inputs outside the documented contract of one of the two allocators.
pub fn supported(f: &crate::ir::Func, a: crate::run::Algo) -> bool {
    use crate::run::Algo;
    let ok = |o: &Operand, ops: &[Operand]| match o.constraint() {
        // "On defs only: ... must be constraint to a register, i.e., be the result of reg_use"; the
        // single-pass allocator documents support for more (doc/FASTALLOC.md, Reuse Operands).
        OperandConstraint::Reuse(j) => {
            a == Algo::Fast || ops[j].constraint() == OperandConstraint::Reg
        }
        OperandConstraint::Limit(_) => a == Algo::Ion,
        _ => true,
    };
    // The single-pass allocator does not support a register-or-reuse definition on a branch.
    let branch_ok = |i: &crate::ir::InstData, o: &Operand| {
        a == Algo::Ion
            || i.kind != crate::ir::IKind::Branch
            || o.kind() == OperandKind::Use
            || !matches!(
                o.constraint(),
                OperandConstraint::Reg | OperandConstraint::Reuse(_)
            )
    };
    f.insts.iter().all(|i| {
        i.ops
            .iter()
            .all(|o| o.as_fixed_nonallocatable().is_some() || ok(o, &i.ops) && branch_ok(i, o))
    }) && (a == Algo::Ion || f.blocks.iter().all(|b| own_args_ok(f, b)))
}

/// The single-pass allocator handles a branch's own definition as a block argument only if it is in a fixed
/// register, or if that is its single use (see the known finding fast-branch-def-argument-and-live).
fn own_args_ok(f: &crate::ir::Func, b: &crate::ir::BlockData) -> bool {
    if b.end == b.first || f.insts[b.end - 1].kind != crate::ir::IKind::Branch {
        return true;
    }
    f.insts[b.end - 1].ops.iter().all(|o| {
        if o.as_fixed_nonallocatable().is_some() || o.kind() == OperandKind::Use {
            return true;
        }
        let v = o.vreg();
        let here = b.args.iter().flatten().filter(|x| **x == v).count();
        let args = f.blocks.iter().flat_map(|b| b.args.iter().flatten());
        let elsewhere = args.filter(|x| **x == v).count() - here;
        let uses = f.insts.iter().flat_map(|i| i.ops.iter());
        let used = uses
            .filter(|x| x.as_fixed_nonallocatable().is_none())
            .any(|x| x.kind() == OperandKind::Use && x.vreg() == v);
        here == 0
            || matches!(o.constraint(), OperandConstraint::FixedReg(_))
            || here == 1
                && elsewhere == 0
                && !used
                && matches!(
                    o.constraint(),
                    OperandConstraint::Any | OperandConstraint::Stack
                )
    })
}

/// Is there an assignment of locations to this instruction's operands that meets all constraints?
pub fn feasible(ops: &[Operand], clobbers: PRegSet, env: &MachineEnv, mode: Mode) -> bool {
    let all = allocatable(env);
    #[derive(Clone, Debug)]
    struct Var {
        op: usize,
        cands: Vec<PReg>,
        anywhere: bool,
        span: u8,
        late_touch: bool,
        reuse: Option<usize>,
    }
    let reused: Vec<VReg> = ops
        .iter()
        .filter_map(|o| match o.constraint() {
            OperandConstraint::Reuse(j) if o.as_fixed_nonallocatable().is_none() => {
                Some(ops[j].vreg())
            }
            _ => None,
        })
        .collect();
    let mut vars = vec![];
    for (i, o) in ops.iter().enumerate() {
        if o.as_fixed_nonallocatable().is_some() {
            continue;
        }
        let mut span = match (o.kind(), o.pos()) {
            (OperandKind::Use, OperandPos::Early) => 1,
            (OperandKind::Def, OperandPos::Late) => 2,
            _ => 3,
        };
        if mode == Mode::Conservative
            && o.kind() == OperandKind::Use
            && !reused.is_empty()
            && o.vreg() != reused[0]
        {
            span = 3;
        }
        let regs: Vec<PReg> = all
            .into_iter()
            .filter(|p| p.class() == o.class() && !is_fixed_stack(env, *p))
            .collect();
        let (cands, anywhere, reuse) = match o.constraint() {
            OperandConstraint::Any | OperandConstraint::Stack => (vec![], true, None),
            OperandConstraint::Reg => (regs, false, None),
            OperandConstraint::Limit(n) => (
                regs.into_iter().filter(|p| p.hw_enc() < n).collect(),
                false,
                None,
            ),
            OperandConstraint::FixedReg(p) => (vec![p], false, None),
            OperandConstraint::Reuse(j) => (regs, false, Some(j)),
        };
        let late_touch = span & 2 != 0
            && !(span == 3 && o.kind() == OperandKind::Use && o.pos() == OperandPos::Early);
        // In the conservative reading a prolonged input also must avoid clobbers.
        let late_touch = late_touch || (mode == Mode::Conservative && span & 2 != 0);
        vars.push(Var {
            op: i,
            cands,
            anywhere,
            span,
            late_touch,
            reuse,
        });
    }
    // Values that may live anywhere never constrain anything (the stack is unbounded), except as the
    // input of a reuse.
    for k in 0..vars.len() {
        let i = vars[k].op;
        if vars[k].anywhere
            && ops
                .iter()
                .any(|o| o.constraint() == OperandConstraint::Reuse(i))
        {
            vars[k].anywhere = false;
            vars[k].cands = all
                .into_iter()
                .filter(|p| p.class() == ops[i].class())
                .collect();
        }
    }
    let vars: Vec<Var> = vars.into_iter().filter(|v| !v.anywhere).collect();
    // fixed first
    let mut order: Vec<usize> = (0..vars.len()).collect();
    order.sort_by_key(|&k| (vars[k].reuse.is_some(), vars[k].cands.len()));
    let mut asg: Vec<Option<PReg>> = vec![None; ops.len()];
    fn go(
        n: usize,
        order: &[usize],
        vars: &[Var],
        ops: &[Operand],
        clobbers: &PRegSet,
        asg: &mut Vec<Option<PReg>>,
        mode: Mode,
    ) -> bool {
        if n == order.len() {
            return true;
        }
        let v = &vars[order[n]];
        let cands: Vec<PReg> = match v.reuse {
            Some(j) => asg[j].into_iter().filter(|p| v.cands.contains(p)).collect(),
            None => v.cands.clone(),
        };
        'c: for p in cands {
            if v.late_touch && clobbers.contains(p) {
                continue;
            }
            for w in vars {
                if let Some(q) = asg[w.op] {
                    if q == p && v.span & w.span != 0 {
                        let same = mode == Mode::Liberal
                            && ops[v.op].vreg() == ops[w.op].vreg()
                            && ops[v.op].kind() == ops[w.op].kind();
                        if !same {
                            continue 'c;
                        }
                    }
                }
            }
            asg[v.op] = Some(p);
            if go(n + 1, order, vars, ops, clobbers, asg, mode) {
                return true;
            }
            asg[v.op] = None;
        }
        false
    }
    go(0, &order, &vars, ops, &clobbers, &mut asg, mode)
}

/// The single-pass allocator is incomplete by design when an instruction's demands are tight: it hands
/// out registers in operand order without looking ahead, and takes one more register when it has to move
/// between two stack locations and has no dedicated scratch register. This is a sufficient condition
/// under which it must succeed.
pub fn fast_comfortable(ops: &[Operand], clobbers: PRegSet, env: &MachineEnv) -> bool {
    let all = allocatable(env);
    let span_both = |o: &Operand| {
        matches!(
            (o.kind(), o.pos()),
            (OperandKind::Use, OperandPos::Late) | (OperandKind::Def, OperandPos::Early)
        ) || matches!(o.constraint(), OperandConstraint::Reuse(_))
    };
    let real: Vec<Operand> = ops
        .iter()
        .copied()
        .filter(|o| o.as_fixed_nonallocatable().is_none())
        .collect();
    let stackish = !env.fixed_stack_slots.is_empty()
        || real
            .iter()
            .any(|o| o.constraint() == OperandConstraint::Stack);
    let spare = |c: RegClass| stackish && env.scratch_by_class[c as usize].is_none();
    if !real.iter().any(span_both) && real.len() == ops.len() {
        let mut v: Vec<Operand> = real
            .iter()
            .map(|o| {
                if o.constraint() == OperandConstraint::Any {
                    Operand::new(o.vreg(), OperandConstraint::Reg, o.kind(), o.pos())
                } else {
                    *o
                }
            })
            .collect();
        for c in crate::ir::CLASSES {
            if spare(c) && !v.is_empty() && env.preferred_regs_by_class[c as usize].len() > 0 {
                let n = 1_000_000 + c as usize;
                v.push(Operand::new(
                    VReg::new(n, c),
                    OperandConstraint::Reg,
                    OperandKind::Def,
                    OperandPos::Early,
                ));
            }
        }
        feasible(&v, clobbers, env, Mode::Conservative)
    } else {
        crate::ir::CLASSES.iter().all(|&c| {
            let mut avail: PRegSet = PRegSet::empty();
            for p in all {
                if p.class() == c && !is_fixed_stack(env, p) && !clobbers.contains(p) {
                    avail.add(p);
                }
            }
            let mut need = spare(c) as usize;
            for o in &real {
                if o.class() != c {
                    continue;
                }
                match o.constraint() {
                    OperandConstraint::FixedReg(p) => avail.remove(p),
                    OperandConstraint::Stack => {}
                    _ => need += 1,
                }
            }
            need <= avail.len() as usize
        })
    }
}
