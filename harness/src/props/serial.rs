//! P24: captured (serializable) functions, environments and outputs.

use super::Prop;
use crate::ctx::*;
use crate::explore::*;
use crate::ir::{self, BlockData, EnvSpec, Func, IKind, InstData};
use crate::run;
use crate::scopes;
use regalloc2::serialize::SerializableFunction;
use regalloc2::*;
use serde::{de::DeserializeOwned, Serialize};

/// Passes queries on and insists that the arguments of a branch are asked for with the branch.
struct Asked<'a>(&'a Func);

impl<'a> Function for Asked<'a> {
    fn num_insts(&self) -> usize {
        self.0.num_insts()
    }
    fn num_blocks(&self) -> usize {
        self.0.num_blocks()
    }
    fn entry_block(&self) -> Block {
        self.0.entry_block()
    }
    fn block_insns(&self, b: Block) -> InstRange {
        self.0.block_insns(b)
    }
    fn block_succs(&self, b: Block) -> &[Block] {
        self.0.block_succs(b)
    }
    fn block_preds(&self, b: Block) -> &[Block] {
        self.0.block_preds(b)
    }
    fn block_params(&self, b: Block) -> &[VReg] {
        self.0.block_params(b)
    }
    fn is_ret(&self, i: Inst) -> bool {
        self.0.is_ret(i)
    }
    fn is_branch(&self, i: Inst) -> bool {
        self.0.is_branch(i)
    }
    fn branch_blockparams(&self, b: Block, i: Inst, s: usize) -> &[VReg] {
        assert_eq!(
            i.index() + 1,
            self.0.blocks[b.index()].end,
            "block arguments asked for with {:?}",
            i
        );
        self.0.branch_blockparams(b, i, s)
    }
    fn inst_operands(&self, i: Inst) -> &[Operand] {
        self.0.inst_operands(i)
    }
    fn inst_clobbers(&self, i: Inst) -> PRegSet {
        self.0.inst_clobbers(i)
    }
    fn num_vregs(&self) -> usize {
        self.0.num_vregs()
    }
    fn debug_value_labels(&self) -> &[(VReg, Inst, Inst, u32)] {
        self.0.debug_value_labels()
    }
    fn spillslot_size(&self, c: RegClass) -> usize {
        self.0.spillslot_size(c)
    }
    fn multi_spillslot_named_by_last_slot(&self) -> bool {
        self.0.multi_spillslot_named_by_last_slot()
    }
    fn allow_multiple_vreg_defs(&self) -> bool {
        self.0.allow_multiple_vreg_defs()
    }
}

macro_rules! same {
    ($what:expr, $a:expr, $b:expr) => {{
        let (a, b) = ($a, $b);
        if a != b {
            return Err(format!("{}: {:?} instead of {:?}", $what, b, a));
        }
    }};
}

fn same_env(a: &MachineEnv, b: &MachineEnv) -> Result<(), String> {
    same!(
        "preferred registers",
        a.preferred_regs_by_class,
        b.preferred_regs_by_class
    );
    same!(
        "non-preferred registers",
        a.non_preferred_regs_by_class,
        b.non_preferred_regs_by_class
    );
    same!("scratch registers", a.scratch_by_class, b.scratch_by_class);
    same!("fixed stack slots", &a.fixed_stack_slots, &b.fixed_stack_slots);
    Ok(())
}

/// Every query of the trait.
fn same_answers(f: &Func, s: &impl Function) -> Result<(), String> {
    same!("num_insts", f.num_insts(), s.num_insts());
    same!("num_blocks", f.num_blocks(), s.num_blocks());
    same!("entry_block", f.entry_block(), s.entry_block());
    same!("num_vregs", f.num_vregs(), s.num_vregs());
    same!(
        "debug_value_labels",
        f.debug_value_labels(),
        s.debug_value_labels()
    );
    same!(
        "multi_spillslot_named_by_last_slot",
        f.multi_spillslot_named_by_last_slot(),
        s.multi_spillslot_named_by_last_slot()
    );
    same!(
        "allow_multiple_vreg_defs",
        f.allow_multiple_vreg_defs(),
        s.allow_multiple_vreg_defs()
    );
    for c in ir::CLASSES {
        same!(
            format!("spillslot_size({:?})", c),
            f.spillslot_size(c),
            s.spillslot_size(c)
        );
    }
    for k in 0..f.num_insts() {
        let i = Inst::new(k);
        same!(format!("is_ret(inst{})", k), f.is_ret(i), s.is_ret(i));
        same!(format!("is_branch(inst{})", k), f.is_branch(i), s.is_branch(i));
        same!(
            format!("inst_operands(inst{})", k),
            f.inst_operands(i),
            s.inst_operands(i)
        );
        same!(
            format!("inst_clobbers(inst{})", k),
            f.inst_clobbers(i),
            s.inst_clobbers(i)
        );
    }
    for k in 0..f.num_blocks() {
        let b = Block::new(k);
        let (x, y) = (f.block_insns(b), s.block_insns(b));
        same!(format!("block_insns(block{}) length", k), x.len(), y.len());
        same!(
            format!("block_insns(block{})", k),
            x.iter().collect::<Vec<_>>(),
            y.iter().collect::<Vec<_>>()
        );
        same!(format!("block_succs(block{})", k), f.block_succs(b), s.block_succs(b));
        same!(format!("block_preds(block{})", k), f.block_preds(b), s.block_preds(b));
        same!(
            format!("block_params(block{})", k),
            f.block_params(b),
            s.block_params(b)
        );
        for j in 0..f.block_succs(b).len() {
            same!(
                format!("branch_blockparams(block{}, {})", k, j),
                f.branch_blockparams(b, x.last(), j),
                s.branch_blockparams(b, x.last(), j)
            );
        }
    }
    Ok(())
}

/// Through both formats.
fn trips<T: Serialize + DeserializeOwned>(x: &T) -> Result<[T; 2], String> {
    let b = bincode::serialize(x).map_err(|e| format!("serialize: {}", e))?;
    let y: T = bincode::deserialize(&b).map_err(|e| format!("deserialize: {}", e))?;
    let j = serde_json::to_string(x).map_err(|e| format!("serialize (text): {}", e))?;
    let z: T = serde_json::from_str(&j).map_err(|e| format!("deserialize (text): {}", e))?;
    // written again, they must not differ either
    if bincode::serialize(&y).ok() != Some(b) || serde_json::to_string(&z).ok() != Some(j) {
        return Err("a value read back is written differently".into());
    }
    Ok([y, z])
}

/// A captured function in all its forms.
fn copies(f: &Func, env: &MachineEnv) -> Result<Vec<SerializableFunction>, String> {
    let c = SerializableFunction::new(&Asked(f), env.clone());
    let mut v: Vec<SerializableFunction> = trips(&c)?.into();
    // a copy of the copy
    let cc = SerializableFunction::new(&c, c.machine_env().clone());
    v.push(c);
    v.push(cc);
    for c in &v {
        same_answers(f, c)?;
        same_env(env, c.machine_env())?;
        let _ = format!("{:?}", c);
    }
    Ok(v)
}

fn same_output(a: &Output, b: &Output) -> Result<(), String> {
    if !super::history::out_eq(a, b) {
        return Err(format!("{:?}\ninstead of\n{:?}", b, a));
    }
    same!("stats", format!("{:?}", a.stats), format!("{:?}", b.stats));
    Ok(())
}

fn describe(r: &run::Res) -> String {
    match r {
        run::Res::Ok(_) => "an output".into(),
        run::Res::Err(e) => format!("{:?}", e),
        run::Res::Panic(p) => format!("panic {}", p),
    }
}

fn same_results(f: &Func, env: &MachineEnv, c: &SerializableFunction) -> Result<bool, String> {
    let mut moves = false;
    for a in run::BOTH {
        for validate in [false, true] {
            let mut o = a.options();
            o.validate_ssa = validate;
            let x = run::alloc_opts(f, env, &o);
            let y = run::alloc_opts(c, c.machine_env(), &o);
            match (&x, &y) {
                (run::Res::Ok(p), run::Res::Ok(q)) => {
                    same_output(p, q).map_err(|e| format!("{:?}: {}", a, e))?;
                    moves |= !p.edits.is_empty();
                    if !validate {
                        for r in trips(p).map_err(|e| format!("output: {}", e))? {
                            same_output(p, &r).map_err(|e| format!("output read back: {}", e))?;
                        }
                    }
                }
                _ => {
                    if describe(&x) != describe(&y) {
                        return Err(format!(
                            "{:?}: the copy gives {}, the original {}",
                            a,
                            describe(&y),
                            describe(&x)
                        ));
                    }
                    if let run::Res::Err(e) = &x {
                        for r in trips(e).map_err(|e| format!("error: {}", e))? {
                            same!("error read back", format!("{:?}", e), format!("{:?}", r));
                        }
                    }
                }
            }
        }
    }
    Ok(moves)
}

fn flat<T>(r: Result<Result<T, String>, String>) -> Result<T, (&'static str, String)> {
    match r {
        Ok(Ok(x)) => Ok(x),
        Ok(Err(e)) => Err(("Differs", e)),
        Err(p) => Err(("Panic", p)),
    }
}

fn function_spaces(tier: Tier) -> Vec<Space> {
    const QUICK: &[&str] = &[
        "one-inst",
        "line-early-late",
        "line-multi-constraint",
        "cfg-params",
        "cfg-branch-ops",
        "classes",
        "classes-cfg",
        "slot-sharing",
        "fixed-stack",
        "limit",
        "nonalloc",
        "high-regs",
        "multi-def",
        "cfg-large",
    ];
    let mut v = vec![];
    for e in scopes::all(Tier::Quick) {
        let sc = e.scope;
        if !QUICK.contains(&&sc.name[..]) && !tier.thorough() {
            continue;
        }
        let name = format!("captured {}", sc.name);
        let bounds = format!(
            "instructions <= {}, blocks {:?}; bincode and JSON, a copy of the copy, both allocators with and without validation",
            sc.max_insts,
            sc.cfgs.iter().map(|c| c.name).collect::<Vec<_>>()
        );
        v.push(space(name, bounds, move |t, ch| {
            let mut case = match sc.build(ch) {
                None => return Leaf::Pruned,
                Some(c) => c,
            };
            super::debug::label(&mut case.func, super::debug::Form::Shared);
            let r = run::guard(|| {
                let v = copies(&case.func, &case.env)?;
                let mut moves = false;
                // the copy that went through the binary format, and the direct one
                for c in [&v[0], &v[2]] {
                    moves |= same_results(&case.func, &case.env, c)?;
                }
                Ok(moves)
            });
            t.states += 4;
            t.transitions += 12;
            match flat(r) {
                Ok(m) => {
                    if m {
                        t.nontrivial += 1;
                        t.sample(|| case.dump());
                    }
                    Leaf::Ok
                }
                Err((k, e)) => bad(k, e, case.dump()),
            }
        }));
    }
    v
}

/// Functions that need not be allocatable: every aspect varied.
fn raw_spaces(tier: Tier) -> Vec<Space> {
    let mut v = vec![];
    let leaf = |t: &mut Tally, f: &Func, env: &MachineEnv| {
        t.states += 4;
        t.transitions += 4;
        t.nontrivial += 1;
        t.sample(|| format!("{}{}", ir::env_dump(env), f.dump()));
        match flat(run::guard(|| copies(f, env).map(|_| ()))) {
            Ok(()) => Leaf::Ok,
            Err((k, e)) => bad(k, e, format!("{}{}", ir::env_dump(env), f.dump())),
        }
    };
    let nb = tier.pick(3, 4);
    v.push(space(
        "captured graphs",
        format!(
            "every list of at most 2 successors (repeats and self-loops included) for up to {} blocks, every entry, 1 or 2 instructions \
             per block, predecessor lists in either order, as many parameters as the block number",
            nb
        ),
        move |t, ch| {
            let n = 1 + ch.choose(nb);
            let lists = super::graph::succ_lists(n, 2);
            let succs = super::graph::draw_graph(ch, n, &lists);
            let entry = ch.choose(n);
            let rev = ch.flag();
            let long = ch.flag();
            let mut f = Func {
                entry: Block::new(entry),
                blocks: vec![],
                insts: vec![],
                num_vregs: 40,
                labels: vec![],
                slot_size: [1, 2, 3],
                last_slot: false,
                multi_defs: false,
            };
            for b in 0..n {
                let mut d = BlockData {
                    first: f.insts.len(),
                    ..Default::default()
                };
                for k in 0..1 + (long ^ (b % 2 == 1)) as usize {
                    f.insts.push(InstData {
                        kind: IKind::Op,
                        ops: vec![Operand::reg_def(VReg::new(10 + 2 * b + k, RegClass::Int))],
                        clobbers: PRegSet::empty(),
                    });
                }
                d.end = f.insts.len();
                f.insts[d.end - 1].kind = if succs[b].is_empty() {
                    IKind::Ret
                } else {
                    IKind::Branch
                };
                d.params = (0..b).map(|p| VReg::new(4 * b + p, RegClass::Int)).collect();
                d.succs = succs[b].iter().map(|&s| Block::new(s)).collect();
                d.args = succs[b]
                    .iter()
                    .enumerate()
                    .map(|(j, &s)| {
                        (0..s)
                            .map(|p| VReg::new(20 + 8 * j + p + b, RegClass::Int))
                            .collect()
                    })
                    .collect();
                f.blocks.push(d);
            }
            for i in 0..n {
                for s in &succs[i] {
                    f.blocks[*s].preds.push(Block::new(i));
                }
            }
            if rev {
                f.blocks.iter_mut().for_each(|b| b.preds.reverse());
            }
            leaf(t, &f, &EnvSpec::ints(&[0, 1], &[2]).build())
        },
    ));

    v.push(space(
        "captured flags",
        "every combination of: two flags, slot sizes 1..=4 per class, number of values, 0 to 2 labels, scratch register per class, fixed \
         stack slots, preferred and non-preferred sets per class",
        move |t, ch| {
            let mut f = Func {
                entry: Block::new(0),
                blocks: vec![BlockData {
                    first: 0,
                    end: 1,
                    ..Default::default()
                }],
                insts: vec![InstData {
                    kind: IKind::Ret,
                    ops: vec![],
                    clobbers: PRegSet::empty(),
                }],
                num_vregs: *ch.pick(&[0usize, 1, 7, 1 << 20]),
                labels: vec![],
                slot_size: [1 + ch.choose(4), 1 + ch.choose(4), 1 + ch.choose(4)],
                last_slot: ch.flag(),
                multi_defs: ch.flag(),
            };
            let l = [
                (VReg::new(0, RegClass::Int), Inst::new(0), Inst::new(1), 5u32),
                (VReg::new(3, RegClass::Vector), Inst::new(0), Inst::new(0), u32::MAX),
            ];
            for k in 0..2 {
                if ch.flag() {
                    f.labels.push(l[k]);
                }
            }
            let which = ch.choose(8);
            let e = EnvSpec {
                pref: [vec![0, 63], vec![1, 62], vec![2, 61]],
                nonpref: [vec![3], vec![4, 60], vec![]],
                ..Default::default()
            };
            let mut e = e.build();
            for c in 0..3 {
                if which >> c & 1 == 1 {
                    e.scratch_by_class[c] = Some(PReg::new(10 + c, ir::CLASSES[c]));
                }
            }
            for s in [PReg::new(33, RegClass::Float), PReg::new(0, RegClass::Int)] {
                if ch.flag() {
                    e.fixed_stack_slots.push(s);
                }
            }
            leaf(t, &f, &e)
        },
    ));

    let max_ops = tier.pick(2, 3);
    v.push(space(
        "captured instructions",
        format!(
            "one block of 2 instructions of every kind, up to {} operands from every constraint form, kind and position, 6 clobber sets",
            max_ops
        ),
        move |t, ch| {
            let mut insts = vec![];
            for k in 0..2 {
                let kind = *ch.pick(&[IKind::Op, IKind::Branch, IKind::Ret]);
                let n = if k == 0 { ch.choose(max_ops + 1) } else { 1 };
                let mut ops = vec![];
                for j in 0..n {
                    let c = ir::CLASSES[(j + k) % 3];
                    let con = [
                        OperandConstraint::Any,
                        OperandConstraint::Reg,
                        OperandConstraint::Stack,
                        OperandConstraint::FixedReg(PReg::new(63, c)),
                        OperandConstraint::FixedReg(PReg::new(0, c)),
                        OperandConstraint::Reuse(1),
                        OperandConstraint::Limit(4),
                    ];
                    let (con, kind, pos, na) = if k == 1 {
                        (con[1], OperandKind::Use, OperandPos::Late, false)
                    } else if j == 2 {
                        (*ch.pick(&con), OperandKind::Def, OperandPos::Early, false)
                    } else {
                        (
                            *ch.pick(&con),
                            *ch.pick(&[OperandKind::Def, OperandKind::Use]),
                            *ch.pick(&[OperandPos::Early, OperandPos::Late]),
                            ch.flag(),
                        )
                    };
                    ops.push(if na {
                        Operand::fixed_nonallocatable(PReg::new(20 + j, c))
                    } else {
                        Operand::new(VReg::new(5 * j + k, c), con, kind, pos)
                    });
                }
                let mut clobbers = PRegSet::empty();
                let w = ch.choose(if k == 0 { 6 } else { 2 });
                if w & 1 == 1 {
                    clobbers.add(PReg::new(63, RegClass::Int));
                    clobbers.add(PReg::new(0, RegClass::Float));
                }
                if w >= 2 {
                    clobbers.add(PReg::new(w, RegClass::Vector));
                }
                if w == 5 {
                    clobbers = clobbers.invert();
                }
                insts.push(InstData { kind, ops, clobbers });
            }
            let f = Func {
                entry: Block::new(0),
                blocks: vec![BlockData {
                    first: 0,
                    end: 2,
                    ..Default::default()
                }],
                insts,
                num_vregs: 16,
                labels: vec![],
                slot_size: [1, 1, 1],
                last_slot: false,
                multi_defs: false,
            };
            leaf(t, &f, &EnvSpec::ints(&[0, 1], &[2]).build())
        },
    ));
    v
}

fn trip_eq<T: Serialize + DeserializeOwned + PartialEq + std::fmt::Debug>(x: T) -> Result<(), String> {
    for y in trips(&x)? {
        same!("read back", &x, &y);
    }
    Ok(())
}

fn value_spaces() -> Vec<Space> {
    let one = |t: &mut Tally, what: String, r: Result<Result<(), String>, String>| {
        t.states += 1;
        t.transitions += 2;
        t.nontrivial += 1;
        t.sample(|| what.clone());
        match flat(r) {
            Ok(()) => Leaf::Ok,
            Err((k, e)) => bad(k, format!("{}: {}", what, e), what),
        }
    };
    let mut v = vec![];
    v.push(space(
        "registers and register sets",
        "all 192 registers; every pair of registers as a set, and its complement",
        move |t, ch| {
            let (a, b) = (ch.choose(192), ch.choose(193));
            let p = |k: usize| PReg::new(k % 64, ir::CLASSES[k / 64]);
            let mut s = PRegSet::empty();
            s.add(p(a));
            if b < 192 {
                s.add(p(b));
            }
            one(
                t,
                format!("{:?} {}", p(a), b),
                run::guard(|| {
                    trip_eq(p(a))?;
                    trip_eq(s)?;
                    trip_eq(s.invert())?;
                    trip_eq(Some(p(a)))?;
                    trip_eq(Allocation::reg(p(a)))?;
                    Ok(())
                }),
            )
        },
    ));
    v.push(space(
        "values, slots, points and edits",
        "indices at every power of two and its neighbours, every class, position and kind",
        move |t, ch| {
            let ix = super::enc::edges((1 << 21) - 2);
            let k = *ch.pick(&ix);
            let c = *ch.pick(&ir::CLASSES);
            one(
                t,
                format!("index {} class {:?}", k, c),
                run::guard(|| {
                    trip_eq(c)?;
                    let vr = VReg::new(k, c);
                    trip_eq(vr)?;
                    trip_eq(SpillSlot::new(k))?;
                    let (i, b) = (Inst::new(k * 255), Block::new(k * 255));
                    trip_eq(i)?;
                    trip_eq(b)?;
                    for p in [InstPosition::Before, InstPosition::After] {
                        trip_eq(p)?;
                        trip_eq(ProgPoint::new(i, p))?;
                    }
                    let al = [
                        Allocation::none(),
                        Allocation::reg(PReg::new(k % 64, c)),
                        Allocation::stack(SpillSlot::new(k)),
                    ];
                    for from in al {
                        trip_eq(from)?;
                        trip_eq(from.kind())?;
                        for to in al {
                            let e = Edit::Move { from, to };
                            for g in trips(&e)? {
                                let Edit::Move { from: x, to: y } = g;
                                same!("from", from, x);
                                same!("to", to, y);
                            }
                        }
                    }
                    for (a, z) in [(i, i), (i, Inst::new(k * 255 + 3)), (Inst::new(0), i)] {
                        for g in trips(&InstRange::new(a, z))? {
                            same!("length", z.index() - a.index(), g.len());
                            if g.len() > 0 {
                                same!("first", a, g.first());
                                same!("last", z.index() - 1, g.last().index());
                            }
                        }
                    }
                    let errs = [
                        RegAllocError::CritEdge(b, Block::new(3)),
                        RegAllocError::SSA(vr, i),
                        RegAllocError::SSA(vr, Inst::invalid()),
                        RegAllocError::BB(b),
                        RegAllocError::Branch(i),
                        RegAllocError::EntryLivein,
                        RegAllocError::DisallowedBranchArg(i),
                        RegAllocError::TooManyLiveRegs,
                        RegAllocError::TooManyOperands,
                    ];
                    for e in errs {
                        for g in trips(&e)? {
                            same!("error", format!("{:?}", e), format!("{:?}", g));
                        }
                    }
                    Ok(())
                }),
            )
        },
    ));
    v.push(space(
        "operands",
        "every constraint form with every register, reuse index and limit, kind, position and class; value indices at powers of two",
        move |t, ch| {
            let c = *ch.pick(&ir::CLASSES);
            let con = *ch.pick(&super::enc::constraints(c));
            one(
                t,
                format!("{:?} {:?}", c, con),
                run::guard(|| {
                    trip_eq(con)?;
                    for kind in [OperandKind::Def, OperandKind::Use] {
                        trip_eq(kind)?;
                        for pos in [OperandPos::Early, OperandPos::Late] {
                            trip_eq(pos)?;
                            for k in super::enc::edges((1 << 21) - 2) {
                                trip_eq(Operand::new(VReg::new(k, c), con, kind, pos))?;
                            }
                        }
                    }
                    for h in 0..64 {
                        trip_eq(Operand::fixed_nonallocatable(PReg::new(h, c)))?;
                    }
                    Ok(())
                }),
            )
        },
    ));
    v
}

pub fn p24(tier: Tier) -> Prop {
    let mut spaces = value_spaces();
    spaces.extend(raw_spaces(tier));
    spaces.extend(function_spaces(tier));
    Prop {
        note: "each function is captured, written and read back in a binary and a text format and captured again; every query of every \
               copy is compared, and both allocators are run on original and copy and the complete results compared; nontrivial = \
               functions whose output has edits (allocated functions), all others elsewhere",
        assumptions: &["block arguments of a block are a function of block and successor, as the trait says"],
        spaces,
    }
}
