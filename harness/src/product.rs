//! Oracle: explicit-state model checker for the product of an input function and an allocated
//! program. Independent of regalloc2's own checker: no joins, no abstraction; a state maps every
//! storage location to the set of values it currently holds, and all reachable states are visited.

use crate::ir::*;
use regalloc2::*;
use rustc_hash::{FxHashMap, FxHashSet};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kind {
    /// A use reads something else than its value.
    Value,
    /// ... because an instruction (clobber, scratch use, other operand's write) destroyed it.
    ValueTrashed,
    /// ... because a spill slot was overwritten.
    ValueSlot,
    Constraint,
    Interference,
    Edit,
    Frame,
    Debug,
    /// the same, in a block that the labelled value's definition does not dominate
    DebugOutside,
    DebugForm,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: Kind,
    pub what: String,
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Stats {
    pub states: u64,
    pub transitions: u64,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum LocInfo {
    Reg(PReg),
    Slot(usize, usize),
}

#[derive(Clone, Copy, Debug)]
enum Step {
    Move {
        from: u16,
        to: u16,
        at: u32,
    },
    Use {
        loc: u16,
        vreg: u16,
        inst: u32,
        op: u16,
    },
    Trash {
        loc: u16,
        cause: u8,
    },
    Kill {
        vreg: u16,
    },
    Def {
        loc: u16,
        vreg: u16,
    },
    /// `last` false: remember a success, so that the next `last` check of `idx` passes
    Dbg {
        loc: u16,
        idx: u16,
        point: u32,
        last: bool,
        outside: bool,
    },
}

const C_NEVER: u8 = 0;
const C_MOVE: u8 = 1;
const C_DEF: u8 = 2;
const C_CLOB: u8 = 3;
const C_SCRATCH: u8 = 4;
const C_OPWRITE: u8 = 5;
const C_OVERLAP: u8 = 6;

pub struct Opts {
    pub debug_locs: bool,
    /// fastalloc reports the whole range in which the value is live
    pub debug_clipped: bool,
}

impl Default for Opts {
    fn default() -> Self {
        Opts {
            debug_locs: false,
            debug_clipped: true,
        }
    }
}

pub fn allocatable(env: &MachineEnv) -> PRegSet {
    let mut s = PRegSet::empty();
    for c in 0..3 {
        s.union_from(env.preferred_regs_by_class[c]);
        s.union_from(env.non_preferred_regs_by_class[c]);
    }
    s
}

pub fn is_fixed_stack(env: &MachineEnv, p: PReg) -> bool {
    env.fixed_stack_slots.iter().any(|&q| q == p)
}

pub fn stacky(env: &MachineEnv, a: Allocation) -> bool {
    a.is_stack() || a.as_reg().map_or(false, |p| is_fixed_stack(env, p))
}

/// Unit range of a spill slot holding a value of class `c`.
pub fn slot_units(f: &Func, s: SpillSlot, c: RegClass) -> Option<(usize, usize)> {
    let sz = f.slot_size[c as usize];
    if f.last_slot {
        let end = s.index() + 1;
        if end < sz {
            return None;
        }
        Some((end - sz, sz))
    } else {
        Some((s.index(), sz))
    }
}

fn live_ins(f: &Func) -> Vec<Vec<u64>> {
    let w = (f.num_vregs + 63) / 64;
    let n = f.blocks.len();
    let mut li = vec![vec![0u64; w]; n];
    loop {
        let mut ch = false;
        for b in (0..n).rev() {
            let d = &f.blocks[b];
            let mut s = vec![0u64; w];
            for t in &d.succs {
                let t = t.index();
                for k in 0..w {
                    s[k] |= li[t][k];
                }
                // params are not live-in of t (removed below), so nothing to do here
            }
            for a in &d.args {
                for v in a {
                    s[v.vreg() / 64] |= 1 << (v.vreg() % 64);
                }
            }
            for k in (d.first..d.end).rev() {
                let ops = &f.insts[k].ops;
                for o in ops {
                    if o.as_fixed_nonallocatable().is_none() && o.kind() == OperandKind::Def {
                        s[o.vreg().vreg() / 64] &= !(1 << (o.vreg().vreg() % 64));
                    }
                }
                for o in ops {
                    if o.as_fixed_nonallocatable().is_none() && o.kind() == OperandKind::Use {
                        s[o.vreg().vreg() / 64] |= 1 << (o.vreg().vreg() % 64);
                    }
                }
            }
            for v in &d.params {
                s[v.vreg() / 64] &= !(1 << (v.vreg() % 64));
            }
            if s != li[b] {
                li[b] = s;
                ch = true;
            }
        }
        if !ch {
            return li;
        }
    }
}

pub fn check(f: &Func, env: &MachineEnv, out: &Output, opts: &Opts) -> (Stats, Vec<Violation>) {
    let mut v = vec![];
    static_checks(f, env, out, &mut v);
    let fatal = v.iter().any(|x| x.what.starts_with("FATAL"));
    if fatal {
        return (Stats::default(), v);
    }
    let st = match (f.num_vregs + 63) / 64 {
        0 | 1 => dynamic::<1>(f, env, out, opts, &mut v),
        2 => dynamic::<2>(f, env, out, opts, &mut v),
        3 | 4 => dynamic::<4>(f, env, out, opts, &mut v),
        5..=16 => dynamic::<16>(f, env, out, opts, &mut v),
        _ => {
            let (g, names) = dense(f);
            assert!(g.num_vregs <= 1024, "function too large for the product checker");
            let (st, w) = check(&g, env, out, opts);
            let known = |x: &Violation| v.iter().any(|y| y.kind == x.kind);
            let w: Vec<Violation> = w.into_iter().filter(|x| !known(x)).collect();
            v.extend(w.into_iter().map(|x| Violation {
                what: format!("{} (values renumbered: {})", x.what, names),
                ..x
            }));
            st
        }
    };
    (st, v)
}

/// `f` with its values numbered without gaps, and how.
fn dense(f: &Func) -> (Func, String) {
    let mut to = vec![usize::MAX; f.num_vregs];
    let mut n = 0;
    let mut names = String::new();
    let mut map = |v: VReg| {
        if to[v.vreg()] == usize::MAX {
            to[v.vreg()] = n;
            names += &format!("v{} was v{}; ", n, v.vreg());
            n += 1;
        }
        VReg::new(to[v.vreg()], v.class())
    };
    let mut g = f.clone();
    for b in &mut g.blocks {
        b.params.iter_mut().for_each(|v| *v = map(*v));
        b.args.iter_mut().flatten().for_each(|v| *v = map(*v));
    }
    for i in &mut g.insts {
        for o in &mut i.ops {
            if o.as_fixed_nonallocatable().is_none() {
                *o = Operand::new(map(o.vreg()), o.constraint(), o.kind(), o.pos());
            }
        }
    }
    g.labels.iter_mut().for_each(|l| l.0 = map(l.0));
    g.num_vregs = n;
    names.truncate(400);
    (g, names)
}

fn static_checks(f: &Func, env: &MachineEnv, out: &Output, vs: &mut Vec<Violation>) {
    let mut bad = |kind: Kind, what: String| {
        if !vs.iter().any(|x| x.kind == kind) {
            vs.push(Violation { kind, what });
        }
    };
    let all = allocatable(env);
    if out.inst_alloc_offsets.len() != f.insts.len() {
        bad(
            Kind::Constraint,
            format!(
                "FATAL {} alloc offsets for {} instructions",
                out.inst_alloc_offsets.len(),
                f.insts.len()
            ),
        );
        return;
    }
    let mut total = 0;
    for (k, d) in f.insts.iter().enumerate() {
        if out.inst_alloc_offsets[k] as usize != total {
            bad(
                Kind::Constraint,
                format!(
                    "FATAL inst{} alloc offset {} expected {}",
                    k, out.inst_alloc_offsets[k], total
                ),
            );
            return;
        }
        total += d.ops.len();
    }
    if total != out.allocs.len() {
        bad(
            Kind::Constraint,
            format!("FATAL {} allocs for {} operands", out.allocs.len(), total),
        );
        return;
    }
    let mut frame = |a: Allocation, c: RegClass, at: &dyn Fn() -> String| {
        if let Some(s) = a.as_stack() {
            match slot_units(f, s, c) {
                None => Some(format!("{}: {} extends below the frame", at(), a)),
                Some((st, sz)) if st + sz > out.num_spillslots => Some(format!(
                    "{}: {} (units {}..{}) outside frame of {}",
                    at(),
                    a,
                    st,
                    st + sz,
                    out.num_spillslots
                )),
                Some((st, sz)) if st % sz != 0 => Some(format!(
                    "{}: {} (units {}..{}) misaligned",
                    at(),
                    a,
                    st,
                    st + sz
                )),
                _ => None,
            }
        } else {
            None
        }
    };
    for (k, d) in f.insts.iter().enumerate() {
        let al = out.inst_allocs(Inst::new(k));
        for (i, (&op, &a)) in d.ops.iter().zip(al).enumerate() {
            if let Some(p) = op.as_fixed_nonallocatable() {
                if a != Allocation::reg(p) {
                    bad(
                        Kind::Constraint,
                        format!("inst{} op{} non-allocatable {} got {}", k, i, p, a),
                    );
                }
                continue;
            }
            if a.is_none() {
                bad(
                    Kind::Constraint,
                    format!("FATAL inst{} op{} {} has no allocation", k, i, op),
                );
                continue;
            }
            if let Some(p) = a.as_reg() {
                if p.class() != op.class() {
                    bad(
                        Kind::Constraint,
                        format!("inst{} op{} {} got {} of another class", k, i, op, a),
                    );
                }
            }
            if let Some(e) = frame(a, op.class(), &|| format!("inst{} op{}", k, i)) {
                bad(Kind::Frame, e);
            }
            let realreg = a
                .as_reg()
                .map_or(false, |p| all.contains(p) && !is_fixed_stack(env, p));
            let ok = match op.constraint() {
                OperandConstraint::Any => realreg || stacky(env, a),
                OperandConstraint::Reg => realreg,
                OperandConstraint::Stack => stacky(env, a),
                OperandConstraint::FixedReg(p) => a == Allocation::reg(p),
                OperandConstraint::Limit(n) => realreg && a.as_reg().unwrap().hw_enc() < n,
                OperandConstraint::Reuse(j) => realreg && a == al[j],
            };
            if !ok {
                bad(
                    Kind::Constraint,
                    format!("inst{} op{} {} got {}", k, i, op, a),
                );
            }
        }
        // Interference
        let units = |i: usize| -> (Allocation, Option<(usize, usize)>) {
            let a = al[i];
            (
                a,
                a.as_stack()
                    .and_then(|s| slot_units(f, s, d.ops[i].class())),
            )
        };
        let overlap = |i: usize, j: usize| -> bool {
            let (a, ua) = units(i);
            let (b, ub) = units(j);
            match (ua, ub) {
                (Some((s, n)), Some((t, m))) => s < t + m && t < s + n,
                _ => a == b,
            }
        };
        for i in 0..d.ops.len() {
            let oi = d.ops[i];
            if oi.as_fixed_nonallocatable().is_some() {
                continue;
            }
            let late_touch = !(oi.kind() == OperandKind::Use && oi.pos() == OperandPos::Early);
            if late_touch {
                if let Some(p) = al[i].as_reg() {
                    if d.clobbers.contains(p) {
                        bad(
                            Kind::Interference,
                            format!("inst{} op{} {} sits in clobbered {}", k, i, oi, p),
                        );
                    }
                }
            }
            for j in i + 1..d.ops.len() {
                let oj = d.ops[j];
                if oj.as_fixed_nonallocatable().is_some() {
                    continue;
                }
                let (ku, kv) = (oi.kind() == OperandKind::Use, oj.kind() == OperandKind::Use);
                if ku && kv {
                    continue; // equality of contents is judged dynamically
                }
                if oi.vreg() == oj.vreg() && ku == kv {
                    // several definitions of one value: one common location
                    if !overlap(i, j) && !ku {
                        bad(
                            Kind::Constraint,
                            format!(
                                "inst{} defines {} in two places {} and {}",
                                k,
                                oi.vreg(),
                                al[i],
                                al[j]
                            ),
                        );
                    }
                    continue;
                }
                let span = |o: Operand| match (o.kind(), o.pos()) {
                    (OperandKind::Use, OperandPos::Early) => 1,
                    (OperandKind::Def, OperandPos::Late) => 2,
                    _ => 3,
                };
                if span(oi) & span(oj) != 0 && overlap(i, j) {
                    bad(
                        Kind::Interference,
                        format!(
                            "inst{} op{} {} and op{} {} share {}",
                            k, i, oi, j, oj, al[i]
                        ),
                    );
                }
            }
        }
    }
    // Edits
    if let Some(e) = walk_problem(f, out) {
        bad(Kind::Edit, e);
    }
    let ib = f.insn_block();
    let mut last: Option<ProgPoint> = None;
    for (p, Edit::Move { from, to }) in &out.edits {
        if let Some(l) = last {
            if *p < l {
                bad(
                    Kind::Edit,
                    format!("edits out of order: {:?} after {:?}", p, l),
                );
            }
        }
        last = Some(*p);
        let k = p.inst().index();
        if k >= f.insts.len() || ib[k] == usize::MAX {
            bad(
                Kind::Edit,
                format!("FATAL edit at {:?} outside the function", p),
            );
            return;
        }
        if p.pos() == InstPosition::After && f.blocks[ib[k]].end == k + 1 {
            bad(
                Kind::Edit,
                format!("edit {} <- {} after the terminator inst{}", to, from, k),
            );
        }
        if from.is_none() || to.is_none() {
            bad(
                Kind::Edit,
                format!(
                    "FATAL edit at {:?} has an empty side: {} <- {}",
                    p, to, from
                ),
            );
            return;
        }
        if stacky(env, *from) && stacky(env, *to) {
            bad(
                Kind::Edit,
                format!("stack-to-stack move at {:?}: {} <- {}", p, to, from),
            );
        }
        if let (Some(a), Some(b)) = (from.as_reg(), to.as_reg()) {
            if a.class() != b.class() {
                bad(
                    Kind::Edit,
                    format!("move between classes at {:?}: {} <- {}", p, to, from),
                );
            }
        }
        for (w, a) in [("writes", *to), ("reads", *from)] {
            if let Some(r) = a.as_reg() {
                let legal = all.contains(r)
                    || is_fixed_stack(env, r)
                    || env.scratch_by_class.iter().any(|&s| s == Some(r));
                if !legal {
                    bad(
                        Kind::Interference,
                        format!("move at {:?} {} reserved register {}", p, w, r),
                    );
                }
            }
        }
        let c = from
            .as_reg()
            .or(to.as_reg())
            .map_or(RegClass::Int, |r| r.class());
        for a in [*from, *to] {
            if let Some(e) = frame(a, c, &|| format!("edit at {:?}", p)) {
                bad(Kind::Frame, e);
            }
        }
    }
}

/// For each block the blocks that dominate it, and the block that defines each value.
fn dominators(f: &Func) -> (Vec<Vec<bool>>, Vec<usize>) {
    let n = f.blocks.len();
    let e = f.entry.index();
    let mut dom = vec![vec![true; n]; n];
    dom[e] = vec![false; n];
    dom[e][e] = true;
    loop {
        let mut ch = false;
        for b in (0..n).filter(|&b| b != e) {
            let mut s = vec![true; n];
            for p in 0..n {
                if f.blocks[p].succs.iter().any(|t| t.index() == b) {
                    for k in 0..n {
                        s[k] &= dom[p][k];
                    }
                }
            }
            s[b] = true;
            if s != dom[b] {
                dom[b] = s;
                ch = true;
            }
        }
        if !ch {
            break;
        }
    }
    let mut def = vec![e; f.num_vregs];
    for (b, d) in f.blocks.iter().enumerate() {
        for p in &d.params {
            def[p.vreg()] = b;
        }
        for k in d.first..d.end {
            for o in &f.insts[k].ops {
                if o.kind() == OperandKind::Def && o.as_fixed_nonallocatable().is_none() {
                    def[o.vreg().vreg()] = b;
                }
            }
        }
    }
    (dom, def)
}

type M<const N: usize> = [u64; N];

fn dynamic<const N: usize>(
    f: &Func,
    env: &MachineEnv,
    out: &Output,
    opts: &Opts,
    vs: &mut Vec<Violation>,
) -> Stats {
    // --- locations
    let mut locs: Vec<LocInfo> = vec![];
    let mut map: FxHashMap<(bool, usize, usize), u16> = FxHashMap::default();
    let mut loc = |a: Allocation, c: RegClass| -> Option<u16> {
        let (key, info) = if let Some(r) = a.as_reg() {
            ((true, r.index(), 0), LocInfo::Reg(r))
        } else if let Some(s) = a.as_stack() {
            let (st, n) = slot_units(f, s, c)?;
            ((false, st, n), LocInfo::Slot(st, n))
        } else {
            return None;
        };
        Some(*map.entry(key).or_insert_with(|| {
            locs.push(info);
            (locs.len() - 1) as u16
        }))
    };
    // --- compile blocks
    let ni = f.insts.len();
    let mut edits_at: Vec<Vec<(Allocation, Allocation)>> = vec![vec![]; 2 * ni];
    for (p, Edit::Move { from, to }) in &out.edits {
        edits_at[p.to_index() as usize].push((*from, *to));
    }
    let mut code: Vec<Vec<Step>> = Vec::with_capacity(f.blocks.len());
    let mut ok = true;
    let (doms, def_block) = if opts.debug_locs {
        dominators(f)
    } else {
        (vec![], vec![])
    };
    for (bi, d) in f.blocks.iter().enumerate() {
        let mut c: Vec<Step> = vec![];
        let outside = |lab: u32| {
            f.labels
                .iter()
                .any(|l| l.3 == lab && !doms[bi][def_block[l.0.vreg()]])
        };
        for k in d.first..d.end {
            let dbg_steps = |c: &mut Vec<Step>,
                             pt: usize,
                             loc: &mut dyn FnMut(Allocation, RegClass) -> Option<u16>,
                             edge: bool,
                             last: bool| {
                if opts.debug_locs {
                    for (idx, &(_, s, e, a)) in out.debug_locations.iter().enumerate() {
                        let first = !opts.debug_clipped && pt % 2 == 1;
                        if !last && !edge && !first {
                            continue;
                        }
                        if s.to_index() as usize <= pt && pt < e.to_index() as usize {
                            // class of the labelled value(s)
                            let lab = out.debug_locations[idx].0;
                            let cl = f
                                .labels
                                .iter()
                                .find(|l| l.3 == lab)
                                .map_or(RegClass::Int, |l| l.0.class());
                            if let Some(l) = loc(a, cl) {
                                c.push(Step::Dbg {
                                    loc: l,
                                    idx: idx as u16,
                                    point: pt as u32,
                                    last,
                                    outside: outside(lab),
                                });
                            }
                        }
                    }
                }
            };
            let emit_edits = |c: &mut Vec<Step>,
                              pt: usize,
                              loc: &mut dyn FnMut(Allocation, RegClass) -> Option<u16>,
                              ok: &mut bool| {
                // Moves at a block's end stand for the edges: a location may hold its value
                // before or after them. The single-pass allocator's points after an instruction
                // include the moments before and between the moves inserted there.
                let edge = pt % 2 == 0 && pt / 2 + 1 == d.end;
                for &(a, b) in &edits_at[pt] {
                    dbg_steps(c, pt, loc, edge, false);
                    let cl = a
                        .as_reg()
                        .or(b.as_reg())
                        .map_or(RegClass::Int, |r| r.class());
                    match (loc(a, cl), loc(b, cl)) {
                        (Some(from), Some(to)) => c.push(Step::Move {
                            from,
                            to,
                            at: pt as u32,
                        }),
                        _ => *ok = false,
                    }
                }
                dbg_steps(c, pt, loc, edge, true);
            };
            emit_edits(&mut c, 2 * k, &mut loc, &mut ok);
            let inst = &f.insts[k];
            let al = out.inst_allocs(Inst::new(k));
            let mut l = vec![0u16; al.len()];
            for (i, &o) in inst.ops.iter().enumerate() {
                if o.as_fixed_nonallocatable().is_some() {
                    continue;
                }
                match loc(al[i], o.class()) {
                    Some(x) => l[i] = x,
                    None => {
                        ok = false;
                    }
                }
            }
            let each = |want_kind: OperandKind, want_pos: OperandPos| {
                inst.ops
                    .iter()
                    .enumerate()
                    .filter(move |(_, o)| {
                        o.as_fixed_nonallocatable().is_none()
                            && o.kind() == want_kind
                            && o.pos() == want_pos
                    })
                    .map(|(i, o)| (i, *o))
            };
            // The client may use the scratch registers anywhere inside the instruction.
            let mut scr = vec![];
            for s in env.scratch_by_class.iter().flatten() {
                if !inst
                    .ops
                    .iter()
                    .any(|o| o.constraint() == OperandConstraint::FixedReg(*s))
                {
                    scr.push(loc(Allocation::reg(*s), s.class()).unwrap());
                }
            }
            for &x in &scr {
                c.push(Step::Trash {
                    loc: x,
                    cause: C_SCRATCH,
                });
            }
            // Early definitions may be written before anything is read.
            for (i, _) in each(OperandKind::Def, OperandPos::Early) {
                c.push(Step::Trash {
                    loc: l[i],
                    cause: C_OPWRITE,
                });
            }
            for (i, o) in each(OperandKind::Use, OperandPos::Early) {
                c.push(Step::Use {
                    loc: l[i],
                    vreg: o.vreg().vreg() as u16,
                    inst: k as u32,
                    op: i as u16,
                });
            }
            // Late definitions and clobbers may be written before late uses are read.
            for (i, _) in each(OperandKind::Def, OperandPos::Late) {
                c.push(Step::Trash {
                    loc: l[i],
                    cause: C_OPWRITE,
                });
            }
            for p in inst.clobbers {
                let x = loc(Allocation::reg(p), p.class()).unwrap();
                c.push(Step::Trash {
                    loc: x,
                    cause: C_CLOB,
                });
            }
            for (i, o) in inst.ops.iter().enumerate() {
                // writes to non-allocatable registers
                if let Some(p) = o.as_fixed_nonallocatable() {
                    let _ = (i, p);
                }
            }
            for (i, o) in each(OperandKind::Use, OperandPos::Late) {
                c.push(Step::Use {
                    loc: l[i],
                    vreg: o.vreg().vreg() as u16,
                    inst: k as u32,
                    op: i as u16,
                });
            }
            for (_, o) in each(OperandKind::Def, OperandPos::Early)
                .chain(each(OperandKind::Def, OperandPos::Late))
            {
                c.push(Step::Kill {
                    vreg: o.vreg().vreg() as u16,
                });
            }
            for (i, o) in each(OperandKind::Def, OperandPos::Early)
                .chain(each(OperandKind::Def, OperandPos::Late))
            {
                c.push(Step::Def {
                    loc: l[i],
                    vreg: o.vreg().vreg() as u16,
                });
            }
            // Nothing placed after the terminator is reached.
            if k + 1 != d.end {
                emit_edits(&mut c, 2 * k + 1, &mut loc, &mut ok);
            }
        }
        code.push(c);
    }
    let _ = ok;
    let nl = locs.len();
    // overlapping spill slots
    let mut over: Vec<Vec<u16>> = vec![vec![]; nl];
    for i in 0..nl {
        for j in 0..nl {
            if let (LocInfo::Slot(s, n), LocInfo::Slot(t, m)) = (locs[i], locs[j]) {
                if i != j && s < t + m && t < s + n {
                    over[i].push(j as u16);
                }
            }
        }
    }
    let keep_all = opts.debug_locs;
    let li = if keep_all { vec![] } else { live_ins(f) };
    let r = bfs::<N, false>(f, out, &code, &locs, &over, &li, opts);
    let st = r.0;
    for v in r.1 {
        if v.kind == Kind::Value {
            // classify by what destroyed the value
            let r2 = bfs::<N, true>(f, out, &code, &locs, &over, &li, opts);
            vs.extend(
                r2.1.into_iter().filter(|x| {
                    matches!(x.kind, Kind::Value | Kind::ValueSlot | Kind::ValueTrashed)
                }),
            );
        } else {
            vs.push(v);
        }
    }
    st
}

fn bfs<const N: usize, const TRACK: bool>(
    f: &Func,
    out: &Output,
    code: &[Vec<Step>],
    locs: &[LocInfo],
    over: &[Vec<u16>],
    li: &[Vec<u64>],
    opts: &Opts,
) -> (Stats, Vec<Violation>) {
    let nl = locs.len();
    let mut st = Stats::default();
    let mut vs: Vec<Violation> = vec![];
    let mut seen: FxHashSet<(u32, Box<[M<N>]>)> = FxHashSet::default();
    let mut work: Vec<(u32, Box<[M<N>]>, Vec<u8>)> = vec![];
    let init: Box<[M<N>]> = vec![[0u64; N]; nl].into_boxed_slice();
    let e = f.entry.index() as u32;
    seen.insert((e, init.clone()));
    work.push((e, init, vec![C_NEVER; if TRACK { nl } else { 0 }]));
    let show = |l: u16| match locs[l as usize] {
        LocInfo::Reg(p) => p.to_string(),
        LocInfo::Slot(s, n) => format!("stack[{}..{}]", s, s + n),
    };
    while let Some((b, mut s, mut cz)) = work.pop() {
        st.states += 1;
        assert!(st.states < 2_000_000, "product state cap");
        let steps = &code[b as usize];
        let mut dbg_ok: FxHashSet<u16> = FxHashSet::default();
        for step in steps {
            match *step {
                Step::Move { from, to, at: _ } => {
                    let m = s[from as usize];
                    for &o in &over[to as usize] {
                        s[o as usize] = [0; N];
                        if TRACK {
                            cz[o as usize] = C_OVERLAP;
                        }
                    }
                    s[to as usize] = m;
                    if TRACK && from != to {
                        cz[to as usize] = if m == [0; N] {
                            cz[from as usize]
                        } else {
                            C_MOVE
                        };
                    }
                }
                Step::Use {
                    loc,
                    vreg,
                    inst,
                    op,
                } => {
                    let m = s[loc as usize][vreg as usize / 64] >> (vreg % 64) & 1;
                    if m == 0 {
                        let slot = matches!(locs[loc as usize], LocInfo::Slot(..));
                        let (kind, why) = if !TRACK {
                            (Kind::Value, "")
                        } else {
                            match cz[loc as usize] {
                                C_NEVER => (Kind::Value, "never written"),
                                C_CLOB => (Kind::ValueTrashed, "destroyed by a clobber"),
                                C_SCRATCH => (
                                    Kind::ValueTrashed,
                                    "destroyed by an instruction's use of the scratch register",
                                ),
                                C_OPWRITE => (
                                    Kind::ValueTrashed,
                                    "overwritten by an operand of the same instruction",
                                ),
                                C_OVERLAP => {
                                    (Kind::ValueSlot, "overlapping spill slot was written")
                                }
                                C_MOVE if slot => (
                                    Kind::ValueSlot,
                                    "spill slot holds something else (moved there)",
                                ),
                                C_DEF if slot => (
                                    Kind::ValueSlot,
                                    "spill slot holds something else (defined there)",
                                ),
                                C_MOVE => (Kind::Value, "holds something else (moved there)"),
                                _ => (Kind::Value, "holds something else (defined there)"),
                            }
                        };
                        if !vs.iter().any(|x| x.kind == kind) {
                            vs.push(Violation {
                                kind,
                                what: format!(
                                    "inst{} op{} ({}) reads {}, which does not hold v{} on some path: {}",
                                    inst,
                                    op,
                                    f.insts[inst as usize].ops[op as usize],
                                    show(loc),
                                    vreg,
                                    why
                                ),
                            });
                        }
                        if !TRACK {
                            return (st, vs);
                        }
                    }
                }
                Step::Trash { loc, cause } => {
                    s[loc as usize] = [0; N];
                    if TRACK {
                        cz[loc as usize] = cause;
                    }
                    for &o in &over[loc as usize] {
                        s[o as usize] = [0; N];
                        if TRACK {
                            cz[o as usize] = C_OVERLAP;
                        }
                    }
                }
                Step::Kill { vreg } => {
                    let (w, m) = (vreg as usize / 64, !(1u64 << (vreg % 64)));
                    for x in s.iter_mut() {
                        x[w] &= m;
                    }
                }
                Step::Def { loc, vreg } => {
                    for &o in &over[loc as usize] {
                        s[o as usize] = [0; N];
                        if TRACK {
                            cz[o as usize] = C_OVERLAP;
                        }
                    }
                    s[loc as usize] = [0; N];
                    s[loc as usize][vreg as usize / 64] |= 1 << (vreg % 64);
                    if TRACK {
                        cz[loc as usize] = C_DEF;
                    }
                }
                Step::Dbg {
                    loc,
                    idx,
                    point,
                    last,
                    outside,
                } => {
                    let (lab, rs, re, al) = out.debug_locations[idx as usize];
                    let inst = point as usize / 2;
                    let mut any = false;
                    let mut covered = false;
                    for (v, a, z, l) in &f.labels {
                        if *l != lab {
                            continue;
                        }
                        let inside = a.index() <= inst && inst < z.index();
                        covered |= inside;
                        if !opts.debug_clipped || inside {
                            any |= s[loc as usize][v.vreg() / 64] >> (v.vreg() % 64) & 1 == 1;
                        }
                    }
                    if !last {
                        if any {
                            dbg_ok.insert(idx);
                        }
                        continue;
                    }
                    any |= dbg_ok.remove(&idx);
                    if opts.debug_clipped && !covered {
                        if !vs.iter().any(|x| x.kind == Kind::DebugForm) {
                            vs.push(Violation {
                                kind: Kind::DebugForm,
                                what: format!(
                                    "label {} reported at {} for {:?}..{:?}, beyond the requested range",
                                    lab, al, rs, re
                                ),
                            });
                        }
                        continue;
                    }
                    let kind = if outside {
                        Kind::DebugOutside
                    } else {
                        Kind::Debug
                    };
                    if !any && !vs.iter().any(|x| x.kind == kind) {
                        vs.push(Violation {
                            kind,
                            what: format!(
                                "label {} reported in {} for {:?}..{:?}, but at {:?} it does not hold the labelled value",
                                lab, al, rs, re, ProgPoint::from_index(point)
                            ),
                        });
                    }
                }
            }
        }
        st.transitions += steps.len() as u64;
        let d = &f.blocks[b as usize];
        for (j, t) in d.succs.iter().enumerate() {
            let t = t.index();
            let ps = &f.blocks[t].params;
            let mut n = s.clone();
            if !ps.is_empty() {
                let args = &d.args[j];
                for x in 0..nl {
                    let old = s[x];
                    for p in ps {
                        n[x][p.vreg() / 64] &= !(1 << (p.vreg() % 64));
                    }
                    for (p, a) in ps.iter().zip(args) {
                        if old[a.vreg() / 64] >> (a.vreg() % 64) & 1 == 1 {
                            n[x][p.vreg() / 64] |= 1 << (p.vreg() % 64);
                        }
                    }
                }
            }
            if !li.is_empty() {
                // Values dead on entry can never be read again: drop them (their bits are killed by
                // any redefinition, so merging such states keeps the same futures).
                let mut keep = [0u64; N];
                for (k, w) in li[t].iter().enumerate() {
                    keep[k] = *w;
                }
                for p in ps {
                    keep[p.vreg() / 64] |= 1 << (p.vreg() % 64);
                }
                for x in n.iter_mut() {
                    for k in 0..N {
                        x[k] &= keep[k];
                    }
                }
            }
            st.transitions += 1;
            let key = (t as u32, n);
            if !seen.contains(&key) {
                seen.insert(key.clone());
                work.push((key.0, key.1, cz.clone()));
            }
        }
    }
    (st, vs)
}

/// Walks every block and compares with what the sorted list of edits says: every edit of the block once, in
/// order, at its point, between the instructions of the block.
pub fn walk_problem(f: &impl Function, out: &Output) -> Option<String> {
    for b in 0..f.num_blocks() {
        let b = Block::new(b);
        let r = f.block_insns(b);
        // (None = instruction, Some(address of the edit))
        let mut want: Vec<(Inst, Option<*const Edit>)> = vec![];
        for i in r.iter() {
            let at = |pos| {
                out.edits
                    .iter()
                    .filter(move |(p, _)| *p == ProgPoint::new(i, pos))
                    .map(move |(_, e)| (i, Some(e as *const Edit)))
            };
            want.extend(at(InstPosition::Before));
            want.push((i, None));
            if i != r.last() {
                want.extend(at(InstPosition::After));
            }
        }
        let mut got = vec![];
        for x in out.block_insts_and_edits(f, b) {
            if got.len() > want.len() {
                break;
            }
            got.push(match x {
                InstOrEdit::Inst(i) => (Some(i), None),
                InstOrEdit::Edit(e) => (None, Some(e as *const Edit)),
            });
        }
        let same = got.len() == want.len()
            && got.iter().zip(&want).all(|(g, w)| match w.1 {
                None => *g == (Some(w.0), None),
                Some(e) => *g == (None, Some(e)),
            });
        if !same {
            let n = |e: *const Edit| {
                (e as usize).wrapping_sub(out.edits.as_ptr() as usize)
                    / std::mem::size_of::<(ProgPoint, Edit)>()
            };
            return Some(format!(
                "walking {:?} yields {:?} instead of {:?} (edits by number)",
                b,
                got.iter().map(|g| (g.0, g.1.map(n))).collect::<Vec<_>>(),
                want.iter().map(|g| (g.0, g.1.map(n))).collect::<Vec<_>>()
            ));
        }
    }
    None
}
