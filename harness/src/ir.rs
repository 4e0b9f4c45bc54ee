//! Input functions and machine environments used by the scopes.

use regalloc2::*;
use std::fmt::Write;

pub const I: RegClass = RegClass::Int;
pub const FL: RegClass = RegClass::Float;
pub const VE: RegClass = RegClass::Vector;
pub const CLASSES: [RegClass; 3] = [I, FL, VE];

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum IKind {
    Op,
    Branch,
    Ret,
}

#[derive(Clone, Debug)]
pub struct InstData {
    pub kind: IKind,
    pub ops: Vec<Operand>,
    pub clobbers: PRegSet,
}

#[derive(Clone, Debug, Default)]
pub struct BlockData {
    pub first: usize,
    pub end: usize,
    pub params: Vec<VReg>,
    pub succs: Vec<Block>,
    pub preds: Vec<Block>,
    /// per successor
    pub args: Vec<Vec<VReg>>,
}

#[derive(Clone, Debug)]
pub struct Func {
    pub entry: Block,
    pub blocks: Vec<BlockData>,
    pub insts: Vec<InstData>,
    pub num_vregs: usize,
    pub labels: Vec<(VReg, Inst, Inst, u32)>,
    pub slot_size: [usize; 3],
    pub last_slot: bool,
    pub multi_defs: bool,
}

impl Function for Func {
    fn num_insts(&self) -> usize {
        self.insts.len()
    }
    fn num_blocks(&self) -> usize {
        self.blocks.len()
    }
    fn entry_block(&self) -> Block {
        self.entry
    }
    fn block_insns(&self, b: Block) -> InstRange {
        let d = &self.blocks[b.index()];
        InstRange::new(Inst::new(d.first), Inst::new(d.end))
    }
    fn block_succs(&self, b: Block) -> &[Block] {
        &self.blocks[b.index()].succs
    }
    fn block_preds(&self, b: Block) -> &[Block] {
        &self.blocks[b.index()].preds
    }
    fn block_params(&self, b: Block) -> &[VReg] {
        &self.blocks[b.index()].params
    }
    fn is_ret(&self, i: Inst) -> bool {
        self.insts[i.index()].kind == IKind::Ret
    }
    fn is_branch(&self, i: Inst) -> bool {
        self.insts[i.index()].kind == IKind::Branch
    }
    fn branch_blockparams(&self, b: Block, _: Inst, s: usize) -> &[VReg] {
        &self.blocks[b.index()].args[s]
    }
    fn inst_operands(&self, i: Inst) -> &[Operand] {
        &self.insts[i.index()].ops
    }
    fn inst_clobbers(&self, i: Inst) -> PRegSet {
        self.insts[i.index()].clobbers
    }
    fn num_vregs(&self) -> usize {
        self.num_vregs
    }
    fn debug_value_labels(&self) -> &[(VReg, Inst, Inst, u32)] {
        &self.labels
    }
    fn spillslot_size(&self, c: RegClass) -> usize {
        self.slot_size[c as usize]
    }
    fn multi_spillslot_named_by_last_slot(&self) -> bool {
        self.last_slot
    }
    fn allow_multiple_vreg_defs(&self) -> bool {
        self.multi_defs
    }
}

impl Func {
    pub fn dump(&self) -> String {
        let mut s = String::new();
        let _ = writeln!(
            s,
            "entry {:?} vregs {} slot_size {:?} last_slot {} multi_defs {} labels {:?}",
            self.entry,
            self.num_vregs,
            self.slot_size,
            self.last_slot,
            self.multi_defs,
            self.labels
        );
        for (i, b) in self.blocks.iter().enumerate() {
            let ps: Vec<String> = b.params.iter().map(|v| v.to_string()).collect();
            let _ = writeln!(
                s,
                "block{}({}) preds {:?}",
                i,
                ps.join(", "),
                b.preds.iter().map(|b| b.index()).collect::<Vec<_>>()
            );
            for k in b.first..b.end {
                let d = &self.insts[k];
                let ops: Vec<String> = d.ops.iter().map(|o| o.to_string()).collect();
                let cl: Vec<String> = d.clobbers.into_iter().map(|p| p.to_string()).collect();
                let _ = write!(s, "  inst{}: {:?} {}", k, d.kind, ops.join(", "));
                if !cl.is_empty() {
                    let _ = write!(s, " clobbers {}", cl.join(" "));
                }
                if k + 1 == b.end {
                    for (j, t) in b.succs.iter().enumerate() {
                        let a: Vec<String> = b
                            .args
                            .get(j)
                            .map_or(vec![], |a| a.iter().map(|v| v.to_string()).collect());
                        let _ = write!(s, " ->block{}({})", t.index(), a.join(", "));
                    }
                }
                let _ = writeln!(s);
            }
        }
        s
    }
    /// Multiply every value number by `k`.
    pub fn spread(&mut self, k: usize) {
        let m = |v: VReg| VReg::new(v.vreg() * k, v.class());
        for i in &mut self.insts {
            for o in &mut i.ops {
                if o.as_fixed_nonallocatable().is_none() {
                    *o = Operand::new(m(o.vreg()), o.constraint(), o.kind(), o.pos());
                }
            }
        }
        for b in &mut self.blocks {
            b.params.iter_mut().for_each(|v| *v = m(*v));
            b.args.iter_mut().flatten().for_each(|v| *v = m(*v));
        }
        self.labels.iter_mut().for_each(|l| l.0 = m(l.0));
        self.num_vregs *= k;
    }
    pub fn insn_block(&self) -> Vec<usize> {
        let mut v = vec![usize::MAX; self.insts.len()];
        for (b, d) in self.blocks.iter().enumerate() {
            for k in d.first..d.end {
                v[k] = b;
            }
        }
        v
    }
}

pub fn env_dump(e: &MachineEnv) -> String {
    let set = |s: &PRegSet| {
        s.into_iter()
            .map(|p| p.to_string())
            .collect::<Vec<_>>()
            .join(",")
    };
    format!(
        "env pref [{}] nonpref [{}] scratch [{}] fixed_stack [{}]\n",
        e.preferred_regs_by_class
            .iter()
            .map(set)
            .collect::<Vec<_>>()
            .join(" | "),
        e.non_preferred_regs_by_class
            .iter()
            .map(set)
            .collect::<Vec<_>>()
            .join(" | "),
        e.scratch_by_class
            .iter()
            .map(|p| p.map_or("-".into(), |p| p.to_string()))
            .collect::<Vec<_>>()
            .join(" | "),
        e.fixed_stack_slots
            .iter()
            .map(|p| p.to_string())
            .collect::<Vec<_>>()
            .join(",")
    )
}

pub fn out_dump(f: &Func, o: &Output) -> String {
    let mut s = format!("output: {} spillslots\n", o.num_spillslots);
    for k in 0..f.insts.len() {
        for (p, e) in &o.edits {
            if p.inst().index() == k && p.pos() == InstPosition::Before {
                let Edit::Move { from, to } = e;
                let _ = writeln!(s, "  {:?}: {} <- {}", p, to, from);
            }
        }
        let al: Vec<String> = if k < o.inst_alloc_offsets.len() {
            o.inst_allocs(Inst::new(k))
                .iter()
                .map(|a| a.to_string())
                .collect()
        } else {
            vec!["?".into()]
        };
        let _ = writeln!(s, "  inst{}: {}", k, al.join(", "));
        for (p, e) in &o.edits {
            if p.inst().index() == k && p.pos() == InstPosition::After {
                let Edit::Move { from, to } = e;
                let _ = writeln!(s, "  {:?}: {} <- {}", p, to, from);
            }
        }
    }
    if !o.debug_locations.is_empty() {
        let _ = writeln!(s, "  debug_locations {:?}", o.debug_locations);
    }
    s
}

#[derive(Clone, Debug, Default)]
pub struct EnvSpec {
    pub pref: [Vec<usize>; 3],
    pub nonpref: [Vec<usize>; 3],
    pub scratch: [Option<usize>; 3],
    pub fixed_stack: Vec<(usize, usize)>, // (hw_enc, class)
}

impl EnvSpec {
    pub fn ints(p: &[usize], np: &[usize]) -> Self {
        let mut e = EnvSpec::default();
        e.pref[0] = p.to_vec();
        e.nonpref[0] = np.to_vec();
        e
    }
    pub fn scratch(mut self, c: usize, r: usize) -> Self {
        self.scratch[c] = Some(r);
        self
    }
    pub fn stack(mut self, rs: &[(usize, usize)]) -> Self {
        self.fixed_stack = rs.to_vec();
        self
    }
    pub fn class(mut self, c: usize, p: &[usize], np: &[usize]) -> Self {
        self.pref[c] = p.to_vec();
        self.nonpref[c] = np.to_vec();
        self
    }
    pub fn build(&self) -> MachineEnv {
        let set = |v: &Vec<usize>, c: usize| {
            let mut s = PRegSet::empty();
            for &r in v {
                s.add(PReg::new(r, CLASSES[c]));
            }
            s
        };
        MachineEnv {
            preferred_regs_by_class: [
                set(&self.pref[0], 0),
                set(&self.pref[1], 1),
                set(&self.pref[2], 2),
            ],
            non_preferred_regs_by_class: [
                set(&self.nonpref[0], 0),
                set(&self.nonpref[1], 1),
                set(&self.nonpref[2], 2),
            ],
            scratch_by_class: [0, 1, 2].map(|c| self.scratch[c].map(|r| PReg::new(r, CLASSES[c]))),
            fixed_stack_slots: self
                .fixed_stack
                .iter()
                .map(|&(r, c)| PReg::new(r, CLASSES[c]))
                .collect(),
        }
    }
}

/// Builds a `Func` from blocks of instructions.
pub struct Builder {
    pub blocks: Vec<(Vec<InstData>, Vec<VReg>, Vec<usize>, Vec<Vec<VReg>>)>,
    pub num_vregs: usize,
}

impl Builder {
    pub fn new(n: usize) -> Self {
        Builder {
            blocks: vec![(vec![], vec![], vec![], vec![]); n],
            num_vregs: 0,
        }
    }
    pub fn vreg(&mut self, c: RegClass) -> VReg {
        self.num_vregs += 1;
        VReg::new(self.num_vregs - 1, c)
    }
    pub fn inst(&mut self, b: usize, kind: IKind, ops: Vec<Operand>, clobbers: PRegSet) {
        self.blocks[b].0.push(InstData {
            kind,
            ops,
            clobbers,
        });
    }
    pub fn edge(&mut self, b: usize, t: usize, args: Vec<VReg>) {
        self.blocks[b].2.push(t);
        self.blocks[b].3.push(args);
    }
    /// `layout[i]` = logical block placed at index i.
    pub fn finish(self, entry: usize, layout: &[usize]) -> Func {
        let n = self.blocks.len();
        let mut pos = vec![0; n];
        for (i, &l) in layout.iter().enumerate() {
            pos[l] = i;
        }
        let mut f = Func {
            entry: Block::new(pos[entry]),
            blocks: vec![BlockData::default(); n],
            insts: vec![],
            num_vregs: self.num_vregs,
            labels: vec![],
            slot_size: [1, 1, 2],
            last_slot: false,
            multi_defs: false,
        };
        let mut bs: Vec<Option<_>> = self.blocks.into_iter().map(Some).collect();
        for &l in layout {
            let (insts, params, succs, args) = bs[l].take().unwrap();
            let d = &mut f.blocks[pos[l]];
            d.first = f.insts.len();
            f.insts.extend(insts);
            d.end = f.insts.len();
            d.params = params;
            d.succs = succs.iter().map(|&t| Block::new(pos[t])).collect();
            d.args = args;
        }
        // Predecessors in layout order of the source block (one entry per edge).
        for i in 0..n {
            for t in f.blocks[i].succs.clone() {
                f.blocks[t.index()].preds.push(Block::new(i));
            }
        }
        f
    }
}

pub fn ident(n: usize) -> Vec<usize> {
    (0..n).collect()
}
