//! Bounded-exhaustive generator of functions. A `Scope` fixes the alphabet (instruction shapes,
//! control-flow templates, environments, block orders) and the bounds; `build` draws one function.

use crate::explore::Chooser;
use crate::feas;
use crate::ir::*;
use regalloc2::*;

#[derive(Clone, Copy, Debug)]
pub enum Con {
    Any,
    Reg,
    Stack,
    Fix(usize),
    Lim(usize),
    Reuse(usize),
}

#[derive(Clone, Copy, Debug)]
pub enum Who {
    /// any available value
    New,
    /// the same value as operand n
    Same(usize),
    /// fixed non-allocatable register
    NonAlloc(usize),
}

#[derive(Clone, Copy, Debug)]
pub struct O {
    pub kind: OperandKind,
    pub pos: OperandPos,
    pub con: Con,
    pub class: usize,
    pub who: Who,
}

pub fn u(con: Con) -> O {
    O {
        kind: OperandKind::Use,
        pos: OperandPos::Early,
        con,
        class: 0,
        who: Who::New,
    }
}
pub fn ul(con: Con) -> O {
    O {
        pos: OperandPos::Late,
        ..u(con)
    }
}
pub fn d(con: Con) -> O {
    O {
        kind: OperandKind::Def,
        pos: OperandPos::Late,
        con,
        class: 0,
        who: Who::New,
    }
}
pub fn de(con: Con) -> O {
    O {
        pos: OperandPos::Early,
        ..d(con)
    }
}
impl O {
    pub fn c(self, class: usize) -> O {
        O { class, ..self }
    }
    pub fn same(self, n: usize) -> O {
        O {
            who: Who::Same(n),
            ..self
        }
    }
    pub fn na(self, r: usize) -> O {
        O {
            who: Who::NonAlloc(r),
            ..self
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Shape {
    pub ops: Vec<O>,
    pub clobbers: Vec<(usize, usize)>,
}

pub fn sh(ops: &[O]) -> Shape {
    Shape {
        ops: ops.to_vec(),
        clobbers: vec![],
    }
}
impl Shape {
    pub fn clob(mut self, rs: &[usize]) -> Shape {
        self.clobbers.extend(rs.iter().map(|&r| (r, 0)));
        self
    }
    pub fn clobc(mut self, rs: &[(usize, usize)]) -> Shape {
        self.clobbers.extend_from_slice(rs);
        self
    }
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub name: &'static str,
    pub succs: Vec<Vec<usize>>,
    pub entry: usize,
}

pub fn cfg(name: &'static str, succs: &[&[usize]]) -> Cfg {
    Cfg {
        name,
        succs: succs.iter().map(|s| s.to_vec()).collect(),
        entry: 0,
    }
}

impl Cfg {
    pub fn n(&self) -> usize {
        self.succs.len()
    }
    pub fn preds(&self) -> Vec<Vec<usize>> {
        let mut p = vec![vec![]; self.n()];
        for (b, s) in self.succs.iter().enumerate() {
            for &t in s {
                p[t].push(b);
            }
        }
        p
    }
    pub fn reach_without(&self, cut: Option<usize>) -> Vec<bool> {
        let mut seen = vec![false; self.n()];
        if Some(self.entry) == cut {
            return seen;
        }
        let mut w = vec![self.entry];
        seen[self.entry] = true;
        while let Some(b) = w.pop() {
            for &t in &self.succs[b] {
                if Some(t) != cut && !seen[t] {
                    seen[t] = true;
                    w.push(t);
                }
            }
        }
        seen
    }
    /// strict dominators by definition
    pub fn sdoms(&self) -> Vec<Vec<usize>> {
        let r = self.reach_without(None);
        let mut v = vec![vec![]; self.n()];
        for a in 0..self.n() {
            let ra = self.reach_without(Some(a));
            for b in 0..self.n() {
                if b != a && r[b] && r[a] && !ra[b] {
                    v[b].push(a);
                }
            }
        }
        v
    }
    /// Reverse postorder of reachable blocks, then the unreachable ones.
    pub fn order(&self) -> Vec<usize> {
        fn go(c: &Cfg, b: usize, seen: &mut Vec<bool>, out: &mut Vec<usize>) {
            seen[b] = true;
            for &t in c.succs[b].iter().rev() {
                if !seen[t] {
                    go(c, t, seen, out);
                }
            }
            out.push(b);
        }
        let mut seen = vec![false; self.n()];
        let mut out = vec![];
        go(self, self.entry, &mut seen, &mut out);
        out.reverse();
        for b in 0..self.n() {
            if !seen[b] {
                out.push(b);
            }
        }
        out
    }
    /// Has a critical edge, counting the entry's implicit predecessor.
    pub fn critical(&self) -> bool {
        let p = self.preds();
        let np = |b: usize| p[b].len() + (b == self.entry) as usize;
        self.succs
            .iter()
            .any(|s| s.len() > 1 && s.iter().any(|&t| np(t) > 1))
    }
}

pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut r = vec![];
    for p in permutations(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            r.push(q);
        }
    }
    r.sort();
    r
}

#[derive(Clone, Debug)]
pub enum Layouts {
    Identity,
    /// every order that keeps dominators before the blocks they dominate
    Dominance,
    All,
}

#[derive(Clone, Debug)]
pub enum Ret {
    /// no operands
    None,
    /// one late-alphabet shape list
    Shapes(Vec<Shape>),
    /// every available value, with this constraint
    All(Con),
    /// every subset of the available values, with this constraint
    Subset(Con),
}

/// Arbitrary operand lists over an alphabet.
#[derive(Clone, Debug)]
pub struct AnyInst {
    pub max_ops: usize,
    pub alpha: Vec<O>,
    /// any late definition may also be a reuse of any input
    pub reuse: bool,
    pub clobbers: Vec<Vec<usize>>,
}

impl AnyInst {
    fn draw(&self, ch: &mut Chooser) -> Shape {
        let n = 1 + ch.choose(self.max_ops);
        let mut ops: Vec<O> = vec![];
        for _ in 0..n {
            ops.push(*ch.pick(&self.alpha));
        }
        if self.reuse {
            let ins: Vec<usize> = (0..n)
                .filter(|&i| ops[i].kind == OperandKind::Use && ops[i].pos == OperandPos::Early)
                .collect();
            let mut done = false;
            for i in 0..n {
                if ops[i].kind == OperandKind::Def
                    && ops[i].pos == OperandPos::Late
                    && matches!(ops[i].con, Con::Reg)
                    && !done
                {
                    let k = ch.choose(ins.len() + 1);
                    if k > 0 {
                        ops[i].con = Con::Reuse(ins[k - 1]);
                        done = true;
                    }
                }
            }
        }
        let c = ch.pick(&self.clobbers);
        Shape {
            ops,
            clobbers: c.iter().map(|&r| (r, 0)).collect(),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Scope {
    pub name: String,
    pub envs: Vec<EnvSpec>,
    pub cfgs: Vec<Cfg>,
    pub layouts: Layouts,
    pub shapes: Vec<Shape>,
    /// shapes of the first instruction of the function (empty: use `shapes`)
    pub first: Vec<Shape>,
    pub max_insts: usize,
    pub max_per_block: usize,
    pub exact_insts: bool,
    pub max_params: usize,
    /// every block with a parameter list has exactly max_params
    pub exact_params: bool,
    /// only these logical blocks may have parameters
    pub param_blocks: Option<Vec<usize>>,
    /// a branch's own definitions are not passed as its block arguments
    pub branch_args_exclude_own_defs: bool,
    /// ... unless the branch has several successors
    pub own_args_need_split: bool,
    /// if set, non-first instructions are arbitrary operand lists
    pub any_inst: Option<AnyInst>,
    /// value numbers are multiplied by this
    pub stride: usize,
    pub param_class: usize,
    /// operand lists a single-successor-predecessor branch may carry
    pub branch_ops: Vec<Shape>,
    pub ret: Ret,
    pub slot_sizes: Vec<[usize; 3]>,
    pub last_slot: Vec<bool>,
    pub multi_defs: bool,
    /// keep only functions whose every instruction is feasible
    pub feasible_only: bool,
}

impl Scope {
    pub fn new(name: &str) -> Scope {
        Scope {
            name: name.into(),
            envs: vec![EnvSpec::ints(&[0, 1], &[])],
            cfgs: vec![cfg("line", &[&[]])],
            layouts: Layouts::Identity,
            shapes: vec![],
            first: vec![],
            max_insts: 3,
            max_per_block: 3,
            exact_insts: false,
            max_params: 0,
            exact_params: false,
            param_blocks: None,
            branch_args_exclude_own_defs: false,
            own_args_need_split: false,
            any_inst: None,
            stride: 1,
            param_class: 0,
            branch_ops: vec![],
            ret: Ret::None,
            slot_sizes: vec![[1, 1, 2]],
            last_slot: vec![false],
            multi_defs: false,
            feasible_only: true,
        }
    }
}

pub struct Case {
    pub func: Func,
    pub env: MachineEnv,
}

impl Case {
    pub fn dump(&self) -> String {
        format!("{}{}", env_dump(&self.env), self.func.dump())
    }
    /// The dump with a form that `text::parse` reads.
    pub fn full_dump(&self) -> String {
        format!("{}--- as text\n{}---\n", self.dump(), crate::text::emit(&self.func, &self.env))
    }
}

fn mk_operand(o: &O, v: VReg) -> Operand {
    let c = CLASSES[o.class];
    let con = match o.con {
        Con::Any => OperandConstraint::Any,
        Con::Reg => OperandConstraint::Reg,
        Con::Stack => OperandConstraint::Stack,
        Con::Fix(r) => OperandConstraint::FixedReg(PReg::new(r, c)),
        Con::Lim(n) => OperandConstraint::Limit(n),
        Con::Reuse(n) => OperandConstraint::Reuse(n),
    };
    Operand::new(v, con, o.kind, o.pos)
}

/// Draw operands for `shape`; None if a use has no available value.
pub fn draw_ops(
    ch: &mut Chooser,
    shape: &Shape,
    avail: &[VReg],
    defs: &mut Vec<VReg>,
    num_vregs: &mut usize,
) -> Option<(Vec<Operand>, PRegSet)> {
    let mut ops: Vec<Operand> = vec![];
    for o in &shape.ops {
        let v = match o.who {
            Who::NonAlloc(r) => {
                ops.push(Operand::fixed_nonallocatable(PReg::new(
                    r,
                    CLASSES[o.class],
                )));
                continue;
            }
            Who::Same(n) => ops[n].vreg(),
            Who::New => {
                if o.kind == OperandKind::Def {
                    let v = VReg::new(*num_vregs, CLASSES[o.class]);
                    *num_vregs += 1;
                    defs.push(v);
                    v
                } else {
                    let cands: Vec<VReg> = avail
                        .iter()
                        .copied()
                        .filter(|v| v.class() == CLASSES[o.class])
                        .collect();
                    if cands.is_empty() {
                        return None;
                    }
                    *ch.pick(&cands)
                }
            }
        };
        ops.push(mk_operand(o, v));
    }
    let mut cl = PRegSet::empty();
    for &(r, c) in &shape.clobbers {
        cl.add(PReg::new(r, CLASSES[c]));
    }
    Some((ops, cl))
}

impl Scope {
    pub fn build(&self, ch: &mut Chooser) -> Option<Case> {
        let env = ch.pick(&self.envs).build();
        let cf = ch.pick(&self.cfgs).clone();
        let slot_size = *ch.pick(&self.slot_sizes);
        let last_slot = *ch.pick(&self.last_slot);
        let n = cf.n();
        let order = cf.order();
        let sd = cf.sdoms();
        let preds = cf.preds();
        let mut b = Builder::new(n);
        // Block parameters.
        let mut params: Vec<Vec<VReg>> = vec![vec![]; n];
        for &k in &order {
            if k != cf.entry
                && !preds[k].is_empty()
                && self.max_params > 0
                && self.param_blocks.as_ref().map_or(true, |p| p.contains(&k))
            {
                let np = if self.exact_params {
                    self.max_params
                } else {
                    ch.choose(self.max_params + 1)
                };
                for _ in 0..np {
                    let v = b.vreg(CLASSES[self.param_class]);
                    params[k].push(v);
                }
            }
        }
        let mut defs: Vec<Vec<VReg>> = vec![vec![]; n]; // all values defined in a block
        let mut left = self.max_insts;
        let mut ok = true;
        let feas = |ops: &[Operand], cl: PRegSet| {
            feas::wellformed(ops, cl)
                && (!self.feasible_only || feas::feasible(ops, cl, &env, feas::Mode::Conservative))
        };
        let mut first = true;
        for &k in &order {
            defs[k] = params[k].clone();
            let mut avail: Vec<VReg> = sd[k].iter().flat_map(|&a| defs[a].clone()).collect();
            avail.extend(params[k].iter().copied());
            avail.sort();
            let maxi = left.min(self.max_per_block);
            let cnt = if self.exact_insts {
                maxi
            } else {
                ch.choose(maxi + 1)
            };
            left -= cnt;
            for _ in 0..cnt {
                let drawn;
                let shape = if first && !self.first.is_empty() {
                    ch.pick(&self.first)
                } else if let Some(a) = &self.any_inst {
                    drawn = a.draw(ch);
                    &drawn
                } else {
                    ch.pick(&self.shapes)
                };
                first = false;
                let mut nd = vec![];
                let (ops, cl) = draw_ops(ch, shape, &avail, &mut nd, &mut b.num_vregs)?;
                if !feas(&ops, cl) {
                    ok = false;
                }
                if !ok {
                    return None;
                }
                b.inst(k, IKind::Op, ops, cl);
                avail.extend(nd.iter().copied());
                defs[k].extend(nd);
            }
            // Terminator.
            if cf.succs[k].is_empty() {
                let (ops, cl) = match &self.ret {
                    Ret::None => (vec![], PRegSet::empty()),
                    Ret::All(c) => (
                        avail
                            .iter()
                            .map(|&v| {
                                mk_operand(
                                    &O {
                                        class: v.class() as usize,
                                        ..u(*c)
                                    },
                                    v,
                                )
                            })
                            .collect(),
                        PRegSet::empty(),
                    ),
                    Ret::Subset(c) => {
                        let mut ops = vec![];
                        for &v in &avail {
                            if ch.flag() {
                                ops.push(mk_operand(
                                    &O {
                                        class: v.class() as usize,
                                        ..u(*c)
                                    },
                                    v,
                                ));
                            }
                        }
                        (ops, PRegSet::empty())
                    }
                    Ret::Shapes(s) => {
                        let s = ch.pick(s);
                        draw_ops(ch, s, &avail, &mut vec![], &mut 0)?
                    }
                };
                if !feas(&ops, cl) {
                    return None;
                }
                b.inst(k, IKind::Ret, ops, cl);
            } else {
                let np = |t: usize| preds[t].len() + (t == cf.entry) as usize;
                let mut ops = vec![];
                let mut own: Vec<VReg> = vec![];
                let mut cl = PRegSet::empty();
                if !self.branch_ops.is_empty() && cf.succs[k].iter().all(|&t| np(t) == 1) {
                    let s = ch.pick(&self.branch_ops);
                    let mut nd = vec![];
                    let r = draw_ops(ch, s, &avail, &mut nd, &mut b.num_vregs)?;
                    ops = r.0;
                    cl = r.1;
                    if !feas(&ops, cl) {
                        return None;
                    }
                    own = nd.clone();
                    avail.extend(nd.iter().copied());
                    defs[k].extend(nd);
                }
                if !self.branch_args_exclude_own_defs
                    && !(self.own_args_need_split && cf.succs[k].len() < 2)
                {
                    own.clear();
                }
                b.inst(k, IKind::Branch, ops, cl);
                for &t in &cf.succs[k] {
                    let mut args = vec![];
                    for p in &params[t] {
                        let cands: Vec<VReg> = avail
                            .iter()
                            .copied()
                            .filter(|v| v.class() == p.class() && !own.contains(v))
                            .collect();
                        if cands.is_empty() {
                            return None;
                        }
                        args.push(*ch.pick(&cands));
                    }
                    b.edge(k, t, args);
                }
            }
            b.blocks[k].1 = params[k].clone();
        }
        let layouts: Vec<Vec<usize>> = match self.layouts {
            Layouts::Identity => vec![ident(n)],
            Layouts::All => permutations(n),
            Layouts::Dominance => permutations(n)
                .into_iter()
                .filter(|p| {
                    let pos = |x: usize| p.iter().position(|&y| y == x).unwrap();
                    (0..n).all(|k| sd[k].iter().all(|&a| pos(a) < pos(k)))
                })
                .collect(),
        };
        let l = ch.pick(&layouts);
        let mut func = b.finish(cf.entry, l);
        func.slot_size = slot_size;
        func.last_slot = last_slot;
        func.multi_defs = self.multi_defs;
        if self.stride > 1 {
            func.spread(self.stride);
        }
        Some(Case { func, env })
    }
}

/// Control-flow templates without critical edges.
pub fn cfgs_small() -> Vec<Cfg> {
    vec![
        cfg("line", &[&[]]),
        cfg("two", &[&[1], &[]]),
        cfg("diamond", &[&[1, 2], &[3], &[3], &[]]),
        // entry -> header; header -> body | exit; body -> header
        cfg("loop", &[&[1], &[2, 3], &[1], &[]]),
    ]
}

/// Larger and odder control flow, still without critical edges.
pub fn cfgs_large() -> Vec<Cfg> {
    vec![
        // nested loops
        cfg("nested", &[&[1], &[2, 6], &[3], &[4, 5], &[3], &[1], &[]]),
        // two loops one after the other
        cfg(
            "seq-loops",
            &[&[1], &[2, 3], &[1], &[4], &[5, 6], &[4], &[]],
        ),
        // irreducible: two entries into the cycle 3 <-> 4
        cfg(
            "irreducible",
            &[&[1, 2], &[3], &[4], &[5, 6], &[3], &[4], &[]],
        ),
        // three-way switch
        cfg("switch", &[&[1, 2, 3], &[4], &[4], &[4], &[]]),
        // early return
        cfg("early-ret", &[&[1, 2], &[], &[3], &[]]),
        // unreachable block that jumps into live code
        cfg("unreachable", &[&[2], &[2], &[]]),
        // unreachable self-loop and plain unreachable block
        cfg("unreachable-loop", &[&[3], &[1], &[], &[]]),
        // infinite loop with no exit
        cfg("infinite", &[&[1], &[1]]),
        // single-block loop
        cfg("self-loop", &[&[1], &[2, 3], &[1], &[]]),
        // diamond in a loop
        cfg(
            "loop-diamond",
            &[&[1], &[2, 6], &[3, 4], &[5], &[5], &[1], &[]],
        ),
        // two exits from a loop
        cfg("two-exits", &[&[1], &[2, 3], &[4, 5], &[], &[1], &[]]),
    ]
}
