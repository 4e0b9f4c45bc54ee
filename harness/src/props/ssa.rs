//! P09: SSA validation against the definition, on every small raw function (operands name any value).

use super::Prop;
use crate::ctx::*;
use crate::explore::*;
use crate::gen::{cfg, Cfg};
use crate::ir::*;
use crate::run::{self, Algo, Res};
use regalloc2::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Verdict {
    Valid,
    Invalid(&'static str),
    /// not decided by the documentation
    Open,
}

/// The definition, on the input only.
fn verdict(f: &Func) -> Verdict {
    use Verdict::*;
    let n = f.blocks.len();
    let g = Cfg {
        name: "",
        succs: f
            .blocks
            .iter()
            .map(|b| b.succs.iter().map(|s| s.index()).collect())
            .collect(),
        entry: f.entry.index(),
    };
    let reach = g.reach_without(None);
    let sdoms = g.sdoms();
    let mut open = false;
    // block structure
    for b in &f.blocks {
        if b.first == b.end {
            return Invalid("empty block");
        }
        for k in b.first..b.end {
            let last = k + 1 == b.end;
            match f.insts[k].kind {
                IKind::Op if last => return Invalid("block without terminator"),
                IKind::Op => {}
                _ if !last => return Invalid("terminator inside a block"),
                IKind::Ret if !b.succs.is_empty() => open = true,
                IKind::Branch if b.succs.is_empty() => open = true,
                _ => {}
            }
        }
    }
    if !f.blocks[f.entry.index()].params.is_empty() {
        return Invalid("parameter of the entry block");
    }
    // definitions: (block, instruction or none for a parameter)
    let mut def: Vec<Option<(usize, Option<usize>)>> = vec![None; f.num_vregs];
    for (b, d) in f.blocks.iter().enumerate() {
        let ps = d.params.iter().map(|v| (*v, None));
        let is = (d.first..d.end).flat_map(|k| {
            f.insts[k]
                .ops
                .iter()
                .filter(|o| o.kind() == OperandKind::Def)
                .map(move |o| (o.vreg(), Some(k)))
        });
        for (v, at) in ps.chain(is) {
            if v.vreg() >= f.num_vregs {
                return Invalid("definition of a value with an out-of-range number");
            }
            if def[v.vreg()].is_some() {
                return Invalid("two definitions of one value");
            }
            def[v.vreg()] = Some((b, at));
        }
    }
    // a use at instruction k of block b; `own`: as a block argument the instruction's own definitions are open
    let mut check = |v: VReg, b: usize, k: usize, arg: bool| -> Option<&'static str> {
        if v.vreg() >= f.num_vregs {
            return Some("use of a value with an out-of-range number");
        }
        let (db, at) = match def[v.vreg()] {
            None => return Some("use of a value without definition"),
            Some(d) => d,
        };
        if db == b {
            return match at {
                Some(i) if arg && i == k => {
                    open = true;
                    None
                }
                Some(i) if i >= k => Some("use before the definition"),
                _ => None,
            };
        }
        if !reach[b] {
            open = true;
            return None;
        }
        if !sdoms[b].contains(&db) {
            return Some(if arg {
                "block argument not dominated by its definition"
            } else {
                "use not dominated by the definition"
            });
        }
        None
    };
    let mut wrong = None;
    for b in 0..n {
        let d = &f.blocks[b];
        for k in d.first..d.end {
            for o in &f.insts[k].ops {
                if o.kind() == OperandKind::Use && o.as_fixed_nonallocatable().is_none() {
                    wrong = wrong.or(check(o.vreg(), b, k, false));
                }
            }
        }
        for (s, a) in d.succs.iter().zip(&d.args) {
            if a.len() != f.blocks[s.index()].params.len() {
                wrong = wrong.or(Some("wrong number of block arguments"));
            }
            for &v in a {
                wrong = wrong.or(check(v, b, d.end - 1, true));
            }
        }
    }
    match wrong {
        Some(w) => Invalid(w),
        None if open => Open,
        None => Valid,
    }
}

#[derive(Clone)]
struct Raw {
    name: &'static str,
    cfgs: Vec<Cfg>,
    max_insts: usize,
    per_block: usize,
    num_vregs: usize,
    params: usize,
    entry_params: bool,
    args: usize,
    branch_ops: bool,
    kind_defect: bool,
    empty_defect: bool,
    layouts: bool,
}

fn build(r: &Raw, ch: &mut Chooser) -> Option<Func> {
    let c = ch.pick(&r.cfgs).clone();
    let n = c.n();
    let nv = r.num_vregs;
    let mut b = Builder::new(n);
    b.num_vregs = nv;
    let any = |ch: &mut Chooser| VReg::new(ch.choose(nv + 1), I);
    let ops = |ch: &mut Chooser| -> Vec<Operand> {
        let mut v = vec![];
        let k = ch.choose(4);
        if k & 1 != 0 {
            v.push(Operand::reg_def(any(ch)));
        }
        if k & 2 != 0 {
            v.push(Operand::reg_use(any(ch)));
        }
        v
    };
    let preds = c.preds();
    let mut left = r.max_insts;
    // structural defect: one block emptied, or one instruction of another kind
    let defect = ch.choose(1 + r.empty_defect as usize + r.kind_defect as usize);
    let empty = if defect == 1 && r.empty_defect {
        Some(ch.choose(n))
    } else {
        None
    };
    for k in 0..n {
        let cnt = ch.choose(left.min(r.per_block) + 1);
        left -= cnt;
        if Some(k) == empty && cnt > 0 {
            return None;
        }
        for _ in 0..cnt {
            let o = ops(ch);
            b.inst(k, IKind::Op, o, PRegSet::empty());
        }
        let np = if k == c.entry && !r.entry_params {
            0
        } else {
            ch.choose(r.params + 1)
        };
        for _ in 0..np {
            let v = any(ch);
            b.blocks[k].1.push(v);
        }
        let kind = if c.succs[k].is_empty() {
            IKind::Ret
        } else {
            IKind::Branch
        };
        let o = if r.branch_ops
            && c.succs[k]
                .iter()
                .all(|&t| preds[t].len() + (t == c.entry) as usize == 1)
        {
            ops(ch)
        } else {
            vec![]
        };
        if Some(k) != empty {
            b.inst(k, kind, o, PRegSet::empty());
        } else if !o.is_empty() {
            return None;
        }
        for &t in &c.succs[k] {
            let na = ch.choose(r.args + 1);
            let args = (0..na).map(|_| any(ch)).collect();
            b.edge(k, t, args);
        }
    }
    let layout: Vec<usize> = if r.layouts && ch.flag() {
        // the entry first, everything else in reverse
        let mut l = vec![c.entry];
        l.extend((0..n).rev().filter(|&k| k != c.entry));
        l
    } else {
        ident(n)
    };
    let mut f = b.finish(c.entry, &layout);
    if r.kind_defect && defect == 1 + r.empty_defect as usize {
        let k = ch.choose(f.insts.len());
        let old = f.insts[k].kind;
        let other: Vec<IKind> = [IKind::Op, IKind::Branch, IKind::Ret]
            .into_iter()
            .filter(|x| *x != old)
            .collect();
        f.insts[k].kind = *ch.pick(&other);
    }
    Some(f)
}

fn judge(f: &Func, env: &MachineEnv, t: &mut Tally, algos: &[Algo]) -> Leaf {
    let v = verdict(f);
    if v == Verdict::Open {
        return Leaf::Pruned;
    }
    let mut fs = vec![];
    for &a in algos {
        if v == Verdict::Valid && !crate::feas::supported(f, a) {
            continue;
        }
        let mut o = a.options();
        o.validate_ssa = true;
        t.states += 1;
        t.transitions += f.insts.len() as u64;
        match (v, run::alloc_opts(f, env, &o)) {
            (_, Res::Panic(p)) => fs.push(fail(
                "Panic",
                format!("{:?}: {:?}, but panic: {}", a, v, p),
                f.dump(),
            )),
            (Verdict::Valid, Res::Err(e)) => fs.push(fail(
                "Rejected",
                format!("{:?}: a valid function is rejected with {:?}", a, e),
                f.dump(),
            )),
            (Verdict::Invalid(w), Res::Ok(_)) => fs.push(fail(
                "Accepted",
                format!("{:?}: accepted in spite of: {}", a, w),
                f.dump(),
            )),
            _ => {}
        }
    }
    if let Verdict::Invalid(w) = v {
        t.nontrivial += 1;
        t.sample(|| format!("rejected ({}):\n{}", w, f.dump()));
    }
    if fs.is_empty() {
        Leaf::Ok
    } else {
        Leaf::Bad(fs)
    }
}

fn sp(r: Raw) -> Space {
    let env = EnvSpec::ints(&[0, 1, 2, 3], &[]).build();
    let bounds = format!(
        "cfgs {:?}, instructions <= {}, value numbers 0..={} with num_vregs {}, params <= {}{}, args <= {}, \
         operands on branches {}, one instruction of a wrong kind {}, one empty block {}",
        r.cfgs.iter().map(|c| c.name).collect::<Vec<_>>(),
        r.max_insts,
        r.num_vregs,
        r.num_vregs,
        r.params,
        if r.entry_params { " (entry too)" } else { "" },
        r.args,
        r.branch_ops,
        r.kind_defect,
        r.empty_defect
    );
    space(r.name, bounds, move |t, ch| match build(&r, ch) {
        None => Leaf::Pruned,
        Some(f) => judge(&f, &env, t, BOTH),
    })
}

/// Every graph without critical edges; one value defined in one block and used in another, as an operand or as
/// an argument on one edge.
fn graphs(n: usize, max: usize, entries: &'static [usize]) -> Space {
    let lists = super::graph::succ_lists(n, max);
    let env = EnvSpec::ints(&[0, 1, 2, 3], &[]).build();
    let bounds = format!(
        "every graph of {} blocks with up to {} successors each and no critical edge, entry {:?}, every pair of \
         defining and using block, use as operand or as argument on any edge",
        n, max, entries
    );
    space(format!("graphs-{}-{}", n, max), bounds, move |t, ch| {
        let succs = super::graph::draw_graph(ch, n, &lists);
        let g = super::graph::graph(succs, *ch.pick(entries));
        if g.critical() {
            return Leaf::Pruned;
        }
        let d = ch.choose(n);
        let u = ch.choose(n);
        let edge = ch.choose(1 + g.succs[u].len());
        let early = d == u && ch.flag(); // the use comes before the definition
        let target = if edge > 0 {
            Some(g.succs[u][edge - 1])
        } else {
            None
        };
        if target == Some(g.entry) {
            return Leaf::Pruned;
        }
        let mut b = Builder::new(n);
        let v: Vec<VReg> = (0..3).map(|_| b.vreg(I)).collect();
        for k in 0..n {
            if k == g.entry {
                b.inst(k, IKind::Op, vec![Operand::reg_def(v[2])], PRegSet::empty());
            }
            if k == u && edge == 0 && early {
                b.inst(k, IKind::Op, vec![Operand::reg_use(v[0])], PRegSet::empty());
            }
            if k == d {
                b.inst(k, IKind::Op, vec![Operand::reg_def(v[0])], PRegSet::empty());
            }
            if k == u && edge == 0 && !early {
                b.inst(k, IKind::Op, vec![Operand::reg_use(v[0])], PRegSet::empty());
            }
            let kind = if g.succs[k].is_empty() {
                IKind::Ret
            } else {
                IKind::Branch
            };
            b.inst(k, kind, vec![], PRegSet::empty());
            for (i, &s) in g.succs[k].iter().enumerate() {
                let args = match target {
                    Some(x) if x == s => vec![if k == u && i + 1 == edge { v[0] } else { v[2] }],
                    _ => vec![],
                };
                b.edge(k, s, args);
            }
            if target == Some(k) {
                b.blocks[k].1.push(v[1]);
            }
        }
        let f = b.finish(g.entry, &ident(n));
        judge(&f, &env, t, if g.entry == 0 { BOTH } else { ION })
    })
}

/// The operands of one instruction in every order: a use looks at what was defined before the instruction, whatever the
/// position (early, late) and order of the operands.
fn operand_lists(max: usize) -> Space {
    let env = EnvSpec::ints(&[0, 1, 2, 3], &[]).build();
    space(
        "operand-lists",
        format!(
            "a definition of value 0, an instruction with every list of up to {} operands (early or late use or definition of value \
             0, 1, 2, or a non-allocatable register), then an instruction, branch or return with every list of up to 2 such operands",
            max
        ),
        move |t, ch| {
            let mut b = Builder::new(2);
            let vs: Vec<VReg> = (0..3).map(|_| b.vreg(I)).collect();
            let mut list = |ch: &mut Chooser, max: usize| -> Vec<Operand> {
                use OperandKind::*;
                use OperandPos::*;
                let k = ch.choose(max + 1);
                (0..k)
                    .map(|_| {
                        let x = ch.choose(13);
                        let (kind, pos) = [(Use, Early), (Use, Late), (Def, Late), (Def, Early)][x % 4];
                        match x {
                            12 => Operand::fixed_nonallocatable(PReg::new(9, RegClass::Int)),
                            _ => Operand::new(vs[x / 4], OperandConstraint::Any, kind, pos),
                        }
                    })
                    .collect()
            };
            let x = list(ch, max);
            let y = list(ch, 2);
            b.inst(0, IKind::Op, vec![Operand::reg_def(vs[0])], PRegSet::empty());
            b.inst(0, IKind::Op, x, PRegSet::empty());
            match ch.choose(3) {
                0 => {
                    b.inst(0, IKind::Op, y, PRegSet::empty());
                    b.inst(0, IKind::Branch, vec![], PRegSet::empty());
                    b.inst(1, IKind::Ret, vec![], PRegSet::empty());
                }
                1 => {
                    b.inst(0, IKind::Branch, y, PRegSet::empty());
                    b.inst(1, IKind::Ret, vec![], PRegSet::empty());
                }
                _ => {
                    b.inst(0, IKind::Branch, vec![], PRegSet::empty());
                    b.inst(1, IKind::Ret, y, PRegSet::empty());
                }
            }
            b.edge(0, 1, vec![]);
            judge(&b.finish(0, &ident(2)), &env, t, BOTH)
        },
    )
}

const BOTH: &[Algo] = &[Algo::Ion, Algo::Fast];
const ION: &[Algo] = &[Algo::Ion];

/// Every function of an allocation scope is valid: validation accepts it.
fn scope(e: crate::scopes::Entry) -> Space {
    use crate::scopes::Who2;
    let algos = match e.who {
        Who2::Both => BOTH,
        Who2::IonOnly => ION,
        Who2::FastOnly => &BOTH[1..],
    };
    let sc = e.scope;
    space(
        format!("valid {}", sc.name),
        "every function of the allocation scope of this name".to_string(),
        move |t, ch| {
            let case = match sc.build(ch) {
                Some(c) => c,
                None => return Leaf::Pruned,
            };
            let mut fs = vec![];
            for &a in algos {
                let mut o = a.options();
                o.validate_ssa = true;
                t.states += 1;
                t.transitions += case.func.insts.len() as u64;
                if !crate::feas::supported(&case.func, a) {
                    continue;
                }
                match run::alloc_opts(&case.func, &case.env, &o) {
                    Res::Err(RegAllocError::TooManyLiveRegs) if a == Algo::Fast => {}
                    Res::Err(e) => fs.push(fail(
                        "Rejected",
                        format!("{:?}: a valid function is rejected with {:?}", a, e),
                        case.dump(),
                    )),
                    Res::Panic(p) => {
                        fs.push(fail("Panic", format!("{:?}: panic: {}", a, p), case.dump()))
                    }
                    _ => {}
                }
            }
            if fs.is_empty() {
                Leaf::Ok
            } else {
                Leaf::Bad(fs)
            }
        },
    )
}

pub fn p09(tier: Tier) -> Prop {
    let line = cfg("line", &[&[]]);
    let two = cfg("two", &[&[1], &[]]);
    let diamond = cfg("diamond", &[&[1, 2], &[3], &[3], &[]]);
    let lp = cfg("loop", &[&[1], &[2, 3], &[1], &[]]);
    let split = cfg("split", &[&[1, 2], &[], &[]]);
    let unreach = cfg("unreachable", &[&[2], &[2], &[]]);
    let base = Raw {
        name: "",
        cfgs: vec![],
        max_insts: 3,
        per_block: 3,
        num_vregs: 2,
        params: 0,
        entry_params: false,
        args: 0,
        branch_ops: false,
        kind_defect: false,
        empty_defect: false,
        layouts: false,
    };
    let th = tier.thorough();
    let mut v = vec![
        sp(Raw {
            name: "line",
            cfgs: vec![line.clone()],
            num_vregs: 3,
            branch_ops: true,
            params: 1,
            entry_params: true,
            kind_defect: true,
            ..base.clone()
        }),
        sp(Raw {
            name: "two",
            cfgs: vec![two.clone(), split.clone()],
            max_insts: tier.pick(2, 3),
            branch_ops: true,
            params: 0,
            ..base.clone()
        }),
        sp(Raw {
            name: "structure",
            cfgs: vec![
                line,
                two.clone(),
                split,
                diamond.clone(),
                lp.clone(),
                unreach.clone(),
            ],
            max_insts: 1,
            num_vregs: 1,
            kind_defect: true,
            empty_defect: true,
            layouts: true,
            ..base.clone()
        }),
        sp(Raw {
            name: "two-params",
            cfgs: vec![two],
            max_insts: tier.pick(2, 3),
            params: 2,
            args: 2,
            entry_params: true,
            branch_ops: th,
            ..base.clone()
        }),
        sp(Raw {
            name: "dominance",
            cfgs: vec![diamond.clone(), lp.clone(), unreach.clone()],
            max_insts: tier.pick(3, 4),
            per_block: 2,
            layouts: true,
            ..base.clone()
        }),
        sp(Raw {
            name: "join-params",
            cfgs: vec![diamond, lp, unreach],
            max_insts: tier.pick(1, 2),
            per_block: 1,
            params: 1,
            args: 1,
            layouts: true,
            ..base.clone()
        }),
    ];
    v.push(operand_lists(tier.pick(3, 4)));
    v.push(graphs(3, 3, &[0, 1, 2]));
    v.push(graphs(4, 2, tier.pick(&[0], &[0, 1, 2, 3])));
    if th {
        v.push(graphs(5, 2, &[0]));
    }
    for e in crate::scopes::all(Tier::Quick) {
        let names: &[&str] = tier.pick(
            &[
                "cfg-order",
                "cfg-large",
                "cfg-branch-ops",
                "nonalloc",
                "line-multi-constraint",
            ],
            &[
                "cfg-",
                "line-",
                "nonalloc",
                "fixed-stack",
                "classes",
                "limit",
            ],
        );
        if names.iter().any(|n| e.scope.name.starts_with(n)) {
            v.push(scope(e));
        }
    }
    Prop {
        note: "every raw function of each space (operands, parameters and arguments name any value) is run with \
               validation by both algorithms; a brute-force reading of the SSA and block rules (dominance by cutting \
               blocks out of the graph) says valid or invalid; nontrivial = invalid",
        assumptions: &[
            "not judged, because the documentation leaves it open: uses in unreachable blocks of values defined in \
             other blocks, block arguments defined by the branch itself, a return with successors, a branch without",
            "one register class",
        ],
        spaces: v,
    }
}
