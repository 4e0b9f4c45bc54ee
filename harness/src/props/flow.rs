//! P10: critical edges, branch operands and entry live-ins are rejected, nothing else is.

use super::graph::{draw_graph, graph, succ_lists};
use super::Prop;
use crate::ctx::*;
use crate::explore::*;
use crate::gen::{cfgs_large, cfgs_small, Cfg};
use crate::ir::*;
use crate::run::{self, Algo, Res};
use regalloc2::*;

/// What is added to the bare graph.
#[derive(Clone, Copy, Debug)]
enum Extra {
    None,
    /// an operand (see `branch_operand`) on the terminator of this block
    BranchOp(usize, usize),
    /// the value is defined at the end of a block (or nowhere) and used at the start of another
    Value(Option<usize>, usize),
    /// same block, the use first
    Backwards(usize),
    /// the value is passed as argument from block u on all its edges
    Arg(Option<usize>, usize),
}

const BRANCH_OPERANDS: usize = 7;

fn branch_operand(how: usize, used: VReg, defined: VReg) -> Vec<Operand> {
    use OperandConstraint::*;
    use OperandKind::*;
    use OperandPos::*;
    let op = |v, c, k, p| vec![Operand::new(v, c, k, p)];
    match how {
        0 => op(used, Reg, Use, Early),
        1 => op(used, Reg, Use, Late),
        2 => op(defined, Any, Def, Late),
        3 => op(defined, Any, Def, Early),
        4 => op(used, Any, Use, Early),
        5 => op(used, FixedReg(PReg::new(2, I)), Use, Early),
        _ => [op(used, Any, Use, Late), op(defined, Any, Def, Late)].concat(),
    }
}

struct Made {
    f: Func,
    /// (defining block, using block, use before definition, is an argument)
    value: Option<(Option<usize>, usize, bool)>,
}

fn make(g: &Cfg, x: Extra, layout: &[usize], number: usize) -> Made {
    let n = g.n();
    let mut b = Builder::new(n);
    b.num_vregs = number + 3;
    let v = VReg::new(number, I);
    let one = VReg::new(number + 1, I);
    let mut value = None;
    let mut nparams = number + 3;
    let mut has_param = vec![false; n];
    if let Extra::Arg(d, u) = x {
        value = Some((d, u, false));
        for &t in &g.succs[u] {
            has_param[t] = true;
        }
    }
    for k in 0..n {
        if has_param[k] {
            b.blocks[k].1.push(VReg::new(nparams, I));
            nparams += 1;
        }
        if k == g.entry {
            b.inst(k, IKind::Op, vec![Operand::reg_def(one)], PRegSet::empty());
        }
        match x {
            Extra::Value(d, u) => {
                value = Some((d, u, false));
                if d == Some(k) && d == Some(u) {
                    b.inst(k, IKind::Op, vec![Operand::reg_def(v)], PRegSet::empty());
                    b.inst(k, IKind::Op, vec![Operand::reg_use(v)], PRegSet::empty());
                } else {
                    if u == k {
                        b.inst(k, IKind::Op, vec![Operand::any_use(v)], PRegSet::empty());
                    }
                    if d == Some(k) {
                        b.inst(k, IKind::Op, vec![Operand::reg_def(v)], PRegSet::empty());
                    }
                }
            }
            Extra::Backwards(d) if d == k => {
                value = Some((Some(d), d, true));
                b.inst(k, IKind::Op, vec![Operand::reg_use(v)], PRegSet::empty());
                b.inst(k, IKind::Op, vec![Operand::reg_def(v)], PRegSet::empty());
            }
            Extra::Arg(Some(d), _) if d == k => {
                b.inst(k, IKind::Op, vec![Operand::reg_def(v)], PRegSet::empty());
            }
            _ => {}
        }
        let kind = if g.succs[k].is_empty() {
            IKind::Ret
        } else {
            IKind::Branch
        };
        let ops = match x {
            Extra::BranchOp(c, how) if c == k => branch_operand(how, one, VReg::new(number + 2, I)),
            _ => vec![],
        };
        b.inst(k, kind, ops, PRegSet::empty());
        for &t in &g.succs[k] {
            let args = match x {
                Extra::Arg(_, u) if has_param[t] => vec![if k == u { v } else { one }],
                _ => vec![],
            };
            b.edge(k, t, args);
        }
    }
    b.num_vregs = nparams;
    Made {
        f: b.finish(g.entry, layout),
        value,
    }
}

/// Is the value live into the entry block: some path from its start reaches the use without passing the definition?
/// (A definition kills at the end of its block for other blocks' uses.)
fn entry_livein(g: &Cfg, v: (Option<usize>, usize, bool)) -> bool {
    let (d, u, backwards) = v;
    if d == Some(u) && !backwards {
        return false;
    }
    let mut seen = vec![false; g.n()];
    let mut w = vec![g.entry];
    while let Some(b) = w.pop() {
        if seen[b] {
            continue;
        }
        seen[b] = true;
        if b == u {
            return true;
        }
        if Some(b) != d {
            w.extend(&g.succs[b]);
        }
    }
    false
}

fn judge(g: &Cfg, m: &Made, layout: &[usize], t: &mut Tally) -> Leaf {
    let n = g.n();
    let mut pos = vec![0; n];
    for (i, &l) in layout.iter().enumerate() {
        pos[l] = i;
    }
    let preds = g.preds();
    let np = |b: usize| preds[b].len() + (b == g.entry) as usize;
    let crit = |a: usize, b: usize| g.succs[a].contains(&b) && g.succs[a].len() > 1 && np(b) > 1;
    let any_crit = g.critical();
    let term = |b: usize| m.f.blocks[pos[b]].end - 1;
    let bad_branch =
        |b: usize| !m.f.insts[term(b)].ops.is_empty() && g.succs[b].iter().any(|&s| np(s) > 1);
    let any_branch = (0..n).any(bad_branch);
    let livein = m.value.map_or(false, |v| entry_livein(g, v));
    let env = EnvSpec::ints(&[0, 1, 2, 3], &[]).build();
    let defect = any_crit || any_branch || livein;
    let reach = g.reach_without(None);
    if !defect {
        // Not an SSA function, but only where no path from the entry leads.
        if let Some((d, u, _)) = m.value {
            let sd = g.sdoms();
            if d != Some(u) && (!reach[u] || !d.map_or(false, |d| sd[u].contains(&d))) {
                return Leaf::Pruned;
            }
            if d == Some(u) && entry_livein(g, m.value.unwrap()) {
                return Leaf::Pruned;
            }
        }
    }
    if m.value.map_or(false, |v| v.2 && !reach[v.1]) {
        return Leaf::Pruned;
    }
    t.states += 1;
    t.transitions += n as u64;
    if defect {
        t.nontrivial += 1;
        t.sample(|| m.f.dump());
    }
    let say = |what: String| bad("Flow", what, m.f.dump());
    match run::alloc(&m.f, &env, Algo::Ion) {
        Res::Panic(p) => bad("Panic", format!("panic: {}", p), m.f.dump()),
        Res::Ok(_) if defect => say(format!(
            "accepted; critical edge {}, branch operand {}, live into entry {}",
            any_crit, any_branch, livein
        )),
        Res::Ok(_) => Leaf::Ok,
        Res::Err(e) => {
            let lay = |b: Block| layout[b.index()];
            let ok = match &e {
                RegAllocError::CritEdge(a, b) => crit(lay(*a), lay(*b)),
                RegAllocError::DisallowedBranchArg(i) => {
                    (0..n).any(|b| term(b) == i.index() && bad_branch(b))
                }
                RegAllocError::EntryLivein => livein,
                _ => false,
            };
            if ok {
                Leaf::Ok
            } else {
                say(format!(
                    "rejected with {:?}, which does not apply; critical edge {}, branch operand {}, live into entry {}",
                    e, any_crit, any_branch, livein
                ))
            }
        }
    }
}

fn draw_extra(ch: &mut Chooser, n: usize) -> Extra {
    match ch.choose(5) {
        0 => Extra::None,
        1 => Extra::BranchOp(ch.choose(n), ch.choose(BRANCH_OPERANDS)),
        2 => {
            let d = ch.choose(n + 1);
            Extra::Value(d.checked_sub(1), ch.choose(n))
        }
        3 => Extra::Backwards(ch.choose(n)),
        _ => {
            let d = ch.choose(n + 1);
            Extra::Arg(d.checked_sub(1), ch.choose(n))
        }
    }
}

/// An argument cannot be passed to the entry block, and needs an edge.
fn sensible(g: &Cfg, x: Extra) -> bool {
    match x {
        Extra::Arg(_, u) => !g.succs[u].is_empty() && !g.succs[u].contains(&g.entry),
        _ => true,
    }
}

pub fn p10(tier: Tier) -> Prop {
    let mut v = vec![];
    let mut sizes = vec![(1, 3), (2, 3), (3, 3)];
    if tier.thorough() {
        sizes.push((4, 2));
    }
    for (n, s) in sizes {
        let lists = succ_lists(n, s);
        v.push(space(
            format!("graphs-{}-{}", n, s),
            format!(
                "every graph of {} blocks with up to {} successors each, every entry block, every placement of a branch \
                 operand (early or late, use, definition or both), of a definition (or none) and a use, and of an argument; value numbers 0 and 70",
                n, s
            ),
            move |t, ch| {
                let succs = draw_graph(ch, n, &lists);
                let g = graph(succs, ch.choose(n));
                let x = draw_extra(ch, n);
                if !sensible(&g, x) {
                    return Leaf::Pruned;
                }
                let number = if n <= 3 { *ch.pick(&[0, 70]) } else { 0 };
                let m = make(&g, x, &ident(n), number);
                judge(&g, &m, &ident(n), t)
            },
        ));
    }
    if !tier.thorough() {
        // Four blocks: entry first or last; the value's definition and use, the branch operand.
        let lists = succ_lists(4, 2);
        v.push(space(
            "graphs-4-2",
            "every graph of 4 blocks with up to 2 successors each, entry block 0; branch operand anywhere, or one value",
            move |t, ch| {
                let succs = draw_graph(ch, 4, &lists);
                let g = graph(succs, 0);
                let x = match ch.choose(3) {
                    0 => Extra::None,
                    1 => Extra::BranchOp(ch.choose(4), ch.choose(2)),
                    _ => {
                        if g.critical() {
                            return Leaf::Pruned;
                        }
                        draw_extra(ch, 4)
                    }
                };
                if !sensible(&g, x) {
                    return Leaf::Pruned;
                }
                let m = make(&g, x, &ident(4), 0);
                judge(&g, &m, &ident(4), t)
            },
        ));
    }
    // Larger templates with one more edge, in several block orders.
    let mut cfgs = cfgs_small();
    cfgs.extend(cfgs_large());
    v.push(space(
        "templates",
        "every control-flow template, as it is or with one more edge between any two blocks, identity and reversed block \
         order and the entry last, every placement of a branch operand, value or argument",
        move |t, ch| {
            let mut g = ch.pick(&cfgs).clone();
            let n = g.n();
            if ch.flag() {
                let a = ch.choose(n);
                let b = ch.choose(n);
                g.succs[a].push(b);
            }
            let x = draw_extra(ch, n);
            if !sensible(&g, x) {
                return Leaf::Pruned;
            }
            let layout: Vec<usize> = match ch.choose(3) {
                0 => ident(n),
                1 => (0..n).rev().collect(),
                _ => (1..n).chain([0]).collect(),
            };
            let number = *ch.pick(&[0, 130]);
            let m = make(&g, x, &layout, number);
            judge(&g, &m, &layout, t)
        },
    ));
    Prop {
        note: "every function is run through the backtracking allocator; the three defects are looked up by definition \
               on the graph, and the answer must name a defect that is there, or be an allocation if there is none; \
               nontrivial = a defect is present",
        assumptions: &["values without a dominating definition in unreachable blocks are not judged"],
        spaces: v,
    }
}
