//! P16: dominators, traversal order, block structure, loop depth. P25: register probe order. P26: liveness.
//! The general graph enumeration is also used by P09 and P10.

use super::alloc;
use super::Prop;
use crate::ctx::*;
use crate::explore::*;
use crate::gen::Cfg;
use crate::ir::*;
use crate::run::{self, Algo};
use regalloc2::*;

/// Every successor list of length 0..=max over `n` blocks, in order and with repetitions.
pub fn succ_lists(n: usize, max: usize) -> Vec<Vec<usize>> {
    let mut all = vec![vec![]];
    let mut last = vec![vec![]];
    for _ in 0..max {
        let mut next = vec![];
        for l in &last {
            for t in 0..n {
                let mut m: Vec<usize> = l.clone();
                m.push(t);
                next.push(m);
            }
        }
        all.extend(next.iter().cloned());
        last = next;
    }
    all
}

pub fn draw_graph(ch: &mut Chooser, n: usize, lists: &[Vec<usize>]) -> Vec<Vec<usize>> {
    (0..n).map(|_| ch.pick(lists).clone()).collect()
}

pub fn graph(succs: Vec<Vec<usize>>, entry: usize) -> Cfg {
    Cfg {
        name: "graph",
        succs,
        entry,
    }
}

/// A function with this graph and `sizes[b]` instructions in block b (the last is the terminator).
pub fn skeleton(g: &Cfg, sizes: &[usize], layout: &[usize]) -> Func {
    let mut b = Builder::new(g.n());
    for k in 0..g.n() {
        for _ in 1..sizes[k] {
            b.inst(k, IKind::Op, vec![], PRegSet::empty());
        }
        b.inst(
            k,
            if g.succs[k].is_empty() {
                IKind::Ret
            } else {
                IKind::Branch
            },
            vec![],
            PRegSet::empty(),
        );
        for &t in &g.succs[k] {
            b.edge(k, t, vec![]);
        }
    }
    b.finish(g.entry, layout)
}

#[cfg(regalloc2_verif)]
mod hooked {
    use super::*;
    use regalloc2::verif;

    fn blocks(v: &[usize]) -> Vec<Block> {
        v.iter().map(|&x| Block::new(x)).collect()
    }

    /// Is `want` the postorder of some depth-first search, with the successors of each block tried in any order?
    fn is_some_postorder(g: &Cfg, want: &[usize]) -> bool {
        fn dfs(g: &Cfg, rev: bool, b: usize, seen: &mut Vec<bool>, out: &mut Vec<usize>) {
            seen[b] = true;
            for i in 0..g.succs[b].len() {
                let t = g.succs[b][if rev { g.succs[b].len() - 1 - i } else { i }];
                if !seen[t] {
                    dfs(g, rev, t, seen, out);
                }
            }
            out.push(b);
        }
        for rev in [false, true] {
            let (mut seen, mut out) = (vec![false; g.n()], vec![]);
            dfs(g, rev, g.entry, &mut seen, &mut out);
            if out == want {
                return true;
            }
        }
        // All orders: a search over the stacks of open blocks.
        fn any(
            g: &Cfg,
            stack: &mut Vec<usize>,
            seen: &mut Vec<bool>,
            done: usize,
            want: &[usize],
        ) -> bool {
            let Some(&b) = stack.last() else {
                return done == want.len();
            };
            let open: Vec<usize> = g.succs[b].iter().copied().filter(|&t| !seen[t]).collect();
            if open.is_empty() {
                if want.get(done) != Some(&b) {
                    return false;
                }
                stack.pop();
                let r = any(g, stack, seen, done + 1, want);
                stack.push(b);
                return r;
            }
            for t in open {
                seen[t] = true;
                stack.push(t);
                let r = any(g, stack, seen, done, want);
                stack.pop();
                seen[t] = false;
                if r {
                    return true;
                }
            }
            false
        }
        if g.n() > 9 {
            return false;
        }
        let mut seen = vec![false; g.n()];
        seen[g.entry] = true;
        any(g, &mut vec![g.entry], &mut seen, 0, want)
    }

    pub fn check_graph(g: &Cfg, rev_preds: bool, f: &Func) -> Result<(), String> {
        let n = g.n();
        let reach = g.reach_without(None);
        let succs: Vec<Vec<Block>> = g.succs.iter().map(|s| blocks(s)).collect();
        let mut preds: Vec<Vec<Block>> = g.preds().iter().map(|p| blocks(p)).collect();
        if rev_preds {
            preds.iter_mut().for_each(|p| p.reverse());
        }
        let entry = Block::new(g.entry);
        // Scratch memory left over from a larger graph.
        let (mut visited, mut po, mut rpo_of, mut idom) = (
            vec![true; 9],
            blocks(&[8, 7, 6, 5, 0]),
            vec![Some(3); 9],
            blocks(&[1, 2, 3, 4, 5, 6, 7, 8, 0]),
        );
        verif::postorder::calculate(n, entry, &mut visited, &mut po, |b| &succs[b.index()])
            .map_err(|e| format!("postorder failed: {:?}", e))?;
        let got: Vec<usize> = po.iter().map(|b| b.index()).collect();
        let mut sorted = got.clone();
        sorted.sort();
        let want: Vec<usize> = (0..n).filter(|&b| reach[b]).collect();
        if sorted != want {
            return Err(format!(
                "postorder {:?} does not contain exactly the reachable blocks {:?}",
                got, want
            ));
        }
        if !is_some_postorder(g, &got) {
            return Err(format!("{:?} is not a depth-first postorder", got));
        }
        verif::domtree::calculate(n, |b| &preds[b.index()], &po, &mut rpo_of, &mut idom, entry);
        let sd = g.sdoms();
        if idom.len() != n {
            return Err(format!("{} immediate dominators", idom.len()));
        }
        for b in 0..n {
            // the strict dominator that all other strict dominators dominate
            let want = sd[b]
                .iter()
                .copied()
                .find(|&a| sd[b].iter().all(|&x| x == a || sd[a].contains(&x)));
            let got = if idom[b].is_valid() {
                Some(idom[b].index())
            } else {
                None
            };
            if got != want {
                return Err(format!(
                    "immediate dominator of block {} is {:?}, should be {:?}",
                    b, got, want
                ));
            }
            for a in 0..n {
                let want = a == b || sd[b].contains(&a);
                if verif::domtree::dominates(&idom, Block::new(a), Block::new(b)) != want {
                    return Err(format!("dominates({}, {}) should be {}", a, b, want));
                }
            }
        }
        // The same through the summary, whenever the graph has no critical edge.
        if g.critical() {
            return Ok(());
        }
        let mut info = verif::CFGInfo::default();
        let mut ctx = verif::CFGInfoCtx::default();
        // a previous use
        let old = graph(
            vec![
                vec![1],
                vec![2, 3],
                vec![1],
                vec![4, 5],
                vec![6],
                vec![6],
                vec![],
            ],
            0,
        );
        info.init(&skeleton(&old, &[1, 2, 1, 3, 1, 1, 2], &ident(7)), &mut ctx)
            .map_err(|e| format!("{:?}", e))?;
        info.init(f, &mut ctx)
            .map_err(|e| format!("summary failed: {:?}", e))?;
        if info.insn_block.len() != f.insts.len()
            || info.block_entry.len() != n
            || info.block_exit.len() != n
            || info.approx_loop_depth.len() != n
        {
            return Err("wrong table sizes".into());
        }
        for (b, d) in f.blocks.iter().enumerate() {
            for k in d.first..d.end {
                if info.insn_block[k] != Block::new(b) {
                    return Err(format!(
                        "instruction {} is said to be in {:?}",
                        k, info.insn_block[k]
                    ));
                }
            }
            if info.block_entry[b] != ProgPoint::before(Inst::new(d.first))
                || info.block_exit[b] != ProgPoint::after(Inst::new(d.end - 1))
            {
                return Err(format!("entry or exit point of block {}", b));
            }
        }
        let got: Vec<usize> = info.postorder.iter().map(|b| b.index()).collect();
        if !is_some_postorder(g, &got) {
            return Err(format!("summary: {:?} is not a depth-first postorder", got));
        }
        for a in 0..n {
            for b in 0..n {
                let want = a == b || sd[b].contains(&a);
                if info.dominates(Block::new(a), Block::new(b)) != want {
                    return Err(format!(
                        "summary: dominates({}, {}) should be {}",
                        a, b, want
                    ));
                }
            }
        }
        if let Some(depth) = exact_depths(g) {
            let got: Vec<usize> = info.approx_loop_depth.iter().map(|&x| x as usize).collect();
            if got != depth {
                return Err(format!("loop depths {:?}, should be {:?}", got, depth));
            }
        }
        Ok(())
    }

    /// Loop depths, if every block is reachable, the graph is reducible, retreating edges go to lower or
    /// equal indices and every loop is laid out contiguously from its header.
    pub fn exact_depths(g: &Cfg) -> Option<Vec<usize>> {
        let n = g.n();
        let reach = g.reach_without(None);
        let sd = g.sdoms();
        let dom = |a: usize, b: usize| a == b || sd[b].contains(&a);
        let preds = g.preds();
        if reach.iter().any(|r| !r) {
            return None;
        }
        let mut body: Vec<Option<Vec<bool>>> = vec![None; n];
        for s in 0..n {
            for &t in &g.succs[s] {
                if (t <= s) != dom(t, s) {
                    return None;
                }
                if t <= s {
                    // natural loop of the edge
                    let l = body[t].get_or_insert_with(|| vec![false; n]);
                    l[t] = true;
                    let mut w = vec![s];
                    while let Some(b) = w.pop() {
                        if !l[b] {
                            l[b] = true;
                            w.extend(&preds[b]);
                        }
                    }
                }
            }
        }
        let mut depth = vec![0; n];
        for (h, l) in body.iter().enumerate() {
            if let Some(l) = l {
                let last = (0..n).rev().find(|&b| l[b]).unwrap();
                if (0..n).any(|b| l[b] != (h <= b && b <= last)) {
                    return None;
                }
                for b in h..=last {
                    depth[b] += 1;
                }
            }
        }
        Some(depth)
    }

    fn judge(t: &mut Tally, g: &Cfg, rev: bool, sizes: &[usize]) -> Leaf {
        let mut f = skeleton(g, sizes, &ident(g.n()));
        if rev {
            f.blocks.iter_mut().for_each(|b| b.preds.reverse());
        }
        t.states += 1;
        t.transitions += g.succs.iter().map(|s| s.len() as u64).sum::<u64>();
        t.nontrivial += (g.reach_without(None).iter().filter(|x| **x).count() > 2) as u64;
        t.sample(|| format!("{:?} entry {}", g.succs, g.entry));
        let r = run::guard(|| check_graph(g, rev, &f));
        match r {
            Ok(Ok(())) => Leaf::Ok,
            Ok(Err(e)) => bad(
                "Graph",
                e,
                format!(
                    "successors {:?} entry {} reversed predecessors {}\n",
                    g.succs, g.entry, rev
                ),
            ),
            Err(e) => bad(
                "Panic",
                e,
                format!(
                    "successors {:?} entry {} reversed predecessors {}\n",
                    g.succs, g.entry, rev
                ),
            ),
        }
    }

    pub fn p16_spaces(tier: Tier) -> Vec<Space> {
        let mut spaces = vec![];
        let mut cfgs = vec![(1, 3), (2, 3), (3, 3), (4, 2)];
        if tier.thorough() {
            cfgs.extend([(4, 3), (5, 2)]);
        }
        for (n, s) in cfgs {
            let lists = succ_lists(n, s);
            spaces.push(space(
                format!("graphs-{}-{}", n, s),
                format!("every graph of {} blocks with up to {} successors each (ordered, repetitions allowed), entry blocks, both predecessor orders, block sizes 1 to 2", n, s),
                move |t, ch| {
                    // The largest graphs: entry first or last only.
                    let big = lists.len().pow(n as u32) > 10_000_000;
                    let entry = if big { [0, n - 1][ch.choose(2)] } else { ch.choose(n) };
                    let rev = !big && ch.flag();
                    let g = graph(draw_graph(ch, n, &lists), entry);
                    let sizes: Vec<usize> = (0..n).map(|b| 1 + (b + entry) % 2).collect();
                    judge(t, &g, rev, &sizes)
                },
            ));
        }
        let sizes: Vec<usize> = if tier.thorough() {
            (1..=200).collect()
        } else {
            (1..=24).chain([62, 63, 64, 65, 66, 67, 127, 130]).collect()
        };
        spaces.push(space(
            "families",
            "chains, combs, ladders, diamonds, nested loops, irreducible meshes of growing size; forward, reversed and rotated numbering",
            move |t, ch| {
                let k = *ch.pick(&sizes);
                let fam = ch.choose(9);
                let base: Vec<Vec<usize>> = match fam {
                    // chain
                    0 => (0..k).map(|i| if i + 1 < k { vec![i + 1] } else { vec![] }).collect(),
                    // chain with a jump back to every block
                    1 => (0..k).map(|i| if i + 1 < k { vec![i / 2, i + 1] } else { vec![0] }).collect(),
                    // comb: each block goes on or to the end
                    2 => (0..k).map(|i| if i + 1 < k { vec![i + 1, k - 1] } else { vec![] }).collect(),
                    // diamonds
                    3 => {
                        let mut v = vec![];
                        for i in 0..k {
                            let b = i * 3;
                            v.extend([vec![b + 1, b + 2], vec![b + 3], vec![b + 3]]);
                        }
                        v.push(vec![]);
                        v
                    }
                    // perfectly nested loops: k headers, k latches
                    4 => {
                        let mut v: Vec<Vec<usize>> = (0..k).map(|i| vec![i + 1]).collect();
                        v.push(vec![k + 1]);
                        for i in 0..k {
                            // innermost latch first
                            let h = k - 1 - i;
                            v.push(vec![k + 1 + 2 * i + 1, k + 1 + 2 * i + 2]);
                            v.push(vec![h]);
                        }
                        v.push(vec![]);
                        v
                    }
                    // a sequence of loops
                    5 => {
                        let mut v = vec![];
                        for i in 0..k {
                            let b = i * 3;
                            v.extend([vec![b + 1], vec![b + 2, b + 3], vec![b]]);
                        }
                        v.push(vec![]);
                        v
                    }
                    // irreducible mesh
                    6 => (0..k).map(|i| vec![(i * 7 + 1) % k, (i * 3 + 2) % k, (i + 1) % k]).collect(),
                    // ladder with crossing edges
                    7 => {
                        let n = 2 * k;
                        (0..n).map(|i| if i + 2 < n { vec![i + 2, (i ^ 1) + 2] } else { vec![] }).collect()
                    }
                    // one switch
                    _ => {
                        let mut v = vec![(1..=k).collect::<Vec<_>>()];
                        for _ in 0..k {
                            v.push(vec![k + 1]);
                        }
                        v.push(vec![]);
                        v
                    }
                };
                let n = base.len();
                let (ren, entry): (Vec<usize>, usize) = match ch.choose(3) {
                    0 => ((0..n).collect(), 0),
                    1 => ((0..n).rev().collect(), n - 1),
                    _ => ((0..n).map(|i| (i * 2 + (n % 2 == 0 && i >= n / 2) as usize + 1) % n).collect(), 1 % n),
                };
                let mut succs = vec![vec![]; n];
                for (b, s) in base.iter().enumerate() {
                    succs[ren[b]] = s.iter().map(|&x| ren[x]).collect();
                }
                let g = graph(succs, entry);
                let sizes: Vec<usize> = (0..n).map(|b| 1 + b % 3).collect();
                judge(t, &g, ch.flag(), &sizes)
            },
        ));
        // Loop nests without critical edges, laid out in order: depth is exact.
        spaces.push(space("loop-nests", "every bracket sequence of up to 5 loops (nested and in sequence), with one or two jumps back per loop", move |t, ch| {
            let mut succs: Vec<Vec<usize>> = vec![vec![]];
            let mut open: Vec<usize> = vec![];
            let mut want = vec![0];
            let mut left = tier.pick(4, 5);
            let push = |succs: &mut Vec<Vec<usize>>, want: &mut Vec<usize>, d: usize| {
                want.push(d);
                succs.push(vec![]);
                succs.len() - 1
            };
            loop {
                let c = ch.choose(1 + (left > 0) as usize + (!open.is_empty()) as usize);
                if c == 0 && open.is_empty() {
                    break;
                }
                if c == 1 + (left > 0) as usize || (c == 0 && !open.is_empty()) {
                    // close: optionally a second way back, then test block -> latch | exit
                    let h = open.pop().unwrap();
                    let d = open.len() + 1;
                    if c == 0 {
                        let cur = succs.len() - 1;
                        let x = push(&mut succs, &mut want, d);
                        let y = push(&mut succs, &mut want, d);
                        succs[cur] = vec![x, y];
                        succs[x] = vec![h];
                    }
                    let cur = succs.len() - 1;
                    let l = push(&mut succs, &mut want, d);
                    let e = push(&mut succs, &mut want, d - 1);
                    succs[cur] = vec![l, e];
                    succs[l] = vec![h];
                } else {
                    left -= 1;
                    let cur = succs.len() - 1;
                    let h = push(&mut succs, &mut want, open.len() + 1);
                    succs[cur] = vec![h];
                    open.push(h);
                    let b = push(&mut succs, &mut want, open.len());
                    succs[h] = vec![b];
                }
            }
            let g = graph(succs, 0);
            if g.n() == 1 {
                return Leaf::Ok;
            }
            match exact_depths(&g) {
                Some(d) if d == want => {}
                x => return bad("Graph", format!("harness: reference depths {:?} differ from {:?}", x, want), format!("{:?}", g.succs)),
            }
            let sizes = vec![1; g.n()];
            judge(t, &g, false, &sizes)
        }));
        spaces
    }

    pub fn p25_spaces(tier: Tier) -> Vec<Space> {
        let mut spaces = vec![];
        let encs: Vec<[usize; 4]> = tier.pick(
            vec![[0, 5, 6, 63], [1, 31, 32, 62]],
            vec![
                [0, 5, 6, 63],
                [1, 31, 32, 62],
                [0, 1, 2, 3],
                [60, 61, 62, 63],
                [7, 8, 15, 16],
            ],
        );
        let limits: Vec<Option<usize>> = [None]
            .into_iter()
            .chain((0..7).map(|l| Some(1 << l)))
            .collect();
        let offsets: Vec<usize> = tier.pick(
            vec![
                0,
                1,
                2,
                4,
                5,
                6,
                7,
                30,
                31,
                32,
                33,
                61,
                62,
                63,
                64,
                68,
                69,
                126,
                1000,
                usize::MAX,
            ],
            (0..200).chain([1000, 1 << 20, usize::MAX]).collect(),
        );
        let go = |t: &mut Tally,
                  env: &MachineEnv,
                  class: RegClass,
                  fixed: Option<PReg>,
                  hint: Option<PReg>,
                  off: usize,
                  lim: Option<usize>|
         -> Leaf {
            let what = format!(
                "{}{:?} fixed {:?} hint {:?} offset {} limit {:?}",
                env_dump(env),
                class,
                fixed,
                hint,
                off,
                lim
            );
            t.states += 1;
            t.transitions += 1;
            t.sample(|| what.clone());
            let got: Vec<PReg> = match run::guard(|| {
                verif::RegTraversalIter::new(env, class, fixed, hint, off, lim)
                    .take(400)
                    .collect()
            }) {
                Ok(v) => v,
                Err(e) => return bad("Panic", e, what),
            };
            if let Some(f) = fixed {
                return if got == [f] {
                    Leaf::Ok
                } else {
                    bad("Order", format!("tries {:?}", got), what)
                };
            }
            let below = |p: &PReg| lim.map_or(true, |l| p.hw_enc() < l);
            let pref: Vec<PReg> = env.preferred_regs_by_class[class as usize]
                .into_iter()
                .filter(below)
                .collect();
            let non: Vec<PReg> = env.non_preferred_regs_by_class[class as usize]
                .into_iter()
                .filter(below)
                .collect();
            t.nontrivial += (pref.len() + non.len() > 1) as u64;
            let mut want: Vec<PReg> = pref.iter().chain(&non).copied().collect();
            let mut have = got.clone();
            want.sort();
            have.sort();
            if have != want {
                return bad(
                    "Order",
                    format!("tries {:?}, permitted are {:?}", got, want),
                    what,
                );
            }
            if let Some(h) = hint {
                if below(&h) && got.first() != Some(&h) {
                    return bad(
                        "Order",
                        format!("tries {:?}, the hint {} not first", got, h),
                        what,
                    );
                }
            }
            let rest: Vec<bool> = got
                .iter()
                .filter(|p| Some(**p) != hint)
                .map(|p| pref.contains(p))
                .collect();
            if rest.windows(2).any(|w| !w[0] && w[1]) {
                return bad(
                    "Order",
                    format!(
                        "tries {:?}, a preferred register after a non-preferred one",
                        got
                    ),
                    what,
                );
            }
            Leaf::Ok
        };
        spaces.push(space(
            "small-files",
            "every placement of four registers (preferred, non-preferred, absent) x class x hint x limit x offset, and fixed requirements",
            move |t, ch| {
                let four = *ch.pick(&encs);
                let c = ch.choose(3);
                let class = CLASSES[c];
                let mut e = EnvSpec::default();
                let mut regs = vec![];
                for r in four {
                    match ch.choose(3) {
                        0 => {}
                        1 => {
                            e.pref[c].push(r);
                            regs.push(PReg::new(r, class));
                        }
                        _ => {
                            e.nonpref[c].push(r);
                            regs.push(PReg::new(r, class));
                        }
                    }
                }
                // registers of the other classes must never show up
                e.pref[(c + 1) % 3] = vec![0, 9, 62];
                e.nonpref[(c + 2) % 3] = vec![0, 10, 63];
                let env = e.build();
                let lim = *ch.pick(&limits);
                let off = *ch.pick(&offsets);
                let h = ch.choose(2 * regs.len() + 2);
                let invalid = PReg::invalid();
                let (fixed, hint) = if h < regs.len() {
                    (None, Some(regs[h]))
                } else if h < 2 * regs.len() {
                    (Some(regs[h - regs.len()]), None)
                } else if h == 2 * regs.len() {
                    (None, None)
                } else {
                    // a fixed register that is not allocatable, with a hint
                    (Some(PReg::new(40, class)), regs.first().copied())
                };
                // p63i cannot be told from "no register"
                if fixed == Some(invalid) || hint == Some(invalid) {
                    return Leaf::Pruned;
                }
                go(t, &env, class, fixed, hint, off, lim)
            },
        ));
        spaces.push(space(
            "full-files",
            "all 64 registers split in 7 ways x class x every hint x limit x 131 offsets",
            move |t, ch| {
                let c = ch.choose(3);
                let class = CLASSES[c];
                let mut e = EnvSpec::default();
                let split = ch.choose(7);
                for r in 0..64 {
                    let pref = match split {
                        0 => true,
                        1 => false,
                        2 => r % 2 == 0,
                        3 => r < 32,
                        4 => r >= 32,
                        5 => r == 0 || r == 63,
                        _ => r % 7 < 3,
                    };
                    if pref {
                        e.pref[c].push(r)
                    } else {
                        e.nonpref[c].push(r)
                    }
                }
                let env = e.build();
                let lim = *ch.pick(&[None, Some(1), Some(8), Some(32), Some(64)]);
                let off = ch.choose(131);
                let hint = *ch.pick(&[
                    None,
                    Some(0),
                    Some(1),
                    Some(7),
                    Some(8),
                    Some(31),
                    Some(32),
                    Some(62),
                ]);
                go(
                    t,
                    &env,
                    class,
                    None,
                    hint.map(|h| PReg::new(h, class)),
                    off,
                    lim,
                )
            },
        ));
        spaces
    }

    // ---- P26

    /// Live-in sets by definition: from the start of the block some path reaches a use before a definition.
    fn live_by_paths(f: &Func) -> (Vec<Vec<bool>>, Vec<Vec<bool>>) {
        let (nb, nv) = (f.blocks.len(), f.num_vregs);
        let mut ins = vec![vec![false; nv]; nb];
        let mut outs = ins.clone();
        let mut used = vec![];
        for d in &f.insts {
            used.extend(
                d.ops
                    .iter()
                    .filter(|o| o.as_fixed_nonallocatable().is_none())
                    .map(|o| o.vreg().vreg()),
            );
        }
        used.extend(
            f.blocks
                .iter()
                .flat_map(|b| b.args.iter().flatten().map(|v| v.vreg())),
        );
        used.sort();
        used.dedup();
        for &v in &used {
            // what a walk through each block meets first: a use, a definition, or nothing
            let first: Vec<Option<bool>> = f
                .blocks
                .iter()
                .map(|b| {
                    if b.params.iter().any(|p| p.vreg() == v) {
                        return Some(false);
                    }
                    for k in b.first..b.end {
                        let ops = &f.insts[k].ops;
                        let is = |o: &&Operand, kind| {
                            o.as_fixed_nonallocatable().is_none()
                                && o.vreg().vreg() == v
                                && o.kind() == kind
                        };
                        if ops.iter().any(|o| is(&o, OperandKind::Use)) {
                            return Some(true);
                        }
                        if ops.iter().any(|o| is(&o, OperandKind::Def)) {
                            return Some(false);
                        }
                    }
                    if b.args.iter().flatten().any(|a| a.vreg() == v) {
                        return Some(true);
                    }
                    None
                })
                .collect();
            let live = |start: usize| {
                let mut seen = vec![false; nb];
                let mut w = vec![start];
                while let Some(b) = w.pop() {
                    if std::mem::replace(&mut seen[b], true) {
                        continue;
                    }
                    match first[b] {
                        Some(true) => return true,
                        Some(false) => {}
                        None => w.extend(f.blocks[b].succs.iter().map(|t| t.index())),
                    }
                }
                false
            };
            for b in 0..nb {
                ins[b][v] = live(b);
            }
            for b in 0..nb {
                outs[b][v] = f.blocks[b].succs.iter().any(|t| ins[t.index()][v]);
            }
        }
        (ins, outs)
    }

    pub fn judge_liveness(f: &Func, env: &MachineEnv, t: &mut Tally) -> Leaf {
        let dump = || format!("{}{}", env_dump(env), f.dump());
        let mut ctx = Ctx::default();
        let o = Algo::Ion.options();
        match run::guard(|| regalloc2::run_with_ctx(f, env, &o, &mut ctx).map(|_| ())) {
            Ok(Ok(())) => {}
            Ok(Err(e)) => {
                return bad(
                    "Error",
                    format!("error {:?} on a well-formed function", e),
                    dump(),
                )
            }
            Err(p) => return bad("Panic", p, dump()),
        }
        let (gi, go) = verif::liveness(&ctx);
        let (wi, wo) = live_by_paths(f);
        let mut g = graph(
            f.blocks
                .iter()
                .map(|b| b.succs.iter().map(|t| t.index()).collect())
                .collect(),
            f.entry.index(),
        );
        g.name = "f";
        let reach = g.reach_without(None);
        t.states += f.blocks.len() as u64;
        t.transitions += f.insts.len() as u64;
        t.nontrivial += wo.iter().flatten().any(|x| *x) as u64;
        t.sample(dump);
        for b in 0..f.blocks.len() {
            if !reach[b] {
                continue;
            }
            for (what, got, want) in [("into", &gi[b], &wi[b]), ("out of", &go[b], &wo[b])] {
                let mut got: Vec<usize> = got.iter().collect();
                got.sort();
                let want: Vec<usize> = (0..want.len()).filter(|&v| want[v]).collect();
                if got != want {
                    return bad(
                        "Liveness",
                        format!("live {} block {}: {:?}, should be {:?}", what, b, got, want),
                        dump(),
                    );
                }
            }
        }
        Leaf::Ok
    }

    pub fn p26_spaces(tier: Tier) -> Vec<Space> {
        let mut spaces = vec![];
        for e in crate::scopes::all(tier) {
            let names = [
                "cfg-basic",
                "cfg-params",
                "cfg-large",
                "cfg-order",
                "cfg-branch",
                "classes-cfg",
                "nonalloc",
            ];
            if !names.iter().any(|n| e.scope.name.starts_with(n))
                || e.who == crate::scopes::Who2::FastOnly
            {
                continue;
            }
            if tier.thorough()
                && (e.scope.name == "cfg-basic" || e.scope.name.starts_with("cfg-large-params"))
            {
                continue;
            }
            let sc = e.scope;
            for stride in [1, 64] {
                let mut sc = sc.clone();
                sc.stride = stride;
                if stride > 1
                    && (sc.name.starts_with("cfg-params") || sc.name.starts_with("cfg-order"))
                {
                    continue;
                }
                let name = format!("{} stride {}", sc.name, stride);
                let bounds = format!(
                    "the functions of scope {} with value numbers multiplied by {}",
                    sc.name, stride
                );
                spaces.push(space(name, bounds, move |t, ch| match sc.build(ch) {
                    None => Leaf::Pruned,
                    Some(c) if !crate::feas::supported(&c.func, Algo::Ion) => Leaf::Pruned,
                    Some(c) => judge_liveness(&c.func, &c.env, t),
                }));
            }
        }
        for n in 2..=tier.pick(4, 5usize) {
            let lists = succ_lists(n, 2);
            spaces.push(space(
                format!("graphs-{}", n),
                format!(
                    "every graph of {} blocks without critical edges, entry first, two block orders; one value used in any set of blocks \
                     and one value per dominating pair of blocks; value numbers spread over 1 or 14 words",
                    n
                ),
                move |t, ch| {
                    let g = graph(draw_graph(ch, n, &lists), 0);
                    if g.critical() {
                        return Leaf::Pruned;
                    }
                    let reach = g.reach_without(None);
                    if (0..n).any(|b| !reach[b]) && n > 3 {
                        return Leaf::Pruned;
                    }
                    let sd = g.sdoms();
                    let mask = ch.choose(1 << n);
                    let pairs: Vec<(usize, usize)> = (0..n).flat_map(|u| sd[u].iter().map(move |&d| (d, u)).collect::<Vec<_>>()).collect();
                    let pair = ch.choose(pairs.len() + 1);
                    let wide = ch.flag();
                    let layout: Vec<usize> = if ch.flag() { (0..n).rev().collect() } else { (0..n).collect() };
                    let mut b = Builder::new(n);
                    // With `wide`, a dozen more values live from the entry into the second block on.
                    let extra = if wide { 13 } else { 0 };
                    let v0 = b.vreg(I);
                    let xs: Vec<VReg> = (0..extra).map(|_| b.vreg(I)).collect();
                    let mut defs = vec![Operand::any_def(v0)];
                    defs.extend(xs.iter().map(|&x| Operand::any_def(x)));
                    for d in defs {
                        b.inst(0, IKind::Op, vec![d], PRegSet::empty());
                    }
                    let pv = if pair > 0 { Some((pairs[pair - 1], b.vreg(I))) } else { None };
                    for k in 0..n {
                        if let Some(((_, u), v)) = pv {
                            if u == k {
                                b.inst(k, IKind::Op, vec![Operand::any_use(v)], PRegSet::empty());
                            }
                        }
                        if mask >> k & 1 == 1 {
                            b.inst(k, IKind::Op, vec![Operand::any_use(v0)], PRegSet::empty());
                            for &x in xs.iter().skip(k) {
                                b.inst(k, IKind::Op, vec![Operand::any_use(x)], PRegSet::empty());
                            }
                        }
                        if let Some(((d, _), v)) = pv {
                            if d == k {
                                b.inst(k, IKind::Op, vec![Operand::any_def(v)], PRegSet::empty());
                            }
                        }
                        let kind = if g.succs[k].is_empty() { IKind::Ret } else { IKind::Branch };
                        b.inst(k, kind, vec![], PRegSet::empty());
                        for &s in &g.succs[k] {
                            b.edge(k, s, vec![]);
                        }
                    }
                    let mut f = b.finish(0, &layout);
                    if wide {
                        f.spread(64);
                    }
                    let env = EnvSpec::ints(&[0, 1], &[]).build();
                    // An unreachable block may not use what the entry defines.
                    if (0..n).any(|k| !reach[k] && mask >> k & 1 == 1) {
                        return Leaf::Pruned;
                    }
                    judge_liveness(&f, &env, t)
                },
            ));
        }
        spaces
    }
}

pub fn p16(tier: Tier) -> Prop {
    #[allow(unused_mut)]
    let mut spaces = alloc::e2e("P16");
    let _ = tier;
    #[cfg(regalloc2_verif)]
    spaces.extend(hooked::p16_spaces(tier));
    Prop {
        note: "dominators by removing each block in turn, postorder by a depth-first search that follows the claimed order, block tables \
               and loop depths by definition, on every graph of the spaces; nontrivial = more than two reachable blocks",
        assumptions: &[
            "loop depths are judged where the code documents them as precise: reducible graph, every block reachable, each loop contiguous from its header",
        ],
        spaces,
    }
}

pub fn p25(tier: Tier) -> Prop {
    #[allow(unused_mut)]
    let mut spaces = alloc::e2e("P25");
    let _ = tier;
    #[cfg(regalloc2_verif)]
    spaces.extend(hooked::p25_spaces(tier));
    Prop {
        note: "the real iterator is run to its end for every combination and compared with the set of permitted registers; \
               nontrivial = more than one permitted register",
        assumptions: &["hints are allocatable registers other than p63i, which stands for no register"],
        spaces,
    }
}

pub fn p26(tier: Tier) -> Prop {
    #[allow(unused_mut)]
    let mut spaces = alloc::e2e("P26");
    let _ = tier;
    #[cfg(regalloc2_verif)]
    spaces.extend(hooked::p26_spaces(tier));
    Prop {
        note: "the live sets the real run leaves in its context are compared with a path search on the input function, for every block and \
               value; a state is a block; nontrivial = some value is live across a block boundary",
        assumptions: &["a branch argument is a use at the end of the predecessor and is not live out of it", "reachable blocks only"],
        spaces,
    }
}
