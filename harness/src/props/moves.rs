//! P13, P14: move resolution. P15: redundant-move elimination.

use super::{alloc, Prop};
use crate::ctx::*;
use crate::explore::*;
use crate::run;
use regalloc2::verif::*;
use regalloc2::*;
use std::collections::HashMap;
use std::hash::{Hash, Hasher};

fn reg(n: usize) -> Allocation {
    Allocation::reg(PReg::new(n, RegClass::Int))
}
fn slot(n: usize) -> Allocation {
    Allocation::stack(SpillSlot::new(n))
}
type Mv = (Allocation, Allocation, u32);

fn show(ms: &[Mv]) -> String {
    ms.iter()
        .map(|(s, d, t)| format!("{} <- {} [{}]", d, s, t))
        .collect::<Vec<_>>()
        .join("\n")
}

/// Contents: location -> initial location whose value it holds (None: garbage).
#[derive(Clone, Default)]
struct Mem(HashMap<Allocation, Option<Allocation>>);

impl Mem {
    fn get(&self, a: Allocation) -> Option<Allocation> {
        self.0.get(&a).copied().unwrap_or(Some(a))
    }
    fn set(&mut self, a: Allocation, v: Option<Allocation>) {
        self.0.insert(a, v);
    }
    fn run(&mut self, ms: &[Mv]) {
        for &(s, d, _) in ms {
            let v = self.get(s);
            self.set(d, v);
        }
    }
}

/// Does the move set contain a cycle of at least two locations?
fn cyclic(src: &HashMap<Allocation, Allocation>) -> bool {
    src.keys().any(|&d| {
        let mut x = src[&d];
        if x == d {
            return false;
        }
        for _ in 0..src.len() {
            if x == d {
                return true;
            }
            match src.get(&x) {
                Some(&y) => x = y,
                None => return false,
            }
        }
        x == d
    })
}

fn resolve(ms: &[Mv]) -> Result<MoveVecWithScratch<u32>, String> {
    run::guard(|| {
        let mut p = ParallelMoves::new();
        for &(s, d, t) in ms {
            p.add(s, d, t);
        }
        p.resolve()
    })
}

fn judge13(t: &mut Tally, ms: &[Mv], locs: &[Allocation]) -> Leaf {
    let src: HashMap<Allocation, Allocation> = ms.iter().map(|&(s, d, _)| (d, s)).collect();
    let tag: HashMap<Allocation, u32> = ms.iter().map(|&(_, d, g)| (d, g)).collect();
    let cyc = cyclic(&src);
    let dump = || format!("moves in parallel:\n{}", show(ms));
    let scratch = reg(60);
    let r = match resolve(ms) {
        Ok(r) => r,
        Err(p) => return bad("Panic", p, dump()),
    };
    if r.needs_scratch() && !cyc {
        return bad(
            "Scratch",
            "scratch requested although there is no cycle",
            dump(),
        );
    }
    if !r.needs_scratch() {
        match r.clone().without_scratch() {
            Some(v) if v[..] == r.clone().with_scratch(scratch)[..] => {}
            _ => {
                return bad(
                    "Scratch",
                    "no scratch needed, but the move list depends on it",
                    dump(),
                )
            }
        }
    } else if r.clone().without_scratch().is_some() {
        return bad(
            "Scratch",
            "scratch needed, but a list without one was given",
            dump(),
        );
    }
    let needs = r.needs_scratch();
    let seq = match run::guard(|| r.with_scratch(scratch)) {
        Ok(s) => s,
        Err(p) => return bad("Panic", p, dump()),
    };
    let dump = || {
        format!(
            "moves in parallel:\n{}\nsequence:\n{}",
            show(ms),
            show(&seq)
        )
    };
    if seq.iter().any(|m| m.0.is_none() || m.1.is_none()) {
        return bad(
            "Scratch",
            "unfilled scratch location in the sequence",
            dump(),
        );
    }
    if !needs && seq.iter().any(|m| m.0 == scratch || m.1 == scratch) {
        return bad("Scratch", "scratch used although not needed", dump());
    }
    let mut mem = Mem::default();
    mem.set(scratch, None);
    mem.run(&seq);
    t.transitions += seq.len() as u64;
    for &l in locs {
        let want = src.get(&l).copied().unwrap_or(l);
        if mem.get(l) != Some(want) {
            return bad(
                "Lost",
                format!(
                    "{} should hold the value of {}, holds {:?}",
                    l,
                    want,
                    mem.get(l)
                ),
                dump(),
            );
        }
    }
    for m in &seq {
        if let Some(&g) = tag.get(&m.1) {
            if m.2 != g {
                return bad(
                    "Tag",
                    format!("the move into {} carries the data of another move", m.1),
                    dump(),
                );
            }
        }
    }
    t.states += 1;
    if cyc {
        t.nontrivial += 1;
        t.sample(dump);
    }
    Leaf::Ok
}

/// Every partial function destination -> source over `locs`.
fn draw_moves(ch: &mut Chooser, locs: &[Allocation]) -> Vec<Mv> {
    let mut v = vec![];
    for (i, &d) in locs.iter().enumerate() {
        let c = ch.choose(locs.len() + 1);
        if c > 0 {
            v.push((locs[c - 1], d, 100 + i as u32));
        }
    }
    v
}

/// Two components (cycle, chain, fan, cycle with tail) of many sizes over registers and slots.
fn draw_large(ch: &mut Chooser, top: usize) -> (Vec<Mv>, Vec<Allocation>) {
    let a = ch.choose(top + 1);
    let b = ch.choose(top.min(20) + 1);
    let (ka, kb) = (ch.choose(4), ch.choose(4));
    let lay = ch.choose(3);
    let n = a + b + 2;
    let locs: Vec<Allocation> = (0..n)
        .map(|i| match lay {
            0 => slot(i),
            1 => {
                if i % 2 == 0 && i / 2 < 60 {
                    reg(i / 2)
                } else {
                    slot(n - i)
                }
            }
            _ => slot((i * 7919) % 100_003),
        })
        .collect();
    let mut ms: Vec<Mv> = vec![];
    let mut comp = |base: usize, k: usize, shape: usize| {
        for i in 0..k {
            let (s, d) = match shape {
                0 => (base + i, base + (i + 1) % k),
                1 => (base + i, base + i + 1),
                2 => (base, base + i + 1),
                _ => {
                    if i == k - 1 {
                        (base, base + k)
                    } else {
                        (base + i, base + (i + 1) % (k - 1).max(1))
                    }
                }
            };
            ms.push((locs[s], locs[d], 1000 + d as u32));
        }
    };
    comp(0, a, ka);
    comp(a + 1, b, kb);
    (ms, locs)
}

pub fn p13(tier: Tier) -> Prop {
    let mut spaces = vec![];
    let n = tier.pick(7, 8);
    spaces.push(space(
        "all-moves",
        format!(
            "every set of moves over {} locations with one writer per destination",
            n
        ),
        move |t, ch| {
            let locs: Vec<Allocation> = vec![
                reg(0),
                reg(1),
                slot(0),
                reg(2),
                slot(1),
                reg(3),
                slot(2),
                slot(3),
            ][..n]
                .to_vec();
            let ms = draw_moves(ch, &locs);
            judge13(t, &ms, &locs)
        },
    ));
    let n = tier.pick(4, 5);
    spaces.push(space(
        "orders-and-duplicates",
        format!(
            "every set of moves over {} locations, every insertion order, optionally one move added twice",
            n
        ),
        move |t, ch| {
            let locs: Vec<Allocation> = vec![slot(1), reg(1), reg(0), slot(0), reg(2)][..n].to_vec();
            let ms = draw_moves(ch, &locs);
            let mut rest = ms.clone();
            let mut o = vec![];
            while !rest.is_empty() {
                let k = ch.choose(rest.len());
                o.push(rest.remove(k));
            }
            let k = ch.choose(o.len() + 1);
            if k > 0 {
                let at = ch.choose(2);
                let m = o[k - 1];
                o.insert(if at == 0 { 0 } else { o.len() }, m);
            }
            judge13(t, &o, &locs)
        },
    ));
    // Big move sets: cycles of every length, chains, fans, several components, around the inline sizes.
    let top = tier.pick(36, 80);
    spaces.push(space(
        "large-structured",
        format!("two components (cycle, chain, fan, cycle with tail; each of every size up to {}) in every pairing, three layouts", top),
        move |t, ch| {
            let (ms, locs) = draw_large(ch, top);
            judge13(t, &ms, &locs)
        },
    ));
    spaces.extend(alloc::e2e("P13"));
    Prop {
        note: "the real ParallelMoves resolver is run on every move set of each space and its output is executed one move \
               at a time on a symbolic memory; states = move sets, transitions = executed moves, nontrivial = cyclic sets",
        assumptions: &["each destination has one writer (documented precondition)"],
        spaces,
    }
}

struct Cfg14 {
    regs: usize,
    slots: usize,
    fixed: usize,
}

fn space14(name: &str, c: Cfg14, max_moves: usize) -> Space {
    let bounds = format!(
        "every move set of at most {} moves over {} registers, {} spill slots and {} fixed stack locations; 0, 1 or 2 free registers \
         (or one dedicated scratch); every register borrowed",
        max_moves, c.regs, c.slots, c.fixed
    );
    space(name, bounds, move |t, ch| {
        let mut locs: Vec<Allocation> = vec![];
        locs.extend((0..c.regs).map(reg));
        locs.extend((0..c.slots).map(slot));
        locs.extend((0..c.fixed).map(|i| reg(30 + i)));
        let ms = draw_moves(ch, &locs);
        if ms.len() > max_moves {
            return Leaf::Pruned;
        }
        judge14(t, ch, ms, locs, c.regs)
    })
}

fn judge14(
    t: &mut Tally,
    ch: &mut Chooser,
    ms: Vec<Mv>,
    locs: Vec<Allocation>,
    nregs: usize,
) -> Leaf {
    let free = ch.choose(3);
    let victim = ch.choose(nregs + 1); // the last one takes part in no move
    if free > 0 && victim != 0 {
        return Leaf::Pruned;
    }
    let stacky = |a: Allocation| {
        a.is_stack()
            || a.as_reg()
                .map_or(false, |p| p.hw_enc() >= 30 && p.hw_enc() < 40)
    };
    let victim = if victim == nregs {
        PReg::new(20, RegClass::Int)
    } else {
        PReg::new(victim, RegClass::Int)
    };
    let frees: Vec<Allocation> = (0..free).map(|i| reg(40 + i)).collect();
    let dump = |seq: &[Mv]| {
        format!(
            "moves in parallel:\n{}\nfree {:?} borrowed {}\nsequence:\n{}",
            show(&ms),
            frees,
            victim,
            show(seq)
        )
    };
    let r = run::guard(|| {
        let mut p = ParallelMoves::new();
        for &(s, d, g) in &ms {
            p.add(s, d, g);
        }
        let res = p.resolve();
        let mut it = frees.clone().into_iter();
        let mut nslot = 0;
        let v = MoveAndScratchResolver {
            find_free_reg: || it.next(),
            get_stackslot: || {
                nslot += 1;
                slot(1000 + nslot)
            },
            is_stack_alloc: stacky,
            borrowed_scratch_reg: victim,
        }
        .compute(res);
        (v, nslot)
    });
    let (seq, nslot) = match r {
        Ok(x) => x,
        Err(p) => return bad("Panic", p, dump(&[])),
    };
    let mut mem = Mem::default();
    for f in &frees {
        mem.set(*f, None);
    }
    for i in 0..nslot {
        mem.set(slot(1001 + i), None);
    }
    for m in &seq {
        if m.0.is_none() || m.1.is_none() {
            return bad(
                "Scratch",
                "abstract scratch left in the sequence",
                dump(&seq),
            );
        }
        if stacky(m.0) && stacky(m.1) {
            return bad(
                "StackToStack",
                format!("stack-to-stack move {} <- {}", m.1, m.0),
                dump(&seq),
            );
        }
    }
    mem.run(&seq);
    t.transitions += seq.len() as u64;
    t.states += 1;
    let src: HashMap<Allocation, Allocation> = ms.iter().map(|&(s, d, _)| (d, s)).collect();
    let mut all = locs.clone();
    all.push(Allocation::reg(victim));
    // A register nobody mentioned must be left alone too.
    all.extend([reg(21), slot(500), reg(45)]);
    for l in all {
        let want = src.get(&l).copied().unwrap_or(l);
        if mem.get(l) != Some(want) {
            return bad(
                "Lost",
                format!(
                    "{} should hold the value of {}, holds {:?}",
                    l,
                    want,
                    mem.get(l)
                ),
                dump(&seq),
            );
        }
    }
    for m in &seq {
        for a in [m.0, m.1] {
            let known = locs.contains(&a)
                || frees.contains(&a)
                || a == Allocation::reg(victim)
                || a.as_stack().map_or(false, |s| s.index() > 1000);
            if !known {
                return bad(
                    "Lost",
                    format!("{} is used without having been offered", a),
                    dump(&seq),
                );
            }
        }
    }
    if seq.len() > ms.len() {
        t.nontrivial += 1;
        t.sample(|| dump(&seq));
    }
    Leaf::Ok
}

pub fn p14(tier: Tier) -> Prop {
    let mut spaces = vec![
        space14(
            "2r3s",
            Cfg14 {
                regs: 2,
                slots: 3,
                fixed: 0,
            },
            9,
        ),
        space14(
            "2r2s1f",
            Cfg14 {
                regs: 2,
                slots: 2,
                fixed: 1,
            },
            9,
        ),
        space14(
            "1r4s",
            Cfg14 {
                regs: 1,
                slots: 4,
                fixed: 0,
            },
            9,
        ),
        space14(
            "3r3s",
            Cfg14 {
                regs: 3,
                slots: 3,
                fixed: 0,
            },
            9,
        ),
        space14(
            "2r2s2f",
            Cfg14 {
                regs: 2,
                slots: 2,
                fixed: 2,
            },
            9,
        ),
    ];
    spaces.push(space14(
        "2r5s",
        Cfg14 {
            regs: 2,
            slots: 5,
            fixed: 0,
        },
        tier.pick(4, 9),
    ));
    spaces.push(space14(
        "3r3s1f",
        Cfg14 {
            regs: 3,
            slots: 3,
            fixed: 1,
        },
        tier.pick(4, 9),
    ));
    if tier.thorough() {
        spaces.push(space14(
            "3r5s",
            Cfg14 {
                regs: 3,
                slots: 5,
                fixed: 0,
            },
            6,
        ));
    }
    let top = tier.pick(24, 60);
    spaces.push(space(
        "large-structured",
        format!(
            "two components (cycle, chain, fan, cycle with tail) with up to {} moves over spill slots and registers",
            top
        ),
        move |t, ch| {
            let (ms, locs) = draw_large(ch, top);
            judge14(t, ch, ms, locs, 2)
        },
    ));
    spaces.extend(alloc::e2e("P14"));
    Prop {
        note: "the real parallel-move and scratch resolvers are composed and run on every move set with every supply of free \
               registers and every borrowed register; the sequence is executed on a symbolic memory in which free registers and \
               new slots start as garbage; nontrivial = sequences longer than the move set",
        assumptions: &["free registers hold nothing and take part in no move (contract of find_free_reg)"],
        spaces,
    }
}

// ---- P15

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op15 {
    Move(usize, usize, Option<usize>),
    Clear(usize),
    Reset,
}

fn apply15(
    e: &mut RedundantMoveEliminator,
    locs: &[Allocation],
    mem: &mut Vec<u8>,
    op: Op15,
) -> Result<bool, String> {
    let fresh = |mem: &Vec<u8>| (0u8..).find(|x| !mem.contains(x)).unwrap();
    match op {
        Op15::Move(f, t, v) => {
            let a = run::guard(|| {
                e.process_move(locs[f], locs[t], v.map(|n| VReg::new(n, RegClass::Int)))
            })?;
            if a.elide {
                if mem[f] != mem[t] {
                    return Err("elided".into());
                }
                return Ok(f != t);
            }
            mem[t] = mem[f];
        }
        Op15::Clear(l) => {
            run::guard(|| e.clear_alloc(locs[l]))?;
            mem[l] = fresh(mem);
        }
        // A block boundary: everything may be different.
        Op15::Reset => {
            run::guard(|| e.clear())?;
            *mem = (0..locs.len() as u8).collect();
        }
    }
    Ok(false)
}

fn key15(e: &RedundantMoveEliminator, mem: &[u8]) -> u128 {
    let s = format!("{:?}", e);
    let mut canon: Vec<u8> = vec![];
    let mut names: Vec<u8> = vec![];
    for &m in mem {
        let i = names.iter().position(|&x| x == m).unwrap_or_else(|| {
            names.push(m);
            names.len() - 1
        });
        canon.push(i as u8);
    }
    let h = |seed: u64| {
        let mut h = rustc_hash::FxHasher::default();
        seed.hash(&mut h);
        s.hash(&mut h);
        canon.hash(&mut h);
        h.finish()
    };
    let mut d = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut d);
    canon.hash(&mut d);
    (h(1) as u128) << 64 | d.finish() as u128
}

fn space15(name: &str, locs: Vec<Allocation>, vregs: usize, depth: usize) -> Space {
    let mut ops = vec![];
    for f in 0..locs.len() {
        for t in 0..locs.len() {
            for v in 0..=vregs {
                ops.push(Op15::Move(f, t, v.checked_sub(1)));
            }
        }
    }
    ops.extend((0..locs.len()).map(Op15::Clear));
    ops.push(Op15::Reset);
    let bounds = format!(
        "all sequences of up to {} operations out of {} (moves over {} locations with {} value names or none, redefinition of a location, \
         block boundary), merging equal (eliminator, contents) states",
        depth,
        ops.len(),
        locs.len(),
        vregs
    );
    space(name, bounds, move |t, ch| {
        // The first two operations are choices (parallelism); the rest is a breadth-first search.
        let start = [*ch.pick(&ops), *ch.pick(&ops)];
        let mut e = RedundantMoveEliminator::default();
        let mut mem: Vec<u8> = (0..locs.len() as u8).collect();
        let dump = |tr: &[Op15], last: Op15| {
            let mut s = format!("locations {:?}\n", locs);
            for o in tr.iter().chain([&last]) {
                s += &format!("{:?}\n", o);
            }
            s
        };
        for (i, &o) in start.iter().enumerate() {
            match apply15(&mut e, &locs, &mut mem, o) {
                Err(m) if m == "elided" => {
                    return bad(
                        "Elided",
                        "a move between locations with different contents was elided",
                        dump(&start[..i], o),
                    )
                }
                Err(m) => return bad("Panic", m, dump(&start[..i], o)),
                Ok(el) => t.nontrivial += el as u64,
            }
        }
        let mut seen: rustc_hash::FxHashSet<u128> = Default::default();
        let mut level: Vec<(RedundantMoveEliminator, Vec<u8>, Vec<Op15>)> =
            vec![(e, mem, start.to_vec())];
        for _ in 2..depth {
            let mut next = vec![];
            for (e, mem, tr) in &level {
                for &o in &ops {
                    let (mut e2, mut m2) = (e.clone(), mem.clone());
                    t.transitions += 1;
                    match apply15(&mut e2, &locs, &mut m2, o) {
                        Err(m) if m == "elided" => {
                            return bad(
                                "Elided",
                                "a move between locations with different contents was elided",
                                dump(tr, o),
                            )
                        }
                        Err(m) => return bad("Panic", m, dump(tr, o)),
                        Ok(el) => t.nontrivial += el as u64,
                    }
                    if seen.insert(key15(&e2, &m2)) {
                        t.states += 1;
                        let mut tr = tr.clone();
                        tr.push(o);
                        next.push((e2, m2, tr));
                    }
                }
            }
            level = next;
        }
        t.sample(|| dump(&level.last().map_or(vec![], |l| l.2.clone()), Op15::Reset));
        Leaf::Ok
    })
}

pub fn p15(tier: Tier) -> Prop {
    let d = tier.pick(0, 1);
    let mut spaces = vec![
        space15("2r1s", vec![reg(0), reg(1), slot(0)], 1, 6 + d),
        space15("2r1s-two-values", vec![reg(0), reg(1), slot(0)], 2, 5),
        space15("2r2s", vec![reg(0), reg(1), slot(0), slot(1)], 1, 5 + d),
        space15("3r1s", vec![reg(0), reg(1), reg(2), slot(0)], 0, 5 + d),
        space15("1r2s", vec![reg(0), slot(0), slot(1)], 0, 8 + d),
    ];
    spaces.extend(alloc::e2e("P15"));
    Prop {
        note: "the real eliminator is driven through every operation sequence of each space next to a memory model; a move it elides \
               must copy a value its destination already holds; nontrivial = elided moves",
        assumptions: &["definitions, clobbers and scratch uses are announced with clear_alloc and block boundaries with clear, as the backtracking allocator does"],
        spaces,
    }
}
