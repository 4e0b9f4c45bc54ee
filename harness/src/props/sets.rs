//! P17: IndexSet. P18: PRegSet. P27: recency list, live-value set, range keys.

use super::Prop;
use crate::ctx::*;
use crate::explore::*;
use crate::ir::*;
use crate::run;
use regalloc2::indexset::IndexSet;
use regalloc2::*;
use std::collections::BTreeSet;

// ---- P17

fn same17(a: &IndexSet, m: &BTreeSet<usize>, probes: &[usize]) -> Result<(), String> {
    let mut it: Vec<usize> = a.iter().collect();
    it.sort();
    let want: Vec<usize> = m.iter().copied().collect();
    if it != want {
        return Err(format!("iterates {:?}, should be {:?}", it, want));
    }
    for &p in probes {
        if a.get(p) != m.contains(&p) {
            return Err(format!("get({}) is {}", p, a.get(p)));
        }
    }
    Ok(())
}

/// A prepared set: `words` words with one or two bits each, some of them emptied again.
fn prepared(words: usize, emptied: &[usize], base: usize) -> (IndexSet, BTreeSet<usize>) {
    let (mut a, mut m) = (IndexSet::new(), BTreeSet::new());
    for w in 0..words {
        for b in [w % 64, 63 - w % 7] {
            a.set((base + w) * 64 + b, true);
            m.insert((base + w) * 64 + b);
        }
    }
    for &w in emptied {
        for b in [w % 64, 63 - w % 7] {
            a.set((base + w) * 64 + b, false);
            m.remove(&((base + w) * 64 + b));
        }
    }
    (a, m)
}

#[derive(Clone, Copy, Debug)]
enum Op17 {
    Set(usize, bool),
    Union(usize),
    UnionOf(usize),
    Assign(usize),
    Clone,
}

pub fn p17(tier: Tier) -> Prop {
    let mut spaces = vec![];
    let mk = |name: &'static str,
              words: Vec<usize>,
              depth: usize,
              alpha: Vec<usize>,
              others: Vec<(usize, Vec<usize>, usize)>| {
        let mut ops = vec![];
        for &i in &alpha {
            ops.push(Op17::Set(i, true));
            ops.push(Op17::Set(i, false));
        }
        for o in 0..others.len() {
            ops.push(Op17::Union(o));
            ops.push(Op17::UnionOf(o));
        }
        ops.push(Op17::Assign(0));
        ops.push(Op17::Clone);
        let bounds = format!(
            "sets starting with {:?} words (none, the first, the last or all but one emptied), every sequence of {} operations out of {}: \
             set or clear {:?}, union with and into {} prepared sets, assign, clone",
            words,
            depth,
            ops.len(),
            alpha,
            others.len()
        );
        space(name, bounds, move |t, ch| {
            let w = *ch.pick(&words);
            let emptied: Vec<usize> = match if w == 0 { 0 } else { ch.choose(4) } {
                0 => vec![],
                1 => vec![0],
                2 => vec![w - 1],
                _ => (0..w - 1).collect(),
            };
            let mut log = vec![format!("{} words, emptied {:?}", w, emptied)];
            let seq: Vec<Op17> = (0..depth).map(|_| *ch.pick(&ops)).collect();
            let r = run::guard(|| -> Result<usize, (String, usize)> {
                let (mut a, mut m) = prepared(w, &emptied, 0);
                let mut oth: Vec<_> = others.iter().map(|(n, e, b)| prepared(*n, e, *b)).collect();
                let mut probes = alpha.clone();
                probes.extend([
                    0,
                    1,
                    63,
                    64,
                    65,
                    127,
                    11 * 64,
                    12 * 64,
                    13 * 64 + 5,
                    100 * 64,
                ]);
                same17(&a, &m, &probes).map_err(|e| (e, 0))?;
                for (k, op) in seq.iter().enumerate() {
                    match *op {
                        Op17::Set(i, v) => {
                            a.set(i, v);
                            if v {
                                m.insert(i);
                            } else {
                                m.remove(&i);
                            }
                        }
                        Op17::Union(o) => {
                            let before = m.len();
                            m.extend(&oth[o].1);
                            let ch = a.union_with(&oth[o].0);
                            if ch != (m.len() != before) {
                                return Err((format!("union reported changed = {}", ch), k));
                            }
                        }
                        Op17::UnionOf(o) => {
                            let before = oth[o].1.len();
                            oth[o].1.extend(&m);
                            let ch = oth[o].0.union_with(&a);
                            if ch != (oth[o].1.len() != before) {
                                return Err((
                                    format!("union into other reported changed = {}", ch),
                                    k,
                                ));
                            }
                        }
                        Op17::Assign(o) => {
                            a.assign(&oth[o].0);
                            m = oth[o].1.clone();
                        }
                        Op17::Clone => {
                            let b = a.clone();
                            a.set(5, true);
                            same17(&b, &m, &probes).map_err(|e| (format!("clone: {}", e), k))?;
                            a = b;
                        }
                    }
                    same17(&a, &m, &probes).map_err(|e| (e, k))?;
                    for o in &oth {
                        same17(&o.0, &o.1, &probes)
                            .map_err(|e| (format!("other set: {}", e), k))?;
                    }
                }
                Ok(m.len())
            });
            t.states += seq.len() as u64 + 1;
            t.transitions += seq.len() as u64;
            log.extend(seq.iter().map(|o| format!("{:?}", o)));
            match r {
                Ok(Ok(n)) => {
                    t.nontrivial += (n > 12) as u64;
                    t.sample(|| log.join("\n"));
                    Leaf::Ok
                }
                Ok(Err((e, k))) => bad(
                    "Set",
                    format!("after operation {}: {}", k, e),
                    log.join("\n"),
                ),
                Err(p) => bad("Panic", p, log.join("\n")),
            }
        })
    };
    let d = tier.pick(4, 5);
    spaces.push(mk(
        "around-the-switch",
        vec![10, 11, 12, 13],
        d,
        vec![0, 63, 20 * 64 + 3, 21 * 64, 12 * 64],
        vec![(1, vec![], 20), (3, vec![1], 10), (13, vec![], 5)],
    ));
    spaces.push(mk(
        "small",
        vec![0, 1, 2],
        d,
        vec![0, 1, 63, 64, 127, 1 << 28],
        vec![(0, vec![], 0), (2, vec![], 0), (12, vec![3], 0)],
    ));
    spaces.push(mk(
        "many-words",
        vec![0, 12],
        tier.pick(3, 4),
        vec![64 * 1000, 64 * 1000 + 1, 64 * 40, 64 * 39 + 63],
        vec![(12, vec![], 30), (12, vec![], 100), (40, vec![7, 8], 0)],
    ));
    // Filling up word by word, with removals in between: every pattern of set / clear / new word.
    let n = tier.pick(16, 20);
    spaces.push(space(
        "filling",
        format!(
            "every pattern of keep / clear over {} words inserted in turn",
            n
        ),
        move |t, ch| {
            let (mut a, mut m) = (IndexSet::new(), BTreeSet::new());
            let mut log = String::new();
            for w in 0..n {
                let i = w * 64 + w;
                a.set(i, true);
                m.insert(i);
                let clear = ch.flag();
                if clear {
                    a.set(i, false);
                    m.remove(&i);
                }
                log += &format!("set {}{}\n", i, if clear { " and clear it" } else { "" });
                t.transitions += 1;
                let probe: Vec<usize> = (0..=w).map(|x| x * 64 + x).collect();
                if let Err(e) = same17(&a, &m, &probe) {
                    return bad("Set", e, log);
                }
            }
            t.states += 1;
            t.nontrivial += (m.len() > 12) as u64;
            t.sample(|| log.clone());
            Leaf::Ok
        },
    ));
    Prop {
        note: "the real IndexSet is driven through every operation sequence of each space next to a reference set; membership, \
               iteration and change flags are compared after every operation; nontrivial = sets beyond the small representation",
        assumptions: &["indices below 2^29"],
        spaces,
    }
}

// ---- P18

fn all_pregs() -> Vec<PReg> {
    let mut v = vec![];
    for c in CLASSES {
        for h in 0..64 {
            v.push(PReg::new(h, c));
        }
    }
    v
}
type Ref18 = BTreeSet<(usize, usize)>;
fn key(p: PReg) -> (usize, usize) {
    (p.class() as usize, p.hw_enc())
}

fn same18(s: &PRegSet, m: &Ref18) -> Result<(), String> {
    let it: Vec<(usize, usize)> = s.into_iter().map(key).collect();
    let want: Vec<(usize, usize)> = m.iter().copied().collect();
    let mut sorted = it.clone();
    sorted.sort();
    if sorted != want {
        return Err(format!("iterates {:?}, should be {:?}", it, want));
    }
    if s.len() as usize != m.len() {
        return Err(format!("len() is {}, should be {}", s.len(), m.len()));
    }
    for p in all_pregs() {
        if s.contains(p) != m.contains(&key(p)) {
            return Err(format!("contains({}) is {}", p, s.contains(p)));
        }
    }
    for c in CLASSES {
        if s.is_empty(c) != !m.iter().any(|x| x.0 == c as usize) {
            return Err(format!("is_empty({:?}) is {}", c, s.is_empty(c)));
        }
    }
    // The maximum: highest encoding (of the highest class when several classes are present).
    if s.max_preg().map(key) != m.iter().next_back().copied() {
        return Err(format!("max_preg() is {:?}", s.max_preg().map(key)));
    }
    let copy: PRegSet = s.into_iter().collect();
    if copy != *s {
        return Err("collecting its members gives a different set".into());
    }
    Ok(())
}

fn bases18() -> Vec<(PRegSet, Ref18)> {
    let lists: Vec<Vec<(usize, usize)>> = vec![
        vec![],
        vec![(0, 0)],
        vec![(0, 63)],
        vec![(1, 0), (1, 63)],
        vec![(2, 31), (2, 32)],
        vec![(0, 5), (1, 5), (2, 5)],
        (0..64).map(|h| (0, h)).collect(),
        (0..64).map(|h| (1, h)).collect(),
        (0..64).map(|h| (2, h)).collect(),
        (0..3)
            .flat_map(|c| (0..64).filter(move |h| h % 3 == c).map(move |h| (c, h)))
            .collect(),
        (0..3).flat_map(|c| (0..64).map(move |h| (c, h))).collect(),
        vec![(0, 63), (1, 0), (1, 63), (2, 0), (2, 63)],
    ];
    lists
        .into_iter()
        .map(|l| {
            let mut s = PRegSet::empty();
            for &(c, h) in &l {
                s.add(PReg::new(h, CLASSES[c]));
            }
            (s, l.into_iter().collect())
        })
        .collect()
}

pub fn p18(tier: Tier) -> Prop {
    let all = |t: &mut Tally, what: String, r: Result<Result<(), String>, String>| {
        t.states += 1;
        t.transitions += 1;
        t.nontrivial += 1;
        t.sample(|| what.clone());
        match r {
            Ok(Ok(())) => Leaf::Ok,
            Ok(Err(e)) => bad("Set", e, what),
            Err(p) => bad("Panic", p, what),
        }
    };
    let mut spaces = vec![];
    spaces.push(space(
        "one-register",
        "every register of every class on 12 base sets: add, with, remove, add_up_to",
        move |t, ch| {
            let (s, m) = bases18().swap_remove(ch.choose(12));
            let p = *ch.pick(&all_pregs());
            let op = ch.choose(4);
            let what = format!(
                "{} on {} with {}",
                ["add", "with", "remove", "add_up_to"][op],
                s,
                p
            );
            let r = run::guard(|| {
                let (mut s, mut m) = (s, m);
                match op {
                    0 => {
                        s.add(p);
                        m.insert(key(p));
                    }
                    1 => {
                        s = s.with(p);
                        m.insert(key(p));
                    }
                    2 => {
                        s.remove(p);
                        m.remove(&key(p));
                    }
                    _ => {
                        s.add_up_to(p);
                        // every register before p in the order class, then encoding
                        for q in all_pregs() {
                            if key(q) < key(p) {
                                m.insert(key(q));
                            }
                        }
                    }
                }
                same18(&s, &m)
            });
            all(t, what, r)
        },
    ));
    spaces.push(space(
        "two-sets",
        "every pair of 12 base sets: union, intersection (both forms), comparison; inversion",
        move |t, ch| {
            let b = bases18();
            let (x, mx) = b[ch.choose(12)].clone();
            let (y, my) = b[ch.choose(12)].clone();
            let op = ch.choose(7);
            let what = format!(
                "{} of {} and {}",
                [
                    "|",
                    "&",
                    "union_from",
                    "intersect_from",
                    "invert",
                    "compare",
                    "difference"
                ][op],
                x,
                y
            );
            let r = run::guard(|| {
                let (mut s, mut m) = (x, mx.clone());
                match op {
                    0 => {
                        s = x | y;
                        m.extend(&my);
                    }
                    1 => {
                        s = x & y;
                        m = m.intersection(&my).copied().collect();
                    }
                    2 => {
                        s.union_from(y);
                        m.extend(&my);
                    }
                    3 => {
                        s.intersect_from(y);
                        m = m.intersection(&my).copied().collect();
                    }
                    4 => {
                        s = x.invert();
                        m = all_pregs()
                            .into_iter()
                            .map(key)
                            .filter(|k| !mx.contains(k))
                            .collect();
                    }
                    5 => {
                        if (x == y) != (mx == my) {
                            return Err(format!("x == y is {}", x == y));
                        }
                    }
                    _ => {
                        s = x & y.invert();
                        m = m.difference(&my).copied().collect();
                    }
                }
                same18(&s, &m)
            });
            all(t, what, r)
        },
    ));
    let d = tier.pick(4, 5);
    spaces.push(space(
        "sequences",
        format!(
            "every sequence of {} operations over registers at the word boundaries",
            d
        ),
        move |t, ch| {
            let regs: Vec<PReg> = [(0, 0), (0, 63), (1, 0), (2, 63)]
                .map(|(c, h)| PReg::new(h, CLASSES[c]))
                .to_vec();
            let (mut s, mut m) = (PRegSet::empty(), Ref18::new());
            let mut log = String::new();
            for _ in 0..d {
                let op = ch.choose(regs.len() * 3 + 1);
                let p = regs[op % regs.len()];
                match op / regs.len() {
                    0 => {
                        s.add(p);
                        m.insert(key(p));
                        log += &format!("add {}\n", p);
                    }
                    1 => {
                        s.remove(p);
                        m.remove(&key(p));
                        log += &format!("remove {}\n", p);
                    }
                    2 => {
                        s = match run::guard(|| {
                            let mut s = s;
                            s.add_up_to(p);
                            s
                        }) {
                            Ok(s) => s,
                            Err(e) => return bad("Panic", e, log),
                        };
                        m.extend(all_pregs().into_iter().map(key).filter(|k| *k < key(p)));
                        log += &format!("add_up_to {}\n", p);
                    }
                    _ => {
                        s = s.invert();
                        m = all_pregs()
                            .into_iter()
                            .map(key)
                            .filter(|k| !m.contains(k))
                            .collect();
                        log += "invert\n";
                    }
                }
                t.transitions += 1;
                match run::guard(|| same18(&s, &m)) {
                    Ok(Ok(())) => {}
                    Ok(Err(e)) => return bad("Set", e, log),
                    Err(e) => return bad("Panic", e, log),
                }
            }
            t.states += 1;
            t.nontrivial += 1;
            t.sample(|| log.clone());
            Leaf::Ok
        },
    ));
    spaces.push(space(
        "environment",
        "every placement of four registers per class in the preferred, non-preferred or no list",
        move |t, ch| {
            let mut e = EnvSpec::default();
            let mut m = Ref18::new();
            for (c, h) in [(0, 0), (0, 63), (1, 0), (1, 31), (2, 32), (2, 63)] {
                match ch.choose(3) {
                    0 => {}
                    1 => {
                        e.pref[c].push(h);
                        m.insert((c, h));
                    }
                    _ => {
                        e.nonpref[c].push(h);
                        m.insert((c, h));
                    }
                }
            }
            e.fixed_stack = vec![(17, 0)];
            e.scratch[1] = Some(13);
            let env = e.build();
            let r = run::guard(|| same18(&PRegSet::from(&env), &m));
            all(t, env_dump(&env), r)
        },
    ));
    Prop {
        note: "every operation on every register and every pair of base sets (empty, full, word boundaries, mixtures), and every short \
               operation sequence, against a reference set of (class, encoding) pairs",
        assumptions: &["registers are built by PReg::new (three classes)"],
        spaces,
    }
}

// ---- P27

#[cfg(regalloc2_verif)]
pub fn p27(tier: Tier) -> Prop {
    use regalloc2::verif::*;
    let mut spaces = vec![];
    let d = tier.pick(7, 9);
    spaces.push(space(
        "recency-list",
        format!("register sets of size 0 to 4 in every class, every sequence of up to {} touches; all queries after each", d),
        move |t, ch| {
            let class = *ch.pick(&CLASSES);
            let encs: Vec<usize> = vec![vec![], vec![5], vec![0, 63], vec![3, 10, 11], vec![0, 1, 62, 63]].swap_remove(ch.choose(5));
            let regs: Vec<PReg> = encs.iter().map(|&h| PReg::new(h, class)).collect();
            let set: PRegSet = regs.iter().copied().collect();
            let mut log = format!("registers {}\n", set);
            let mut lru = match run::guard(|| Lru::new(class, &set)) {
                Ok(l) => l,
                Err(e) => return bad("Panic", e, log),
            };
            if lru.is_empty() != regs.is_empty() {
                return bad("Lru", "is_empty is wrong", log);
            }
            if regs.is_empty() {
                return Leaf::Ok;
            }
            // touched registers, least recent first
            let mut touched: Vec<PReg> = vec![];
            let check = |lru: &mut Lru, touched: &Vec<PReg>| -> Result<(), String> {
                for mask in 0..1usize << regs.len() {
                    let from: PRegSet = regs.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|x| *x.1).collect();
                    let got = lru.last(from);
                    let sat = lru.last_satisfying(|p| from.contains(p));
                    let fresh: Vec<PReg> = from.into_iter().filter(|p| !touched.contains(p)).collect();
                    let ok = |g: Option<PReg>| {
                        if mask == 0 {
                            g.is_none()
                        } else if !fresh.is_empty() {
                            g.map_or(false, |p| fresh.contains(&p))
                        } else {
                            g == touched.iter().copied().find(|p| from.contains(*p))
                        }
                    };
                    if !ok(got) || !ok(sat) {
                        return Err(format!("least recent of {} is {:?} / {:?}", from, got, sat));
                    }
                    if mask + 1 == 1 << regs.len() {
                        let p = lru.pop();
                        if !ok(Some(p)) {
                            return Err(format!("pop gives {}", p));
                        }
                    }
                }
                // a set with foreign registers too
                let mut wide = PRegSet::empty().with(PReg::new(40, class));
                if lru.last(wide).is_some() {
                    return Err("a register that is not in the list was returned".into());
                }
                wide.union_from(set);
                match lru.last(wide) {
                    Some(p) if set.contains(p) => Ok(()),
                    x => Err(format!("last gives {:?}", x)),
                }
            };
            let n = ch.choose(d + 1);
            for k in 0..=n {
                match run::guard(|| check(&mut lru, &touched)) {
                    Ok(Ok(())) => {}
                    Ok(Err(e)) => return bad("Lru", e, log),
                    Err(e) => return bad("Panic", e, log),
                }
                if k == n {
                    break;
                }
                let p = *ch.pick(&regs);
                log += &format!("poke {}\n", p);
                if let Err(e) = run::guard(|| lru.poke(p)) {
                    return bad("Panic", e, log);
                }
                touched.retain(|q| *q != p);
                touched.push(p);
                t.transitions += 1;
            }
            t.states += 1;
            t.nontrivial += (touched.len() > 1) as u64;
            t.sample(|| log.clone());
            Leaf::Ok
        },
    ));
    let d = tier.pick(8, 10);
    spaces.push(space(
        "live-value-set",
        format!(
            "every sequence of {} insertions and removals over 5 values",
            d
        ),
        move |t, ch| {
            let vs: Vec<VReg> = (0..5).map(|i| VReg::new(i, CLASSES[i % 3])).collect();
            let mut s = VRegSet::with_capacity(5);
            let mut m: BTreeSet<usize> = BTreeSet::new();
            let mut log = String::new();
            for _ in 0..d {
                let i = ch.choose(5);
                let r = if m.contains(&i) {
                    m.remove(&i);
                    log += &format!("remove v{}\n", i);
                    run::guard(|| s.remove(i))
                } else {
                    m.insert(i);
                    log += &format!("insert v{}\n", i);
                    run::guard(|| s.insert(vs[i]))
                };
                if let Err(e) = r {
                    return bad("Panic", e, log);
                }
                t.transitions += 1;
                let mut got: Vec<VReg> = match run::guard(|| s.iter().take(20).collect()) {
                    Ok(v) => v,
                    Err(e) => return bad("Panic", e, log),
                };
                got.sort_by_key(|v| v.vreg());
                let want: Vec<VReg> = m.iter().map(|&i| vs[i]).collect();
                if got != want || s.is_empty() != m.is_empty() {
                    return bad(
                        "VRegSet",
                        format!("holds {:?}, should hold {:?}", got, want),
                        log,
                    );
                }
            }
            t.states += 1;
            t.nontrivial += 1;
            t.sample(|| log.clone());
            Leaf::Ok
        },
    ));
    let n = tier.pick(7u32, 9);
    spaces.push(space(
        "ranges",
        format!("every pair of ranges with bounds below {}", n),
        move |t, ch| {
            let mut draw = || {
                let a = ch.choose(n as usize) as u32;
                let b = a + 1 + ch.choose((n - a) as usize) as u32;
                (a, b)
            };
            let (a, b) = draw();
            let (c, d) = draw();
            let mk = |a, b| CodeRange {
                from: ProgPoint::from_index(a),
                to: ProgPoint::from_index(b),
            };
            let (x, y) = (mk(a, b), mk(c, d));
            let (kx, ky) = (LiveRangeKey::from_range(&x), LiveRangeKey::from_range(&y));
            let ov = a < d && c < b;
            let want = if ov {
                std::cmp::Ordering::Equal
            } else if b <= c {
                std::cmp::Ordering::Less
            } else {
                std::cmp::Ordering::Greater
            };
            let what = format!("{:?} and {:?}", x, y);
            t.states += 1;
            t.transitions += 1;
            t.nontrivial += ov as u64;
            t.sample(|| what.clone());
            if kx.cmp(&ky) != want || (kx == ky) != ov || kx.partial_cmp(&ky) != Some(want) {
                return bad(
                    "Range",
                    format!("keys compare as {:?}, should be {:?}", kx.cmp(&ky), want),
                    what,
                );
            }
            if x.cmp(&y) != want || x.partial_cmp(&y) != Some(want) {
                return bad(
                    "Range",
                    format!("ranges compare as {:?}, should be {:?}", x.cmp(&y), want),
                    what,
                );
            }
            if x.overlaps(&y) != ov
                || x.contains(&y) != (a <= c && d <= b)
                || (0..n + 2)
                    .any(|p| x.contains_point(ProgPoint::from_index(p)) != (a <= p && p < b))
            {
                return bad("Range", "overlap or containment is wrong", what);
            }
            let j = x.join(y);
            if j.from.to_index() != a.min(c)
                || j.to.to_index() != b.max(d)
                || kx.to_range() != x
                || x.is_empty()
            {
                return bad("Range", "join, conversion or emptiness is wrong", what);
            }
            let s = CodeRange::singleton(ProgPoint::from_index(a));
            if s.from.to_index() != a || s.to.to_index() != a + 1 {
                return bad("Range", "singleton is wrong", what);
            }
            Leaf::Ok
        },
    ));
    let (n, m) = (tier.pick(7u32, 8), 4);
    spaces.push(space(
        "range-map",
        format!(
            "every insertion order of up to {} disjoint ranges with bounds below {}; all queries",
            m, n
        ),
        move |t, ch| {
            let mut set = LiveRangeSet {
                btree: Default::default(),
            };
            let mut have: Vec<(u32, u32)> = vec![];
            let mk = |a, b| LiveRangeKey { from: a, to: b };
            for i in 0..m {
                let a = ch.choose(n as usize + 1) as u32;
                if a == n {
                    break;
                }
                let b = a + 1 + ch.choose((n - a) as usize) as u32;
                if have.iter().any(|&(c, d)| a < d && c < b) {
                    return Leaf::Pruned;
                }
                set.btree.insert(mk(a, b), LiveRangeIndex::new(i));
                have.push((a, b));
                t.transitions += 1;
            }
            let what = format!("{:?}", have);
            for a in 0..n {
                for b in a + 1..=n {
                    let want: Vec<usize> = (0..have.len())
                        .filter(|&i| a < have[i].1 && have[i].0 < b)
                        .collect();
                    if set.btree.contains_key(&mk(a, b)) != !want.is_empty() {
                        return bad("Range", format!("query {}..{} is wrong", a, b), what);
                    }
                }
            }
            t.states += 1;
            t.nontrivial += (have.len() > 1) as u64;
            t.sample(|| what.clone());
            Leaf::Ok
        },
    ));
    let d = tier.pick(6, 7);
    spaces.push(space(
        "allocation-queue",
        format!(
            "every sequence of {} insertions (3 priorities) and removals",
            d
        ),
        move |t, ch| {
            let mut q = PrioQueue {
                heap: Default::default(),
            };
            let mut m: Vec<(usize, usize)> = vec![];
            let mut log = String::new();
            for i in 0..d {
                let c = ch.choose(4);
                if c < 3 {
                    let prio = [0, 7, 100_000][c];
                    q.insert(LiveBundleIndex::new(i), prio, PReg::new(i, RegClass::Int));
                    m.push((prio, i));
                    log += &format!("insert b{} prio {}\n", i, prio);
                } else {
                    let got = q.pop();
                    log += &format!("pop {:?}\n", got);
                    let best = m.iter().map(|x| x.0).max();
                    match (got, best) {
                        (None, None) => {}
                        (Some((b, h)), Some(best)) => {
                            let Some(k) = m.iter().position(|x| x.1 == b.index()) else {
                                return bad("Queue", "popped a bundle that is not queued", log);
                            };
                            if m[k].0 != best || h != PReg::new(b.index(), RegClass::Int) {
                                return bad(
                                    "Queue",
                                    "did not pop the most important bundle with its hint",
                                    log,
                                );
                            }
                            m.remove(k);
                        }
                        _ => return bad("Queue", "emptiness is wrong", log),
                    }
                }
                t.transitions += 1;
            }
            t.states += 1;
            t.nontrivial += 1;
            t.sample(|| log.clone());
            Leaf::Ok
        },
    ));
    spaces.extend(super::alloc::e2e("P27"));
    Prop {
        note: "the real structures are driven through every operation sequence of each space next to reference models",
        assumptions: &["a value is inserted only when absent and removed only when present; only listed registers are touched (internal preconditions)"],
        spaces,
    }
}
