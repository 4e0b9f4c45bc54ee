//! P19: the packed encodings.

use super::Prop;
use crate::ctx::*;
use crate::explore::*;
use crate::ir::CLASSES;
use crate::run;
use regalloc2::*;

/// 0, 1, ... 16, every power of two up to `max` with its neighbours, and `max` with its neighbours.
pub fn edges(max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=16).collect();
    let mut p = 1usize;
    while p <= max {
        v.extend([p - 1, p, p + 1, p * 3 / 2]);
        p *= 2;
    }
    v.extend([max - 1, max, max / 3, max / 5]);
    v.retain(|x| *x <= max);
    v.sort();
    v.dedup();
    v
}

pub fn constraints(class: RegClass) -> Vec<OperandConstraint> {
    let mut v = vec![
        OperandConstraint::Any,
        OperandConstraint::Reg,
        OperandConstraint::Stack,
    ];
    v.extend((0..64).map(|h| OperandConstraint::FixedReg(PReg::new(h, class))));
    v.extend((0..32).map(OperandConstraint::Reuse));
    v.extend((0..7).map(|l| OperandConstraint::Limit(1 << l)));
    v
}

const KINDS: [OperandKind; 2] = [OperandKind::Def, OperandKind::Use];
const POS: [OperandPos; 2] = [OperandPos::Early, OperandPos::Late];

macro_rules! ensure {
    ($c:expr, $($f:tt)*) => { if !$c { return Err(format!($($f)*)); } };
}

fn vreg_ok(i: usize, c: RegClass) -> Result<(), String> {
    let v = VReg::new(i, c);
    ensure!(
        v.vreg() == i && v.class() == c,
        "VReg::new({}, {:?}) reads back {} {:?}",
        i,
        c,
        v.vreg(),
        v.class()
    );
    ensure!(
        VReg::from_bits(v.bits() as u32) == v,
        "{:?} does not survive its bits",
        v
    );
    ensure!(
        VReg::from(v.bits() as u32) == v,
        "{:?} does not survive u32",
        v
    );
    Ok(())
}

fn preg_ok(h: usize, c: RegClass) -> Result<(), String> {
    let p = PReg::new(h, c);
    ensure!(
        p.hw_enc() == h && p.class() == c,
        "PReg::new({}, {:?}) reads back {} {:?}",
        h,
        c,
        p.hw_enc(),
        p.class()
    );
    ensure!(
        p.index() == c as usize * 64 + h,
        "index of {} is {}",
        p,
        p.index()
    );
    ensure!(
        PReg::from_index(p.index()) == p,
        "{} does not survive its index",
        p
    );
    // The invalid register shares its encoding with p63i.
    let valid = p != PReg::invalid();
    ensure!(
        p.as_valid() == valid.then_some(p),
        "as_valid of {} is {:?}",
        p,
        p.as_valid()
    );
    let a = Allocation::reg(p);
    ensure!(
        a.is_reg() && !a.is_stack() && !a.is_none() && a.is_some(),
        "kind of {}",
        a
    );
    ensure!(
        a.as_reg() == Some(p) && a.as_stack().is_none() && a.kind() == AllocationKind::Reg,
        "{} reads back {:?}",
        p,
        a.as_reg()
    );
    ensure!(a.index() == p.index(), "index of {} is {}", a, a.index());
    ensure!(
        Allocation::from_bits(a.bits()) == a,
        "{} does not survive its bits",
        a
    );
    Ok(())
}

fn slot_ok(i: usize) -> Result<(), String> {
    let s = SpillSlot::new(i);
    ensure!(
        s.index() == i && s.is_valid() && !s.is_invalid(),
        "SpillSlot::new({}) reads back {}",
        i,
        s.index()
    );
    let a = Allocation::stack(s);
    ensure!(
        a.is_stack() && !a.is_reg() && !a.is_none() && a.is_some(),
        "kind of {}",
        a
    );
    ensure!(
        a.as_stack() == Some(s) && a.as_reg().is_none() && a.kind() == AllocationKind::Stack,
        "{} reads back {:?}",
        s,
        a.as_stack()
    );
    ensure!(
        a.index() == i && Allocation::from_bits(a.bits()) == a,
        "{} does not survive its bits",
        a
    );
    Ok(())
}

fn point_ok(i: usize) -> Result<(), String> {
    let n = Inst::new(i);
    let (b, a) = (ProgPoint::before(n), ProgPoint::after(n));
    ensure!(
        b.inst() == n && a.inst() == n,
        "inst of the points of {:?}: {:?} {:?}",
        n,
        b.inst(),
        a.inst()
    );
    ensure!(
        b.pos() == InstPosition::Before && a.pos() == InstPosition::After,
        "positions of the points of {:?}",
        n
    );
    ensure!(
        b < a && b != a && b.next() == a && a.prev() == b,
        "order of the points of {:?}",
        n
    );
    ensure!(
        ProgPoint::new(n, InstPosition::Before) == b && ProgPoint::new(n, InstPosition::After) == a,
        "new at {:?}",
        n
    );
    ensure!(
        ProgPoint::from_index(b.to_index()) == b && ProgPoint::from_index(a.to_index()) == a,
        "raw form at {:?}",
        n
    );
    if i < (1 << 30) - 1 {
        let c = ProgPoint::before(n.next());
        ensure!(
            a < c && a.next() == c && c.prev() == a && c.inst().prev() == n,
            "order after {:?}",
            n
        );
    }
    ensure!(
        n.index() == i && n.raw_u32() == i as u32 && n.is_valid() && !n.is_invalid(),
        "Inst::new({})",
        i
    );
    Ok(())
}

fn operand_ok(
    v: VReg,
    con: OperandConstraint,
    kind: OperandKind,
    pos: OperandPos,
) -> Result<(), String> {
    let o = Operand::new(v, con, kind, pos);
    let d = || format!("{:?} {:?} {:?} {:?}", v, con, kind, pos);
    ensure!(o.vreg() == v, "{} reads back value {:?}", d(), o.vreg());
    ensure!(
        o.class() == v.class(),
        "{} reads back class {:?}",
        d(),
        o.class()
    );
    ensure!(
        o.constraint() == con,
        "{} reads back constraint {:?}",
        d(),
        o.constraint()
    );
    ensure!(
        o.kind() == kind && o.pos() == pos,
        "{} reads back {:?} {:?}",
        d(),
        o.kind(),
        o.pos()
    );
    ensure!(
        Operand::from_bits(o.bits()) == o,
        "{} does not survive its bits",
        d()
    );
    let nonalloc = match con {
        OperandConstraint::FixedReg(p) if v.vreg() == VReg::MAX => Some(p),
        _ => None,
    };
    ensure!(
        o.as_fixed_nonallocatable() == nonalloc,
        "{} is reported as non-allocatable {:?}",
        d(),
        o.as_fixed_nonallocatable()
    );
    Ok(())
}

fn builders_ok(v: VReg, p: PReg, idx: usize) -> Result<(), String> {
    use OperandConstraint as C;
    use OperandKind::*;
    use OperandPos::*;
    let list: Vec<(&str, Operand, C, OperandKind, OperandPos)> = vec![
        ("reg_use", Operand::reg_use(v), C::Reg, Use, Early),
        (
            "reg_use_at_end",
            Operand::reg_use_at_end(v),
            C::Reg,
            Use,
            Late,
        ),
        ("reg_def", Operand::reg_def(v), C::Reg, Def, Late),
        (
            "reg_def_at_start",
            Operand::reg_def_at_start(v),
            C::Reg,
            Def,
            Early,
        ),
        ("reg_temp", Operand::reg_temp(v), C::Reg, Def, Early),
        (
            "reg_reuse_def",
            Operand::reg_reuse_def(v, idx),
            C::Reuse(idx),
            Def,
            Late,
        ),
        (
            "reg_fixed_use",
            Operand::reg_fixed_use(v, p),
            C::FixedReg(p),
            Use,
            Early,
        ),
        (
            "reg_fixed_def",
            Operand::reg_fixed_def(v, p),
            C::FixedReg(p),
            Def,
            Late,
        ),
        (
            "reg_fixed_use_at_end",
            Operand::reg_fixed_use_at_end(v, p),
            C::FixedReg(p),
            Use,
            Late,
        ),
        (
            "reg_fixed_def_at_start",
            Operand::reg_fixed_def_at_start(v, p),
            C::FixedReg(p),
            Def,
            Early,
        ),
        ("any_use", Operand::any_use(v), C::Any, Use, Early),
        ("any_def", Operand::any_def(v), C::Any, Def, Late),
    ];
    for (n, o, c, k, pos) in list {
        ensure!(
            o.vreg() == v
                && o.constraint() == c
                && o.kind() == k
                && o.pos() == pos
                && o == Operand::new(v, c, k, pos),
            "Operand::{} of {:?} {} {} gives {}",
            n,
            v,
            p,
            idx,
            o
        );
    }
    let f = Operand::fixed_nonallocatable(p);
    ensure!(
        f.as_fixed_nonallocatable() == Some(p)
            && f.kind() == Use
            && f.pos() == Early
            && f.class() == p.class()
            && f.constraint() == C::FixedReg(p),
        "Operand::fixed_nonallocatable({}) gives {}",
        p,
        f
    );
    Ok(())
}

fn one(t: &mut Tally, what: impl Fn() -> String, r: Result<Result<(), String>, String>) -> Leaf {
    t.states += 1;
    t.transitions += 1;
    t.nontrivial += 1;
    t.sample(&what);
    match r {
        Ok(Ok(())) => Leaf::Ok,
        Ok(Err(e)) => bad("Encoding", e, what()),
        Err(p) => bad("Panic", p, what()),
    }
}

/// `n` consecutive values starting at a multiple of `n`, one leaf per chunk.
fn chunks(
    name: &'static str,
    total: usize,
    chunk: usize,
    f: fn(usize) -> Result<(), String>,
) -> Space {
    space(name, format!("all {} values", total), move |t, ch| {
        // two draws, so that the tree splits evenly
        let n = total.div_ceil(chunk);
        let side = (n as f64).sqrt().ceil() as usize;
        let k = ch.choose(side) * side + ch.choose(side);
        if k >= n {
            return Leaf::Pruned;
        }
        let end = ((k + 1) * chunk).min(total);
        let r = run::guard(|| (k * chunk..end).try_for_each(f));
        t.states += (end - k * chunk) as u64 - 1;
        t.transitions += (end - k * chunk) as u64 - 1;
        t.nontrivial += (end - k * chunk) as u64 - 1;
        one(t, || format!("{}..{}", k * chunk, end), r)
    })
}

pub fn p19(tier: Tier) -> Prop {
    let mut spaces = vec![];
    spaces.push(space(
        "physical-registers",
        "all 192 registers, all pairs for equality and order",
        |t, ch| {
            let (c, h) = (*ch.pick(&CLASSES), ch.choose(64));
            let r = run::guard(|| {
                preg_ok(h, c)?;
                let p = PReg::new(h, c);
                for d in CLASSES {
                    for i in 0..64 {
                        let q = PReg::new(i, d);
                        ensure!((p == q) == (c == d && h == i), "{} == {}", p, q);
                        ensure!(
                            p.cmp(&q) == (c as usize, h).cmp(&(d as usize, i)),
                            "order of {} and {}",
                            p,
                            q
                        );
                        ensure!(
                            (Allocation::reg(p) == Allocation::reg(q)) == (p == q),
                            "allocations of {} and {}",
                            p,
                            q
                        );
                    }
                }
                Ok(())
            });
            one(t, || format!("{:?} {}", c, h), r)
        },
    ));
    spaces.push(space(
        "operands",
        "boundary values x class x every constraint x kind x position",
        |t, ch| {
            let i = *ch.pick(&edges(VReg::MAX));
            let c = *ch.pick(&CLASSES);
            let con = *ch.pick(&constraints(c));
            let (k, p) = (*ch.pick(&KINDS), *ch.pick(&POS));
            let r = run::guard(|| operand_ok(VReg::new(i, c), con, k, p));
            one(t, || format!("v{} {:?} {:?} {:?} {:?}", i, c, con, k, p), r)
        },
    ));
    spaces.push(space(
        "operand-builders",
        "every builder x class x every register x every reuse index x boundary values",
        |t, ch| {
            let c = *ch.pick(&CLASSES);
            let h = ch.choose(64);
            let idx = ch.choose(32);
            let r = run::guard(|| {
                edges(VReg::MAX)
                    .into_iter()
                    .try_for_each(|i| builders_ok(VReg::new(i, c), PReg::new(h, c), idx))
            });
            one(t, || format!("{:?} {} {}", c, h, idx), r)
        },
    ));
    spaces.push(space("pairs", "no two different values, slots, points, registers or operands share an encoding; order of points", |t, ch| {
        let e = edges(VReg::MAX);
        let (i, j) = (*ch.pick(&e), *ch.pick(&e));
        let r = run::guard(|| {
            for (ci, c) in CLASSES.into_iter().enumerate() {
                for (di, d) in CLASSES.into_iter().enumerate() {
                    let (v, w) = (VReg::new(i, c), VReg::new(j, d));
                    ensure!((v == w) == (i == j && ci == di), "{:?} == {:?}", v, w);
                    ensure!((v.bits() == w.bits()) == (v == w), "bits of {:?} and {:?}", v, w);
                    if c != d || i != j {
                        ensure!(Operand::reg_use(v) != Operand::reg_use(w), "operands of {:?} and {:?}", v, w);
                    }
                }
            }
            let (x, y) = (Inst::new(i), Inst::new(j));
            ensure!((x < y) == (i < j) && (x == y) == (i == j), "order of {:?} and {:?}", x, y);
            for p in [InstPosition::Before, InstPosition::After] {
                for q in [InstPosition::Before, InstPosition::After] {
                    let (a, b) = (ProgPoint::new(x, p), ProgPoint::new(y, q));
                    ensure!(a.cmp(&b) == (i, p as usize).cmp(&(j, q as usize)), "order of {:?} and {:?}", a, b);
                }
            }
            let (x, y) = (Block::new(i), Block::new(j));
            ensure!((x < y) == (i < j) && (x == y) == (i == j), "order of {:?} and {:?}", x, y);
            if i <= SpillSlot::MAX && j <= SpillSlot::MAX {
                let (x, y) = (SpillSlot::new(i), SpillSlot::new(j));
                ensure!((x == y) == (i == j) && (x < y) == (i < j), "{} and {}", x, y);
                ensure!((Allocation::stack(x) == Allocation::stack(y)) == (i == j), "allocations {} and {}", x, y);
                if i + j <= SpillSlot::MAX {
                    ensure!(x.plus(j).index() == i + j, "{} plus {}", x, j);
                }
                if j < 192 {
                    let p = Allocation::reg(PReg::from_index(j));
                    ensure!(p != Allocation::stack(x) && p.bits() != Allocation::stack(x).bits(), "{} and {}", p, x);
                    ensure!(p != Allocation::none() && Allocation::stack(x) != Allocation::none(), "none");
                }
            }
            Ok(())
        });
        one(t, || format!("{} {}", i, j), r)
    }));
    spaces.push(space(
        "invalid-values",
        "the reserved values of every index type",
        |t, ch| {
            let k = ch.choose(8);
            let r = run::guard(|| {
                match k {
                    0 => ensure!(
                        Inst::invalid().is_invalid() && !Inst::invalid().is_valid(),
                        "Inst"
                    ),
                    1 => ensure!(
                        Block::invalid().is_invalid() && !Block::invalid().is_valid(),
                        "Block"
                    ),
                    2 => ensure!(
                        SpillSlot::invalid().is_invalid() && !SpillSlot::invalid().is_valid(),
                        "SpillSlot"
                    ),
                    3 => ensure!(
                        ProgPoint::invalid().inst() == Inst::invalid()
                            && ProgPoint::invalid().pos() == InstPosition::Before,
                        "ProgPoint"
                    ),
                    4 => ensure!(VReg::invalid().vreg() == VReg::MAX, "VReg"),
                    5 => {
                        let n = Allocation::none();
                        ensure!(
                            n.is_none()
                                && !n.is_some()
                                && !n.is_reg()
                                && !n.is_stack()
                                && n.as_reg().is_none()
                                && n.as_stack().is_none(),
                            "none"
                        );
                        ensure!(
                            n.kind() == AllocationKind::None
                                && Allocation::from_bits(n.bits()) == n,
                            "none bits"
                        );
                    }
                    6 => ensure!(PReg::invalid().as_valid().is_none(), "PReg"),
                    _ => {
                        let (mut x, n) = (0usize, 1 << 20);
                        for p in [0, 1, n - 1, n] {
                            x += ProgPoint::from_index(p).inst().index();
                        }
                        ensure!(x == (n as usize - 1) / 2 + n as usize / 2, "from_index");
                    }
                }
                Ok(())
            });
            one(t, || format!("case {}", k), r)
        },
    ));
    let n = tier.pick(40, 200);
    spaces.push(space(
        "instruction-ranges",
        format!("every range with bounds below {}, at three offsets", n),
        move |t, ch| {
            let base = *ch.pick(&[0usize, (1 << 16) - 5, (1 << 30) - 3]);
            let a = ch.choose(n);
            let b = a + ch.choose(n - a + 1);
            let (a, b) = (a + base, b + base);
            let r = run::guard(|| {
                let r = InstRange::new(Inst::new(a), Inst::new(b));
                ensure!(r.len() == b - a, "len {}", r.len());
                ensure!(r.iter().map(|i| i.index()).eq(a..b), "iteration");
                ensure!(
                    r.iter().rev().map(|i| i.index()).eq((a..b).rev()),
                    "reverse iteration"
                );
                if a < b {
                    ensure!(
                        r.first().index() == a && r.last().index() == b - 1,
                        "first {:?} last {:?}",
                        r.first(),
                        r.last()
                    );
                    let s = r.rest();
                    ensure!(
                        s.len() == b - a - 1 && s.iter().map(|i| i.index()).eq(a + 1..b),
                        "rest"
                    );
                }
                Ok(())
            });
            one(t, || format!("{}..{}", a, b), r)
        },
    ));
    spaces.push(chunks("spillslots", 1 << 24, 1 << 14, slot_ok));
    spaces.push(chunks("program-points", 1 << 30, 1 << 18, point_ok));
    spaces.push(chunks("values", 1 << 30, 1 << 18, |i| {
        CLASSES.into_iter().try_for_each(|c| vreg_ok(i, c))
    }));
    spaces.push(space(
        "values-and-points-high",
        "boundary values of the full domains",
        |t, ch| {
            let i = *ch.pick(&edges((1 << 30) - 1));
            let r = run::guard(|| {
                point_ok(i)?;
                if i <= VReg::MAX {
                    CLASSES.into_iter().try_for_each(|c| vreg_ok(i, c))?;
                }
                Ok(())
            });
            one(t, || format!("{}", i), r)
        },
    ));
    Prop {
        note: "each constructor is called for every value of the listed domains and every accessor, raw form, builder and comparison is \
               compared with the fields; a state is one constructed value (or chunk of values)",
        assumptions: &["p63i shares its encoding with PReg::invalid() by design", "instruction indices below 2^30 (a point keeps 31 bits for the instruction and reads them back signed)"],
        spaces,
    }
}
