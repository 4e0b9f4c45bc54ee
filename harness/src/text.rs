//! A compact notation for fixed functions.
//!
//! One line per block: `name(params) -> succ(args) succ(args): inst | inst | ...`
//! An instruction is a list of operands: `u0:a` early use of v0, `U0:a` late use, `d0:a` late definition,
//! `D0:a` early definition, with constraint `a` any, `r` register, `s` stack, `f3` fixed, `l4` limit,
//! `=1` reuse of operand 1; `!3` clobbers p3; `n6` non-allocatable fixed use of p6. Values are written
//! as numbers, with a suffix `f` or `v` for the other classes. The last instruction of each block is
//! its branch or return.

use crate::ir::*;
use regalloc2::*;

fn vreg(s: &str) -> (VReg, &str) {
    let n = s.find(|c: char| !c.is_ascii_digit()).unwrap_or(s.len());
    let i: usize = s[..n]
        .parse()
        .unwrap_or_else(|_| panic!("bad vreg {:?}", s));
    match s[n..].chars().next() {
        Some('f') => (VReg::new(i, FL), &s[n + 1..]),
        Some('v') => (VReg::new(i, VE), &s[n + 1..]),
        _ => (VReg::new(i, I), &s[n..]),
    }
}

fn list(s: &str) -> (&str, Vec<VReg>) {
    match s.find('(') {
        None => (s, vec![]),
        Some(i) => (
            &s[..i],
            s[i + 1..s.len() - 1]
                .split(',')
                .filter(|x| !x.is_empty())
                .map(|x| vreg(x.trim()).0)
                .collect(),
        ),
    }
}

pub fn inst(s: &str) -> (Vec<Operand>, PRegSet) {
    let mut ops = vec![];
    let mut cl = PRegSet::empty();
    for t in s.split_whitespace() {
        let (k, rest) = t.split_at(1);
        match k {
            "!" => {
                let (v, _) = vreg(rest);
                cl.add(PReg::new(v.vreg(), v.class()));
            }
            "n" => {
                let (v, _) = vreg(rest);
                ops.push(Operand::fixed_nonallocatable(PReg::new(
                    v.vreg(),
                    v.class(),
                )));
            }
            _ => {
                let (kind, pos) = match k {
                    "u" => (OperandKind::Use, OperandPos::Early),
                    "U" => (OperandKind::Use, OperandPos::Late),
                    "d" => (OperandKind::Def, OperandPos::Late),
                    "D" => (OperandKind::Def, OperandPos::Early),
                    _ => panic!("bad operand {:?}", t),
                };
                let (v, rest) = vreg(rest);
                let c = rest.strip_prefix(':').unwrap();
                let num = || c[1..].parse::<usize>().unwrap();
                let con = match &c[..1] {
                    "a" => OperandConstraint::Any,
                    "r" => OperandConstraint::Reg,
                    "s" => OperandConstraint::Stack,
                    "f" => OperandConstraint::FixedReg(PReg::new(num(), v.class())),
                    "l" => OperandConstraint::Limit(num()),
                    "=" => OperandConstraint::Reuse(num()),
                    _ => panic!("bad constraint {:?}", t),
                };
                ops.push(Operand::new(v, con, kind, pos));
            }
        }
    }
    (ops, cl)
}

/// Parse a function; the first line is the entry block; lines are blocks in layout order unless
/// `entry` names another one.
pub fn func(text: &str, entry: &str) -> Func {
    let lines: Vec<&str> = text
        .lines()
        .map(|l| l.trim())
        .filter(|l| !l.is_empty())
        .collect();
    let mut heads = vec![];
    for l in &lines {
        // the block body starts at the first ": " (operands have no space after their colon)
        let i = l
            .find(": ")
            .or_else(|| l.ends_with(':').then(|| l.len() - 1))
            .expect("block body");
        let (h, body) = (&l[..i], l[i + 1..].trim());
        let (h, succ) = h.split_once("->").unwrap_or((h, ""));
        heads.push((list(h.trim()), succ.trim().to_string(), body.to_string()));
    }
    let idx = |n: &str| {
        heads
            .iter()
            .position(|h| h.0 .0 == n)
            .unwrap_or_else(|| panic!("no block {:?}", n))
    };
    let mut b = Builder::new(lines.len());
    let mut nv = 0;
    let mut see = |v: VReg| nv = nv.max(v.vreg() + 1);
    for (k, ((_, params), succ, body)) in heads.iter().enumerate() {
        params.iter().for_each(|&v| see(v));
        b.blocks[k].1 = params.clone();
        let succs: Vec<(&str, Vec<VReg>)> = succ.split_whitespace().map(list).collect();
        let insts: Vec<&str> = body.split('|').collect();
        for (i, s) in insts.iter().enumerate() {
            let (ops, cl) = inst(s);
            ops.iter()
                .filter(|o| o.as_fixed_nonallocatable().is_none())
                .for_each(|o| see(o.vreg()));
            let kind = if i + 1 < insts.len() {
                IKind::Op
            } else if succs.is_empty() {
                IKind::Ret
            } else {
                IKind::Branch
            };
            b.inst(k, kind, ops, cl);
        }
        for (t, args) in succs {
            args.iter().for_each(|&v| see(v));
            b.edge(k, idx(t), args);
        }
    }
    b.num_vregs = nv;
    let e = if entry.is_empty() { 0 } else { idx(entry) };
    b.finish(e, &ident(lines.len()))
}

fn vname(v: VReg) -> String {
    format!("{}{}", v.vreg(), ["", "f", "v"][v.class() as usize])
}

fn pname(p: PReg) -> String {
    format!("{}{}", p.hw_enc(), ["", "f", "v"][p.class() as usize])
}

fn inst_text(i: &InstData) -> String {
    let mut s: Vec<String> = i
        .ops
        .iter()
        .map(|o| {
            if let Some(p) = o.as_fixed_nonallocatable() {
                return format!("n{}", pname(p));
            }
            let k = match (o.kind(), o.pos()) {
                (OperandKind::Use, OperandPos::Early) => "u",
                (OperandKind::Use, OperandPos::Late) => "U",
                (OperandKind::Def, OperandPos::Late) => "d",
                (OperandKind::Def, OperandPos::Early) => "D",
            };
            let c = match o.constraint() {
                OperandConstraint::Any => "a".to_string(),
                OperandConstraint::Reg => "r".to_string(),
                OperandConstraint::Stack => "s".to_string(),
                OperandConstraint::FixedReg(p) => format!("f{}", p.hw_enc()),
                OperandConstraint::Reuse(n) => format!("={}", n),
                OperandConstraint::Limit(n) => format!("l{}", n),
            };
            format!("{}{}:{}", k, vname(o.vreg()), c)
        })
        .collect();
    s.extend(i.clobbers.into_iter().map(|p| format!("!{}", pname(p))));
    s.join(" ")
}

/// A function and its environment as text that `parse` reads back.
pub fn emit(f: &Func, env: &MachineEnv) -> String {
    let set = |s: &PRegSet| s.into_iter().map(pname).collect::<Vec<_>>().join(" ");
    let mut t = String::new();
    let all = |sets: &[PRegSet; 3]| sets.iter().map(set).collect::<Vec<_>>().join(" ");
    t += &format!("pref {}\n", all(&env.preferred_regs_by_class));
    t += &format!("nonpref {}\n", all(&env.non_preferred_regs_by_class));
    t += &format!(
        "scratch {}\n",
        env.scratch_by_class.iter().flatten().map(|p| pname(*p)).collect::<Vec<_>>().join(" ")
    );
    t += &format!(
        "stack {}\n",
        env.fixed_stack_slots.iter().map(|p| pname(*p)).collect::<Vec<_>>().join(" ")
    );
    t += &format!(
        "func {} {} {} {} {} {} {}\n",
        f.entry.index(),
        f.num_vregs,
        f.slot_size[0],
        f.slot_size[1],
        f.slot_size[2],
        f.last_slot as u8,
        f.multi_defs as u8
    );
    for (v, a, b, l) in &f.labels {
        t += &format!("label {} {} {} {}\n", vname(*v), a.index(), b.index(), l);
    }
    for (k, b) in f.blocks.iter().enumerate() {
        let vs = |v: &[VReg]| v.iter().map(|v| vname(*v)).collect::<Vec<_>>().join(",");
        t += &format!("b{}({}) ->", k, vs(&b.params));
        for (s, a) in b.succs.iter().zip(&b.args) {
            t += &format!(" b{}({})", s.index(), vs(a));
        }
        let is: Vec<String> = f.insts[b.first..b.end].iter().map(inst_text).collect();
        t += &format!(" : {}\n", is.join(" | "));
    }
    t
}

pub fn parse(text: &str) -> (Func, MachineEnv) {
    let mut env = EnvSpec::default().build();
    let mut lines = vec![];
    let mut head = vec![];
    let mut labels = vec![];
    let preg = |s: &str| {
        let (v, _) = vreg(s);
        PReg::new(v.vreg(), v.class())
    };
    for l in text.lines() {
        let mut w = l.split_whitespace();
        match w.next() {
            Some("pref") => w.for_each(|p| {
                let p = preg(p);
                env.preferred_regs_by_class[p.class() as usize].add(p)
            }),
            Some("nonpref") => w.for_each(|p| {
                let p = preg(p);
                env.non_preferred_regs_by_class[p.class() as usize].add(p)
            }),
            Some("scratch") => w.for_each(|p| {
                let p = preg(p);
                env.scratch_by_class[p.class() as usize] = Some(p)
            }),
            Some("stack") => w.for_each(|p| env.fixed_stack_slots.push(preg(p))),
            Some("func") => head = w.map(|x| x.parse::<usize>().unwrap()).collect(),
            Some("label") => {
                let x: Vec<&str> = w.collect();
                labels.push((
                    vreg(x[0]).0,
                    Inst::new(x[1].parse().unwrap()),
                    Inst::new(x[2].parse().unwrap()),
                    x[3].parse().unwrap(),
                ));
            }
            _ => lines.push(l),
        }
    }
    let mut f = func(&lines.join("\n"), "");
    f.entry = Block::new(head[0]);
    f.num_vregs = head[1];
    f.slot_size = [head[2], head[3], head[4]];
    f.last_slot = head[5] == 1;
    f.multi_defs = head[6] == 1;
    f.labels = labels;
    (f, env)
}
