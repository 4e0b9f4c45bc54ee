//! P22, P23: regalloc2's own checker against the product oracle, on correct outputs, every single change
//! to them, and every possible output of tiny functions.

use super::Prop;
use crate::ctx::*;
use crate::explore::*;
use crate::gen::Con::*;
use crate::gen::*;
use crate::ir::*;
use crate::product::{self, Kind, Violation};
use crate::run::{self, Algo, Res};
use crate::scopes::{self, Who2};
use regalloc2::*;


/// What a candidate output is, for the checker's purposes.
#[derive(Clone, Debug, PartialEq, Eq)]
enum Truth {
    /// nothing wrong with it at all
    Right,
    /// a wrong or undefined value is read, a constraint is not met, a clobbered value is read, or a move connects
    /// two stack locations
    Wrong(String),
    /// wrong in a way that the property says nothing about
    Other,
}

fn truth(vs: &[Violation]) -> Truth {
    if vs.is_empty() {
        return Truth::Right;
    }
    for v in vs {
        let counts = match v.kind {
            Kind::Value | Kind::ValueSlot => !v.what.contains("overlapping"),
            Kind::ValueTrashed => v.what.contains("clobber"),
            Kind::Constraint => true,
            Kind::Edit => v.what.contains("stack-to-stack"),
            _ => false,
        };
        if counts {
            return Truth::Wrong(format!("{:?}: {}", v.kind, v.what));
        }
    }
    Truth::Other
}

fn verdict(f: &Func, env: &MachineEnv, out: &Output) -> Result<Result<(), String>, String> {
    run::guard(|| {
        let mut c = regalloc2::checker::Checker::new(f, env);
        c.prepare(out);
        c.run().map_err(|e| format!("{:?}", e))
    })
}

/// Which direction is asked.
#[derive(Clone, Copy, PartialEq, Eq)]
enum Ask {
    Rejects,
    Accepts,
}

struct Job<'a> {
    case: &'a Case,
    ask: Ask,
    /// candidates judged, candidates the question was about
    n: u64,
    asked: u64,
    stats: product::Stats,
    bad: Vec<Failure>,
}

impl<'a> Job<'a> {
    fn candidate(&mut self, out: &Output, how: &dyn Fn() -> String) {
        if !self.bad.is_empty() {
            return;
        }
        let (f, env) = (&self.case.func, &self.case.env);
        self.n += 1;
        let (st, vs) = product::check(f, env, out, &product::Opts::default());
        self.stats.states += st.states;
        self.stats.transitions += st.transitions;
        let tr = truth(&vs);
        let dump = |v: &str| {
            format!(
                "{}{}change: {}\nchecker: {}\n",
                self.case.dump(),
                out_dump(f, out),
                how(),
                v
            )
        };
        match (self.ask, tr) {
            (Ask::Rejects, Truth::Wrong(why)) => {
                self.asked += 1;
                // A panic is no acceptance; P23 asks for none on right outputs.
                if let Ok(Ok(())) = verdict(f, env, out) {
                    self.bad.push(fail(
                        "Missed",
                        format!("the checker accepts a wrong output ({}): {}", how(), why),
                        dump("accepted"),
                    ));
                }
            }
            (Ask::Accepts, Truth::Right) => {
                self.asked += 1;
                match verdict(f, env, out) {
                    Ok(Ok(())) => {}
                    Ok(Err(e)) => self.bad.push(fail(
                        "FalseAlarm",
                        format!("the checker rejects a correct output ({}): {}", how(), e),
                        dump(&e),
                    )),
                    Err(p) => self.bad.push(fail(
                        "Panic",
                        format!("the checker panics on a correct output ({}): {}", how(), p),
                        dump(&p),
                    )),
                }
            }
            _ => {}
        }
    }
    fn leaf(self, t: &mut Tally) -> Leaf {
        t.states += self.stats.states;
        t.transitions += self.stats.transitions + self.n;
        t.nontrivial += self.asked;
        if self.bad.is_empty() {
            Leaf::Ok
        } else {
            Leaf::Bad(self.bad)
        }
    }
}

/// Locations of class `c` that a change may put in place of another: every allocatable register and
/// fixed stack slot, every spill slot in use, and one more.
fn places(case: &Case, out: &Output, c: RegClass) -> Vec<Allocation> {
    let mut v: Vec<Allocation> = vec![];
    for p in product::allocatable(&case.env).into_iter() {
        if p.class() == c {
            v.push(Allocation::reg(p));
        }
    }
    for &p in &case.env.fixed_stack_slots {
        if p.class() == c {
            v.push(Allocation::reg(p));
        }
    }
    let sz = case.func.slot_size[c as usize];
    let mut s = 0;
    while s + sz <= out.num_spillslots + sz {
        v.push(Allocation::stack(SpillSlot::new(if case.func.last_slot { s + sz - 1 } else { s })));
        s += sz;
    }
    v.sort();
    v.dedup();
    v
}

fn class_of(case: &Case, a: Allocation, b: Allocation) -> RegClass {
    let _ = case;
    a.as_reg().or(b.as_reg()).map_or(RegClass::Int, |p| p.class())
}

/// Calls `job` on `base` and on every output that differs from it by one change.
fn mutants(job: &mut Job, base: &Output) {
    let case = job.case;
    let f = &case.func;
    job.candidate(base, &|| "none".into());
    let mut o = base.clone();
    // one more slot, so that its use is in the frame
    o.num_spillslots += f.slot_size.iter().max().unwrap();
    let spare = o.clone();
    // every operand everywhere else
    for k in 0..f.insts.len() {
        let off = base.inst_alloc_offsets[k] as usize;
        for (i, op) in f.insts[k].ops.iter().enumerate() {
            let old = o.allocs[off + i];
            let mut alts = places(case, base, op.class());
            alts.push(Allocation::none());
            for a in alts {
                if a != old {
                    o.allocs[off + i] = a;
                    job.candidate(&o, &|| format!("inst{} op{}: {} for {}", k, i, a, old));
                }
            }
            o.allocs[off + i] = old;
        }
    }
    let ne = base.edits.len();
    for e in 0..ne {
        let (p, Edit::Move { from, to }) = base.edits[e].clone();
        // dropped
        let mut d = spare.clone();
        d.edits.remove(e);
        job.candidate(&d, &|| format!("edit {} dropped", e));
        // redirected
        for a in places(case, base, class_of(case, from, to)) {
            if a != from {
                o.edits[e].1 = Edit::Move { from: a, to };
                job.candidate(&o, &|| format!("edit {} from {} instead of {}", e, a, from));
            }
            if a != to {
                o.edits[e].1 = Edit::Move { from, to: a };
                job.candidate(&o, &|| format!("edit {} to {} instead of {}", e, a, to));
            }
        }
        o.edits[e].1 = Edit::Move { from: to, to: from };
        job.candidate(&o, &|| format!("edit {} reversed", e));
        o.edits[e] = base.edits[e].clone();
        // exchanged with the next of the same point
        if e + 1 < ne && base.edits[e + 1].0 == p {
            o.edits.swap(e, e + 1);
            job.candidate(&o, &|| format!("edits {} and {} exchanged", e, e + 1));
            o.edits.swap(e, e + 1);
        }
        // executed at another point (before or after what is there)
        for pt in 0..2 * f.insts.len() as u32 {
            let q = ProgPoint::from_index(pt);
            if q == p || last_after(f, q) {
                continue;
            }
            for front in [true, false] {
                let mut d = spare.clone();
                let x = d.edits.remove(e);
                insert(&mut d, q, x.1, front);
                job.candidate(&d, &|| format!("edit {} at {:?} (front {})", e, q, front));
            }
        }
    }
    // one more move anywhere
    let mut classes: Vec<RegClass> = f
        .insts
        .iter()
        .flat_map(|i| i.ops.iter().map(|o| o.class()))
        .collect();
    classes.sort_by_key(|&c| c as usize);
    classes.dedup();
    for pt in 0..2 * f.insts.len() as u32 {
        let q = ProgPoint::from_index(pt);
        if last_after(f, q) {
            continue;
        }
        let fronts: &[bool] = if base.edits.iter().any(|e| e.0 == q) {
            &[true, false]
        } else {
            &[true]
        };
        for &c in &classes {
            let ps = places(case, base, c);
            for &a in &ps {
                for &b in &ps {
                    if a == b {
                        continue;
                    }
                    for &front in fronts {
                        let mut d = spare.clone();
                        insert(&mut d, q, Edit::Move { from: a, to: b }, front);
                        job.candidate(&d, &|| format!("{} <- {} added at {:?} (front {})", b, a, q, front));
                    }
                }
            }
        }
    }
}

/// After a block's last instruction, where no edit may be.
fn last_after(f: &Func, p: ProgPoint) -> bool {
    p.pos() == InstPosition::After && f.blocks.iter().any(|b| b.end == p.inst().index() + 1)
}

fn insert(o: &mut Output, p: ProgPoint, e: Edit, front: bool) {
    let at = if front {
        o.edits.partition_point(|x| x.0 < p)
    } else {
        o.edits.partition_point(|x| x.0 <= p)
    };
    o.edits.insert(at, (p, e));
}

fn mutant_space(ask: Ask, sc: Scope) -> Space {
    let bounds = format!(
        "functions: instructions <= {}, shapes {}, cfgs {:?}, envs {}; the outputs of both allocators and every output differing by one \
         change (operand location, edit dropped, redirected, reversed, exchanged, moved to another point, one move added anywhere)",
        sc.max_insts,
        sc.shapes.len() + sc.first.len(),
        sc.cfgs.iter().map(|c| c.name).collect::<Vec<_>>(),
        sc.envs.len()
    );
    space(format!("changes to {}", sc.name), bounds, move |t, ch| {
        let case = match sc.build(ch) {
            None => return Leaf::Pruned,
            Some(c) => c,
        };
        let mut job = Job {
            case: &case,
            ask,
            n: 0,
            asked: 0,
            stats: Default::default(),
            bad: vec![],
        };
        let mut seen: Vec<String> = vec![];
        for a in run::BOTH {
            if !crate::feas::supported(&case.func, a) {
                continue;
            }
            if let Res::Ok(out) = run::alloc(&case.func, &case.env, a) {
                let key = format!("{:?}{:?}", out.allocs, out.edits);
                if !seen.contains(&key) {
                    mutants(&mut job, &out);
                    seen.push(key);
                }
            }
        }
        job.leaf(t)
    })
}

/// Every function of the allocation scopes: what the allocators produce is accepted.
fn outputs_space(sc: Scope, who: Who2) -> Space {
    let bounds = format!("every function of the scope {}, outputs of the allocators", sc.name);
    let name = format!("outputs of {}", sc.name);
    generated_outputs(name, bounds, who, Box::new(move |ch| sc.build(ch)))
}

fn family_outputs(tier: Tier) -> Vec<Space> {
    let f = |f: crate::families::Family| {
        let make = f.make;
        let some = move |ch: &mut Chooser| make(ch).filter(super::alloc::feasible);
        generated_outputs(format!("outputs of family {}", f.name), f.bounds, f.who, Box::new(some))
    };
    crate::families::all(tier).into_iter().map(f).collect()
}

fn generated_outputs(
    name: String,
    bounds: String,
    who: Who2,
    make: Box<dyn Fn(&mut Chooser) -> Option<Case> + Send + Sync>,
) -> Space {
    space(name, bounds, move |t, ch| {
        let case = match make(ch) {
            None => return Leaf::Pruned,
            Some(c) => c,
        };
        let mut job = Job {
            case: &case,
            ask: Ask::Accepts,
            n: 0,
            asked: 0,
            stats: Default::default(),
            bad: vec![],
        };
        for a in run::BOTH {
            if !super::alloc::who(who, a) || !crate::feas::supported(&case.func, a) {
                continue;
            }
            if let Res::Ok(out) = run::alloc(&case.func, &case.env, a) {
                job.candidate(&out, &|| format!("output of {:?}", a));
            }
        }
        job.leaf(t)
    })
}

/// Every output of a tiny function: any location for every operand, and any short list of moves.
fn all_outputs_space(ask: Ask, sc: Scope, max_edits: usize) -> Space {
    let bounds = format!(
        "functions: instructions <= {}, shapes {}, cfgs {:?}; every assignment of locations (registers and one spill slot) to all operands \
         with every list of at most {} moves at any points",
        sc.max_insts,
        sc.shapes.len() + sc.first.len(),
        sc.cfgs.iter().map(|c| c.name).collect::<Vec<_>>(),
        max_edits
    );
    space(format!("all outputs of {}", sc.name), bounds, move |t, ch| {
        let case = match sc.build(ch) {
            None => return Leaf::Pruned,
            Some(c) => c,
        };
        let f = &case.func;
        let mut out = Output::default();
        out.num_spillslots = 1;
        let ps = places(&case, &Output::default(), RegClass::Int);
        for i in &f.insts {
            out.inst_alloc_offsets.push(out.allocs.len() as u32);
            for op in &i.ops {
                out.allocs.push(match op.as_fixed_nonallocatable() {
                    Some(p) => Allocation::reg(p),
                    None => *ch.pick(&ps),
                });
            }
        }
        let mut job = Job {
            case: &case,
            ask,
            n: 0,
            asked: 0,
            stats: Default::default(),
            bad: vec![],
        };
        let pts: Vec<ProgPoint> = (0..2 * f.insts.len() as u32)
            .map(ProgPoint::from_index)
            .filter(|&p| !last_after(f, p))
            .collect();
        fn lists(job: &mut Job, out: &mut Output, pts: &[ProgPoint], ps: &[Allocation], left: usize) {
            job.candidate(out, &|| "chosen output".into());
            if left == 0 {
                return;
            }
            for (i, &p) in pts.iter().enumerate() {
                for &a in ps {
                    for &b in ps {
                        if a != b {
                            out.edits.push((p, Edit::Move { from: a, to: b }));
                            lists(job, out, &pts[i..], ps, left - 1);
                            out.edits.pop();
                        }
                    }
                }
            }
        }
        lists(&mut job, &mut out, &pts, &ps, max_edits);
        job.leaf(t)
    })
}

fn regs(n: usize) -> EnvSpec {
    EnvSpec::ints(&(0..n).collect::<Vec<_>>(), &[])
}

fn small_scopes(tier: Tier) -> Vec<Scope> {
    let t = tier.thorough();
    let mut v = vec![];
    let mut s = Scope::new("line-constraints");
    s.envs = vec![regs(2)];
    s.shapes = vec![
        sh(&[u(Reg)]),
        sh(&[u(Any)]),
        sh(&[u(Stack)]),
        sh(&[u(Fix(1))]),
        sh(&[d(Fix(0)), u(Fix(0))]),
        sh(&[d(Reuse(1)), u(Reg)]),
        sh(&[d(Reg), u(Any)]),
        sh(&[ul(Reg)]),
        sh(&[de(Reg)]),
        sh(&[]).clob(&[0]),
        sh(&[u(Any)]).clob(&[0, 1]),
        sh(&[u(Fix(0))]).clob(&[0]),
    ];
    s.first = vec![sh(&[d(Reg), d(Any)]), sh(&[d(Fix(1))])];
    s.max_insts = if t { 4 } else { 3 };
    s.max_per_block = 4;
    s.ret = Ret::Subset(Any);
    v.push(s);

    let mut s = Scope::new("line-reuse");
    s.envs = vec![regs(3)];
    s.shapes = vec![
        sh(&[d(Reuse(1)), u(Reg), u(Reg)]),
        sh(&[u(Any), u(Reg), d(Reuse(1))]),
        sh(&[d(Reuse(1)), u(Reg), d(Reg)]),
        sh(&[d(Reuse(1)), u(Reg), d(Fix(1))]),
        sh(&[d(Reuse(1)), u(Reg), d(Stack)]),
        sh(&[d(Reuse(1)), u(Reg)]).clob(&[2]),
        sh(&[d(Reuse(1)), u(Reg), ul(Reg)]),
        sh(&[ul(Any), u(Reg), d(Reuse(1)), u(Fix(0))]),
    ];
    s.first = vec![sh(&[d(Reg), d(Any)])];
    s.max_insts = if t { 3 } else { 2 };
    s.max_per_block = 4;
    s.ret = Ret::Subset(Any);
    v.push(s);

    let mut s = Scope::new("line-places");
    s.envs = vec![regs(2).stack(&[(8, 0)]), EnvSpec::ints(&[0, 3, 5], &[])];
    s.shapes = vec![
        sh(&[u(Reg)]),
        sh(&[u(Stack)]),
        sh(&[u(Lim(4))]),
        sh(&[d(Lim(4)), u(Any)]),
        sh(&[d(Stack), u(Any).na(7)]),
        sh(&[u(Any)]),
    ];
    s.first = vec![sh(&[d(Any)]), sh(&[d(Reg), d(Lim(4))])];
    s.max_insts = if t { 4 } else { 3 };
    s.max_per_block = 4;
    s.ret = Ret::All(Any);
    v.push(s);

    let mut s = Scope::new("cfg");
    s.envs = vec![regs(2)];
    s.shapes = vec![sh(&[u(Reg)]), sh(&[]).clob(&[0, 1]), sh(&[d(Fix(0)), u(Fix(0))]), sh(&[de(Reg)])];
    s.first = vec![sh(&[d(Reg)])];
    s.cfgs = cfgs_small()[1..].to_vec();
    s.max_insts = if t { 3 } else { 2 };
    s.max_per_block = 1;
    s.max_params = 1;
    s.ret = Ret::All(Any);
    v.push(s);

    let mut s = Scope::new("cfg-order");
    s.envs = vec![regs(1)];
    s.shapes = vec![sh(&[u(Reg)]), sh(&[]).clob(&[0])];
    s.first = vec![sh(&[d(Reg)])];
    s.cfgs = cfgs_small()[2..].to_vec();
    s.max_insts = 2;
    s.max_per_block = 1;
    s.max_params = 1;
    s.layouts = Layouts::All;
    s.ret = Ret::All(Any);
    v.push(s);

    for (name, insts, params) in [("cfg-large", 2, 0), ("cfg-large-params", 1, 1)] {
        if params > 0 && !t {
            continue;
        }
        let mut s = Scope::new(name);
        s.envs = vec![regs(1)];
        s.shapes = vec![sh(&[u(Reg)]), sh(&[]).clob(&[0])];
        s.first = vec![sh(&[d(Any)])];
        s.cfgs = cfgs_large();
        s.max_insts = insts;
        s.max_per_block = 1;
        s.max_params = params;
        s.ret = Ret::All(Any);
        v.push(s);
    }
    v
}

fn tiny_scopes(tier: Tier) -> Vec<(Scope, usize)> {
    let t = tier.thorough();
    let mut v = vec![];
    let mut s = Scope::new("tiny line");
    s.envs = vec![regs(2)];
    s.shapes = vec![
        sh(&[u(Reg)]),
        sh(&[u(Stack)]),
        sh(&[d(Reuse(1)), u(Reg)]),
        sh(&[d(Fix(0)), u(Fix(1))]),
        sh(&[]).clob(&[0]),
        sh(&[u(Any)]).clob(&[0]),
        sh(&[ul(Any)]),
    ];
    s.first = vec![sh(&[d(Reg)]), sh(&[d(Any), d(Any)])];
    s.max_insts = 2;
    s.max_per_block = 3;
    s.ret = Ret::All(Any);
    v.push((s, if t { 3 } else { 2 }));
    let mut s = Scope::new("tiny places");
    s.envs = vec![regs(1).stack(&[(8, 0)]), EnvSpec::ints(&[0, 4], &[])];
    s.shapes = vec![
        sh(&[u(Reg)]),
        sh(&[u(Lim(4))]),
        sh(&[u(Stack)]),
        sh(&[d(Reuse(1)), u(Any)]),
        sh(&[d(Lim(4)), u(Any).na(7)]),
    ];
    s.first = vec![sh(&[d(Any)]), sh(&[d(Lim(4))]), sh(&[d(Stack)])];
    s.max_insts = 2;
    s.max_per_block = 3;
    s.ret = Ret::All(Any);
    v.push((s, if t { 3 } else { 2 }));
    let mut s = Scope::new("tiny flow");
    s.envs = vec![regs(1)];
    s.shapes = vec![sh(&[u(Any)]), sh(&[]).clob(&[0])];
    s.first = vec![sh(&[d(Any)])];
    s.cfgs = cfgs_small()[1..].to_vec();
    s.max_insts = 1;
    s.max_per_block = 1;
    s.max_params = 1;
    s.layouts = Layouts::All;
    s.ret = Ret::All(Any);
    v.push((s, if t { 3 } else { 2 }));
    v
}

pub fn p22(tier: Tier) -> Prop {
    let mut spaces = vec![];
    for s in small_scopes(tier) {
        spaces.push(mutant_space(Ask::Rejects, s));
    }
    for (s, n) in tiny_scopes(tier) {
        spaces.push(all_outputs_space(Ask::Rejects, s, n));
    }
    Prop {
        note: "candidate outputs are judged by exploring the product of input and allocated program; every candidate that reads a wrong \
               value, breaks a constraint, reads a clobbered value or moves from stack to stack must be rejected by the checker; nontrivial = such candidates",
        assumptions: &[
            "early operands are read and written against the state before the instruction, late ones against the state after it: overlap \
             of operands within one instruction is not part of the question",
            "no dedicated scratch registers; all slots have the size of their class and do not overlap",
        ],
        spaces,
    }
}

pub fn p23(tier: Tier) -> Prop {
    let mut spaces = vec![];
    for s in small_scopes(tier) {
        spaces.push(mutant_space(Ask::Accepts, s));
    }
    for (s, n) in tiny_scopes(tier) {
        spaces.push(all_outputs_space(Ask::Accepts, s, n));
    }
    const SLOW: &[&str] = &["cfg-order", "cfg-large-params", "fixed-stack-cfg"];
    for e in scopes::all(Tier::Quick) {
        if !tier.thorough() && SLOW.contains(&&e.scope.name[..]) {
            continue;
        }
        spaces.push(outputs_space(e.scope, e.who));
    }
    spaces.extend(family_outputs(tier));
    Prop {
        note: "candidate outputs are judged by exploring the product of input and allocated program; every candidate with nothing wrong \
               must be accepted by the checker without panic; nontrivial = such candidates",
        assumptions: &["no critical edges; functions obey the documented rules"],
        spaces,
    }
}



