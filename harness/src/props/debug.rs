//! P20, P21: debug-value locations. Every value is labelled with every range of instructions at once
//! (one label per range), so all label ranges of a function are covered by one allocation; the product
//! checker then looks at the reported location at every point of every reported range on every path.

use super::Prop;
use crate::ctx::*;
use crate::explore::*;
use crate::gen::*;
use crate::ir::{self, Func};
use crate::run::{self, Algo};
use crate::scopes::{self, Who2};
use regalloc2::*;

/// How the labels of a function are laid out.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Form {
    /// Every value, every range start <= end of instructions, one label each; labels in an order
    /// that is not the order of the values.
    AllRanges,
    /// One label per value over the whole function, and one value's worth of labels shared by all
    /// values over single instructions.
    Shared,
}

fn values(f: &Func) -> Vec<VReg> {
    let mut seen = vec![None; f.num_vregs];
    for v in f
        .blocks
        .iter()
        .flat_map(|b| b.params.iter().copied())
        .chain(f.insts.iter().flat_map(|i| {
            i.ops
                .iter()
                .filter(|o| o.as_fixed_nonallocatable().is_none())
                .map(|o| o.vreg())
        }))
    {
        seen[v.vreg()] = Some(v);
    }
    seen.into_iter().flatten().collect()
}

pub fn label(f: &mut Func, form: Form) {
    let n = f.insts.len();
    let vs = values(f);
    f.labels.clear();
    let top = (vs.len() * n * (n + 1)) as u32;
    let mut k = 0;
    for (ordinal, &v) in vs.iter().enumerate() {
        match form {
            Form::AllRanges => {
                // sorted by value only; the ranges of one value in various orders
                let mut ranges: Vec<(usize, usize)> = (0..n).flat_map(|a| (a + 1..=n).map(move |z| (a, z))).collect();
                match ordinal % 3 {
                    0 => {}
                    1 => ranges.reverse(),
                    _ => ranges.rotate_left(n),
                }
                for (a, z) in ranges {
                    f.labels.push((v, Inst::new(a), Inst::new(z), top - k));
                    k += 1;
                }
            }
            Form::Shared => {
                f.labels
                    .push((v, Inst::new(0), Inst::new(n), 1000 + v.vreg() as u32));
                for a in 0..n {
                    // a source variable that lives in a different value at each instruction
                    if (a + ordinal) % vs.len() == 0 {
                        f.labels
                            .push((v, Inst::new(a), Inst::new(a + 1), 7 + v.class() as u32));
                    }
                }
            }
        }
    }
}

/// Instruction indices before which each value is live, and after whose definition it is.
fn live_before(f: &Func) -> Vec<Vec<bool>> {
    let nb = f.blocks.len();
    let mut li = vec![vec![false; f.num_vregs]; nb];
    let mut at = vec![vec![false; f.num_vregs]; f.insts.len()];
    loop {
        let mut ch = false;
        for b in (0..nb).rev() {
            let d = &f.blocks[b];
            let mut s = vec![false; f.num_vregs];
            for t in &d.succs {
                for v in 0..f.num_vregs {
                    s[v] |= li[t.index()][v];
                }
            }
            // read after what the branch itself defines
            for a in d.args.iter().flatten() {
                s[a.vreg()] = true;
            }
            for k in (d.first..d.end).rev() {
                let i = &f.insts[k];
                for o in i.ops.iter() {
                    if o.as_fixed_nonallocatable().is_none() && o.kind() == OperandKind::Def {
                        s[o.vreg().vreg()] = false;
                    }
                }
                for o in i.ops.iter() {
                    if o.as_fixed_nonallocatable().is_none() && o.kind() == OperandKind::Use {
                        s[o.vreg().vreg()] = true;
                    }
                }
                at[k] = s.clone();
            }
            for p in &d.params {
                s[p.vreg()] = false;
            }
            if s != li[b] {
                li[b] = s;
                ch = true;
            }
        }
        if !ch {
            return at;
        }
    }
}

/// Problems of the form of the reported list (everything but whether the locations are true).
fn form_problem(f: &Func, out: &Output, a: Algo) -> Option<String> {
    let dl = &out.debug_locations;
    for w in dl.windows(2) {
        let ok = match a {
            Algo::Ion => w[0] <= w[1],
            Algo::Fast => w[0].0 <= w[1].0,
        };
        if !ok {
            return Some(format!("not sorted: {:?} before {:?}", w[0], w[1]));
        }
        if a == Algo::Ion && w[0].0 == w[1].0 && w[0].2 > w[1].1 {
            return Some(format!("not disjoint: {:?} and {:?}", w[0], w[1]));
        }
    }
    for &(l, s, e, al) in dl {
        if al.is_none() {
            return Some(format!("label {} without location", l));
        }
        if s.to_index() >= e.to_index() || e.to_index() > 2 * f.insts.len() as u32 {
            return Some(format!("label {} for the empty or unbounded range {:?}..{:?}", l, s, e));
        }
        let req: Vec<_> = f.labels.iter().filter(|x| x.3 == l).collect();
        let hit = req.iter().any(|x| {
            let (rs, re) = (ProgPoint::before(x.1), ProgPoint::before(x.2));
            match a {
                Algo::Ion => rs <= s && e <= re,
                Algo::Fast => s < re && rs < e,
            }
        });
        if !hit {
            return Some(format!(
                "label {} reported for {:?}..{:?}, requested {:?}",
                l, s, e, req
            ));
        }
    }
    if a == Algo::Ion {
        // A requested point at which the value is live is reported.
        let live = live_before(f);
        for &(v, s, e, l) in &f.labels {
            for k in s.index()..e.index() {
                if live[k][v.vreg()] {
                    let p = ProgPoint::before(Inst::new(k));
                    if !dl.iter().any(|d| d.0 == l && d.1 <= p && p < d.2) {
                        return Some(format!("label {} of v{} is not reported at {:?}, where the value is live", l, v.vreg(), p));
                    }
                }
            }
        }
    }
    if a == Algo::Fast {
        // A requested range inside the life of a value that is only used in the block of its definition.
        for &(v, s, e, l) in &f.labels {
            if let Some((d, u)) = local_life(f, v) {
                if d <= s.index() && e.index() <= u && s < e && u > d && !dl.iter().any(|x| x.0 == l) {
                    return Some(format!("label {} of v{} for {:?}..{:?} is not reported; the value is live from inst{} to inst{}", l, v.vreg(), s, e, d, u));
                }
            }
        }
    }
    None
}

/// Instructions that define and last use `v`, if it is defined by an instruction and only used (and not
/// as a block argument) in the same block.
fn local_life(f: &Func, v: VReg) -> Option<(usize, usize)> {
    let mut def = None;
    let mut last = None;
    let mut ok = true;
    for b in &f.blocks {
        for k in b.first..b.end {
            for o in &f.insts[k].ops {
                if o.as_fixed_nonallocatable().is_some() || o.vreg().vreg() != v.vreg() {
                    continue;
                }
                match o.kind() {
                    OperandKind::Def => def = Some((b.first, k)),
                    OperandKind::Use => last = Some((b.first, k)),
                }
                if let (Some(x), Some(y)) = (def, last) {
                    ok &= x.0 == y.0;
                }
            }
        }
        ok &= !b.params.iter().any(|p| p.vreg() == v.vreg());
        ok &= !b.args.iter().flatten().any(|p| p.vreg() == v.vreg());
    }
    match (ok, def, last) {
        (true, Some(d), Some(u)) => Some((d.1, u.1)),
        _ => None,
    }
}

pub const STRICT: &[&str] = &["Debug", "DebugOutside", "DebugForm", "Panic", "Error"];

pub fn check(case: &Case, a: Algo, form: Form, t: &mut Tally) -> Leaf {
    let ks: &[&str] = match a {
        Algo::Ion => STRICT,
        // DebugOutside: see known_findings.txt
        Algo::Fast => &["Debug", "DebugForm", "Panic", "Error"],
    };
    judge_form(case, a, form, ks, t)
}

pub fn judge_form(case: &Case, a: Algo, form: Form, ks: &[&str], t: &mut Tally) -> Leaf {
    let mut case = Case {
        func: case.func.clone(),
        env: case.env.clone(),
    };
    label(&mut case.func, form);
    let j = run::judge(&case, a, true);
    t.states += j.stats.states;
    t.transitions += j.stats.transitions;
    let dump = |o: &Output| {
        format!(
            "{}labels {:?}\n{}debug {:?}\n",
            case.dump(),
            case.func.labels,
            ir::out_dump(&case.func, o),
            o.debug_locations
        )
    };
    if let Some(out) = &j.out {
        let mut locs: Vec<_> = out.debug_locations.iter().map(|d| d.3).collect();
        locs.sort();
        locs.dedup();
        if locs.len() >= 2 {
            t.nontrivial += 1;
            t.sample(|| dump(out));
        }
        if let Some(e) = form_problem(&case.func, out, a) {
            return bad("DebugForm", format!("{:?}: {}", a, e), dump(out));
        }
    }
    super::alloc::failures(&case, j, ks)
}

fn spaces(tier: Tier, a: Algo) -> Vec<Space> {
    let id = if a == Algo::Ion { "P20" } else { "P21" };
    let mut v = vec![];
    // The deeper bounds of these scopes only; the labels make each function many times as costly.
    const DEEP: &[&str] = &["line-one-value", "one-inst", "one-inst-3", "line-multi-constraint"];
    let mut entries = scopes::all(Tier::Quick);
    if tier.thorough() {
        entries.retain(|e| !DEEP.contains(&&e.scope.name[..]));
        entries.extend(scopes::all(tier).into_iter().filter(|e| DEEP.contains(&&e.scope.name[..])));
    }
    for e in entries {
        const SLOW: &[&str] = &["cfg-order", "cfg-large-params", "fixed-stack-cfg"];
        let n = &e.scope.name[..];
        if !tier.thorough() && SLOW.contains(&n) && std::env::var("VMC_ALL").is_err() {
            continue;
        }
        let ok = match e.who {
            Who2::Both => true,
            Who2::IonOnly => a == Algo::Ion,
            Who2::FastOnly => a == Algo::Fast,
        };
        if !ok {
            continue;
        }
        let sc = e.scope;
        let name = format!("labels {}", sc.name);
        let bounds = format!(
            "instructions <= {}, blocks {:?}, every value labelled with every range of instructions (one label each), and one label per class shared by all its values",
            sc.max_insts,
            sc.cfgs.iter().map(|c| c.name).collect::<Vec<_>>()
        );
        v.push(space(name, bounds, move |t, ch| {
            let case = match sc.build(ch) {
                None => return Leaf::Pruned,
                Some(c) => c,
            };
            if !crate::feas::supported(&case.func, a) {
                return Leaf::Pruned;
            }
            for form in [Form::AllRanges, Form::Shared] {
                match check(&case, a, form, t) {
                    Leaf::Ok => {}
                    l => return l,
                }
            }
            Leaf::Ok
        }));
    }
    const FAMILIES: &[&str] = &["long-line", "param-split", "loop-update", "nested-loops", "pressure"];
    for f in crate::families::all(Tier::Quick) {
        if !FAMILIES.contains(&f.name) || !super::alloc::who(f.who, a) {
            continue;
        }
        let (make, name) = (f.make, format!("labels family {}", f.name));
        v.push(space(name, f.bounds, move |t, ch| match make(ch) {
            None => Leaf::Pruned,
            Some(c) if !super::alloc::feasible(&c) || !crate::feas::supported(&c.func, a) => Leaf::Pruned,
            Some(c) => check(&c, a, if c.func.insts.len() > 12 { Form::Shared } else { Form::AllRanges }, t),
        }));
    }
    v.extend(super::known::spaces(id));
    v
}

pub fn p20(tier: Tier) -> Prop {
    Prop {
        note: "each function is allocated with every value labelled over every instruction range; the product of input and \
               allocated program is explored and at each point inside a reported range the location must hold the value; \
               nontrivial = at least two different locations reported",
        assumptions: &["a point before/after an instruction means after the moves inserted at that point", "labels are sorted by value, as documented"],
        spaces: spaces(tier, Algo::Ion),
    }
}

pub fn p21(tier: Tier) -> Prop {
    Prop {
        note: "each function is allocated with every value labelled over every instruction range; the product of input and \
               allocated program is explored and at each point inside a reported range the location must hold the value; \
               nontrivial = at least two different locations reported",
        assumptions: &["a point before/after an instruction means after the moves inserted at that point", "labels are sorted by value, as documented"],
        spaces: spaces(tier, Algo::Fast),
    }
}
