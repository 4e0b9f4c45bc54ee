//! P08: impossible register demands are an error, possible ones are not.

use super::Prop;
use crate::ctx::*;
use crate::explore::*;
use crate::feas::{self, Mode};
use crate::gen::Con::*;
use crate::gen::*;
use crate::ir::{self, *};
use crate::product;
use crate::run::{self, Algo, Res};
use regalloc2::*;

/// One case: the demands of every instruction decide what the allocator may answer.
pub fn judge(case: &Case, a: Algo, t: &mut Tally) -> Leaf {
    let insts = &case.func.insts;
    let all = |m: Mode| {
        insts
            .iter()
            .all(|i| feas::feasible(&i.ops, i.clobbers, &case.env, m))
    };
    let surely = match a {
        Algo::Ion => all(Mode::Conservative),
        Algo::Fast => insts
            .iter()
            .all(|i| feas::fast_comfortable(&i.ops, i.clobbers, &case.env)),
    };
    t.states += 1;
    t.transitions += insts.len() as u64;
    match run::alloc(&case.func, &case.env, a) {
        Res::Panic(p) => bad("Panic", format!("{:?}: panic: {}", a, p), case.dump()),
        Res::Err(RegAllocError::TooManyLiveRegs) => {
            t.nontrivial += 1;
            t.sample(|| format!("rejected by {:?}:\n{}", a, case.dump()));
            if surely {
                return bad(
                    "Error",
                    format!(
                        "{:?}: TooManyLiveRegs although every instruction's demands can be met",
                        a
                    ),
                    case.dump(),
                );
            }
            Leaf::Ok
        }
        Res::Err(e) => bad(
            "Error",
            format!("{:?}: unexpected error {:?}", a, e),
            case.dump(),
        ),
        Res::Ok(out) => {
            let dump = || format!("{}{}", case.dump(), ir::out_dump(&case.func, &out));
            if !all(Mode::Liberal) {
                return bad(
                    "Accepted",
                    format!(
                        "{:?}: an allocation was returned for demands that cannot be met",
                        a
                    ),
                    dump(),
                );
            }
            let (s, vs) = product::check(&case.func, &case.env, &out, &Default::default());
            t.states += s.states;
            t.transitions += s.transitions;
            let fs: Vec<Failure> = vs
                .into_iter()
                .filter(|v| {
                    matches!(
                        v.kind,
                        product::Kind::Constraint | product::Kind::Interference
                    )
                })
                .map(|v| fail(run::kind(v.kind), format!("{:?}: {}", a, v.what), dump()))
                .collect();
            if fs.is_empty() {
                Leaf::Ok
            } else {
                Leaf::Bad(fs)
            }
        }
    }
}

/// Fixed constraints name listed registers or fixed stack slots; only registers are reused.
fn fixed_listed(c: &Case) -> bool {
    let all = product::allocatable(&c.env);
    let stack = |p| product::is_fixed_stack(&c.env, p);
    c.func.insts.iter().all(|i| {
        i.ops.iter().all(|o| match o.constraint() {
            OperandConstraint::FixedReg(p) => {
                o.as_fixed_nonallocatable().is_some() || all.contains(p) || stack(p)
            }
            OperandConstraint::Reuse(j) => {
                !matches!(i.ops[j].constraint(), OperandConstraint::FixedReg(p) if stack(p))
            }
            _ => true,
        })
    })
}

fn sp(mut s: Scope, algos: &'static [Algo]) -> Space {
    s.feasible_only = false;
    let bounds = format!(
        "instructions {}{}, operands per instruction <= {}, alphabet {}, shapes {}, cfgs {:?}, envs {}",
        s.max_insts,
        if s.exact_insts { " (exactly)" } else { " at most" },
        s.any_inst.as_ref().map_or(0, |a| a.max_ops),
        s.any_inst.as_ref().map_or(0, |a| a.alpha.len()),
        s.shapes.len(),
        s.cfgs.iter().map(|c| c.name).collect::<Vec<_>>(),
        s.envs.len()
    );
    space(s.name.clone(), bounds, move |t, ch| {
        let a = *ch.pick(algos);
        match s.build(ch) {
            Some(c) if feas::supported(&c.func, a) && fixed_listed(&c) => judge(&c, a, t),
            _ => Leaf::Pruned,
        }
    })
}

const BOTH: &[Algo] = &[Algo::Ion, Algo::Fast];
const ION: &[Algo] = &[Algo::Ion];

pub fn p08(tier: Tier) -> Prop {
    let th = tier.thorough();
    let mut v = vec![];
    let regs = |n: usize| EnvSpec::ints(&(0..n).collect::<Vec<_>>(), &[]);
    let any = |max_ops: usize, alpha: Vec<O>, clobbers: Vec<Vec<usize>>| {
        Some(AnyInst {
            max_ops,
            alpha,
            reuse: true,
            clobbers,
        })
    };
    // every operand list over one, two and three registers
    let mut s = Scope::new("one-inst");
    s.envs = vec![regs(1), regs(2), EnvSpec::ints(&[1], &[0])];
    s.any_inst = any(
        tier.pick(4, 5),
        vec![
            u(Any),
            u(Reg),
            u(Fix(0)),
            u(Fix(1)),
            ul(Reg),
            ul(Fix(0)),
            d(Reg),
            d(Fix(1)),
            de(Reg),
            de(Fix(0)),
        ],
        vec![vec![], vec![0]],
    );
    s.first = vec![sh(&[d(Any), d(Any)]), sh(&[d(Any)])];
    s.max_insts = 2;
    s.max_per_block = 2;
    s.exact_insts = true;
    s.ret = Ret::All(Any);
    v.push(sp(s, BOTH));
    // more values than registers
    let mut s = Scope::new("one-inst-wide");
    s.envs = vec![regs(2), regs(3), EnvSpec::ints(&[0], &[1, 2])];
    s.any_inst = any(
        tier.pick(5, 6),
        vec![u(Reg), ul(Reg), d(Reg), de(Reg)],
        vec![vec![], vec![0], vec![1, 2]],
    );
    s.first = vec![sh(&[d(Any), d(Any), d(Any), d(Any)])];
    s.max_insts = 2;
    s.max_per_block = 2;
    s.exact_insts = true;
    s.ret = Ret::None;
    v.push(sp(s, BOTH));
    // two demanding instructions in a row, values live across
    let mut s = Scope::new("two-insts");
    s.envs = vec![regs(2)];
    s.any_inst = any(
        3,
        vec![u(Reg), u(Fix(0)), ul(Reg), d(Reg), de(Reg), d(Fix(1))],
        vec![vec![]],
    );
    s.first = vec![sh(&[d(Any), d(Any), d(Any)])];
    s.max_insts = 3;
    s.max_per_block = 3;
    s.exact_insts = true;
    s.ret = Ret::All(Any);
    if !th {
        s.any_inst.as_mut().unwrap().alpha = vec![u(Reg), ul(Reg), d(Reg), de(Fix(0))];
    }
    v.push(sp(s, BOTH));
    // demands inside control flow, with block parameters
    let mut s = Scope::new("flow");
    s.envs = vec![regs(1), regs(2)];
    s.shapes = vec![
        sh(&[u(Reg), u(Reg)]),
        sh(&[u(Reg), u(Reg), u(Reg)]),
        sh(&[d(Reg), ul(Reg)]),
        sh(&[d(Reg), d(Reg), d(Reg)]),
        sh(&[ul(Reg)]).clob(&[0, 1]),
        sh(&[d(Any), ul(Any)]).clob(&[0, 1]),
        sh(&[u(Fix(0)), u(Fix(1))]),
    ];
    s.first = vec![sh(&[d(Any), d(Any), d(Any)])];
    s.cfgs = cfgs_small()[1..].to_vec();
    s.max_insts = tier.pick(2, 3);
    s.max_per_block = 1;
    s.max_params = 1;
    s.ret = Ret::All(Any);
    v.push(sp(s, BOTH));
    // ... and on terminators
    let mut s = Scope::new("terminators");
    s.envs = vec![regs(1), regs(2)];
    s.shapes = vec![sh(&[u(Reg)]), sh(&[]).clob(&[0, 1])];
    s.first = vec![sh(&[d(Any), d(Any), d(Any)])];
    s.branch_ops = vec![
        sh(&[]),
        sh(&[u(Reg), u(Reg)]),
        sh(&[u(Reg), u(Reg), u(Reg)]),
        sh(&[u(Reg), ul(Reg)]),
        sh(&[ul(Reg)]).clob(&[0, 1]),
        sh(&[u(Reg), u(Fix(0))]),
    ];
    s.ret = Ret::Shapes(vec![
        sh(&[]),
        sh(&[u(Reg), u(Reg)]),
        sh(&[u(Reg), u(Reg), u(Reg)]),
        sh(&[ul(Reg), u(Fix(0))]),
    ]);
    s.cfgs = vec![cfg("two", &[&[1], &[]]), cfg("split", &[&[1, 2], &[], &[]])];
    s.max_insts = tier.pick(2, 3);
    s.max_per_block = 1;
    v.push(sp(s, BOTH));
    // register limits
    let mut s = Scope::new("limits");
    s.envs = vec![
        regs(2),
        EnvSpec::ints(&[1, 2], &[0]),
        EnvSpec::ints(&[2, 3], &[]),
    ];
    s.any_inst = any(
        tier.pick(4, 5),
        vec![
            u(Lim(1)),
            u(Lim(2)),
            u(Lim(4)),
            u(Reg),
            ul(Lim(2)),
            d(Lim(1)),
            d(Lim(2)),
            d(Reg),
            de(Lim(2)),
        ],
        vec![vec![], vec![0]],
    );
    s.first = vec![sh(&[d(Any), d(Any)])];
    s.max_insts = 2;
    s.max_per_block = 2;
    s.exact_insts = true;
    s.ret = Ret::All(Any);
    if !th {
        s.any_inst.as_mut().unwrap().alpha = vec![
            u(Lim(1)),
            u(Lim(2)),
            u(Reg),
            ul(Lim(2)),
            d(Lim(1)),
            de(Lim(2)),
        ];
    }
    v.push(sp(s, ION));
    // register classes: one of them without any register
    let mut s = Scope::new("classes");
    s.envs = vec![
        regs(1).class(1, &[0], &[]),
        regs(2),
        EnvSpec::default().class(1, &[0, 1], &[]),
        EnvSpec::default(),
    ];
    s.any_inst = any(
        tier.pick(3, 4),
        vec![
            u(Reg),
            u(Reg).c(1),
            u(Any).c(1),
            ul(Reg).c(1),
            d(Reg),
            d(Reg).c(1),
            d(Any),
            de(Reg).c(1),
        ],
        vec![vec![]],
    );
    s.first = vec![sh(&[d(Any), d(Any).c(1)])];
    s.max_insts = 2;
    s.max_per_block = 2;
    s.exact_insts = true;
    s.ret = Ret::All(Any);
    v.push(sp(s, BOTH));
    // fixed stack slots and stack operands demand no register
    let mut s = Scope::new("stack");
    s.envs = vec![
        regs(1).stack(&[(8, 0), (9, 0)]),
        regs(1).stack(&[(8, 0), (9, 0)]).scratch(0, 5),
        regs(2).stack(&[(8, 0), (9, 0)]).scratch(0, 5),
    ];
    s.any_inst = any(
        tier.pick(3, 4),
        vec![
            u(Reg),
            u(Fix(8)),
            u(Stack),
            u(Any),
            ul(Fix(9)),
            d(Reg),
            d(Fix(8)),
            d(Stack),
            de(Reg),
            ul(Reg),
        ],
        vec![vec![], vec![0]],
    );
    s.first = vec![sh(&[d(Any), d(Any)])];
    s.max_insts = 2;
    s.max_per_block = 2;
    s.exact_insts = true;
    s.ret = Ret::All(Any);
    v.push(sp(s, BOTH));
    Prop {
        note: "every function of each scope, demands met or not, goes through the real allocator; the answer is judged by \
               a brute-force search for an assignment of registers to each instruction's operands, and returned \
               allocations by the product checker's constraint and interference rules; nontrivial = rejected with \
               TooManyLiveRegs",
        assumptions: &[
            "one unavoidable ambiguity is left open: demands which can be met only by letting several operands share a \
             register, or (single-pass allocator) only in a particular operand order, may be accepted or rejected",
            "fixed operands name each register at most once per position, as documented",
        ],
        spaces: v,
    }
}
