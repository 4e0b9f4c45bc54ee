//! The scopes: which bounded spaces of functions are enumerated, and for which properties.

use crate::ctx::Tier;
use crate::gen::Con::*;
use crate::gen::*;
use crate::ir::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Who2 {
    Both,
    IonOnly,
    FastOnly,
}

pub struct Entry {
    pub scope: Scope,
    pub who: Who2,
    /// properties whose quick check runs this scope
    pub quick: &'static [&'static str],
    /// properties whose thorough check runs this scope
    pub thorough: &'static [&'static str],
}

/// the larger control-flow scopes
const FLOW: &[&str] = &["P01", "P02", "P05"];
const ALL: &[&str] = &["P01", "P02", "P03", "P04", "P05", "P06", "P07"];

fn regs(n: usize) -> EnvSpec {
    EnvSpec::ints(&(0..n).collect::<Vec<_>>(), &[])
}

/// n late definitions with constraint `c`
fn defs(n: usize, c: Con) -> Shape {
    sh(&vec![d(c); n])
}

pub fn all(tier: Tier) -> Vec<Entry> {
    let t = tier.thorough();
    let mut v: Vec<Entry> = vec![];
    let mut add = |scope: Scope,
                   who: Who2,
                   quick: &'static [&'static str],
                   thorough: &'static [&'static str]| {
        v.push(Entry {
            scope,
            who,
            quick,
            thorough,
        });
    };
    let dom = Layouts::Dominance;

    // ---- straight-line code, basic operand alphabet
    let mut s = Scope::new("line-basic");
    s.envs = vec![regs(2)];
    s.shapes = vec![
        sh(&[d(Reg)]),
        sh(&[u(Reg)]),
        sh(&[u(Any)]),
        sh(&[u(Fix(0))]),
        sh(&[d(Fix(0)), u(Fix(0))]).clob(&[1]),
        sh(&[d(Reuse(1)), u(Reg)]),
        sh(&[u(Reg), u(Reg)]),
        sh(&[]).clob(&[0]),
    ];
    s.first = vec![sh(&[d(Any)]), sh(&[d(Fix(0))]), sh(&[d(Reg), d(Reg)])];
    s.max_insts = if t { 5 } else { 4 };
    s.max_per_block = 5;
    s.ret = Ret::Subset(Any);
    add(s, Who2::Both, ALL, ALL);

    // ---- one value, long histories of demands (splits, requirement conflicts)
    let mut s = Scope::new("line-one-value");
    s.envs = vec![regs(2), EnvSpec::ints(&[0], &[1])];
    s.shapes = vec![
        sh(&[u(Reg)]),
        sh(&[u(Fix(0))]),
        sh(&[u(Fix(1))]),
        sh(&[u(Stack)]),
        sh(&[u(Any)]),
        sh(&[]).clob(&[0]),
        sh(&[]).clob(&[0, 1]),
    ];
    s.first = vec![sh(&[d(Any)]), sh(&[d(Reg)]), sh(&[d(Stack)])];
    s.max_insts = if t { 7 } else { 6 };
    s.max_per_block = 8;
    s.exact_insts = true;
    add(s, Who2::Both, ALL, ALL);

    // ---- many values, few registers: eviction and reload patterns
    let mut s = Scope::new("line-evict");
    s.envs = vec![regs(2), regs(1)];
    s.shapes = vec![sh(&[u(Reg)]), sh(&[u(Fix(0))]), sh(&[d(Reuse(1)), u(Reg)])];
    s.first = vec![defs(4, Any)];
    s.max_insts = if t { 6 } else { 5 };
    s.max_per_block = 8;
    s.exact_insts = true;
    s.ret = Ret::All(Any);
    add(s, Who2::Both, ALL, ALL);

    // ---- two operands per instruction over three registers
    let mut s = Scope::new("line-two-ops");
    s.envs = vec![EnvSpec::ints(&[0, 1], &[2])];
    s.shapes = vec![
        sh(&[d(Reg), u(Reg), u(Reg)]),
        sh(&[d(Reuse(1)), u(Reg), u(Any)]),
        sh(&[d(Fix(1)), u(Fix(0)), u(Reg)]),
        sh(&[d(Reg), u(Any)]).clob(&[0, 1]),
    ];
    s.first = vec![defs(2, Reg), sh(&[d(Reg)]), sh(&[d(Fix(0)), d(Fix(1))])];
    s.max_insts = if t { 5 } else { 4 };
    s.max_per_block = 5;
    s.exact_insts = true;
    s.ret = Ret::All(Any);
    add(s, Who2::Both, ALL, ALL);

    // ---- several constraints on one value in one instruction
    let mut s = Scope::new("line-multi-constraint");
    s.envs = vec![regs(2), EnvSpec::ints(&[0, 1, 2], &[])];
    s.shapes = vec![
        sh(&[u(Fix(0)), u(Fix(1)).same(0)]),
        sh(&[u(Fix(1)), u(Any).same(0)]),
        sh(&[u(Fix(0)), u(Reg).same(0)]),
        sh(&[u(Reg), u(Reg).same(0)]),
        sh(&[u(Any), u(Fix(1)).same(0), u(Fix(0)).same(0)]),
        sh(&[u(Fix(0)), u(Fix(1))]),
        sh(&[d(Reuse(1)), u(Reg), u(Reg).same(1)]),
        sh(&[d(Reuse(1)), u(Fix(0)), u(Fix(1)).same(1)]),
        sh(&[d(Reg), u(Fix(0))]),
        sh(&[u(Fix(0)), ul(Fix(1)).same(0)]),
        sh(&[ul(Fix(0)), ul(Fix(1)).same(0)]),
        sh(&[u(Reg), u(Fix(0)), u(Fix(1)).same(1), d(Reuse(0))]),
        sh(&[u(Reg), u(Fix(0)), ul(Fix(1)).same(1), d(Reuse(0))]),
        sh(&[u(Reg), ul(Any).same(0)]),
    ];
    s.first = vec![
        sh(&[d(Any)]),
        sh(&[d(Fix(0)), d(Reg)]),
        sh(&[d(Reg), d(Any)]),
    ];
    s.max_insts = if t { 4 } else { 3 };
    s.max_per_block = 5;
    s.exact_insts = true;
    s.ret = Ret::Subset(Any);
    add(s, Who2::Both, ALL, ALL);

    // ---- several constraints on one value in instructions with clobbers
    let mut s = Scope::new("line-multi-clobber");
    s.envs = vec![regs(2), EnvSpec::ints(&[0, 1, 2], &[]), EnvSpec::ints(&[2, 1], &[0])];
    s.shapes = vec![
        sh(&[u(Fix(0)), ul(Any).same(0)]).clob(&[0]),
        sh(&[u(Fix(0)), ul(Reg).same(0)]).clob(&[0]),
        sh(&[ul(Any), u(Fix(0)).same(0)]).clob(&[0]),
        sh(&[u(Fix(0)), ul(Any).same(0)]).clob(&[0, 1]),
        sh(&[u(Any), ul(Any).same(0)]).clob(&[0, 1, 2]),
        sh(&[u(Reg), ul(Any).same(0), d(Fix(1))]).clob(&[0]),
        sh(&[u(Fix(0)), u(Fix(1)).same(0)]).clob(&[0]),
        sh(&[u(Fix(1)), ul(Fix(0)).same(0)]).clob(&[1]),
        sh(&[u(Fix(0)), u(Any)]).clob(&[0]),
        sh(&[u(Fix(0)), ul(Any), d(Reg)]).clob(&[0]),
        sh(&[d(Fix(0)), d(Fix(1))]),
        sh(&[u(Reg)]),
    ];
    s.first = vec![sh(&[d(Any)]), sh(&[d(Fix(0)), d(Reg)]), sh(&[d(Reg), d(Any)])];
    s.max_insts = if t { 4 } else { 3 };
    s.max_per_block = 5;
    s.exact_insts = true;
    s.ret = Ret::Subset(Any);
    add(s, Who2::Both, ALL, ALL);

    // ---- mixes with a stack-constrained use
    let mut s = Scope::new("line-stack");
    s.envs = vec![regs(2)];
    s.shapes = vec![
        sh(&[u(Stack)]),
        sh(&[d(Stack)]),
        sh(&[u(Reg)]),
        sh(&[d(Reg)]),
        sh(&[u(Stack), u(Stack)]),
        sh(&[u(Fix(0)), u(Stack)]),
        sh(&[d(Stack), u(Reg)]),
        sh(&[ul(Stack), d(Reg)]),
    ];
    s.first = vec![sh(&[d(Stack)]), sh(&[d(Reg), d(Stack)]), sh(&[d(Any)])];
    s.max_insts = if t { 5 } else { 4 };
    s.max_per_block = 5;
    s.ret = Ret::Subset(Stack);
    add(s, Who2::Both, ALL, ALL);

    // ---- early and late positions, clobbers, dead definitions
    let mut s = Scope::new("line-early-late");
    s.envs = vec![regs(2), regs(3)];
    s.shapes = vec![
        sh(&[de(Reg), u(Reg)]),
        sh(&[d(Reg), ul(Reg)]),
        sh(&[de(Reg)]),
        sh(&[ul(Reg)]).clob(&[0]),
        sh(&[de(Any), u(Any)]),
        sh(&[d(Fix(0)), ul(Fix(1))]),
        sh(&[de(Fix(1)), u(Reg)]),
        sh(&[d(Reg), de(Reg), u(Reg)]),
        sh(&[d(Any), ul(Any), u(Any)]).clob(&[1]),
        sh(&[u(Reg), d(Fix(0))]).clob(&[1]),
    ];
    s.first = vec![sh(&[d(Reg)]), defs(2, Any), sh(&[de(Reg), d(Reg)])];
    s.max_insts = if t { 4 } else { 3 };
    s.max_per_block = 5;
    s.exact_insts = true;
    s.ret = Ret::Subset(Any);
    add(s, Who2::Both, ALL, ALL);

    // ---- one crowded instruction: every set of up to k operands over a large alphabet
    for (nm, n) in [("one-inst", 2usize), ("one-inst-3", 3)] {
        let mut s = Scope::new(nm);
        s.envs = vec![regs(3), EnvSpec::ints(&[0], &[1, 2])];
        s.any_inst = Some(AnyInst {
            max_ops: if t { n + 2 } else { n + 1 },
            alpha: if n == 2 {
                vec![
                    u(Any),
                    u(Reg),
                    u(Fix(0)),
                    u(Fix(1)),
                    u(Stack),
                    ul(Reg),
                    ul(Any),
                    ul(Fix(2)),
                    d(Any),
                    d(Reg),
                    d(Fix(0)),
                    d(Fix(2)),
                    d(Stack),
                    de(Reg),
                    de(Any),
                    de(Fix(1)),
                ]
            } else {
                vec![
                    u(Any),
                    u(Reg),
                    u(Fix(0)),
                    ul(Reg),
                    d(Reg),
                    d(Fix(0)),
                    de(Reg),
                    ul(Fix(1)),
                ]
            },
            reuse: true,
            clobbers: if n == 2 {
                vec![vec![], vec![0], vec![1, 2]]
            } else {
                vec![vec![], vec![0]]
            },
        });
        s.first = vec![defs(2, Any)];
        s.max_insts = 2;
        s.max_per_block = 2;
        s.exact_insts = true;
        s.ret = Ret::All(Any);
        add(s, Who2::Both, ALL, ALL);
    }

    // ---- control flow
    let mut s = Scope::new("cfg-basic");
    s.envs = vec![regs(2)];
    s.shapes = vec![
        sh(&[d(Reg)]),
        sh(&[u(Reg)]),
        sh(&[]).clob(&[0, 1]),
        sh(&[d(Fix(0)), u(Fix(0))]),
    ];
    s.first = if t {
        vec![sh(&[d(Reg)]), defs(2, Reg)]
    } else {
        vec![sh(&[d(Reg)])]
    };
    s.cfgs = cfgs_small();
    s.max_insts = if t { 4 } else { 3 };
    s.max_per_block = 2;
    s.max_params = 1;
    s.ret = Ret::Subset(Any);
    add(s, Who2::Both, ALL, ALL);

    // ---- every block order
    let mut s = Scope::new("cfg-order");
    s.envs = vec![regs(2)];
    s.shapes = vec![sh(&[u(Reg)]), sh(&[]).clob(&[0, 1]), sh(&[d(Reg)])];
    s.first = vec![sh(&[d(Reg)])];
    s.cfgs = cfgs_small();
    s.max_insts = 3;
    s.max_per_block = 2;
    s.max_params = 1;
    s.layouts = Layouts::All;
    s.ret = Ret::Subset(Any);
    add(s, Who2::IonOnly, FLOW, ALL);
    let mut s = Scope::new("cfg-order-dom");
    s.envs = vec![regs(2)];
    s.shapes = vec![sh(&[u(Reg)]), sh(&[]).clob(&[0, 1]), sh(&[d(Reg)])];
    s.first = vec![sh(&[d(Reg)])];
    s.cfgs = cfgs_small();
    s.max_insts = if t { 4 } else { 3 };
    s.max_per_block = 2;
    s.max_params = 1;
    s.layouts = dom.clone();
    s.ret = Ret::Subset(Any);
    add(s, Who2::FastOnly, ALL, ALL);

    // ---- larger and odder control flow
    let mut s = Scope::new("cfg-large");
    s.envs = vec![regs(2)];
    s.shapes = vec![
        sh(&[u(Reg)]),
        sh(&[]).clob(&[0, 1]),
        sh(&[d(Fix(0)), u(Any)]),
    ];
    s.first = vec![defs(2, Any)];
    s.cfgs = cfgs_large();
    s.max_insts = if t { 4 } else { 3 };
    s.max_per_block = 1;
    s.layouts = Layouts::Identity;
    s.ret = Ret::All(Any);
    add(s, Who2::Both, ALL, ALL);
    let mut s = Scope::new("cfg-large-params");
    s.envs = vec![regs(2)];
    s.shapes = vec![sh(&[u(Reg)]), sh(&[]).clob(&[0, 1])];
    s.first = vec![defs(2, Any)];
    s.cfgs = cfgs_large();
    s.max_insts = if t { 2 } else { 1 };
    s.max_per_block = 1;
    s.max_params = 1;
    s.layouts = Layouts::Identity;
    s.ret = if t { Ret::Subset(Any) } else { Ret::All(Any) };
    add(s, Who2::Both, FLOW, ALL);

    // ---- block-parameter permutations on edges
    let mut s = Scope::new("cfg-params");
    s.envs = if t {
        vec![regs(2), regs(3), regs(2).scratch(0, 3)]
    } else {
        vec![regs(2)]
    };
    s.shapes = vec![sh(&[]).clob(&[0, 1]), sh(&[u(Reg), u(Reg)])];
    s.first = vec![defs(2, Any), sh(&[d(Fix(0)), d(Fix(1))])];
    s.cfgs = cfgs_small()[2..].to_vec();
    s.max_insts = if t { 2 } else { 1 };
    s.max_per_block = 1;
    s.max_params = 2;
    s.ret = Ret::All(Any);
    add(s, Who2::Both, FLOW, ALL);
    let mut s = Scope::new("cfg-params-3");
    s.envs = if t {
        vec![regs(3), regs(2), regs(1)]
    } else {
        vec![regs(3), regs(1)]
    };
    s.shapes = vec![sh(&[]).clob(&[0, 1]), sh(&[u(Reg)])];
    s.first = vec![defs(3, Any)];
    s.cfgs = vec![
        cfg("loop", &[&[1], &[2, 3], &[1], &[]]),
        cfg("two", &[&[1], &[]]),
    ];
    s.exact_params = true;
    s.param_blocks = Some(vec![1]);
    s.max_insts = if t { 3 } else { 2 };
    s.max_per_block = 1;
    s.max_params = 3;
    s.ret = Ret::All(Any);
    add(s, Who2::Both, FLOW, ALL);

    // ---- operands on branches
    let mut s = Scope::new("cfg-branch-ops");
    s.envs = vec![regs(2), EnvSpec::ints(&[0], &[1, 2])];
    s.shapes = vec![sh(&[u(Reg)]), sh(&[]).clob(&[0, 1]), sh(&[d(Reg)])];
    s.first = vec![defs(2, Any)];
    s.cfgs = vec![
        cfg("two", &[&[1], &[]]),
        cfg("split", &[&[1, 2], &[], &[]]),
        cfg("diamond", &[&[1, 2], &[3], &[3], &[]]),
        cfg("loop", &[&[1], &[2, 3], &[1], &[]]),
    ];
    s.branch_ops = vec![
        sh(&[]),
        sh(&[u(Reg)]),
        sh(&[u(Fix(0))]),
        sh(&[u(Any), u(Reg)]),
        sh(&[ul(Reg)]),
        sh(&[d(Any)]),
        sh(&[d(Fix(1)), u(Reg)]),
        sh(&[u(Reg)]).clob(&[0]),
        sh(&[d(Reg)]),
        sh(&[d(Reuse(1)), u(Reg)]),
        sh(&[de(Reg)]),
        sh(&[d(Stack), u(Any)]),
    ];
    s.branch_args_exclude_own_defs = true;
    s.max_insts = if t { 3 } else { 2 };
    s.max_per_block = 1;
    s.max_params = 1;
    s.ret = Ret::All(Any);
    add(s, Who2::Both, ALL, ALL);

    // ---- a branch's own definitions as arguments of its successors (as calls with several continuations use)
    for (name, who, ops) in [
        (
            "cfg-branch-defs",
            Who2::IonOnly,
            vec![
                sh(&[d(Any)]),
                sh(&[d(Reg)]),
                sh(&[d(Fix(1)), u(Reg)]),
                sh(&[d(Reuse(1)), u(Reg)]),
                sh(&[d(Stack), u(Any)]),
                sh(&[d(Any), d(Fix(0)).c(0)]).clob(&[1]),
            ],
        ),
        (
            "cfg-branch-defs-mem",
            Who2::Both,
            vec![
                sh(&[d(Any)]),
                sh(&[d(Stack), u(Any)]),
                sh(&[d(Any), d(Any)]).clob(&[1]),
                sh(&[d(Any), u(Fix(0))]).clob(&[0, 1]),
                sh(&[d(Fix(1)), u(Reg)]),
                sh(&[d(Fix(0)), d(Fix(1))]),
                sh(&[d(Fix(0)), d(Any)]).clob(&[1]),
            ],
        ),
    ] {
        let mut s = Scope::new(name);
        s.envs = vec![regs(2)];
        s.shapes = vec![sh(&[u(Reg)]), sh(&[]).clob(&[0, 1])];
        if t {
            s.envs.push(EnvSpec::ints(&[0], &[1, 2]));
            s.shapes.push(sh(&[d(Reg)]));
        }
        s.first = vec![sh(&[d(Any)])];
        s.cfgs = vec![
            cfg("split", &[&[1, 2], &[], &[]]),
            cfg("diamond", &[&[1, 2], &[3], &[3], &[]]),
            cfg("loop", &[&[1], &[2, 3], &[1], &[]]),
        ];
        s.branch_ops = ops;
        s.own_args_need_split = true;
        s.max_insts = if t { 3 } else { 2 };
        s.max_per_block = 1;
        s.max_params = 1;
        s.ret = Ret::Subset(Any);
        add(s, who, ALL, ALL);
    }

    // ---- fixed stack slots, scratch registers
    let mut s = Scope::new("fixed-stack");
    s.envs = vec![
        regs(2).stack(&[(8, 0), (9, 0)]),
        regs(1).stack(&[(8, 0), (9, 0)]),
        regs(1).stack(&[(8, 0), (9, 0)]).scratch(0, 5),
        regs(2).stack(&[(8, 0), (9, 0)]).scratch(0, 5),
    ];
    s.shapes = vec![
        sh(&[u(Fix(8))]),
        sh(&[d(Fix(9)), u(Any)]),
        sh(&[u(Reg)]),
        sh(&[u(Any), u(Fix(9))]),
        sh(&[]).clob(&[0, 1]),
        sh(&[d(Any), u(Fix(8))]),
    ];
    s.first = vec![
        sh(&[d(Fix(8)), d(Fix(9))]),
        sh(&[d(Fix(8)), d(Reg)]),
        defs(2, Any),
    ];
    s.max_insts = if t { 4 } else { 3 };
    s.max_per_block = 4;
    s.exact_insts = true;
    s.ret = Ret::Shapes(vec![
        sh(&[]),
        sh(&[u(Fix(8)), u(Fix(9))]),
        sh(&[u(Fix(8)), u(Any)]),
    ]);
    add(s, Who2::Both, ALL, ALL);
    let mut s = Scope::new("fixed-stack-cfg");
    s.envs = vec![
        regs(1).stack(&[(8, 0)]),
        regs(2).stack(&[(8, 0)]).scratch(0, 5),
    ];
    s.shapes = vec![sh(&[u(Fix(8))]), sh(&[u(Reg)]), sh(&[]).clob(&[0, 1])];
    s.first = vec![sh(&[d(Fix(8)), d(Any)]), sh(&[d(Any), d(Any)])];
    s.cfgs = cfgs_small()[2..].to_vec();
    s.max_insts = if t { 4 } else { 3 };
    s.max_per_block = 1;
    s.max_params = 1;
    s.ret = Ret::Shapes(vec![sh(&[u(Fix(8))]), sh(&[u(Any), u(Any)])]);
    add(s, Who2::Both, ALL, ALL);

    // ---- register classes, slot sizes and naming
    let two = EnvSpec::ints(&[0, 1], &[])
        .class(1, &[0, 1], &[])
        .class(2, &[0], &[]);
    let sizes = vec![[1, 1, 1], [1, 2, 4], [2, 1, 2], [4, 2, 1]];
    let mut s = Scope::new("classes");
    s.envs = vec![two.clone()];
    s.shapes = vec![
        sh(&[u(Reg).c(1)]),
        sh(&[u(Reg)]),
        sh(&[d(Any).c(2)]),
        sh(&[d(Reg).c(1), u(Reg)]),
        sh(&[u(Reg).c(2)]),
        sh(&[]).clobc(&[(0, 0), (1, 0), (0, 1), (1, 1), (0, 2)]),
    ];
    s.first = vec![
        sh(&[d(Any), d(Any).c(1), d(Any).c(2)]),
        sh(&[d(Reg), d(Reg).c(1)]),
        sh(&[d(Any), d(Any), d(Any).c(1)]),
    ];
    s.slot_sizes = sizes.clone();
    s.last_slot = vec![false, true];
    s.max_insts = if t { 5 } else { 4 };
    s.max_per_block = 5;
    s.exact_insts = true;
    s.ret = Ret::All(Any);
    add(s, Who2::Both, ALL, ALL);
    let mut s = Scope::new("classes-cfg");
    s.envs = vec![
        two.clone(),
        two.clone().scratch(0, 5).scratch(1, 5).scratch(2, 5),
    ];
    s.shapes = vec![
        sh(&[u(Reg).c(1)]),
        sh(&[d(Any).c(1)]),
        sh(&[d(Any).c(2), u(Reg)]),
        sh(&[]).clobc(&[(0, 0), (1, 0), (0, 1), (1, 1), (0, 2)]),
    ];
    s.first = vec![sh(&[d(Any), d(Any).c(1), d(Any).c(2)])];
    s.cfgs = cfgs_small()[2..].to_vec();
    s.slot_sizes = vec![[1, 2, 4], [2, 1, 1]];
    s.last_slot = vec![false, true];
    s.max_params = 1;
    s.param_class = 1;
    s.max_insts = if t { 4 } else { 3 };
    s.max_per_block = 1;
    s.ret = Ret::All(Any);
    add(s, Who2::Both, ALL, ALL);
    // Many values spilled at once with disjoint and overlapping lifetimes: slot sharing.
    let mut s = Scope::new("slot-sharing");
    s.envs = vec![EnvSpec::ints(&[0], &[]).class(1, &[0], &[])];
    s.shapes = vec![
        sh(&[d(Any)]),
        sh(&[d(Any).c(1)]),
        sh(&[u(Reg)]),
        sh(&[u(Any).c(1)]),
        sh(&[]).clobc(&[(0, 0), (0, 1)]),
    ];
    s.first = vec![sh(&[d(Any), d(Any).c(1)])];
    s.slot_sizes = vec![[1, 1, 1], [1, 2, 1], [4, 1, 1]];
    s.last_slot = vec![false, true];
    s.max_insts = if t { 7 } else { 6 };
    s.max_per_block = 8;
    s.exact_insts = true;
    add(s, Who2::Both, ALL, ALL);

    // ---- limits (Ion only)
    let mut s = Scope::new("limit");
    s.envs = vec![
        EnvSpec::ints(&[0, 1, 2], &[]),
        EnvSpec::ints(&[1, 2], &[0, 3]),
    ];
    s.shapes = vec![
        sh(&[u(Lim(1))]),
        sh(&[u(Lim(2))]),
        sh(&[d(Lim(2)), u(Reg)]),
        sh(&[d(Reuse(1)), u(Reg), u(Lim(2))]),
        sh(&[u(Lim(1)), u(Lim(2))]),
        sh(&[u(Fix(2))]),
        sh(&[d(Lim(1))]).clob(&[1]),
        sh(&[u(Reg), u(Lim(2)).same(0)]),
        sh(&[ul(Lim(2)), d(Lim(4))]),
    ];
    s.first = vec![
        sh(&[d(Any), d(Any)]),
        sh(&[d(Lim(1))]),
        sh(&[d(Lim(2)), d(Reg)]),
    ];
    s.max_insts = if t { 4 } else { 3 };
    s.max_per_block = 5;
    s.exact_insts = true;
    s.ret = Ret::Subset(Any);
    add(s, Who2::IonOnly, ALL, ALL);

    // ---- high register numbers
    let mut s = Scope::new("high-regs");
    s.envs = vec![
        EnvSpec::ints(&[62, 63], &[])
            .class(1, &[31, 32], &[])
            .class(2, &[0, 63], &[]),
        EnvSpec::ints(&[31], &[32])
            .class(1, &[63], &[0])
            .class(2, &[32], &[31]),
    ];
    s.shapes = vec![
        sh(&[u(Reg).c(1)]),
        sh(&[u(Reg)]),
        sh(&[u(Reg).c(2), d(Reg)]),
        sh(&[d(Reg).c(2), d(Reg).c(1)]),
        sh(&[]).clobc(&[(63, 0), (32, 0), (31, 1), (63, 1), (0, 2), (32, 2)]),
    ];
    s.first = vec![sh(&[d(Any), d(Any), d(Reg).c(1), d(Reg).c(2)])];
    s.max_insts = if t { 6 } else { 5 };
    s.max_per_block = 6;
    s.exact_insts = true;
    s.ret = Ret::All(Any);
    add(s, Who2::Both, ALL, ALL);

    // ---- non-allocatable operands
    let mut s = Scope::new("nonalloc");
    s.envs = vec![regs(2), regs(1)];
    s.shapes = vec![
        sh(&[u(Reg), d(Fix(7)).na(7)]),
        sh(&[d(Fix(7)).na(7), d(Reg)]),
        sh(&[u(Any), u(Fix(6)).na(6), d(Reuse(0))]),
        sh(&[u(Fix(0)), u(Fix(6)).na(6), u(Fix(7)).na(7)]),
        sh(&[]).clob(&[0, 1]),
        sh(&[u(Fix(6)).na(6), d(Reg), u(Reg)]),
    ];
    s.first = vec![sh(&[d(Reg), u(Fix(7)).na(7)]), sh(&[d(Any), d(Any)])];
    s.max_insts = if t { 5 } else { 4 };
    s.max_per_block = 5;
    s.exact_insts = true;
    s.ret = Ret::Subset(Any);
    add(s, Who2::Both, ALL, ALL);

    // ---- several definitions of one value in one instruction
    let mut s = Scope::new("multi-def");
    s.envs = vec![regs(2), EnvSpec::ints(&[0, 1, 2], &[])];
    s.shapes = vec![
        sh(&[d(Reg), d(Reg).same(0)]),
        sh(&[d(Any), d(Any).same(0)]),
        sh(&[d(Reg), d(Reg).same(0), u(Reg)]),
        sh(&[d(Reg), d(Reg), d(Reg).same(0)]),
        sh(&[u(Reg)]),
        sh(&[d(Any), d(Any).same(0), u(Reg)]),
        sh(&[]).clob(&[0, 1]),
    ];
    s.first = vec![sh(&[d(Reg)]), sh(&[d(Reg), d(Reg).same(0)])];
    s.max_insts = if t { 5 } else { 4 };
    s.max_per_block = 5;
    s.exact_insts = true;
    s.multi_defs = true;
    s.ret = Ret::Subset(Any);
    add(s, Who2::IonOnly, ALL, ALL);

    v
}
