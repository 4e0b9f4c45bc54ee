//! P11: a reused context against a fresh one. P12: results do not depend on logging, validation or labels.

use super::Prop;
use crate::ctx::*;
use crate::explore::*;
use crate::gen::Con::*;
use crate::gen::*;
use crate::ir::*;
use crate::run::{self, Algo};
use crate::{scopes, text};
use regalloc2::*;
use std::sync::Arc;

/// The comparable part of a result.
pub enum R {
    Ok(Output),
    Err(RegAllocError),
    Panic(String),
}

pub fn out_eq(a: &Output, b: &Output) -> bool {
    a.num_spillslots == b.num_spillslots
        && a.edits.len() == b.edits.len()
        && a.edits.iter().zip(&b.edits).all(|((p, e), (q, f))| {
            let (Edit::Move { from, to }, Edit::Move { from: g, to: h }) = (e, f);
            p == q && from == g && to == h
        })
        && a.allocs == b.allocs
        && a.inst_alloc_offsets == b.inst_alloc_offsets
        && a.debug_locations == b.debug_locations
}

fn stats(o: &Output) -> String {
    format!("{:?}", o.stats)
}

impl R {
    fn name(&self) -> String {
        match self {
            R::Ok(o) => format!("{:?}", o),
            R::Err(e) => format!("{:?}", e),
            R::Panic(p) => format!("panic: {}", p),
        }
    }
    fn same(&self, o: &R, with_stats: bool) -> bool {
        match (self, o) {
            (R::Ok(a), R::Ok(b)) => out_eq(a, b) && (!with_stats || stats(a) == stats(b)),
            (R::Err(a), R::Err(b)) => format!("{:?}", a) == format!("{:?}", b),
            (R::Panic(a), R::Panic(b)) => a == b,
            _ => false,
        }
    }
}

fn fresh(f: &Func, env: &MachineEnv, o: &RegallocOptions) -> R {
    match run::alloc_opts(f, env, o) {
        run::Res::Ok(o) => R::Ok(o),
        run::Res::Err(e) => R::Err(e),
        run::Res::Panic(p) => R::Panic(p),
    }
}

/// Run in `ctx`; `take` moves the output out, as clients do.
fn reuse(ctx: &mut Ctx, f: &Func, env: &MachineEnv, o: &RegallocOptions, take: bool) -> R {
    let r = run::guard(|| match regalloc2::run_with_ctx(f, env, o, ctx) {
        Ok(out) => Ok(if take { Output::default() } else { out.clone() }),
        Err(e) => Err(e),
    });
    match r {
        Ok(Ok(_)) if take => R::Ok(std::mem::take(&mut ctx.output)),
        Ok(Ok(o)) => R::Ok(o),
        Ok(Err(e)) => R::Err(e),
        Err(p) => R::Panic(p),
    }
}

pub struct Item {
    pub name: &'static str,
    pub func: Func,
    pub env: MachineEnv,
    pub opts: RegallocOptions,
}

fn item(name: &'static str, algo: Algo, env: EnvSpec, t: &str) -> Item {
    Item {
        name,
        func: text::func(t, ""),
        env: env.build(),
        opts: algo.options(),
    }
}

fn regs(n: usize) -> EnvSpec {
    EnvSpec::ints(&(0..n).collect::<Vec<_>>(), &[])
}

/// Functions that leave very different scratch state behind.
pub fn pool() -> Vec<Item> {
    use Algo::*;
    let mut v = vec![
        item("tiny", Ion, regs(2), "e: "),
        item("line", Ion, regs(2), "e: d0:r | d1:r u0:r | u0:a u1:a"),
        item(
            "spills",
            Ion,
            regs(2),
            "e: d0:r | d1:r | d2:r | d3:r | u0:r u1:r | u2:r u3:r | d4:=1 u0:r | u0:a u1:a u2:a u3:a u4:a",
        ),
        item(
            "loop",
            Ion,
            regs(2),
            "e -> h(0,1): d0:r d1:r\n h(2,3) -> b x: d4:=1 u2:r | !0 !1 | \n b -> h(3,4): u4:f0\n x: u2:a u3:a u1:a",
        ),
        item(
            "swap",
            Ion,
            regs(3),
            "e -> h(0,1,2): d0:f0 d1:f1 d2:f2\n h(3,4,5) -> b x: u3:r u4:r u5:r | \n b -> h(4,5,3): !0 !1 !2 | \n x: u3:a u4:a u5:a",
        ),
        item(
            "multi-fixed",
            Ion,
            regs(3),
            "e: d0:r d1:r | u0:f0 u0:f1 u1:r | u0:f1 u0:r | !0 !1 !2 | u0:a u1:a",
        ),
        item(
            "multi-fixed-two",
            Ion,
            regs(2),
            "e: d0:a | u0:f0 u0:f1 | d1:r | u0:f1 u0:f0 | u1:a",
        ),
        item(
            "classes",
            Ion,
            regs(2).class(1, &[0, 1], &[]).class(2, &[0], &[1]),
            "e: d0:a d1f:a d2v:a | d3f:r | d4v:r u2v:r | !0 !1 !0f !1f !0v | u0:r u1f:r u3f:r | u2v:a u4v:a u1f:a",
        ),
        item(
            "fixed-stack",
            Ion,
            regs(1).stack(&[(8, 0), (9, 0)]),
            "e: d0:f8 d1:r | u1:f9 | u0:r | d2:f8 u0:a | u0:a u1:a u2:f8",
        ),
        item(
            "fixed-stack-two-moves",
            Ion,
            regs(2).stack(&[(8, 0), (9, 0)]),
            "e: d0:f8 d1:f9 | !0 !1 | u0:f9 u1:f8 | !0 !1 | u0:r u1:r",
        ),
        item(
            "scratch",
            Ion,
            regs(1).stack(&[(8, 0)]).scratch(0, 5),
            "e: d0:f8 d1:a | !0 | u1:f8 | u0:a u1:r",
        ),
        item("limit", Ion, regs(3), "e: d0:l2 d1:r | u0:l1 | u1:l2 u0:l2 | u0:a"),
        item(
            "unreachable",
            Ion,
            regs(2),
            "e -> j(0): d0:r\n u -> j(1): d1:r\n j(2): u2:r",
        ),
        // one value in every block, many blocks
        item(
            "nested",
            Ion,
            regs(2),
            "e -> a: d0:r d1:r\n a -> b z: u0:r | \n b -> c: !0 !1 | \n c -> d f: u1:r | \n d -> c: d2:r | u2:r | \n f -> a: u0:f1 | \n z: u0:a u1:a",
        ),
        item("too-many", Ion, regs(1), "e: d0:r | d1:r | d2:r | d3:r u0:r | u0:r u1:r | u2:a"),
        item(
            "too-many-late",
            Ion,
            regs(2),
            "e -> b(0): d0:a d1:a d2:a | u0:f0 u0:f1 | \n b(3): u3:r | U0:r U1:r U2:r | u0:a",
        ),
        item("crit-edge", Ion, regs(2), "e -> b c: \n b -> c: \n c: "),
        item(
            "branch-operand",
            Ion,
            regs(2),
            "e -> b c: d0:r | \n b -> d: u0:r\n c -> d: \n d: ",
        ),
        item("entry-livein", Ion, regs(2), "e -> b: d1:r | \n b: u0:r u1:r | u0:a"),
        item(
            "fast",
            Fast,
            regs(2),
            "e -> b(0): d0:r d1:r | !0 !1 | \n b(2): u2:r u1:r | u1:a u2:a",
        ),
        item("fast-error", Fast, regs(1), "e: d0:a d1:a | u0:r u1:r | u0:a"),
    ];
    let mut big = item(
        "large-numbers",
        Ion,
        regs(2),
        "e -> l r: d0:r d1:r d2:a | \n l -> j(0): u1:r | !0 !1 | \n r -> j(2): u2:r | \n j(3): u3:r u0:r | u1:a",
    );
    big.func.spread(70);
    v.push(big);
    let mut lab = item(
        "labels",
        Ion,
        regs(2),
        "e: d0:r | d1:r | !0 !1 | u0:r | d2:r u1:r | u0:a u2:a",
    );
    let r = |n: usize| VReg::new(n, I);
    lab.func.labels = vec![
        (r(0), Inst::new(1), Inst::new(5), 7),
        (r(1), Inst::new(0), Inst::new(4), 3),
        (r(2), Inst::new(2), Inst::new(6), 7),
    ];
    let mut flab = item(
        "fast-labels",
        Fast,
        regs(2),
        "e: d0:r | d1:r | !0 !1 | u0:r | u1:r | u0:a",
    );
    flab.func.labels = vec![
        (r(0), Inst::new(1), Inst::new(4), 1),
        (r(1), Inst::new(1), Inst::new(6), 2),
    ];
    v.push(lab);
    v.push(flab);
    let mut ssa = item("ssa-error", Ion, regs(2), "e: d0:r | d0:r | u0:a");
    ssa.opts.validate_ssa = true;
    v.push(ssa);
    let mut val = item("validated", Ion, regs(2), "e: d0:r | d1:r u0:r | u1:a");
    val.opts.validate_ssa = true;
    v.push(val);
    let mut log = item(
        "verbose",
        Ion,
        regs(2),
        "e: d0:r | d1:r | d2:r | u0:r u1:r | u2:r u0:r | u1:a",
    );
    log.opts.verbose_log = true;
    v.push(log);
    let mut last = item(
        "slot-sizes",
        Ion,
        regs(1).class(1, &[0], &[]),
        "e: d0:a d1f:a | d2:a d3f:a | !0 !0f | u0:r u1f:r | u2:r u3f:r | u0:a u1f:a",
    );
    last.func.slot_size = [1, 4, 2];
    last.func.last_slot = true;
    v.push(last);
    let mut multi = item(
        "multi-def",
        Ion,
        regs(2),
        "e: d0:r d0:r | d1:r d1:r u0:r | u0:a u1:a",
    );
    multi.func.multi_defs = true;
    v.push(multi);
    v
}

fn compare(
    what: &str,
    got: R,
    want: &R,
    with_stats: bool,
    dump: impl FnOnce() -> String,
) -> Option<Failure> {
    if got.same(want, with_stats) {
        return None;
    }
    Some(fail(
        "Differs",
        what.to_string(),
        format!("{}got\n{}\nwant\n{}\n", dump(), got.name(), want.name()),
    ))
}

pub fn p11(tier: Tier) -> Prop {
    let mut spaces = vec![];
    // An input that panics is another property's business, and its context cannot be used again.
    let pool: Vec<Item> = pool()
        .into_iter()
        .filter(|i| match fresh(&i.func, &i.env, &i.opts) {
            R::Panic(p) => {
                println!("left out: {}: {}", i.name, p);
                false
            }
            _ => true,
        })
        .collect();
    let pool = Arc::new(pool);
    let want: Arc<Vec<R>> = Arc::new(
        pool.iter()
            .map(|i| fresh(&i.func, &i.env, &i.opts))
            .collect(),
    );
    let depth = tier.pick(4, 5);
    {
        let (pool, want) = (pool.clone(), want.clone());
        spaces.push(space(
            "histories",
            format!(
                "every history of {} runs over {} functions and configurations ({}), after the first with or without \
                 taking the outputs out of the context",
                depth,
                pool.len(),
                pool.iter().map(|i| i.name).collect::<Vec<_>>().join(", ")
            ),
            move |t, ch| {
                let mut ctx = Ctx::default();
                let take = ch.flag();
                let mut hist = vec![];
                for _ in 0..depth {
                    let k = ch.choose(pool.len());
                    hist.push(k);
                    let i = &pool[k];
                    let got = reuse(&mut ctx, &i.func, &i.env, &i.opts, take);
                    t.states += 1;
                    t.transitions += 1;
                    let h = || hist.iter().map(|&k| pool[k].name).collect::<Vec<_>>().join(", ");
                    if let Some(f) = compare(
                        &format!("run {} of a history differs from a fresh run: {}", hist.len(), h()),
                        got,
                        &want[k],
                        true,
                        || format!("outputs taken out: {}\n{}{}", take, env_dump(&i.env), i.func.dump()),
                    ) {
                        return Leaf::Bad(vec![f]);
                    }
                }
                t.nontrivial += 1;
                t.sample(|| hist.iter().map(|&k| pool[k].name).collect::<Vec<_>>().join(", "));
                Leaf::Ok
            },
        ));
    }
    // Every function of a scope after each of the pool, and again after itself.
    let names: &[&str] = tier.pick(
        &[
            "line-evict",
            "line-multi-constraint",
            "cfg-large",
            "fixed-stack",
            "classes-cfg",
            "limit",
        ],
        &[
            "line-",
            "cfg-basic",
            "cfg-large",
            "cfg-branch",
            "cfg-params",
            "fixed-stack",
            "classes",
            "limit",
            "high-regs",
            "nonalloc",
        ],
    );
    for e in scopes::all(Tier::Quick) {
        if !names.iter().any(|n| e.scope.name.starts_with(n))
            || e.scope.name == "cfg-large-params"
            || e.scope.name == "fixed-stack-cfg"
        {
            continue;
        }
        let sc = e.scope;
        let ion_only = e.who == scopes::Who2::IonOnly;
        let (pool, want) = (pool.clone(), want.clone());
        spaces.push(space(
            format!("after {}", sc.name),
            format!(
                "every function of the allocation scope {} in a context used before for each of the {} pool functions, \
                 for itself and for itself by the other algorithm",
                sc.name,
                pool.len()
            ),
            move |t, ch| {
                let case = match sc.build(ch) {
                    None => return Leaf::Pruned,
                    Some(c) => c,
                };
                let o = Algo::Ion.options();
                let mut w = match run::alloc_opts(&case.func, &case.env, &o) {
                    run::Res::Ok(o) => R::Ok(o),
                    run::Res::Err(e) => R::Err(e),
                    run::Res::Panic(p) => return bad("Panic", p, case.dump()),
                };
                if let R::Ok(out) = &mut w {
                    if out.edits.is_empty() {
                        // nothing for the context to get wrong in move insertion: only the next run is compared
                        t.states += 1;
                    } else {
                        t.nontrivial += 1;
                    }
                }
                let mut ctx = Ctx::default();
                let mut fs = vec![];
                for k in 0..pool.len() + 2 {
                    let name = if k < pool.len() {
                        let i = &pool[k];
                        let g = reuse(&mut ctx, &i.func, &i.env, &i.opts, k % 2 == 1);
                        fs.extend(compare(
                            &format!("{} differs from a fresh run after the function below", i.name),
                            g,
                            &want[k],
                            true,
                            || case.dump(),
                        ));
                        i.name
                    } else if k == pool.len() {
                        "itself"
                    } else if !ion_only {
                        let _ = reuse(&mut ctx, &case.func, &case.env, &Algo::Fast.options(), false);
                        "the single-pass allocator"
                    } else {
                        "itself twice"
                    };
                    let g = reuse(&mut ctx, &case.func, &case.env, &o, k % 3 == 1);
                    t.states += 2;
                    t.transitions += 2;
                    fs.extend(compare(
                        &format!("differs from a fresh run after {}", name),
                        g,
                        &w,
                        false,
                        || case.dump(),
                    ));
                    if !fs.is_empty() {
                        return Leaf::Bad(fs);
                    }
                }
                Leaf::Ok
            },
        ));
    }
    // Ordered pairs of functions of one scope.
    let pairs: Vec<Scope> = {
        let mut a = Scope::new("pairs-line");
        a.envs = vec![EnvSpec::ints(&[0, 1], &[])];
        a.shapes = vec![
            sh(&[u(Reg)]),
            sh(&[u(Fix(0)), u(Fix(1)).same(0)]),
            sh(&[d(Reuse(1)), u(Reg)]),
            sh(&[]).clob(&[0, 1]),
            sh(&[u(Stack)]),
        ];
        a.first = vec![sh(&[d(Reg)]), sh(&[d(Any), d(Any)]), sh(&[d(Stack)])];
        a.max_insts = 3;
        a.max_per_block = 3;
        a.ret = Ret::All(Any);
        let mut b = Scope::new("pairs-cfg");
        b.envs = vec![EnvSpec::ints(&[0, 1], &[])];
        b.shapes = vec![sh(&[u(Reg)]), sh(&[]).clob(&[0, 1])];
        b.first = vec![sh(&[d(Reg)]), sh(&[d(Any), d(Any)])];
        b.cfgs = cfgs_small();
        b.max_insts = tier.pick(1, 2);
        b.max_per_block = 1;
        b.max_params = 1;
        b.ret = Ret::All(Any);
        vec![a, b]
    };
    for sc in pairs {
        spaces.push(space(
            sc.name.clone(),
            "every ordered pair of functions of a small scope, the second compared with a fresh run".to_string(),
            move |t, ch| {
                let a = match sc.build(ch) {
                    None => return Leaf::Pruned,
                    Some(c) => c,
                };
                let b = match sc.build(ch) {
                    None => return Leaf::Pruned,
                    Some(c) => c,
                };
                let o = Algo::Ion.options();
                let w = fresh(&b.func, &b.env, &o);
                let mut ctx = Ctx::default();
                let _ = reuse(&mut ctx, &a.func, &a.env, &o, false);
                let g = reuse(&mut ctx, &b.func, &b.env, &o, false);
                t.states += 2;
                t.transitions += 2;
                t.nontrivial += 1;
                compare("differs from a fresh run after another function", g, &w, false, || {
                    format!("first\n{}then\n{}", a.dump(), b.dump())
                })
                .map_or(Leaf::Ok, |f| Leaf::Bad(vec![f]))
            },
        ));
    }
    Prop {
        note: "the same inputs are run in a reused and in a fresh context and the complete outputs (allocations, moves, \
               frame, debug locations, statistics) or errors are compared; nontrivial = histories of full length, or \
               functions whose output has moves",
        assumptions: &["no earlier run panicked"],
        spaces,
    }
}

pub fn p12(tier: Tier) -> Prop {
    install_logger();
    let mut spaces = vec![];
    let names: &[&str] = tier.pick(
        &[
            "line-evict",
            "line-multi-constraint",
            "line-early-late",
            "cfg-basic",
            "cfg-large",
            "fixed-stack",
            "classes-cfg",
            "cfg-branch-ops",
            "limit",
        ],
        &[
            "line-",
            "one-inst",
            "cfg-",
            "fixed-stack",
            "classes",
            "slot-sharing",
            "limit",
            "high-regs",
            "nonalloc",
            "multi-def",
        ],
    );
    for e in scopes::all(Tier::Quick) {
        let sc = e.scope;
        if !names.iter().any(|n| sc.name.starts_with(n))
            || !tier.thorough() && (sc.name == "cfg-large-params" || sc.name == "fixed-stack-cfg")
        {
            continue;
        }
        let who = e.who;
        let multi = sc.multi_defs;
        spaces.push(space(
            format!("options {}", sc.name),
            format!(
                "every function of the allocation scope {} run again, with SSA validation, with verbose logging, with \
                 trace-level logging on, and with debug labels on every value",
                sc.name
            ),
            move |t, ch| {
                let case = match sc.build(ch) {
                    None => return Leaf::Pruned,
                    Some(c) => c,
                };
                let mut fs = vec![];
                for a in run::BOTH {
                    if who == scopes::Who2::IonOnly && a == Algo::Fast || who == scopes::Who2::FastOnly && a == Algo::Ion {
                        continue;
                    }
                    if !crate::feas::supported(&case.func, a) {
                        continue;
                    }
                    let o = a.options();
                    let w = fresh(&case.func, &case.env, &o);
                    if let R::Panic(_) = w {
                        fs.push(fail("Panic", w.name(), case.dump()));
                        continue;
                    }
                    let mut go = |what: &str, f: &Func, o: &RegallocOptions, loc: bool, trace: bool| {
                        t.states += 1;
                        t.transitions += 1;
                        let was = trace.then(|| set_trace(true));
                        let mut g = fresh(f, &case.env, o);
                        was.map(|_| set_trace(false));
                        if !loc {
                            if let R::Ok(g) = &mut g {
                                g.debug_locations.clear();
                            }
                        }
                        fs.extend(compare(&format!("{:?}: {} changes the result", a, what), g, &w, false, || {
                            case.dump()
                        }));
                    };
                    go("a second run", &case.func, &o, true, false);
                    if !multi {
                        go(
                            "SSA validation",
                            &case.func,
                            &RegallocOptions {
                                validate_ssa: true,
                                ..a.options()
                            },
                            true,
                            false,
                        );
                    }
                    go(
                        "verbose logging",
                        &case.func,
                        &RegallocOptions {
                            verbose_log: true,
                            ..a.options()
                        },
                        true,
                        false,
                    );
                    go("trace logging", &case.func, &o, true, true);
                    let mut f = case.func.clone();
                    label_all(&mut f, 0);
                    go("labelling every value everywhere", &f, &o, false, false);
                    label_all(&mut f, 1);
                    go("labelling every value over a part of its life", &f, &o, false, false);
                    if let R::Ok(o) = &w {
                        if !o.edits.is_empty() {
                            t.nontrivial += 1;
                            t.sample(|| case.dump());
                        }
                    }
                }
                if fs.is_empty() {
                    Leaf::Ok
                } else {
                    Leaf::Bad(fs)
                }
            },
        ));
    }
    Prop {
        note: "complete outputs of two runs are compared (debug locations excepted where the labels differ; statistics \
               excepted); nontrivial = the output has moves",
        assumptions: &["the log sink formats every message at trace level and drops it"],
        spaces,
    }
}

/// Labels on every value: over the whole function, or over two shorter ranges.
pub fn label_all(f: &mut Func, form: usize) {
    let n = f.insts.len();
    let mut seen = vec![None; f.num_vregs];
    for v in f
        .blocks
        .iter()
        .flat_map(|b| b.params.iter().copied())
        .chain(f.insts.iter().flat_map(|i| {
            i.ops
                .iter()
                .filter(|o| o.as_fixed_nonallocatable().is_none())
                .map(|o| o.vreg())
        }))
    {
        seen[v.vreg()] = Some(v);
    }
    f.labels.clear();
    for v in seen.into_iter().flatten() {
        let k = v.vreg() as u32;
        if form == 0 {
            f.labels.push((v, Inst::new(0), Inst::new(n), k));
        } else {
            f.labels
                .push((v, Inst::new(n / 3), Inst::new(n - n / 3), k));
            f.labels.push((v, Inst::new(n / 2), Inst::new(n), 100 + k));
        }
    }
}

thread_local! {
    static TRACE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

fn set_trace(on: bool) {
    TRACE.with(|t| t.set(on));
}

/// A logger that formats every message and drops it, on the threads that ask for it.
struct Sink;

impl log::Log for Sink {
    fn enabled(&self, m: &log::Metadata) -> bool {
        m.level() < log::Level::Trace || TRACE.with(|t| t.get())
    }
    fn log(&self, r: &log::Record) {
        use std::fmt::Write;
        struct Null;
        impl Write for Null {
            fn write_str(&mut self, _: &str) -> std::fmt::Result {
                Ok(())
            }
        }
        if self.enabled(r.metadata()) {
            let _ = write!(Null, "{}", r.args());
        }
    }
    fn flush(&self) {}
}

/// Switch logging on for this process (P12 only: it costs time).
pub fn install_logger() {
    static SINK: Sink = Sink;
    if log::set_logger(&SINK).is_ok() {
        log::set_max_level(log::LevelFilter::Trace);
    }
}
