//! Running the real allocators under a panic guard.

use crate::feas;
use crate::gen::Case;
use crate::product::{self, Kind};
use regalloc2::*;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Algo {
    Ion,
    Fast,
}

pub const BOTH: [Algo; 2] = [Algo::Ion, Algo::Fast];

impl Algo {
    pub fn options(self) -> RegallocOptions {
        RegallocOptions {
            verbose_log: false,
            validate_ssa: false,
            algorithm: match self {
                Algo::Ion => Algorithm::Ion,
                Algo::Fast => Algorithm::Fastalloc,
            },
        }
    }
}

thread_local! {
    static PANIC: RefCell<String> = RefCell::new(String::new());
    pub static QUIET: RefCell<bool> = RefCell::new(false);
}

pub fn install_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if QUIET.with(|q| *q.borrow()) {
            PANIC.with(|p| *p.borrow_mut() = format!("{}", info));
        } else {
            old(info);
        }
    }));
}

/// Run `f`, turning a panic into its message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let was = QUIET.with(|q| std::mem::replace(&mut *q.borrow_mut(), true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() = was);
    r.map_err(|_| PANIC.with(|p| p.borrow().replace('\n', " ")))
}

pub enum Res {
    Ok(Output),
    Err(RegAllocError),
    Panic(String),
}

pub fn alloc<F: Function>(f: &F, env: &MachineEnv, a: Algo) -> Res {
    alloc_opts(f, env, &a.options())
}

pub fn alloc_opts<F: Function>(f: &F, env: &MachineEnv, o: &RegallocOptions) -> Res {
    match guard(|| regalloc2::run(f, env, o)) {
        Ok(Ok(o)) => Res::Ok(o),
        Ok(Err(e)) => Res::Err(e),
        Err(p) => Res::Panic(p),
    }
}

pub struct Judged {
    pub stats: product::Stats,
    /// (kind name, description)
    pub bad: Vec<(String, String)>,
    pub edits: usize,
    pub slots: usize,
    pub out: Option<Output>,
}

/// Allocate `case` with `a` and judge the result.
pub fn judge(case: &Case, a: Algo, debug: bool) -> Judged {
    match alloc(&case.func, &case.env, a) {
        Res::Panic(p) => Judged {
            stats: Default::default(),
            bad: vec![(
                "Panic".into(),
                format!("{:?}: panic on a well-formed function: {}", a, p),
            )],
            edits: 0,
            slots: 0,
            out: None,
        },
        Res::Err(RegAllocError::TooManyLiveRegs)
            if a == Algo::Fast
                && !case
                    .func
                    .insts
                    .iter()
                    .all(|i| feas::fast_comfortable(&i.ops, i.clobbers, &case.env)) =>
        {
            Judged {
                stats: Default::default(),
                bad: vec![],
                edits: 0,
                slots: 0,
                out: None,
            }
        }
        Res::Err(e) => Judged {
            stats: Default::default(),
            bad: vec![(
                "Error".into(),
                format!("{:?}: error {:?} on a well-formed, feasible function", a, e),
            )],
            edits: 0,
            slots: 0,
            out: None,
        },
        Res::Ok(out) => {
            let (stats, vs) = product::check(
                &case.func,
                &case.env,
                &out,
                &product::Opts {
                    debug_locs: debug,
                    debug_clipped: a == Algo::Ion,
                },
            );
            Judged {
                stats,
                bad: vs
                    .into_iter()
                    .map(|v| (format!("{:?}", v.kind), format!("{:?}: {}", a, v.what)))
                    .collect(),
                edits: out.edits.len(),
                slots: out.num_spillslots,
                out: Some(out),
            }
        }
    }
}

pub fn is_value(k: &str) -> bool {
    k.starts_with("Value")
}

pub fn kind(k: Kind) -> String {
    format!("{:?}", k)
}
