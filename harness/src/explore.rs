//! Stateless exhaustive explorer: a generator draws from `Chooser::choose`, and every choice sequence
//! is enumerated by depth-first search. The tree is shared between threads by splitting off the
//! unexplored siblings of a worker's shallowest open choice point.

use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Chooser {
    /// (choice, exclusive upper bound for this subtree, arity)
    path: Vec<(u32, u32, u32)>,
    pos: usize,
}

impl Chooser {
    pub fn root() -> Self {
        Chooser {
            path: vec![],
            pos: 0,
        }
    }
    pub fn replay(choices: &[u32]) -> Self {
        Chooser {
            path: choices.iter().map(|&c| (c, c + 1, 0)).collect(),
            pos: 0,
        }
    }
    #[inline]
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0, "choose(0)");
        if n == 1 {
            return 0;
        }
        let n = n as u32;
        if self.pos < self.path.len() {
            let e = &mut self.path[self.pos];
            if e.2 == 0 {
                e.2 = n;
            }
            assert!(
                e.2 == n && e.0 < n,
                "divergence while replaying a choice prefix"
            );
            self.pos += 1;
            e.0 as usize
        } else {
            self.path.push((0, n, n));
            self.pos += 1;
            0
        }
    }
    pub fn flag(&mut self) -> bool {
        self.choose(2) == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.choose(xs.len())]
    }
    pub fn choices(&self) -> Vec<u32> {
        self.path[..self.pos].iter().map(|x| x.0).collect()
    }
    fn restart(&mut self) {
        self.pos = 0;
    }
    /// Move to the next leaf of this subtree; false when exhausted.
    fn advance(&mut self) -> bool {
        assert!(
            self.path.len() == self.pos,
            "generator stopped inside a choice prefix"
        );
        while let Some(e) = self.path.last_mut() {
            if e.0 + 1 < e.1 {
                e.0 += 1;
                return true;
            }
            self.path.pop();
        }
        false
    }
    /// Give away all remaining siblings of the shallowest open choice point.
    fn split(&mut self) -> Option<Chooser> {
        for i in 0..self.path.len() {
            let (c, hi, n) = self.path[i];
            if c + 1 < hi {
                let mut p: Vec<(u32, u32, u32)> = self.path[..i]
                    .iter()
                    .map(|&(c, _, n)| (c, c + 1, n))
                    .collect();
                p.push((c + 1, hi, n));
                self.path[i].1 = c + 1;
                return Some(Chooser { path: p, pos: 0 });
            }
        }
        None
    }
}

/// Outcome of evaluating one leaf.
pub enum Leaf {
    /// The choices do not form a case of this scope.
    Pruned,
    Ok,
    /// A violation (or known finding) with a description.
    Bad(Vec<Failure>),
}

#[derive(Clone, Debug)]
pub struct Failure {
    pub kind: String,
    pub what: String,
    pub dump: String,
    /// name of a fixed case (only for known-case spaces)
    pub case: String,
}

#[derive(Clone, Debug)]
pub struct Found {
    pub choices: Vec<u32>,
    pub fail: Failure,
}

pub struct Report {
    pub executions: u64,
    pub pruned: u64,
    pub exhaustive: bool,
    pub found: Vec<Found>,
    pub wall: f64,
}

struct Shared {
    queue: Mutex<(Vec<Chooser>, usize)>, // jobs, active workers
    cv: Condvar,
    hungry: AtomicUsize,
    stop: AtomicBool,
    capped: AtomicBool,
    execs: AtomicU64,
    pruned: AtomicU64,
    found: Mutex<Vec<Found>>,
}

pub struct Limits {
    pub threads: usize,
    pub deadline: Instant,
    /// stop after this many failures have been collected
    pub max_found: usize,
    /// a single execution running longer than this is reported as non-termination
    pub hang: Duration,
}

/// What a worker is doing now, for the watchdog.
pub struct Slot {
    pub since_ms: AtomicU64,
    pub choices: Mutex<Vec<u32>>,
}

pub fn explore<W, F>(
    lim: &Limits,
    mk: impl Fn() -> W + Sync,
    f: F,
    on_hang: &(dyn Fn(Vec<u32>, &str) + Sync),
) -> Report
where
    F: Fn(&mut W, &mut Chooser) -> Leaf + Sync,
{
    let t0 = Instant::now();
    let sh = Shared {
        queue: Mutex::new((vec![Chooser::root()], 0)),
        cv: Condvar::new(),
        hungry: AtomicUsize::new(0),
        stop: AtomicBool::new(false),
        capped: AtomicBool::new(false),
        execs: AtomicU64::new(0),
        pruned: AtomicU64::new(0),
        found: Mutex::new(vec![]),
    };
    let slots: Vec<Slot> = (0..lim.threads)
        .map(|_| Slot {
            since_ms: AtomicU64::new(0),
            choices: Mutex::new(vec![]),
        })
        .collect();
    let done = AtomicBool::new(false);
    std::thread::scope(|s| {
        let mut hs = vec![];
        for t in 0..lim.threads {
            let (sh, f, mk, slot) = (&sh, &f, &mk, &slots[t]);
            hs.push(
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        let mut w = mk();
                        loop {
                            let mut g = sh.queue.lock().unwrap();
                            let mut job = loop {
                                if sh.stop.load(Relaxed) {
                                    return;
                                }
                                if let Some(j) = g.0.pop() {
                                    g.1 += 1;
                                    break j;
                                }
                                if g.1 == 0 {
                                    sh.cv.notify_all();
                                    return;
                                }
                                sh.hungry.fetch_add(1, Relaxed);
                                g = sh.cv.wait_timeout(g, Duration::from_millis(20)).unwrap().0;
                                sh.hungry.fetch_sub(1, Relaxed);
                            };
                            drop(g);
                            let mut n = 0u64;
                            loop {
                                job.restart();
                                n += 1;
                                slot.since_ms
                                    .store(t0.elapsed().as_millis() as u64 + 1, Relaxed);
                                if let Ok(mut c) = slot.choices.lock() {
                                    c.clear();
                                    c.extend(job.path.iter().map(|x| x.0));
                                }
                                let leaf = match crate::run::guard(|| f(&mut w, &mut job)) {
                                    Ok(l) => l,
                                    // The code under test, called outside a guard.
                                    Err(p) if !p.starts_with("panicked at src/") => {
                                        Leaf::Bad(vec![Failure {
                                            kind: "Panic".into(),
                                            what: p,
                                            dump: String::new(),
                                            case: String::new(),
                                        }])
                                    }
                                    // The harness itself: no answer.
                                    Err(p) => {
                                        eprintln!("harness error: {p}\nchoices {:?}", job.choices());
                                        std::process::exit(2);
                                    }
                                };
                                match leaf {
                                    Leaf::Pruned => {
                                        sh.pruned.fetch_add(1, Relaxed);
                                    }
                                    Leaf::Ok => {
                                        sh.execs.fetch_add(1, Relaxed);
                                    }
                                    Leaf::Bad(fs) => {
                                        sh.execs.fetch_add(1, Relaxed);
                                        let mut v = sh.found.lock().unwrap();
                                        for fail in fs {
                                            v.push(Found {
                                                choices: job.choices(),
                                                fail,
                                            });
                                        }
                                        if v.len() >= lim.max_found {
                                            sh.stop.store(true, Relaxed);
                                            sh.capped.store(true, Relaxed);
                                        }
                                    }
                                }
                                slot.since_ms.store(0, Relaxed);
                                if sh.stop.load(Relaxed) {
                                    sh.capped.store(true, Relaxed);
                                    break;
                                }
                                if n % 16 == 0 && Instant::now() > lim.deadline {
                                    sh.capped.store(true, Relaxed);
                                    sh.stop.store(true, Relaxed);
                                    break;
                                }
                                if !job.advance() {
                                    break;
                                }
                                if sh.hungry.load(Relaxed) > 0 {
                                    if let Some(j) = job.split() {
                                        sh.queue.lock().unwrap().0.push(j);
                                        sh.cv.notify_one();
                                    }
                                }
                            }
                            let mut g = sh.queue.lock().unwrap();
                            g.1 -= 1;
                            sh.cv.notify_all();
                        }
                    })
                    .unwrap(),
            );
        }
        // Watchdog: non-termination and runaway memory.
        let (done, slots, sh) = (&done, &slots, &sh);
        let _ = sh;
        let wd = s.spawn(move || {
            while !done.load(Relaxed) {
                std::thread::sleep(Duration::from_millis(25));
                let now = t0.elapsed().as_millis() as u64 + 1;
                let mut oldest: Option<(u64, usize)> = None;
                for (i, sl) in slots.iter().enumerate() {
                    let s0 = sl.since_ms.load(Relaxed);
                    if s0 != 0 && oldest.map_or(true, |o| s0 < o.0) {
                        oldest = Some((s0, i));
                    }
                }
                if let Some((s0, i)) = oldest {
                    if now.saturating_sub(s0) > lim.hang.as_millis() as u64 {
                        let c = slots[i]
                            .choices
                            .lock()
                            .map(|c| c.clone())
                            .unwrap_or_default();
                        on_hang(c, "one execution did not terminate");
                    }
                    if now.saturating_sub(s0) > 500 && rss_gb() > 10.0 {
                        let c = slots[i]
                            .choices
                            .lock()
                            .map(|c| c.clone())
                            .unwrap_or_default();
                        on_hang(c, "one execution consumed memory without bound");
                    }
                }
            }
        });
        for h in hs {
            if let Err(e) = h.join() {
                done.store(true, Relaxed);
                std::panic::resume_unwind(e);
            }
        }
        done.store(true, Relaxed);
        let _ = wd.join();
    });
    let mut found = sh.found.into_inner().unwrap();
    found.sort_by(|a, b| (a.choices.len(), &a.choices).cmp(&(b.choices.len(), &b.choices)));
    Report {
        executions: sh.execs.load(Relaxed),
        pruned: sh.pruned.load(Relaxed),
        exhaustive: !sh.capped.load(Relaxed),
        found,
        wall: t0.elapsed().as_secs_f64(),
    }
}

pub fn rss_gb() -> f64 {
    std::fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| {
            s.split_whitespace()
                .nth(1)
                .and_then(|x| x.parse::<f64>().ok())
        })
        .unwrap_or(0.0)
        * 4096.0
        / 1e9
}
