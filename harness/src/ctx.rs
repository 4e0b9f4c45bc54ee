//! Running the spaces of a property: exploration, evidence, replay files, known findings, verdict.

use crate::explore::*;
use serde_json::{json, Value};
use std::path::PathBuf;
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn thorough(self) -> bool {
        self == Tier::Thorough
    }
    /// Pick by tier.
    pub fn pick<T>(self, quick: T, thorough: T) -> T {
        match self {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }
    fn name(self) -> &'static str {
        self.pick("quick", "thorough")
    }
}

/// Per-worker counters.
#[derive(Default)]
pub struct Tally {
    pub states: u64,
    pub transitions: u64,
    pub nontrivial: u64,
    seen: u64,
    samples: Vec<String>,
}

impl Tally {
    /// Keep the written-out case now and then.
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        self.seen += 1;
        if matches!(self.seen, 5 | 500) {
            self.samples.push(f());
        }
    }
}

pub struct Local<'a> {
    pub t: Tally,
    sink: &'a Mutex<Tally>,
}

impl Drop for Local<'_> {
    fn drop(&mut self) {
        let mut g = self.sink.lock().unwrap();
        g.states += self.t.states;
        g.transitions += self.t.transitions;
        g.nontrivial += self.t.nontrivial;
        g.samples.append(&mut self.t.samples);
    }
}

pub type Eval = Box<dyn Fn(&mut Tally, &mut Chooser) -> Leaf + Sync + Send>;

/// One finite space of executions, enumerated completely.
pub struct Space {
    pub name: String,
    pub bounds: String,
    pub f: Eval,
}

pub fn space(
    name: impl Into<String>,
    bounds: impl Into<String>,
    f: impl Fn(&mut Tally, &mut Chooser) -> Leaf + Sync + Send + 'static,
) -> Space {
    Space {
        name: name.into(),
        bounds: bounds.into(),
        f: Box::new(f),
    }
}

pub fn fail(kind: impl Into<String>, what: impl Into<String>, dump: impl Into<String>) -> Failure {
    Failure {
        kind: kind.into(),
        what: what.into(),
        dump: dump.into(),
        case: String::new(),
    }
}

pub fn bad(kind: impl Into<String>, what: impl Into<String>, dump: impl Into<String>) -> Leaf {
    Leaf::Bad(vec![fail(kind, what, dump)])
}

pub struct Opts {
    pub prop: String,
    pub tier: Tier,
    pub collect: usize,
    pub only: String,
    pub secs: u64,
    pub write: bool,
}

fn root() -> PathBuf {
    std::env::var("VMC_ROOT")
        .map(PathBuf::from)
        .unwrap_or_else(|_| PathBuf::from("/verif"))
}

struct Known {
    property: String,
    case: String,
    kind: String,
    text: String,
}

fn known_findings() -> Vec<Known> {
    let text = std::fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
    let mut v = vec![];
    for l in text.lines() {
        if let Some(r) = l.strip_prefix("known: ") {
            let mut it = r.splitn(4, ' ');
            let mut get = |k: &str| {
                it.next()
                    .and_then(|x| x.strip_prefix(k))
                    .unwrap_or("")
                    .to_string()
            };
            let (property, case, kind) = (get("property="), get("case="), get("kind="));
            assert!(
                !property.is_empty() && !case.is_empty() && !kind.is_empty(),
                "bad known finding: {}",
                l
            );
            v.push(Known {
                property,
                case,
                kind,
                text: it.next().unwrap_or("").to_string(),
            });
        }
    }
    v
}

fn replay_json(o: &Opts, sp: &str, c: &[u32], f: &Failure) -> Value {
    json!({"property": o.prop, "tier": o.tier.name(), "space": sp, "choices": c, "kind": f.kind,
           "what": f.what, "case": f.dump.lines().collect::<Vec<_>>(),
           "rerun": format!("/verif/check.sh replay <this file>")})
}

fn write_replay(o: &Opts, n: usize, v: &Value) -> String {
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{}-{}.json", o.prop, n));
    std::fs::write(&p, serde_json::to_string_pretty(v).unwrap()).expect("write replay");
    p.display().to_string()
}

pub fn run(o: &Opts, level_note: &str, assumptions: &[&str], spaces: Vec<Space>) -> i32 {
    let t0 = Instant::now();
    let deadline = t0 + Duration::from_secs(o.secs);
    let known = known_findings();
    let mut rows = vec![];
    let mut samples: Vec<Value> = vec![];
    let (mut execs, mut states, mut trans, mut nontriv) = (0u64, 0u64, 0u64, 0u64);
    let mut exhaustive = true;
    let mut violations: Vec<(String, Found)> = vec![];
    let mut known_hit: Vec<String> = vec![];
    for sp in &spaces {
        if !o.only.is_empty() && !sp.name.contains(&o.only) {
            continue;
        }
        let sink = Mutex::new(Tally::default());
        let lim = Limits {
            threads: std::env::var("VMC_THREADS").ok().and_then(|x| x.parse().ok()).unwrap_or(8),
            deadline,
            max_found: o.collect,
            hang: Duration::from_secs(20),
        };
        let name = sp.name.clone();
        let r = explore(
            &lim,
            || Local {
                t: Tally::default(),
                sink: &sink,
            },
            |w, ch| (sp.f)(&mut w.t, ch),
            &|c, w| {
                let f = fail("Hang", w, "");
                let p = if o.write {
                    write_replay(o, 1, &replay_json(o, &name, &c, &f))
                } else {
                    format!("{:?}", c)
                };
                println!("space {}: {}", name, w);
                println!("VIOLATION property={} replay={}", o.prop, p);
                std::process::exit(1);
            },
        );
        let t = sink.into_inner().unwrap();
        println!(
            "space {:34} executions {:>10} pruned {:>9} states {:>11} nontrivial {:>10} exhaustive {} {:.1}s",
            sp.name, r.executions, r.pruned, t.states, t.nontrivial, r.exhaustive, r.wall
        );
        rows.push(
            json!({"space": sp.name, "bounds": sp.bounds, "executions": r.executions,
            "rejected_choices": r.pruned, "states": t.states, "transitions": t.transitions,
            "nontrivial": t.nontrivial, "exhaustive": r.exhaustive, "wall_s": (r.wall * 100.0).round() / 100.0}),
        );
        for s in t.samples.iter().take(1) {
            if samples.len() < 24 {
                samples.push(json!({"space": sp.name, "case": s.lines().collect::<Vec<_>>()}));
            }
        }
        execs += r.executions;
        states += t.states;
        trans += t.transitions;
        nontriv += t.nontrivial;
        let mut stop = false;
        for f in r.found {
            if let Some(k) = known.iter().find(|k| {
                k.property == o.prop
                    && !f.fail.case.is_empty()
                    && k.case == f.fail.case
                    && k.kind == f.fail.kind
            }) {
                let line = format!(
                    "KNOWN-FINDING: property={} {} ({}): {}",
                    o.prop, k.case, k.kind, k.text
                );
                if !known_hit.contains(&line) {
                    println!("{}", line);
                    known_hit.push(line);
                }
            } else {
                stop = true;
                violations.push((sp.name.clone(), f));
            }
        }
        exhaustive &= r.exhaustive;
        if stop && o.collect <= 100 {
            exhaustive = false;
            break;
        }
    }
    if samples.is_empty() {
        samples.push(json!({"note": "no sample reached"}));
    }
    // Report.
    if o.collect > 100 {
        let mut kinds: std::collections::BTreeMap<String, (usize, usize)> = Default::default();
        for (i, (sp, f)) in violations.iter().enumerate() {
            let loc = if f.fail.kind == "Panic" {
                f.fail
                    .what
                    .split("panicked at ")
                    .nth(1)
                    .unwrap_or("")
                    .chars()
                    .take(120)
                    .collect::<String>()
            } else {
                String::new()
            };
            kinds
                .entry(format!("{} {} {}", sp, f.fail.kind, loc))
                .or_insert((0, i))
                .0 += 1;
        }
        for (k, (n, i)) in kinds {
            let f = &violations[i].1;
            println!("{} x {}\n    {}\n    {:?}", n, k, f.fail.what, f.choices);
            for l in f.fail.dump.lines() {
                println!("      {}", l);
            }
        }
    }
    let mut seen_kinds: Vec<String> = vec![];
    let mut lines = vec![];
    for (sp, f) in &violations {
        if seen_kinds.contains(&f.fail.kind) || seen_kinds.len() >= 3 {
            continue;
        }
        seen_kinds.push(f.fail.kind.clone());
        let path = if o.write {
            write_replay(
                o,
                seen_kinds.len(),
                &replay_json(o, sp, &f.choices, &f.fail),
            )
        } else {
            "-".into()
        };
        println!(
            "space {} choices {:?}\n  {}: {}",
            sp, f.choices, f.fail.kind, f.fail.what
        );
        for l in f.fail.dump.lines() {
            println!("    {}", l);
        }
        lines.push(format!("VIOLATION property={} replay={}", o.prop, path));
    }
    if o.write {
        let ev = json!({
            "property": o.prop,
            "tier": o.tier.name(),
            "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1),
            "level": "model_checking",
            "coverage": {
                "states": states,
                "transitions": trans,
                "traces_validated_against_impl": execs,
                "nontrivial_executions": nontriv,
                "exhaustive": exhaustive,
                "spaces": rows,
                "samples": samples,
                "explanation": level_note,
            },
            "assumptions": assumptions,
            "wall_s": t0.elapsed().as_secs_f64(),
            "violations": violations.len(),
        });
        let dir = root().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(
            dir.join(format!("{}.json", o.prop)),
            serde_json::to_string_pretty(&ev).unwrap(),
        )
        .expect("write evidence");
    }
    println!(
        "{} {}: {} executions, {} states, {} transitions, exhaustive {}, {:.1}s",
        o.prop,
        o.tier.name(),
        execs,
        states,
        trans,
        exhaustive,
        t0.elapsed().as_secs_f64()
    );
    for l in &lines {
        println!("{}", l);
    }
    if violations.is_empty() {
        0
    } else {
        1
    }
}

pub fn replay(file: &str, find: impl Fn(&str, Tier) -> Vec<Space>) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("read replay file"))
        .expect("json");
    let prop = v["property"].as_str().unwrap();
    let tier = if v["tier"] == "quick" {
        Tier::Quick
    } else {
        Tier::Thorough
    };
    let c: Vec<u32> = v["choices"]
        .as_array()
        .unwrap()
        .iter()
        .map(|x| x.as_u64().unwrap() as u32)
        .collect();
    for sp in find(prop, tier) {
        if sp.name == v["space"].as_str().unwrap() {
            let mut t = Tally::default();
            match (sp.f)(&mut t, &mut Chooser::replay(&c)) {
                Leaf::Bad(fs) => {
                    for f in fs {
                        println!("{}: {}\n{}", f.kind, f.what, f.dump);
                    }
                    println!("VIOLATION property={} replay={}", prop, file);
                    return 1;
                }
                _ => {
                    println!("replayed: no violation");
                    return 0;
                }
            }
        }
    }
    println!("no such space");
    2
}
