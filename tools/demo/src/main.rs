//! Allocates the functions of the given files and executes the result on every path, with the values of the
//! original program next to it. Each file: the name of the algorithm, the expected error if any and the words
//! "validate" (validate_ssa), "compare" (the output with validation is that without), "ctx" (the file is run in
//! one context with the others so marked, with the output of a fresh one), "label=N" (label N is reported), then the function (see text.rs).
#![allow(dead_code)]
mod ir;
mod product;
mod text;

use regalloc2::*;

fn main() {
    let mut failed = false;
    let mut ctx = Ctx::default();
    for file in std::env::args().skip(1) {
        let s = std::fs::read_to_string(&file).unwrap();
        let (head, body) = s.split_once('\n').unwrap();
        let mut head = head.split_whitespace();
        let algo = head.next().unwrap();
        let words: Vec<&str> = head.collect();
        let flag = |w: &str| words.contains(&w);
        let expect = words.iter().copied().find(|w| !["validate", "compare", "ctx"].contains(w) && !w.contains('='));
        let (f, env) = text::parse(body);
        let o = RegallocOptions {
            verbose_log: false,
            validate_ssa: flag("validate"),
            algorithm: if algo == "ion" { Algorithm::Ion } else { Algorithm::Fastalloc },
        };
        let mut say = |s: String| {
            failed = true;
            println!("{}: {}", file, s);
        };
        if flag("compare") || flag("ctx") {
            let a = format!("{:?}", regalloc2::run(&f, &env, &o));
            let mut o = o.clone();
            o.validate_ssa = flag("compare");
            let b = match flag("ctx") {
                true => match regalloc2::run_with_ctx(&f, &env, &o, &mut ctx) {
                    Ok(out) => format!("{:?}", Ok::<_, RegAllocError>(out.clone())),
                    Err(e) => format!("{:?}", Err::<Output, _>(e)),
                },
                false => format!("{:?}", regalloc2::run(&f, &env, &o)),
            };
            if a != b {
                say(format!("{}\ninstead of\n{}", b, a));
            }
            continue;
        }
        match regalloc2::run(&f, &env, &o) {
            Err(e) => {
                let e = format!("{:?}", e).replace(' ', "");
                if expect != Some(&e[..]) {
                    say(format!("error {}", e));
                }
            }
            Ok(_) if expect.is_some() => say("no error".to_string()),
            Ok(out) => {
                let opts = product::Opts {
                    debug_locs: !f.labels.is_empty(),
                    debug_clipped: algo == "ion",
                };
                let (_, vs) = product::check(&f, &env, &out, &opts);
                for l in words.iter().filter_map(|w| w.strip_prefix("label=")) {
                    if !out.debug_locations.iter().any(|d| d.0.to_string() == l) {
                        say(format!("label {} is missing: {:?}", l, out.debug_locations));
                    }
                }
                for v in vs {
                    say(format!("{:?}: {}\n{}", v.kind, v.what, ir::out_dump(&f, &out)));
                }
            }
        }
    }
    std::process::exit(failed as i32);
}
