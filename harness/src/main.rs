mod ctx;
mod explore;
mod families;
mod feas;
mod gen;
mod ir;
mod product;
mod props;
mod run;
mod scopes;
mod text;

use ctx::{Opts, Tier};

fn usage() -> ! {
    eprintln!("usage: vmc check <ID> [--tier quick|thorough] [--only STR] [--collect N] [--secs N] [--no-write]\n       vmc replay <file>");
    std::process::exit(2)
}

fn main() {
    run::install_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    match args.first().map(|s| s.as_str()) {
        Some("check") if args.len() >= 2 => {
            let mut o = Opts {
                prop: args[1].clone(),
                tier: Tier::Quick,
                collect: 8,
                only: String::new(),
                secs: 0,
                write: true,
            };
            let mut i = 2;
            while i < args.len() {
                let val = args.get(i + 1).cloned();
                match args[i].as_str() {
                    "--tier" => {
                        o.tier = match val.as_deref() {
                            Some("quick") => Tier::Quick,
                            Some("thorough") => Tier::Thorough,
                            _ => usage(),
                        }
                    }
                    "--only" => o.only = val.unwrap_or_default(),
                    "--collect" => o.collect = val.unwrap().parse().unwrap(),
                    "--secs" => o.secs = val.unwrap().parse().unwrap(),
                    "--no-write" => {
                        o.write = false;
                        i -= 1;
                    }
                    _ => usage(),
                }
                i += 2;
            }
            if o.secs == 0 {
                o.secs = o.tier.pick(300, 780);
            }
            let p = props::find(&o.prop, o.tier).unwrap_or_else(|| usage());
            std::process::exit(ctx::run(&o, p.note, p.assumptions, p.spaces));
        }
        Some("replay") if args.len() == 2 => {
            std::process::exit(ctx::replay(&args[1], |p, t| {
                props::find(p, t).map_or(vec![], |p| p.spaces)
            }));
        }
        _ => usage(),
    }
}
