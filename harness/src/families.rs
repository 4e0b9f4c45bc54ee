//! Parametric families: functions too large for the scopes, enumerated along a few parameters, chosen so that
//! the allocators reach what small functions cannot (many ranges in one register, many spillslots, many splits,
//! value numbers beyond one bit set, deep loops, wide instructions).

use crate::ctx::Tier;
use crate::explore::Chooser;
use crate::gen::Case;
use crate::ir::*;
use crate::scopes::Who2;
use crate::text;

pub struct Family {
    pub name: &'static str,
    pub bounds: String,
    pub who: Who2,
    pub make: Box<dyn Fn(&mut Chooser) -> Option<Case> + Send + Sync>,
}

fn ints(n: usize) -> EnvSpec {
    EnvSpec::ints(&(0..n).collect::<Vec<_>>(), &[])
}

fn case(t: &str, env: &EnvSpec) -> Case {
    Case {
        func: text::func(t, ""),
        env: env.build(),
    }
}

/// `xs` joined as instructions
fn insts(xs: &[String]) -> String {
    xs.iter()
        .filter(|x| !x.is_empty())
        .cloned()
        .collect::<Vec<_>>()
        .join(" | ")
}

fn permutation(ch: &mut Chooser, n: usize) -> Vec<usize> {
    let mut left: Vec<usize> = (0..n).collect();
    (0..n)
        .map(|_| {
            let k = ch.choose(left.len());
            left.remove(k)
        })
        .collect()
}

pub fn all(tier: Tier) -> Vec<Family> {
    let t = tier.thorough();
    let mut v: Vec<Family> = vec![];
    let mut add =
        |name: &'static str,
         who: Who2,
         bounds: String,
         make: Box<dyn Fn(&mut Chooser) -> Option<Case> + Send + Sync>| {
            v.push(Family {
                name,
                bounds,
                who,
                make,
            })
        };

    // One value through a long line of demands: its range is split again and again.
    let n = if t { 8 } else { 6 };
    add(
        "long-line",
        Who2::Both,
        format!(
            "one value under {} demands in a row (register, fixed register 0 or 1, anywhere, all registers clobbered, nothing), as a \
             definition, a block parameter or a loop parameter; 2 registers; with or without a second value live throughout",
            n
        ),
        Box::new(move |ch| {
            let form = ch.choose(3);
            let second = ch.flag();
            let mut body = vec![];
            for _ in 0..n {
                body.push(ch.pick(&["u1:r", "u1:f0", "u1:f1", "u1:a", "!0 !1"]).to_string());
            }
            let d2 = if second { "d2:r" } else { "" };
            let u2 = if second { "u2:r" } else { "" };
            let b = insts(&body);
            let t = match form {
                0 => format!("e: d1:r {} | {} | {}", d2, b, u2),
                1 => format!("e -> x(0): d0:r {} |\nx(1): {} | {}", d2, b, u2),
                _ => format!("e -> x(0): d0:r {} |\nx(1) -> y z: {} |\ny -> x(1):\nz: u1:a {}", d2, b, u2),
            };
            Some(case(&t, &ints(2)))
        }),
    );

    // Several uses of a parameter in the first instruction, after enough splitting
    let n = if t { 5 } else { 4 };
    add(
        "param-split",
        Who2::Both,
        format!(
            "a block parameter used several times in the first instruction of its block, then {} demands; 2 or 3 registers, \
             one or two predecessors",
            n
        ),
        Box::new(move |ch| {
            let nr = 2 + ch.choose(2);
            let two = ch.flag();
            let first = *ch.pick(&[
                "u1:r", "u1:a u1:r", "u1:f0", "u1:f0 u1:r", "u1:f0 u1:f1", "u1:f0 U1:r", "u1:r u1:a", "U1:a u1:f0", "u1:r U1:r",
                "u1:a u2:r u2:r", "u1:r u2:f0",
            ]);
            let mut body = vec![first.to_string()];
            for _ in 0..n {
                body.push(ch.pick(&["u1:r", "u1:f0", "u1:f1", "u1:a", "!0 !1 !2"]).to_string());
            }
            let b = insts(&body);
            let t = if two {
                format!("e -> l m: d0:r d2:a |\nl -> x(0):\nm -> x(2): !0 !1 !2 |\nx(1): {} | u2:a u1:a", b)
            } else {
                format!("e -> x(0): d0:r d2:a |\nx(1): {} | u2:a u1:a", b)
            };
            Some(case(&t, &ints(nr)))
        }),
    );

    // A hole in a value's range with many allocations of the register in between
    let ks: &'static [usize] = if t {
        &[0, 3, 7, 8, 9, 14, 15, 16, 17, 18, 31, 32, 33, 48, 80]
    } else {
        &[0, 8, 15, 16, 17, 33]
    };
    add(
        "hole",
        Who2::Both,
        format!(
            "values live before and after a block that they are not live in, in which {:?} short values take a register; then every \
             line of up to 4 demands",
            ks
        ),
        Box::new(move |ch| {
            let k = *ch.pick(ks);
            let fixed = ch.pick(&["r", "f0"]).to_string();
            let mut m = vec![];
            for i in 0..k {
                m.push(format!("d{}:{}", 10 + i, fixed));
                m.push(format!("u{}:r", 10 + i));
            }
            m.push(String::new());
            let mut x = vec![];
            x.push(ch.pick(&["d5:f0", "d5:r", "!0", "d5:f0 !1"]).to_string());
            x.push(ch.pick(&["u0:r", "u0:f0", "!0", "u0:a u6:r"]).to_string());
            x.push(ch.pick(&["u0:r", "u5:f0 u0:r", "u5:a u0:f0", "d7:f0", "!0"]).to_string());
            let defs5 = x[0].contains("d5");
            if !defs5 && x[2].contains("u5") {
                return None;
            }
            x.push(ch.pick(&["u6:r u0:a", "u6:a u0:a", "u6:r"]).to_string() + if defs5 { " u5:a" } else { "" });
            let nr = 1 + ch.choose(2);
            let order = ch.flag();
            let mid = format!("m: {} | ", insts(&m));
            let end = format!("x: {}", insts(&x));
            let t = if order {
                format!("e -> m x: d0:r d6:a |\n{}\n{}", mid, end)
            } else {
                format!("e -> x m: d0:a d6:r | u6:r |\n{}\n{}", mid, end)
            };
            Some(case(&t, &ints(nr)))
        }),
    );

    // A loop parameter and its next value in one instruction
    add(
        "loop-update",
        Who2::Both,
        "a loop whose parameter is read by the instruction that defines its next value: every choice of constraints of the two \
         (early or late use, reused input, early or late definition), of a third operand, of clobbers and of what happens before, \
         after and outside; 1 to 3 registers"
            .into(),
        Box::new(move |ch| {
            let nr = 1 + ch.choose(3);
            let u = *ch.pick(&["u1:r", "u1:a", "u1:f0", "u1:f1", "u1:s", "U1:r", "U1:a"]);
            let d = *ch.pick(&["d2:r", "d2:a", "d2:f0", "d2:f1", "d2:s", "D2:r", "d2:=0", "D2:f0"]);
            let o = *ch.pick(&["", "u3:f0", "u3:f1", "u3:r", "U3:r", "U3:a", "d4:f0", "d4:f1", "D4:r", "u3:f0 d4:f0"]);
            let c = *ch.pick(&["", "!0", "!1", "!0 !1"]);
            let pre = *ch.pick(&["", "u3:r", "!0 !1 !2"]);
            let post = *ch.pick(&["", "u3:f0", "u2:r"]);
            let back = *ch.pick(&["2", "1"]);
            let update = format!("{} {} {} {}", u, d, o, c);
            let t = if ch.flag() {
                format!(
                    "e -> l(0): d0:r d3:a |\nl(1) -> m x: {} |\nm -> l({}):\nx: u3:a {}",
                    insts(&[pre.into(), update, post.into()]),
                    back,
                    ["", "u1:a"][ch.choose(2)]
                )
            } else {
                format!(
                    "e -> l(0): d0:r d3:a |\nl(1) -> m x: {} |\nm -> l({}): {} |\nx: u3:a {}",
                    pre,
                    back,
                    insts(&[update, post.into()]),
                    ["", "u1:a"][ch.choose(2)]
                )
            };
            Some(case(&t, &ints(nr)))
        }),
    );

    // Many values at once: spillslots, their reuse, and probing for them
    let nmax = if t { 13 } else { 10 };
    add(
        "pressure",
        Who2::Both,
        format!(
            "12 to 14 values spilled by a call, every subset of the first {} ends there, then up to 12 new values are spilled by a \
             second call; classes and slot sizes mixed",
            nmax
        ),
        Box::new(move |ch| {
            let n = 12 + ch.choose(2) * 2;
            let mix = ch.choose(3);
            let class = |i: usize| match mix {
                0 => "",
                1 => ["", "f"][i % 2],
                _ => ["", "f", "v"][i % 3],
            };
            let mask = ch.choose(1 << (nmax - 3)) as u32;
            // bits beyond the enumerated ones repeat the pattern
            let early = |i: usize| mask >> (i % (nmax - 3)) & 1 != 0;
            let m = *ch.pick(&[0, 1, 4, 12]);
            let mut b: Vec<String> = (0..n).map(|i| format!("d{}{}:r", i, class(i))).collect();
            let clob = "!0 !1 !0f !0v".to_string();
            b.push(clob.clone());
            for i in (0..n).filter(|&i| early(i)) {
                b.push(format!("u{}{}:a", i, class(i)));
            }
            for i in 0..m {
                b.push(format!("d{}{}:r", 20 + i, class(i)));
            }
            b.push(clob);
            for i in 0..m {
                b.push(format!("u{}{}:r", 20 + i, class(i)));
            }
            for i in (0..n).filter(|&i| !early(i)) {
                b.push(format!("u{}{}:a", i, class(i)));
            }
            b.push("x".into());
            b.pop();
            let mut c = case(
                &format!("e: {} | ", insts(&b)),
                &ints(2).class(1, &[0], &[]).class(2, &[0], &[]),
            );
            if mix > 0 {
                c.func.slot_size = [1, 2, 4];
                c.func.last_slot = mask & 1 != 0;
            }
            Some(c)
        }),
    );

    // Cycles of moves through memory with every register taken
    // (a branch that clobbers registers: the single-pass allocator only; with the other one this is the
    // known finding ion-branch-clobber)
    for (name, who, at_branch) in [
        ("memory-cycles", Who2::Both, false),
        ("memory-cycles-clobber", Who2::FastOnly, true),
    ] {
        add(
        name,
        who,
        "1 to 4 block parameters in stack slots, permuted (every argument vector) around a loop or on a branch with a single successor, \
         with 1 to 3 registers and 0 to 3 values kept in registers across the edge (which in memory-cycles-clobber the branch itself clobbers); classes and slot sizes, with or without a value of another class in a slot"
            .into(),
        Box::new(move |ch| {
            let np = 2 + ch.choose(3);
            let nr = 1 + ch.choose(3);
            let live = ch.choose(nr + 1);
            let class = *ch.pick(&["", "f", "v"]);
            let args = permutation(ch, np);
            let keep = *ch.pick(&["s", "a"]);
            let slots = ch.choose(3);
            let scratch = ch.flag();
            // a slot of another size before or after those of the parameters
            let other = if class.is_empty() { "f" } else { "" };
            let odd = ch.flag();
            let (od, ou) = match odd {
                true => (format!("d30{}:s", other), format!("u30{}:s", other)),
                false => (String::new(), String::new()),
            };
            let p: Vec<String> = (0..np).map(|i| format!("{}{}", 10 + i, class)).collect();
            let init: Vec<String> = (0..np).map(|i| format!("{}{}", i, class)).collect();
            let defs = init.iter().map(|v| format!("d{}:{}", v, keep)).collect::<Vec<_>>().join(" ");
            let lives: Vec<String> = (0..live).map(|i| format!("{}{}", 20 + i, class)).collect();
            let lu = |c: &dyn Fn(usize) -> String| {
                lives.iter().enumerate().map(|(i, v)| format!("u{}:{}", v, c(i))).collect::<Vec<_>>().join(" ")
            };
            let ld = lives.iter().enumerate().map(|(i, v)| format!("d{}:f{}", v, i)).collect::<Vec<_>>().join(" ");
            let all = (0..nr).map(|i| format!("!{}{}", i, class)).collect::<Vec<_>>().join(" ");
            let uses = p.iter().map(|v| format!("u{}:{}", v, keep)).collect::<Vec<_>>().join(" ");
                // the initial values live on, so that their slots are taken before the temporary ones
                let iu = match at_branch && ch.flag() {
                    true => init
                        .iter()
                        .map(|v| format!("u{}:{}", v, keep))
                        .collect::<Vec<_>>()
                        .join(" "),
                    false => String::new(),
                };
            let aargs: Vec<String> = args.iter().map(|&i| p[i].clone()).collect();
            let t = format!(
                "e -> l({init}): {defs} {od} | {ld} |\nl({ps}) -> m x: {hot} | {uses} |\nm -> l({aa}): {hot}{sep}\nx: {all} | {hot} | {uses} {ou} {iu}",
                od = od,
                ou = ou,
                sep = if at_branch { format!(" | {}", all) } else { " |".into() },
                init = init.join(","),
                defs = defs,
                ld = ld,
                ps = p.join(","),
                uses = uses,
                hot = lu(&|i| format!("f{}", i)),
                aa = aargs.join(","),
                all = if ch.flag() { all } else { "".into() },
            );
            let r: Vec<usize> = (0..nr).collect();
            let k = ["", "f", "v"].iter().position(|x| *x == class).unwrap();
            let mut env = ints(0).class(k, &r, &[]);
            if scratch {
                env = env.scratch(k, 9);
            }
            let mut c = case(&t, &env);
            c.func.slot_size = [[1, 1, 1], [1, 2, 4], [2, 1, 2]][slots];
            c.func.last_slot = slots == 2;
            Some(c)
        }),
    );
    }

    // A body repeated many times: long functions, many values, large value numbers
    let ns: &'static [usize] = if t {
        &[1, 2, 5, 9, 17, 33, 65, 130]
    } else {
        &[1, 9, 33, 65]
    };
    add(
        "repeated",
        Who2::Both,
        format!(
            "every pair of two of 10 pieces of code repeated {:?} times in one block or in one block each, value numbers 1 or 67 apart, \
             2 or 3 registers, two values live throughout",
            ns
        ),
        Box::new(move |ch| {
            const P: &[&str] = &[
                "dN:r uP:r",
                "dN:r uP:a",
                "dN:=1 uP:r",
                "dN:f0 uP:f0",
                "dN:f1 uP:r !0",
                "dN:a uP:r u0:a",
                "dN:r uP:r U0:r",
                "DN:r uP:r",
                "dN:s uP:a",
                "!0 !1 !2 | dN:r uP:a",
            ];
            let n = *ch.pick(ns);
            let (a, b) = (*ch.pick(P), *ch.pick(P));
            let blocks = ch.flag();
            let stride = *ch.pick(&[1, 67]);
            let nr = 2 + ch.choose(2);
            let mut s = String::new();
            let mut parts = vec![];
            for i in 0..n {
                let x = if i % 2 == 0 { a } else { b };
                parts.push(
                    x.replace('N', &(2 + (i + 1) * stride).to_string())
                        .replace('P', &(2 + i * stride).to_string()),
                );
            }
            let last = format!("u{}:a u0:a u1:a", 2 + n * stride);
            if blocks {
                s += "e -> b0: d0:r | d1:a | d2:r |\n";
                for (i, p) in parts.iter().enumerate() {
                    let next = if i + 1 < n { format!("b{}", i + 1) } else { "z".into() };
                    s += &format!("b{} -> {}: {} |\n", i, next, p);
                }
                s += &format!("z: {}", last);
            } else {
                s += &format!("e: d0:r | d1:a | d2:r | {} | {}", parts.join(" | "), last);
            }
            Some(case(&s, &ints(nr)))
        }),
    );

    // Loops in loops
    let depth = if t { 4 } else { 3 };
    add(
        "nested-loops",
        Who2::Both,
        format!(
            "loops nested up to {} deep; two values defined outside, each used in any one of the headers or bodies, each carried by an \
             innermost parameter or not, a call in any one of the blocks; 1 or 2 registers",
            depth
        ),
        Box::new(move |ch| {
            let n = 1 + ch.choose(depth);
            let nr = 1 + ch.choose(2);
            // h_i -> h_{i+1} x_i ; innermost body b -> h_n ; x_i -> h_{i-1}
            let mut at = vec![String::new(); 2 * n + 1];
            for v in 0..2 {
                let w = ch.choose(2 * n + 1);
                let c = ch.pick(&["r", "f0", "a"]);
                if !at[w].is_empty() {
                    at[w] += " | ";
                }
                at[w] += &format!("u{}:{}", v, c);
            }
            let call = ch.choose(2 * n + 2);
            if call < 2 * n + 1 {
                let s = at[call].clone();
                at[call] = if ch.flag() { format!("!0 !1 | {}", s) } else { format!("{} | !0 !1", s) };
            }
            let fix = |s: &str| insts(&s.split(" | ").map(|x| x.to_string()).collect::<Vec<_>>());
            let carried = ch.flag();
            let p = if carried { "(50)" } else { "" };
            let a = |x: usize| if carried { format!("({})", x) } else { String::new() };
            let mut s = format!("e -> h0{}: d0:r | d1:a |\n", if n == 1 { a(0) } else { String::new() });
            for i in 0..n {
                let inner = i + 1 == n;
                let next = if inner { "b".to_string() } else { format!("q{}", i) };
                s += &format!("h{}{} -> {} x{}: {} |\n", i, if inner { p } else { "" }, next, i, fix(&at[i]));
                if !inner {
                    s += &format!("q{} -> h{}{}:\n", i, i + 1, if i + 2 == n { a(0) } else { String::new() });
                }
            }
            s += &format!("b -> h{}{}: {} |\n", n - 1, a(if ch.flag() { 1 } else { 50 }), fix(&at[2 * n]));
            for i in (0..n).rev() {
                let body = fix(&at[n + i]);
                if i == 0 {
                    s += &format!("x0: {} | u0:a u1:a", body);
                } else {
                    s += &format!("x{} -> h{}: {} |\n", i, i - 1, body);
                }
            }
            Some(case(&s, &ints(nr)))
        }),
    );

    // Wide instructions
    let w: &'static [usize] = if t {
        &[1, 2, 3, 4, 7, 8, 16, 31, 32, 33, 64, 100]
    } else {
        &[1, 3, 4, 8, 17, 33, 64]
    };
    add(
        "wide",
        Who2::Both,
        format!(
            "an instruction with n of {:?} operands that may be anywhere (uses, late uses, definitions, early definitions, uses of one \
             value, mixed with up to 2 register or fixed operands), with 3 registers",
            w
        ),
        Box::new(move |ch| {
            let n = *ch.pick(w);
            let kind = ch.choose(5);
            let extra = *ch.pick(&["", "u250:r", "d251:r", "u250:f0 d251:f1", "d251:=0 u250:a", "U250:r", "D251:r", "u250:f0 u250:f1", "!0 !1 !2"]);
            let first = extra.contains("=0");
            let x: Vec<String> = (0..n)
                .map(|i| match kind {
                    0 => format!("u{}:a", i),
                    1 => format!("U{}:a", i),
                    2 => format!("d{}:a", 100 + i),
                    3 => format!("D{}:a", 100 + i),
                    _ => "u0:a".to_string(),
                })
                .collect();
            let wide = if first && kind == 0 || !first {
                if first { format!("u0:r d251:=0 {} u250:a", x[1..].join(" ")) } else { format!("{} {}", x.join(" "), extra) }
            } else {
                return None;
            };
            let mut b = vec!["d250:r".to_string()];
            if kind < 2 || kind == 4 {
                b.extend((0..n).map(|i| format!("d{}:{}", i, ["r", "a"][i % 2])));
            }
            b.push(wide);
            let after = ch.choose(3);
            let us: Vec<String> = match kind {
                2 | 3 => (0..n).map(|i| format!("u{}:r", 100 + i)).collect(),
                _ => (0..n).map(|i| format!("u{}:r", i)).collect(),
            };
            match after {
                0 => b.push(String::new()),
                1 => b.extend(us),
                _ => b.extend(us.into_iter().rev()),
            }
            if extra.contains("251") && after > 0 {
                b.push("u251:a".into());
            }
            b.push("u250:a".into());
            Some(case(&format!("e: {}", insts(&b)), &ints(3)))
        }),
    );

    // Bundles of very many ranges
    let ks: &'static [usize] = if t {
        &[1, 50, 99, 100, 101, 150, 198, 199, 200, 201, 202, 260]
    } else {
        &[1, 100, 199, 200, 201]
    };
    add(
        "many-ranges",
        Who2::Both,
        format!(
            "a value with {:?} ranges passed to a parameter (or reused) while it lives on, or not, or while another is in its register",
            ks
        ),
        Box::new(move |ch| {
            let k = *ch.pick(ks);
            let last = ch.choose(5);
            let c = *ch.pick(&["r", "f0", "a"]);
            let nr = 1 + ch.choose(2);
            let mut s = String::from("e -> b0: d0:r d1:a |\n");
            for i in 0..k {
                // r{i} is laid out between b{i} and b{i+1}; nothing is live there
                s += &format!("b{} -> r{} b{}:\nr{}: {} |\n", i, i, i + 1, i, ["", "!0"][i % 2]);
            }
            s += &match last {
                0 => format!("b{} -> z(0):\nz(2): u2:{} | u0:r | u2:a u1:a", k, c),
                1 => format!("b{} -> z(0):\nz(2): u2:{} | u1:a u2:a", k, c),
                2 => format!("b{}: d2:=1 u0:r | u2:{} | u0:r | u2:a u1:a", k, c),
                3 => format!("b{}: d2:=1 u0:r | u2:{} | u1:a u2:a", k, c),
                _ => format!("b{} -> z(0): d3:r |\nz(2): u3:{} | d4:f0 | u2:r | u0:a u1:a u4:a", k, c),
            };
            Some(case(&s, &ints(nr)))
        }),
    );
    v
}
