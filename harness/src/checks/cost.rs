//! What a call costs, counted in instructions (by callgrind), so that the machine's load and speed
//! make no difference.

use super::{robust, some_flags};
use crate::eng::Src;
use crate::run::{fail, Check, Ctx, Failure};
use std::fs;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

type Case = Result<(), Failure>;

pub const CHECKS: &[Check] = &[Check {
    id: "C19",
        quick: 96,
        thorough: 2_400,
    rule: "a distinct (pattern, size) whose cost at eight times the size was at least twice as high",
    assumptions: &[
        "cost is the number of instructions executed during the call, counted by callgrind",
        "a cost that grows more than 10.8-fold when the input and its text grow 8-fold isn't near-linear (a quadratic one grows 64-fold; at present none of the patterns grows more than 8.3-fold)",
    ],
    case: growth,
    workers: 8,
}];

/// Patterns whose text grows along with them: before, repeated, after, and up to how many.
const LINEAR: &[(&str, &str, &str, usize)] = &[
    ("?f@@YAX", "H", "@Z", 1800),
    ("?f@@YAX", "PEAH", "@Z", 800),
    ("?f@@YAX", "Va@@", "@Z", 440),
    ("?f@@YAX", "Vé@@", "@Z", 440),
    ("?f@@YAXVlongername@@", "0", "@Z", 40_000),
    ("?f@@YAXPEAVé@@", "0", "@Z", 40_000),
    ("?f@@YAXP6AXH@Z", "0", "@Z", 30_000),
    ("?f@@YAXPEBDPEBX", "01", "@Z", 30_000),
    ("?x@", "a@", "@3HA", 1800),
    ("?x@a@", "0@", "@3HA", 1800),
    ("?x@", "?A0x12@", "@3HA", 1800),
    ("?x@", "?$t@H@", "@3HA", 450),
    ("?x@", "é", "@@3HA", 250_000),
    ("?", "x", "@@3HA", 500_000),
    ("?x@", "日", "@@3HA", 160_000),
    ("?x@", "\u{1F980}", "@@3HA", 120_000),
    ("?x@", "a", "@@3HA", 500_000),
    ("?x@@3V", "a", "@@A", 500_000),
    ("?x@", "?$t@", "H@@@3HA", 200),
    ("??$f@", "H", "@@YAXXZ", 900),
    ("??$f@", "$0A@", "@@YAXXZ", 900),
    ("??$f@", "$$V", "H@@YAXXZ", 40_000),
    ("??$f@", "Va@@", "@@YAXXZ", 400),
    ("??$f@", "V1@", "@@YAXXZ", 400),
    ("?x@@3", "PEA", "HA", 200),
    ("?x@@3", "U?$t@", "HA", 80),
    ("?x@@3PEAY0?", "A", "B@HEA", 100_000),
    ("?x@?$t@$0", "A", "B@@@3HA", 100_000),
    ("?f@@YAXP6AX", "H", "@Z@Z", 1800),
    ("??_C@_1BAAA@AAAAAAAA@", "?$AAa", "?$AA?$AA@", 10_000),
    ("??_C@_1BAAA@AAAAAAAA@", "Ea", "@", 20_000),
    ("??_C@_0BAAA@AAAAAAAA@", "a", "@", 120),
    ("??_C@_03", "A", "@abc?$AA@", 100_000),
    ("??@", "a", "@", 500_000),
    ("??_7a@@6B", "a@", "@", 1800),
    ("??__E", "a@", "@YAXXZ", 1800),
    (".?AV", "a@", "@", 1800),
    ("??_R4", "a@", "@6B@", 1800),
    ("?f@", "?1??f@", "@YAXXZ", 60),
    ("?x@@3P6A", "P6A", "XXZA", 200),
    ("?x@@3PEAY", "BAAA", "@HEA", 500),
    // nothing that demangles
    ("?", "a", "", 500_000),
    ("", "a", "", 500_000),
    ("", "?", "", 100_000),
    ("?", "@", "", 100_000),
    ("?x@", "?", "", 100_000),
    ("?x@", "?A", "", 50_000),
    ("?x@?", "A", "", 100_000),
    ("?x@", "a@", "", 2_000),
    ("?x@?A", "é", "", 100_000),
    ("?f@@YAX", "H", "", 2_000),
    ("?f@@YAX", "PEAH", "", 2_000),
    ("??_C@_0", "B", "", 100_000),
    ("??_C@_03AAAAAAAA@", "é", "", 100_000),
    ("??_C@_1BA@AAAAAAAA@", "a", "", 100_000),
    ("??$f@", "H", "", 900),
    ("??_R0", "?A", "", 50_000),
    ("??_R1", "A", "", 100_000),
    ("?__K", "a", "", 100_000),
    (".", "PEA", "", 10_000),
    ("?f@@", "$$J0", "", 10_000),
];

/// Patterns that nest: before, opened, innermost, closed, after, and how deep.
const NESTED: &[(&str, &str, &str, &str, &str, usize)] = &[
    ("?x@@3", "U?$t@", "H", "@@", "A", 72),
    ("?x@@3", "U?$t@HPEAH", "H", "@@", "A", 72),
    ("?x@@3V?$t@", "V?$t@V?$u@H@@", "H", "@@", "@@A", 72),
    ("?f@@YAX", "P6AX", "H", "@Z", "@Z", 80),
    ("?x@@3", "P6A", "H", "XZ", "A", 80),
    ("?x@@3", "P6AP6AXXZ", "H", "H@Z", "A", 80),
    ("?x@?1?", "?f@?1?", "?g@@YAXXZ", "@YAXXZ", "@3HA", 64),
    ("?x@?1?", "?f@C@?1?", "?g@@YAXXZ", "@QEAAXXZ", "@3HA", 64),
    ("", "??__E", "?x@@3HA", "@@YAXXZ", "", 64),
    ("?x@?$t@$1", "?x@?$t@$1", "?y@@3HA", "@@3HA", "@@3HA", 48),
    ("??$f@$1", "??$f@$1", "?y@@3HA", "@@YAXXZ", "@@YAXXZ", 48),
    ("", "??$v@H@?$C@$1", "?y@@3HA", "@@2HA", "", 48),
    ("??__E", "?$v@H@?$C@$1?", "y@@3HA", "@@2HA", "@@YAXXZ", 48),
    ("?f@C@@QEAAX", "P8C@@EAAX", "H", "@Z", "@Z", 80),
    ("?x@@3", "PEAY01", "H", "", "EA", 80),
    ("?f@@YAX", "PEAY01", "H", "", "@Z", 80),
    ("?f@@YAX", "P8C@@EAA", "H", "XZ", "@Z", 80),
    ("?f@@YAX", "PEQC@@", "H", "", "@Z", 80),
    ("?f@@YAX", "PEQ?$t@", "H", "@@H", "@Z", 64),
    ("?f@@YAX", "P8?$t@", "H", "@@EAAXXZ", "@Z", 64),
    ("??$f@", "$$A6A", "H", "XZ", "@@YAXXZ", 80),
    ("??$f@", "$$A6AX", "H", "@Z", "@@YAXXZ", 80),
    ("??$f@", "$$A8@@EBAX", "H", "@Z", "@@YAXXZ", 80),
    ("??$f@", "$$BY01PEAU?$t@", "H", "@@", "@@YAXXZ", 48),
    ("??$f@", "$$CBU?$t@", "H", "@@", "@@YAXXZ", 72),
    ("??BC@@QEAA", "P6A", "H", "XZ", "XZ", 80),
    ("?x@?$t@", "$1?f@@YAXU?$t@", "H", "@@@Z", "@@3HA", 40),
    ("?x@?$t@", "$H?f@C@@QEAAXU?$t@", "H", "@@@ZA@", "@@3HA", 40),
    ("?x@?$t@", "$E?x@?$t@", "$0A@", "@@3HA", "@@3HA", 48),
    (".?AU?$t@", "U?$t@", "H", "@@", "@@", 72),
    ("??_7?$t@", "V?$t@", "H", "@@", "@@6B@", 72),
    ("??_R0?AV?$t@", "V?$t@", "H", "@@", "@@@8", 72),
    ("?x@?1?", "??_B?1?", "?g@@YAXXZ", "@51", "@3HA", 40),
    ("?x@@3", "W4?$t@", "H", "@@", "A", 72),
    ("?x@@3", "P6AXU?$t@", "H", "@@@Z", "A", 64),
];

/// Patterns in which something short is repeated next to something that gets long: before, repeated,
/// between, repeated, after, and how many of each. Work that's done for each of the many and looks at
/// all of the long shows in these only.
const PAIRS: &[(&str, &str, &str, &str, &str, usize, usize)] = &[
    ("?f@@YAX", "H", "V", "a", "@@@Z", 1600, 160_000),
    ("?f@@YAX", "PEAH", "V", "é", "@@@Z", 800, 80_000),
    ("?f@@YAXPEAH", "0", "V", "a", "@@@Z", 1600, 160_000),
    ("?f@@YAXV", "a", "@@", "H", "@Z", 160_000, 1600),
    ("?", "a", "@@YAX", "H", "@Z", 160_000, 1600),
    ("?", "é", "@@YAX", "PEAH", "@Z", 80_000, 800),
    ("?", "a", "@", "b@", "@3HA", 160_000, 1600),
    ("?x@", "b@", "", "a", "@@3HA", 1600, 160_000),
    ("?x@", "0@", "", "a", "@@3HA", 1600, 160_000),
    ("?x@", "?A0x1@", "", "é", "@@3HA", 1600, 80_000),
    ("?x@", "?$t@H@", "", "a", "@@3HA", 400, 160_000),
    ("??$f@", "H", "V", "a", "@@@@YAXXZ", 800, 160_000),
    ("??$f@", "$0A@", "V", "a", "@@@@YAXXZ", 800, 160_000),
    ("??$f@", "$$V", "V", "a", "@@@@YAXXZ", 1600, 160_000),
    ("??$f@V", "a", "@@", "$$QEAH", "@@YAXXZ", 160_000, 800),
    ("?x@@3", "PEA", "V", "a", "@@A", 200, 160_000),
    ("?x@@3", "P6A", "V", "a", "@@XZA", 100, 160_000),
    ("?x@", "?1??f@@YAXXZ@", "", "a", "@3HA", 24, 160_000),
    ("??_7", "a", "@@6B", "a@", "@", 160_000, 1600),
    ("??_7a@@6B", "b@", "", "a", "@@", 1600, 160_000),
    ("??_C@_1BAAA@AAAAAAAA@", "?$AAa", "?$AA?$AA@", "a", "", 10_000, 160_000),
    // after the end of the symbol, or of what there is of it
    ("?f@@YAX", "H", "@Z", "a", "", 1600, 160_000),
    ("?f@@YAX", "H", "!", "a", "", 1600, 160_000),
    ("?x@", "b@", "@3HA", "é", "", 1600, 80_000),
    ("?x@", "b@", "", "a", "", 1600, 160_000),
    ("??$f@", "H", "!", "a", "", 800, 160_000),
];

fn write(inputs: &[(String, u16)], dir: &Path) -> PathBuf {
    let list = dir.join("cost.txt");
    let mut s = String::new();
    for (i, (t, fl)) in inputs.iter().enumerate() {
        let p = dir.join(format!("cost-{i}.in"));
        fs::write(&p, t).unwrap();
        s.push_str(&format!("{fl} {}\n", p.display()));
    }
    fs::write(&list, s).unwrap();
    list
}

/// CPU time that all the inputs of a case are allowed, and far more than they take
const SECONDS: u32 = 3;

/// Does it take no more than some CPU time when nothing is counted?
fn quick_enough(inputs: &[(String, u16)], dir: &Path) -> bool {
    let list = write(inputs, dir);
    let st = Command::new("sh")
        .arg("-c")
        .arg(format!("ulimit -t {SECONDS}; ulimit -c 0; exec \"$0\" cost \"$1\""))
        .arg(std::env::current_exe().unwrap())
        .arg(&list)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .status()
        .unwrap();
    !matches!(st.signal(), Some(24 | 9))
}

/// what callgrind counts for each of the inputs
fn measure(inputs: &[(String, u16)], dir: &Path) -> Option<Vec<u64>> {
    let list = write(inputs, dir);
    let out = dir.join("cg");
    let exe = std::env::current_exe().ok()?;
    let st = Command::new("valgrind")
        .arg("--tool=callgrind")
        .arg("--instr-atstart=no")
        .arg("--main-stacksize=8388608")
        .arg(format!("--callgrind-out-file={}", out.display()))
        .arg(&exe)
        .arg("cost")
        .arg(&list)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .status()
        .ok()?;
    if !st.success() {
        return None;
    }
    let mut v = vec![];
    for i in 0..inputs.len() {
        let p = dir.join(format!("cg.{}", i + 1));
        let t = fs::read_to_string(&p).ok()?;
        let n = t.lines().find_map(|l| l.strip_prefix("totals: ").or_else(|| l.strip_prefix("summary: ")))?;
        v.push(n.trim().parse().ok()?);
        let _ = fs::remove_file(&p);
        let _ = fs::remove_file(dir.join(format!("cost-{i}.in")));
    }
    Some(v)
}

fn build(p: (&str, &str, &str), n: usize) -> String {
    format!("{}{}{}", p.0, p.1.repeat(n), p.2)
}

fn growth(r: &mut Src, ctx: &mut Ctx) -> Case {
    let nested = LINEAR.len() + NESTED.len();
    let k = nested + PAIRS.len();
    // go through all of them, and then some
    let mut inputs = vec![];
    let mut names = vec![];
    for j in 0..10 {
        let i = (ctx.case_no as usize * 10 + j) % (k + k / 2);
        if i >= nested && i < k && j != 9 {
            let (a, b, c, d, e, max, long) = PAIRS[i - nested];
            let n = (max / 8).max(1);
            let m = (long / 8).max(1);
            let fl = if r.p(1, 4) { some_flags(r) } else { 0 };
            for f in [1, 8] {
                inputs.push((format!("{a}{}{c}{}{e}", b.repeat(f * n), d.repeat(f * m)), fl));
            }
            names.push(((a, b, c), n));
            continue;
        }
        if i >= LINEAR.len() && i < nested && j != 9 {
            let (a, b, c, d, e, max) = NESTED[i - LINEAR.len()];
            let n = max / 8;
            let fl = if r.p(1, 4) { some_flags(r) } else { 0 };
            for n in [n, 8 * n] {
                inputs.push((format!("{a}{}{c}{}{e}", b.repeat(n), d.repeat(n)), fl));
            }
            names.push(((a, b, c), n));
            continue;
        }
        let (p, max) = if i < LINEAR.len() && j != 9 {
            let (a, b, c, m) = LINEAR[i];
            ((a, b, c), m)
        } else {
            let (a, b, c) = r.pick(robust::FAMILIES);
            let b = *r.pick(b);
            ((*a, b, *c), *r.pick(&[200usize, 1800, 10_000]))
        };
        // the smallest of the sizes that still costs something
        let n = (max / 8).max(1);
        let n = n - r.u(n / 3 + 1);
        let fl = if r.p(1, 4) { some_flags(r) } else { 0 };
        inputs.push((build(p, n), fl));
        inputs.push((build(p, 8 * n), fl));
        names.push((p, n));
    }
    if !quick_enough(&inputs, &ctx.scratch.clone()) {
        // counting would take forever
        let slow = inputs.iter().find(|i| !quick_enough(std::slice::from_ref(i), &ctx.scratch));
        let (s, fl) = slow.unwrap_or(&inputs[inputs.len() - 1]);
        ctx.eval();
        return Err(fail(
            "the cost is out of proportion to the input and its text",
            s,
            *fl,
            format!("a small part of {SECONDS} s of CPU time for {} bytes", s.len()),
            "more than that".into(),
        ));
    }
    let Some(cost) = measure(&inputs, &ctx.scratch.clone()) else {
        // one of them doesn't return normally, or there's no callgrind
        for (s, fl) in &inputs {
            let o = ctx.sut(s, *fl);
            if let crate::sut::Out::Panic(_) = o {
                return Err(fail("the call panicked", s, *fl, "a text or an error".into(), o.describe()));
            }
        }
        panic!("callgrind gave no answer");
    };
    for (i, (p, n)) in names.iter().enumerate() {
        let (small, big) = (cost[2 * i], cost[2 * i + 1]);
        let (s, fl) = &inputs[2 * i + 1];
        ctx.eval();
        let shape = format!("{}({})*n{}", p.0, p.1, p.2);
        if big >= 2 * small {
            ctx.nontrivial(&shape, *n as u64);
            ctx.class("grows");
        } else {
            ctx.class("constant");
        }
        ctx.sample(|| format!("{shape} flags {fl}: {small} instructions at n={n}, {big} at n={}", 8 * n));
        let out = |i: usize| ctx_len(&inputs[i].0, inputs[i].1);
        // texts that grow faster than what they're made of aren't what this is about
        let (a, b) = (inputs[2 * i].0.len() + out(2 * i), s.len() + out(2 * i + 1));
        let size_growth = b as f64 / a as f64;
        let cost_growth = big as f64 / small as f64;
        if cost_growth > 1.35 * size_growth.max(8.0) {
            return Err(fail(
                "the cost grows faster than the input and its text",
                s,
                *fl,
                format!("about 8 times the {small} instructions it takes for {shape} with n={n}"),
                format!("{big} instructions for n={}", 8 * n),
            ));
        }
    }
    Ok(())
}

fn ctx_len(s: &str, fl: u16) -> usize {
    crate::sut::run(s, fl).ok().map_or(0, str::len)
}

// ---- within callgrind

#[cfg(target_arch = "x86_64")]
fn request(code: u64) {
    let args: [u64; 6] = [code, 0, 0, 0, 0, 0];
    // SAFETY: outside of valgrind the sequence does nothing
    unsafe {
        std::arch::asm!(
            "rol rdi, 3",
            "rol rdi, 13",
            "rol rdi, 61",
            "rol rdi, 51",
            "xchg rbx, rbx",
            in("rax") args.as_ptr(),
            inout("rdx") 0u64 => _,
        );
    }
}
#[cfg(not(target_arch = "x86_64"))]
fn request(_: u64) {}

/// Demangles each of the inputs in the list, with callgrind counting.
pub fn counted(list: &Path) -> i32 {
    const BASE: u64 = 0x4354_0000;
    let t = fs::read_to_string(list).unwrap();
    let inputs: Vec<(String, u16)> = t
        .lines()
        .map(|l| {
            let (fl, p) = l.split_once(' ').unwrap();
            (fs::read_to_string(p).unwrap(), fl.parse().unwrap())
        })
        .collect();
    let ok = crate::run::on_small_stack(move || {
        let mut fine = true;
        for (s, fl) in inputs {
            request(BASE + 4); // start
            request(BASE + 1); // zero
            let o = crate::sut::run(&s, fl);
            request(BASE); // dump
            request(BASE + 5); // stop
            fine &= !matches!(o, crate::sut::Out::Panic(_));
        }
        fine
    });
    i32::from(!matches!(ok, Ok(true)))
}
