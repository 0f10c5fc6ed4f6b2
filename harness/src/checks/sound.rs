//! Nothing undefined happens, whatever the input.

use super::{robust, some_flags};
use crate::eng::{self, Src};
use crate::{heap, mutate};
use crate::run::{fail, verif_dir, Check, Ctx, Failure};
use crate::sut;
use std::fs;
use std::path::Path;
use std::process::{Command, Stdio};

type Case = Result<(), Failure>;

pub const CHECKS: &[Check] = &[Check {
    id: "C23",
    quick: 48,
    thorough: 600,
    rule: "a distinct text of at least three characters (with its flags) whose demangling Miri went through",
    assumptions: &[
        "Miri (with its default model of aliasing) decides whether what happens is undefined; its inputs are short",
        "for the many inputs that run natively, what's found is what the standard library's checks of unsafe calls find, and text that isn't UTF-8",
    ],
    case: sound,
    workers: 8,
}];

const WHAT: &str = "the call does something undefined";

/// Pieces of string literals: all the escapes and whatever looks like one.
fn literal(r: &mut Src) -> String {
    let wide = r.p(1, 3);
    let mut s = String::from(if wide { "??_C@_1" } else { "??_C@_0" });
    let n = r.u(14);
    let mut len = n as u64 * if wide { 2 } else { 1 } + r.below(3);
    if r.p(1, 4) {
        len = r.below(200);
    }
    if (1..=10).contains(&len) {
        s.push((b'0' + len as u8 - 1) as char);
    } else {
        for c in format!("{len:X}").bytes() {
            s.push((b'A' + (c as char).to_digit(16).unwrap() as u8) as char);
        }
        s.push('@');
    }
    s.push_str("CRC@");
    for _ in 0..n {
        match r.u(7) {
            0 => s.push((0x20 + r.below(0x5f) as u8) as char),
            1 | 2 => {
                // letters and what lies around them
                s.push('?');
                s.push(*r.pick(&['@', 'A', 'B', 'M', 'Y', 'Z', '[', '`', 'a', 'b', 'm', 'y', 'z', '{', '/', '0', '5', '9', ':', 'é', '\u{7f}']));
            }
            3 | 4 => {
                s.push_str("?$");
                for _ in 0..2 {
                    s.push(*r.pick(&['A', 'B', 'H', 'I', 'O', 'P', 'Q', '@', '0', 'a', 'é']));
                }
            }
            _ => s.push(*r.pick(&['a', 'Z', '_', '$', '~', 'é', '\u{80}', '\u{10ffff}'])),
        }
    }
    s.push('@');
    s
}

/// References around the last of what there is to refer to.
fn reference(r: &mut Src) -> String {
    let n = r.small(12);
    let index = |r: &mut Src, n: usize| match r.u(5) {
        0 => n.saturating_sub(1).min(9),
        1 | 2 => n.min(9),
        3 => (n + 1).min(9),
        _ => r.u(10),
    };
    let mut name = 0;
    let mut fresh = || {
        name += 1;
        format!("{}@", (b'a' + name) as char)
    };
    // parameters
    let mut list = String::new();
    for i in 0..n {
        list.push_str(r.pick(&["PAH", "_N", "PBD", "?AH", "P6AXXZ", "UA@@", "V?$A@H@@", "P8A@@AEXXZ"]));
        if r.p(1, 8) {
            list.push_str(&index(r, i + 1).to_string());
        }
    }
    for _ in 0..1 + r.u(3) {
        list.push_str(&index(r, n).to_string());
    }
    if r.p(1, 4) {
        let i = index(r, 1);
        list = format!("P6AX{list}@Z{i}");
    }
    // names
    let scope: String = (0..r.small(11)).map(|_| fresh()).collect();
    let k = scope.len() / 2 + 1;
    let by = if r.p(1, 2) { index(r, k).to_string() } else { String::new() };
    let s = match r.u(5) {
        0 => format!("?f@{scope}{by}@YAX{list}@Z"),
        1 => format!("?x@{scope}{by}@3HA"),
        2 => format!("?x@?$f@{list}@{scope}{by}@3V{}@@A", index(r, k)),
        3 => format!("?x@?1??f@{scope}{by}@YAX{list}@Z@3P6AX{}@ZA", index(r, n)),
        _ => format!("??$f@V{scope}{by}@@@{}@YAX{list}@Z", index(r, 1)),
    };
    // or nothing of it at the end
    if r.p(1, 6) { s[..r.u(s.len() + 1)].to_string() } else { s }
}

fn input(r: &mut Src) -> (String, u16) {
    let fl = if r.p(1, 3) { some_flags(r) } else { 0 };
    let s = match r.w(&[6, 1, 2, 2]) {
        0 => robust::any_input(r),
        1 => literal(r),
        3 => reference(r),
        _ => {
            let x = literal(r);
            mutate::mutate(r, &x, &mutate::corpus())
        }
    };
    (s, fl)
}

enum Ran {
    Fine,
    /// the one at which it ended, and why
    Undefined(usize, String),
    /// only after the last one
    AtTheEnd(String),
    NotAtAll(String),
}

fn interpret(inputs: &[(String, u16)], dir: &Path) -> Ran {
    let list = dir.join("list.txt");
    let mut t = String::new();
    for (s, fl) in inputs {
        t.push_str(&format!("{fl} "));
        for b in s.bytes() {
            t.push_str(&format!("{b:02x}"));
        }
        t.push('\n');
    }
    fs::write(&list, t).unwrap();
    let home = verif_dir();
    let o = Command::new("timeout")
        .arg("300")
        .args(["cargo", "+nightly", "miri", "run", "--offline", "--quiet", "--manifest-path"])
        .arg(home.join("interp/Cargo.toml"))
        .arg("--target-dir")
        .arg(home.join("harness/target/interp"))
        .arg("--")
        .arg(&list)
        .env("MIRIFLAGS", "-Zmiri-disable-isolation")
        .stdin(Stdio::null())
        .output();
    let o = match o {
        Ok(o) => o,
        Err(e) => return Ran::NotAtAll(e.to_string()),
    };
    let out = String::from_utf8_lossy(&o.stdout);
    let err = String::from_utf8_lossy(&o.stderr);
    if let Some(i) = out.lines().find_map(|l| l.strip_prefix("bad ")) {
        return Ran::Undefined(i.parse().unwrap(), "a String that isn't valid UTF-8".into());
    }
    let why = err
        .lines()
        .find(|l| l.starts_with("error: Undefined Behavior") || l.starts_with("error: memory leaked"))
        .map(str::to_string);
    if o.status.success() {
        return Ran::Fine;
    }
    let last = out.lines().filter_map(|l| l.strip_prefix("run ")).next_back().and_then(|l| l.parse().ok());
    match (why, last, out.ends_with("end\n")) {
        (Some(w), _, true) => Ran::AtTheEnd(w),
        (Some(w), Some(i), _) => Ran::Undefined(i, w),
        _ => Ran::NotAtAll(err.lines().rev().take(5).collect::<Vec<_>>().join(" / ")),
    }
}

fn undefined(s: &str, fl: u16, dir: &Path) -> Option<String> {
    match interpret(&[(s.to_string(), fl)], dir) {
        Ran::Undefined(_, w) | Ran::AtTheEnd(w) => Some(w),
        _ => None,
    }
}

/// Is what's in the buffer afterwards UTF-8? Not known if the call panicked.
fn call(s: &str, fl: u16, b: &mut String) -> Option<bool> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        _ = undname::demangle_into(s, sut::flags(fl), b);
        std::str::from_utf8(std::hint::black_box(b.as_bytes())).is_ok()
    }))
    .ok()
}

/// Is there less memory each time?
fn leaks(s: &str, fl: u16) -> bool {
    let mut before = heap::live();
    for i in 0..8 {
        if call(s, fl, &mut String::new()).is_none() {
            return false;
        }
        let now = heap::live();
        // something may be kept once
        if i > 0 && now.wrapping_sub(before) as isize <= 0 {
            return false;
        }
        before = now;
    }
    true
}

/// Many inputs at once, some of them under Miri.
fn sound(r: &mut Src, ctx: &mut Ctx) -> Case {
    let native = if ctx.quiet { 0 } else { 4000 };
    let mut inputs = vec![];
    let want = 30;
    for _ in 0..want {
        let (s, fl) = input(r);
        if s.len() <= 160 {
            inputs.push((s, fl));
        }
    }
    let dir = ctx.scratch.clone();
    let found = match interpret(&inputs, &dir) {
        Ran::Fine => None,
        Ran::NotAtAll(e) => {
            // neither an answer nor a finding
            panic!("Miri doesn't run: {e}");
        }
        Ran::Undefined(i, w) => Some((inputs[i].clone(), w)),
        Ran::AtTheEnd(w) => {
            // nothing is freed: whose was it?
            let mut v = inputs.clone();
            while v.len() > 1 {
                let half = v.split_off(v.len() / 2);
                if matches!(interpret(&half, &dir), Ran::AtTheEnd(_)) {
                    v = half;
                }
            }
            Some((v[0].clone(), w))
        }
    };
    if let Some(((s, fl), w)) = found {
        let mut small = s.clone();
        if undefined(&s, fl, &dir).is_some() {
            small = eng::shrink_string(&s, 60, &mut |t| undefined(t, fl, &dir).is_some());
        }
        ctx.settled = true;
        return Err(fail(WHAT, &small, fl, "nothing undefined".into(), w));
    }
    for (s, fl) in &inputs {
        ctx.eval();
        if s.chars().nth(2).is_some() {
            ctx.nontrivial(s, (*fl).into());
            ctx.sample(|| s.clone());
        }
    }
    ctx.class_n("interpreted by Miri", inputs.len() as u64);
    // the rest of them natively, where the checks of the standard library are on
    let mut b = String::from("é");
    for j in 0..native {
        let (s, fl) = if j % 200 == 0 { (robust::heavy_text(r), 0) } else { input(r) };
        if j % 5 == 0 {
            b = String::new();
        }
        ctx.about_to(&s, fl);
        let o = call(&s, fl, &mut b);
        ctx.done();
        ctx.eval();
        if o == Some(false) {
            ctx.settled = true;
            return Err(fail(WHAT, &s, fl, "nothing undefined".into(), "a String that isn't valid UTF-8".into()));
        }
        if j % 8 == 0 && leaks(&s, fl) {
            ctx.settled = true;
            let small = eng::shrink_string(&s, 1000, &mut |t| leaks(t, fl));
            return Err(fail(WHAT, &small, fl, "nothing undefined".into(), "memory that isn't freed".into()));
        }
    }
    ctx.class_n("run natively", native);
    Ok(())
}
