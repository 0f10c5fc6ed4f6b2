//! The same on any platform: with words of 32 bits, and with bytes in the other order.

use super::{broad, literal, robust, some_flags, style};
use crate::eng::Src;
use crate::gen::G;
use crate::mangle::mangle;
use crate::mutate;
use crate::run::{fail, verif_dir, Check, Ctx, Failure};
use crate::sut::{self, Out};
use std::fs;
use std::path::Path;
use std::process::{Command, Stdio};

type Case = Result<(), Failure>;

pub const CHECKS: &[Check] = &[Check {
    id: "C24",
    quick: 96,
    thorough: 1_440,
    rule: "a distinct (symbol, flags) that demangles, and whose result was compared with that of another platform",
    assumptions: &[
        "32-bit platforms are represented by WebAssembly, run by Node; big-endian ones by s390x, interpreted by Miri",
    ],
    case: platforms,
    workers: 8,
}];

const WHAT: &str = "the result isn't the same on every platform";

/// How many of a case's inputs are also interpreted on a machine of the other byte order
const INTERPRETED: usize = 24;

fn input(r: &mut Src) -> (String, u16) {
    let fl = if r.p(1, 3) { some_flags(r) } else { 0 };
    let s = match r.w(&[4, 3, 3, 2, 1]) {
        0 => {
            let c = broad(r);
            let st = style(r);
            let s = G::new(r, c).any();
            mangle(&s, st, r).text
        }
        1 => robust::numeric(r),
        2 => literal::any_literal(r),
        3 => robust::any_input(r),
        _ => {
            let x = if r.p(1, 2) { robust::numeric(r) } else { literal::any_literal(r) };
            mutate::mutate(r, &x, &mutate::corpus())
        }
    };
    (s, fl)
}

fn outcome(kind: u8, t: &[u8]) -> Out {
    let t = String::from_utf8_lossy(t).into_owned();
    match kind {
        1 => Out::Ok(t),
        0 => Out::Err(t),
        _ => Out::Panic(t),
    }
}

fn encode(inputs: &[(String, u16)]) -> Vec<u8> {
    let mut b = vec![];
    for (s, fl) in inputs {
        b.extend_from_slice(&u32::from(sut::flags(*fl).bits()).to_le_bytes());
        b.extend_from_slice(&(s.len() as u32).to_le_bytes());
        b.extend_from_slice(s.as_bytes());
    }
    b
}

fn decode(b: &[u8]) -> Vec<Out> {
    let mut v = vec![];
    let mut at = 0;
    while at + 5 <= b.len() {
        let n = u32::from_le_bytes(b[at + 1..at + 5].try_into().unwrap()) as usize;
        if at + 5 + n > b.len() {
            break;
        }
        v.push(outcome(b[at], &b[at + 5..at + 5 + n]));
        at += 5 + n;
    }
    v
}

/// The results on a platform of 32 bits
fn narrow(inputs: &[(String, u16)], dir: &Path) -> Vec<Out> {
    let (from, to) = (dir.join("narrow.in"), dir.join("narrow.out"));
    fs::write(&from, encode(inputs)).unwrap();
    let home = verif_dir();
    let o = Command::new("node")
        .arg("--stack-size=7000")
        .arg(home.join("wasm/run.js"))
        .arg(home.join("harness/target/wasm/undname.wasm"))
        .args([&from, &to])
        .stdin(Stdio::null())
        .output()
        .unwrap();
    assert!(o.status.success(), "node doesn't run: {}", String::from_utf8_lossy(&o.stderr));
    let v = decode(&fs::read(&to).unwrap());
    assert_eq!(v.len(), inputs.len());
    v
}

/// The results on a platform that has the most significant byte first
fn swapped(inputs: &[(String, u16)], dir: &Path) -> Vec<Out> {
    let list = dir.join("swapped.in");
    fs::write(&list, encode(inputs)).unwrap();
    let home = verif_dir();
    let o = Command::new("timeout")
        .arg("300")
        .args(["cargo", "+nightly", "miri", "run", "--offline", "--quiet", "--target", "s390x-unknown-linux-gnu", "--manifest-path"])
        .arg(home.join("interp/Cargo.toml"))
        .arg("--target-dir")
        .arg(home.join("harness/target/interp"))
        .arg("--")
        .arg(&list)
        .arg("print")
        // what's undefined is for another check to find
        .env("MIRIFLAGS", "-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-disable-validation -Zmiri-ignore-leaks")
        .stdin(Stdio::null())
        .output()
        .unwrap();
    let err = String::from_utf8_lossy(&o.stderr);
    let Some(b) = o.stdout.strip_prefix(b"begin") else { panic!("Miri doesn't run: {err}") };
    let mut v = decode(b);
    let why = err.lines().find(|l| l.contains("panicked at") || l.starts_with("error: Undefined Behavior"));
    // otherwise it ran out of time
    if let (true, Some(why)) = (v.len() < inputs.len(), why) {
        // the one it was on
        v.push(Out::Panic(why.to_string()));
    }
    v
}

fn same(a: &Out, b: &Out) -> bool {
    matches!((a, b), (Out::Panic(_), Out::Panic(_))) || a == b
}

type Platform = (&'static str, fn(&[(String, u16)], &Path) -> Vec<Out>);

fn compare(ctx: &mut Ctx, platform: Platform, inputs: &[(String, u16)], dir: &Path) -> Case {
    let (name, run) = platform;
    let there = run(inputs, dir);
    for ((s, fl), there) in inputs.iter().zip(&there) {
        let here = ctx.sut(s, *fl);
        ctx.eval();
        if !same(&here, there) {
            let differs = |t: &str| {
                let o = run(&[(t.to_string(), *fl)], dir);
                o.first().is_some_and(|o| !same(o, &sut::run(t, *fl)))
            };
            let mut small = s.clone();
            if differs(s) {
                small = crate::eng::shrink_string(s, 60, &mut |t| differs(t));
            }
            let o = run(&[(small.clone(), *fl)], dir);
            ctx.settled = true;
            return Err(fail(WHAT, &small, *fl, sut::run(&small, *fl).describe(), format!("{} {name}", o[0].describe())));
        }
        if here.ok().is_some() {
            ctx.nontrivial(s, (*fl).into());
            ctx.sample(|| format!("{s} flags {fl:#x}: {}", here.describe()));
        }
    }
    ctx.class_n(name, there.len() as u64);
    Ok(())
}

fn platforms(r: &mut Src, ctx: &mut Ctx) -> Case {
    let n = if ctx.quiet { 200 } else { 18_000 };
    let mut inputs: Vec<(String, u16)> = (0..n).map(|_| input(r)).collect();
    let dir = ctx.scratch.clone();
    inputs.push((robust::heavy_text(r), 0));
    compare(ctx, ("on a 32-bit platform", narrow), &inputs, &dir)?;
    inputs.retain(|(s, _)| s.len() <= 200);
    inputs.truncate(INTERPRETED);
    compare(ctx, ("on a big-endian platform", swapped), &inputs, &dir)
}
