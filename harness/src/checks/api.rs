//! The calls themselves: their results depend on their arguments and nothing else.

use super::{broad, some_flags, style};
use crate::eng::Src;
use crate::gen::G;
use crate::mangle::mangle;
use crate::mutate;
use crate::run::{self, fail, Check, Ctx, End, Failure, Tier};
use crate::sut::{self, Out};
use std::collections::HashMap;
use std::path::Path;

type Case = Result<(), Failure>;

pub const CHECKS: &[Check] = &[
    Check {
        id: "C03",
        quick: 480_000,
        thorough: 7_200_000,
        rule: "a distinct history of at least three calls on one buffer, with a call that fails or a result shorter than what was there before",
        assumptions: &["what a call into a buffer ought to leave there is what a call with a result of its own returns"],
        case: buffers,
        workers: 8,
    },
    Check {
        id: "C04",
        quick: 48_000,
        thorough: 720_000,
        rule: "a distinct list of at least three symbols, demangled in several orders, threads, or processes",
        assumptions: &["threads are scheduled by the operating system: their interleavings are sampled, not enumerated"],
        case: pure,
        workers: 4,
    },
];

fn input(r: &mut Src) -> String {
    let corpus = mutate::corpus();
    match r.u(5) {
        0 => (*r.pick(&corpus)).to_string(),
        1 | 2 => {
            let c = broad(r);
            let st = style(r);
            let s = G::new(r, c).any();
            mangle(&s, st, r).text
        }
        3 => {
            // things that fail late: after some text was written
            let n = 1 + r.u(30);
            match r.u(3) {
                0 => format!("?f@@YAXV{}@@{}@Z", "n".repeat(40_000), "0".repeat(n)),
                1 => format!("?f@@YAXP6AX{}@Z@Z", "H".repeat(n * 100)),
                _ => format!("{}\u{1F980}", r.pick(&corpus)),
            }
        }
        _ => mutate::any_string(r, &corpus),
    }
}

fn buffers(r: &mut Src, ctx: &mut Ctx) -> Case {
    let what = "a buffer doesn't hold the result of the last call";
    let mut buf = match r.u(4) {
        0 => String::new(),
        1 => String::with_capacity(r.u(5000)),
        2 => "é old \u{1F980} text ".repeat(1 + r.u(300)),
        _ => (*r.pick(&["x", "int ", "class", "\u{10FFFF}", "a_", ">", "$", " "])).to_string(),
    };
    let n = 1 + r.u(6);
    let mut key = String::new();
    let (mut failed, mut shorter) = (false, false);
    for _ in 0..n {
        let s = input(r);
        let fl = if r.p(1, 3) { some_flags(r) } else { 0 };
        if r.p(1, 6) {
            // the caller does as it likes with it
            match r.u(3) {
                0 => buf.push_str("\u{1F980}junk"),
                1 => buf = String::new(),
                _ => buf.shrink_to_fit(),
            }
        }
        let fresh = ctx.sut(&s, fl);
        ctx.eval();
        let (before, cap) = (buf.len(), buf.capacity());
        let at = buf.as_ptr();
        ctx.about_to(&s, fl);
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| undname::demangle_into(&s, sut::flags(fl), &mut buf)));
        ctx.done();
        let Ok(res) = res else {
            return Err(fail(what, &s, fl, fresh.describe(), "PANIC".into()));
        };
        let got = match &res {
            Ok(()) => format!("{buf:?}"),
            Err(e) => format!("rejected ({e}), leaving {buf:?}"),
        };
        if std::str::from_utf8(buf.as_bytes()).is_err() {
            return Err(fail("a buffer isn't valid UTF-8", &s, fl, "text".into(), format!("{:?}", buf.as_bytes())));
        }
        match (&res, &fresh) {
            (Ok(()), Out::Ok(t)) if *t == buf => (),
            (Err(e), Out::Err(f)) if e.to_string() == *f && buf.is_empty() => failed = true,
            _ => return Err(fail(what, &s, fl, format!("{}, and nothing else in the buffer", fresh.describe()), got)),
        }
        // the caller's allocation comes back to it, to be used again
        if buf.capacity() < cap {
            return Err(fail(
                "a buffer lost its allocation",
                &s,
                fl,
                format!("a capacity of at least {cap}"),
                format!("{}", buf.capacity()),
            ));
        }
        let _ = at;
        shorter |= buf.len() < before;
        key.push_str(&s);
        key.push('\n');
    }
    if n >= 3 && (failed || shorter) {
        ctx.nontrivial(&key, 0);
        ctx.sample(|| key.clone());
    }
    if failed {
        ctx.class("with a failure");
    }
    if shorter {
        ctx.class("with a shorter result");
    }
    Ok(())
}

/// Symbols that look much alike, one after another in the same memory.
fn in_place(r: &mut Src, ctx: &mut Ctx, what: &str, list: &[(String, u16)]) -> Case {
    let (mut s, fl) = r.pick(list).clone();
    if s.len() > 5000 {
        return Ok(());
    }
    if r.p(1, 2) {
        // a long one, the same at either end
        let pad = "p".repeat(r.u(300));
        s = format!("?{pad}{}@@YAXV{}@{}@@@Z", r.pick(&["a", "b"]), r.pick(&["c", "d"]), pad);
    }
    let variant = |r: &mut Src, s: &str| {
        let mut b = s.as_bytes().to_vec();
        for _ in 0..1 + r.small(2) {
            let i = r.u(b.len().max(1));
            if b.get(i).is_some_and(u8::is_ascii_alphanumeric) {
                b[i] = *r.pick(b"HIMNabq012ABZX");
            }
        }
        String::from_utf8(b).unwrap_or_else(|_| s.to_string())
    };
    let n = 2 + r.small(5);
    let mut all = vec![s.clone()];
    for _ in 0..n {
        let from = if r.p(1, 2) { &s } else { all.last().unwrap() };
        let v = variant(r, from);
        // back to the first one, at times
        all.push(if r.p(1, 8) { s.clone() } else { v });
    }
    // each in a place of its own
    let fresh: Vec<Out> = all.iter().map(|s| ctx.sut(s, fl)).collect();
    let mut room = s.clone();
    let mut buf = String::new();
    for (s, want) in all.iter().zip(&fresh) {
        room.clear();
        room.push_str(s);
        let o = if r.p(1, 3) {
            match undname::demangle_into(&room, sut::flags(fl), &mut buf) {
                Ok(()) => Out::Ok(buf.clone()),
                Err(e) => Out::Err(e.to_string()),
            }
        } else {
            ctx.sut(&room, fl)
        };
        ctx.eval();
        if o != *want {
            let how = format!("{} where {all:?} were, one after another", o.describe());
            return Err(fail(what, s, fl, want.describe(), how));
        }
    }
    ctx.class("in place");
    Ok(())
}

/// What programs let themselves be told by their environment.
const VARIABLES: &[(&str, &str)] = &[
    ("LANG", "tr_TR.UTF-8"),
    ("LC_ALL", "de_DE.UTF-8"),
    ("LANGUAGE", "ja"),
    ("TZ", "Asia/Kathmandu"),
    ("TERM", "dumb"),
    ("COLUMNS", "20"),
    ("NO_COLOR", "1"),
    ("CLICOLOR_FORCE", "1"),
    ("RUST_BACKTRACE", "full"),
    ("RUST_LOG", "trace"),
    ("DEBUG", "1"),
    ("CI", "1"),
    ("HOME", "/nonexistent"),
    ("PATH", "/nonexistent"),
    ("_NT_SYMBOL_PATH", "srv*"),
    ("_NO_UNDNAME", "1"),
    ("UNDNAME_FLAGS", "1023"),
    ("UNDNAME_DEBUG", "1"),
];

/// A long history of calls on the same thread.
fn long(r: &mut Src, ctx: &mut Ctx, what: &str) -> Case {
    // in which everything there is shows
    let symbols = [
        "?f@?$C@PEIAUS@@$0A@@N@@QEDAPEIAVT@@PEIFAU2@W4E@@@Z",
        "?x@C@@2PEIAVT@@EIA",
        "?i@?1??f@?A0x1@@YAXPAU1@@Z@4HA",
        "?f@@YAX",
        "??_C@_03CRC@a?6b@",
    ];
    let flags = [0u16, 0x1ff, 1 << 9, some_flags(r)];
    let list: Vec<(&str, u16)> = symbols.iter().flat_map(|s| flags.map(|f| (*s, f))).collect();
    let first: Vec<Out> = list.iter().map(|(s, fl)| ctx.sut(s, *fl)).collect();
    let n = if ctx.quiet { 1 << 18 } else if ctx.tier == Tier::Quick { 1 << 17 } else { 1 << 19 };
    let mut b = String::new();
    // the choices are too many for the source of randomness
    let mut x = r.below(u64::MAX) | 1;
    for j in 0..n {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        let i = (x >> 33) as usize % list.len();
        let r = undname::demangle_into(list[i].0, sut::flags(list[i].1), &mut b);
        let same = match (&first[i], &r) {
            (Out::Ok(t), Ok(())) => *t == b,
            (Out::Err(t), Err(e)) => *t == e.to_string(),
            _ => false,
        };
        if !same {
            let o = format!("{} at the {j}th call", if r.is_ok() { &b } else { "an error" });
            return Err(fail(what, list[i].0, list[i].1, first[i].describe(), o));
        }
    }
    ctx.class_n("calls in a long history", n);
    Ok(())
}

fn pure(r: &mut Src, ctx: &mut Ctx) -> Case {
    let what = "the result depends on something other than the arguments";
    let n = 2 + r.u(10);
    let list: Vec<(String, u16)> = (0..n)
        .map(|_| {
            let s = input(r);
            let fl = if r.p(1, 2) { some_flags(r) } else { 0 };
            (s, fl)
        })
        .collect();
    // the same symbols with different flags
    let mut list: Vec<(String, u16)> = list.iter().flat_map(|(s, fl)| [(s.clone(), *fl), (s.clone(), 0)]).collect();
    list.dedup();
    let first: Vec<Out> = list.iter().map(|(s, fl)| ctx.sut(s, *fl)).collect();
    let key: String = list.iter().map(|(s, fl)| format!("{s} {fl}\n")).collect();
    let differ = |i: usize, how: &str, o: &Out| {
        let mut d = o.describe();
        d.push_str(how);
        Err(fail(what, &list[i].0, list[i].1, first[i].describe(), d))
    };
    // again, backwards, and at random
    let order: Vec<usize> = (0..list.len()).rev().chain((0..list.len()).map(|_| r.u(list.len()))).collect();
    for i in order {
        let o = ctx.sut(&list[i].0, list[i].1);
        ctx.eval();
        if o != first[i] {
            return differ(i, " in another order", &o);
        }
    }
    // as a part of something longer, elsewhere in memory
    for (i, (s, fl)) in list.iter().enumerate() {
        let junk = *r.pick(&["@@3HA", "0123456789", "\u{1F980}", "ZZZ@@", "?$", "\u{0}"]);
        let pad = r.u(9);
        let big = format!("{}{junk}{s}{junk}", "x".repeat(pad));
        let part = &big[pad + junk.len()..pad + junk.len() + s.len()];
        let o = ctx.sut(part, *fl);
        ctx.eval();
        if o != first[i] {
            return differ(i, " within a longer text", &o);
        }
    }
    ctx.class("orders");
    in_place(r, ctx, what, &list)?;
    // at the same time
    if r.p(1, 4) {
        let barrier = std::sync::Barrier::new(4);
        let (list_, first_, barrier) = (&list, &first, &barrier);
        let bad = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..4usize)
                .map(|k| {
                    std::thread::Builder::new()
                        .stack_size(2 << 20)
                        .spawn_scoped(sc, move || {
                            barrier.wait();
                            for j in 0..3 * list_.len() {
                                let i = (j * (2 * k + 1) + k) % list_.len();
                                let o = sut::run(&list_[i].0, list_[i].1);
                                if o != first_[i] {
                                    return Some((i, o));
                                }
                            }
                            None
                        })
                        .unwrap()
                })
                .collect();
            hs.into_iter().filter_map(|h| h.join().unwrap()).next()
        });
        if let Some((i, o)) = bad {
            return differ(i, " on several threads at once", &o);
        }
        ctx.class("threads");
    }
    // after so many others that whatever counts them gets to where it starts over
    if r.p(1, 512) {
        long(r, ctx, what)?;
    }
    // in a process that did nothing else
    if r.p(1, 64) {
        let i = r.u(list.len());
        let dir = ctx.scratch.clone();
        // in surroundings of its own, too
        let vars: &[(&str, &str)] = *r.pick(&[&[][..], VARIABLES]);
        let cwd = if r.p(1, 2) { Path::new("/") } else { &dir };
        let end = run::in_process(&list[i].0, list[i].1, &dir, Some((vars, cwd)));
        if let End::Fine(t) = &end {
            // describe() of a text is a single line
            if *t != first[i].describe() {
                return Err(fail(what, &list[i].0, list[i].1, first[i].describe(), format!("{t} in a process of its own")));
            }
        }
        ctx.class("processes");
    }
    // hashing and the like must not depend on the process: compare with what came before
    let mut seen: HashMap<&(String, u16), &Out> = HashMap::new();
    for (i, k) in list.iter().enumerate() {
        if let Some(o) = seen.insert(k, &first[i]) {
            if *o != first[i] {
                return differ(i, " the second time", &first[i]);
            }
        }
    }
    if list.len() >= 3 {
        ctx.nontrivial(&key, 0);
        ctx.sample(|| key.clone());
    }
    Ok(())
}
