//! Any text at all: what's a symbol, what isn't, and what names may look like.

use super::{broad, expect_verdict, some_flags, style};
use crate::ast::*;
use crate::eng::Src;
use crate::gen::{G, PLAIN};
use crate::llvm;
use crate::mangle::{mangle, COMPILER};
use crate::mutate;
use crate::print;
use crate::refdem::{self, Verdict};
use crate::run::{fail, Check, Ctx, Failure};

type Case = Result<(), Failure>;

pub const CHECKS: &[Check] = &[
    Check {
        id: "C15",
        quick: 3_200_000,
        thorough: 48_000_000,
        rule: "a distinct text that the reference grammar decides on (accepted with a text, or rejected after at least four characters)",
        assumptions: &[
            "the reference demangler (harness/src/refdem.rs) is right about the grammar; where compilers give no answer (codes without a meaning, text after a complete symbol), no claim is made",
        ],
        case: grammar,
        workers: 8,
    },
    Check {
        id: "C16",
        quick: 3_600_000,
        thorough: 54_000_000,
        rule: "a distinct symbol with an identifier that has non-ASCII or otherwise unusual characters",
        assumptions: &["identifiers don't contain '@' and don't begin with a digit or '?', which the encoding has no way to spell"],
        case: renaming,
        workers: 8,
    },
    Check {
        id: "C17",
        quick: 3_200_000,
        thorough: 48_000_000,
        rule: "a distinct symbol that both demangle to the same text, of at least ten characters",
        assumptions: &[
            "LLVM 18's demangler is the other implementation; constructs that it's known not to support or to get wrong (harness/src/llvm.rs) are left out",
        ],
        case: llvm_agrees,
        workers: 8,
    },
];

/// Dozens of levels of everything in one another, which no limit may get in the way of.
pub fn deep(r: &mut Src, ctx: &mut Ctx, what: &str) -> Case {
    let most = *r.pick(&[12, 40]);
    let levels = 1 + r.u(most);
    let st = style(r);
    let s = G::new(r, PLAIN).deep(levels);
    let fl = if r.p(1, 3) { some_flags(r) } else { 0 };
    let Ok(want) = print::print(&s, fl) else { return Ok(()) };
    if want.len() > 300_000 {
        return Ok(());
    }
    let m = mangle(&s, st, r).text;
    let o = ctx.sut(&m, fl);
    ctx.eval();
    ctx.class(match levels {
        0..=9 => "up to ten levels of nesting",
        10..=19 => "up to twenty levels of nesting",
        _ => "more levels of nesting",
    });
    ctx.nontrivial(&m, fl.into());
    if o.ok() != Some(&want) {
        return Err(fail(what, &m, fl, format!("{want:?}"), o.describe()));
    }
    Ok(())
}

fn grammar(r: &mut Src, ctx: &mut Ctx) -> Case {
    if r.p(1, 16) {
        return deep(r, ctx, "a text wasn't treated according to the grammar of symbols");
    }
    let corpus = mutate::corpus();
    let s = match r.w(&[6, 3, 1]) {
        0 => mutate::any_string(r, &corpus),
        1 => {
            let c = broad(r);
            let st = style(r);
            let s = G::new(r, c).any();
            let t = mangle(&s, st, r).text;
            mutate::mutate(r, &t, &corpus)
        }
        _ => {
            // every start of a symbol
            let c = broad(r);
            let st = style(r);
            let s = G::new(r, c).any();
            let mut t = mangle(&s, st, r).text;
            let mut i = r.u(t.len() + 1);
            while !t.is_char_boundary(i) {
                i -= 1;
            }
            t.truncate(i);
            t
        }
    };
    let fl = if r.p(1, 2) { some_flags(r) } else { 0 };
    let v = expect_verdict(ctx, "a text wasn't treated according to the grammar of symbols", &s, fl)?;
    match v {
        Verdict::Reject => {
            ctx.class("must be rejected");
            if s.len() >= 4 {
                ctx.nontrivial(&s, 0);
            }
        }
        Verdict::Text(_) => {
            ctx.class("must be accepted");
            ctx.nontrivial(&s, fl.into());
            ctx.sample(|| s.clone());
        }
        Verdict::Maybe(_) => ctx.class("may be accepted"),
        Verdict::Any => ctx.class("undecided"),
    }
    Ok(())
}

// ---- identifiers

const PIECES: &[&str] = &[
    "a", "Z", "_", "$", "é", "ß", "日本", "имя", "\u{1F980}", "λ", "\u{10FFFF}", "\u{80}", "\u{7ff}", "\u{800}", "\u{ffff}", "\u{301}", "<x>", "-", ".", " ",
    // digits, spaces and the like of other scripts
    "٣", "²", "½", "Ⅷ", "०", "\u{3000}", "\u{a0}", "\u{2003}", "\u{200b}", "\u{feff}", "\u{85}", "\u{2028}", "\u{202e}", "\u{ad}", "İ", "ǆ", "ﬁ", "e\u{301}", "\u{fffd}", "＠", "？", "\u{d7ff}", "\u{e000}",
    "\0", "\n", "\u{b}", "%", "#", "[", "]", "|", "^", "+", "!", "/", ";", "=",
    "?", "0", "9", "A", "V", "const", "operator", "`", "'", "~", ",", "(", ")", "&", "*", "::", "\u{7f}", "\t", "\"", "\\", "{", "}", "AAA", "int",
];

fn odd_name(r: &mut Src) -> String {
    let n = 1 + r.small(6);
    let mut s = String::new();
    for _ in 0..n {
        match r.w(&[15, 1]) {
            0 => s.push_str(r.pick(PIECES)),
            _ => s.push(char::from_u32(r.below(0x11_0000) as u32).filter(|c| *c != '@').unwrap_or('x')),
        }
    }
    if r.p(1, 16) {
        let n = r.u(3000);
        s.push_str(&(*r.pick(&["x", "é", "日"])).repeat(n));
    }
    // digits refer back, and '?' starts something else; `<` never gets here first
    if s.starts_with(|c: char| c.is_ascii_digit() || c == '?') {
        s.insert(0, 'q');
    }
    // what comes after a name may depend on whether it ends in a word, as the placeholders do
    if !s.ends_with(print::wordy) {
        s.push_str(r.pick(&["q", "é", "_", "$", "\u{1F980}", "日", "\u{3000}", "\u{a0}", "\u{feff}", "\u{301}", "٣", "½", "\u{200b}", "ſ"]));
    }
    s
}

fn renaming(r: &mut Src, ctx: &mut Ctx) -> Case {
    let mut c = broad(r);
    c.ids = 3;
    let st = style(r);
    let s = G::new(r, c).any();
    let m = mangle(&s, st, r).text;
    if print::print(&s, 0).is_err() {
        return Ok(());
    }
    // placeholders are qz<n>q
    let mut ids = Vec::new();
    let mut rest = m.as_str();
    while let Some(i) = rest.find("qz") {
        let t = &rest[i..];
        let e = t[2..].find('q').map(|j| j + 3).unwrap();
        let p = &t[..e];
        if !ids.iter().any(|x: &String| x == p) {
            ids.push(p.to_string());
        }
        rest = &t[e..];
    }
    if ids.is_empty() {
        return Ok(());
    }
    let fl = if r.p(1, 2) { some_flags(r) } else { 0 };
    let o = ctx.sut(&m, fl);
    ctx.eval();
    let what = "an identifier isn't shown as it is";
    let Some(text) = o.ok() else {
        if refdem::demangle(&m, fl).allows(&o.as_result()) {
            return Ok(());
        }
        return Err(fail(what, &m, fl, "a text".into(), o.describe()));
    };
    // every identifier that's a part of the name of the symbol itself is there
    if let Some(n) = s.name() {
        for p in n.0.iter() {
            if let Piece::Id(t) = p {
                if !text.contains(&**t) {
                    return Err(fail(what, &m, fl, format!("a text with {t}"), o.describe()));
                }
            }
        }
    }
    let mut names: Vec<String> = Vec::new();
    for (i, _) in ids.iter().enumerate() {
        let mut n = odd_name(r);
        if n.starts_with('$') && (m.contains("??__E") || m.contains("??__F")) {
            // `?$` is the start of the name of a template
            n.insert(0, 'q');
        }
        if names.contains(&n) {
            n.push_str(&format!("q{i}"));
        }
        names.push(n);
    }
    let sub = |t: &str| {
        let mut t = t.to_string();
        for (a, b) in ids.iter().zip(&names) {
            t = t.replace(a.as_str(), b);
        }
        t
    };
    let m2 = sub(&m);
    // a name can't contain what stands for another
    if names.iter().any(|n| n.contains("qz")) || m2.len() > 20_000 {
        return Ok(());
    }
    let want = sub(text);
    let o2 = ctx.sut(&m2, fl);
    ctx.nontrivial(&m2, fl.into());
    ctx.sample(|| m2.clone());
    if o2.ok() != Some(&want) {
        if want.len() > 500_000 {
            return Ok(());
        }
        return Err(fail(what, &m2, fl, format!("{want:?}"), o2.describe()));
    }
    Ok(())
}

// ---- LLVM

fn llvm_agrees(r: &mut Src, ctx: &mut Ctx) -> Case {
    if !llvm::AVAILABLE {
        // counted nowhere, so that the check as a whole reports that it did nothing
        return Ok(());
    }
    let corpus = mutate::corpus();
    let s = match r.w(&[4, 3]) {
        0 => {
            let mut c = PLAIN;
            c.fuel = 4 + r.below(30) as i32;
            c.reuse = r.below(12);
            c.ids = 0;
            c.anon = false;
            c.declarators = r.p(1, 3);
            c.max_params = *r.pick(&[3, 5, 14]);
            let s = G::new(r, c).any();
            mangle(&s, COMPILER, r).text
        }
        _ => mutate::any_string(r, &corpus),
    };
    ctx.eval();
    let Ok((sym, false)) = refdem::parse(&s) else { return Ok(()) };
    if !llvm::comparable(&s, &sym) {
        ctx.class("left out");
        return Ok(());
    }
    let o = ctx.sut(&s, 0);
    let Some((want, _)) = llvm::demangle(&s, 0) else {
        ctx.class("not known to LLVM");
        return Ok(());
    };
    if o.ok() == Some(&want) {
        ctx.class("same");
        if s.len() >= 10 {
            ctx.nontrivial(&s, 0);
            ctx.sample(|| format!("{s} is {want}"));
        }
        return Ok(());
    }
    // something else that LLVM does its own way?
    if refdem::demangle(&s, 0).allows(&o.as_result()) {
        ctx.class("differs as expected");
        return Ok(());
    }
    Err(fail("LLVM demangles the symbol differently", &s, 0, format!("{want:?}"), o.describe()))
}
