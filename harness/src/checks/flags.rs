//! What flags do, and what they don't.

use super::{broad, expect, some_flags, style};
use crate::ast::*;
use crate::eng::Src;
use crate::gen::G;
use crate::mangle::mangle;
use crate::mutate;
use crate::print;
use crate::run::{fail, Check, Ctx, Failure};
use crate::sut::Out;
use std::rc::Rc;

type Case = Result<(), Failure>;

pub const CHECKS: &[Check] = &[
    Check {
        id: "C13",
        quick: 1_920_000,
        thorough: 28_800_000,
        rule: "a distinct (symbol, flags) whose text differs from the one without flags",
        assumptions: &["the model of what each flag removes (harness/src/print.rs) follows the documentation of the flags"],
        case: flags,
        workers: 8,
    },
    Check {
        id: "C14",
        quick: 3_600_000,
        thorough: 54_000_000,
        rule: "a distinct symbol for which there's more to show than the name",
        assumptions: &["thunk adjustments are taken to be part of the name, as they are in the original"],
        case: name_only,
        workers: 8,
    },
];

/// but for spaces: where text was removed, one may be needed to keep apart what's left
fn subsequence(a: &str, b: &str) -> bool {
    let mut it = b.chars();
    a.chars().filter(|c| *c != ' ').all(|c| it.any(|d| c == d))
}

fn flags(r: &mut Src, ctx: &mut Ctx) -> Case {
    let corpus = mutate::corpus();
    let what = "a flag did something other than remove its own text";
    let (sym, text) = if r.p(2, 3) {
        let c = broad(r);
        let st = style(r);
        let s = G::new(r, c).any();
        let t = mangle(&s, st, r).text;
        (Some(s), t)
    } else {
        (None, mutate::any_string(r, &corpus))
    };
    let plain = ctx.sut(&text, 0);
    let f1 = some_flags(r);
    let f2 = f1 | some_flags(r);
    let (a, b) = (ctx.sut(&text, f1), ctx.sut(&text, f2));
    ctx.eval();
    for (fl, o) in [(f1, &a), (f2, &b)] {
        // acceptance is the same with all flags, up to the limit on how long a text may get
        let near_limit = |o: &Out| o.ok().is_some_and(|t| t.len() > 200_000);
        if plain.ok().is_some() != o.ok().is_some() && !near_limit(&plain) && !near_limit(o) && !explosive(&text) {
            return Err(fail("flags changed whether a symbol demangles", &text, fl, plain.describe(), o.describe()));
        }
        if let Some(s) = &sym {
            expect(ctx, what, s, &text, fl)?;
        }
    }
    let texts = [(0, &plain), (f1, &a), (f2, &b)];
    for (i, (_, x)) in texts.iter().enumerate() {
        for (fl, y) in &texts[i + 1..] {
            if let (Some(x), Some(y)) = (x.ok(), y.ok()) {
                // more flags, less text
                if !subsequence(y, x) {
                    return Err(fail(what, &text, *fl, format!("less than {x:?}"), format!("{y:?}")));
                }
            }
        }
    }
    for (fl, o) in [(f1, &a), (f2, &b)] {
        if o.ok().is_some() && o.ok() != plain.ok() {
            ctx.nontrivial(&text, fl.into());
            ctx.sample(|| format!("{text} flags {fl:#x}: {}", o.describe()));
            for i in 0..10 {
                if fl & (1 << i) != 0 {
                    ctx.class(NAMES[i]);
                }
            }
        }
    }
    // the documented other names of flags
    use undname::Flags as F;
    if [
        (F::NO_ALLOCATION_LANGUAGE, F::NO_CALLING_CONVENTION),
        (F::NO_ECSU, F::NO_TAG_SPECIFIER),
        (F::NO_ACCESS_SPECIFIERS, F::NO_ACCESS_SPECIFIER),
        (F::NO_FUNCTION_RETURNS, F::NO_RETURN_TYPE),
    ]
    .iter()
    .any(|(a, b)| a != b)
    {
        return Err(fail("two names of the same flag differ", "", 0, String::new(), String::new()));
    }
    Ok(())
}

/// texts made of back-references to long templates can get past the limit
fn explosive(s: &str) -> bool {
    s.len() > 5_000
}

const NAMES: [&str; 10] = [
    "NO_CALLING_CONVENTION",
    "NO_TAG_SPECIFIER",
    "NO_ACCESS_SPECIFIER",
    "NO_MEMBER_TYPE",
    "NO_RETURN_TYPE",
    "NO_VARIABLE_TYPE",
    "NO_THISTYPE",
    "NO_LEADING_UNDERSCORES",
    "NO_MS_KEYWORDS",
    "NAME_ONLY",
];

fn name_only(r: &mut Src, ctx: &mut Ctx) -> Case {
    let what = "NAME_ONLY shows something other than the name";
    let c = broad(r);
    let st = style(r);
    let mut g = G::new(r, c);
    let s = g.any();
    // the same name, declared as something else
    let twin = match &s {
        Sym::Fn(n, fc, f) if fc.thunk == Thunk::None && f.ret.is_some() && !matches!(base_of(n.leaf()), Piece::Conv) && !matches!(n.leaf(), Piece::DynVar(..) | Piece::DynName(..)) => {
            Some(match g.r.u(3) {
                0 => Sym::Var(n.clone(), 3, g.variable_type()),
                1 => Sym::NoParams(n.clone(), true),
                _ => {
                    let f = g.fn_type(!fc.global && !fc.is_static, true);
                    Sym::Fn(n.clone(), *fc, Rc::new(f))
                }
            })
        }
        Sym::Var(n, _, t) => {
            let t = if g.r.p(1, 2) { g.variable_type() } else { t.clone() };
            Some(Sym::Var(n.clone(), g.r.below(5) as u8, t))
        }
        _ => None,
    };
    let m = mangle(&s, st, r).text;
    // other flags may be set as well
    let fl = print::NAME_ONLY | if r.p(1, 2) { some_flags(r) } else { 0 };
    expect(ctx, what, &s, &m, fl)?;
    let o = ctx.sut(&m, fl);
    if let Some(t) = twin {
        let n = mangle(&t, st, r).text;
        let p = ctx.sut(&n, fl);
        if let (Some(a), Some(b)) = (o.ok(), p.ok()) {
            if a != b {
                return Err(fail(what, &n, fl, format!("{a:?}, as for {m}"), format!("{b:?}")));
            }
            ctx.class("same name, other signature");
        }
        expect(ctx, what, &t, &n, fl)?;
    }
    if o.ok() != ctx.sut(&m, 0).ok() {
        ctx.nontrivial(&m, fl.into());
        ctx.sample(|| format!("{m}: {}", o.describe()));
    }
    Ok(())
}
