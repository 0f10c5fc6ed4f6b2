//! The properties, as checks over generated inputs.

use crate::ast::*;
use crate::eng::Src;
use crate::gen::{Cfg, PLAIN};
use crate::mangle::{Backrefs, Style};
use crate::print;
use crate::refdem::{self, Verdict};
use crate::run::{fail, Check, Ctx, Failure};
use crate::sut::Out;

mod api;
mod compile;
pub mod cost;
mod flags;
mod forms;
pub mod literal;
mod platform;
mod relations;
mod robust;
mod sound;
mod strings;

pub fn find(id: &str) -> Option<&'static Check> {
    all().into_iter().find(|c| c.id == id)
}

pub fn all() -> Vec<&'static Check> {
    let mut v = Vec::new();
    for m in [robust::CHECKS, api::CHECKS, forms::CHECKS, literal::CHECKS, flags::CHECKS, strings::CHECKS, relations::CHECKS, cost::CHECKS, compile::CHECKS, sound::CHECKS, platform::CHECKS] {
        v.extend(m.iter());
    }
    v.sort_by_key(|c| c.id);
    v
}

// ---- shared pieces

/// A bit of everything.
pub fn broad(r: &mut Src) -> Cfg {
    let mut c = PLAIN;
    c.fuel = 4 + r.below(36) as i32;
    c.reuse = r.below(14);
    c.ids = r.below(3) as u8;
    c.declarators = r.p(1, 3);
    c.max_params = *r.pick(&[3, 5, 14]);
    c
}

pub fn style(r: &mut Src) -> Style {
    Style {
        backrefs: *r.pick(&[Backrefs::Always, Backrefs::Random, Backrefs::Never]),
        canonical: !r.p(1, 2),
    }
}

/// One flag, some, or all of them.
pub fn some_flags(r: &mut Src) -> u16 {
    match r.u(4) {
        0 => 1 << r.below(10),
        1 => (1 << r.below(10)) | (1 << r.below(10)),
        2 => r.below(1024) as u16,
        _ => print::ALL_FLAGS & !(1 << r.below(10)),
    }
}

/// The text of `sym` according to the model, for its spelling `text`.
pub fn expect(ctx: &mut Ctx, what: &str, sym: &Sym, text: &str, fl: u16) -> Result<bool, Failure> {
    let Ok(want) = print::print(sym, fl) else { return Ok(false) };
    let o = ctx.sut(text, fl);
    ctx.eval();
    if o.ok() == Some(&want) {
        return Ok(true);
    }
    // limits on resources, and what nobody promises
    let v = refdem::demangle(text, fl);
    if matches!(v, Verdict::Maybe(_) | Verdict::Any) && v.allows(&o.as_result()) && !matches!(o, Out::Panic(_)) {
        return Ok(false);
    }
    Err(fail(what, text, fl, format!("{want:?}"), o.describe()))
}

/// What any text must come out as.
pub fn expect_verdict(ctx: &mut Ctx, what: &str, s: &str, fl: u16) -> Result<Verdict, Failure> {
    let v = refdem::demangle(s, fl);
    let o = ctx.sut(s, fl);
    ctx.eval();
    if v.allows(&o.as_result()) && !matches!(o, Out::Panic(_)) {
        return Ok(v);
    }
    Err(fail(what, s, fl, v.describe(), o.describe()))
}
