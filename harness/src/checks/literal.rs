//! String literals, and numbers in all of the places they can be in.

use super::forms::VOID_FN;
use super::{expect_verdict, some_flags};
use crate::ast::*;
use crate::eng::Src;
use crate::mangle::{self, mangle, Backrefs, Style};
use crate::mutate;
use crate::print;
use crate::refdem;
use crate::run::{fail, Check, Ctx, Failure};
use std::rc::Rc;

type Case = Result<(), Failure>;

pub const CHECKS: &[Check] = &[
    Check {
        id: "C11",
        quick: 12_000_000,
        thorough: 180_000_000,
        rule: "a distinct literal with at least one character that isn't a letter or digit, or characters wider than a byte, or which is cut off",
        assumptions: &[
            "for literals whose encoding is the same as that of another one of a different character type (embedded zeroes), no particular reading is claimed",
        ],
        case: literals,
        workers: 8,
    },
    Check {
        id: "C12",
        quick: 12_000_000,
        thorough: 180_000_000,
        rule: "a distinct spelling of a symbol with at least one number above ten or below zero",
        assumptions: &["numbers of more than 16 digits or without any are left out: no compiler writes them; signed numbers beyond 63 bits may be rejected"],
        case: numbers,
        workers: 8,
    },
];

/// One byte of a literal.
fn byte(out: &mut String, b: u8, r: &mut Src, odd: bool) {
    let hex = |out: &mut String| {
        out.push_str("?$");
        out.push((b'A' + (b >> 4)) as char);
        out.push((b'A' + (b & 15)) as char);
    };
    if odd && r.p(1, 4) {
        return hex(out);
    }
    match b {
        b'0'..=b'9' | b'a'..=b'z' | b'A'..=b'Z' | b'_' | b'$' => out.push(b as char),
        _ => {
            if let Some(i) = b",/\\:. \n\t'-".iter().position(|x| *x == b) {
                out.push('?');
                out.push((b'0' + i as u8) as char);
            } else if b >= 0x80 && (b & 0x7f).is_ascii_alphabetic() {
                out.push('?');
                out.push((b & 0x7f) as char);
            } else {
                hex(out);
            }
        }
    }
}

/// The symbol of a literal: kind 0 wchar_t, 1 char, 2 char16_t, 4 char32_t.
pub fn literal(kind: u8, chars: &[u32], r: &mut Src, odd: bool) -> (String, Vec<u8>, u64) {
    let size = if kind == 0 { 2 } else { kind as usize };
    let mut bytes = vec![];
    for c in chars.iter().chain(&[0]) {
        for i in 0..size {
            let i = if kind == 0 { size - 1 - i } else { i };
            bytes.push((c >> (8 * i)) as u8);
        }
    }
    let len = bytes.len() as u64;
    // some compilers were more generous than others
    bytes.truncate(match r.w(&[12, 2, 1]) {
        _ if kind == 0 => 64,
        0 => 32,
        1 => 32 + 4 * r.u(25),
        _ => size * r.u(32 / size + 1),
    });
    let mut s = String::from(if kind == 0 { "??_C@_1" } else { "??_C@_0" });
    s.push_str(&mangle::number(len));
    for _ in 0..8 {
        s.push((b'A' + r.below(16) as u8) as char);
    }
    s.push('@');
    for b in &bytes {
        byte(&mut s, *b, r, odd);
    }
    s.push('@');
    (s, bytes, len)
}

/// the start of a literal's symbol, the end of it (the checksum is between them), and its text
pub fn literal_parts(kind: u8, chars: &[u32]) -> Option<(String, String, String)> {
    let (s, bytes, len) = literal(kind, chars, &mut Src::replay(vec![]), false);
    if kind != 0 && refdem::char_size(&bytes, len) != kind as usize {
        return None;
    }
    let i = s.find("AAAAAAAA@").unwrap();
    let size = if kind == 0 { 2 } else { kind as usize };
    let cut = len > bytes.len() as u64;
    let shown = if cut { &chars[..bytes.len() / size] } else { chars };
    let want = print::str_lit(&StrLit { kind, chars: shown.to_vec(), truncated: cut });
    Some((s[..i].into(), s[i + 8..].into(), want))
}

fn characters(r: &mut Src) -> (u8, Vec<u32>) {
    let kind = *r.pick(&[1u8, 0, 2, 4]);
    let n = match r.w(&[4, 3, 2, 1]) {
        0 => r.u(8),
        1 => r.u(33),
        2 => 24 + r.u(16),
        _ => r.u(400),
    };
    let max: u64 = match kind {
        1 => 0x100,
        4 => 0x11_0000,
        _ => 0x1_0000,
    };
    let style = r.u(4);
    let mut chars: Vec<u32> = (0..n)
        .map(|_| match style {
            0 => u32::from(*r.pick(b"abcXYZ019 _")),
            1 => 0x20 + r.below(0x5f) as u32,
            2 => r.below(0x100) as u32,
            _ => r.below(max) as u32,
        })
        .collect();
    if r.p(3, 4) {
        for c in &mut chars {
            if *c == 0 {
                *c = b'q'.into();
            }
        }
    }
    (kind, chars)
}

/// the symbol of some literal
pub fn any_literal(r: &mut Src) -> String {
    let (kind, chars) = characters(r);
    let odd = r.p(1, 3);
    literal(kind, &chars, r, odd).0
}

fn literals(r: &mut Src, ctx: &mut Ctx) -> Case {
    let (kind, chars) = characters(r);
    let odd = r.p(1, 3);
    let (s, bytes, len) = literal(kind, &chars, r, odd);
    if kind != 0 && refdem::char_size(&bytes, len) != kind as usize {
        ctx.class("ambiguous");
        ctx.eval();
        let o = ctx.sut(&s, 0);
        if let crate::sut::Out::Panic(_) = o {
            return Err(fail("a string literal isn't shown as written", &s, 0, "a literal".into(), o.describe()));
        }
        return Ok(());
    }
    let size = if kind == 0 { 2 } else { kind as usize };
    let cut = len > bytes.len() as u64;
    let shown = if cut { &chars[..bytes.len() / size] } else { &chars[..] };
    let want = print::str_lit(&StrLit { kind, chars: shown.to_vec(), truncated: cut });
    let fl = if r.p(1, 4) { some_flags(r) } else { 0 };
    ctx.eval();
    ctx.class(match (kind, cut) {
        (0, false) => "wchar_t",
        (0, true) => "wchar_t, cut off",
        (1, false) => "char",
        (1, true) => "char, cut off",
        (2, false) => "char16_t",
        (2, true) => "char16_t, cut off",
        (_, false) => "char32_t",
        (_, true) => "char32_t, cut off",
    });
    if cut || kind != 1 || chars.iter().any(|c| !u8::try_from(*c).is_ok_and(|b| b.is_ascii_alphanumeric())) {
        ctx.nontrivial(&s, 0);
        ctx.sample(|| format!("{s} is {want}"));
    }
    let o = ctx.sut(&s, fl);
    let what = "a string literal isn't shown as written";
    if o.ok() != Some(&want) {
        return Err(fail(what, &s, fl, format!("{want:?}"), o.describe()));
    }
    if r.p(1, 8) {
        // damaged
        let t = mutate::mutate(r, &s, &[&s, "??_C@_13PEFGMJLA@?$AAh?$AAi?$AA?$AA@"]);
        expect_verdict(ctx, what, &t, 0)?;
    }
    Ok(())
}

fn value(r: &mut Src) -> u64 {
    match r.w(&[3, 3, 4, 2, 1]) {
        0 => r.below(12),
        1 => r.below(300),
        2 => {
            let b = 1 + r.below(63);
            (1u64 << b).wrapping_add(r.below(4)).wrapping_sub(2)
        }
        3 => *r.pick(&[u64::MAX, u64::MAX - 1, 1 << 63, i64::MAX as u64, u64::from(u32::MAX), 1 << 32, i32::MAX as u64, 1 << 31, 0xF, 0x10, 0xFF]),
        _ => r.any(),
    }
}

fn signed(r: &mut Src) -> i64 {
    let v = (value(r) & (i64::MAX as u64)) as i64;
    if r.p(1, 2) {
        -v
    } else {
        v
    }
}

fn signed32(r: &mut Src) -> i32 {
    value(r) as i32
}

/// Numbers whose sign takes part in 64 bits, and which those have no room for.
fn too_large(r: &mut Src, ctx: &mut Ctx) -> Case {
    let v = match r.u(3) {
        0 => 1 << 63,
        1 => value(r) | 1 << 63,
        _ => u64::MAX - r.below(9),
    };
    let neg = r.p(1, 2);
    let num = format!("{}{}", if neg { "?" } else { "" }, mangle::number(v));
    let shown = format!("{}{v}", if neg { "-" } else { "" });
    // offset by offset, among others
    let at = r.u(3);
    let offs = |n: usize| -> (String, String) {
        let m: Vec<_> = (0..n).map(|i| if i == at % n { num.clone() } else { mangle::number(i as u64 + 3) }).collect();
        let t: Vec<_> = (0..n).map(|i| if i == at % n { shown.clone() } else { format!("{}", i + 3) }).collect();
        (m.concat(), t.join(", "))
    };
    let (m, want) = match r.u(7) {
        0 => {
            let (m, t) = offs(2);
            (format!("?x@?$t@$F{m}@@3HA"), format!("int t<{{{t}}}>::x"))
        }
        1 => {
            let (m, t) = offs(3);
            (format!("?x@?$t@$G{m}@@3HA"), format!("int t<{{{t}}}>::x"))
        }
        k @ 2..=4 => {
            let n = k - 1;
            let (m, t) = offs(n);
            let c = [b'H', b'I', b'J'][n - 1] as char;
            (format!("?x@?$t@${c}?f@C@@QEAAXXZ{m}@@3HA"), format!("int t<{{public: void __cdecl C::f(void), {t}}}>::x"))
        }
        5 => (format!("??_R1A@{num}A@3C@@8"), format!("C::`RTTI Base Class Descriptor at (0, {shown}, 0, 4)'")),
        _ => (format!("?f@C@@$0{num}A@EAAXXZ"), format!("[thunk]: public: virtual void __cdecl C::f`vtordisp{{{shown}, 0}}'(void)")),
    };
    let o = ctx.sut(&m, 0);
    ctx.eval();
    ctx.class("beyond 63 bits");
    ctx.nontrivial(&m, 0);
    match o {
        crate::sut::Out::Err(_) => Ok(()),
        crate::sut::Out::Ok(ref t) if *t == want => Ok(()),
        o => Err(fail("a number isn't shown as its value", &m, 0, format!("{want:?}, or an error"), o.describe())),
    }
}

fn numbers(r: &mut Src, ctx: &mut Ctx) -> Case {
    let x = || id("x");
    let int = || Ty::Prim(0, 0);
    let class = |p: Piece| Name::new(vec![p, id("C")]);
    let public = FnClass { access: Access::Public, is_static: false, is_virtual: true, global: false, extern_c: false, thunk: Thunk::None };
    let thunk = |t: Thunk| {
        Sym::Fn(class(id("f")), FnClass { thunk: t, ..public }, Rc::new(FnTy { member: true, ..VOID_FN }))
    };
    let owner = || Sym::Fn(Name::one(id("f")), FnClass { access: Access::None, is_virtual: false, global: true, ..public }, Rc::new(VOID_FN));
    let with_arg = |a: TArg| Sym::Var(Name::new(vec![x(), Piece::Tmpl(Rc::new((id("t"), vec![a])))]), 3, int());
    let u32v = |r: &mut Src| value(r) & 0xffff_ffff;
    let mut neg = false;
    let (class_name, s) = match r.u(12) {
        0 => {
            let v = value(r);
            neg = v != 0 && r.p(1, 2);
            ("template argument", with_arg(TArg::Int(v, neg)))
        }
        1 => {
            let n = 1 + r.small(4);
            let dims = (0..n).map(|_| value(r).max(1)).collect();
            let a = ArrTy { dims, cv: 0, elem: int() };
            let p = PtrTy { aff: Aff::Ptr, cv: 0, p64: true, restrict: false, unaligned: false, class: None, pointee: Ty::Arr(a.into()) };
            ("array bound", Sym::Var(Name::one(x()), 3, Ty::Ptr(p.into())))
        }
        2 => {
            let v = value(r);
            ("local scope", Sym::Var(Name::new(vec![x(), Piece::Local(v, Rc::new(owner()))]), 4, int()))
        }
        3 => {
            let v = value(r);
            let k = 1 + r.below(20);
            let p = Piece::Guard(r.p(1, 2), v & 0xffff_ffff);
            ("guard", Sym::Guard(Name::new(vec![p, Piece::Local(k, Rc::new(owner()))])))
        }
        4 => ("vcall", Sym::Vcall(class(Piece::Vcall(value(r))), Some(0))),
        5 => {
            let p = Piece::BaseDesc(u32v(r), i64::from(signed32(r).max(-i32::MAX)), u32v(r), u32v(r));
            ("base class descriptor", Sym::Untyped(class(p)))
        }
        6 => ("adjustor", thunk(Thunk::Adjustor(value(r) as u32))),
        7 => ("vtordisp", thunk(Thunk::VtorDisp(signed32(r), value(r) as u32))),
        8 => ("vtordispex", thunk(Thunk::VtorDispEx(signed32(r), signed32(r), signed32(r), value(r) as u32))),
        9 => {
            let n = 2 + r.u(2);
            let os = (0..n).map(|_| signed(r)).collect();
            ("data member pointer", with_arg(TArg::MemData(os)))
        }
        10 => {
            let n = 1 + r.u(3);
            let os = (0..n).map(|_| signed(r)).collect();
            ("member function pointer", with_arg(TArg::MemFn(Some(Rc::new(thunk(Thunk::None))), os)))
        }
        _ => {
            let v = value(r);
            neg = v != 0 && r.p(1, 2);
            ("auto template argument", with_arg(TArg::Auto(int(), Rc::new(TArg::Int(v, neg)))))
        }
    };
    let st = Style { backrefs: Backrefs::Never, canonical: r.p(1, 2) };
    let m = mangle(&s, st, r).text;
    let want = print::print(&s, 0).expect("small");
    ctx.eval();
    ctx.class(class_name);
    if neg || m.bytes().any(|b| matches!(b, b'B'..=b'P')) {
        ctx.nontrivial(&m, 0);
        ctx.sample(|| format!("{m} is {want}"));
    }
    let o = ctx.sut(&m, 0);
    let what = "a number isn't shown as its value";
    if o.ok() != Some(&want) {
        return Err(fail(what, &m, 0, format!("{want:?}"), o.describe()));
    }
    if r.p(1, 8) {
        too_large(r, ctx)?;
    }
    if r.p(1, 16) {
        let t = mutate::mutate(r, &m, &[&m, "?x@?$t@$0?IAAAAAAA@$0HPPPPPPP@@@3HA"]);
        expect_verdict(ctx, what, &t, 0)?;
    }
    Ok(())
}
