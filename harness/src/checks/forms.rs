//! Symbols by construction: what's declared is known, and so is its text.

use super::{broad, expect, expect_verdict, some_flags, style};
use crate::ast::*;
use crate::eng::Src;
use crate::gen::{Cfg, G, PLAIN};
use crate::mangle::{mangle, Backrefs, Style};
use crate::mutate;
use crate::print;
use crate::refdem;
use crate::run::{fail, Check, Ctx, Failure};
use crate::visit::{self, Node};
use std::rc::Rc;

type Case = Result<(), Failure>;

const MODEL: &[&str] = &[
    "the model of the declared entity's text (harness/src/print.rs) is right; it was cross-checked against LLVM's demangler and clang's mangler",
    "symbols beyond the implementation's limits (2048 nodes, 256 levels, 1 MiB of text) are left to C01 and C02",
];

pub const CHECKS: &[Check] = &[
    Check {
        id: "C05",
        quick: 6_000_000,
        thorough: 90_000_000,
        rule: "a distinct spelling whose type has at least two nested declarators (pointer, reference, member pointer, array, function)",
        assumptions: MODEL,
        case: types,
        workers: 8,
    },
    Check {
        id: "C06",
        quick: 6_000_000,
        thorough: 90_000_000,
        rule: "a distinct spelling of a function with parameters, and one of: membership, a convention other than cdecl, variadic, noexcept, thunk, structor, conversion, operator",
        assumptions: MODEL,
        case: functions,
        workers: 8,
    },
    Check {
        id: "C07",
        quick: 6_000_000,
        thorough: 90_000_000,
        rule: "a distinct spelling whose name has at least three components, or an anonymous namespace, local scope, operator, constructor, destructor or conversion",
        assumptions: MODEL,
        case: names,
        workers: 8,
    },
    Check {
        id: "C08",
        quick: 4_000_000,
        thorough: 60_000_000,
        rule: "a distinct spelling with at least two template arguments, or one which isn't a plain type",
        assumptions: MODEL,
        case: templates,
        workers: 8,
    },
    Check {
        id: "C09",
        quick: 2_400_000,
        thorough: 36_000_000,
        rule: "a distinct spelling that uses at least one back-reference",
        assumptions: MODEL,
        case: backrefs,
        workers: 8,
    },
    Check {
        id: "C10",
        quick: 6_000_000,
        thorough: 90_000_000,
        rule: "a distinct spelling of a compiler-generated symbol or thunk",
        assumptions: MODEL,
        case: specials,
        workers: 8,
    },
    Check {
        id: "C22",
        quick: 5_000_000,
        thorough: 75_000_000,
        rule: "a pair of different spellings of the same symbol",
        assumptions: MODEL,
        case: spellings,
        workers: 8,
    },
];

fn both(r: &mut Src, ctx: &mut Ctx, what: &str, s: &Sym, st: Style) -> Result<String, Failure> {
    let m = mangle(s, st, r);
    let fl = some_flags(r);
    expect(ctx, what, s, &m.text, 0)?;
    expect(ctx, what, s, &m.text, fl)?;
    if r.p(1, 6) {
        nearby(r, ctx, what, s, &m.text, fl)?;
    }
    Ok(m.text)
}

/// A symbol of the same kind a few edits away, which may combine things the
/// generator doesn't: what it declares is read from its text.
fn nearby(r: &mut Src, ctx: &mut Ctx, what: &str, s: &Sym, text: &str, fl: u16) -> Case {
    let t = mutate::mutate(r, text, &[text]);
    if t == text {
        return Ok(());
    }
    match refdem::parse(&t) {
        Ok((o, false)) if std::mem::discriminant(&o) == std::mem::discriminant(s) => {
            ctx.class("a symbol a few edits away");
            expect_verdict(ctx, what, &t, fl).map(|_| ())
        }
        _ => Ok(()),
    }
}

fn named(r: &mut Src, c: Cfg) -> Name {
    G::new(r, Cfg { fuel: 2, ..c }).plain_name()
}

// ---- types

fn declarators(t: &Ty) -> usize {
    match t {
        Ty::Ptr(p) => 1 + declarators(&p.pointee),
        Ty::Arr(a) => 1 + declarators(&a.elem),
        Ty::Fun(f) => 1 + f.ret.as_ref().map_or(0, declarators) + f.params.iter().flatten().map(declarators).max().unwrap_or(0),
        Ty::Prim(..) | Ty::Tag(..) | Ty::Custom(..) => 0,
    }
}

fn types(r: &mut Src, ctx: &mut Ctx) -> Case {
    let mut c = PLAIN;
    c.fuel = 4 + r.below(30) as i32;
    c.declarators = r.p(3, 4);
    c.values = false;
    c.locals = false;
    c.templates = r.p(1, 4);
    c.ids = r.below(2) as u8;
    c.reuse = r.below(8);
    let st = style(r);
    let name = named(r, c);
    let mut g = G::new(r, c);
    let (t, s) = match g.r.u(5) {
        0 | 1 => {
            let t = g.variable_type();
            let sc = *g.r.pick(&[3u8, 2, 1, 0, 4]);
            (t.clone(), Sym::Var(name, sc, t))
        }
        2 => {
            let t = g.ty();
            let f = FnTy { params: Some(vec![t.clone()]), ..VOID_FN };
            let c = g.global_class();
            (t, Sym::Fn(name, c, Rc::new(f)))
        }
        3 => {
            let t = g.ret();
            let f = FnTy { ret: Some(t.clone()), ..VOID_FN };
            let c = g.global_class();
            (t, Sym::Fn(name, c, Rc::new(f)))
        }
        _ => {
            let t = if g.r.p(1, 3) { g.array() } else { g.pointer() };
            let p = Piece::Tmpl(Rc::new((id("t"), vec![if matches!(t, Ty::Arr(_)) { TArg::Arr(t.clone()) } else { TArg::Ty(t.clone()) }])));
            (t, Sym::Var(Name::one(p), 3, Ty::Prim(0, 0)))
        }
    };
    let d = declarators(&t);
    let text = both(r, ctx, "a type isn't spelled as its C++ declarator", &s, st)?;
    ctx.class(match d {
        0 => "no declarators",
        1 => "1 declarator",
        2 => "2 declarators",
        3..=5 => "3-5 declarators",
        _ => "6 or more declarators",
    });
    if d >= 2 {
        ctx.nontrivial(&text, 0);
        ctx.sample(|| text.clone());
    }
    Ok(())
}

pub const VOID_FN: FnTy =
    FnTy { member: false, this: NO_THIS, cc: Some(0), ret: Some(Ty::Prim(VOID, 0)), params: None, variadic: false, noexcept: false };

// ---- functions

fn functions(r: &mut Src, ctx: &mut Ctx) -> Case {
    let mut c = PLAIN;
    c.fuel = 3 + r.below(20) as i32;
    c.templates = r.p(1, 3);
    c.values = false;
    c.locals = false;
    c.reuse = r.below(14);
    c.max_params = *r.pick(&[3, 5, 14]);
    c.ids = r.below(2) as u8;
    c.declarators = r.p(1, 4);
    let st = style(r);
    let mut g = G::new(r, c);
    let s = if g.r.p(2, 3) { g.method() } else { g.function() };
    let text = both(r, ctx, "a function isn't spelled as its declaration", &s, st)?;
    if let Sym::Fn(n, c, f) = &s {
        let mut special = false;
        for (name, is) in [
            ("member", !c.global),
            ("static", c.is_static),
            ("virtual", c.is_virtual),
            ("extern \"C\"", c.extern_c),
            ("thunk", c.thunk != Thunk::None),
            ("convention", f.cc != Some(0)),
            ("variadic", f.variadic),
            ("noexcept", f.noexcept),
            ("this qualifiers", f.this != NO_THIS),
            ("structor", f.ret.is_none()),
            ("conversion", matches!(base_of(n.leaf()), Piece::Conv)),
            ("operator", matches!(base_of(n.leaf()), Piece::Op(_) | Piece::Lit(_))),
        ] {
            if is {
                ctx.class(name);
                special = true;
            }
        }
        if special && (f.params.as_ref().is_some_and(|p| !p.is_empty()) || f.variadic) {
            ctx.nontrivial(&text, 0);
            ctx.sample(|| text.clone());
        }
    }
    Ok(())
}

// ---- names

fn names(r: &mut Src, ctx: &mut Ctx) -> Case {
    let mut c = PLAIN;
    c.fuel = 4 + r.below(24) as i32;
    c.reuse = r.below(12);
    c.values = r.p(1, 4);
    c.ids = r.below(3) as u8;
    c.max_params = 2;
    let st = style(r);
    let mut g = G::new(r, c);
    let s = match g.r.u(6) {
        0 => g.method(),
        1 => {
            let mut n: Vec<Piece> = vec![g.operator()];
            n.extend(g.enclosing());
            let c = g.global_class();
            Sym::Fn(Name::new(n), c, Rc::new(VOID_FN))
        }
        k => {
            let n = {
                let n = g.plain_name();
                let mut v = n.0.to_vec();
                if g.r.p(1, 2) {
                    v.extend(g.scopes(4));
                }
                Name::new(v)
            };
            match k {
                2 => Sym::Var(n, 3, Ty::Prim(0, 0)),
                3 => {
                    let c = g.global_class();
                    Sym::Fn(n, c, Rc::new(VOID_FN))
                }
                4 => Sym::NoParams(n, true),
                _ => Sym::TypeDesc(Ty::Tag(Tag::Class, n, 0)),
            }
        }
    };
    let text = both(r, ctx, "a qualified name isn't spelled outermost scope first", &s, st)?;
    let (mut special, mut longest) = (false, 0);
    visit::sym(&s, &mut |n| match n {
        Node::Name(n) => longest = longest.max(n.0.len()),
        Node::Piece(p) => {
            let c = match p {
                Piece::Anon(_) => "anonymous namespace",
                Piece::Local(..) => "local scope",
                Piece::Op(_) | Piece::Lit(_) => "operator",
                Piece::Ctor | Piece::Dtor => "structor",
                Piece::Conv => "conversion",
                _ => return,
            };
            special = true;
            ctx.class(c);
        }
        _ => (),
    });
    if special || longest >= 3 {
        ctx.nontrivial(&text, 0);
        ctx.sample(|| text.clone());
    }
    Ok(())
}

// ---- template arguments

fn templates(r: &mut Src, ctx: &mut Ctx) -> Case {
    let mut c = PLAIN;
    c.fuel = 6 + r.below(30) as i32;
    c.reuse = r.below(12);
    c.ids = r.below(2) as u8;
    c.declarators = r.p(1, 3);
    c.max_params = 4;
    let st = style(r);
    let mut g = G::new(r, c);
    let mut args = g.targs();
    let n = g.r.small(3);
    for _ in 0..n {
        args.push(g.targ());
    }
    let leaf = match g.r.w(&[6, 1, 1]) {
        0 => Piece::Id(g.ident()),
        1 => Piece::Op(g.r.u(OPS.len())),
        _ => Piece::Lit(g.ident()),
    };
    let plain = matches!(leaf, Piece::Id(_));
    let p = Piece::Tmpl(Rc::new((leaf, args)));
    let s = match g.r.u(4) {
        // where templates can be: types, scopes, functions, variables
        0 if plain => {
            let n = Name::new([vec![p], g.scopes(2)].concat());
            Sym::TypeDesc(Ty::Tag(Tag::Struct, n, 0))
        }
        1 if plain => {
            let mut v = vec![Piece::Id(g.ident()), p];
            v.extend(g.scopes(2));
            Sym::Var(Name::new(v), 2, Ty::Prim(0, 0))
        }
        2 if plain => {
            let mut v = vec![p];
            v.extend(g.scopes(2));
            let n = Name::new(v);
            let c = g.global_class();
            let f = FnTy { params: Some(vec![Ty::Tag(Tag::Class, n.clone(), 0), Ty::Tag(Tag::Enum, n, 0)]), ..VOID_FN };
            let name = Name::one(Piece::Id(g.ident()));
            Sym::Fn(name, c, Rc::new(f))
        }
        _ => {
            let mut v = vec![p];
            v.extend(g.scopes(2));
            let c = g.global_class();
            let f = g.fn_type(false, true);
            Sym::Fn(Name::new(v), c, Rc::new(f))
        }
    };
    let text = both(r, ctx, "template arguments aren't spelled in order, in full", &s, st)?;
    let (mut most, mut special) = (0, false);
    visit::sym(&s, &mut |n| match n {
        Node::Piece(Piece::Tmpl(t)) => most = most.max(t.1.len()),
        Node::TArg(a) => {
            let c = match a {
                TArg::Ty(_) => return,
                TArg::Qual(..) => "qualified type",
                TArg::Arr(_) => "array",
                TArg::Alias(_) => "alias template",
                TArg::Int(_, false) => "integer",
                TArg::Int(_, true) => "negative integer",
                TArg::Addr(_) => "address",
                TArg::MemFn(..) => "member function pointer",
                TArg::Ref(_) => "reference",
                TArg::MemData(_) => "member data pointer",
                TArg::Auto(..) => "auto",
                TArg::Pack(_) => "pack",
            };
            special = true;
            ctx.class(c);
        }
        _ => (),
    });
    if most >= 2 || special {
        ctx.nontrivial(&text, 0);
        ctx.sample(|| text.clone());
    }
    Ok(())
}

// ---- back-references

fn backrefs(r: &mut Src, ctx: &mut Ctx) -> Case {
    let mut c = broad(r);
    c.fuel = 10 + r.below(40) as i32;
    c.reuse = 6 + r.below(8);
    let s = G::new(r, c).any();
    let what = "a back-reference doesn't stand for what it refers to";
    let canonical = !r.p(1, 3);
    let mut texts = vec![];
    for b in [Backrefs::Always, Backrefs::Random, Backrefs::Never] {
        let m = mangle(&s, Style { backrefs: b, canonical }, r);
        if b == Backrefs::Never && texts.iter().any(|t| *t == m.text) {
            continue;
        }
        let fl = if r.p(1, 3) { some_flags(r) } else { 0 };
        expect(ctx, what, &s, &m.text, fl)?;
        if m.name_refs + m.param_refs > 0 {
            ctx.nontrivial(&m.text, 0);
            ctx.sample(|| m.text.clone());
            if m.name_refs > 0 {
                ctx.class("to a name");
            }
            if m.param_refs > 0 {
                ctx.class("to a parameter");
            }
            if m.overflow > 0 {
                ctx.class("with a full table");
            }
            // one that refers to something else, or to nothing
            if r.p(1, 2) {
                let at: Vec<usize> = m.text.bytes().enumerate().filter(|(_, b)| b.is_ascii_digit()).map(|(i, _)| i).collect();
                let i = *r.pick(&at);
                let mut t = m.text.clone();
                t.replace_range(i..=i, &r.below(10).to_string());
                expect_verdict(ctx, what, &t, 0)?;
                ctx.class("renumbered");
            }
        }
        texts.push(m.text);
    }
    Ok(())
}

// ---- compiler generated symbols

fn specials(r: &mut Src, ctx: &mut Ctx) -> Case {
    let mut c = PLAIN;
    c.fuel = 3 + r.below(20) as i32;
    c.reuse = r.below(12);
    c.ids = r.below(2) as u8;
    c.max_params = 3;
    let st = style(r);
    let mut g = G::new(r, c);
    let s = if g.r.p(1, 5) {
        // a thunk
        let mut s = g.method();
        if let Sym::Fn(_, c, _) = &mut s {
            if !c.is_static {
                c.thunk = g.thunk();
                c.is_virtual = !(matches!(c.thunk, Thunk::Adjustor(_)) && c.access == Access::Private);
            }
        }
        s
    } else {
        g.special()
    };
    let text = both(r, ctx, "a compiler-generated symbol isn't described", &s, st)?;
    ctx.class(match &s {
        Sym::Table(n, ..) => match n.leaf() {
            Piece::Fixed(f) => f,
            _ => "table",
        },
        Sym::Guard(_) => "guard",
        Sym::Untyped(n) => match n.leaf() {
            Piece::Fixed(f) => f,
            _ => "base class descriptor",
        },
        Sym::Md5(_) => "md5",
        Sym::TypeDesc(_) => "type descriptor",
        Sym::TypeName(_) => "type descriptor name",
        Sym::Vcall(..) => "vcall",
        Sym::Fn(n, c, _) => match (n.leaf(), c.thunk) {
            (Piece::DynVar(..), _) => "initializer of a variable",
            (Piece::DynName(..), _) => "initializer of a name",
            (_, Thunk::None) => return Ok(()),
            _ => "thunk",
        },
        _ => return Ok(()),
    });
    ctx.nontrivial(&text, 0);
    ctx.sample(|| text.clone());
    Ok(())
}

// ---- equivalent spellings

fn spellings(r: &mut Src, ctx: &mut Ctx) -> Case {
    let c = broad(r);
    let s = G::new(r, c).any();
    let a = mangle(&s, Style { backrefs: *r.pick(&[Backrefs::Always, Backrefs::Never]), canonical: true }, r).text;
    let b = mangle(&s, Style { backrefs: Backrefs::Random, canonical: false }, r).text;
    if a == b {
        return Ok(());
    }
    let fl = if r.p(1, 2) { some_flags(r) } else { 0 };
    let (x, y) = (ctx.sut(&a, fl), ctx.sut(&b, fl));
    ctx.eval();
    ctx.nontrivial(&a, crate::eng::hash_str(&b, 0));
    ctx.sample(|| format!("{a}  {b}"));
    if x.ok().is_some() && x.ok() == y.ok() {
        return Ok(());
    }
    // whichever of the two isn't what it should be
    let what = "two spellings of the same symbol differ";
    expect(ctx, what, &s, &a, fl)?;
    expect(ctx, what, &s, &b, fl)?;
    if print::print(&s, fl).is_err() || x.ok().is_none() || y.ok().is_none() {
        return Ok(());
    }
    Err(fail(what, &format!("{a} {b}"), fl, x.describe(), y.describe()))
}
