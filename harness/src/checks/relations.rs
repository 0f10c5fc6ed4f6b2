//! How the texts of related symbols relate.

use super::{some_flags};
use crate::ast::*;
use crate::eng::Src;
use crate::gen::{Cfg, G, PLAIN};
use crate::mangle::{mangle, Backrefs, Style};
use crate::print;
use crate::refdem::{self, Verdict};
use crate::run::{fail, Check, Ctx, Failure};
use crate::visit::Replace;

type Case = Result<(), Failure>;

pub const CHECKS: &[Check] = &[
    Check {
        id: "C20",
        quick: 1_600_000,
        thorough: 24_000_000,
        rule: "a distinct type with at least one declarator or template argument, read in all of the positions",
        assumptions: &["the positions compared: parameter, later parameter, template argument, parameter of a function pointer, variable, result, conversion operator, type descriptor"],
        case: positions,
        workers: 8,
    },
    Check {
        id: "C21",
        quick: 2_000_000,
        thorough: 30_000_000,
        rule: "a distinct inner symbol, read on its own and inside of the others",
        assumptions: &["the inner symbol is spelled without back-references, which would refer to something else there"],
        case: nested,
        workers: 8,
    },
];

const PLAINLY: Style = Style { backrefs: Backrefs::Never, canonical: true };

/// the spelling of a type on its own
fn spell(t: &Ty, r: &mut Src, odd: bool) -> String {
    let mark = Ty::Tag(Tag::Enum, Name::one(id("markq")), 0);
    let f = FnTy { params: Some(vec![mark, t.clone()]), ..super::forms::VOID_FN };
    let c = FnClass { access: Access::None, is_static: false, is_virtual: false, global: true, extern_c: false, thunk: Thunk::None };
    let s = Sym::Fn(Name::one(id("f")), c, std::rc::Rc::new(f));
    let m = mangle(&s, Style { canonical: !odd, ..PLAINLY }, r).text;
    let (_, m) = m.strip_suffix("@Z").unwrap().split_once("W4markq@@").unwrap();
    m.to_string()
}

fn undecided(s: &str, fl: u16) -> bool {
    matches!(refdem::demangle(s, fl), Verdict::Any | Verdict::Maybe(_))
}

fn squeeze(s: &str) -> String {
    s.chars().filter(|c| *c != ' ').collect()
}

fn positions(r: &mut Src, ctx: &mut Ctx) -> Case {
    let mut c = PLAIN;
    c.fuel = 4 + r.below(30) as i32;
    c.reuse = r.below(10);
    c.ids = r.below(3) as u8;
    c.declarators = r.p(1, 2);
    c.locals = r.p(1, 2);
    let t = G::new(r, c).ty();
    let odd = r.p(1, 4);
    let m = spell(&t, r, odd);
    // the return types of the functions around it have to be there
    let fl = if r.p(1, 2) { some_flags(r) & !(print::NO_RET | print::NO_VAR | print::NAME_ONLY) } else { 0 };
    let what = "a type reads differently depending on where it's used";
    let cc = if fl & (print::NO_CC | print::NO_MSKW) != 0 {
        ""
    } else if fl & print::NO_UNDER != 0 {
        "cdecl "
    } else {
        "__cdecl "
    };
    ctx.eval();
    let first = format!("?zz@@YAX{m}@Z");
    let o = ctx.sut(&first, fl);
    let (pre, post) = (format!("void {cc}zz("), ")");
    let Some(text) = o.ok().and_then(|s| s.strip_prefix(&pre)).and_then(|s| s.strip_suffix(post)) else {
        if undecided(&first, fl) {
            return Ok(());
        }
        return Err(fail(what, &first, fl, format!("\"{pre}…{post}\""), o.describe()));
    };
    let e = if text.ends_with(print::wordy) { " " } else { "" };
    // (spelling, text)
    let mut exact = vec![
        (format!("?zz@@YAXH{m}@Z"), format!("void {cc}zz(int, {text})")),
        (format!("?zz@@YAX{m}ZZ"), format!("void {cc}zz({text}, ...)")),
        (format!("?zz@?$tt@{m}@@3HA"), format!("int tt<{text}>::zz")),
        (format!("?zz@?$tt@H{m}_N@@3HA"), format!("int tt<int, {text}, bool>::zz")),
        (format!("??$zz@{m}@@YAXXZ"), format!("void {cc}zz<{text}>(void)")),
        (format!("?zz@@YAXP6AX{m}@Z@Z"), format!("void {cc}zz(void ({cc}*)({text}))")),
        (format!("?zz@@3P6AX{m}@ZA"), format!("void ({cc}*zz)({text})")),
        (format!("?zz@?$tt@$0A@@?$uu@{m}@@3HA"), format!("int uu<{text}>::tt<0>::zz")),
        (format!("?zz@@3V?$tt@{m}@@A"), format!("{}tt<{text}> zz", if fl & print::NO_TAG != 0 { "" } else { "class " })),
    ];
    if matches!(t, Ty::Prim(..) | Ty::Tag(..) | Ty::Ptr(_) | Ty::Custom(..)) {
        let q = match t {
            Ty::Prim(..) | Ty::Ptr(_) => "",
            _ => "?A",
        };
        exact.push((format!(".{q}{m}"), format!("{text}{e}`RTTI Type Descriptor Name'")));
    }
    for (s, want) in exact {
        let o = ctx.sut(&s, fl);
        if o.ok() != Some(&want) && !undecided(&s, fl) {
            return Err(fail(what, &s, fl, format!("{want:?}"), o.describe()));
        }
    }
    // as the target of a conversion, where it's a part of the name, and the result besides
    if !matches!(t, Ty::Arr(_) | Ty::Fun(_)) {
        let q = if matches!(t, Ty::Tag(..) | Ty::Custom(..)) { "?A" } else { "" };
        for (s, args) in [(format!("??BC@@QEAA{q}{m}XZ"), ""), (format!("??$?BH@C@@QEBA{q}{m}XZ"), "<int>")] {
            let o = ctx.sut(&s, fl);
            let want = format!("C::operator{args} {text}(void)");
            if !o.ok().is_some_and(|t| t.contains(&want)) && !undecided(&s, fl) {
                return Err(fail(what, &s, fl, format!("a conversion, {want:?}"), o.describe()));
            }
        }
    }
    // around a name: the same but for spaces
    let as_result = if matches!(t, Ty::Prim(..) | Ty::Ptr(_)) { "" } else { "?A" };
    let as_fn = format!("{cc}qqzzqq(void)");
    let loose = vec![
        (format!("?qqzzqq@@3{m}{}", tail(&t)), "qqzzqq", squeeze(text)),
        (format!("?qqzzqq@@YA{as_result}{m}XZ"), &*as_fn, squeeze(text)),
        (format!("??_R0{as_result}{m}@8"), "`RTTI Type Descriptor'", squeeze(text)),
    ];
    for (s, name, want) in loose {
        let o = ctx.sut(&s, fl);
        let got = o.ok().map(|g| squeeze(&g.replacen(name, "", 1)));
        if got.as_ref() != Some(&want) && !undecided(&s, fl) {
            return Err(fail(what, &s, fl, format!("{text:?} around the name"), o.describe()));
        }
    }
    // anywhere in a symbol: what's written there instead of another type
    if flat(&t) {
        let mut g = G::new(r, Cfg { fuel: 4 + c.fuel / 2, ..c });
        let s = match g.r.u(6) {
            0 | 1 => g.function(),
            2 => g.method(),
            3 | 4 => g.variable(),
            _ => g.special(),
        };
        let mark = Ty::Custom(id("markq"), 0);
        // the qualifiers of an array's elements are those of the pointer, too
        let elements = !matches!(t, Ty::Ptr(_));
        let mut all = Replace { by: Some(&mark), at: usize::MAX, elements, ..Replace::default() };
        all.sym(&s);
        if all.seen > 0 {
            let at = r.u(all.seen);
            let marked = mangle(&Replace { by: Some(&mark), at, elements, ..Replace::default() }.sym(&s), PLAINLY, r).text;
            let s = mangle(&Replace { by: Some(&t), at, elements, ..Replace::default() }.sym(&s), PLAINLY, r).text;
            let around = ctx.sut(&marked, fl);
            match around.ok() {
                Some(around) if around.contains("markq") => {
                    let want = squeeze(&around.replace("markq", text));
                    let o = ctx.sut(&s, fl);
                    let got = o.ok().map(squeeze);
                    if got.as_ref() != Some(&want) && !undecided(&s, fl) {
                        return Err(fail(what, &s, fl, format!("{around:?}, with {text:?} for \"markq\""), o.describe()));
                    }
                    ctx.class("anywhere");
                }
                _ => ctx.class("not shown there"),
            }
        }
    }
    if text.contains(['*', '&', '<', '[', '(']) {
        ctx.nontrivial(&m, fl.into());
        ctx.sample(|| format!("{m} is {text}"));
    }
    Ok(())
}

/// whether its text is in one piece wherever it's used
fn flat(t: &Ty) -> bool {
    match t {
        Ty::Prim(t, _) => *t != VOID,
        Ty::Tag(..) | Ty::Custom(..) => true,
        Ty::Ptr(p) => matches!(p.pointee, Ty::Prim(..)) || flat(&p.pointee),
        Ty::Arr(_) | Ty::Fun(_) => false,
    }
}

/// what follows a variable's type
fn tail(t: &Ty) -> String {
    match t {
        Ty::Ptr(p) => {
            let mut s = String::new();
            if p.p64 {
                s.push('E');
            }
            // repeats the pointee's qualifiers, which are there already
            match &p.class {
                None => s.push('A'),
                Some(c) => {
                    s.push('Q');
                    let n = Sym::Untyped(Name::new([vec![Piece::Fixed("`RTTI Base Class Array'")], c.0.to_vec()].concat()));
                    let m = mangle(&n, PLAINLY, &mut Src::replay(vec![])).text;
                    s.push_str(m.strip_prefix("??_R2").unwrap().strip_suffix('8').unwrap());
                }
            }
            s
        }
        _ => "A".into(),
    }
}

fn nested(r: &mut Src, ctx: &mut Ctx) -> Case {
    let mut c = PLAIN;
    c.fuel = 4 + r.below(24) as i32;
    c.reuse = r.below(10);
    c.ids = r.below(3) as u8;
    c.declarators = r.p(1, 3);
    let mut g = G::new(r, c);
    let s = match g.r.u(6) {
        0 | 1 => g.function(),
        2 => g.method(),
        3 | 4 => g.variable(),
        _ => g.special(),
    };
    // these end where the text does
    if matches!(s, Sym::TypeName(_) | Sym::TypeDesc(_)) {
        return Ok(());
    }
    let canonical = r.p(1, 2);
    let m = mangle(&s, Style { canonical, ..PLAINLY }, r).text;
    let fl = if r.p(1, 2) { some_flags(r) & !(print::NO_RET | print::NO_VAR | print::NAME_ONLY) } else { 0 };
    let cc = if fl & (print::NO_CC | print::NO_MSKW) != 0 {
        ""
    } else if fl & print::NO_UNDER != 0 {
        "cdecl "
    } else {
        "__cdecl "
    };
    let o = ctx.sut(&m, fl);
    ctx.eval();
    let what = "a symbol inside of another reads differently than on its own";
    let Some(text) = o.ok() else {
        if undecided(&m, fl) {
            return Ok(());
        }
        return Err(fail(what, &m, fl, "a text".into(), o.describe()));
    };
    let tag = if fl & print::NO_TAG != 0 { "" } else { "struct " };
    let mut all = vec![
        ("local scope", format!("?zz@?1?{m}@4HA"), format!("int `{text}'::`2'::zz")),
        ("local class", format!("?zz@ll@?3?{m}@QEAAXXZ"), {
            let a = if fl & print::NO_ACCESS != 0 { "" } else { "public: " };
            format!("{a}void {cc}`{text}'::`4'::ll::zz(void)")
        }),
        ("address", format!("?zz@?$tt@$1{m}@@3HA"), format!("int tt<&{text}>::zz")),
        ("reference", format!("?zz@@YAXU?$tt@H$E{m}@@@Z"), format!("void {cc}zz({tag}tt<int, {text}>)")),
        ("member function pointer", format!("?zz@?$tt@$H{m}7@@3HA"), format!("int tt<{{{text}, 8}}>::zz")),
        ("auto", format!("?zz@?$tt@$MPEAH1{m}@@3HA"), format!("int tt<&{text}>::zz")),
        ("in a template in a name", format!("?zz@?$uu@V?$tt@$1{m}@@@@3HA"), {
            let tag = if fl & print::NO_TAG != 0 { "" } else { "class " };
            format!("int uu<{tag}tt<&{text}>>::zz")
        }),
    ];
    // `?$` begins the name of a template there
    if matches!(&s, Sym::Var(..)) && !m.starts_with("?$") {
        all.push(("initializer", format!("??__E{m}@@YAXXZ"), format!("void {cc}`dynamic initializer for `{text}''(void)")));
        all.push(("destructor", format!("??__F{m}@@YAXXZ"), format!("void {cc}`dynamic atexit destructor for `{text}''(void)")));
    }
    for (place, s, want) in all {
        let o = ctx.sut(&s, fl);
        if o.ok() != Some(&want) {
            if undecided(&s, fl) {
                ctx.class("undecided");
                continue;
            }
            return Err(fail(what, &s, fl, format!("{want:?}"), o.describe()));
        }
        ctx.class(place);
    }
    // anywhere in a symbol that has others inside of it
    let text = text.to_string();
    c.fuel = 12 + r.below(30) as i32;
    c.locals = true;
    c.values = true;
    let mut g = G::new(r, c);
    let around = match g.r.u(6) {
        0 | 1 => g.function(),
        2 => g.method(),
        3 | 4 => g.variable(),
        _ => g.special(),
    };
    let mark = Sym::Var(Name::one(id("markq")), 3, Ty::Prim(0, 0));
    let mut all = Replace { sym_by: Some(&mark), at: usize::MAX, ..Replace::default() };
    all.sym(&around);
    if all.seen > 0 {
        let at = r.u(all.seen);
        let marked = mangle(&Replace { sym_by: Some(&mark), at, ..Replace::default() }.sym(&around), PLAINLY, r).text;
        let s = mangle(&Replace { sym_by: Some(&s), at, ..Replace::default() }.sym(&around), PLAINLY, r).text;
        let around = ctx.sut(&marked, fl);
        match around.ok() {
            Some(around) if around.contains("int markq") => {
                let want = around.replace("int markq", &text);
                let o = ctx.sut(&s, fl);
                if o.ok() != Some(&want) && !undecided(&s, fl) {
                    return Err(fail(what, &s, fl, format!("{around:?}, with {text:?} for \"int markq\""), o.describe()));
                }
                ctx.class("anywhere");
            }
            _ => ctx.class("not shown there"),
        }
    }
    ctx.nontrivial(&m, fl.into());
    ctx.sample(|| format!("{m} is {text}"));
    Ok(())
}
