//! C++ programs, along with what clang will have to give names to when it compiles them.

use crate::ast::*;
use crate::checks::literal::literal_parts;
use crate::eng::Src;
use crate::print::qualify;
use std::rc::Rc;

pub struct Prog<'r> {
    r: &'r mut Src,
    x64: bool,
    /// the program
    pub text: String,
    n: usize,
    classes: Vec<(Tag, Name, String)>,
    /// name, how it's written, what its parameters are
    templates: Vec<(Name, String, Vec<Kind>)>,
    spaces: Vec<Space>,
    /// variables whose addresses can be template arguments
    globals: Vec<(Sym, String)>,
    funcs: Vec<(Sym, String)>,
    types: Vec<(Ty, String)>,
    /// what there'll be symbols for
    pub entities: Vec<Sym>,
    /// what there may be symbols for, depending on layouts and the like
    pub maybe: Vec<Sym>,
    /// the start and end of a literal's symbol, and its text
    pub literals: Vec<(String, String, String)>,
}

#[derive(Clone)]
struct Space {
    /// innermost first
    pieces: Vec<Piece>,
    open: String,
    close: String,
    qual: String,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Type,
    Int,
    Char,
    Bool,
    Global,
    GlobalRef,
    Func,
    Alias,
}

const CXX_PRIMS: &[(usize, &str)] = &[
    (0, "int"),
    (2, "char"),
    (3, "signed char"),
    (4, "unsigned char"),
    (5, "short"),
    (6, "unsigned short"),
    (7, "unsigned int"),
    (8, "long"),
    (9, "unsigned long"),
    (10, "float"),
    (11, "double"),
    (12, "long double"),
    (13, "bool"),
    (14, "long long"),
    (15, "unsigned long long"),
    (16, "wchar_t"),
    (17, "char8_t"),
    (18, "char16_t"),
    (19, "char32_t"),
    (22, "decltype(nullptr)"),
];

fn cc_word(cc: usize) -> &'static str {
    match cc {
        1 => "__pascal",
        2 => "__thiscall",
        3 => "__stdcall",
        4 => "__fastcall",
        7 => "__vectorcall",
        8 => "__attribute__((swiftcall))",
        _ => "__cdecl",
    }
}

fn cv_text(cv: u8) -> &'static str {
    ["", "const ", "volatile ", "const volatile "][cv as usize]
}

/// whatever its linkage
const USED: &str = "__attribute__((used))";

impl<'r> Prog<'r> {
    pub fn generate(r: &'r mut Src, x64: bool) -> Self {
        let mut p = Prog {
            r,
            x64,
            text: String::from("template<class...> struct pack_;\ntemplate<class...> using alias_ = int;\ntypedef decltype(sizeof(0)) size_t_;\n"),
            n: 0,
            classes: vec![],
            templates: vec![],
            spaces: vec![Space { pieces: vec![], open: String::new(), close: String::new(), qual: "::".into() }],
            globals: vec![],
            funcs: vec![],
            types: vec![],
            entities: vec![],
            maybe: vec![],
            literals: vec![],
        };
        p.scaffold();
        let n = 20 + p.r.u(30);
        for _ in 0..n {
            p.entity();
        }
        p
    }

    fn id(&mut self) -> String {
        self.n += 1;
        let n = self.n;
        match self.r.w(&[8, 2, 2, 1]) {
            0 => format!("{}{n}", *self.r.pick(&["a", "b", "foo", "Bar", "x_", "zz"])),
            1 => format!("{}{n}", *self.r.pick(&["é", "имя", "日本", "λ", "ß"])),
            2 => format!("q{n}{}", *self.r.pick(&["é", "_", "$", "__", "日", "Z"])),
            _ => format!("l{n}{}", "o".repeat(1 + self.r.u(60))),
        }
    }

    fn line(&mut self, s: &str) {
        self.text.push_str(s);
        self.text.push('\n');
    }

    fn space(&mut self) -> Space {
        let i = self.r.u(self.spaces.len());
        self.spaces[i].clone()
    }

    fn within(&mut self, s: &Space, text: &str) {
        let t = format!("{}{text}{}", s.open, s.close);
        self.line(&t);
    }

    /// namespaces, classes, templates, a few things to take the address of
    fn scaffold(&mut self) {
        let n = self.r.u(5);
        for _ in 0..n {
            let s = self.space();
            if self.r.p(1, 5) {
                if s.pieces.iter().any(|p| matches!(p, Piece::Anon(_))) {
                    continue;
                }
                // the name depends on the file's
                let mut pieces = vec![Piece::Anon("0x".into())];
                pieces.extend(s.pieces.iter().cloned());
                self.spaces.push(Space { pieces, open: format!("{}namespace {{ ", s.open), close: format!("}} {}", s.close), qual: s.qual });
                continue;
            }
            let mut x = self.id();
            if let (Some(Piece::Id(y)), true) = (s.pieces.last(), self.r.p(1, 3)) {
                // a name to refer back to
                x = y.to_string();
            }
            let mut pieces = vec![id(&x)];
            pieces.extend(s.pieces.iter().cloned());
            self.spaces.push(Space {
                pieces,
                open: format!("{}namespace {x} {{ ", s.open),
                close: format!("}} {}", s.close),
                qual: format!("{}{x}::", s.qual),
            });
        }
        let n = 3 + self.r.u(5);
        for _ in 0..n {
            let s = self.space();
            let x = self.id();
            let (tag, w) = *self.r.pick(&[(Tag::Class, "class"), (Tag::Struct, "struct"), (Tag::Union, "union"), (Tag::Enum, "enum"), (Tag::Enum, "enum class")]);
            let mut pieces = vec![id(&x)];
            pieces.extend(s.pieces.iter().cloned());
            let qual = format!("{}{x}", s.qual);
            let mut inner = String::new();
            if tag != Tag::Enum && self.r.p(1, 2) {
                // with one inside
                let y = self.id();
                let (t2, w2) = *self.r.pick(&[(Tag::Class, "class"), (Tag::Struct, "struct"), (Tag::Enum, "enum")]);
                inner = format!("public: {w2} {y} {{}};");
                let mut p2 = vec![id(&y)];
                p2.extend(pieces.iter().cloned());
                self.classes.push((t2, Name::new(p2), format!("{qual}::{y}")));
            }
            self.within(&s, &format!("{w} {x} {{{inner}}};"));
            self.classes.push((tag, Name::new(pieces), qual));
        }
        for _ in 0..2 {
            let s = self.space();
            let x = self.id();
            let mut pieces = vec![id(&x)];
            pieces.extend(s.pieces.iter().cloned());
            self.within(&s, &format!("extern int {x};"));
            // names of things in anonymous namespaces have no linkage
            if !pieces.iter().any(|p| matches!(p, Piece::Anon(_))) {
                let v = Sym::Var(Name::new(pieces), 3, Ty::Prim(0, 0));
                self.globals.push((v, format!("{}{x}", s.qual)));
            }
        }
        let x = self.id();
        self.line(&format!("int {x};"));
        self.globals.push((Sym::Var(Name::one(id(&x)), 3, Ty::Prim(0, 0)), x));
        let x = self.id();
        self.line(&format!("void {x}(int, char);"));
        let f = FnTy { params: Some(vec![Ty::Prim(0, 0), Ty::Prim(2, 0)]), ..self.plain_fn() };
        self.funcs.push((Sym::Fn(Name::one(id(&x)), self.global(), f.into()), x));
        let n = 1 + self.r.u(3);
        for _ in 0..n {
            let s = self.space();
            let x = self.id();
            let kinds = self.kinds();
            let mut pieces = vec![id(&x)];
            pieces.extend(s.pieces.iter().cloned());
            let head = Self::template_head(&kinds);
            self.within(&s, &format!("{head} struct {x} {{}};"));
            self.templates.push((Name::new(pieces), format!("{}{x}", s.qual), kinds));
        }
    }

    fn plain_fn(&self) -> FnTy {
        FnTy { member: false, this: NO_THIS, cc: Some(0), ret: Some(Ty::Prim(VOID, 0)), params: None, variadic: false, noexcept: false }
    }

    fn global(&self) -> FnClass {
        FnClass { access: Access::None, is_static: false, is_virtual: false, global: true, extern_c: false, thunk: Thunk::None }
    }

    fn kinds(&mut self) -> Vec<Kind> {
        let n = 1 + self.r.u(4);
        (0..n)
            .map(|_| *self.r.pick(&[Kind::Type, Kind::Type, Kind::Type, Kind::Int, Kind::Char, Kind::Bool, Kind::Global, Kind::GlobalRef, Kind::Func, Kind::Alias]))
            .collect()
    }

    fn template_head(kinds: &[Kind]) -> String {
        let ps: Vec<&str> = kinds
            .iter()
            .map(|k| match k {
                Kind::Type => "class",
                Kind::Int => "long long",
                Kind::Char => "char",
                Kind::Bool => "bool",
                Kind::Global => "int *",
                Kind::GlobalRef => "int &",
                Kind::Func => "void (*)(int, char)",
                Kind::Alias => "template<class...> class",
            })
            .collect();
        format!("template<{}>", ps.join(", "))
    }

    /// with names for the parameters, and a list of them
    fn named_head(kinds: &[Kind]) -> (String, String) {
        let hs: Vec<String> = kinds
            .iter()
            .enumerate()
            .map(|(i, k)| match k {
                Kind::Type => format!("class P{i}"),
                Kind::Int => format!("long long P{i}"),
                Kind::Char => format!("char P{i}"),
                Kind::Bool => format!("bool P{i}"),
                Kind::Global => format!("int *P{i}"),
                Kind::GlobalRef => format!("int &P{i}"),
                Kind::Func => format!("void (*P{i})(int, char)"),
                Kind::Alias => format!("template<class...> class P{i}"),
            })
            .collect();
        let ps: Vec<String> = (0..kinds.len()).map(|i| format!("P{i}")).collect();
        (format!("template<{}>", hs.join(", ")), ps.join(", "))
    }

    fn args(&mut self, kinds: &[Kind], d: u32) -> (Vec<TArg>, String) {
        let (mut a, mut s) = (vec![], vec![]);
        for k in kinds {
            let (x, t) = match k {
                Kind::Type => self.type_arg(d),
                Kind::Int => {
                    let v = match self.r.u(3) {
                        0 => self.r.below(20) as i64 - 5,
                        1 => self.r.below(1 << 33) as i64 - (1 << 32),
                        _ => (self.r.any() >> 1) as i64,
                    };
                    (TArg::Int(v.unsigned_abs(), v < 0), format!("{v}LL"))
                }
                Kind::Char => {
                    let v = self.r.below(128);
                    (TArg::Int(v, false), format!("(char){v}"))
                }
                Kind::Bool => {
                    let v = self.r.below(2);
                    (TArg::Int(v, false), if v == 1 { "true".into() } else { "false".into() })
                }
                Kind::Global => {
                    if self.r.p(1, 4) {
                        (TArg::Int(0, false), "nullptr".into())
                    } else {
                        let i = self.r.u(self.globals.len());
                        let (v, t) = self.globals[i].clone();
                        (TArg::Addr(Some(v.into())), format!("&{t}"))
                    }
                }
                Kind::GlobalRef => {
                    let i = self.r.u(self.globals.len());
                    let (v, t) = self.globals[i].clone();
                    (TArg::Addr(Some(v.into())), t) // not `$E`
                }
                Kind::Func => {
                    let i = self.r.u(self.funcs.len());
                    let (v, t) = self.funcs[i].clone();
                    (TArg::Addr(Some(v.into())), format!("&{t}"))
                }
                Kind::Alias => {
                    if self.r.p(1, 2) {
                        (TArg::Alias(Name::one(id("alias_"))), "alias_".into())
                    } else {
                        (TArg::Ty(Ty::Tag(Tag::Struct, Name::one(id("pack_")), 0)), "pack_".into())
                    }
                }
            };
            a.push(match x {
                TArg::Ty(t) => TArg::Ty(canonical(&t)),
                TArg::Qual(q, t) => TArg::Qual(q, canonical(&t)),
                TArg::Arr(t) => TArg::Arr(canonical(&t)),
                x => x,
            });
            s.push(t);
        }
        (a, s.join(", "))
    }

    fn type_arg(&mut self, d: u32) -> (TArg, String) {
        match self.r.w(&[8, 2, 2, 2, 1]) {
            0 => {
                let (t, s) = self.ty(d);
                (TArg::Ty(t), s)
            }
            1 => {
                let (t, s) = if self.r.p(1, 2) { self.prim() } else { self.class(d) };
                let cv = 1 + self.r.below(3) as u8;
                (TArg::Qual(cv, t), format!("{}{s}", cv_text(cv)))
            }
            2 => {
                let (t, s) = self.array(d);
                (TArg::Arr(t), s)
            }
            3 => {
                let member = self.r.p(1, 4);
                let (f, s) = self.fn_type(member, false, d);
                (TArg::Ty(Ty::Fun(f.into())), s)
            }
            _ => (TArg::Ty(Ty::Prim(VOID, 0)), "void".into()),
        }
    }

    // ---- types

    fn alias(&mut self, t: Ty, text: String) -> (Ty, String) {
        self.n += 1;
        let x = format!("T{}", self.n);
        self.line(&format!("using {x} = {text};"));
        self.types.push((t.clone(), x.clone()));
        (t, x)
    }

    fn prim(&mut self) -> (Ty, String) {
        let i = if self.r.p(1, 2) { 0 } else { self.r.u(CXX_PRIMS.len()) };
        let (i, s) = CXX_PRIMS[i];
        (Ty::Prim(i, 0), s.into())
    }

    fn class(&mut self, d: u32) -> (Ty, String) {
        if d > 0 && !self.templates.is_empty() && self.r.p(1, 3) {
            let i = self.r.u(self.templates.len());
            let (n, s, k) = self.templates[i].clone();
            let (a, t) = self.args(&k, d - 1);
            let mut v = n.0.to_vec();
            v[0] = Piece::Tmpl(Rc::new((v[0].clone(), a)));
            return self.alias(Ty::Tag(Tag::Struct, Name::new(v), 0), format!("{s}<{t}>"));
        }
        let i = self.r.u(self.classes.len());
        let (k, n, s) = self.classes[i].clone();
        (Ty::Tag(k, n, 0), s)
    }

    fn ty(&mut self, d: u32) -> (Ty, String) {
        if !self.types.is_empty() && self.r.p(1, 4) {
            let i = self.r.u(self.types.len());
            if matches!(self.types[i].0, Ty::Ptr(_) | Ty::Tag(..)) {
                return self.types[i].clone();
            }
        }
        match self.r.w(&[3, 3, if d > 0 { 6 } else { 0 }]) {
            0 => self.prim(),
            1 => self.class(d),
            _ => self.pointer(d - 1),
        }
    }

    fn object(&mut self, d: u32, void_ok: bool) -> (Ty, String) {
        if void_ok && self.r.p(1, 6) {
            let cv = self.r.below(4) as u8;
            return (Ty::Prim(VOID, cv), format!("{}void", cv_text(cv)));
        }
        loop {
            let (t, s) = self.ty(d);
            match &t {
                Ty::Prim(..) | Ty::Tag(..) => {
                    let cv = *self.r.pick(&[0u8, 1, 0, 2, 3]);
                    return (qualify(&t, cv), format!("{}{s}", cv_text(cv)));
                }
                Ty::Ptr(p) if p.aff != Aff::Ptr => (),
                _ => return (t, s),
            }
        }
    }

    fn array(&mut self, d: u32) -> (Ty, String) {
        let n = 1 + self.r.u(3);
        let dims: Vec<u64> = (0..n).map(|_| 1 + self.r.below(30)).collect();
        let (t, s) = self.object(d.min(1), false);
        let (elem, cv) = match &t {
            Ty::Prim(i, cv) => (Ty::Prim(*i, 0), *cv),
            Ty::Tag(k, n, cv) => (Ty::Tag(*k, n.clone(), 0), *cv),
            t => (t.clone(), 0),
        };
        let text = format!("{s}{}", dims.iter().map(|d| format!("[{d}]")).collect::<String>());
        self.alias(Ty::Arr(ArrTy { dims, cv, elem }.into()), text)
    }

    fn pointer(&mut self, d: u32) -> (Ty, String) {
        let aff = [Aff::Ptr, Aff::LRef, Aff::RRef][self.r.w(&[5, 2, 1])];
        let mark = match aff {
            Aff::Ptr => "*",
            Aff::LRef => "&",
            Aff::RRef => "&&",
        };
        let cv = if aff == Aff::Ptr { *self.r.pick(&[0u8, 0, 0, 1, 2, 3]) } else { 0 };
        let mut p = PtrTy { aff, cv, p64: self.x64, restrict: false, unaligned: false, class: None, pointee: Ty::Prim(0, 0) };
        let text = match self.r.w(&[6, 3, 2, if aff == Aff::Ptr { 2 } else { 0 }, if aff == Aff::Ptr { 2 } else { 0 }]) {
            0 => {
                let (t, s) = self.object(d, aff == Aff::Ptr);
                p.pointee = t;
                p.restrict = self.r.p(1, 6);
                p.unaligned = self.r.p(1, 8) && matches!(p.pointee, Ty::Prim(0.., _) | Ty::Tag(..)) && !matches!(p.pointee, Ty::Prim(VOID, _));
                let u = if p.unaligned { " __unaligned" } else { "" };
                let re = if p.restrict { " __restrict" } else { "" };
                format!("{s}{u} {mark}{}{re}", cv_text(cv))
            }
            1 => {
                let (f, s) = self.fn_type(false, false, d);
                p.pointee = Ty::Fun(f.into());
                format!("{s} {mark}{}", cv_text(cv))
            }
            2 => {
                let (t, s) = self.array(d);
                p.pointee = t;
                format!("{s} {mark}{}", cv_text(cv))
            }
            k => {
                let (cls, c) = loop {
                    let i = self.r.u(self.classes.len());
                    let (k, n, s) = self.classes[i].clone();
                    if matches!(k, Tag::Class | Tag::Struct) {
                        break (n, s);
                    }
                    if self.classes.iter().all(|c| matches!(c.0, Tag::Enum | Tag::Union)) {
                        let x = self.id();
                        self.line(&format!("struct {x} {{}};"));
                        self.classes.push((Tag::Struct, Name::one(id(&x)), x));
                    }
                };
                p.class = Some(cls);
                let s = if k == 3 {
                    let (t, s) = self.object(d, false);
                    p.pointee = t;
                    s
                } else {
                    let (f, s) = self.fn_type(true, true, d);
                    p.pointee = Ty::Fun(f.into());
                    s
                };
                // a leading `::` would attach to what's before
                format!("{s} {}::*{}", c.trim_start_matches("::"), cv_text(cv))
            }
        };
        self.alias(Ty::Ptr(p.into()), text)
    }

    /// a convention that has an effect, and its keyword; usable for variadic functions if not
    fn cc(&mut self, member: bool, variadic: bool, pointer: bool) -> usize {
        if variadic {
            return 0;
        }
        let default = if member && !self.x64 { 2 } else { 0 };
        if self.r.p(2, 3) {
            return default;
        }
        let some: &[usize] = match (self.x64, pointer) {
            (true, true) => &[0, 7],
            (true, false) => &[0, 7, 8],
            (false, true) => &[0, 3, 4, 7, 1],
            (false, false) => &[0, 3, 4, 7, 1, 8],
        };
        *self.r.pick(some)
    }

    fn params(&mut self, d: u32) -> (Option<Vec<Ty>>, bool, String) {
        if self.r.p(1, 5) {
            return (None, false, String::new());
        }
        let n = if self.r.p(1, 8) { 12 } else { 1 + self.r.u(4) };
        let (mut v, mut s) = (vec![], vec![]);
        for _ in 0..n {
            let (t, x) = self.ty(d);
            v.push(t);
            s.push(x);
        }
        let variadic = self.r.p(1, 10);
        if variadic {
            s.push("...".into());
        }
        (Some(v), variadic, s.join(", "))
    }

    fn this(&mut self) -> (This, String) {
        let cv = *self.r.pick(&[0u8, 0, 1, 2, 3]);
        let mut t = This { cv, p64: self.x64, restrict: false, unaligned: false, refq: RefQ::None };
        let mut s = format!(" {}", cv_text(cv));
        if self.r.p(1, 10) {
            t.restrict = true;
            s.push_str("__restrict ");
        }
        if self.r.p(1, 10) {
            t.unaligned = true;
            s.push_str("__unaligned ");
        }
        match self.r.w(&[8, 1, 1]) {
            0 => (),
            1 => {
                t.refq = RefQ::L;
                s.push('&');
            }
            _ => {
                t.refq = RefQ::R;
                s.push_str("&&");
            }
        }
        (t, s)
    }

    fn ret(&mut self, d: u32) -> (Ty, String) {
        match self.r.w(&[3, 6, 1]) {
            0 => (Ty::Prim(VOID, 0), "void".into()),
            1 => self.ty(d),
            _ => {
                let (t, s) = if self.r.p(1, 2) { self.prim() } else { self.class(d) };
                let cv = 1 + self.r.below(3) as u8;
                (qualify(&t, cv), format!("{}{s}", cv_text(cv)))
            }
        }
    }

    /// a function type for pointers and template arguments
    fn fn_type(&mut self, member: bool, strict: bool, d: u32) -> (FnTy, String) {
        let d = d.saturating_sub(1);
        let (ret, rs) = self.ret(d);
        let (params, variadic, ps) = self.params(d);
        let (this, ts) = if member { self.this() } else { (NO_THIS, String::new()) };
        let mut cc = self.cc(member, variadic, true);
        if strict && !variadic && !self.x64 && cc == 0 {
            // in a member pointer, the default of one becomes that of the other
            cc = 2;
        }
        let noexcept = self.r.p(1, 6);
        // without anything about `this`, it's a function type like any other
        let member = member && (strict || ts.trim() != "");
        let f = FnTy { member, this: if member { this } else { NO_THIS }, cc: Some(cc), ret: Some(ret), params, variadic, noexcept };
        let text = format!("{rs} {}({ps}){ts}{}", cc_word(cc), if noexcept { " noexcept" } else { "" });
        let (_, x) = self.alias(Ty::Fun(f.clone().into()), text);
        (f, x)
    }

    // ---- things with names

    fn used(&mut self, expr: &str) {
        let l = self.address(expr.trim_start_matches('&'));
        self.line(&l);
    }

    fn address(&mut self, expr: &str) -> String {
        self.n += 1;
        format!("{USED} auto u{}_ = &{expr};", self.n)
    }

    fn entity(&mut self) {
        match self.r.w(&[6, 8, 10, 4, 3, 3, 3, 4, 2, 6]) {
            0 => self.variable(),
            1 => self.function(),
            2 => self.a_class(),
            3 => self.function_template(),
            4 => self.local(),
            5 => self.polymorphic(),
            6 => self.initialized(),
            7 => self.string(),
            8 => self.variable_template(),
            _ => self.other(),
        }
    }

    fn variable(&mut self) {
        let s = self.space();
        let x = self.id();
        let (t, ts) = self.object_or_ref(3);
        let mut pieces = vec![id(&x)];
        pieces.extend(s.pieces.iter().cloned());
        if format!("{t:?}").contains("Anon") && !pieces.iter().any(|p| matches!(p, Piece::Anon(_))) {
            // there'd have to be a definition
            return;
        }
        self.within(&s, &format!("extern {ts} {x};"));
        self.used(&format!("&{}{x}", s.qual));
        self.entities.push(Sym::Var(Name::new(pieces), 3, t));
    }

    fn object_or_ref(&mut self, d: u32) -> (Ty, String) {
        if self.r.p(1, 2) {
            self.object(d, false)
        } else {
            self.pointer(d)
        }
    }

    /// a result that's up to the definition
    fn auto_ret(&mut self) -> (Ty, String) {
        match self.r.u(8) {
            0 => (Ty::Custom(id("<decltype-auto>"), 0), "decltype(auto)".to_string()),
            i => {
                let cv = if i < 4 { self.r.u(4) as u8 } else { 0 };
                (Ty::Custom(id("<auto>"), cv), format!("{}auto", cv_text(cv)))
            }
        }
    }

    fn function(&mut self) {
        let s = self.space();
        let x = self.id();
        let (params, variadic, ps) = self.params(3);
        let cc = self.cc(false, variadic, false);
        let auto = self.r.p(1, 12);
        let (ret, rs) = if auto { self.auto_ret() } else { self.ret(3) };
        let f = FnTy { ret: Some(ret), params, variadic, cc: Some(cc), ..self.plain_fn() };
        let mut pieces = vec![id(&x)];
        pieces.extend(s.pieces.iter().cloned());
        // types without linkage call for a definition
        let body = if auto { "{ return 0; }" } else { "{ __builtin_trap(); }" };
        let inline = if self.r.p(1, 2) { "inline " } else { "" };
        self.within(&s, &format!("{inline}{rs} {} {x}({ps}){body}", cc_word(cc)));
        self.used(&format!("&{}{x}", s.qual));
        self.entities.push(Sym::Fn(Name::new(pieces), self.global(), f.into()));
    }

    /// a class with members of all sorts
    fn a_class(&mut self) {
        let s = self.space();
        let x = self.id();
        let mut pieces = vec![id(&x)];
        pieces.extend(s.pieces.iter().cloned());
        let mut body = String::new();
        let n = 1 + self.r.u(6);
        let mut statics = vec![];
        for _ in 0..n {
            let (access, word) = *self.r.pick(&[(Access::Public, "public"), (Access::Protected, "protected"), (Access::Private, "private")]);
            body.push_str(&format!(" {word}: "));
            let mut c = FnClass { access, is_static: false, is_virtual: false, global: false, extern_c: false, thunk: Thunk::None };
            let with = |p: Piece| {
                let mut v = vec![p];
                v.extend(pieces.iter().cloned());
                Name::new(v)
            };
            let (params, variadic, ps) = self.params(2);
            let trap = "{ __builtin_trap(); }";
            match self.r.w(&[6, 3, 2, 3, 1, 2, 2]) {
                0 => {
                    let m = self.id();
                    let (this, ts) = self.this();
                    let (ret, rs) = self.ret(2);
                    let cc = self.cc(true, variadic, false);
                    body.push_str(&format!("{rs} {} {m}({ps}){ts} {trap}", cc_word(cc)));
                    let f = FnTy { member: true, this, cc: Some(cc), ret: Some(ret), params, variadic, noexcept: false };
                    statics.push(self.address(&format!("{}{x}::{m}", s.qual)));
                    self.entities.push(Sym::Fn(with(id(&m)), c, f.into()));
                }
                1 => {
                    let m = self.id();
                    c.is_static = true;
                    let (ret, rs) = self.ret(2);
                    let cc = self.cc(false, variadic, false);
                    body.push_str(&format!("static {rs} {} {m}({ps}) {trap}", cc_word(cc)));
                    let f = FnTy { cc: Some(cc), ret: Some(ret), params, variadic, ..self.plain_fn() };
                    statics.push(self.address(&format!("{}{x}::{m}", s.qual)));
                    self.entities.push(Sym::Fn(with(id(&m)), c, f.into()));
                }
                2 => {
                    // two parameters at least: neither default, copy nor move
                    let mut params = params.unwrap_or_default();
                    params.insert(0, Ty::Prim(0, 0));
                    params.insert(0, Ty::Ptr(PtrTy { aff: Aff::Ptr, cv: 0, p64: self.x64, restrict: false, unaligned: false, class: None, pointee: Ty::Prim(0, 0) }.into()));
                    let ps = if ps.is_empty() { String::new() } else { format!(", {ps}") };
                    // the number of pointers keeps them apart
                    self.n += 1;
                    let k = self.n;
                    body.push_str(&format!("struct k{k} {{}}; {USED} {x}(int *, int, k{k} *{ps}) {trap}"));
                    let mut kn = vec![id(&format!("k{k}"))];
                    kn.extend(pieces.iter().cloned());
                    params.insert(
                        2,
                        Ty::Ptr(
                            PtrTy { aff: Aff::Ptr, cv: 0, p64: self.x64, restrict: false, unaligned: false, class: None, pointee: Ty::Tag(Tag::Struct, Name::new(kn), 0) }.into(),
                        ),
                    );
                    let cc = if self.x64 || variadic { 0 } else { 2 };
                    let f = FnTy { member: true, this: This { p64: self.x64, ..NO_THIS }, cc: Some(cc), ret: None, params: Some(params), variadic, noexcept: false };
                    self.entities.push(Sym::Fn(with(Piece::Ctor), c, f.into()));
                }
                3 => {
                    // an operator: the parameter keeps them apart
                    self.n += 1;
                    let k = self.n;
                    let ops: &[(&str, &str)] = &[
                        ("5", ">>"), ("6", "<<"), ("8", "=="), ("9", "!="), ("A", "[]"), ("D", "*"), ("G", "-"), ("H", "+"), ("I", "&"), ("J", "->*"), ("K", "/"), ("L", "%"),
                        ("M", "<"), ("N", "<="), ("O", ">"), ("P", ">="), ("Q", ","), ("R", "()"), ("T", "^"), ("U", "|"), ("V", "&&"), ("W", "||"), ("X", "*="), ("Y", "+="),
                        ("Z", "-="), ("_0", "/="), ("_1", "%="), ("_2", ">>="), ("_3", "<<="), ("_4", "&="), ("_5", "|="), ("_6", "^="), ("4", "="), ("__M", "<=>"),
                    ];
                    let (code, op) = *self.r.pick(ops);
                    let i = OPS.iter().position(|o| o.0 == code).unwrap();
                    let (ret, rs) = self.ret(2);
                    let (this, ts) = self.this();
                    body.push_str(&format!("struct k{k} {{}}; {USED} {rs} operator{op}(k{k}){ts} {trap}"));
                    let mut kn = vec![id(&format!("k{k}"))];
                    kn.extend(pieces.iter().cloned());
                    let p = Ty::Tag(Tag::Struct, Name::new(kn), 0);
                    let cc = if self.x64 { 0 } else { 2 };
                    let f = FnTy { member: true, this, cc: Some(cc), ret: Some(ret), params: Some(vec![p]), variadic: false, noexcept: false };
                    self.entities.push(Sym::Fn(with(Piece::Op(i)), c, f.into()));
                }
                4 => {
                    // a conversion
                    let (t, ts) = self.pointer(1);
                    let cc = if self.x64 { 0 } else { 2 };
                    body.push_str(&format!("{USED} operator {ts}() {trap}"));
                    let f = FnTy { member: true, this: This { p64: self.x64, ..NO_THIS }, cc: Some(cc), ret: Some(t), params: None, variadic: false, noexcept: false };
                    self.entities.push(Sym::Fn(with(Piece::Conv), c, f.into()));
                    break;
                }
                5 => {
                    // a template
                    let m = self.id();
                    let kinds = self.kinds();
                    let head = Self::template_head(&kinds);
                    let (a, at) = self.args(&kinds, 2);
                    body.push_str(&format!("{head} {USED} void {m}() {{}}"));
                    statics.push(format!("template void {}{x}::{m}<{at}>();", s.qual));
                    let cc = if self.x64 { 0 } else { 2 };
                    let f = FnTy { member: true, this: This { p64: self.x64, ..NO_THIS }, cc: Some(cc), ..self.plain_fn() };
                    let p = Piece::Tmpl(Rc::new((id(&m), a)));
                    self.entities.push(Sym::Fn(with(p), c, f.into()));
                }
                _ => {
                    // data
                    let m = self.id();
                    let (t, ts) = loop {
                        // complete, and without a need for a value
                        let (t, ts) = self.object_or_ref(2);
                        if matches!(&t, Ty::Prim(_, 0 | 2)) || matches!(&t, Ty::Ptr(p) if p.aff == Aff::Ptr && p.cv & 1 == 0) {
                            break (t, ts);
                        }
                    };
                    body.push_str(&format!("{USED} static inline {ts} {m};"));
                    let sc = match access {
                        Access::Private => 0,
                        Access::Protected => 1,
                        _ => 2,
                    };
                    self.entities.push(Sym::Var(with(id(&m)), sc, t));
                }
            }
        }
        let tag = *self.r.pick(&["struct", "class"]);
        let export = if pieces.iter().any(|p| matches!(p, Piece::Anon(_))) { "" } else { "__declspec(dllexport) " };
        self.within(&s, &format!("{tag} {export}{x} {{{body} }};"));
        for l in statics {
            self.line(&l);
        }
        let tag = if tag == "struct" { Tag::Struct } else { Tag::Class };
        self.classes.push((tag, Name::new(pieces), format!("{}{x}", s.qual)));
    }

    fn function_template(&mut self) {
        let s = self.space();
        let x = self.id();
        let kinds = self.kinds();
        let head = Self::template_head(&kinds);
        let (a, at) = self.args(&kinds, 3);
        self.within(&s, &format!("{head} {USED} void {x}() {{}}"));
        self.line(&format!("template void {}{x}<{at}>();", s.qual));
        let mut v = vec![Piece::Tmpl(Rc::new((id(&x), a)))];
        v.extend(s.pieces.iter().cloned());
        let f = self.plain_fn();
        self.entities.push(Sym::Fn(Name::new(v), self.global(), f.into()));
    }

    fn variable_template(&mut self) {
        let s = self.space();
        let x = self.id();
        let kinds = self.kinds();
        let head = Self::template_head(&kinds);
        let (a, at) = self.args(&kinds, 3);
        self.within(&s, &format!("{head} int {x} = 0;"));
        self.used(&format!("&{}{x}<{at}>", s.qual));
        let mut v = vec![Piece::Tmpl(Rc::new((id(&x), a)))];
        v.extend(s.pieces.iter().cloned());
        self.entities.push(Sym::Var(Name::new(v), 3, Ty::Prim(0, 0)));
    }

    /// things inside of functions
    fn local(&mut self) {
        let s = self.space();
        let x = self.id();
        let y = self.id();
        let c = self.id();
        let m = self.id();
        let (params, variadic, ps) = self.params(2);
        let f = FnTy {
            ret: Some(Ty::Ptr(PtrTy { aff: Aff::Ptr, cv: 0, p64: self.x64, restrict: false, unaligned: false, class: None, pointee: Ty::Prim(VOID, 0) }.into())),
            params,
            variadic,
            ..self.plain_fn()
        };
        let mut pieces = vec![id(&x)];
        pieces.extend(s.pieces.iter().cloned());
        let owner = Rc::new(Sym::Fn(Name::new(pieces), self.global(), f.into()));
        let depth = self.r.u(4);
        // blocks before it count as well, when there's something in them
        let before = "{ static int z; z++; }".repeat(0);
        let (open, close) = ("{ ".repeat(depth), " }".repeat(depth));
        let guarded = self.r.p(1, 2);
        let init = if guarded { format!(" = (int)sizeof({y}) + init_{x}()") } else { String::new() };
        let decl = if guarded { format!("int init_{x}(); ") } else { String::new() };
        self.within(
            &s,
            &format!(
                "{decl}inline void *{x}({ps}) {{ {before}{open} static int {y}{init}; struct {c} {{ static void {m}() {{}} }}; {c}::{m}(); return &{y}; {close} }}"
            ),
        );
        self.used(&format!("&{}{x}", s.qual));
        // whichever number it gets
        for k in 1..8 {
            let l = Piece::Local(k, owner.clone());
            self.maybe.push(Sym::Var(Name::new(vec![id(&y), l.clone()]), 4, Ty::Prim(0, 0)));
            let cl = FnClass { access: Access::Public, is_static: true, is_virtual: false, global: false, extern_c: false, thunk: Thunk::None };
            self.maybe.push(Sym::Fn(Name::new(vec![id(&m), id(&c), l.clone()]), cl, self.plain_fn().into()));
            if guarded {
                for n in 0..4 {
                    self.maybe.push(Sym::Guard(Name::new(vec![Piece::Guard(false, n), l.clone()])));
                }
            }
        }
    }

    /// tables, descriptors and thunks
    fn polymorphic(&mut self) {
        let s = self.space();
        if s.pieces.iter().any(|p| matches!(p, Piece::Anon(_))) {
            return;
        }
        let (a, b, d, m, v) = (self.id(), self.id(), self.id(), self.id(), self.id());
        let with = |p: Piece, c: &str| {
            let mut n = vec![p, id(c)];
            n.extend(s.pieces.iter().cloned());
            Name::new(n)
        };
        let name = |c: &str| {
            let mut n = vec![id(c)];
            n.extend(s.pieces.iter().cloned());
            Name::new(n)
        };
        let (params, variadic, ps) = self.params(1);
        let (access, word) = *self.r.pick(&[(Access::Public, "public"), (Access::Protected, "protected"), (Access::Private, "private")]);
        let virt = if self.r.p(1, 2) { "virtual " } else { "" };
        self.within(
            &s,
            &format!(
                "struct __declspec(dllexport) {a} {{ virtual ~{a}() {{}} virtual void {m}() {{}} int f; }}; \
                 struct __declspec(dllexport) {b} {{ virtual ~{b}() {{}} virtual int {v}({ps}) {{ return 0; }} int g; }}; \
                 class __declspec(dllexport) {d} : public {a}, {virt}public {b} {{ public: {d}() {{}} {word}: void {m}() override {{}} int {v}({ps}) override {{ return 1; }} }};"
            ),
        );
        self.used(&format!("&{}{a}::{m}", s.qual));
        let c = FnClass { access, is_static: false, is_virtual: true, global: false, extern_c: false, thunk: Thunk::None };
        let cc = if self.x64 { 0 } else { 2 };
        let this = This { p64: self.x64, ..NO_THIS };
        let f = FnTy { member: true, this, cc: Some(if variadic { 0 } else { cc }), ret: Some(Ty::Prim(0, 0)), params, variadic, noexcept: false };
        for n in [4u32, 8, 12, 16, 20, 24, 32, 40] {
            let mut t = c;
            t.thunk = Thunk::Adjustor(n);
            t.is_virtual = access != Access::Private;
            self.maybe.push(Sym::Fn(with(id(&v), &d), t, f.clone().into()));
            for k in [0u32, 4, 8, 12, 16, 20, 24, 32] {
                let mut t = c;
                t.thunk = Thunk::VtorDisp(-(n as i32), k);
                self.maybe.push(Sym::Fn(with(id(&v), &d), t, f.clone().into()));
            }
        }
        self.entities.push(Sym::Fn(with(id(&v), &d), c, f.into()));
        for x in [&a, &b, &d] {
            for t in ["`vftable'", "`RTTI Complete Object Locator'", "`vbtable'"] {
                let cv = u8::from(t != "`local vftable'");
                self.maybe.push(Sym::Table(with(Piece::Fixed(t), x), cv, None));
                for y in [&a, &b] {
                    self.maybe.push(Sym::Table(with(Piece::Fixed(t), x), cv, Some(name(y))));
                }
            }
            self.maybe.push(Sym::Untyped(with(Piece::Fixed("`RTTI Base Class Array'"), x)));
            self.maybe.push(Sym::Untyped(with(Piece::Fixed("`RTTI Class Hierarchy Descriptor'"), x)));
            for off in [0u64, 4, 8, 16] {
                for (vb, k) in [(-1i64, 0u64), (0, 4), (8, 4), (4, 4)] {
                    for attrs in [64u64, 80, 0, 16] {
                        self.maybe.push(Sym::Untyped(with(Piece::BaseDesc(off, vb, k, attrs), x)));
                    }
                }
            }
            let tag = if *x == d { Tag::Class } else { Tag::Struct };
            self.maybe.push(Sym::TypeDesc(Ty::Tag(tag, name(x), 0)));
            // deleting destructors
            let del = OPS.iter().position(|o| o.0 == "_G").unwrap();
            let c = FnClass { access: Access::Public, ..c };
            let voidp = Ty::Ptr(PtrTy { aff: Aff::Ptr, cv: 0, p64: self.x64, restrict: false, unaligned: false, class: None, pointee: Ty::Prim(VOID, 0) }.into());
            let g = FnTy { member: true, this, cc: Some(cc), ret: Some(voidp), params: Some(vec![Ty::Prim(7, 0)]), variadic: false, noexcept: false };
            self.maybe.push(Sym::Fn(with(Piece::Op(del), x), c, g.into()));
            let g = FnTy { member: true, this, cc: Some(cc), ret: None, params: None, variadic: false, noexcept: false };
            self.entities.push(Sym::Fn(with(Piece::Dtor, x), c, g.clone().into()));
            self.maybe.push(Sym::Fn(with(Piece::Ctor, x), FnClass { is_virtual: false, ..c }, g.into()));
        }
        for n in [0u64, 4, 8] {
            self.maybe.push(Sym::Vcall(with(Piece::Vcall(n), &a), Some(cc)));
        }
    }

    /// globals with initializers
    fn initialized(&mut self) {
        let s = self.space();
        let (x, c) = (self.id(), self.id());
        let f = FnTy { cc: Some(0), ..self.plain_fn() };
        let mut pieces = vec![id(&x)];
        pieces.extend(s.pieces.iter().cloned());
        let n = Name::new(pieces);
        if self.r.p(1, 3) {
            let kinds = self.kinds();
            let (a, at) = self.args(&kinds, 1);
            let head = Self::template_head(&kinds);
            self.within(&s, &format!("struct {c} {{ {c}(); ~{c}(); }}; {head} {c} {x};"));
            self.used(&format!("&{}{x}<{at}>", s.qual));
            let mut v = n.0.to_vec();
            v[0] = Piece::Tmpl(Rc::new((v[0].clone(), a)));
            let n = Name::new(v);
            self.entities.push(Sym::Fn(Name::one(Piece::DynName(false, n.clone())), self.global(), f.clone().into()));
            self.entities.push(Sym::Fn(Name::one(Piece::DynName(true, n)), self.global(), f.into()));
        } else if self.r.p(1, 2) {
            self.within(&s, &format!("struct {c} {{ {c}(); ~{c}(); }}; {c} {x};"));
            self.entities.push(Sym::Fn(Name::one(Piece::DynName(false, n.clone())), self.global(), f.clone().into()));
            self.entities.push(Sym::Fn(Name::one(Piece::DynName(true, n)), self.global(), f.into()));
        } else {
            let kinds = self.kinds();
            let (a, at) = self.args(&kinds, 1);
            let head = Self::template_head(&kinds);
            let (named, ps) = Self::named_head(&kinds);
            self.within(&s, &format!("int i{c}(); {head} struct {c} {{ static int {x}; }};"));
            self.within(&s, &format!("{named} int {c}<{ps}>::{x} = i{c}();"));
            self.line(&format!("template struct {}{c}<{at}>;", s.qual));
            let mut v = vec![id(&x), Piece::Tmpl(Rc::new((id(&c), a)))];
            v.extend(s.pieces.iter().cloned());
            let var = Sym::Var(Name::new(v), 2, Ty::Prim(0, 0));
            self.entities.push(Sym::Fn(Name::one(Piece::DynVar(false, Rc::new(var.clone()))), self.global(), f.into()));
            self.entities.push(var);
        }
    }

    /// what there's no expectation for: only what it has to be called given its symbol
    fn other(&mut self) {
        let s = self.space();
        let (t, u) = (self.complete(), self.complete());
        let (x, y) = (self.id(), self.id());
        self.n += 1;
        let n = self.n;
        let trap = "{ __builtin_trap(); }";
        let text = match self.r.u(34) {
            // closures
            0 => format!("inline auto {x} = [](T *a, U *b) mutable {{ static T *k; return (void *)&k; }}; {USED} inline void *{y}() {{ return {x}(0, 0); }}"),
            1 => format!("{USED} inline void *{x}(T *a) {{ auto l = [=](auto b) {{ static T *k; (void)a; return (void *)&k; }}; l((U *)0); return (void *)l((T *)0); }}"),
            2 => format!("{USED} inline void *{x}() {{ static U *k = (U *){y}(); auto f = [] {{ static U *m = (U *){y}(); return &m; }}; return (void *)f(); }}"),
            // local entities of members, and of templates
            3 => format!("struct {x} {{ template<class A> void *m(A *, U *) {{ struct L {{ virtual void v(A *) {{}} }}; static L l; {{ static A *z; return (void *)&z; }} }} }}; {USED} void *{y}() {{ return (void *){x}().m((T *)0, 0); }}"),
            4 => format!("struct {x} {{ {x}(); virtual ~{x}() {{ static T *a; struct E {{ static void f(T *) {{}} }}; E::f(a); }} operator T *() {{ static U *a; return (T *)(void *)&a; }} }}; {USED} {x} *{y}() {{ {x} k; (void)(T *)k; return new {x}; }}"),
            // deduced kinds of arguments
            5 => format!("template<auto... A> struct {x} {{ {USED} static void f() {{}} }}; template struct {x}<1, 'a', true, -7LL, nullptr>; template<auto A> {USED} void {y}() {{}} template void {y}<(T *)nullptr>();"),
            6 => format!("struct {x} {{ T *a; U *b; void f(T *); virtual void v(); }}; template<T *{x}::*P> {USED} void {y}() {{}} template void {y}<&{x}::a>(); template void {y}<nullptr>(); template<void ({x}::*P)(T *)> {USED} void f{n}_() {{}} template void f{n}_<&{x}::f>(); template<void ({x}::*P)()> {USED} void g{n}_() {{}} template void g{n}_<&{x}::v>();"),
            7 => format!("template<auto *P> {USED} void {x}() {{}} extern T *{y}; template void {x}<&{y}>(); template<auto &P> {USED} void f{n}_() {{}} template void f{n}_<{y}>();"),
            8 => format!("void *f{n}_(); template<class A> struct {x} {{ static A a; }}; template<class A> A {x}<A>::a = (A)f{n}_(); template struct {x}<U *>; template<int *P> {USED} void {y}() {{}} template<class A> int v{n}_ = sizeof(A); template void {y}<&v{n}_<U *>>();"),
            // packs
            9 => format!("template<class... A> {USED} void {x}(A *...) {{}} template void {x}<T, U *, T>(T *, U **, T *); template<template<class...> class... A> struct {y} {{ {USED} static void f() {{}} }}; template struct {y}<pack_, alias_>; template struct {y}<>;"),
            10 => format!("template<class A, class... B> struct {x} {{ template<class C> {USED} static C *f(A *, {x}<A> *) {{ return 0; }} {x}(B *...) {{}} template<class C> explicit {x}(C *, A *) {{}} }}; {USED} void *{y}() {{ {x}<T, U *> k((U *)0, (T *)0); return (void *){x}<U *>::template f<T>(0, 0); }}"),
            // operators
            11 => format!("struct {x} {{ T *operator->(); T *operator*(); {x} &operator++(); {x} operator++(int); {x} &operator--(); bool operator!(); int operator~(); operator bool(); U *operator()(T *, U *, ...); }}; {USED} void *{y}({x} *a) {{ ++*a; (*a)++; --*a; !*a; ~*a; (bool)*a; **a; (*a)(0, 0, 3); return (void *)a->operator->(); }}"),
            12 => format!("struct {x} {{ void *operator new(size_t_); void operator delete(void *); void *operator new[](size_t_); void operator delete[](void *); T *k; {x}(); ~{x}(); }}; {USED} void {y}() {{ delete new {x}; delete[] new {x}[3]; {x} a[2]; }}"),
            13 => format!("{USED} T *operator\"\" _a{n}(unsigned long long) {trap} {USED} U *operator\"\" _é{n}(const char *, size_t_) {trap} template<char... C> {USED} T *operator\"\" _t{n}() {trap} {USED} inline void {x}() {{ 12_t{n}; }}"),
            14 => format!("template<class A> struct {x} {{ A *a; template<class B> operator B *() {trap} operator A() {trap} }}; {USED} void *{y}({x}<T *> k) {{ (T *)k; return (void *)(U **)k; }}"),
            // inheritance
            15 => format!("struct {x} {{ virtual T *f(U *); virtual ~{x}(); int a; }}; struct {y} : virtual {x} {{ {y}(); T *f(U *) override; virtual void g(T *); int b; }}; struct c{n}_ : virtual {x}, {y} {{ c{n}_(); T *f(U *) override; void g(T *) override; }}; {y}::{y}() {{}} c{n}_::c{n}_() {{}} T *{y}::f(U *) {trap} T *c{n}_::f(U *) {trap} void {y}::g(T *) {{}} void c{n}_::g(T *) {{}}"),
            16 => format!("template<class A> struct {x} {{ virtual A *f(); virtual ~{x}(); }}; template<class A> struct {y} : {x}<A>, {x}<A *> {{ A **g() {{ return 0; }} {y}() {{}} }}; {USED} void *f{n}_() {{ return new {y}<U *>; }} {USED} auto g{n}_ = &{x}<U *>::f;"),
            17 => format!("struct {x} {{ virtual {x} *m(); virtual int k(T *); }}; struct {y} {{ virtual U **k(); virtual T *o(); }}; struct c{n}_ : {x}, {y} {{ c{n}_() {{}} int k(T *) override {{ return 0; }} }}; struct d{n}_ : {y}, {x} {{ d{n}_() {{}} d{n}_ *m() override {trap} }}; {USED} inline void *h{n}_() {{ new c{n}_; return new d{n}_; }} {USED} auto f{n}_ = &{x}::k; {USED} auto g{n}_ = &{x}::m;"),
            // statics, thread locals, exceptions
            18 => format!("{USED} thread_local T *{x} = (T *){y}(); {USED} inline void *f{n}_() {{ static thread_local U *k = (U *){y}(); static T *m = (T *){y}(); return &k + (m != 0); }}"),
            19 => format!("struct {x} {{ {x}(const {x} &); {x}({x} &&); ~{x}(); T *a; }}; struct {y} : {x} {{ U *b; }}; void f{n}_({y} &b) {{ throw b; }} void g{n}_(T *a) {{ throw a; }}"),
            // nesting, and a union and an enumeration without names
            20 => format!("struct {x} {{ union {{ T *a; U *b; }}; struct {{ T *c; static void f(U *) {{}} }} k; enum {{ A{n}, B{n} }} e; static void g(decltype(k) *, decltype(e) *); }}; {USED} auto {y} = &{x}::g; {USED} inline void f{n}_(decltype({x}::k) *a) {{ a->f(0); }}"),
            // types that are deduced
            22 => format!("struct {x} {{ operator auto() {{ return (T *)0; }} operator decltype(auto)() const {{ return (U *)0; }} operator auto *() volatile {{ return (T **)0; }} auto f(U *) {{ return 3; }} }}; {USED} void *{y}({x} a) {{ const {x} b; volatile {x} c; a.operator auto(); b.operator decltype(auto)(); c.operator auto *(); a.f(0); return 0; }}"),
            23 => format!("struct p{n}_ {{ T *a; U *b; }}; p{n}_ f{n}_(); static auto [{x}, {y}] = f{n}_(); {USED} inline void *g{n}_() {{ static auto [k, l] = f{n}_(); return &k; }} {USED} auto *h{n}_() {{ return &{x}; }}"),
            24 => format!("inline auto {x} = [](auto a, T *b) {{ return a; }}; {USED} U *(*{y})(U *, T *) = {x}; {USED} auto f{n}_ = +[](U *a) -> decltype(auto) {{ return (a); }};"),
            // templates of variables, constrained ones, and arguments of deduced types
            25 => format!("template<class A> A *f{n}_(); template<class A> inline A *{x} = f{n}_<A>(); {USED} auto *{y} = &{x}<U *>; template<class A, class B> inline const B *c{n}_ = (B *)f{n}_<A>(); {USED} inline auto *g{n}_() {{ static auto *k = &c{n}_<T *, U *>; return k; }}"),
            26 => format!("template<class A> concept k{n}_ = sizeof(A *) > 1; template<k{n}_ A> A *{x}(A **, k{n}_ auto *) requires k{n}_<A *> {trap} template T **{x}<T *>(T ***, U **);"),
            27 => format!("inline T *s{n}_; struct m{n}_ {{ T *a; void f(U *) {{}} virtual U *g(); }}; template<auto V> struct {x} {{ static U *f() {trap} }}; {USED} void {y}() {{ {x}<&s{n}_>::f(); {x}<&m{n}_::a>::f(); {x}<&m{n}_::f>::f(); {x}<&m{n}_::g>::f(); {x}<3>::f(); {x}<nullptr>::f(); {x}<(unsigned char)200>::f(); {x}<true>::f(); }}"),
            // clang's own types and conventions
            28 => format!("{USED} void {x}(_BitInt(17) a, unsigned _BitInt(33) *b, _Atomic(T *) *c, _Complex float d, _Float16 *e, T *) {{}} typedef float v{n}_ __attribute__((vector_size(16))); typedef int w{n}_ __attribute__((ext_vector_type(8))); {USED} w{n}_ *{y}(v{n}_ a, w{n}_ *b, w{n}_ *(*c)(U *)) {trap}"),
            29 => format!("__attribute__((regcall)) {USED} T *{x}(U *, T *) {trap} {USED} void {y}(T *(__vectorcall *)(U *), T *(__attribute__((regcall)) *)(U *), U *(__fastcall *)(T *, ...) noexcept, void (*)(T *(*)() noexcept, U *) noexcept) {{}}"),
            30 => format!("{USED} void {x}(T *__ptr32 a, T *__sptr b, U *__uptr __ptr64 c, int *__restrict *d, const T __unaligned *e, __restrict decltype(a) *f) {{}}"),
            // namespaces without a name within one another, and arrays of objects
            31 => format!("namespace {{ inline namespace k{n}_ {{ struct {x} {{ void f(T *); {x} *a; template<class A> void g(A *, {x} *) {{}} }}; }} void {x}::f(T *) {{}} }} {USED} void {y}({x} *a) {{ a->f(0); a->g((U *)0, a); }} namespace {{ namespace l{n}_ {{ namespace {{ {USED} {x} *h{n}_({x} &) {trap} }} }} }}"),
            32 => format!("struct {x} {{ {x}(); ~{x}(); T *a; }}; {x} a{n}_[3]; static {x} b{n}_[2][2]; template<class A> struct {y} {{ static {x} m; static inline {x} k[2]; static thread_local {x} t; }}; template<class A> {x} {y}<A>::m; template<class A> thread_local {x} {y}<A>::t; template struct {y}<U *>;"),
            33 => format!("struct {x} {{ T *a; {x}(T *, U * = 0); explicit {x}(U (&&)[2]); {x} &operator=({x} &&) &; {x} &operator=(const {x} &) &&; int operator<=>(const {x} &) const {trap} bool operator()(T *, ...) volatile;  T *operator[](U *) const &&; U *operator->*(T *); }}; {x}::{x}(T *, U *) {{}} {x}::{x}(U (&&)[2]) {{}} {x} &{x}::operator=({x} &&) & {{ return *this; }} {x} &{x}::operator=(const {x} &) && {{ return *this; }} bool {x}::operator()(T *, ...) volatile {trap} T *{x}::operator[](U *) const && {trap} U *{x}::operator->*(T *) {trap}"),
            _ => format!("typedef struct {{ T *a; }} {x}; {USED} inline void {y}({x} *, U *) {{}} enum class e{n}_ : char {{ k = -3 }}; template<e{n}_ E> {USED} void f{n}_(e{n}_ *, {x} *) {{}} template void f{n}_<e{n}_::k>(e{n}_ *, {x} *);"),
        };
        let init = match text.contains(&format!("){y}()")) {
            true => format!("void *{y}(); "),
            false => String::new(),
        };
        let ts: Vec<char> = text.chars().collect();
        // the types in the places of `T` and `U`
        let mut out = String::new();
        let word = |c: char| c.is_alphanumeric() || c == '_' || c == '$' || !c.is_ascii();
        let mut i = 0;
        while i < ts.len() {
            if word(ts[i]) {
                let mut j = i;
                while j < ts.len() && word(ts[j]) {
                    j += 1;
                }
                let w: String = ts[i..j].iter().collect();
                match w.as_str() {
                    "T" | "U" => out.push_str(&format!("{w}{n}_t")),
                    w => out.push_str(w),
                }
                i = j;
            } else {
                out.push(ts[i]);
                i += 1;
            }
        }
        self.within(&s, &format!("typedef {t} T{n}_t; typedef {u} U{n}_t; {init}{out}"));
    }

    /// a type there can be objects of and pointers to
    fn complete(&mut self) -> String {
        loop {
            let (t, s) = self.ty(2);
            match &t {
                Ty::Ptr(p) if p.aff != Aff::Ptr => (),
                // without linkage, all has to be defined
                t if format!("{t:?}").contains("Anon") => (),
                _ => return s,
            }
        }
    }

    fn string(&mut self) {
        let kind = *self.r.pick(&[1u8, 0, 2, 4]);
        let n = match self.r.u(3) {
            0 => self.r.u(6),
            1 => self.r.u(40),
            _ => 28 + self.r.u(8),
        };
        let max = if kind == 1 { 0x100 } else { 0x1000 };
        let wild = self.r.p(1, 2);
        let chars: Vec<u32> = (0..n).map(|_| if wild { 1 + self.r.below(max - 1) as u32 } else { 0x20 + self.r.below(0x5f) as u32 }).collect();
        let (pre, ty) = match kind {
            0 => ("L", "wchar_t"),
            1 => ("", "char"),
            2 => ("u", "char16_t"),
            _ => ("U", "char32_t"),
        };
        let mut lit = String::new();
        for c in &chars {
            if kind == 1 {
                lit.push_str(&format!("\\{c:03o}"));
            } else {
                // of a width of its own, whatever follows
                lit.push_str(&format!("\\x{c:x}\" {pre}\""));
            }
        }
        self.n += 1;
        let x = self.n;
        self.line(&format!("extern const {ty} *s{x}_; const {ty} *s{x}_ = {pre}\"{lit}\";"));
        if let Some(l) = literal_parts(kind, &chars) {
            self.literals.push(l);
        }
    }
}

/// template arguments are canonical types: parameters of functions have no qualifiers of their own
fn canonical(t: &Ty) -> Ty {
    match t {
        Ty::Ptr(p) => Ty::Ptr(PtrTy { pointee: canonical(&p.pointee), ..(**p).clone() }.into()),
        Ty::Arr(a) => Ty::Arr(ArrTy { elem: canonical(&a.elem), ..(**a).clone() }.into()),
        Ty::Fun(f) => {
            let param = |t: &Ty| match canonical(t) {
                Ty::Ptr(p) => Ty::Ptr(PtrTy { cv: 0, restrict: false, ..(*p).clone() }.into()),
                t => t,
            };
            let params = f.params.as_ref().map(|v| v.iter().map(param).collect());
            Ty::Fun(FnTy { ret: f.ret.as_ref().map(canonical), params, ..(**f).clone() }.into())
        }
        t => t.clone(),
    }
}
