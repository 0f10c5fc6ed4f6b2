//! Reference mangler: spells a symbol the way a Microsoft-compatible compiler could. Wherever the
//! encoding has several spellings of the same thing (back references or not, `near` or `far`
//! letters, redundant qualifiers, padded numbers), the choice sequence decides.

use crate::ast::*;
use crate::eng::Src;
use crate::print::qualify;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Backrefs {
    Never,
    /// like compilers do
    Always,
    Random,
}

#[derive(Clone, Copy, Debug)]
pub struct Style {
    pub backrefs: Backrefs,
    /// only use the spellings compilers prefer
    pub canonical: bool,
}

pub const COMPILER: Style = Style { backrefs: Backrefs::Always, canonical: true };

#[derive(Default)]
struct Ctx {
    names: Vec<(String, Piece)>,
    params: Vec<Ty>,
}

pub struct Mangler<'r> {
    pub out: String,
    ctx: Ctx,
    st: Style,
    r: &'r mut Src,
    /// how many back references to names and to parameters were used
    pub name_refs: usize,
    pub param_refs: usize,
    /// how many names were left out of the table because it was full
    pub overflow: usize,
}

pub struct Mangled {
    pub text: String,
    pub name_refs: usize,
    pub param_refs: usize,
    pub overflow: usize,
}

pub fn mangle(s: &Sym, st: Style, r: &mut Src) -> Mangled {
    let mut m = Mangler { out: String::new(), ctx: Ctx::default(), st, r, name_refs: 0, param_refs: 0, overflow: 0 };
    m.symbol(s);
    Mangled { text: m.out, name_refs: m.name_refs, param_refs: m.param_refs, overflow: m.overflow }
}

/// the canonical spelling of a number
pub fn number(v: u64) -> String {
    if (1..=10).contains(&v) {
        return (v - 1).to_string();
    }
    hex_number(v)
}

fn hex_number(v: u64) -> String {
    let mut s = String::new();
    for c in format!("{v:X}").chars() {
        let d = c.to_digit(16).unwrap() as u8;
        s.push((b'A' + d) as char);
    }
    s.push('@');
    s
}

impl Mangler<'_> {
    fn p(&mut self, s: &str) {
        self.out.push_str(s);
    }

    fn odd(&mut self) -> bool {
        !self.st.canonical && self.r.p(1, 4)
    }

    fn num(&mut self, v: u64) {
        let s = if self.odd() {
            let mut s = hex_number(v);
            let room = 17 - s.len();
            for _ in 0..self.r.small(room) {
                s.insert(0, 'A');
            }
            s
        } else {
            number(v)
        };
        self.p(&s);
    }

    fn signed(&mut self, v: i64) {
        if v < 0 {
            self.p("?");
        }
        self.num(v.unsigned_abs());
    }

    /// 32 bit offsets may be spelled as their two's complement
    fn off32(&mut self, v: i32) {
        if v < 0 && (self.st.canonical || self.r.p(1, 2)) {
            self.num(u64::from(v as u32));
        } else {
            self.signed(i64::from(v));
        }
    }

    // ---- names

    fn use_ref(&mut self) -> bool {
        match self.st.backrefs {
            Backrefs::Never => false,
            Backrefs::Always => true,
            Backrefs::Random => self.r.p(2, 3),
        }
    }

    fn try_ref(&mut self, p: &Piece) -> bool {
        let Some(i) = self.ctx.names.iter().position(|(_, q)| q == p) else { return false };
        if !self.use_ref() {
            return false;
        }
        self.name_refs += 1;
        self.p(&i.to_string());
        true
    }

    fn remember(&mut self, key: String, p: &Piece) {
        if self.ctx.names.iter().any(|(k, _)| *k == key) {
            return;
        }
        if self.ctx.names.len() < 10 {
            self.ctx.names.push((key, p.clone()));
        } else {
            self.overflow += 1;
        }
    }

    fn simple(&mut self, t: &Rc<str>) {
        let p = Piece::Id(t.clone());
        if self.try_ref(&p) {
            return;
        }
        self.p(t);
        self.p("@");
        self.remember(t.to_string(), &p);
    }

    fn template_text(&mut self, base: &Piece, args: &[TArg]) -> String {
        let ctx = std::mem::take(&mut self.ctx);
        let out = std::mem::take(&mut self.out);
        self.p("?$");
        self.leaf(base);
        for a in args {
            self.targ(a, false);
        }
        self.p("@");
        self.ctx = ctx;
        std::mem::replace(&mut self.out, out)
    }

    /// a component of a scope, or the leaf of a type's name
    fn scope(&mut self, p: &Piece) {
        match p {
            Piece::Id(t) => self.simple(t),
            Piece::Tmpl(t) => {
                if self.try_ref(p) {
                    return;
                }
                let text = self.template_text(&t.0, &t.1);
                self.p(&text);
                self.remember(text, p);
            }
            Piece::Anon(t) => {
                if self.try_ref(p) {
                    return;
                }
                let key = format!("?A{t}");
                self.p(&key);
                self.p("@");
                self.remember(key, p);
            }
            Piece::Local(n, s) => {
                self.p("?");
                match n {
                    0 => {
                        if self.odd() {
                            // the other spelling of 0 would be taken for an anonymous namespace
                        }
                        self.p("@");
                    }
                    n => self.p(&number(*n)),
                }
                self.p("?");
                self.symbol(s);
            }
            p => panic!("not a scope: {p:?}"),
        }
    }

    /// the leaf of a symbol's or a template's name
    fn leaf(&mut self, p: &Piece) {
        match p {
            Piece::Id(t) => self.simple(t),
            Piece::Tmpl(t) => {
                // compilers don't use the table here
                if self.st.backrefs == Backrefs::Random && self.try_ref(p) {
                    return;
                }
                let text = self.template_text(&t.0, &t.1);
                self.p(&text);
            }
            Piece::Op(i) => {
                self.p("?");
                self.p(OPS[*i].0);
            }
            Piece::Lit(t) => {
                self.p("?__K");
                self.p(t);
                self.p("@");
            }
            Piece::Ctor => self.p("?0"),
            Piece::Dtor => self.p("?1"),
            Piece::Conv => self.p("?B"),
            p => panic!("not a leaf: {p:?}"),
        }
    }

    fn scopes(&mut self, ps: &[Piece]) {
        for p in ps {
            self.scope(p);
        }
        self.p("@");
    }

    fn type_name(&mut self, n: &Name) {
        self.scope(&n.0[0]);
        self.scopes(&n.0[1..]);
    }

    // ---- symbols

    pub fn symbol(&mut self, s: &Sym) {
        match s {
            Sym::TypeName(t) => {
                self.p(".");
                self.result(t);
            }
            Sym::Md5(t) => self.p(t),
            Sym::TypeDesc(t) => {
                self.p("??_R0");
                self.result(t);
                self.p("@8");
            }
            Sym::Str(_) => panic!("string literals are spelled by their generator"),
            Sym::Table(n, cv, target) => {
                let (code, d) = match n.leaf() {
                    Piece::Fixed("`vftable'") => ("??_7", "6"),
                    Piece::Fixed("`vbtable'") => ("??_8", "7"),
                    Piece::Fixed("`local vftable'") => ("??_S", "6"),
                    Piece::Fixed("`RTTI Complete Object Locator'") => ("??_R4", "6"),
                    p => panic!("not a table: {p:?}"),
                };
                self.p(code);
                self.scopes(&n.0[1..]);
                let d = match d {
                    "6" if self.odd() => "7",
                    "7" if self.odd() => "6",
                    d => d,
                };
                self.p(d);
                self.member_cv(*cv);
                match target {
                    None => self.p("@"),
                    Some(t) => self.type_name(t),
                }
            }
            Sym::Guard(n) => {
                let Piece::Guard(thread, i) = n.leaf() else { panic!() };
                self.p(if *thread { "??__J" } else { "??_B" });
                self.scopes(&n.0[1..]);
                if self.r.p(1, 4) {
                    self.p("4IA");
                } else {
                    self.p("5");
                }
                self.num(*i);
            }
            Sym::Untyped(n) => {
                match n.leaf() {
                    Piece::BaseDesc(a, b, c, d) => {
                        self.p("??_R1");
                        self.num(*a);
                        self.signed(*b);
                        self.num(*c);
                        self.num(*d);
                    }
                    Piece::Fixed("`RTTI Base Class Array'") => self.p("??_R2"),
                    Piece::Fixed("`RTTI Class Hierarchy Descriptor'") => self.p("??_R3"),
                    p => panic!("{p:?}"),
                }
                self.scopes(&n.0[1..]);
                self.p("8");
            }
            Sym::Vcall(n, cc) => {
                let Piece::Vcall(off) = n.leaf() else { panic!() };
                self.p("??_9");
                self.scopes(&n.0[1..]);
                self.p("$B");
                self.num(*off);
                self.p("A");
                self.cc(*cc);
            }
            Sym::Var(n, sc, t) => {
                self.p("?");
                self.var_name(n);
                self.var(*sc, t);
            }
            Sym::Fn(n, c, f) => match n.leaf() {
                Piece::DynVar(d, v) => {
                    self.p(if *d { "??__F" } else { "??__E" });
                    let Sym::Var(vn, sc, t) = &**v else { panic!() };
                    let marked = self.st.canonical || self.r.p(3, 4);
                    // without the mark, a name can't begin with one
                    let marked = marked || !matches!(vn.leaf(), Piece::Id(_));
                    if marked {
                        self.p("?");
                    }
                    self.var_name(vn);
                    self.var(*sc, t);
                    self.p(if marked { "@@" } else { "@" });
                    self.func(c, f);
                }
                Piece::DynName(d, n) => {
                    self.p(if *d { "??__F" } else { "??__E" });
                    self.var_name(n);
                    self.func(c, f);
                }
                _ => {
                    self.p("?");
                    self.decl_name(n);
                    self.func(c, f);
                }
            },
            Sym::NoParams(n, _) => {
                self.p("?");
                self.decl_name(n);
                if self.odd() {
                    self.p("$$J0");
                }
                self.p("9");
            }
        }
    }

    fn decl_name(&mut self, n: &Name) {
        self.leaf(&n.0[0]);
        self.scopes(&n.0[1..]);
    }

    /// the names of variable templates are remembered, unlike those of function templates
    fn var_name(&mut self, n: &Name) {
        match n.leaf() {
            p @ Piece::Tmpl(_) if matches!(base_of(p), Piece::Id(_)) => self.scope(p),
            p => self.leaf(p),
        }
        self.scopes(&n.0[1..]);
    }

    fn var(&mut self, sc: u8, t: &Ty) {
        self.p(&sc.to_string());
        match t {
            Ty::Ptr(p) => {
                // the pointee's qualifiers come again after the type
                let base = pointee_quals(p);
                let (pointee, cv) = match &p.pointee {
                    Ty::Prim(..) | Ty::Tag(..) | Ty::Custom(..) => strip(&p.pointee),
                    Ty::Ptr(x) if x.aff == Aff::Ptr => {
                        let x = PtrTy { cv: 0, ..(**x).clone() };
                        (Ty::Ptr(x.into()), base)
                    }
                    t => (t.clone(), 0),
                };
                // or only then
                let late = base != 0 && cv == base && self.odd();
                if late {
                    self.ptr(&PtrTy { pointee, ..(**p).clone() });
                } else {
                    self.ptr(p);
                }
                if p.p64 {
                    self.p("E");
                }
                if p.restrict && !self.odd() {
                    self.p("I");
                }
                if p.unaligned && !self.st.canonical && !self.odd() {
                    self.p("F");
                }
                let q = match &p.pointee {
                    _ if late => base,
                    _ if self.odd() => 0,
                    Ty::Fun(_) => 0,
                    // that of the elements
                    Ty::Arr(a) => match &a.elem {
                        Ty::Ptr(p) => p.cv,
                        _ => a.cv,
                    },
                    _ => base,
                };
                let member = p.class.is_some() != self.odd();
                self.p(if member { ["Q", "R", "S", "T"] } else { ["A", "B", "C", "D"] }[q as usize]);
                if let Some(c) = &p.class {
                    self.type_name(c);
                }
            }
            t => {
                let (t, cv) = strip(t);
                self.ty(&t);
                self.member_cv(cv);
            }
        }
    }

    /// qualifiers where being those of a member makes no difference
    fn member_cv(&mut self, cv: u8) {
        let letters = if self.odd() { ["Q", "R", "S", "T"] } else { ["A", "B", "C", "D"] };
        self.p(letters[cv as usize]);
    }

    fn func(&mut self, c: &FnClass, f: &FnTy) {
        if c.extern_c {
            self.p("$$J0");
        }
        let acc = |pri: char, pro: char, publ: char| match c.access {
            Access::Private => pri,
            Access::Protected => pro,
            _ => publ,
        };
        let far = self.odd();
        match c.thunk {
            Thunk::None => {
                let l = if c.global {
                    'Y'
                } else if c.is_static {
                    acc('C', 'K', 'S')
                } else if c.is_virtual {
                    acc('E', 'M', 'U')
                } else {
                    acc('A', 'I', 'Q')
                };
                self.out.push((l as u8 + u8::from(far)) as char);
            }
            Thunk::Adjustor(o) => {
                let l = acc('G', 'O', 'W');
                self.out.push((l as u8 + u8::from(far)) as char);
                self.adj(o);
            }
            Thunk::VtorDisp(v, s) => {
                self.p("$");
                let l = acc('0', '2', '4');
                self.out.push((l as u8 + u8::from(far)) as char);
                self.off32(v);
                self.adj(s);
            }
            Thunk::VtorDispEx(a, b, v, s) => {
                self.p("$R");
                let l = acc('0', '2', '4');
                self.out.push((l as u8 + u8::from(far)) as char);
                self.off32(a);
                self.off32(b);
                self.off32(v);
                self.adj(s);
            }
        }
        self.fn_type(f);
    }

    /// an unsigned 32 bit offset
    fn adj(&mut self, v: u32) {
        if self.odd() {
            self.signed(i64::from(v as i32));
        } else {
            self.num(u64::from(v));
        }
    }

    // ---- types

    fn cc(&mut self, cc: Option<usize>) {
        let l = CCS[cc.expect("a known convention")].0;
        let i = if self.odd() { self.r.u(l.len()) } else { 0 };
        self.out.push(l[i]);
    }

    fn fn_type(&mut self, f: &FnTy) {
        if f.member {
            let t = f.this;
            if t.p64 {
                self.p("E");
            }
            if t.restrict {
                self.p("I");
            }
            if t.unaligned {
                self.p("F");
            }
            self.p(match t.refq {
                RefQ::None => "",
                RefQ::L => "G",
                RefQ::R => "H",
            });
            self.p(["A", "B", "C", "D"][t.cv as usize]);
        }
        self.cc(f.cc);
        match &f.ret {
            None => self.p("@"),
            Some(t) => self.result(t),
        }
        match &f.params {
            None => self.p("X"),
            Some(ps) => {
                for p in ps {
                    self.param(p);
                }
                self.p(if f.variadic { "Z" } else { "@" });
            }
        }
        self.p(if f.noexcept { "_E" } else { "Z" });
    }

    fn param(&mut self, t: &Ty) {
        if let Some(i) = self.ctx.params.iter().position(|q| q == t) {
            // any of the equal ones will do
            let alts: Vec<usize> = (i..self.ctx.params.len()).filter(|j| self.ctx.params[*j] == *t).collect();
            if self.use_ref() {
                let i = if alts.len() > 1 && self.st.backrefs == Backrefs::Random { *self.r.pick(&alts) } else { i };
                self.param_refs += 1;
                self.p(&i.to_string());
                return;
            }
        }
        let at = self.out.len();
        self.ty(t);
        if self.out[at..].chars().count() > 1 {
            if self.ctx.params.len() < 10 {
                self.ctx.params.push(t.clone());
            } else {
                self.overflow += 1;
            }
        }
    }

    fn result(&mut self, t: &Ty) {
        match t {
            Ty::Prim(_, 0) | Ty::Ptr(_) | Ty::Arr(_) | Ty::Fun(_) => {
                if self.odd() {
                    self.p("?A");
                }
                self.ty(t);
            }
            t => {
                let (t, cv) = strip(t);
                self.p("?");
                self.p(["A", "B", "C", "D"][cv as usize]);
                self.ty(&t);
            }
        }
    }

    pub fn ty(&mut self, t: &Ty) {
        match t {
            Ty::Prim(i, cv) => {
                assert_eq!(*cv, 0, "qualifiers aren't part of the spelling of {t:?}");
                self.p(PRIMS[*i].0);
            }
            Ty::Tag(k, n, cv) => {
                assert_eq!(*cv, 0, "qualifiers aren't part of the spelling of {t:?}");
                self.p(match k {
                    Tag::Union => "T",
                    Tag::Struct => "U",
                    Tag::Class => "V",
                    Tag::Enum => "W4",
                });
                self.type_name(n);
            }
            Ty::Custom(p, cv) => {
                assert_eq!(*cv, 0, "qualifiers aren't part of the spelling of {t:?}");
                self.p("?");
                self.scope(p);
                self.p("@");
            }
            Ty::Ptr(p) => self.ptr(p),
            Ty::Arr(a) => {
                self.p("Y");
                self.num(a.dims.len() as u64);
                for d in &a.dims {
                    self.num(*d);
                }
                let (elem, cv) = match &a.elem {
                    Ty::Prim(..) | Ty::Tag(..) | Ty::Custom(..) => strip(&a.elem),
                    e => (e.clone(), 0),
                };
                let cv = cv | a.cv;
                if cv != 0 {
                    self.p("$$C");
                    self.p(["A", "B", "C", "D"][cv as usize]);
                }
                self.ty(&elem);
            }
            Ty::Fun(f) => {
                self.p(if f.member { "$$A8@@" } else { "$$A6" });
                self.fn_type(f);
            }
        }
    }

    fn ptr(&mut self, p: &PtrTy) {
        self.p(match (p.aff, p.cv) {
            (Aff::Ptr, 0) => "P",
            (Aff::Ptr, 1) => "Q",
            (Aff::Ptr, 2) => "R",
            (Aff::Ptr, _) => "S",
            (Aff::LRef, _) => "A",
            (Aff::RRef, _) => "$$Q",
        });
        if let Ty::Fun(f) = &p.pointee {
            if let Some(c) = &p.class {
                self.p("8");
                self.type_name(c);
            } else {
                self.p("6");
            }
            self.fn_type(f);
            return;
        }
        if p.p64 {
            self.p("E");
        }
        if p.restrict {
            self.p("I");
        }
        if p.unaligned {
            self.p("F");
        }
        // qualifiers of pointers and arrays are also part of the pointee's own spelling
        let (inner, q) = match &p.pointee {
            Ty::Prim(..) | Ty::Tag(..) | Ty::Custom(..) => strip(&p.pointee),
            Ty::Ptr(x) if x.aff == Aff::Ptr => {
                let q = if self.odd() { 0 } else { x.cv };
                (p.pointee.clone(), q)
            }
            Ty::Arr(a) if a.cv != 0 && self.odd() => {
                let q = a.cv;
                let mut a = (**a).clone();
                a.cv = 0;
                (Ty::Arr(a.into()), q)
            }
            t => (t.clone(), 0),
        };
        match &p.class {
            Some(c) => {
                self.p(["Q", "R", "S", "T"][q as usize]);
                self.type_name(c);
            }
            None => self.p(["A", "B", "C", "D"][q as usize]),
        }
        self.ty(&inner);
    }

    // ---- template arguments

    fn targ(&mut self, a: &TArg, auto: bool) {
        let d = if auto { "" } else { "$" };
        match a {
            TArg::Pack(i) => self.p(PACKS[*i]),
            TArg::Ty(t) => self.ty(t),
            TArg::Arr(t) => {
                self.p("$$B");
                self.ty(t);
            }
            TArg::Qual(cv, t) => {
                self.p("$$C");
                self.p(["A", "B", "C", "D"][*cv as usize]);
                self.ty(t);
            }
            TArg::Alias(n) => {
                self.p("$$Y");
                self.type_name(n);
            }
            TArg::Int(v, neg) => {
                self.p(d);
                self.p("0");
                if *neg {
                    self.p("?");
                }
                self.num(*v);
            }
            TArg::Addr(s) => {
                self.p(d);
                self.p("1");
                if let Some(s) = s {
                    self.symbol(s);
                }
            }
            TArg::MemFn(s, os) => {
                self.p(d);
                self.p(["H", "I", "J"][os.len() - 1]);
                if let Some(s) = s {
                    self.symbol(s);
                }
                for o in os {
                    self.signed(*o);
                }
            }
            TArg::Ref(s) => {
                self.p("$E");
                self.symbol(s);
            }
            TArg::MemData(os) => {
                self.p(d);
                self.p(if os.len() == 2 { "F" } else { "G" });
                for o in os {
                    self.signed(*o);
                }
            }
            TArg::Auto(t, a) => {
                self.p("$M");
                self.ty(t);
                self.targ(a, true);
            }
        }
    }
}

fn pointee_quals(p: &PtrTy) -> u8 {
    match &p.pointee {
        Ty::Prim(_, cv) | Ty::Tag(_, _, cv) | Ty::Custom(_, cv) => *cv,
        Ty::Ptr(x) => x.cv,
        _ => 0,
    }
}

/// a type without, and its top level qualifiers
fn strip(t: &Ty) -> (Ty, u8) {
    match t {
        Ty::Prim(i, cv) => (Ty::Prim(*i, 0), *cv),
        Ty::Tag(k, n, cv) => (Ty::Tag(*k, n.clone(), 0), *cv),
        Ty::Custom(p, cv) => (Ty::Custom(p.clone(), 0), *cv),
        t => (t.clone(), 0),
    }
}

/// the type with everything normalised the way demangling would: what `qualify` does twice
pub fn normal(t: &Ty) -> Ty {
    qualify(t, 0)
}
