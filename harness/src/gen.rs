//! Generators of symbols, by construction: everything they build is something a compiler could
//! have to mangle (or, where noted, something its encoding allows for).

use crate::ast::*;
use crate::eng::Src;
use crate::print::qualify;
use std::rc::Rc;

#[derive(Clone, Copy, Debug)]
pub struct Cfg {
    /// how much structure there may be
    pub fuel: i32,
    /// chance (of 16) to reuse a name or type that came before
    pub reuse: u64,
    /// identifiers: 0 plain, 1 anything a compiler could emit, 2 with plenty of Unicode,
    /// 3 placeholders
    pub ids: u8,
    pub templates: bool,
    pub locals: bool,
    pub anon: bool,
    /// template arguments other than types
    pub values: bool,
    pub max_params: usize,
    /// bias towards declarators (pointers to functions, arrays, members)
    pub declarators: bool,
}

pub const PLAIN: Cfg = Cfg {
    fuel: 14,
    reuse: 5,
    ids: 1,
    templates: true,
    locals: true,
    anon: true,
    values: true,
    max_params: 5,
    declarators: false,
};

pub struct G<'r> {
    pub r: &'r mut Src,
    pub c: Cfg,
    fuel: i32,
    names: Vec<Rc<str>>,
    pieces: Vec<Piece>,
    types: Vec<Ty>,
    params: Vec<Ty>,
    depth: u32,
}

const PLAIN_IDS: &[&str] = &["a", "b", "c", "x", "foo", "Bar", "ns1", "baz_q", "T", "klass", "std", "f2", "int3", "Z", "A", "H"];
const UNI: &[&str] = &["é", "ß", "日本", "имя", "中", "\u{1F980}", "ü", "λ", "ａ", "\u{10FFFF}", "\u{80}", "\u{7ff}", "\u{800}", "\u{ffff}", "\u{301}", "٣", "½", "\u{3000}", "\u{a0}", "\u{200b}", "İ"];
const ODD_IDS: &[&str] = &[
    "_", "__", "foo_", "_bar", "$", "a$", "$b", "x$y", "<lambda_1>", "<lambda_0>", "<unnamed-type-a>", "<unnamed-tag>", "<unnamed-enum-e>",
    "__l2", "operator", "const", "0x", "const_", "class", "a.b", "x-y", "a b", "`q'", "__cdecl", "A0x1", "$$A6", "_E", "$S", "VX", "9a",
];

/// what the texts of other things are made of, and names which could get a treatment of their own
const WORDS: &[&str] = &[
    "_", "__", "std", "main", "string", "void", "int", "unsigned", "__int64", "const", "volatile", "__restrict", "__unaligned", "noexcept", "static",
    "virtual", "public", "extern", "enum", "struct", "union", "class", "__cdecl", "__stdcall", "operator", "new", "delete", "thunk", "vftable", "vcall",
    "lambda", "unnamed", "anonymous", "namespace", "auto", "decltype", "template", "typename", "this", "nullptr", "true", "allocator", "A0x", "l2",
    "basic_string", "char_traits", "type_info", "RTTI", "guard", "ctor", "dtor", "E", "N", "lt", "gt", "$", "$$", "-", "+", ".", " ", "<", ">", "::", "`",
    "'", "(", ")", "[", "]", "{", "}", ",", ", ", ";", ":", "*", "&", "&&", "\"", "\\", "~", "!", "=", "/", "|", "^", "%", "#", "\t", "\n", "\u{7f}", "?", "??",
];

impl<'r> G<'r> {
    pub fn new(r: &'r mut Src, c: Cfg) -> Self {
        let fuel = c.fuel;
        let fuel = if fuel > 4 { 3 + r.below(fuel as u64 - 2) as i32 } else { fuel };
        G { r, c, fuel, names: vec![], pieces: vec![], types: vec![], params: vec![], depth: 0 }
    }

    fn burn(&mut self) -> bool {
        self.fuel -= 1;
        self.fuel > 0
    }

    fn reuse(&mut self) -> bool {
        let n = self.c.reuse;
        self.r.p(n, 16)
    }

    // ---- names

    pub fn fresh_id(&mut self) -> Rc<str> {
        if self.c.ids == 3 {
            // a placeholder, found nowhere else
            return format!("qz{}q", self.names.len()).into();
        }
        let ws: &[u32] = match self.c.ids {
            0 => &[10, 4, 0, 0, 0, 0],
            1 => &[8, 4, 2, 1, 1, 1],
            _ => &[3, 2, 3, 8, 1, 1],
        };
        let s: String = match self.r.w(ws) {
            0 => (*self.r.pick(PLAIN_IDS)).into(),
            1 => {
                // something unlikely to repeat
                let a = self.r.u(26);
                let b = self.r.u(1000);
                format!("{}{b}", (b'a' + a as u8) as char)
            }
            2 => {
                let s = *self.r.pick(ODD_IDS);
                // digits would be back references
                if s.starts_with(|c: char| c.is_ascii_digit()) {
                    format!("q{s}")
                } else {
                    s.into()
                }
            }
            3 => {
                let mut s = String::new();
                if self.r.p(1, 2) {
                    s.push_str(self.r.pick(PLAIN_IDS));
                }
                let n = 1 + self.r.small(3);
                for _ in 0..n {
                    s.push_str(self.r.pick(UNI));
                }
                if self.r.p(1, 2) {
                    s.push_str(self.r.pick(PLAIN_IDS));
                }
                s
            }
            5 => {
                // any letters at all, or what the texts of other things are made of
                let mut s = String::new();
                if self.r.p(1, 2) {
                    s.push_str(self.r.pick(WORDS));
                }
                for b in self.r.any().to_le_bytes() {
                    if b == 0 || self.r.p(1, 6) {
                        break;
                    }
                    s.push(if b.is_ascii_alphanumeric() || b == b'_' { char::from(b) } else { char::from(b'a' + b % 26) });
                }
                if self.r.p(1, 2) {
                    s.push_str(self.r.pick(WORDS));
                }
                if s.starts_with(|c: char| c.is_ascii_digit() || c == '?') || s.is_empty() {
                    s.insert(0, 'q');
                }
                s
            }
            _ => {
                let n = 1 + self.r.u(120);
                let c = *self.r.pick(&['x', 'Q', '_', 'é']);
                let mut s: String = std::iter::repeat_n(c, n).collect();
                s.insert(0, 'k');
                s
            }
        };
        s.into()
    }

    pub fn ident(&mut self) -> Rc<str> {
        if !self.names.is_empty() && self.reuse() {
            return self.r.pick(&self.names).clone();
        }
        let s = self.fresh_id();
        self.names.push(s.clone());
        s
    }

    fn anon(&mut self) -> Piece {
        let s = match self.r.u(4) {
            0 => String::new(),
            1 => format!("0x{:08x}", self.r.below(1 << 32)),
            2 => format!("0x{:X}", self.r.below(16)),
            _ => (*self.r.pick(&["0x1234", "0xdeadbeef", "x", "@"][..3])).to_string(),
        };
        Piece::Anon(s.into())
    }

    fn tmpl(&mut self, base: Piece) -> Piece {
        let args = self.targs();
        Piece::Tmpl(Rc::new((base, args)))
    }

    /// the name of a class, enum, template
    pub fn type_leaf(&mut self) -> Piece {
        if !self.pieces.is_empty() && self.reuse() {
            let p = self.r.pick(&self.pieces).clone();
            if !matches!(p, Piece::Anon(_)) {
                return p;
            }
        }
        let p = Piece::Id(self.ident());
        if self.c.templates && self.burn() && self.r.p(1, 4) {
            let p = self.tmpl(p);
            self.pieces.push(p.clone());
            return p;
        }
        p
    }

    fn scope_piece(&mut self) -> Piece {
        match self.r.w(&[8, if self.c.anon { 2 } else { 0 }, if self.c.locals { 1 } else { 0 }]) {
            0 => self.type_leaf(),
            1 => {
                if let Some(p) = self.pieces.iter().find(|p| matches!(p, Piece::Anon(_))).cloned() {
                    if self.reuse() {
                        return p;
                    }
                }
                let p = self.anon();
                self.pieces.push(p.clone());
                p
            }
            _ if self.depth < 3 && self.burn() => {
                self.depth += 1;
                let s = self.local_owner();
                self.depth -= 1;
                let n = match self.r.w(&[3, 6, 2, 1]) {
                    0 => 0,
                    1 => 1 + self.r.below(10),
                    2 => 11 + self.r.below(300),
                    _ => self.r.magnitude(64),
                };
                Piece::Local(n, Rc::new(s))
            }
            _ => self.type_leaf(),
        }
    }

    /// what a local scope can be of
    fn local_owner(&mut self) -> Sym {
        match self.r.w(&[8, 2, 1]) {
            0 => self.function(),
            1 => Sym::NoParams(self.plain_name(), true),
            _ => self.variable(),
        }
    }

    pub fn scopes(&mut self, max: usize) -> Vec<Piece> {
        let n = self.r.many(max);
        (0..n).map(|_| self.scope_piece()).collect()
    }

    pub fn type_name(&mut self) -> Name {
        let mut v = vec![self.type_leaf()];
        v.extend(self.scopes(3));
        Name::new(v)
    }

    pub fn plain_name(&mut self) -> Name {
        let mut v = vec![Piece::Id(self.ident())];
        v.extend(self.scopes(4));
        Name::new(v)
    }

    // ---- types

    pub fn prim(&mut self) -> Ty {
        loop {
            let i = if self.r.p(1, 3) { self.r.u(PRIMS.len()) } else { 0 };
            if i != VOID {
                return Ty::Prim(i, 0);
            }
        }
    }

    fn tag(&mut self) -> Ty {
        let k = *self.r.pick(&[Tag::Class, Tag::Struct, Tag::Union, Tag::Enum]);
        let n = self.type_name();
        Ty::Tag(k, n, 0)
    }

    fn cv(&mut self) -> u8 {
        match self.r.w(&[5, 3, 1, 1]) {
            i @ 0..=3 => i as u8,
            _ => 0,
        }
    }

    /// a parameter's or template argument's type: no top level qualifiers beyond a pointer's
    pub fn ty(&mut self) -> Ty {
        if !self.types.is_empty() && self.reuse() {
            return self.r.pick(&self.types).clone();
        }
        let more = self.burn();
        let ws: &[u32] = match (more, self.c.declarators) {
            (false, _) => &[4, 1, 0, 0],
            (true, false) => &[4, 4, 6, 1],
            (true, true) => &[2, 2, 12, 0],
        };
        let t = match self.r.w(ws) {
            0 => self.prim(),
            1 => self.tag(),
            2 => self.pointer(),
            _ => {
                if self.r.p(1, 4) {
                    Ty::Custom(Piece::Id(self.ident()), 0)
                } else {
                    self.tag()
                }
            }
        };
        self.types.push(t.clone());
        t
    }

    pub fn pointer(&mut self) -> Ty {
        let aff = [Aff::Ptr, Aff::LRef, Aff::RRef][self.r.w(&[6, 2, 1])];
        let p64 = self.r.p(3, 4);
        let mut p = PtrTy { aff, cv: 0, p64, restrict: false, unaligned: false, class: None, pointee: Ty::Prim(0, 0) };
        if aff == Aff::Ptr {
            p.cv = self.cv();
        }
        let ws: &[u32] = if self.c.declarators { &[4, 5, 5, 3, 3] } else { &[8, 3, 1, 1, 1] };
        match self.r.w(ws) {
            // to an object
            k @ (0 | 3) => {
                p.restrict = self.r.p(1, 6);
                p.unaligned = self.r.p(1, 10);
                p.pointee = self.object(aff == Aff::Ptr && k == 0);
                if k == 3 && aff == Aff::Ptr {
                    p.class = Some(self.type_name());
                    if matches!(&p.pointee, Ty::Ptr(x) if x.aff != Aff::Ptr) {
                        p.pointee = self.prim();
                    }
                }
            }
            1 => p.pointee = Ty::Fun(Rc::new(self.fn_type(false, false))),
            2 => {
                p.pointee = self.array();
                p.restrict = self.r.p(1, 8);
                p.unaligned = self.r.p(1, 10);
                if aff == Aff::Ptr && self.r.p(1, 6) {
                    p.class = Some(self.type_name());
                }
            }
            _ => {
                if aff == Aff::Ptr {
                    p.class = Some(self.type_name());
                    p.pointee = Ty::Fun(Rc::new(self.fn_type(true, false)));
                } else {
                    p.pointee = self.object(false);
                }
            }
        }
        Ty::Ptr(p.into())
    }

    /// what pointers point to, with qualifiers
    fn object(&mut self, void_ok: bool) -> Ty {
        if void_ok && self.r.p(1, 8) {
            let cv = self.cv();
            return Ty::Prim(VOID, cv);
        }
        let t = if self.burn() { self.ty() } else { self.prim() };
        match &t {
            Ty::Prim(..) | Ty::Tag(..) | Ty::Custom(..) => {
                let cv = self.cv();
                qualify(&t, cv)
            }
            // there are no pointers to references
            Ty::Ptr(p) if p.aff != Aff::Ptr => p.pointee_object(),
            _ => t,
        }
    }

    pub fn array(&mut self) -> Ty {
        let n = 1 + self.r.many(3);
        let dims = (0..n)
            .map(|i| match self.r.w(&[6, 3, 1, 1]) {
                0 => 1 + self.r.below(10),
                1 => 11 + self.r.below(1000),
                2 if i == 0 => 0,
                _ => self.r.magnitude(64).max(1),
            })
            .collect();
        let elem = if self.burn() { self.ty() } else { self.prim() };
        let (elem, cv) = match elem {
            t @ (Ty::Prim(..) | Ty::Tag(..) | Ty::Custom(..)) => {
                let cv = self.cv();
                (t, cv)
            }
            // there are no arrays of references
            Ty::Ptr(p) if p.aff != Aff::Ptr => (self.prim(), 0),
            t => (t, 0),
        };
        Ty::Arr(ArrTy { dims, cv, elem }.into())
    }

    fn this(&mut self) -> This {
        This {
            cv: self.cv(),
            p64: self.r.p(3, 4),
            restrict: self.r.p(1, 10),
            unaligned: self.r.p(1, 12),
            refq: [RefQ::None, RefQ::L, RefQ::R][self.r.w(&[8, 1, 1])],
        }
    }

    pub fn ret(&mut self) -> Ty {
        match self.r.w(&[4, 3, 4]) {
            0 => Ty::Prim(VOID, 0),
            1 => {
                let t = self.prim();
                if self.r.p(1, 8) {
                    let cv = self.cv();
                    return qualify(&t, cv);
                }
                t
            }
            _ => {
                let t = self.ty();
                match &t {
                    Ty::Tag(..) | Ty::Custom(..) if self.r.p(1, 4) => {
                        let cv = self.cv();
                        qualify(&t, cv)
                    }
                    _ => t,
                }
            }
        }
    }

    /// `any_cc`: the conventions whose text has a space of its own are for declarations only
    pub fn fn_type(&mut self, member: bool, any_cc: bool) -> FnTy {
        self.burn();
        let this = if member { self.this() } else { NO_THIS };
        let cc = if self.r.p(1, 3) { self.r.u(if any_cc { CCS.len() } else { CC_SWIFT }) } else { 0 };
        let ret = Some(self.ret());
        let (params, variadic) = self.params();
        FnTy { member, this, cc: Some(cc), ret, params, variadic, noexcept: self.r.p(1, 8) }
    }

    pub fn params(&mut self) -> (Option<Vec<Ty>>, bool) {
        if self.r.p(1, 4) {
            return (None, false);
        }
        let max = self.c.max_params;
        let n = if max > 6 { 1 + self.r.u(max) } else { 1 + self.r.many(max) };
        let mut v = Vec::new();
        for _ in 0..n {
            let t = if !self.params.is_empty() && self.reuse() { self.r.pick(&self.params).clone() } else { self.ty() };
            let t = if self.r.p(1, 24) { self.array() } else { t };
            self.params.push(t.clone());
            v.push(t);
        }
        if self.r.p(1, 10) {
            if self.r.p(1, 4) {
                v.clear();
            }
            return (Some(v), true);
        }
        (Some(v), false)
    }

    // ---- template arguments

    pub fn targs(&mut self) -> Vec<TArg> {
        self.depth += 1;
        let n = if self.depth > 4 { 0 } else { self.r.many(4) };
        let mut v = Vec::new();
        for _ in 0..n {
            let a = self.targ();
            v.push(a);
        }
        if self.r.p(1, 8) {
            let n = 1 + self.r.small(4);
            for _ in 0..n {
                let p = TArg::Pack(self.r.u(PACKS.len()));
                let at = self.r.u(v.len() + 1);
                v.insert(at, p);
            }
        }
        self.depth -= 1;
        v
    }

    fn int(&mut self) -> (u64, bool) {
        let v = self.r.magnitude(64);
        (v, v != 0 && self.r.p(1, 3))
    }

    fn offset(&mut self) -> i64 {
        match self.r.w(&[5, 2, 1]) {
            0 => self.r.magnitude(31) as i64,
            1 => -(self.r.magnitude(31) as i64),
            _ => i64::from(self.r.any() as i32),
        }
    }

    pub fn targ(&mut self) -> TArg {
        if !self.c.values || self.r.p(1, 2) {
            return self.type_arg();
        }
        self.value_arg(false)
    }

    pub fn type_arg(&mut self) -> TArg {
        match self.r.w(&[8, 2, 2, 1, 1]) {
            0 => TArg::Ty(self.ty()),
            1 => {
                let t = if self.r.p(1, 2) { self.prim() } else { self.tag() };
                let cv = 1 + self.r.below(3) as u8;
                TArg::Qual(cv, t)
            }
            2 => TArg::Arr(self.array()),
            3 => TArg::Ty(Ty::Fun(Rc::new({
                let m = self.r.p(1, 4);
                self.fn_type(m, false)
            }))),
            _ => TArg::Ty(Ty::Prim(VOID, 0)),
        }
    }

    pub fn value_arg(&mut self, auto: bool) -> TArg {
        match self.r.w(&[8, 3, 2, 1, if auto { 0 } else { 2 }, if auto { 0 } else { 2 }, if auto { 0 } else { 2 }]) {
            0 => {
                let (v, n) = self.int();
                TArg::Int(v, n)
            }
            1 => TArg::Addr(Some(Rc::new(self.arg_symbol()))),
            2 => {
                let n = 1 + self.r.u(3);
                let mut offs: Vec<i64> = (0..n).map(|_| self.offset()).collect();
                let s = if self.r.p(3, 4) { Some(Rc::new(self.method())) } else { None };
                if s.is_none() {
                    // a sign would be taken for the start of a symbol
                    offs[0] = offs[0].abs();
                }
                TArg::MemFn(s, offs)
            }
            3 => {
                let n = 2 + self.r.u(2);
                TArg::MemData((0..n).map(|_| self.offset()).collect())
            }
            4 => TArg::Ref(Rc::new(self.arg_symbol())),
            5 => TArg::Alias(self.type_name()),
            _ => {
                let t = self.ty();
                let a = self.value_arg(true);
                TArg::Auto(t, Rc::new(a))
            }
        }
    }

    /// what pointer and reference arguments refer to
    fn arg_symbol(&mut self) -> Sym {
        self.depth += 1;
        let s = if self.depth > 4 {
            Sym::Var(Name::one(Piece::Id(self.ident())), 3, Ty::Prim(0, 0))
        } else {
            match self.r.w(&[4, 4, 1]) {
                0 => self.variable(),
                1 => self.function(),
                _ => self.method(),
            }
        };
        self.depth -= 1;
        s
    }

    // ---- symbols

    pub fn variable_type(&mut self) -> Ty {
        let t = self.ty();
        match &t {
            Ty::Prim(..) | Ty::Tag(..) | Ty::Custom(..) => {
                let cv = self.cv();
                qualify(&t, cv)
            }
            _ => t,
        }
    }

    pub fn variable(&mut self) -> Sym {
        let sc = *self.r.pick(&[3u8, 2, 4, 1, 0]);
        let mut v = vec![self.function_leaf()];
        v.extend(self.scopes(3));
        let t = self.variable_type();
        Sym::Var(Name::new(v), sc, t)
    }

    fn function_leaf(&mut self) -> Piece {
        let p = Piece::Id(self.ident());
        if self.c.templates && self.burn() && self.r.p(1, 5) {
            return self.tmpl(p);
        }
        p
    }

    pub fn global_class(&mut self) -> FnClass {
        FnClass {
            access: Access::None,
            is_static: false,
            is_virtual: false,
            global: true,
            extern_c: self.r.p(1, 12),
            thunk: Thunk::None,
        }
    }

    /// a function which isn't a member
    pub fn function(&mut self) -> Sym {
        let leaf = match self.r.w(&[10, 2, 1]) {
            0 => self.function_leaf(),
            1 => self.operator(),
            _ => Piece::Lit(self.ident()),
        };
        let mut v = vec![leaf];
        v.extend(self.scopes(3));
        let c = self.global_class();
        let f = self.fn_type(false, true);
        Sym::Fn(Name::new(v), c, Rc::new(f))
    }

    pub fn operator(&mut self) -> Piece {
        let p = Piece::Op(self.r.u(OPS.len()));
        if self.c.templates && self.burn() && self.r.p(1, 4) {
            return self.tmpl(p);
        }
        p
    }

    pub fn thunk(&mut self) -> Thunk {
        let mut off = || match self.r.w(&[4, 3, 2, 1]) {
            0 => self.r.magnitude(31) as i32,
            1 => -(self.r.magnitude(31) as i32),
            2 => self.r.below(100_000) as i32,
            _ => self.r.any() as i32,
        };
        let (a, b, c, d) = (off(), off(), off(), off());
        match self.r.u(3) {
            0 => Thunk::Adjustor(a as u32),
            1 => Thunk::VtorDisp(a, b as u32),
            _ => Thunk::VtorDispEx(a, b, c, d as u32),
        }
    }

    /// Many levels of whatever can hold something else, one inside of another.
    pub fn deep(&mut self, levels: usize) -> Sym {
        if self.r.p(1, 3) {
            return self.tower(levels);
        }
        // now and then the same thing at all the levels
        let same = if self.r.p(1, 4) { Some(self.r.u(12)) } else { None };
        let mut t = if self.r.p(1, 2) { self.prim() } else { self.deep_tag(vec![]) };
        for _ in 0..levels {
            t = self.around(t, same);
        }
        self.deep_symbol(t)
    }

    /// Symbols that have others in their names, which have others in theirs.
    fn tower(&mut self, levels: usize) -> Sym {
        let same = if self.r.p(2, 3) { Some(self.r.u(8)) } else { None };
        let mut s = Sym::Var(Name::new(vec![self.short_id()]), 3, Ty::Prim(0, 0));
        let plain = FnTy { member: false, this: NO_THIS, cc: Some(0), ret: Some(Ty::Prim(VOID, 0)), params: None, variadic: false, noexcept: false };
        let global = FnClass { extern_c: false, ..self.global_class() };
        let public = FnClass { access: Access::Public, global: false, is_virtual: false, ..global };
        for _ in 0..levels {
            let inner = Rc::new(s.clone());
            let address = TArg::Addr(Some(inner.clone()));
            let any = self.r.u(8);
            s = match same.unwrap_or(any) {
                0 => {
                    // a static member of a template
                    let v = vec![self.short_id(), self.deep_template(address)];
                    Sym::Var(Name::new(v), 2, Ty::Prim(0, 0))
                }
                1 => {
                    // a variable template as a static member of one
                    let v = vec![self.deep_template(TArg::Ty(Ty::Prim(0, 0))), self.deep_template(address)];
                    Sym::Var(Name::new(v), 2, Ty::Prim(0, 0))
                }
                2 => {
                    let v = vec![self.deep_template(address)];
                    Sym::Var(Name::new(v), 3, Ty::Prim(0, 0))
                }
                3 => {
                    let v = vec![self.deep_template(address)];
                    Sym::Fn(Name::new(v), global, plain.clone().into())
                }
                4 => {
                    let v = vec![self.deep_template(TArg::Ty(Ty::Prim(0, 0))), self.deep_template(address)];
                    Sym::Fn(Name::new(v), global, plain.clone().into())
                }
                5 => {
                    let v = vec![self.short_id(), self.deep_template(address)];
                    let f = FnTy { member: true, this: This { p64: self.r.p(1, 2), ..NO_THIS }, ..plain.clone() };
                    Sym::Fn(Name::new(v), public, f.into())
                }
                6 => {
                    let v = vec![self.short_id(), Piece::Local(self.r.below(20), inner)];
                    Sym::Var(Name::new(v), 4, Ty::Prim(0, 0))
                }
                _ => {
                    let x = self.deep_template(TArg::Ref(inner));
                    let t = Ty::Tag(Tag::Struct, Name::new(vec![x]), 0);
                    let v = vec![self.short_id()];
                    Sym::Fn(Name::new(v), global, FnTy { params: Some(vec![t]), ..plain.clone() }.into())
                }
            };
        }
        s
    }

    fn short_id(&mut self) -> Piece {
        let s = *self.r.pick(&["a", "b", "c", "d", "e", "foo", "é", "Bar", "x1", "y2", "z3", "ns", "T_", "日本"]);
        Piece::Id(s.into())
    }

    fn deep_tag(&mut self, scope: Vec<Piece>) -> Ty {
        let mut v = vec![self.short_id()];
        v.extend(scope);
        Ty::Tag(*self.r.pick(&[Tag::Class, Tag::Struct, Tag::Union, Tag::Enum]), Name::new(v), 0)
    }

    fn deep_args(&mut self, a: TArg) -> Vec<TArg> {
        let mut v = vec![a];
        for _ in 0..self.r.small(2) {
            let b = match self.r.u(3) {
                0 => TArg::Ty(self.prim()),
                1 => TArg::Int(self.r.below(100), self.r.p(1, 3)),
                _ => TArg::Ty(self.deep_tag(vec![])),
            };
            let at = self.r.u(v.len() + 1);
            v.insert(at, b);
        }
        v
    }

    fn deep_template(&mut self, a: TArg) -> Piece {
        let x = self.short_id();
        Piece::Tmpl(Rc::new((x, self.deep_args(a))))
    }

    fn deep_fn(&mut self, t: Ty, member: bool) -> FnTy {
        let (mut ret, mut params) = (Ty::Prim(VOID, 0), vec![]);
        for _ in 0..self.r.small(3) {
            params.push(if self.r.p(1, 2) { self.prim() } else { self.deep_tag(vec![]) });
        }
        if self.r.p(1, 3) {
            ret = t;
        } else {
            let at = self.r.u(params.len() + 1);
            params.insert(at, t);
        }
        FnTy {
            member,
            this: This { p64: member && self.r.p(1, 2), cv: if member { self.r.below(4) as u8 } else { 0 }, ..NO_THIS },
            cc: Some(*self.r.pick(&[0, 0, 2, 3, 7])),
            ret: Some(ret),
            params: if params.is_empty() { None } else { Some(params) },
            variadic: false,
            noexcept: self.r.p(1, 8),
        }
    }

    /// a type that has this one in it
    fn around(&mut self, t: Ty, kind: Option<usize>) -> Ty {
        let object = matches!(t, Ty::Prim(..) | Ty::Tag(..) | Ty::Ptr(_));
        let reference = matches!(&t, Ty::Ptr(p) if p.aff != Aff::Ptr);
        let mut p = PtrTy { aff: Aff::Ptr, cv: self.r.below(4) as u8, p64: self.r.p(1, 2), restrict: false, unaligned: false, class: None, pointee: Ty::Prim(0, 0) };
        if self.r.p(1, 6) {
            p.aff = *self.r.pick(&[Aff::LRef, Aff::RRef]);
            p.cv = 0;
        }
        let any = self.r.u(12);
        match kind.unwrap_or(any) {
            0 | 1 if object && !reference => {
                p.pointee = t;
                Ty::Ptr(p.into())
            }
            2 | 3 => {
                p.pointee = Ty::Fun(self.deep_fn(t, false).into());
                Ty::Ptr(p.into())
            }
            4 if object && !reference => {
                let (elem, cv) = match t {
                    Ty::Ptr(_) => (t, 0),
                    t => (t, self.r.below(4) as u8),
                };
                p.pointee = Ty::Arr(ArrTy { dims: vec![1 + self.r.below(20)], cv, elem }.into());
                Ty::Ptr(p.into())
            }
            5 => {
                p.aff = Aff::Ptr;
                p.class = Some(Name::new(vec![self.deep_template(TArg::Ty(t))]));
                if self.r.p(1, 2) {
                    p.pointee = Ty::Fun(self.deep_fn(Ty::Prim(0, 0), true).into());
                }
                Ty::Ptr(p.into())
            }
            6 => {
                p.aff = Aff::Ptr;
                p.class = Some(Name::new(vec![self.short_id()]));
                p.pointee = Ty::Fun(self.deep_fn(t, true).into());
                Ty::Ptr(p.into())
            }
            7 => {
                let x = self.deep_template(TArg::Ty(t));
                self.deep_tag(vec![x])
            }
            8 => {
                let s = Rc::new(self.deep_symbol(t));
                let a = if self.r.p(1, 2) { TArg::Addr(Some(s)) } else { TArg::Ref(s) };
                let x = self.deep_template(a);
                Ty::Tag(Tag::Struct, Name::new(vec![x]), 0)
            }
            9 => {
                let s = self.deep_symbol(t);
                let l = Piece::Local(self.r.below(20), Rc::new(s));
                self.deep_tag(vec![l])
            }
            _ => {
                let mut v = vec![self.deep_template(TArg::Ty(t))];
                for _ in 0..self.r.small(2) {
                    let x = self.short_id();
                    v.push(x);
                }
                Ty::Tag(*self.r.pick(&[Tag::Class, Tag::Struct]), Name::new(v), 0)
            }
        }
    }

    fn deep_symbol(&mut self, t: Ty) -> Sym {
        let plain = FnTy { member: false, this: NO_THIS, cc: Some(0), ret: Some(Ty::Prim(VOID, 0)), params: None, variadic: false, noexcept: false };
        let global = FnClass { extern_c: false, ..self.global_class() };
        let public = FnClass { access: Access::Public, global: false, is_virtual: self.r.p(1, 3), ..global };
        let mut v = vec![self.short_id()];
        match self.r.u(9) {
            0 => {
                let sc = *self.r.pick(&[3u8, 2, 4]);
                Sym::Var(Name::new(v), sc, t)
            }
            1 => {
                let f = self.deep_fn(t, false);
                Sym::Fn(Name::new(v), global, f.into())
            }
            2 => {
                v.push(self.deep_template(TArg::Ty(t)));
                Sym::Var(Name::new(v), 2, Ty::Prim(0, 0))
            }
            3 => {
                v.push(self.short_id());
                let f = self.deep_fn(t, true);
                Sym::Fn(Name::new(v), public, f.into())
            }
            4 => {
                // a constructor or destructor of a template
                v[0] = if self.r.p(1, 2) { Piece::Ctor } else { Piece::Dtor };
                v.push(self.deep_template(TArg::Ty(t)));
                let f = FnTy { member: true, ret: None, this: This { p64: self.r.p(1, 2), ..NO_THIS }, ..plain };
                Sym::Fn(Name::new(v), public, f.into())
            }
            5 => {
                let x = v[0].clone();
                v[0] = Piece::Tmpl(Rc::new((x, self.deep_args(TArg::Ty(t)))));
                if self.r.p(1, 2) {
                    v.push(self.short_id());
                }
                Sym::Fn(Name::new(v), global, plain.into())
            }
            6 => {
                // a variable template
                let x = v[0].clone();
                v[0] = Piece::Tmpl(Rc::new((x, self.deep_args(TArg::Ty(t)))));
                if self.r.p(1, 2) {
                    v.push(self.short_id());
                }
                Sym::Var(Name::new(v), 3, Ty::Prim(0, 0))
            }
            7 => {
                v.push(self.deep_template(TArg::Ty(t)));
                let var = Sym::Var(Name::new(v), 2, Ty::Prim(0, 0));
                Sym::Fn(Name::one(Piece::DynVar(self.r.p(1, 2), Rc::new(var))), global, plain.into())
            }
            _ => {
                v.push(self.deep_template(TArg::Ty(t)));
                Sym::Fn(Name::one(Piece::DynName(self.r.p(1, 2), Name::new(v))), global, plain.into())
            }
        }
    }

    /// a member function
    pub fn method(&mut self) -> Sym {
        let access = *self.r.pick(&[Access::Public, Access::Protected, Access::Private]);
        let extern_c = self.r.p(1, 16);
        let mut c = FnClass { access, is_static: false, is_virtual: false, global: false, extern_c, thunk: Thunk::None };
        match self.r.w(&[5, 2, 3, 2]) {
            0 => (),
            1 => c.is_static = true,
            2 => c.is_virtual = true,
            _ => {
                c.thunk = self.thunk();
                // private adjustor thunks don't say they're virtual
                c.is_virtual = !(matches!(c.thunk, Thunk::Adjustor(_)) && access == Access::Private);
            }
        }
        let leaf = match self.r.w(&[8, 3, 2, 2, 2]) {
            0 => self.function_leaf(),
            1 => self.operator(),
            k @ (2 | 3) if !c.is_static => {
                let p = if k == 2 { Piece::Ctor } else { Piece::Dtor };
                if self.c.templates && self.burn() && self.r.p(1, 4) {
                    self.tmpl(p)
                } else {
                    p
                }
            }
            4 if !c.is_static => {
                if self.c.templates && self.burn() && self.r.p(1, 4) {
                    self.tmpl(Piece::Conv)
                } else {
                    Piece::Conv
                }
            }
            _ => self.function_leaf(),
        };
        let structor = matches!(base_of(&leaf), Piece::Ctor | Piece::Dtor);
        let mut f = self.fn_type(!c.is_static, true);
        if structor {
            f.ret = None;
        }
        let mut v = vec![leaf, self.type_leaf()];
        v.extend(self.scopes(3));
        Sym::Fn(Name::new(v), c, Rc::new(f))
    }

    pub fn enclosing(&mut self) -> Vec<Piece> {
        let mut v = vec![self.type_leaf()];
        v.extend(self.scopes(3));
        v
    }

    /// compiler generated data and code
    pub fn special(&mut self) -> Sym {
        let with = |leaf: Piece, mut scopes: Vec<Piece>| {
            scopes.insert(0, leaf);
            Name::new(scopes)
        };
        let small = |g: &mut Self| match g.r.w(&[4, 2, 1]) {
            0 => g.r.below(12),
            1 => g.r.below(5000),
            _ => g.r.magnitude(32),
        };
        match self.r.w(&[4, 2, 2, 2, 1, 2, 2, 3, 3, 3]) {
            0 => {
                let what = *self.r.pick(&["`vftable'", "`vbtable'", "`local vftable'", "`RTTI Complete Object Locator'"]);
                let s = self.enclosing();
                let cv = self.r.below(4) as u8;
                let target = if self.r.p(1, 2) { Some(self.type_name()) } else { None };
                Sym::Table(with(Piece::Fixed(what), s), cv, target)
            }
            1 => {
                let th = self.r.p(1, 3);
                let n = small(self);
                let f = self.local_owner();
                let k = 1 + self.r.below(20);
                let s = vec![Piece::Local(k, Rc::new(f))];
                Sym::Guard(with(Piece::Guard(th, n), s))
            }
            2 => {
                let a = small(self);
                let b = i64::from(self.offset() as i32);
                let b = if b == i64::from(i32::MIN) { -1 } else { b };
                let (c, d) = (small(self), small(self));
                let s = self.enclosing();
                Sym::Untyped(with(Piece::BaseDesc(a, b, c, d), s))
            }
            3 => {
                let what = *self.r.pick(&["`RTTI Base Class Array'", "`RTTI Class Hierarchy Descriptor'"]);
                let s = self.enclosing();
                Sym::Untyped(with(Piece::Fixed(what), s))
            }
            4 => {
                let mut s = String::from("??@");
                for _ in 0..32 {
                    s.push(*self.r.pick(&['0', '1', '7', 'a', 'c', 'f']));
                }
                s.push('@');
                if self.r.p(1, 2) {
                    s.push_str("??_R4@");
                }
                Sym::Md5(s.into())
            }
            5 => {
                let t = self.rtti_type();
                Sym::TypeDesc(t)
            }
            6 => Sym::TypeName(self.rtti_type()),
            7 => {
                let n = small(self);
                let s = self.enclosing();
                let cc = self.r.u(CCS.len());
                Sym::Vcall(with(Piece::Vcall(n), s), Some(cc))
            }
            8 => {
                let d = self.r.p(1, 2);
                let v = loop {
                    let v = self.variable();
                    let Sym::Var(n, ..) = &v else { continue };
                    // the mark and the name would read as that of a template: `?$a@@`
                    if !matches!(n.leaf(), Piece::Id(x) if x.starts_with('$')) {
                        break v;
                    }
                };
                let c = FnClass { extern_c: false, ..self.global_class() };
                let f = self.fn_type(false, true);
                Sym::Fn(Name::one(Piece::DynVar(d, Rc::new(v))), c, Rc::new(f))
            }
            _ => {
                let d = self.r.p(1, 2);
                let mut n = self.plain_name();
                if self.c.templates && self.r.p(1, 3) {
                    // a variable template
                    let args = self.targs();
                    let mut v = n.0.to_vec();
                    v[0] = Piece::Tmpl(Rc::new((v[0].clone(), args)));
                    n = Name::new(v);
                }
                let c = self.global_class();
                let f = self.fn_type(false, true);
                Sym::Fn(Name::one(Piece::DynName(d, n)), c, Rc::new(f))
            }
        }
    }

    fn rtti_type(&mut self) -> Ty {
        match self.r.w(&[4, 2, 1, 1]) {
            0 => self.tag(),
            1 => self.pointer(),
            2 => self.prim(),
            _ => {
                let t = self.tag();
                let cv = self.cv();
                qualify(&t, cv)
            }
        }
    }

    /// anything at all
    pub fn any(&mut self) -> Sym {
        match self.r.w(&[4, 5, 4, 3]) {
            0 => self.variable(),
            1 => self.function(),
            2 => self.method(),
            _ => self.special(),
        }
    }
}

impl PtrTy {
    /// the object a reference refers to
    fn pointee_object(&self) -> Ty {
        match &self.pointee {
            t @ (Ty::Prim(..) | Ty::Tag(..) | Ty::Custom(..)) => t.clone(),
            Ty::Ptr(p) => Ty::Ptr(Rc::new(PtrTy { aff: Aff::Ptr, ..(**p).clone() })),
            _ => Ty::Prim(0, 0),
        }
    }
}
