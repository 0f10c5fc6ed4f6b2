//! Reference printer: what the text of a symbol ought to be. Declarators are composed inside-out
//! (the C way: the declarator grows around the name), as opposed to the before/after passes of the
//! code under test.

use crate::ast::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct Fl(pub u16);
pub const NO_CC: u16 = 1;
pub const NO_TAG: u16 = 2;
pub const NO_ACCESS: u16 = 4;
pub const NO_MEMBER: u16 = 8;
pub const NO_RET: u16 = 16;
pub const NO_VAR: u16 = 32;
pub const NO_THISQ: u16 = 64;
pub const NO_UNDER: u16 = 128;
pub const NO_MSKW: u16 = 256;
pub const NAME_ONLY: u16 = 512;
pub const ALL_FLAGS: u16 = 1023;

impl Fl {
    pub fn has(self, b: u16) -> bool {
        self.0 & b != 0
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct TooBig;
pub type R<T> = Result<T, TooBig>;

pub struct Printer {
    pub fl: Fl,
    pub budget: usize,
    depth: usize,
}

/// What a type is wrapped around.
struct Inner {
    text: String,
    /// array bounds, which attach to whatever they follow
    tail: String,
    /// the preceding text is always followed by a space
    spaced: bool,
}

pub fn wordy(c: char) -> bool {
    c.is_alphanumeric() || !c.is_ascii() || c == '_' || c == '$' || c == '>'
}

/// puts `b` after `a`, keeping words apart
pub fn join(a: &str, b: &str) -> String {
    let mut s = String::with_capacity(a.len() + b.len() + 1);
    s.push_str(a);
    if !b.is_empty() && a.chars().next_back().is_some_and(wordy) {
        s.push(' ');
    }
    s.push_str(b);
    s
}

impl Inner {
    fn onto(&self, base: &str) -> String {
        if self.spaced {
            format!("{base} {}{}", self.text, self.tail)
        } else {
            join(base, &self.text) + &self.tail
        }
    }
    fn none() -> Self {
        Self::tight(String::new())
    }
    fn tight(text: String) -> Self {
        Inner { text, tail: String::new(), spaced: false }
    }
}

fn cv_words(cv: u8) -> Vec<&'static str> {
    let mut v = Vec::new();
    if cv & CONST != 0 {
        v.push("const");
    }
    if cv & VOLATILE != 0 {
        v.push("volatile");
    }
    v
}

impl Printer {
    pub fn new(fl: u16) -> Self {
        Printer { fl: Fl(fl), budget: 1 << 18, depth: 0 }
    }

    fn spend(&mut self, n: usize) -> R<()> {
        if self.budget < n + 1 {
            return Err(TooBig);
        }
        self.budget -= n + 1;
        Ok(())
    }

    fn kw(&self, w: &str) -> String {
        if self.fl.has(NO_UNDER) {
            w.to_string()
        } else {
            format!("__{w}")
        }
    }

    fn cc(&self, cc: Option<usize>) -> String {
        match cc {
            None => String::new(),
            Some(_) if self.fl.has(NO_CC | NO_MSKW) => String::new(),
            Some(8) => "__attribute__((__swiftcall__)) ".into(),
            Some(9) => "__attribute__((__swiftasynccall__)) ".into(),
            Some(i) => self.kw(CCS[i].1),
        }
    }

    pub fn ty(&mut self, t: &Ty) -> R<String> {
        self.decl(t, Inner::none())
    }

    /// declares `inner` as a `t`
    fn decl(&mut self, t: &Ty, inner: Inner) -> R<String> {
        self.depth += 1;
        if self.depth > 600 {
            return Err(TooBig);
        }
        self.spend(inner.text.len())?;
        let r = self.decl_(t, inner);
        self.depth -= 1;
        r
    }

    fn decl_(&mut self, t: &Ty, inner: Inner) -> R<String> {
        match t {
            Ty::Prim(i, cv) => {
                let mut w = vec![PRIMS[*i].1];
                w.extend(cv_words(*cv));
                Ok(inner.onto(&w.join(" ")))
            }
            Ty::Tag(tag, name, cv) => {
                let mut s = String::new();
                if !self.fl.has(NO_TAG | NAME_ONLY) {
                    s.push_str(match tag {
                        Tag::Union => "union ",
                        Tag::Struct => "struct ",
                        Tag::Class => "class ",
                        Tag::Enum => "enum ",
                    });
                }
                s.push_str(&self.name(name)?);
                for w in cv_words(*cv) {
                    s.push(' ');
                    s.push_str(w);
                }
                Ok(inner.onto(&s))
            }
            Ty::Custom(p, cv) => {
                let mut s = self.piece(p, None)?;
                for w in cv_words(*cv) {
                    s.push(' ');
                    s.push_str(w);
                }
                Ok(inner.onto(&s))
            }
            Ty::Arr(a) => {
                let mut dims = String::new();
                for d in &a.dims {
                    if *d == 0 {
                        dims.push_str("[]");
                    } else {
                        dims.push_str(&format!("[{d}]"));
                    }
                }
                // the element's qualifiers come right after its base
                self.decl_elem(&a.elem, a.cv, inner, dims)
            }
            Ty::Fun(f) => {
                let cc = self.cc(f.cc);
                let tail = self.params_and_quals(f)?;
                let text = join(&cc, &inner.text) + &inner.tail + &tail;
                self.returning(f, text)
            }
            Ty::Ptr(p) => {
                let mut s = String::new();
                if p.unaligned && !self.fl.has(NO_MSKW) {
                    s.push_str(&self.kw("unaligned"));
                    s.push(' ');
                }
                let wrap = matches!(p.pointee, Ty::Arr(_) | Ty::Fun(_));
                if wrap {
                    s.push('(');
                }
                if let Ty::Fun(f) = &p.pointee {
                    let cc = self.cc(f.cc);
                    if !cc.is_empty() {
                        s.push_str(&cc);
                        s.push(' ');
                    }
                }
                if let Some(c) = &p.class {
                    s.push_str(&self.name(c)?);
                    s.push_str("::");
                }
                s.push_str(match p.aff {
                    Aff::Ptr => "*",
                    Aff::LRef => "&",
                    Aff::RRef => "&&",
                });
                let mut quals: Vec<String> = cv_words(p.cv).into_iter().map(String::from).collect();
                if p.restrict && !self.fl.has(NO_MSKW) {
                    quals.push(self.kw("restrict"));
                }
                s.push_str(&quals.join(" "));
                let mut s = inner.onto(&s);
                if wrap {
                    s.push(')');
                }
                match &p.pointee {
                    Ty::Fun(f) => {
                        s.push_str(&self.params_and_quals(f)?);
                        self.returning(f, s)
                    }
                    t => self.decl(t, Inner::tight(s)),
                }
            }
        }
    }

    /// `inner` is an array of `elem` qualified by `cv`
    fn decl_elem(&mut self, elem: &Ty, cv: u8, inner: Inner, dims: String) -> R<String> {
        // which pointers state themselves
        let stated = match elem {
            Ty::Ptr(p) => p.cv,
            _ => 0,
        };
        let q = cv_words(cv & !stated).join(" ");
        if q.is_empty() {
            return self.decl(elem, Inner { tail: inner.tail + &dims, ..inner });
        }
        let text = inner.onto(&q) + &dims;
        self.decl(elem, Inner { text, tail: String::new(), spaced: true })
    }

    /// wraps a function's return type around everything else
    fn returning(&mut self, f: &FnTy, text: String) -> R<String> {
        match &f.ret {
            Some(r) if !self.fl.has(NO_RET) => self.decl(r, Inner { text, tail: String::new(), spaced: true }),
            _ => Ok(text),
        }
    }

    fn params_and_quals(&mut self, f: &FnTy) -> R<String> {
        let mut s = String::from("(");
        match &f.params {
            None => s.push_str("void"),
            Some(ps) => {
                for (i, p) in ps.iter().enumerate() {
                    if i > 0 {
                        s.push_str(", ");
                    }
                    s.push_str(&self.ty(p)?);
                    self.spend(0)?;
                }
            }
        }
        if f.variadic {
            if f.params.as_ref().is_some_and(|p| !p.is_empty()) {
                s.push_str(", ");
            }
            s.push_str("...");
        }
        s.push(')');
        let t = f.this;
        if !self.fl.has(NO_THISQ) {
            for w in cv_words(t.cv) {
                s.push(' ');
                s.push_str(w);
            }
            if !self.fl.has(NO_MSKW) {
                if t.restrict {
                    s.push(' ');
                    s.push_str(&self.kw("restrict"));
                }
                if t.unaligned {
                    s.push(' ');
                    s.push_str(&self.kw("unaligned"));
                }
            }
        }
        if f.noexcept {
            s.push_str(" noexcept");
        }
        if !self.fl.has(NO_THISQ) {
            match t.refq {
                RefQ::None => (),
                RefQ::L => s.push_str(" &"),
                RefQ::R => s.push_str(" &&"),
            }
        }
        self.spend(s.len())?;
        Ok(s)
    }

    pub fn name(&mut self, n: &Name) -> R<String> {
        let mut s = String::new();
        for (i, p) in n.0.iter().enumerate().rev() {
            let outer = n.0.get(i + 1);
            s.push_str(&self.piece(p, outer)?);
            if i > 0 {
                s.push_str("::");
            }
        }
        self.spend(s.len())?;
        Ok(s)
    }

    fn args(&mut self, args: &[TArg]) -> R<String> {
        let mut s = String::from("<");
        let mut first = true;
        for a in args {
            if matches!(a, TArg::Pack(_)) {
                continue;
            }
            if !first {
                s.push_str(", ");
            }
            first = false;
            s.push_str(&self.targ(a)?);
            self.spend(0)?;
        }
        s.push('>');
        Ok(s)
    }

    fn offsets(os: &[i64]) -> String {
        os.iter().map(|o| o.to_string()).collect::<Vec<_>>().join(", ")
    }

    fn targ(&mut self, a: &TArg) -> R<String> {
        match a {
            TArg::Pack(_) => Ok(String::new()),
            TArg::Ty(t) | TArg::Arr(t) => self.ty(t),
            TArg::Qual(cv, t) => {
                let t = qualify(t, *cv);
                self.ty(&t)
            }
            TArg::Alias(n) => self.name(n),
            TArg::Int(v, neg) => Ok(format!("{}{v}", if *neg { "-" } else { "" })),
            TArg::Addr(s) => match s {
                Some(s) => Ok(format!("&{}", self.sym(s)?)),
                None => Ok("&".into()),
            },
            TArg::MemFn(s, os) => match s {
                Some(s) => Ok(format!("{{{}, {}}}", self.sym(s)?, Self::offsets(os))),
                None => Ok(format!("{{{}}}", Self::offsets(os))),
            },
            TArg::Ref(s) => self.sym(s),
            TArg::MemData(os) => Ok(format!("{{{}}}", Self::offsets(os))),
            TArg::Auto(_, v) => self.targ(v),
        }
    }

    /// `outer` is the enclosing component, which constructors are named after
    fn piece(&mut self, p: &Piece, outer: Option<&Piece>) -> R<String> {
        self.depth += 1;
        if self.depth > 600 {
            return Err(TooBig);
        }
        let r = self.piece_(p, outer, None);
        self.depth -= 1;
        let r = r?;
        self.spend(r.len())?;
        Ok(r)
    }

    fn piece_(&mut self, p: &Piece, outer: Option<&Piece>, args: Option<&str>) -> R<String> {
        let args_s = args.unwrap_or("");
        Ok(match p {
            Piece::Id(s) => format!("{s}{args_s}"),
            Piece::Tmpl(t) => {
                let a = match args {
                    Some(a) => a.to_string(), // the outermost arguments win
                    None => self.args(&t.1)?,
                };
                self.piece_(&t.0, outer, Some(&a))?
            }
            Piece::Anon(_) => "`anonymous namespace'".into(),
            Piece::Local(n, s) => format!("`{}'::`{n}'", self.sym(s)?),
            Piece::Op(i) => format!("{}{args_s}", OPS[*i].1),
            Piece::Lit(s) => format!("operator \"\"{s}{args_s}"),
            Piece::Ctor | Piece::Dtor => {
                let c = match outer {
                    Some(o) => self.piece(o, None)?,
                    None => String::new(),
                };
                format!("{}{c}{args_s}", if matches!(p, Piece::Dtor) { "~" } else { "" })
            }
            // completed by `sym`, which knows the type
            Piece::Conv => format!("operator{args_s} "),
            Piece::Fixed(s) => (*s).to_string(),
            Piece::Guard(th, i) => {
                let mut s = String::from(if *th { "`local static thread guard'" } else { "`local static guard'" });
                if *i > 0 {
                    s.push_str(&format!("{{{i}}}"));
                }
                s
            }
            Piece::Vcall(n) => {
                if self.fl.has(NAME_ONLY) {
                    format!("`vcall'{{{n}}}")
                } else {
                    format!("`vcall'{{{n}, {{flat}}}}")
                }
            }
            Piece::BaseDesc(a, b, c, d) => format!("`RTTI Base Class Descriptor at ({a}, {b}, {c}, {d})'"),
            Piece::DynVar(d, s) => format!("{}`{}''", dyn_word(*d), self.sym(s)?),
            Piece::DynName(d, n) => format!("{}'{}''", dyn_word(*d), self.name(n)?),
        })
    }

    /// a symbol's name, given the return type in case it names a conversion
    fn sym_name(&mut self, n: &Name, ret: Option<&Ty>) -> R<String> {
        let mut s = self.name(n)?;
        if matches!(base_of(n.leaf()), Piece::Conv) {
            if let Some(t) = ret {
                s.push_str(&self.ty(t)?);
            }
        }
        if let Piece::DynName(_, inner) = n.leaf() {
            if matches!(base_of(inner.leaf()), Piece::Conv) {
                if let Some(t) = ret {
                    // the type belongs inside of the quotes
                    let t = self.ty(t)?;
                    s.truncate(s.len() - 2);
                    s.push_str(&t);
                    s.push_str("''");
                }
            }
        }
        Ok(s)
    }

    pub fn sym(&mut self, s: &Sym) -> R<String> {
        self.depth += 1;
        if self.depth > 600 {
            return Err(TooBig);
        }
        let r = self.sym_(s);
        self.depth -= 1;
        let r = r?;
        self.spend(r.len())?;
        Ok(r)
    }

    fn sym_(&mut self, s: &Sym) -> R<String> {
        let only = self.fl.has(NAME_ONLY);
        match s {
            Sym::Var(n, sc, t) => {
                let mut out = String::new();
                if *sc < 3 && !only {
                    if !self.fl.has(NO_ACCESS) {
                        out.push_str(["private: ", "protected: ", "public: "][*sc as usize]);
                    }
                    if !self.fl.has(NO_MEMBER) {
                        out.push_str("static ");
                    }
                }
                let name = self.sym_name(n, None)?;
                if only || self.fl.has(NO_VAR) {
                    out.push_str(&name);
                } else {
                    out.push_str(&self.decl(t, Inner::tight(name))?);
                }
                Ok(out)
            }
            Sym::Untyped(n) | Sym::Guard(n) => self.name(n),
            Sym::TypeDesc(t) => {
                let name = "`RTTI Type Descriptor'".to_string();
                if only || self.fl.has(NO_VAR) {
                    Ok(name)
                } else {
                    self.decl(t, Inner::tight(name))
                }
            }
            Sym::TypeName(t) => {
                let t = self.ty(t)?;
                Ok(if only { t } else { join(&t, "`RTTI Type Descriptor Name'") })
            }
            Sym::Md5(s) => Ok(s.to_string()),
            Sym::Table(n, cv, target) => {
                let mut out = String::new();
                if !only {
                    for w in cv_words(*cv) {
                        out.push_str(w);
                        out.push(' ');
                    }
                }
                out.push_str(&self.name(n)?);
                if let Some(t) = target {
                    out.push_str(&format!("{{for `{}'}}", self.name(t)?));
                }
                Ok(out)
            }
            Sym::Str(l) => Ok(str_lit(l)),
            Sym::Vcall(n, cc) => {
                let name = self.name(n)?;
                if only {
                    return Ok(name);
                }
                Ok(format!("[thunk]: {}", join(&self.cc(*cc), &name)))
            }
            Sym::NoParams(n, c) => {
                let name = self.sym_name(n, None)?;
                if only || self.fl.has(NO_MEMBER) || !*c {
                    return Ok(name);
                }
                Ok(format!("extern \"C\" {name}"))
            }
            Sym::Fn(n, c, f) => {
                let name = self.sym_name(n, f.ret.as_ref())?;
                let adjust = match c.thunk {
                    Thunk::None => String::new(),
                    Thunk::Adjustor(o) => format!("`adjustor{{{o}}}'"),
                    Thunk::VtorDisp(a, b) => format!("`vtordisp{{{a}, {b}}}'"),
                    Thunk::VtorDispEx(a, b, cc, d) => format!("`vtordispex{{{a}, {b}, {cc}, {d}}}'"),
                };
                let name = format!("{name}{adjust}");
                if only {
                    return Ok(name);
                }
                let mut out = String::new();
                if c.thunk != Thunk::None {
                    out.push_str("[thunk]: ");
                }
                if !self.fl.has(NO_ACCESS) {
                    out.push_str(match c.access {
                        Access::None => "",
                        Access::Private => "private: ",
                        Access::Protected => "protected: ",
                        Access::Public => "public: ",
                    });
                }
                if !self.fl.has(NO_MEMBER) {
                    if c.is_static && !c.global {
                        out.push_str("static ");
                    }
                    if c.is_virtual {
                        out.push_str("virtual ");
                    }
                    if c.extern_c {
                        out.push_str("extern \"C\" ");
                    }
                }
                let cc = self.cc(f.cc);
                let text = join(&cc, &name) + &self.params_and_quals(f)?;
                out.push_str(&self.returning(f, text)?);
                Ok(out)
            }
        }
    }
}

fn dyn_word(d: bool) -> &'static str {
    if d {
        "`dynamic atexit destructor for "
    } else {
        "`dynamic initializer for "
    }
}

/// adds qualifiers to a type the way `$$C` and pointees do
pub fn qualify(t: &Ty, cv: u8) -> Ty {
    if cv == 0 {
        return t.clone();
    }
    match t {
        Ty::Prim(i, c) => Ty::Prim(*i, c | cv),
        Ty::Tag(k, n, c) => Ty::Tag(*k, n.clone(), c | cv),
        Ty::Ptr(p) => {
            let mut p = (**p).clone();
            p.cv |= cv;
            Ty::Ptr(p.into())
        }
        Ty::Arr(a) => {
            let mut a = (**a).clone();
            a.cv |= cv;
            Ty::Arr(a.into())
        }
        Ty::Fun(f) => {
            let mut f = (**f).clone();
            f.this.cv |= cv;
            Ty::Fun(f.into())
        }
        Ty::Custom(p, c) => Ty::Custom(p.clone(), c | cv),
    }
}

pub fn escape(c: u32, out: &mut String) {
    match c {
        0 => out.push_str("\\0"),
        7 => out.push_str("\\a"),
        8 => out.push_str("\\b"),
        9 => out.push_str("\\t"),
        10 => out.push_str("\\n"),
        11 => out.push_str("\\v"),
        12 => out.push_str("\\f"),
        13 => out.push_str("\\r"),
        0x22 => out.push_str("\\\""),
        0x27 => out.push_str("\\'"),
        0x5c => out.push_str("\\\\"),
        0x20..=0x7e => out.push(char::from_u32(c).unwrap()),
        _ => out.push_str(&format!("\\x{c:02X}")),
    }
}

pub fn str_lit(l: &StrLit) -> String {
    let mut s = String::from(match l.kind {
        0 => "L\"",
        1 => "\"",
        2 => "u\"",
        _ => "U\"",
    });
    for &c in &l.chars {
        escape(c, &mut s);
    }
    s.push('"');
    if l.truncated {
        s.push_str("...");
    }
    s
}

pub fn print(s: &Sym, fl: u16) -> R<String> {
    Printer::new(fl).sym(s)
}
