//! Reference demangler: the grammar of Microsoft symbols, as a recursive descent over text that
//! builds the AST. Written against the published grammar and the behaviour documented by the
//! crate; used as the oracle for strings that weren't produced by the reference mangler.
//!
//! `lenient` marks inputs whose treatment is nobody's promise (junk after a complete symbol, codes
//! without a meaning, ...): for those an error is as good as the reference text.

use crate::ast::*;
use crate::print;
use std::rc::Rc;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Fail {
    /// not a symbol
    Reject,
    /// beyond what the reference models (resource limits)
    Unknown,
}
type P<T> = Result<T, Fail>;

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Verdict {
    /// must be rejected
    Reject,
    /// must demangle to exactly this
    Text(String),
    /// either rejected, or demangled to exactly this
    Maybe(String),
    /// no claim
    Any,
}

impl Verdict {
    pub fn allows(&self, r: &Result<String, String>) -> bool {
        match (self, r) {
            (Verdict::Any, _) | (Verdict::Reject | Verdict::Maybe(_), Err(_)) => true,
            (Verdict::Text(t) | Verdict::Maybe(t), Ok(s)) => t == s,
            (Verdict::Text(_), Err(_)) | (Verdict::Reject, Ok(_)) => false,
        }
    }
    pub fn describe(&self) -> String {
        match self {
            Verdict::Reject => "rejected".into(),
            Verdict::Text(t) => format!("{t:?}"),
            Verdict::Maybe(t) => format!("{t:?} (or rejected)"),
            Verdict::Any => "anything".into(),
        }
    }
}

#[derive(Default)]
struct Ctx {
    names: Vec<(String, Piece, usize)>,
    params: Vec<(Ty, usize)>,
}

pub struct Ref<'a> {
    s: &'a str,
    ctx: Ctx,
    pub lenient: bool,
    work: usize,
    depth: usize,
    nodes: usize,
}

const MAX_WORK: usize = 6000;
const MAX_NODES: usize = 600;
const MAX_DEPTH: usize = 110;

pub fn demangle(s: &str, fl: u16) -> Verdict {
    match parse(s) {
        Err(Fail::Unknown) => Verdict::Any,
        Err(Fail::Reject) => Verdict::Reject,
        Ok((sym, lenient)) => match print::print(&sym, fl) {
            Err(_) => Verdict::Any,
            Ok(t) if lenient => Verdict::Maybe(t),
            Ok(t) => Verdict::Text(t),
        },
    }
}

/// There are no arrays of functions: how the qualifiers of one are spaced is nobody's promise.
fn qualify(t: &Ty, cv: u8) -> P<Ty> {
    let mut e = t;
    while let Ty::Arr(a) = e {
        e = &a.elem;
    }
    match (t, e) {
        (Ty::Arr(_), Ty::Fun(_)) if cv != 0 => Err(Fail::Unknown),
        _ => Ok(print::qualify(t, cv)),
    }
}

/// the symbol and whether its acceptance is optional
pub fn parse(s: &str) -> P<(Sym, bool)> {
    let mut r = Ref { s, ctx: Ctx::default(), lenient: false, work: 0, depth: 0, nodes: 0 };
    match r.symbol() {
        Ok(sym) => {
            let lenient = r.lenient || !r.s.is_empty();
            Ok((sym, lenient))
        }
        Err(Fail::Reject) if r.lenient => Err(Fail::Unknown),
        Err(e) => Err(e),
    }
}

fn is_hex(c: char) -> bool {
    ('A'..='P').contains(&c)
}

impl<'a> Ref<'a> {
    fn peek(&self) -> Option<char> {
        self.s.chars().next()
    }
    fn next(&mut self) -> P<char> {
        let c = self.peek().ok_or(Fail::Reject)?;
        self.s = &self.s[c.len_utf8()..];
        Ok(c)
    }
    fn eat(&mut self, p: &str) -> bool {
        match self.s.strip_prefix(p) {
            Some(r) => {
                self.s = r;
                true
            }
            None => false,
        }
    }
    fn need(&mut self, p: &str) -> P<()> {
        if self.eat(p) {
            Ok(())
        } else {
            Err(Fail::Reject)
        }
    }
    fn digit(&mut self) -> Option<usize> {
        let c = self.peek()?;
        if c.is_ascii_digit() {
            self.s = &self.s[1..];
            Some(c as usize - '0' as usize)
        } else {
            None
        }
    }
    fn tick(&mut self) -> P<()> {
        self.work += 1;
        self.nodes += 1;
        if self.work > MAX_WORK || self.nodes > MAX_NODES {
            return Err(Fail::Unknown);
        }
        Ok(())
    }
    fn nested<T>(&mut self, f: impl FnOnce(&mut Self) -> P<T>) -> P<T> {
        self.depth += 1;
        if self.depth > MAX_DEPTH {
            return Err(Fail::Unknown);
        }
        self.tick()?;
        let r = f(self);
        self.depth -= 1;
        r
    }

    // ---- symbols

    fn symbol(&mut self) -> P<Sym> {
        self.nested(Self::symbol_)
    }

    fn symbol_(&mut self) -> P<Sym> {
        if self.eat(".") {
            let t = self.result_type()?;
            return if self.s.is_empty() { Ok(Sym::TypeName(t)) } else { Err(Fail::Reject) };
        }
        if let Some(rest) = self.s.strip_prefix("??@") {
            let end = rest.find('@').ok_or(Fail::Reject)?;
            let mut len = 3 + end + 1;
            if self.s[len..].starts_with("??_R4@") {
                len += 6;
            }
            let text = &self.s[..len];
            self.s = &self.s[len..];
            return Ok(Sym::Md5(text.into()));
        }
        self.need("?")?;
        if let Some(rest) = self.s.strip_prefix('?') {
            if rest.starts_with('_') {
                if let Some(s) = self.special()? {
                    return Ok(s);
                }
            }
        }
        self.declaration(false)
    }

    fn special(&mut self) -> P<Option<Sym>> {
        if self.eat("?_7") {
            return self.table("`vftable'").map(Some);
        }
        if self.eat("?_8") {
            return self.table("`vbtable'").map(Some);
        }
        if self.eat("?_S") {
            return self.table("`local vftable'").map(Some);
        }
        if self.eat("?_R4") {
            return self.table("`RTTI Complete Object Locator'").map(Some);
        }
        if self.eat("?_9") {
            let scope = self.scopes()?;
            self.need("$B")?;
            let off = self.unsigned()?;
            self.need("A")?;
            let cc = self.cc()?;
            return Ok(Some(Sym::Vcall(with_leaf(Piece::Vcall(off), scope), cc)));
        }
        if self.eat("?_A") || self.eat("?_P") {
            return Err(Fail::Reject);
        }
        for (code, thread) in [("?_B", false), ("?__J", true)] {
            if self.eat(code) {
                let scope = self.scopes()?;
                if !self.eat("4IA") {
                    self.need("5")?;
                }
                let mut idx = 0;
                if !self.s.is_empty() {
                    idx = self.unsigned()?;
                    if idx > u64::from(u32::MAX) {
                        return Err(Fail::Reject);
                    }
                }
                return Ok(Some(Sym::Guard(with_leaf(Piece::Guard(thread, idx), scope))));
            }
        }
        if self.eat("?_C") {
            return self.string().map(Some);
        }
        if self.eat("?_R0") {
            let t = self.result_type()?;
            self.need("@8")?;
            return if self.s.is_empty() { Ok(Some(Sym::TypeDesc(t))) } else { Err(Fail::Reject) };
        }
        if self.eat("?_R1") {
            let nv = self.unsigned()?;
            let vbptr = self.signed()?;
            let vbtable = self.unsigned()?;
            let attrs = self.unsigned()?;
            let u32max = u64::from(u32::MAX);
            if nv > u32max || vbtable > u32max || attrs > u32max || i32::try_from(vbptr).is_err() {
                return Err(Fail::Reject);
            }
            let scope = self.scopes()?;
            self.need("8")?;
            return Ok(Some(Sym::Untyped(with_leaf(Piece::BaseDesc(nv, vbptr, vbtable, attrs), scope))));
        }
        for (code, text) in [("?_R2", "`RTTI Base Class Array'"), ("?_R3", "`RTTI Class Hierarchy Descriptor'")] {
            if self.eat(code) {
                let scope = self.scopes()?;
                self.need("8")?;
                return Ok(Some(Sym::Untyped(with_leaf(Piece::Fixed(text), scope))));
            }
        }
        for (code, dtor) in [("?__E", false), ("?__F", true)] {
            if self.eat(code) {
                return self.init_stub(dtor).map(Some);
            }
        }
        Ok(None)
    }

    fn table(&mut self, what: &'static str) -> P<Sym> {
        let scope = self.scopes()?;
        if !self.eat("6") {
            self.need("7")?;
        }
        let (cv, _) = self.quals()?;
        let target = if self.eat("@") { None } else { Some(self.type_name()?) };
        Ok(Sym::Table(with_leaf(Piece::Fixed(what), scope), cv, target))
    }

    fn init_stub(&mut self, dtor: bool) -> P<Sym> {
        // a name, or a static data member's symbol after a mark; `?$` begins the name of a template
        // unless that gets nowhere
        let (at, names, params) = (self.s, self.ctx.names.len(), self.ctx.params.len());
        let template = self.s.starts_with("?$").then(|| self.declaration(true));
        let (marked, inner) = match template {
            Some(Err(Fail::Unknown)) => return Err(Fail::Unknown),
            Some(Ok(f @ (Sym::Fn(..) | Sym::NoParams(..)))) => (false, f),
            _ => {
                self.s = at;
                self.ctx.names.truncate(names);
                self.ctx.params.truncate(params);
                (self.eat("?"), self.declaration(false)?)
            }
        };
        match inner {
            Sym::Var(..) => {
                self.need(if marked { "@@" } else { "@" })?;
                let leaf = Name::one(Piece::DynVar(dtor, Rc::new(inner)));
                self.function(leaf)
            }
            Sym::Fn(n, c, f) if !marked => Ok(Sym::Fn(Name::one(Piece::DynName(dtor, n)), c, f)),
            Sym::NoParams(n, c) if !marked => Ok(Sym::NoParams(Name::one(Piece::DynName(dtor, n)), c)),
            _ => Err(Fail::Reject),
        }
    }

    fn declaration(&mut self, initialized: bool) -> P<Sym> {
        let start = self.s;
        let leaf = self.symbol_leaf()?;
        let (at, names, params, work) = (self.s, self.ctx.names.len(), self.ctx.params.len(), self.work);
        let mut scopes = self.scopes();
        // the names of variable templates count, those of function templates don't
        if start.starts_with("?$") && matches!(base_of(&leaf), Piece::Id(_)) && scopes != Err(Fail::Unknown) {
            let (was, was_names, was_params) = (self.s, self.ctx.names.clone(), self.ctx.params.clone());
            if initialized || scopes.is_err() || self.at_variable() {
                self.s = at;
                self.ctx.names.truncate(names);
                self.ctx.params.truncate(params);
                self.remember(&start[..start.len() - at.len()], &leaf, work);
                let again = self.scopes();
                if again == Err(Fail::Unknown) || initialized || self.at_variable() {
                    scopes = again;
                } else {
                    self.s = was;
                    self.ctx.names = was_names;
                    self.ctx.params = was_params;
                }
            }
        }
        let name = with_leaf(leaf, scopes?);
        let base = base_of(name.leaf()).clone();
        if matches!(base, Piece::Ctor | Piece::Dtor) && name.0.len() < 2 {
            return Err(Fail::Reject);
        }
        match self.peek() {
            Some(c @ '0'..='4') => {
                self.next()?;
                let t = self.variable_type()?;
                if matches!(base, Piece::Conv) {
                    return Err(Fail::Reject);
                }
                Ok(Sym::Var(name, c as u8 - b'0', t))
            }
            Some(_) => {
                let f = self.function(name)?;
                if matches!(base, Piece::Conv) && !matches!(&f, Sym::Fn(_, _, f) if f.ret.is_some()) {
                    return Err(Fail::Reject);
                }
                Ok(f)
            }
            None => Err(Fail::Reject),
        }
    }

    fn at_variable(&self) -> bool {
        self.s.starts_with(['0', '1', '2', '3', '4'])
    }

    fn variable_type(&mut self) -> P<Ty> {
        let t = self.ty()?;
        if let Ty::Ptr(p) = &t {
            let mut p = (**p).clone();
            self.ext(&mut p.p64, &mut p.restrict, &mut p.unaligned);
            let (cv, _) = self.quals()?;
            p.pointee = qualify(&p.pointee, cv)?;
            if p.class.is_some() {
                self.type_name()?;
            }
            Ok(Ty::Ptr(p.into()))
        } else {
            let (cv, _) = self.quals()?;
            match &t {
                // nothing compilers emit: objects of array type are mangled as pointers
                Ty::Arr(a) if a.cv != 0 => Err(Fail::Unknown),
                Ty::Fun(f) if f.this != NO_THIS => Err(Fail::Unknown),
                t => qualify(t, cv),
            }
        }
    }

    fn function(&mut self, name: Name) -> P<Sym> {
        let mut c = FnClass {
            access: Access::None,
            is_static: false,
            is_virtual: false,
            global: false,
            extern_c: self.eat("$$J0"),
            thunk: Thunk::None,
        };
        let code = self.next()?;
        let virt = |c: &mut FnClass, a| {
            c.access = a;
            c.is_virtual = true;
        };
        const PRI: Access = Access::Private;
        const PRO: Access = Access::Protected;
        const PUB: Access = Access::Public;
        match code {
            '9' => return Ok(Sym::NoParams(name, true)),
            'A' | 'B' => c.access = PRI,
            'I' | 'J' => c.access = PRO,
            'Q' | 'R' => c.access = PUB,
            'C' | 'D' => (c.access, c.is_static) = (PRI, true),
            'K' | 'L' => (c.access, c.is_static) = (PRO, true),
            'S' | 'T' => (c.access, c.is_static) = (PUB, true),
            'E' | 'F' => virt(&mut c, PRI),
            'M' | 'N' => virt(&mut c, PRO),
            'U' | 'V' => virt(&mut c, PUB),
            'G' | 'H' | 'O' | 'P' | 'W' | 'X' => {
                // the repository's own tests have private thunks without the `virtual`
                c.is_virtual = !matches!(code, 'G' | 'H');
                c.access = match code {
                    'G' | 'H' => PRI,
                    'O' | 'P' => PRO,
                    _ => PUB,
                };
                let a = self.signed32()?;
                c.thunk = Thunk::Adjustor(a as u32);
            }
            'Y' | 'Z' => c.global = true,
            '$' => {
                let ex = self.eat("R");
                virt(&mut c, match self.next()? {
                    '0' | '1' => PRI,
                    '2' | '3' => PRO,
                    '4' | '5' => PUB,
                    _ => return Err(Fail::Reject),
                });
                c.thunk = if ex {
                    let a = self.signed32()?;
                    let b = self.signed32()?;
                    let v = self.signed32()?;
                    let s = self.signed32()?;
                    Thunk::VtorDispEx(a, b, v, s as u32)
                } else {
                    let v = self.signed32()?;
                    let s = self.signed32()?;
                    Thunk::VtorDisp(v, s as u32)
                };
            }
            _ => return Err(Fail::Reject),
        }
        let member = !c.global && !c.is_static;
        let f = self.fn_type(member)?;
        Ok(Sym::Fn(name, c, Rc::new(f)))
    }

    // ---- names

    fn remember(&mut self, key: &str, p: &Piece, work: usize) {
        let names = &mut self.ctx.names;
        if names.len() < 10 && !names.iter().any(|(k, _, _)| k == key) {
            names.push((key.to_string(), p.clone(), work));
        }
    }

    fn backref(&mut self) -> P<Option<Piece>> {
        match self.digit() {
            None => Ok(None),
            Some(i) => {
                let (_, p, w) = self.ctx.names.get(i).ok_or(Fail::Reject)?;
                let (p, w) = (p.clone(), *w);
                self.work += w;
                self.tick()?;
                Ok(Some(p))
            }
        }
    }

    fn text(&mut self) -> P<&'a str> {
        let n = self.s.find('@').ok_or(Fail::Reject)?;
        if n == 0 {
            return Err(Fail::Reject);
        }
        let t = &self.s[..n];
        self.s = &self.s[n + 1..];
        self.tick()?;
        self.work += n / 16;
        Ok(t)
    }

    fn simple(&mut self) -> P<Piece> {
        if self.s.starts_with('?') {
            // not something any compiler uses for a plain name
            self.lenient = true;
        }
        let t = self.text()?;
        let p = id(t);
        self.remember(t, &p, 1 + t.len() / 16);
        Ok(p)
    }

    fn symbol_leaf(&mut self) -> P<Piece> {
        if let Some(p) = self.backref()? {
            Ok(p)
        } else if self.s.starts_with("?$") {
            self.template(false)
        } else if self.eat("?") {
            self.operator()
        } else {
            self.simple()
        }
    }

    fn operator(&mut self) -> P<Piece> {
        self.tick()?;
        if self.eat("__K") {
            return Ok(Piece::Lit(self.text()?.into()));
        }
        if !self.s.starts_with('_') {
            for (code, p) in [("0", Piece::Ctor), ("1", Piece::Dtor), ("B", Piece::Conv)] {
                if self.eat(code) {
                    return Ok(p);
                }
            }
        }
        let prefix = if self.eat("__") {
            "__"
        } else if self.eat("_") {
            "_"
        } else {
            ""
        };
        let c = self.next()?;
        if !c.is_ascii_digit() && !c.is_ascii_uppercase() {
            return Err(Fail::Reject);
        }
        let code = format!("{prefix}{c}");
        match OPS.iter().position(|(m, _)| *m == code) {
            Some(i) => Ok(Piece::Op(i)),
            None => Err(Fail::Unknown), // no such operator
        }
    }

    fn template(&mut self, remember: bool) -> P<Piece> {
        self.nested(|r| r.template_(remember))
    }

    fn template_(&mut self, remember: bool) -> P<Piece> {
        let start = self.s;
        let work = self.work;
        self.need("?$")?;
        let outer = std::mem::take(&mut self.ctx);
        let inner = self.symbol_leaf().and_then(|base| {
            if matches!(base, Piece::Tmpl(_)) {
                self.lenient = true;
            }
            Ok((base, self.template_args()?))
        });
        // what this is part of may be gone over again
        self.ctx = outer;
        let (base, args) = inner?;
        let p = Piece::Tmpl(Rc::new((base, args)));
        if remember {
            if matches!(base_of(&p), Piece::Conv | Piece::Ctor | Piece::Dtor) {
                return Err(Fail::Reject);
            }
            let key = &start[..start.len() - self.s.len()];
            let w = self.work - work;
            self.remember(key, &p, w);
        }
        Ok(p)
    }

    fn type_leaf(&mut self) -> P<Piece> {
        if let Some(p) = self.backref()? {
            Ok(p)
        } else if self.s.starts_with("?$") {
            self.template(true)
        } else {
            self.simple()
        }
    }

    fn type_name(&mut self) -> P<Name> {
        let leaf = self.type_leaf()?;
        Ok(with_leaf(leaf, self.scopes()?))
    }

    fn scopes(&mut self) -> P<Vec<Piece>> {
        let mut v = Vec::new();
        while !self.eat("@") {
            if self.s.is_empty() {
                return Err(Fail::Reject);
            }
            v.push(self.scope()?);
        }
        self.tick()?;
        Ok(v)
    }

    fn scope(&mut self) -> P<Piece> {
        if let Some(p) = self.backref()? {
            return Ok(p);
        }
        if self.s.starts_with("?$") {
            return self.template(true);
        }
        if self.s.starts_with("?A") {
            let n = self.s.find('@').ok_or(Fail::Reject)?;
            let key = &self.s[..n];
            let p = Piece::Anon(key[2..].into());
            self.tick()?;
            self.remember(key, &p, 2);
            self.s = &self.s[n + 1..];
            return Ok(p);
        }
        if self.at_local_scope() {
            self.need("?")?;
            let n = if self.eat("@") { 0 } else { self.unsigned()? };
            self.need("?")?;
            let s = self.symbol()?;
            return Ok(Piece::Local(n, Rc::new(s)));
        }
        self.simple()
    }

    /// `?<number>?`, with the number in the encoding which doesn't begin with A
    fn at_local_scope(&self) -> bool {
        let Some(rest) = self.s.strip_prefix('?') else { return false };
        let Some(end) = rest.find('?') else { return false };
        let mut t = rest[..end].chars();
        match t.next() {
            Some('@' | '0'..='9') => t.next().is_none(),
            Some('B'..='P') => {
                let rest: Vec<char> = t.collect();
                match rest.split_last() {
                    Some(('@', mid)) => mid.iter().all(|c| is_hex(*c)),
                    _ => false,
                }
            }
            _ => false,
        }
    }

    // ---- numbers

    fn number(&mut self) -> P<(u64, bool)> {
        let neg = self.eat("?");
        if let Some(d) = self.digit() {
            return Ok((d as u64 + 1, neg));
        }
        let mut v = 0u64;
        let mut digits = 0;
        loop {
            match self.next()? {
                '@' => break,
                c if is_hex(c) => {
                    v = (v << 4) | (c as u64 - 'A' as u64);
                    digits += 1;
                }
                _ => return Err(Fail::Reject),
            }
        }
        if digits == 0 || digits > 16 {
            self.lenient = true;
        }
        Ok((v, neg))
    }

    fn unsigned(&mut self) -> P<u64> {
        match self.number()? {
            (v, false) => Ok(v),
            _ => Err(Fail::Reject),
        }
    }

    fn signed(&mut self) -> P<i64> {
        let (v, neg) = self.number()?;
        match i64::try_from(v) {
            Ok(v) => Ok(if neg { -v } else { v }),
            Err(_) => {
                self.lenient = true;
                Err(Fail::Reject)
            }
        }
    }

    /// 32 bit offsets are encoded either way around
    fn signed32(&mut self) -> P<i32> {
        let v = self.signed()?;
        if v > i64::from(u32::MAX) || v < i64::from(i32::MIN) {
            self.lenient = true;
        }
        Ok(v as i32)
    }

    // ---- types

    fn quals(&mut self) -> P<(u8, bool)> {
        Ok(match self.next()? {
            'A' => (0, false),
            'B' => (CONST, false),
            'C' => (VOLATILE, false),
            'D' => (CONST | VOLATILE, false),
            'Q' => (0, true),
            'R' => (CONST, true),
            'S' => (VOLATILE, true),
            'T' => (CONST | VOLATILE, true),
            _ => return Err(Fail::Reject),
        })
    }

    fn ext(&mut self, p64: &mut bool, restrict: &mut bool, unaligned: &mut bool) {
        *p64 |= self.eat("E");
        *restrict |= self.eat("I");
        *unaligned |= self.eat("F");
    }

    fn qualified(&mut self) -> P<Ty> {
        let (cv, member) = self.quals()?;
        if member {
            self.lenient = true;
        }
        let t = self.ty()?;
        qualify(&t, cv)
    }

    fn result_type(&mut self) -> P<Ty> {
        if self.eat("?") {
            self.nested(Self::qualified)
        } else {
            self.ty()
        }
    }

    fn ty(&mut self) -> P<Ty> {
        self.nested(Self::ty_)
    }

    fn ty_(&mut self) -> P<Ty> {
        if self.eat("$$Q") {
            return self.pointer(Aff::RRef, 0);
        }
        if self.eat("$$A8@@") {
            return self.plain_fn(true);
        }
        if self.eat("$$A6") {
            return self.plain_fn(false);
        }
        for (i, (code, _)) in PRIMS.iter().enumerate() {
            if self.eat(code) {
                return Ok(Ty::Prim(i, 0));
            }
        }
        match self.next()? {
            'T' => Ok(Ty::Tag(Tag::Union, self.type_name()?, 0)),
            'U' => Ok(Ty::Tag(Tag::Struct, self.type_name()?, 0)),
            'V' => Ok(Ty::Tag(Tag::Class, self.type_name()?, 0)),
            'W' => {
                self.need("4")?;
                Ok(Ty::Tag(Tag::Enum, self.type_name()?, 0))
            }
            'A' => self.pointer(Aff::LRef, 0),
            'P' => self.pointer(Aff::Ptr, 0),
            'Q' => self.pointer(Aff::Ptr, CONST),
            'R' => self.pointer(Aff::Ptr, VOLATILE),
            'S' => self.pointer(Aff::Ptr, CONST | VOLATILE),
            'Y' => self.array(),
            '?' => {
                let p = self.type_leaf()?;
                self.need("@")?;
                Ok(Ty::Custom(p, 0))
            }
            _ => Err(Fail::Reject),
        }
    }

    fn pointer(&mut self, aff: Aff, cv: u8) -> P<Ty> {
        let mut p = PtrTy {
            aff,
            cv,
            p64: false,
            restrict: false,
            unaligned: false,
            class: None,
            pointee: Ty::Prim(0, 0),
        };
        if self.eat("6") {
            p.pointee = Ty::Fun(self.fn_type(false)?.into());
        } else if aff == Aff::Ptr && self.eat("8") {
            p.class = Some(self.type_name()?);
            p.pointee = Ty::Fun(self.fn_type(true)?.into());
        } else {
            self.ext(&mut p.p64, &mut p.restrict, &mut p.unaligned);
            let (q, member) = self.quals()?;
            if member && aff == Aff::Ptr {
                p.class = Some(self.type_name()?);
                let t = self.ty()?;
                p.pointee = qualify(&t, q)?;
            } else {
                if member {
                    self.lenient = true;
                }
                let t = self.ty()?;
                p.pointee = qualify(&t, q)?;
            }
        }
        Ok(Ty::Ptr(p.into()))
    }

    fn array(&mut self) -> P<Ty> {
        let rank = match self.number()? {
            (r, false) if r > 0 => r,
            _ => return Err(Fail::Reject),
        };
        let mut dims = Vec::new();
        for _ in 0..rank {
            self.tick()?;
            match self.number()? {
                (d, false) => dims.push(d),
                _ => return Err(Fail::Reject),
            }
        }
        let mut cv = 0;
        if self.eat("$$C") {
            match self.quals()? {
                (q, false) => cv = q,
                _ => return Err(Fail::Reject),
            }
        }
        let elem = self.ty()?;
        qualify(&Ty::Arr(ArrTy { dims, cv: 0, elem }.into()), cv)
    }

    fn cc(&mut self) -> P<Option<usize>> {
        let c = self.next()?;
        let i = CCS.iter().position(|(l, _)| l.contains(&c));
        if i.is_none() {
            self.lenient = true;
        }
        Ok(i)
    }

    /// a function type that isn't behind a pointer; how one of an unknown calling convention is
    /// spaced is nobody's promise
    fn plain_fn(&mut self, member: bool) -> P<Ty> {
        let f = self.fn_type(member)?;
        if f.cc.is_none() {
            return Err(Fail::Unknown);
        }
        Ok(Ty::Fun(f.into()))
    }

    fn fn_type(&mut self, member: bool) -> P<FnTy> {
        let mut this = NO_THIS;
        if member {
            let mut t = NO_THIS;
            self.ext(&mut t.p64, &mut t.restrict, &mut t.unaligned);
            if self.eat("G") {
                t.refq = RefQ::L;
            } else if self.eat("H") {
                t.refq = RefQ::R;
            }
            let (cv, m) = self.quals()?;
            if m {
                self.lenient = true;
            }
            t.cv = cv;
            this = t;
        }
        let cc = self.cc()?;
        let ret = if self.eat("@") { None } else { Some(self.result_type()?) };
        if let Some(Ty::Fun(f)) = &ret {
            // a function type without a result in the place of a result: what is
            // between nothing and the next token isn't defined
            if f.ret.is_none() {
                return Err(Fail::Unknown);
            }
        }
        let mut variadic = false;
        let params = if self.eat("X") {
            None
        } else {
            let mut v = Vec::new();
            loop {
                if self.eat("@") {
                    break;
                }
                if self.eat("Z") {
                    variadic = true;
                    break;
                }
                if let Some(i) = self.digit() {
                    let (t, w) = self.ctx.params.get(i).ok_or(Fail::Reject)?;
                    let (t, w) = (t.clone(), *w);
                    self.work += w;
                    self.tick()?;
                    v.push(t);
                    continue;
                }
                let (before, work) = (self.s, self.work);
                let t = self.ty()?;
                let used = before[..before.len() - self.s.len()].chars().count();
                if used > 1 && self.ctx.params.len() < 10 {
                    self.ctx.params.push((t.clone(), self.work - work));
                }
                v.push(t);
            }
            Some(v)
        };
        let noexcept = self.eat("_E");
        if !noexcept {
            self.need("Z")?;
        }
        Ok(FnTy { member, this, cc, ret, params, variadic, noexcept })
    }

    // ---- template arguments

    fn template_args(&mut self) -> P<Vec<TArg>> {
        let mut v = Vec::new();
        while !self.eat("@") {
            self.tick()?;
            if let Some(i) = PACKS.iter().position(|p| self.eat(p)) {
                v.push(TArg::Pack(i));
                continue;
            }
            if self.s.is_empty() {
                return Err(Fail::Reject);
            }
            if self.eat("$M") {
                let t = self.ty()?;
                let a = self.template_arg(true)?;
                if !matches!(a, TArg::Int(..) | TArg::Addr(_) | TArg::MemFn(..) | TArg::MemData(_)) {
                    self.lenient = true;
                }
                v.push(TArg::Auto(t, Rc::new(a)));
            } else {
                v.push(self.template_arg(false)?);
            }
        }
        Ok(v)
    }

    fn template_arg(&mut self, auto: bool) -> P<TArg> {
        if self.eat("$$Y") {
            return Ok(TArg::Alias(self.type_name()?));
        }
        if self.eat("$$B") {
            return Ok(TArg::Arr(self.ty()?));
        }
        if self.eat("$$C") {
            let (cv, member) = self.quals()?;
            if member {
                self.lenient = true;
            }
            return Ok(TArg::Qual(cv, self.ty()?));
        }
        if self.s.starts_with("$E?") {
            self.need("$E")?;
            return Ok(TArg::Ref(Rc::new(self.symbol()?)));
        }
        // the remaining kinds are a letter, which `$M` isn't separated from by another $
        let rest = if auto { Some(self.s) } else { self.s.strip_prefix('$') };
        let kind = rest.and_then(|r| r.chars().next());
        if let Some(k @ ('0' | '1' | 'H' | 'I' | 'J' | 'F' | 'G')) = kind {
            self.s = &rest.unwrap()[1..];
            let offsets = |r: &mut Self, n: usize| -> P<Vec<i64>> { (0..n).map(|_| r.signed()).collect() };
            return match k {
                '0' => {
                    let (v, neg) = self.number()?;
                    Ok(TArg::Int(v, neg))
                }
                'F' => Ok(TArg::MemData(offsets(self, 2)?)),
                'G' => Ok(TArg::MemData(offsets(self, 3)?)),
                _ => {
                    let sym = if self.s.starts_with('?') { Some(Rc::new(self.symbol()?)) } else { None };
                    if let Some(Sym::Str(_)) = sym.as_deref() {
                        return Err(Fail::Reject);
                    }
                    if k == '1' {
                        if sym.is_none() {
                            self.lenient = true;
                        }
                        Ok(TArg::Addr(sym))
                    } else {
                        let n = k as usize - 'G' as usize;
                        Ok(TArg::MemFn(sym, offsets(self, n)?))
                    }
                }
            };
        }
        Ok(TArg::Ty(self.ty()?))
    }

    // ---- string literals

    fn string(&mut self) -> P<Sym> {
        let wide = if self.eat("@_1") {
            true
        } else {
            self.need("@_0")?;
            false
        };
        let len = self.unsigned()?;
        if len < if wide { 2 } else { 1 } {
            return Err(Fail::Reject);
        }
        let crc = self.s.find('@').ok_or(Fail::Reject)?;
        self.s = &self.s[crc + 1..];
        if self.s.is_empty() {
            return Err(Fail::Reject);
        }
        let mut bytes = Vec::new();
        while !self.eat("@") {
            bytes.push(self.char_byte()?);
            if wide {
                if self.s.starts_with('@') {
                    // half a character, unless the @ is meant to be the other half
                    self.lenient = true;
                }
                bytes.push(self.char_byte()?);
                if bytes.len() > 600 {
                    return Err(Fail::Unknown);
                }
            } else if bytes.len() > 128 {
                return Err(Fail::Reject);
            }
        }
        let (kind, truncated, mut chars): (u8, bool, Vec<u32>);
        if wide {
            kind = 0;
            truncated = len > 64;
            chars = bytes.chunks(2).map(|b| u32::from(b[0]) << 8 | u32::from(b[1])).collect();
            if !truncated {
                let n = chars.len() as u64 * 2;
                if n != len {
                    // the length disagrees with the characters
                    self.lenient = true;
                    let at = (len / 2 - 1) as usize;
                    if len % 2 == 0 && at < chars.len() {
                        chars.remove(at);
                    }
                } else {
                    chars.pop();
                }
            }
        } else {
            truncated = len > bytes.len() as u64;
            let size = char_size(&bytes, len);
            kind = size as u8;
            chars = bytes
                .chunks_exact(size)
                .map(|b| b.iter().rev().fold(0, |a, x| a << 8 | u32::from(*x)))
                .collect();
            if !truncated {
                chars.pop();
            }
        }
        Ok(Sym::Str(Rc::new(StrLit { kind, chars, truncated })))
    }

    fn char_byte(&mut self) -> P<u8> {
        let c = self.next()?;
        if c != '?' {
            if !c.is_ascii() {
                self.lenient = true;
            }
            return u8::try_from(u32::from(c)).map_err(|_| Fail::Reject);
        }
        match self.next()? {
            '$' => {
                let (a, b) = (self.next()?, self.next()?);
                if is_hex(a) && is_hex(b) {
                    Ok(((a as u8 - b'A') << 4) | (b as u8 - b'A'))
                } else {
                    Err(Fail::Reject)
                }
            }
            c @ '0'..='9' => Ok(b",/\\:. \n\t'-"[c as usize - '0' as usize]),
            c @ ('a'..='z' | 'A'..='Z') => Ok(c as u8 | 0x80),
            _ => Err(Fail::Reject),
        }
    }
}

/// how wide the characters of a string literal must be, given its encoded bytes and full length
pub fn char_size(bytes: &[u8], len: u64) -> usize {
    if len % 2 == 1 {
        return 1;
    }
    if len < 32 {
        // complete: look at the terminator
        let nulls = bytes.iter().rev().take_while(|x| **x == 0).count();
        if nulls >= 4 && len % 4 == 0 {
            4
        } else if nulls >= 2 {
            2
        } else {
            1
        }
    } else {
        // possibly cut off: look at how many zeroes there are
        let nulls = bytes.iter().filter(|x| **x == 0).count();
        if nulls >= 2 * bytes.len() / 3 && len % 4 == 0 {
            4
        } else if nulls >= bytes.len() / 3 {
            2
        } else {
            1
        }
    }
}

fn with_leaf(leaf: Piece, scopes: Vec<Piece>) -> Name {
    let mut v = vec![leaf];
    v.extend(scopes);
    Name::new(v)
}
