//! Walks the AST: used to classify cases, and to leave out what LLVM is known to treat otherwise.

use crate::ast::*;
use std::rc::Rc;

pub enum Node<'a> {
    Ty(&'a Ty),
    Piece(&'a Piece),
    Name(&'a Name),
    TArg(&'a TArg),
    Sym(&'a Sym),
    Fn(&'a FnTy),
}

pub fn sym(s: &Sym, f: &mut dyn FnMut(Node)) {
    f(Node::Sym(s));
    match s {
        Sym::Var(n, _, t) => {
            name(n, f);
            ty(t, f);
        }
        Sym::Fn(n, _, t) => {
            name(n, f);
            func(t, f);
        }
        Sym::Table(n, _, t) => {
            name(n, f);
            if let Some(t) = t {
                name(t, f);
            }
        }
        Sym::NoParams(n, _) | Sym::Guard(n) | Sym::Untyped(n) | Sym::Vcall(n, _) => name(n, f),
        Sym::TypeName(t) | Sym::TypeDesc(t) => ty(t, f),
        Sym::Str(_) | Sym::Md5(_) => (),
    }
}

pub fn func(t: &FnTy, f: &mut dyn FnMut(Node)) {
    f(Node::Fn(t));
    if let Some(r) = &t.ret {
        ty(r, f);
    }
    for p in t.params.iter().flatten() {
        ty(p, f);
    }
}

pub fn name(n: &Name, f: &mut dyn FnMut(Node)) {
    f(Node::Name(n));
    for p in n.0.iter() {
        piece(p, f);
    }
}

pub fn piece(p: &Piece, f: &mut dyn FnMut(Node)) {
    f(Node::Piece(p));
    match p {
        Piece::Tmpl(t) => {
            piece(&t.0, f);
            for a in &t.1 {
                targ(a, f);
            }
        }
        Piece::Local(_, s) | Piece::DynVar(_, s) => sym(s, f),
        Piece::DynName(_, n) => name(n, f),
        _ => (),
    }
}

pub fn targ(a: &TArg, f: &mut dyn FnMut(Node)) {
    f(Node::TArg(a));
    match a {
        TArg::Ty(t) | TArg::Qual(_, t) | TArg::Arr(t) => ty(t, f),
        TArg::Alias(n) => name(n, f),
        TArg::Addr(Some(s)) | TArg::MemFn(Some(s), _) | TArg::Ref(s) => sym(s, f),
        TArg::Auto(t, a) => {
            ty(t, f);
            targ(a, f);
        }
        TArg::Addr(None) | TArg::MemFn(None, _) | TArg::Int(..) | TArg::MemData(_) | TArg::Pack(_) => (),
    }
}

pub fn ty(t: &Ty, f: &mut dyn FnMut(Node)) {
    f(Node::Ty(t));
    match t {
        Ty::Prim(..) => (),
        Ty::Tag(_, n, _) => name(n, f),
        Ty::Ptr(p) => {
            if let Some(c) = &p.class {
                name(c, f);
            }
            ty(&p.pointee, f);
        }
        Ty::Arr(a) => ty(&a.elem, f),
        Ty::Fun(t) => func(t, f),
        Ty::Custom(p, _) => piece(p, f),
    }
}

/// Puts another type in the place of one of those written in a symbol, or another symbol in the
/// place of one of those inside of it.
#[derive(Default)]
pub struct Replace<'a> {
    pub by: Option<&'a Ty>,
    pub sym_by: Option<&'a Sym>,
    /// how many places to pass over
    pub at: usize,
    pub seen: usize,
    /// whether the elements of arrays are among them
    pub elements: bool,
}

impl Replace<'_> {
    fn slot(&mut self, t: &Ty) -> Ty {
        if let Some(by) = self.by {
            self.seen += 1;
            if self.seen - 1 == self.at {
                return by.clone();
            }
        }
        self.ty(t)
    }
    fn inner(&mut self, s: &Sym) -> Rc<Sym> {
        if let Some(by) = self.sym_by {
            self.seen += 1;
            if self.seen - 1 == self.at {
                return Rc::new(by.clone());
            }
        }
        Rc::new(self.sym(s))
    }
    pub fn sym(&mut self, s: &Sym) -> Sym {
        match s {
            Sym::Var(n, c, t) => Sym::Var(self.name(n), *c, self.slot(t)),
            Sym::Fn(n, c, t) => Sym::Fn(self.name(n), *c, Rc::new(self.func(t))),
            Sym::Table(n, q, t) => Sym::Table(self.name(n), *q, t.as_ref().map(|t| self.name(t))),
            Sym::NoParams(n, b) => Sym::NoParams(self.name(n), *b),
            Sym::Guard(n) => Sym::Guard(self.name(n)),
            Sym::Untyped(n) => Sym::Untyped(self.name(n)),
            Sym::Vcall(n, c) => Sym::Vcall(self.name(n), *c),
            Sym::TypeName(t) => Sym::TypeName(self.slot(t)),
            Sym::TypeDesc(t) => Sym::TypeDesc(self.slot(t)),
            Sym::Str(_) | Sym::Md5(_) => s.clone(),
        }
    }
    fn func(&mut self, t: &FnTy) -> FnTy {
        let ret = t.ret.as_ref().map(|t| self.slot(t));
        let params = t.params.as_ref().map(|p| p.iter().map(|t| self.slot(t)).collect());
        FnTy { ret, params, ..t.clone() }
    }
    fn name(&mut self, n: &Name) -> Name {
        Name::new(n.0.iter().map(|p| self.piece(p)).collect())
    }
    fn piece(&mut self, p: &Piece) -> Piece {
        match p {
            Piece::Tmpl(t) => {
                let p = self.piece(&t.0);
                Piece::Tmpl(Rc::new((p, t.1.iter().map(|a| self.targ(a)).collect())))
            }
            Piece::Local(n, s) => Piece::Local(*n, self.inner(s)),
            Piece::DynVar(b, s) => Piece::DynVar(*b, Rc::new(self.sym(s))),
            Piece::DynName(b, n) => Piece::DynName(*b, self.name(n)),
            p => p.clone(),
        }
    }
    fn targ(&mut self, a: &TArg) -> TArg {
        match a {
            TArg::Ty(t) => TArg::Ty(self.slot(t)),
            TArg::Qual(q, t) => TArg::Qual(*q, self.ty(t)),
            TArg::Arr(t) => TArg::Arr(self.ty(t)),
            TArg::Alias(n) => TArg::Alias(self.name(n)),
            TArg::Addr(Some(s)) => TArg::Addr(Some(self.inner(s))),
            TArg::MemFn(Some(s), v) => TArg::MemFn(Some(self.inner(s)), v.clone()),
            TArg::Ref(s) => TArg::Ref(self.inner(s)),
            TArg::Auto(t, a) => TArg::Auto(self.ty(t), Rc::new(self.targ(a))),
            a => a.clone(),
        }
    }
    fn ty(&mut self, t: &Ty) -> Ty {
        match t {
            Ty::Prim(..) => t.clone(),
            Ty::Tag(k, n, q) => Ty::Tag(*k, self.name(n), *q),
            Ty::Ptr(p) => {
                let class = p.class.as_ref().map(|c| self.name(c));
                // a member function's qualifiers are a part of the pointer
                let pointee = if matches!(p.pointee, Ty::Fun(_)) { self.ty(&p.pointee) } else { self.slot(&p.pointee) };
                Ty::Ptr(Rc::new(PtrTy { class, pointee, ..(**p).clone() }))
            }
            Ty::Arr(a) => {
                let elem = if self.elements { self.slot(&a.elem) } else { self.ty(&a.elem) };
                Ty::Arr(Rc::new(ArrTy { elem, ..(**a).clone() }))
            }
            Ty::Fun(t) => Ty::Fun(Rc::new(self.func(t))),
            Ty::Custom(p, q) => Ty::Custom(self.piece(p), *q),
        }
    }
}
