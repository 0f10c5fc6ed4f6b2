//! LLVM's demangler.

#[cfg(have_llvm)]
mod imp {
    use std::ffi::{c_char, CStr};
    extern "C" {
        fn verif_llvm_demangle(s: *const c_char, n: usize, consumed: *mut usize, flags: u32) -> *mut c_char;
        fn verif_llvm_free(p: *mut c_char);
    }
    pub const AVAILABLE: bool = true;
    /// the text and how many bytes of the input it accounts for
    pub fn demangle(s: &str, flags: u32) -> Option<(String, usize)> {
        let mut used = 0usize;
        // SAFETY: the shim reads `n` bytes and returns a NUL-terminated malloc'd string or null
        unsafe {
            let p = verif_llvm_demangle(s.as_ptr().cast(), s.len(), &mut used, flags);
            if p.is_null() {
                return None;
            }
            let t = CStr::from_ptr(p).to_string_lossy().into_owned();
            verif_llvm_free(p);
            Some((t, used))
        }
    }
}
#[cfg(not(have_llvm))]
mod imp {
    pub const AVAILABLE: bool = false;
    pub fn demangle(_: &str, _: u32) -> Option<(String, usize)> {
        None
    }
}
pub use imp::*;

use crate::ast::*;
use crate::visit::{self, Node};

/// Whether LLVM 18 and this crate mean to produce the same text for a symbol. Left out is what
/// LLVM 18 doesn't know about, or is known to get wrong.
pub fn comparable(s: &str, sym: &Sym) -> bool {
    if !s.is_ascii() || s.contains('<') || s.contains('>') {
        return false;
    }
    let mut ok = true;
    let mut member_ptr = false;
    let (mut fn_ptr, mut tmpl) = (0, false);
    let mut fn_arg = false;
    visit::sym(sym, &mut |n| match n {
        Node::Ty(Ty::Prim(i, _)) => {
            if matches!(PRIMS[*i].0, "_P" | "_T") {
                ok = false;
            }
        }
        Node::TArg(TArg::Auto(..)) => ok = false,
        // loses the qualifiers of types known by their name only
        Node::Ty(Ty::Custom(_, cv)) if *cv != 0 => ok = false,
        Node::TArg(TArg::Qual(_, Ty::Custom(..))) => ok = false,
        // tells apart names by their text rather than by their spelling
        Node::TArg(TArg::Pack(_)) => ok = false,
        // remembers the names of operators
        Node::TArg(TArg::Addr(Some(s)) | TArg::MemFn(Some(s), _))
            if s.name().is_none_or(|n| !matches!(n.leaf(), Piece::Id(_))) =>
        {
            ok = false;
        }
        // doesn't remember the names of variable templates, or take them for ones to initialize
        Node::Sym(Sym::Var(n, ..)) | Node::Piece(Piece::DynName(_, n)) if matches!(n.leaf(), Piece::Tmpl(_)) => ok = false,
        Node::Fn(f) if matches!(f.ret, Some(Ty::Fun(_))) => ok = false,
        // the pointee's own qualifiers get lost
        Node::Ty(Ty::Ptr(p)) if p.class.is_some() && matches!(p.pointee, Ty::Ptr(_) | Ty::Arr(_)) => ok = false,
        // qualifiers stated with the elements get repeated
        Node::Ty(Ty::Arr(a)) if matches!(&a.elem, Ty::Ptr(p) if p.cv & a.cv != 0) => ok = false,
        Node::Ty(Ty::Fun(_)) => fn_ptr += 1,
        Node::Piece(Piece::Tmpl(_)) => tmpl = true,
        // the calling conventions of functions inside of pointers to functions get lost
        Node::TArg(TArg::Addr(Some(_)) | TArg::Ref(_) | TArg::MemFn(Some(_), _)) => fn_arg = true,
        Node::Ty(Ty::Ptr(p)) if p.class.is_some() => member_ptr = true,
        // printed as if it were the name of a variable
        Node::Sym(Sym::TypeName(t)) if !matches!(t, Ty::Prim(..) | Ty::Tag(..)) => ok = false,
        // LLVM prints nothing for back references to these
        Node::Piece(Piece::Anon(_)) => ok = false,
        // names ending in these aren't kept apart from what follows
        Node::Piece(Piece::Id(x)) if !x.ends_with(|c: char| c.is_ascii_alphanumeric()) => ok = false,
        // escapes are zero-padded to a whole number of bytes
        Node::Sym(Sym::Str(l)) if l.chars.iter().any(|c| *c > 0xff) => ok = false,
        Node::Piece(Piece::Op(i)) => {
            if OPS[*i].0 == "_F" {
                ok = false;
            }
        }
        _ => (),
    });
    ok && !(fn_ptr > 0 && fn_arg) && !(fn_ptr > 1 && tmpl) && !(member_ptr && s.contains("$$A8@@"))
}
