//! The code under test.

use undname::Flags;

pub fn flags(bits: u16) -> Flags {
    // by name rather than by number: the values of the flags aren't what's being relied upon
    let mut f = Flags::empty();
    for (b, v) in [
        (crate::print::NO_CC, Flags::NO_CALLING_CONVENTION),
        (crate::print::NO_TAG, Flags::NO_TAG_SPECIFIER),
        (crate::print::NO_ACCESS, Flags::NO_ACCESS_SPECIFIER),
        (crate::print::NO_MEMBER, Flags::NO_MEMBER_TYPE),
        (crate::print::NO_RET, Flags::NO_RETURN_TYPE),
        (crate::print::NO_VAR, Flags::NO_VARIABLE_TYPE),
        (crate::print::NO_THISQ, Flags::NO_THISTYPE),
        (crate::print::NO_UNDER, Flags::NO_LEADING_UNDERSCORES),
        (crate::print::NO_MSKW, Flags::NO_MS_KEYWORDS),
        (crate::print::NAME_ONLY, Flags::NAME_ONLY),
    ] {
        if bits & b != 0 {
            f |= v;
        }
    }
    f
}

/// Demangles; a panic unwinds into the caller.
pub fn demangle(s: &str, fl: u16) -> Result<String, String> {
    undname::demangle(s, flags(fl)).map_err(|e| e.to_string())
}

/// The outcome of one call, panics included.
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Out {
    Ok(String),
    Err(String),
    Panic(String),
}

pub fn run(s: &str, fl: u16) -> Out {
    match std::panic::catch_unwind(|| demangle(s, fl)) {
        Ok(Ok(t)) => Out::Ok(t),
        Ok(Err(e)) => Out::Err(e),
        Err(p) => Out::Panic(
            p.downcast_ref::<&str>()
                .map(|s| (*s).to_string())
                .or_else(|| p.downcast_ref::<String>().cloned())
                .unwrap_or_else(|| "panic".into()),
        ),
    }
}

impl Out {
    pub fn ok(&self) -> Option<&str> {
        match self {
            Out::Ok(s) => Some(s),
            _ => None,
        }
    }
    pub fn describe(&self) -> String {
        match self {
            Out::Ok(s) => format!("{s:?}"),
            Out::Err(e) => format!("rejected ({e})"),
            Out::Panic(p) => format!("PANIC ({p})"),
        }
    }
    pub fn as_result(&self) -> Result<String, String> {
        match self {
            Out::Ok(s) => Ok(s.clone()),
            Out::Err(e) | Out::Panic(e) => Err(e.clone()),
        }
    }
}
