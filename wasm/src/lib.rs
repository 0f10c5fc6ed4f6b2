//! The crate on a 32-bit platform. Called by run.js.

use undname::Flags;

/// where to put a text
#[no_mangle]
pub extern "C" fn room(n: usize) -> *mut u8 {
    Box::leak(vec![0u8; n].into_boxed_slice()).as_mut_ptr()
}

/// Demangles the text there. The result is a block of: whether it's a text or an error, its length,
/// and the text or the error's description.
///
/// # Safety
///
/// `p` has to be from `room(n)`, and hold UTF-8. It's freed.
#[no_mangle]
pub unsafe extern "C" fn call(flags: u32, p: *mut u8, n: usize) -> *mut u8 {
    let text = unsafe { Vec::from_raw_parts(p, n, n) };
    let text = String::from_utf8(text).unwrap();
    let (kind, t) = match undname::demangle(&text, Flags::from_bits_truncate(flags as u16)) {
        Ok(t) => (1, t),
        Err(e) => (0, e.to_string()),
    };
    let mut b = vec![kind];
    b.extend_from_slice(&(t.len() as u32).to_le_bytes());
    b.extend_from_slice(t.as_bytes());
    Box::leak(b.into_boxed_slice()).as_mut_ptr()
}

/// # Safety
///
/// `p` has to be from `call`, with a text of length `n`.
#[no_mangle]
pub unsafe extern "C" fn done(p: *mut u8, n: usize) {
    drop(unsafe { Vec::from_raw_parts(p, n + 5, n + 5) });
}
