//! Runs under Miri: makes the calls listed in a file, which looks for undefined behaviour in them.
//! With a second argument, prints their results, to be compared with those of another platform.

use std::io::Write;
use undname::Flags;

fn unhex(s: &str) -> String {
    let b = (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect();
    String::from_utf8(b).unwrap()
}

fn valid(s: &str) -> bool {
    std::str::from_utf8(std::hint::black_box(s.as_bytes())).is_ok()
}

/// Inputs are blocks of flags (4 bytes), length (4 bytes) and text; outputs of a kind (0: error,
/// 1: text), length and text.
fn print(mut b: &[u8]) {
    let mut out = std::io::stdout().lock();
    out.write_all(b"begin").unwrap();
    while !b.is_empty() {
        let word = |i: usize| u32::from_le_bytes(b[i..i + 4].try_into().unwrap());
        let (flags, n) = (word(0), word(4) as usize);
        let s = std::str::from_utf8(&b[8..8 + n]).unwrap();
        let (kind, t) = match undname::demangle(s, Flags::from_bits_truncate(flags as u16)) {
            Ok(t) => (1, t),
            Err(e) => (0, e.to_string()),
        };
        out.write_all(&[kind]).unwrap();
        out.write_all(&(t.len() as u32).to_le_bytes()).unwrap();
        out.write_all(t.as_bytes()).unwrap();
        out.flush().unwrap();
        b = &b[8 + n..];
    }
}

fn main() {
    let list = std::env::args().nth(1).unwrap();
    if std::env::args().nth(2).is_some() {
        return print(&std::fs::read(list).unwrap());
    }
    let text = std::fs::read_to_string(list).unwrap();
    std::panic::set_hook(Box::new(|_| ()));
    let mut buffer = String::new();
    for (i, l) in text.lines().enumerate() {
        println!("run {i}");
        std::io::stdout().flush().unwrap();
        let (fl, s) = l.split_once(' ').unwrap();
        let fl = Flags::from_bits_truncate(fl.parse().unwrap());
        let s = unhex(s);
        // a panic is for another check to find
        let ok = std::panic::catch_unwind(|| {
            let mut b = if i % 3 == 0 { String::new() } else { String::from("whatever was here before é") };
            match undname::demangle_into(&s, fl, &mut b) {
                Ok(()) => valid(&b),
                Err(e) => valid(&b) && !e.to_string().is_empty() && !format!("{e:?}").is_empty(),
            }
        });
        if matches!(ok, Ok(false)) {
            println!("bad {i}");
            return;
        }
        if i % 4 == 0 {
            // one that goes through all the calls
            let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                _ = undname::demangle_into(&s, fl, &mut buffer);
                let one = undname::demangle(&s, fl);
                valid(&buffer) && !one.is_ok_and(|x| !valid(&x))
            }));
            if matches!(ok, Ok(false)) {
                println!("bad {i}");
                return;
            }
        }
    }
    println!("end");
}
