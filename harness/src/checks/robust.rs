//! Whatever the input: the call returns, soon, and with bounded resources.

use super::{broad, some_flags, style};
use crate::eng::Src;
use crate::gen::G;
use crate::heap;
use crate::mangle::mangle;
use crate::mutate;
use crate::print;
use crate::run::{fail, Check, Ctx, Failure};
use crate::sut::Out;

type Case = Result<(), Failure>;

pub const CHECKS: &[Check] = &[
    Check {
        id: "C01",
        quick: 5_000_000,
        thorough: 75_000_000,
        rule: "a distinct text of at least three characters (with its flags) for which the call returned",
        assumptions: &[
            "calls are made on threads with a stack of 2 MiB, Rust's default, in a build with overflow checks and debug assertions",
            "a call that uses more than 20 s of CPU time counts as one that doesn't return",
        ],
        case: total,
        workers: 8,
    },
    Check {
        id: "C02",
        quick: 50_000,
        thorough: 600_000,
        rule: "a distinct text that asks for at least 64 KiB of output, or 200 constituents, or 20 levels of nesting",
        assumptions: &[
            "bounds: texts stay below 1 MiB; heap use below 48 MiB plus 64 bytes per byte of input",
            "symbols with up to 400 parameters or scopes, 100 levels and 256 KiB of text are taken to be ordinary, and must be demangled",
        ],
        case: bounded,
        workers: 8,
    },
];

/// What may be repeated, with what's needed before and after it.
pub const FAMILIES: &[(&str, &[&str], &str)] = &[
    ("?x@@3", &["PEA", "PA", "QEB", "AEA", "$$QEA"], "HEA"),
    ("?x@@3", &["P6A"], "XXZA"),
    ("?f@@YAX", &["P6AX"], "H@Z"),
    ("?f@@YAX", &["P8a@@EAAX", "P6AP6AX"], "@Z@Z"),
    ("?f@@YA", &["P6A", "PEAP6A", "A6A", "$$A6A"], "XXZXZ"),
    ("?x@", &["a@", "?$t@H@", "?A0x1@", "?1??f@@YAXXZ@", "?1?"], "@3HA"),
    ("?x@@3V", &["?$t@V", "?$t@PEAV", "?$t@$$BY01V"], "a@@@@@@A"),
    ("?x@@3V", &["?$t@$1?x@@3V", "?$t@$E?x@@3V", "?$t@$H?x@@3V", "?$t@$MV"], "a@@A@@A@@A"),
    ("??$", &["?$t@", "t@"], "H@@YAXXZ"),
    ("??$f@", &["H", "$0A@", "V?$t@H@@", "$$V", "$S", "$$Z", "$1?x@@3HA"], "@@YAXXZ"),
    ("?f@@YAX", &["H", "PEAH", "Va@@", "0", "1", "9", "P6AXXZ"], "@Z"),
    ("??__E", &["??__E", "?x@@3HA@@YAXXZ", "?", "?__E", "?__F"], "x@@YAXXZ"),
    ("?x@@3", &["Y01", "Y0?0", "$$C", "$$CB", "$$A6", "$$Y", "_", "$$B"], "HA"),
    ("?x@@3PEAY", &["A", "BAA", "P", "9"], "@H@A"),
    ("??_C@_0", &["1", "A", "P", "a", "?$AA", "?0", "?a"], "@"),
    ("??_C@_1BA@AAAAAAAA@", &["?$AAa", "ab", "?0?1"], "@"),
    ("??_R1", &["?0", "A@", "7"], "@@8"),
    ("?x@?", &["?", "1?", "A", "A0x", "B@?", "@?"], "f@@YAXXZ@3HA"),
    (".", &["P6A", "PEA", "?A", "V?$t@", "$$A6", "?AV"], "H"),
    ("??@", &["a", "0", "??@", "é"], "@"),
    ("??_7a@@6B", &["a@", "?$t@H@", "?1??f@@YAXXZ@"], "@"),
    ("", &["?", "??", "@", "é", "$", "0", "A", "_", "\u{1F980}", "?$", "??_", "V", "PEA"], ""),
    ("?f@@YAXV", &["?$t@VA@@V", "?$t@V0@V1@V"], "@@@Z"),
    ("?f@@Q", &["E", "I", "F", "G", "EAA"], "AAXXZ"),
    ("?f@@", &["$", "$$J0", "$R", "W", "0", "?0"], "AEAAXXZ"),
];

pub fn family(r: &mut Src, max: usize) -> String {
    let (pre, mid, post) = r.pick(FAMILIES);
    let mut s = String::from(*pre);
    let n = match r.w(&[3, 3, 2]) {
        0 => r.u(64.min(max)),
        1 => r.u(600.min(max)),
        _ => r.u(max),
    };
    match r.u(3) {
        0 => {
            let m = r.pick(mid);
            for _ in 0..n {
                s.push_str(m);
            }
        }
        1 => {
            // a pattern of two
            let (a, b) = (r.pick(mid), r.pick(mid));
            for _ in 0..n / 2 {
                s.push_str(a);
                s.push_str(b);
            }
        }
        _ => {
            for _ in 0..n {
                s.push_str(r.pick(mid));
            }
        }
    }
    s.push_str(post);
    if r.p(1, 4) {
        // closed as often as opened
        let c = *r.pick(&["@", "@Z", "Z", "XZ", "@@A", "A", "@@"]);
        for _ in 0..n {
            s.push_str(c);
        }
    }
    s
}

pub fn any_input(r: &mut Src) -> String {
    let corpus = mutate::corpus();
    match r.w(&[10, 5, 1, 4]) {
        0 => mutate::any_string(r, &corpus),
        1 => {
            let c = broad(r);
            let st = style(r);
            let s = G::new(r, c).any();
            let t = mangle(&s, st, r).text;
            if r.p(1, 2) {
                mutate::mutate(r, &t, &corpus)
            } else {
                t
            }
        }
        2 => family(r, 4000),
        _ => numeric(r),
    }
}

/// Symbols with extreme numbers wherever there may be one.
pub fn numeric(r: &mut Src) -> String {
    let t = *r.pick(&[
        "?x@?$t@$0#@@3HA", "?x@@3PEAY#HEA", "?x@@3PEAY0#HEA", "?x@@3PEAY1##HEA", "?x@?#??f@@YAXXZ@4HA", "??_B?1??f@@YAXXZ@5#", "??__J?1??f@@YAXXZ@5#",
        "??_9C@@$B#AA", "??_R1####C@@8", "?f@C@@W#EAAXXZ", "?f@C@@G#EAAXXZ", "?f@C@@$4##EAAXXZ", "?f@C@@$R4####EAAXXZ", "?x@?$t@$F##@@3HA", "?x@?$t@$G###@@3HA",
        "?x@?$t@$H?f@C@@QEAAXXZ#@@3HA", "?x@?$t@$J?f@C@@QEAAXXZ###@@3HA", "?x@?$t@$MH0#@@3HA", "??_C@_0#AAAAAAAA@abc?$AA@", "??_C@_1#AAAAAAAA@?$AAa?$AA?$AA@",
        "??_C@_0#AAAAAAAA@@", "??_C@_1#AAAAAAAA@@", "?x@@3PEAY##HEA",
    ]);
    let mut s = String::new();
    for c in t.chars() {
        if c != '#' {
            s.push(c);
            continue;
        }
        if r.p(1, 3) {
            s.push('?');
        }
        match r.w(&[2, 4, 2, 1]) {
            0 => s.push((b'0' + r.below(10) as u8) as char),
            1 => {
                let v = match r.u(5) {
                    // something small, once it's cut off
                    4 => ((1 + r.below(1 << 20)) << 32) | r.below(12),
                    0 => 1u64 << r.below(64),
                    1 => (1u64 << r.below(64)).wrapping_sub(1),
                    2 => u64::MAX - r.below(3),
                    _ => r.any(),
                };
                for c in format!("{v:X}").bytes() {
                    s.push((b'A' + (c as char).to_digit(16).unwrap() as u8) as char);
                }
                s.push('@');
            }
            2 => {
                let n = r.u(24);
                let c = *r.pick(&['A', 'P', 'I', 'H', 'B']);
                for _ in 0..n {
                    s.push(c);
                }
                s.push('@');
            }
            _ => (),
        }
    }
    s
}

fn total(r: &mut Src, ctx: &mut Ctx) -> Case {
    let s = any_input(r);
    let fl = if r.p(1, 3) { some_flags(r) } else { 0 };
    let o = ctx.sut(&s, fl);
    ctx.eval();
    if let Out::Panic(_) = o {
        return Err(fail("the call panicked", &s, fl, "a text or an error".into(), o.describe()));
    }
    ctx.class(if o.ok().is_some() { "text" } else { "error" });
    if s.len() > 1000 {
        ctx.class("over 1000 bytes");
    }
    if s.chars().nth(2).is_some() {
        ctx.nontrivial(&s, fl.into());
        if o.ok().is_some() {
            ctx.sample(|| s.clone());
        }
    }
    Ok(())
}

// ---- resources

/// A symbol along with how long its text ought to be, and how much it's made of.
struct Sized {
    text: String,
    want: Option<String>,
    /// whether that's to be expected of it, rather than an error
    ordinary: bool,
    /// what's wanted, when it's too much to write down
    want_len: usize,
    nodes: usize,
    depth: usize,
}

pub fn heavy_text(r: &mut Src) -> String {
    heavy(r).text
}

fn heavy(r: &mut Src) -> Sized {
    let some = |r: &mut Src, max: usize| match r.w(&[3, 2, 2]) {
        0 => 1 + r.u(max / 20 + 1),
        1 => 1 + r.u(max / 3),
        _ => 1 + r.u(max),
    };
    match r.u(12) {
        10 | 11 => {
            // plenty of everything
            let mut c = broad(r);
            c.fuel = 40 + r.below(400) as i32;
            c.max_params = *r.pick(&[5, 60, 300]);
            let st = style(r);
            let s = G::new(r, c).any();
            let text = mangle(&s, st, r).text;
            let want = print::print(&s, 0).ok();
            Sized { ordinary: text.len() <= 900, nodes: text.len() / 3, want_len: want.as_ref().map_or(0, String::len), text, want, depth: 0 }
        }
        8 => {
            // parameters made of the ones before, and scopes that repeat the longest
            let (levels, k, n) = (1 + r.u(4), 1 + r.u(40), some(r, 250));
            let mut s = String::from("?x@?1??f@@YAXP6AXVaaaaaaaa@@@Z");
            let mut len = 40usize;
            let mut all = len;
            for l in 0..levels {
                s.push_str(&format!("P6AX{}@Z", (l + 1).to_string().repeat(k)));
                len = (len * k + 20).min(1 << 40);
                all += len;
            }
            s.push_str("@Z");
            for _ in 0..n {
                s.push_str(&format!("?1??g@@YAX{}@Z", levels + 1));
            }
            s.push_str("@3HA");
            Sized { ordinary: false, nodes: 10 * n, text: s, want: None, want_len: (all + n * len).min(1 << 40), depth: 5 }
        }
        9 => {
            // templates of such parameters, in as many contexts
            let (levels, k, n, m) = (1 + r.u(3), 1 + r.u(40), 1 + r.u(10), 1 + r.u(20));
            let mut s = String::from("??$f@");
            for _ in 0..m {
                s.push_str("$1??$g@");
                for i in 0..n {
                    s.push_str(&format!("V?$t{}@P6AXP6AXVaaaaaaaa@@@Z", (b'a' + i as u8) as char));
                    for l in 0..levels {
                        s.push_str(&format!("P6AX{}@Z", (l + 1).to_string().repeat(k)));
                    }
                    s.push_str("@Z@@");
                }
                s.push_str("@@YAXXZ");
            }
            s.push_str("@@YAXXZ");
            Sized { ordinary: false, nodes: 10 * n * m, text: s, want: None, want_len: 0, depth: 5 }
        }
        0 => {
            // a long identifier, shown once
            let n = some(r, 1_200_000);
            let c = *r.pick(&["x", "é", "日"]);
            let n = n / c.len();
            let name = c.repeat(n);
            Sized { ordinary: n < 200_000, text: format!("?{name}a@@3HA"), want_len: 5 + n * c.len(), want: Some(format!("int {name}a")), nodes: 3, depth: 2 }
        }
        1 => {
            // back-references to a long name
            let n = some(r, 60_000);
            let k = 1 + r.u(40);
            let name = "n".repeat(n);
            let text = format!("?f@@YAXV{name}@@{}@Z", "0".repeat(k));
            let one = format!("class {name}");
            Sized {
                text,
                want_len: 20 + (k + 1) * (n + 8),
                ordinary: n * (k + 1) < 200_000,
                want: Some(format!("void __cdecl f({})", vec![one; k + 1].join(", "))),
                nodes: 6 + k,
                depth: 4,
            }
        }
        2 => {
            // doubling: each parameter's template arguments are made of the one before
            let k = 1 + r.u(30);
            let mut t = String::from("H");
            let mut len = 3usize;
            for _ in 0..k {
                t = format!("U?$t@{t}{t}@@");
                len = (2 * len + 12).min(1 << 40);
                if t.len() > 100_000 {
                    break;
                }
            }
            // spelled out it's as long as the text; parameters' references multiply it
            let refs = r.u(10);
            let text = format!("?f@@YAX{t}{}@Z", "0".repeat(refs));
            Sized { ordinary: false, nodes: text.len() / 4, text, want: None, want_len: len * (refs + 1), depth: 4 * k }
        }
        3 => {
            // names that refer to each other, so that the text is exponentially longer
            let k = 1 + r.u(9);
            let mut s = String::from("?f@@YAXV?$a@H@@");
            let mut len = 8usize;
            for i in 0..k {
                s.push_str("P6AX");
                let refs = 1 + r.u(9);
                s.push_str(&i.to_string().repeat(refs));
                s.push_str("@Z");
                len = (len * (refs + 1) + 20).min(1 << 40);
            }
            s.push_str("@Z");
            Sized { ordinary: false, nodes: 20 * k, text: s, want: None, want_len: len, depth: 5 }
        }
        4 => {
            // many small parameters
            let n = some(r, 100_000);
            let ty = *r.pick(&["H", "PEAH", "_N", "Va@@"]);
            let name = match ty {
                "H" => "int",
                "PEAH" => "int *",
                "_N" => "bool",
                _ => "class a",
            };
            Sized {
                text: format!("?f@@YAX{}@Z", ty.repeat(n)),
                want_len: 20 + n * (name.len() + 2),
                ordinary: n <= 400,
                want: Some(format!("void __cdecl f({})", vec![name; n].join(", "))),
                nodes: 5 + n * ty.len().min(4),
                depth: 4,
            }
        }
        5 => {
            // many scopes
            let n = some(r, 20_000);
            let text = format!("?x@{}@3HA", "ab@".repeat(n));
            Sized { ordinary: n <= 400, text, want_len: 5 + n * 4, want: Some(format!("int {}x", "ab::".repeat(n))), nodes: 3 + n, depth: 2 }
        }
        6 => {
            // deep pointers
            let n = some(r, 2000);
            let text = format!("?x@@3{}HEA", "PEA".repeat(n));
            Sized { ordinary: n <= 100, text, want_len: n + 5, want: Some(format!("int {}x", "*".repeat(n))), nodes: n + 3, depth: n }
        }
        _ => {
            // deep templates
            let n = some(r, 600);
            let text = format!("?x@@3{}H{}A", "U?$t@".repeat(n), "@@".repeat(n));
            let want = format!("{}int{} x", "struct t<".repeat(n), ">".repeat(n));
            Sized { ordinary: n <= 45, text, want_len: want.len(), want: Some(want), nodes: 4 * n, depth: 3 * n }
        }
    }
}

fn bounded(r: &mut Src, ctx: &mut Ctx) -> Case {
    if r.p(1, 3) {
        return super::strings::deep(r, ctx, "an ordinary symbol was refused or cut short");
    }
    let (s, sized) = if r.p(1, 6) {
        (family(r, 100_000), None)
    } else {
        let z = heavy(r);
        (z.text.clone(), Some(z))
    };
    let fl = if r.p(1, 4) { some_flags(r) } else { 0 };
    ctx.about_to(&s, fl);
    let (o, peak) = heap::peak(|| crate::sut::run(&s, fl));
    ctx.done();
    ctx.eval();
    let what = "the bounds on resources don't hold";
    let clip = |o: &Out| {
        let mut d = o.describe();
        let mut i = d.len().min(300);
        while !d.is_char_boundary(i) {
            i -= 1;
        }
        d.truncate(i);
        d
    };
    let bound = (48 << 20) + 64 * s.len();
    if peak > bound {
        return Err(fail(what, &s, fl, format!("at most {bound} bytes of heap"), format!("{peak}")));
    }
    match &o {
        Out::Panic(_) => return Err(fail(what, &s, fl, "a text or an error".into(), clip(&o))),
        Out::Ok(t) if t.len() >= 1 << 20 => {
            return Err(fail(what, &s, fl, "less than 1 MiB of text".into(), format!("{} bytes", t.len())));
        }
        _ => (),
    }
    if o.ok().is_some() {
        ctx.class("text");
    } else {
        ctx.class("error");
    }
    if let Some(z) = sized {
        if let (Some(w), 0) = (&z.want, fl) {
            if o.ok() != Some(w.as_str()) && (z.ordinary || o.ok().is_some()) {
                return Err(fail("an ordinary symbol was refused or cut short", &s, fl, format!("{} bytes of text", w.len()), clip(&o)));
            }
            ctx.class(if z.ordinary { "ordinary" } else { "extraordinary, but known" });
        }
        // texts are never cut short
        if z.want_len > (1 << 20) + 4096 && fl & (print::NAME_ONLY | print::NO_VAR | print::NO_TAG) == 0 && !z.ordinary {
            ctx.class("too long a text");
            if let (Some(t), true) = (o.ok(), z.nodes < 10 || s.starts_with("?n")) {
                return Err(fail(what, &s, fl, "an error".into(), format!("{} bytes", t.len())));
            }
        }
        if z.want_len > 65_536 || z.nodes > 200 || z.depth > 20 {
            ctx.nontrivial(&s, fl.into());
            ctx.sample(|| s.clone());
        }
    } else if s.len() > 1000 {
        ctx.nontrivial(&s, fl.into());
    }
    Ok(())
}
