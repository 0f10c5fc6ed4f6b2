//! String-level generators: mutations of known symbols and soups of grammar tokens.

use crate::eng::Src;

static CORPUS: &str = include_str!("../data/corpus.txt");

pub fn corpus() -> Vec<&'static str> {
    CORPUS.lines().filter(|l| !l.is_empty()).collect()
}

pub const TOKENS: &[&str] = &[
    "@", "A", "?", "H", "X", "Z", "@Z", "XZ", "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "B", "C", "D", "E",
    "F", "G", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "Y", "W4", "_N", "_J", "_K",
    "_W", "_Q", "_S", "_U", "_P", "_T", "_E", "_", "$", "$$", "$$Q", "$$R", "$$T", "$$A6", "$$A8@@", "$$B", "$$C", "$$V",
    "$$Y", "$$Z", "$$$V", "$S", "$M", "$0", "$1", "$E", "$F", "$G", "$H", "$I", "$J", "$$J0", "?$", "?A", "?A0x1@",
    "?0", "?1", "?B", "?__K", "?__E", "?__F", "?__J", "?__L", "?__M", "?_7", "?_8", "?_9", "?_S", "?_R0", "?_R1", "?_R2", "?_R3",
    "?_R4", "?_B", "?_C@_0", "?_C@_1", "?_E", "?_G", "$B", "$R", "$0", "$4", "PE", "PEA", "AEA", "AEB", "PEIF", "P6A", "P8A@@", "PEQA@@",
    "Y01", "Y1", "QA", "$$CB", "a@", "b@", "foo@", "@@", "@8", "6B@", "4IA", "5", "3HA", "YAXXZ", "YAX", "QEAAX", "UEAA", "@YAXXZ",
    "V?$t@H@@", "Va@@", "U1@", "T0@", "?$t@", "?1??", "?@?", "?BA@?", "?2?", "$$QEA", "$$A6AX", "_0", "__", ".", ".?A", "??@", "é@", "\u{7f}", " ",
    "BAAAAAAAAAAAAAAA@", "PPPPPPPPPPPPPPPP@", "HPPPPPPP@", "IAAAAAAA@", "?IAAAAAAA@", "A@", "?A@", "?0", "$$A6A", "@A", "@B", "?C", "?AV", "?$CB@",
];

fn char_bounds(s: &str) -> Vec<usize> {
    s.char_indices().map(|(i, _)| i).chain([s.len()]).collect()
}

fn pos(r: &mut Src, s: &str) -> usize {
    let b = char_bounds(s);
    b[r.u(b.len())]
}

fn span(r: &mut Src, s: &str, max: usize) -> (usize, usize) {
    let b = char_bounds(s);
    let i = r.u(b.len());
    let n = r.u(max + 1);
    (b[i], b[(i + n).min(b.len() - 1)])
}

pub fn mutate(r: &mut Src, s: &str, corpus: &[&str]) -> String {
    let mut s = s.to_string();
    let n = 1 + r.small(5);
    for _ in 0..n {
        match r.w(&[3, 3, 3, 2, 2, 1, 1, 2]) {
            0 => {
                let (a, b) = span(r, &s, 1);
                s.replace_range(a..b, "");
            }
            1 => {
                let i = pos(r, &s);
                s.insert_str(i, r.pick(TOKENS));
            }
            2 => {
                let (a, b) = span(r, &s, 2);
                s.replace_range(a..b, r.pick(TOKENS));
            }
            3 => {
                let (a, b) = span(r, &s, 12);
                s.replace_range(a..b, "");
            }
            4 => {
                let (a, b) = span(r, &s, 20);
                let t = s[a..b].to_string();
                let i = pos(r, &s);
                s.insert_str(i, &t);
            }
            5 => {
                let o = *r.pick(corpus);
                let i = pos(r, &s);
                let j = pos(r, o);
                s = format!("{}{}", &s[..i], &o[j..]);
            }
            6 => {
                let i = pos(r, &s);
                s.truncate(i);
            }
            _ => {
                let o = *r.pick(corpus);
                let (a, b) = span(r, o, 16);
                let i = pos(r, &s);
                s.insert_str(i, &o[a..b]);
            }
        }
        if s.len() > 600 {
            let b = char_bounds(&s);
            let i = b[b.len() / 2];
            s.truncate(i);
        }
    }
    s
}

pub fn soup(r: &mut Src) -> String {
    let mut s = String::new();
    let start = ["?", "??", "??$", "?x@@3", "?f@@YA", "?x@@3PEA", ".", "??_", ".?A", "??_C@_0", "?f@@YAX", "??$t@", ""];
    s.push_str(r.pick(&start));
    let n = 1 + r.u(20);
    for _ in 0..n {
        s.push_str(r.pick(TOKENS));
    }
    s
}

pub fn any_string(r: &mut Src, corpus: &[&str]) -> String {
    match r.w(&[6, 3, 1]) {
        0 => {
            let base = *r.pick(corpus);
            mutate(r, base, corpus)
        }
        1 => soup(r),
        _ => {
            // arbitrary characters
            let n = r.u(24);
            let mut s = String::new();
            if r.p(2, 3) {
                s.push('?');
            }
            for _ in 0..n {
                let c = match r.w(&[6, 2, 1, 1]) {
                    0 => 0x20 + r.below(0x5f) as u32,
                    1 => r.below(0x100) as u32,
                    2 => r.below(0x3000) as u32,
                    _ => r.below(0x11_0000) as u32,
                };
                s.push(char::from_u32(c).unwrap_or('\u{fffd}'));
            }
            s
        }
    }
}
