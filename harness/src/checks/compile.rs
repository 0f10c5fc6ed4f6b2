//! What a compiler emits for a program demangles to the program's declarations.

use super::expect;
use crate::cpp::Prog;
use crate::eng::Src;
use crate::mangle::{mangle, COMPILER};
use crate::run::{fail, Check, Ctx, Failure};
use std::collections::{BTreeSet, HashSet};
use std::process::{Command, Stdio};
use std::{fs, io};

type Case = Result<(), Failure>;

pub const CHECKS: &[Check] = &[Check {
    id: "C18",
        quick: 3_000,
        thorough: 60_000,
    rule: "a distinct symbol that clang emitted for a declaration or literal of a generated program, spelled just as expected for it",
    assumptions: &[
        "clang 18 follows the Microsoft ABI; symbols that it spells otherwise than expected for a declaration (it leaves anonymous namespaces out of the back references, unlike other implementations) are judged by the reference demangler only",
    ],
    case: compiled,
    workers: 8,
}];

fn unescape(s: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    let mut i = 0;
    while i < s.len() {
        let hex = |b: u8| (b as char).to_digit(16).map(|d| d as u8);
        if s[i] == b'\\' && i + 2 < s.len() {
            if let (Some(a), Some(b)) = (hex(s[i + 1]), hex(s[i + 2])) {
                v.push(a << 4 | b);
                i += 3;
                continue;
            }
        }
        v.push(s[i]);
        i += 1;
    }
    if v.first() == Some(&1) {
        v.remove(0);
    }
    v
}

/// the symbols in LLVM's assembly
fn symbols(ir: &[u8]) -> HashSet<String> {
    let mut out = HashSet::new();
    let mut i = 0;
    while i + 2 < ir.len() {
        if (ir[i] == b'@' || ir[i] == b'$') && ir[i + 1] == b'"' {
            let mut j = i + 2;
            while j < ir.len() && ir[j] != b'"' {
                j += 1;
            }
            if let Ok(s) = String::from_utf8(unescape(&ir[i + 2..j])) {
                out.insert(s);
            }
            i = j;
        }
        i += 1;
    }
    out
}

pub fn compile(text: &str, x64: bool, guards: bool, dir: &std::path::Path) -> io::Result<Result<HashSet<String>, String>> {
    let src = dir.join("p.cpp");
    fs::write(&src, text)?;
    let out = Command::new("clang++")
        .args(["-std=c++20", "-w", "-fms-extensions", "-fms-compatibility", "-fms-compatibility-version=19.33", "-fno-access-control"])
        .arg(if guards { "-fthreadsafe-statics" } else { "-fno-threadsafe-statics" })
        .args(["-ferror-limit=3", "-S", "-emit-llvm", "-o", "-"])
        .arg(if x64 { "--target=x86_64-pc-windows-msvc" } else { "--target=i686-pc-windows-msvc" })
        .arg(&src)
        .stdin(Stdio::null())
        .output()?;
    if !out.status.success() {
        return Ok(Err(String::from_utf8_lossy(&out.stderr).into_owned()));
    }
    Ok(Ok(symbols(&out.stdout)))
}

fn compiled(r: &mut Src, ctx: &mut Ctx) -> Case {
    let x64 = !r.p(1, 3);
    let guards = r.p(1, 3);
    let p = Prog::generate(r, x64);
    let (text, entities, maybe, literals) = (p.text, p.entities, p.maybe, p.literals);
    let dir = ctx.scratch.clone();
    let syms = match compile(&text, x64, guards, &dir).expect("clang runs") {
        Ok(s) => s,
        Err(e) => {
            ctx.class("programs clang refused");
            if std::env::var_os("VERIF_CPP").is_some() {
                eprint!("{}", e.lines().take(6).collect::<Vec<_>>().join("\n") + "\n");
            }
            return Ok(());
        }
    };
    ctx.class("programs");
    let what = "what clang emits for a declaration doesn't demangle to it";
    let mut known = BTreeSet::new();
    for (sure, s) in entities.iter().map(|s| (true, s)).chain(maybe.iter().map(|s| (false, s))) {
        let mut m = mangle(s, COMPILER, &mut Src::replay(vec![])).text;
        // the anonymous namespace of the file
        if let Some(i) = m.find("?A0x@") {
            let Some(h) = syms.iter().find_map(|t| t.find("?A0x").map(|i| t[i..].split('@').next().unwrap().to_string())) else { continue };
            let _ = i;
            m = m.replace("?A0x@", &format!("{h}@"));
        }
        if !syms.contains(&m) {
            if sure {
                ctx.class("not emitted");
                if std::env::var_os("VERIF_CPP").is_some() {
                    let k: String = m.chars().take(9).collect();
                    let near: Vec<_> = syms.iter().filter(|s| s.starts_with(&k)).take(3).collect();
                    eprint!("{}", format!("MISSING {m} {near:?}\n"));
                }
            }
            continue;
        }
        expect(ctx, what, s, &m, 0)?;
        ctx.nontrivial(&m, 0);
        ctx.class(match s {
            crate::ast::Sym::Var(..) => "variables",
            crate::ast::Sym::Fn(n, ..) => match n.leaf() {
                crate::ast::Piece::DynVar(..) | crate::ast::Piece::DynName(..) => "initializers",
                _ => "functions",
            },
            _ => "compiler-generated data",
        });
        ctx.sample(|| m.clone());
        if std::env::var_os("VERIF_CPP").is_some() {
            eprint!("{}", format!("KNOWN {m}\n"));
        }
        known.insert(m);
    }
    for (a, b, want) in &literals {
        let Some(m) = syms.iter().find(|s| s.starts_with(a.as_str()) && s.ends_with(b.as_str()) && s.len() == a.len() + b.len() + s[a.len()..].find('@').unwrap_or(0)) else {
            ctx.class("literals not emitted");
            if std::env::var_os("VERIF_CPP").is_some() {
                eprint!("{}", format!("MISSING {a}{b}\n"));
            }
            continue;
        };
        let o = ctx.sut(m, 0);
        ctx.eval();
        if o.ok() != Some(want) {
            return Err(fail(what, m, 0, format!("{want:?}"), o.describe()));
        }
        ctx.nontrivial(m, 0);
        ctx.class("literals");
        known.insert(m.clone());
    }
    // whatever else there is has to be a symbol all the same
    for s in syms.iter().filter(|s| s.starts_with('?') && !known.contains(*s)) {
        let v = crate::refdem::demangle(s, 0);
        let o = ctx.sut(s, 0);
        ctx.eval();
        if !v.allows(&o.as_result()) {
            return Err(fail(what, s, 0, v.describe(), o.describe()));
        }
        if std::env::var_os("VERIF_CPP").is_some() {
            eprint!("{}", format!("OTHER {s} {}\n", o.describe()));
        }
        ctx.class("others");
    }
    Ok(())
}
