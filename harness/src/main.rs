use veriflib::*;

#[global_allocator]
static HEAP: heap::Counting = heap::Counting;

fn tier(s: Option<&String>) -> run::Tier {
    match s.map(String::as_str) {
        Some("thorough") => run::Tier::Thorough,
        _ => run::Tier::Quick,
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(String::as_str) {
        Some("list") => {
            for c in checks::all() {
                println!("{}", c.id);
            }
            0
        }
        Some("check") => run::check(&a[2], tier(a.get(3))),
        Some("worker") => run::worker(&a[2], tier(a.get(3)), a[4].parse().unwrap(), a[5].parse().unwrap(), a[6].clone().into()),
        Some("one") => run::one(a[2].as_ref(), a[3].parse().unwrap()),
        Some("cost") => checks::cost::counted(a[2].as_ref()),
        Some("replay") => run::replay(a[2].as_ref()),
        Some("ref") => {
            let fl = a.get(3).and_then(|x| x.parse().ok()).unwrap_or(0);
            println!("ref  {}\ngot  {}\nllvm {:?}", refdem::demangle(&a[2], fl).describe(), sut::run(&a[2], fl).describe(), llvm::demangle(&a[2], 0));
            0
        }
        Some("diff" | "llvm" | "gen") => {
            dev(&a);
            0
        }
        _ => {
            eprintln!("usage: verif check ID [quick|thorough] | replay FILE | list");
            2
        }
    };
    std::process::exit(code);
}

/// Comparisons of the models with each other and with LLVM, for working on the models.
fn dev(a: &[String]) {
    if a[1] == "diff" {
        let n: u64 = a[2].parse().unwrap();
        let seed: u64 = a[3].parse().unwrap();
        std::panic::set_hook(Box::new(|_| ()));
        let corpus = mutate::corpus();
        let (mut text, mut maybe, mut rej, mut any, mut bad) = (0, 0, 0, 0, 0);
        for (i, s) in corpus.iter().enumerate() {
            for fl in [0u16, 2, 512, 1023, 256, 128, i as u16 & 1023] {
                let v = refdem::demangle(s, fl);
                let o = sut::run(s, fl);
                if !v.allows(&o.as_result()) {
                    println!("CORPUS {s} fl={fl}\n  ref {}\n  got {}", v.describe(), o.describe());
                }
            }
        }
        for i in 0..n {
            let mut r = eng::Src::random(eng::mix(seed, i));
            let s = mutate::any_string(&mut r, &corpus);
            let fl = if r.p(1, 2) { r.below(1024) as u16 } else { 0 };
            let v = refdem::demangle(&s, fl);
            match v {
                refdem::Verdict::Text(_) => text += 1,
                refdem::Verdict::Maybe(_) => maybe += 1,
                refdem::Verdict::Reject => rej += 1,
                refdem::Verdict::Any => any += 1,
            }
            let o = sut::run(&s, fl);
            if !v.allows(&o.as_result()) {
                bad += 1;
                if bad <= 15 {
                    let m = eng::shrink_string(&s, 5000, &mut |t| !refdem::demangle(t, fl).allows(&sut::run(t, fl).as_result()));
                    println!("{m} fl={fl}\n  ref {}\n  got {}", refdem::demangle(&m, fl).describe(), sut::run(&m, fl).describe());
                }
            }
        }
        println!("text {text} maybe {maybe} reject {rej} any {any} bad {bad}");
    }
    if a[1] == "llvm" {
        let n: u64 = a[2].parse().unwrap();
        let seed: u64 = a[3].parse().unwrap();
        let corpus = mutate::corpus();
        let cmp = |s: &str| -> Option<(String, String)> {
            let refdem::Verdict::Text(t) = refdem::demangle(s, 0) else { return None };
            if !llvm::comparable(s, &refdem::parse(s).unwrap().0) { return None }
            let l = llvm::demangle(s, 0);
            let l = match l { Some((l, _)) => l, None => "REJECT".into() };
            if l == t { None } else { Some((t, l)) }
        };
        let mut tot = 0; let mut bad = 0;
        for i in 0..n {
            let mut r = eng::Src::random(eng::mix(seed, i));
            let s = if (i as usize) < corpus.len() { corpus[i as usize].to_string() } else { mutate::any_string(&mut r, &corpus) };
            if matches!(refdem::demangle(&s, 0), refdem::Verdict::Text(_)) { tot += 1; }
            if let Some(_) = cmp(&s) {
                bad += 1;
                if bad > 60 { continue; }
                let m = eng::shrink_string(&s, 3000, &mut |t| cmp(t).is_some());
                let (t, l) = cmp(&m).unwrap();
                println!("{m}\n  ref  {t}\n  llvm {l}");
            }
        }
        println!("tot {tot} bad {bad}");
    }
    if a[1] == "gen" {
        let n: u64 = a[2].parse().unwrap();
        let seed: u64 = a[3].parse().unwrap();
        std::panic::set_hook(Box::new(|_| ()));
        let mut bad = 0; let mut any = 0; let (mut nr, mut pr, mut ov) = (0, 0, 0); let mut len = 0; let mut lb = 0; let mut lt = 0;
        for i in 0..n {
            let mut r = eng::Src::random(eng::mix(seed, i));
            let mut c = gen::PLAIN;
            c.fuel = 4 + r.below(40) as i32;
            c.reuse = r.below(14);
            c.ids = r.below(3) as u8;
            c.declarators = r.p(1, 3);
            c.max_params = *r.pick(&[3, 5, 14]);
            let st = mangle::Style { backrefs: *r.pick(&[mangle::Backrefs::Always, mangle::Backrefs::Random, mangle::Backrefs::Never]), canonical: r.p(1, 2) };
            let s = gen::G::new(&mut r, c).any();
            let m = mangle::mangle(&s, st, &mut r);
            nr += m.name_refs; pr += m.param_refs; ov += m.overflow; len += m.text.len();
            if i < 40 && n < 1000 { println!("{}", m.text); }
            for fl in [0, r.below(1024) as u16] {
                let want = print::print(&s, fl);
                let v = refdem::demangle(&m.text, fl);
                let o = sut::run(&m.text, fl);
                let Ok(want) = want else { any += 1; continue };
                if fl == 0 && st.canonical && st.backrefs == mangle::Backrefs::Always { if let Ok((sy, false)) = refdem::parse(&m.text) { if llvm::comparable(&m.text, &sy) { lt += 1; let l = llvm::demangle(&m.text, 0).map(|x| x.0); if l.as_deref() != Some(want.as_str()) { lb += 1; if lb < 10 { let cmp = |s: &str| -> Option<(String, String)> {
            let refdem::Verdict::Text(t) = refdem::demangle(s, 0) else { return None };
            if !llvm::comparable(s, &refdem::parse(s).unwrap().0) { return None }
            let l = llvm::demangle(s, 0);
            let l = match l { Some((l, _)) => l, None => "REJECT".into() };
            if l == t { None } else { Some((t, l)) }
        };
        let m = eng::shrink_string(&m.text, 3000, &mut |t| cmp(t).is_some());
        println!("LLVM {m} {:?}", cmp(&m)); } } } } }
                let vok = matches!(&v, refdem::Verdict::Text(t) if *t == want);
                if v == refdem::Verdict::Any { any += 1 }
                else if !vok || o.ok() != Some(&want) {
                    bad += 1;
                    if bad < 12 { println!("{} fl={fl}\n  want {want}\n  ref  {}\n  got  {}", m.text, v.describe(), o.describe()); }
                }
                if v == refdem::Verdict::Any && o.ok() != Some(&want) { println!("BAD2 {} fl={fl}\n  want {want}\n  got  {}", m.text, o.describe()); }
            }
        }
        println!("bad {bad} any {any} refs {nr} {pr} overflow {ov} avg len {} llvm {lt} bad {lb}", len as u64 / n);
    }
}
