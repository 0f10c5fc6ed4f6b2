//! Running checks: worker processes, crash attribution, shrinking, evidence.

use crate::{checks, cov};
use crate::eng::{self, hash_str, mix, Src};
use crate::sut::{self, Out};
use std::collections::{BTreeMap, HashSet};
use std::fs::{self, File};
use std::io::Write as _;
use std::os::unix::fs::FileExt as _;
use std::os::unix::process::ExitStatusExt as _;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Debug)]
pub struct Failure {
    pub what: String,
    pub input: String,
    pub flags: u16,
    pub expected: String,
    pub got: String,
}

pub struct Check {
    pub id: &'static str,
    /// how many cases
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub case: fn(&mut Src, &mut Ctx) -> Result<(), Failure>,
    pub workers: u64,
}

/// One worker's bookkeeping.
pub struct Ctx {
    pub tier: Tier,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub classes: BTreeMap<String, u64>,
    cur: Option<File>,
    /// kept from being counted while shrinking
    pub quiet: bool,
    pub scratch: PathBuf,
    pub case_no: u64,
    /// what failed is as small as it gets
    pub settled: bool,
}

const MAX_DISTINCT: usize = 4_000_000;

impl Ctx {
    pub fn new(tier: Tier, cur: Option<File>, scratch: PathBuf) -> Self {
        Ctx {
            tier,
            evals: 0,
            distinct: HashSet::new(),
            samples: vec![],
            classes: BTreeMap::new(),
            cur,
            quiet: false,
            scratch,
            case_no: 0,
            settled: false,
        }
    }

    pub fn class(&mut self, c: &str) {
        self.class_n(c, 1);
    }

    pub fn class_n(&mut self, c: &str, by: u64) {
        if self.quiet {
            return;
        }
        match self.classes.get_mut(c) {
            Some(n) => *n += by,
            None => {
                self.classes.insert(c.to_string(), by);
            }
        }
    }

    /// one more input was tried
    pub fn eval(&mut self) {
        if !self.quiet {
            self.evals += 1;
        }
    }

    /// this input was non-trivial
    pub fn nontrivial(&mut self, input: &str, extra: u64) {
        if self.quiet {
            return;
        }
        if self.distinct.len() < MAX_DISTINCT {
            self.distinct.insert(hash_str(input, extra));
        }
    }

    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.quiet {
            return;
        }
        // spread over the run: at powers of two
        let n = self.evals;
        if self.samples.len() < 12 && (n.is_power_of_two() || n % 5000 == 1) {
            let mut s = f();
            if s.len() > 600 {
                let mut i = 600;
                while !s.is_char_boundary(i) {
                    i -= 1;
                }
                s.truncate(i);
                s.push('…');
            }
            self.samples.push(s);
        }
    }

    /// leaves a note for the coordinator in case the process dies
    pub fn about_to(&mut self, s: &str, fl: u16) {
        if let Some(f) = &self.cur {
            let n = s.len().min(1 << 20);
            let mut b = Vec::with_capacity(n + 16);
            b.extend_from_slice(&1u32.to_le_bytes());
            b.extend_from_slice(&u32::from(fl).to_le_bytes());
            b.extend_from_slice(&(n as u64).to_le_bytes());
            b.extend_from_slice(&s.as_bytes()[..n]);
            let _ = f.write_at(&b, 0);
        }
    }

    pub fn done(&mut self) {
        if let Some(f) = &self.cur {
            let _ = f.write_at(&0u32.to_le_bytes(), 0);
        }
    }

    /// calls the code under test
    pub fn sut(&mut self, s: &str, fl: u16) -> Out {
        self.about_to(s, fl);
        let o = sut::run(s, fl);
        self.done();
        o
    }
}

pub fn fail(what: &str, input: &str, flags: u16, expected: String, got: String) -> Failure {
    Failure { what: what.into(), input: input.into(), flags, expected, got }
}

pub fn verif_dir() -> PathBuf {
    if let Some(d) = std::env::var_os("VERIF_DIR") {
        return d.into();
    }
    // the harness lives in <verif>/harness
    Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf()
}

pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).unwrap_or(1) as u64
}

fn case_seed(seed: u64, id: &str, i: u64) -> u64 {
    mix(mix(seed, hash_str(id, 0)), i)
}

// ---- worker

/// Where the worker leaves what it counted.
fn write_worker_result(path: &Path, ctx: &Ctx, failure: Option<(&Failure, &[u64])>) {
    let mut out = String::new();
    out.push_str(&format!("evals {}\n", ctx.evals));
    for (k, v) in &ctx.classes {
        out.push_str(&format!("class {v} {k}\n"));
    }
    for s in &ctx.samples {
        out.push_str(&format!("sample {}\n", esc(s)));
    }
    if let Some((f, choices)) = failure {
        out.push_str(&format!("failure {}\n", replay_fields(f)));
        out.push_str(&format!("choices {}\n", choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(" ")));
    }
    fs::write(path.with_extension("txt"), out).unwrap();
    let mut bytes = Vec::with_capacity(ctx.distinct.len() * 8);
    for h in &ctx.distinct {
        bytes.extend_from_slice(&h.to_le_bytes());
    }
    fs::write(path.with_extension("hash"), bytes).unwrap();
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t").replace('\r', "\\r")
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some('r') => o.push('\r'),
                Some(c) => o.push(c),
                None => (),
            }
        } else {
            o.push(c);
        }
    }
    o
}
fn replay_fields(f: &Failure) -> String {
    [&f.what, &f.input, &f.flags.to_string(), &f.expected, &f.got].map(|s| esc(s)).join("\t")
}
fn parse_fields(s: &str) -> Failure {
    let v: Vec<String> = s.split('\t').map(unesc).collect();
    Failure {
        what: v[0].clone(),
        input: v[1].clone(),
        flags: v[2].parse().unwrap(),
        expected: v[3].clone(),
        got: v[4].clone(),
    }
}

/// Runs `f` on a thread with the stack Rust gives to threads by default.
pub fn on_small_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> std::thread::Result<T> {
    std::thread::Builder::new().stack_size(2 << 20).spawn(f).unwrap().join()
}

fn guarded(check: &Check, r: &mut Src, ctx: &mut Ctx) -> Result<(), Failure> {
    // panics of the code under test are caught next to the call: whatever arrives here is ours
    (check.case)(r, ctx)
}

pub fn worker(id: &str, tier: Tier, k: u64, n: u64, base: PathBuf) -> i32 {
    let id = id.to_string();
    std::panic::set_hook(Box::new(|i| {
        if std::env::var_os("VERIF_PANICS").is_some() {
            eprintln!("{i}");
        }
    }));
    on_small_stack(move || {
        let check = checks::find(&id).unwrap();
        let cur = File::create(base.with_extension("cur")).unwrap();
        let scratch = base.with_extension("d");
        fs::create_dir_all(&scratch).unwrap();
        let mut ctx = Ctx::new(tier, Some(cur), scratch.clone());
        let total = match tier {
            Tier::Quick => check.quick,
            Tier::Thorough => check.thorough,
        };
        let number = |name| std::env::var(name).ok().and_then(|s| s.parse::<u64>().ok());
        let total = number("VERIF_CASES").unwrap_or(total) * number("VERIF_PERCENT").unwrap_or(100) / 100;
        // these are slower
        let total = if cov::ON { total / 4 } else { total };
        // however slow what's tested is, there has to be an answer in time
        let limit = Duration::from_secs(if tier == Tier::Quick { 420 } else { 780 });
        let begun = Instant::now();
        let mut pool = eng::Pool::default();
        let guided = number("VERIF_GUIDED").unwrap_or(50);
        let mut i = k;
        while i < total {
            if begun.elapsed() > limit {
                ctx.class("workers that ran out of time");
                break;
            }
            ctx.case_no = i;
            let seed = case_seed(seed(), check.id, i);
            let mut r = Src::random(seed);
            // follow what reached something new, now and then
            if cov::ON {
                let mut rng = eng::Rng::new(!seed);
                if rng.next() % 100 < guided && !pool.is_empty() {
                    r = Src::after(pool.mutant(&mut rng, &cov::constants()), seed);
                    ctx.class("guided by coverage");
                }
                cov::reset();
            }
            let result = guarded(check, &mut r, &mut ctx);
            if cov::ON && cov::fresh() {
                if r.rec.len() <= 400 {
                    pool.add(r.rec.clone());
                }
                ctx.class("reached something new");
            }
            if let Err(f) = result {
                // shrink
                ctx.quiet = true;
                let mut best_f = f;
                if ctx.settled {
                    write_worker_result(&base, &ctx, Some((&best_f, &r.rec)));
                    let _ = fs::remove_dir_all(&scratch);
                    return 1;
                }
                let start = Instant::now();
                let what = best_f.what.clone();
                let mut last: Option<Failure> = None;
                let choices = eng::shrink_choices(r.rec.clone(), 4000, &mut |c| {
                    if start.elapsed() > Duration::from_secs(40) {
                        return false;
                    }
                    let mut r = Src::replay(c.to_vec());
                    match guarded(check, &mut r, &mut ctx) {
                        Err(f) if f.what == what => {
                            last = Some(f);
                            true
                        }
                        _ => false,
                    }
                });
                if let Some(f) = last {
                    best_f = f;
                }
                write_worker_result(&base, &ctx, Some((&best_f, &choices)));
                let _ = fs::remove_dir_all(&scratch);
                return 1;
            }
            i += n;
        }
        write_worker_result(&base, &ctx, None);
        let _ = fs::remove_dir_all(&scratch);
        0
    })
    .unwrap_or(3)
}

/// One call of the code under test, in this process, on a small stack. Exit 0: returned.
pub fn one(path: &Path, fl: u16) -> i32 {
    let b = fs::read(path).unwrap();
    let s = String::from_utf8(b).unwrap();
    let r = on_small_stack(move || {
        let o = sut::run(&s, fl);
        println!("{}", o.describe());
        matches!(o, Out::Panic(_))
    });
    match r {
        Ok(false) => 0,
        _ => 7,
    }
}

/// How a call in a process of its own ends.
#[derive(Debug, PartialEq, Eq, Clone)]
pub enum End {
    Fine(String),
    Panicked(String),
    Died(i32),
    TookTooLong,
}

/// CPU time after which a single call is considered not to return
pub const CPU_LIMIT: u64 = 20;

pub fn in_own_process(s: &str, fl: u16, dir: &Path) -> End {
    in_process(s, fl, dir, None)
}

/// with another environment and directory, if any are given
pub fn in_process(s: &str, fl: u16, dir: &Path, surroundings: Option<(&[(&str, &str)], &Path)>) -> End {
    let f = dir.join(format!("one-{}.txt", std::process::id()));
    fs::write(&f, s).unwrap();
    let exe = std::env::current_exe().unwrap();
    // the limit is on CPU time, so that a busy machine makes no difference
    let mut c = Command::new("/bin/sh");
    if let Some((vars, cwd)) = surroundings {
        c.env_clear().envs(vars.iter().copied()).current_dir(cwd);
    }
    let out = c
        .arg("-c")
        .arg(format!("ulimit -t {CPU_LIMIT}; ulimit -c 0; exec \"$0\" one \"$1\" {fl}"))
        .arg(&exe)
        .arg(&f)
        .stdin(Stdio::null())
        .stderr(Stdio::null())
        .output()
        .unwrap();
    let _ = fs::remove_file(&f);
    let text = String::from_utf8_lossy(&out.stdout).trim_end().to_string();
    match (out.status.code(), out.status.signal()) {
        (Some(0), _) => End::Fine(text),
        (Some(7), _) => End::Panicked(text),
        (_, Some(24 | 9)) => End::TookTooLong,
        (_, Some(s)) => End::Died(s),
        (c, None) => End::Died(c.unwrap_or(-1)),
    }
}

// ---- coordinator

struct Merged {
    evals: u64,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    classes: BTreeMap<String, u64>,
    failures: Vec<(Failure, Vec<u64>)>,
}

fn merge(m: &mut Merged, base: &Path) {
    if let Ok(t) = fs::read_to_string(base.with_extension("txt")) {
        let mut pending: Option<Failure> = None;
        for l in t.lines() {
            if let Some(x) = l.strip_prefix("evals ") {
                m.evals += x.parse::<u64>().unwrap();
            } else if let Some(x) = l.strip_prefix("class ") {
                let (n, k) = x.split_once(' ').unwrap();
                *m.classes.entry(k.to_string()).or_default() += n.parse::<u64>().unwrap();
            } else if let Some(x) = l.strip_prefix("sample ") {
                m.samples.push(unesc(x));
            } else if let Some(x) = l.strip_prefix("failure ") {
                pending = Some(parse_fields(x));
            } else if let Some(x) = l.strip_prefix("choices ") {
                let c = x.split_whitespace().map(|c| c.parse().unwrap()).collect();
                m.failures.push((pending.take().unwrap(), c));
            } else if l == "choices" {
                m.failures.push((pending.take().unwrap(), vec![]));
            }
        }
    }
    if let Ok(b) = fs::read(base.with_extension("hash")) {
        for c in b.chunks_exact(8) {
            m.distinct.insert(u64::from_le_bytes(c.try_into().unwrap()));
        }
    }
}

fn read_cur(base: &Path) -> Option<(String, u16)> {
    let b = fs::read(base.with_extension("cur")).ok()?;
    if b.len() < 16 || u32::from_le_bytes(b[0..4].try_into().ok()?) != 1 {
        return None;
    }
    let fl = u32::from_le_bytes(b[4..8].try_into().ok()?) as u16;
    let n = u64::from_le_bytes(b[8..16].try_into().ok()?) as usize;
    let s = String::from_utf8(b.get(16..16 + n)?.to_vec()).ok()?;
    Some((s, fl))
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn write_evidence(check: &Check, tier: Tier, m: &Merged, wall: f64, violations: usize) {
    let t = if tier == Tier::Quick { "quick" } else { "thorough" };
    let mut samples = m.samples.clone();
    samples.truncate(24);
    let classes: Vec<String> = m.classes.iter().map(|(k, v)| format!("{}: {v}", json_str(k))).collect();
    let s = format!(
        "{{\n \"property\": {},\n \"tier\": \"{t}\",\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"classes\": {{{}}},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {wall:.2},\n \"violations\": {violations}\n}}\n",
        json_str(check.id),
        seed() as i64,
        m.evals,
        m.distinct.len(),
        json_str(check.rule),
        classes.join(", "),
        samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "),
        check.assumptions.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "),
    );
    let dir = verif_dir().join("evidence");
    fs::create_dir_all(&dir).unwrap();
    fs::write(dir.join(format!("{}.json", check.id)), s).unwrap();
}

fn write_replay(check: &Check, kind: &str, f: &Failure, choices: Option<&[u64]>, k: usize) -> PathBuf {
    let dir = verif_dir().join("replays");
    fs::create_dir_all(&dir).unwrap();
    let p = dir.join(format!("{}-{}-{k}.replay", check.id, seed()));
    let mut s = String::new();
    s.push_str(&format!("property {}\nkind {kind}\n", check.id));
    s.push_str(&format!("what {}\n", esc(&f.what)));
    s.push_str(&format!("input {}\nflags {}\n", esc(&f.input), f.flags));
    s.push_str(&format!("expected {}\ngot {}\n", esc(&f.expected), esc(&f.got)));
    if let Some(c) = choices {
        s.push_str(&format!("choices {}\n", c.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(" ")));
    }
    fs::write(&p, s).unwrap();
    p
}

pub fn replay(path: &Path) -> i32 {
    let t = fs::read_to_string(path).unwrap();
    let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(&format!("{k} ")).map(unesc)).unwrap_or_default();
    let id = get("property");
    let fl: u16 = get("flags").parse().unwrap_or(0);
    let check = checks::find(&id).expect("a known property");
    let scratch = std::env::temp_dir().join(format!("verif-replay-{}", std::process::id()));
    fs::create_dir_all(&scratch).unwrap();
    let code = if get("kind") == "crash" {
        let e = in_own_process(&get("input"), fl, &scratch);
        println!("{e:?}");
        i32::from(!matches!(e, End::Fine(_)))
    } else {
        let choices: Vec<u64> = get("choices").split_whitespace().map(|c| c.parse().unwrap()).collect();
        let sc = scratch.clone();
        let r = on_small_stack(move || {
            let mut ctx = Ctx::new(Tier::Quick, None, sc);
            guarded(check, &mut Src::replay(choices), &mut ctx)
        });
        match r {
            Ok(Ok(())) => 0,
            Ok(Err(f)) => {
                println!("{}\n  input    {}\n  flags    {}\n  expected {}\n  got      {}", f.what, f.input, f.flags, f.expected, f.got);
                1
            }
            Err(_) => 3,
        }
    };
    let _ = fs::remove_dir_all(&scratch);
    if code == 1 {
        println!("VIOLATION property={id} replay={}", path.display());
    }
    code
}

pub fn check(id: &str, tier: Tier) -> i32 {
    let Some(check) = checks::find(id) else {
        eprintln!("no such property: {id}");
        return 2;
    };
    let start = Instant::now();
    let work = std::env::temp_dir().join(format!("verif-{id}-{}", std::process::id()));
    fs::create_dir_all(&work).unwrap();
    let exe = std::env::current_exe().unwrap();
    let n = check.workers;
    let tier_s = if tier == Tier::Quick { "quick" } else { "thorough" };
    // no check may use more than this; reaching it is a failure to answer
    let deadline = Duration::from_secs(if tier == Tier::Quick { 780 } else { 880 });
    let mut kids = Vec::new();
    // some follow what reaches something new, in a build which tells that (see check.sh)
    let guided = std::env::var_os("VERIF_GUIDED_EXE");
    for k in 0..n {
        let base = work.join(format!("w{k}"));
        let exe = match &guided {
            Some(g) if k + 2 >= n => Path::new(g),
            _ => &exe,
        };
        let child = Command::new(exe)
            .args(["worker", id, tier_s, &k.to_string(), &n.to_string()])
            .arg(&base)
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .spawn()
            .unwrap();
        kids.push((base, child, None, None::<(Vec<u8>, f64)>));
    }
    let mut error = None;
    let mut crashed: Vec<(String, u16)> = Vec::new();
    // a worker which doesn't get past one call is stopped and looked into
    let stuck_after = CPU_LIMIT as f64;
    loop {
        let mut running = false;
        for (base, child, status, seen) in &mut kids {
            if status.is_some() {
                continue;
            }
            if let Some(s) = child.try_wait().unwrap() {
                *status = Some(s);
                continue;
            }
            running = true;
            let cpu = cpu_time(child.id());
            let head = fs::read(base.with_extension("cur")).unwrap_or_default();
            let busy = head.len() >= 16 && head[0] == 1;
            match seen {
                Some((h, t)) if busy && *h == head => {
                    if cpu - *t > stuck_after {
                        let _ = child.kill();
                    }
                }
                _ => *seen = Some((head, cpu)),
            }
        }
        if !running {
            break;
        }
        if start.elapsed() > deadline {
            error = Some("ran out of time".to_string());
            for (_, c, s, _) in &mut kids {
                if s.is_none() {
                    let _ = c.kill();
                    let _ = c.wait();
                }
            }
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    let mut m = Merged { evals: 0, distinct: HashSet::new(), samples: vec![], classes: BTreeMap::new(), failures: vec![] };
    for (base, _, status, _) in &kids {
        merge(&mut m, base);
        let Some(st) = status else { continue };
        match st.code() {
            Some(0 | 1) => (),
            _ => match read_cur(base) {
                Some(c) => crashed.push(c),
                None => error = Some(format!("a worker ended with {st} outside of the code under test")),
            },
        }
    }
    let mut reports: Vec<(String, PathBuf)> = Vec::new();
    let mut k = 0;
    for (s, fl) in crashed.into_iter().take(2) {
        let end = in_own_process(&s, fl, &work);
        if matches!(end, End::Fine(_)) {
            error = Some(format!("a worker died in a call that's fine on its own: {s:?} flags {fl}"));
            continue;
        }
        let t0 = Instant::now();
        let budget = if end == End::TookTooLong { 3 } else { 300 };
        let small = eng::shrink_string(&s, budget, &mut |t| {
            t0.elapsed() < Duration::from_secs(90) && in_own_process(t, fl, &work) == end
        });
        let f = fail(
            "the call doesn't return",
            &small,
            fl,
            "a text or an error".into(),
            format!("{end:?}"),
        );
        let p = write_replay(check, "crash", &f, None, k);
        k += 1;
        reports.push((format!("{}: input {:?} flags {}: {}", f.what, clip(&f.input), fl, f.got), p));
    }
    m.failures.sort_by_key(|(f, c)| (c.len(), f.input.len()));
    for (f, c) in m.failures.iter().take(3) {
        let p = write_replay(check, "choices", f, Some(c), k);
        k += 1;
        reports.push((
            format!(
                "{}\n  input    {}\n  flags    {}\n  expected {}\n  got      {}",
                f.what,
                clip(&f.input),
                f.flags,
                clip(&f.expected),
                clip(&f.got)
            ),
            p,
        ));
    }
    let _ = fs::remove_dir_all(&work);
    let wall = start.elapsed().as_secs_f64();
    write_evidence(check, tier, &m, wall, reports.len());
    println!(
        "{id} {tier_s}: {} evaluations, {} distinct non-trivial, {wall:.1} s",
        m.evals,
        m.distinct.len()
    );
    if !reports.is_empty() {
        for (t, _) in &reports {
            println!("{t}");
        }
        println!("VIOLATION property={id} replay={}", reports[0].1.display());
        return 1;
    }
    if let Some(e) = error {
        eprintln!("{id}: {e}");
        return 2;
    }
    // a check which looked at nothing decided nothing
    if m.distinct.is_empty() {
        eprintln!("{id}: no non-trivial cases");
        return 2;
    }
    0
}

fn clip(s: &str) -> String {
    if s.len() <= 1500 {
        return s.to_string();
    }
    let mut i = 1500;
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    format!("{}… ({} bytes)", &s[..i], s.len())
}

/// seconds of CPU time used by one of our own children
fn cpu_time(pid: u32) -> f64 {
    let Ok(s) = fs::read_to_string(format!("/proc/{pid}/stat")) else { return 0.0 };
    let Some((_, rest)) = s.rsplit_once(')') else { return 0.0 };
    let f: Vec<&str> = rest.split_whitespace().collect();
    let ticks = |i: usize| f.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (ticks(11) + ticks(12)) / 100.0
}

pub fn flush() {
    let _ = std::io::stdout().flush();
}
