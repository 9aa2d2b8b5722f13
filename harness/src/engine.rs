//! Choice-sequence property engine: generation, sharding over processes, shrinking, replay,
//! evidence.  A case is a function that draws every decision from `simrt::choose`; the sequence of
//! drawn numbers *is* the case, so shrinking edits that sequence and a replay file stores it.
use simrt::choice::{self, mix, Source};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- allocator
pub struct Counting;
thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static BIGGEST: Cell<usize> = const { Cell::new(0) };
}
/// One allocation larger than this fails (so `try_reserve` reports it); nothing generated needs it.
const MAX_ONE: usize = 1 << 30;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > MAX_ONE {
            return std::ptr::null_mut();
        }
        let p = System.alloc(l);
        if !p.is_null() {
            add(l.size() as isize);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        add(-(l.size() as isize));
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > MAX_ONE {
            return std::ptr::null_mut();
        }
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            add(n as isize - l.size() as isize);
        }
        q
    }
}
fn add(n: isize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
    if n > 0 {
        let _ = BIGGEST.try_with(|b| {
            if n as usize > b.get() {
                b.set(n as usize)
            }
        });
    }
}
/// Bytes allocated by this thread and not freed.
pub fn live_bytes() -> isize {
    LIVE.with(|l| l.get())
}
pub fn reset_peak() {
    PEAK.with(|p| p.set(live_bytes()));
    BIGGEST.with(|b| b.set(0));
}
pub fn peak_bytes() -> isize {
    PEAK.with(|p| p.get())
}

// ---------------------------------------------------------------- case state
#[derive(Debug, Clone)]
pub struct Fail {
    pub sig: String,
    pub msg: String,
}
pub type CaseResult = Result<(), Fail>;
pub fn failure(sig: &str, msg: String) -> Fail {
    Fail { sig: sig.to_string(), msg }
}
#[macro_export]
macro_rules! fail {
    ($sig:expr, $($a:tt)*) => { return Err($crate::engine::failure($sig, format!($($a)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($a:tt)*) => { if !($c) { $crate::fail!($sig, $($a)*) } };
}

#[derive(Default)]
struct CaseState {
    labels: Vec<&'static str>,
    nontrivial: bool,
    tracing: bool,
    trace: Vec<String>,
}
thread_local! {
    static CASE: RefCell<CaseState> = RefCell::new(CaseState::default());
}
/// Count a class of cases.
pub fn label(l: &'static str) {
    CASE.with(|c| {
        let mut c = c.borrow_mut();
        if !c.labels.contains(&l) {
            c.labels.push(l)
        }
    })
}
pub fn nontrivial() {
    CASE.with(|c| c.borrow_mut().nontrivial = true)
}
/// Add a line to the human-readable trace of the case.
pub fn note(f: impl FnOnce() -> String) {
    let on = CASE.with(|c| c.borrow().tracing);
    if on {
        let s = f();
        CASE.with(|c| c.borrow_mut().trace.push(s));
    }
}
pub fn show(b: &[u8]) -> String {
    let mut s = String::from("b\"");
    for &c in b.iter().take(48) {
        for e in std::ascii::escape_default(c) {
            s.push(e as char);
        }
    }
    s.push('"');
    if b.len() > 48 {
        let _ = write!(s, "..({} bytes)", b.len());
    }
    s
}

// ---------------------------------------------------------------- generator helpers
pub use simrt::choice::{chance, choose};
pub fn range(lo: u64, hi: u64) -> u64 {
    lo + choose(hi - lo + 1)
}
/// 0..n in any order
pub fn shuffled(n: u64) -> Vec<u64> {
    let mut v: Vec<u64> = (0..n).collect();
    for i in 1..v.len() {
        let j = choose(i as u64 + 1) as usize;
        v.swap(i, i - j);
    }
    v
}
pub fn pick<T: Clone>(v: &[T]) -> T {
    v[choose(v.len() as u64) as usize].clone()
}
/// weighted index
pub fn weighted(w: &[u64]) -> usize {
    let tot: u64 = w.iter().sum();
    let mut x = choose(tot);
    for (i, k) in w.iter().enumerate() {
        if x < *k {
            return i;
        }
        x -= k;
    }
    w.len() - 1
}
pub fn bytes(n: usize) -> Vec<u8> {
    (0..n).map(|_| choose(256) as u8).collect()
}
/// 32 bits, often a value where something may wrap, truncate or mean something else
pub fn word() -> u32 {
    if chance(1, 3) {
        pick(&[0u32, 1, 2, 3, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x1_0000, 0x1_0001, 0x7fff_ffff, 0x8000_0000, 0xffff_0000, 0xffff_fefe, 0xffff_ff00, 0xffff_fffe, 0xffff_ffff])
    } else {
        choose(1 << 32) as u32
    }
}
/// a length that is often small and sometimes near a boundary
pub fn size(max: u64, edges: &[u64]) -> u64 {
    match weighted(&[6, 2, 2]) {
        0 => choose(max.min(12) + 1),
        1 if !edges.is_empty() => {
            let e = pick(edges);
            let d = choose(3);
            match d {
                0 => e,
                1 => e.saturating_sub(1),
                _ => e + 1,
            }
            .min(max)
        }
        _ => choose(max + 1),
    }
}

// ---------------------------------------------------------------- properties
pub struct Part {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: fn() -> CaseResult,
}
pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub parts: Vec<Part>,
}

struct Outcome {
    res: Result<(), Fail>,
    harness_error: Option<String>,
    rec: Vec<u64>,
    labels: Vec<&'static str>,
    nontrivial: bool,
    trace: Vec<String>,
}

fn run_case(run: fn() -> CaseResult, src: Source, tracing: bool) -> Outcome {
    // A fresh thread per case: no thread-local state survives from one case to the next.
    std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            choice::install(src);
            CASE.with(|c| *c.borrow_mut() = CaseState { tracing, ..Default::default() });
            let r = std::panic::catch_unwind(run);
            let mut harness_error = None;
            let mut res = match r {
                Ok(r) => r,
                Err(p) => {
                    let m = simrt::exec::take_panic(p);
                    if m.contains(" at src/") || m.contains("simrt/src") {
                        harness_error = Some(m.clone());
                    }
                    Err(failure("panic", format!("panic in the code under test: {m}")))
                }
            };
            let panics = simrt::exec::try_with(|w| {
                let mut p = w.panics.clone();
                p.extend(w.stuck.clone());
                p
            })
            .unwrap_or_default();
            for m in &panics {
                if m.contains(" at src/") || m.contains(" at simrt/src") {
                    harness_error = Some(m.clone());
                }
            }
            if !panics.is_empty() {
                let t = panics.join("; ");
                res = match res {
                    Ok(()) => Err(failure("panic", format!("panic in the code under test: {t}"))),
                    Err(f) => Err(failure(&f.sig, format!("{} [also: panic in the code under test: {t}]", f.msg))),
                };
            }
            let cleanup = std::panic::catch_unwind(simrt::exec::reset);
            if cleanup.is_err() && res.is_ok() {
                res = Err(failure("panic", "panic while dropping server state".into()));
            }
            let s = choice::take().unwrap();
            let cs = CASE.with(|c| std::mem::take(&mut *c.borrow_mut()));
            Outcome { res, harness_error, rec: s.rec, labels: cs.labels, nontrivial: cs.nontrivial, trace: cs.trace }
        })
        .unwrap()
        .join()
        .unwrap_or_else(|_| Outcome {
            res: Ok(()),
            harness_error: Some("case thread died".into()),
            rec: vec![],
            labels: vec![],
            nontrivial: false,
            trace: vec![],
        })
}

/// Where the worker currently is; the parent reads it when a worker dies or stops.
static PROGRESS: std::sync::Mutex<Option<(std::fs::File, u64, String)>> = std::sync::Mutex::new(None);
fn progress(part: &str, idx: u64) {
    if let Some((_, _, at)) = PROGRESS.lock().unwrap().as_mut() {
        *at = format!("{part} {idx}");
    }
    alive();
}
/// Also for long cases: the code under test has returned.
pub fn alive() {
    use std::os::unix::fs::FileExt;
    if let Some((f, n, at)) = PROGRESS.lock().unwrap().as_mut() {
        *n += 1;
        let _ = f.write_all_at(format!("{at} {n:<20}\n").as_bytes(), 0);
    }
}

fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}
fn hash_rec(part: &str, r: &[u64]) -> u64 {
    let mut h = fnv(part);
    for &x in r {
        h = mix(h, x);
    }
    h
}

/// Try up to `n` times (the only thing outside the recorded choices is the coin of
/// `futures::select!`, which differs from run to run).
fn fails(run: fn() -> CaseResult, v: &[u64], sig: &str, n: u32) -> Option<(Fail, Vec<u64>)> {
    for _ in 0..n {
        progress("-", 0);
        let o = run_case(run, Source::replay(v.to_vec()), false);
        if o.harness_error.is_some() {
            return None;
        }
        if let Err(f) = o.res {
            if f.sig == sig {
                return Some((f, o.rec));
            }
        }
    }
    None
}
fn shrink(run: fn() -> CaseResult, rec: Vec<u64>, f: Fail) -> (Vec<u64>, Fail) {
    let mut best = rec;
    let mut bf = f;
    let mut budget = 1500i64;
    let t0 = Instant::now();
    let sig = bf.sig.clone();
    loop {
        let mut improved = false;
        // remove blocks
        let mut sz = (best.len() / 2).max(1);
        while sz >= 1 {
            let mut i = 0;
            while i < best.len() && budget > 0 && t0.elapsed() < Duration::from_secs(60) {
                let mut c = best.clone();
                let e = (i + sz).min(c.len());
                c.drain(i..e);
                budget -= 1;
                match fails(run, &c, &sig, 2) {
                    Some((f2, r2)) if r2.len() < best.len() || (r2.len() == best.len() && r2 < best) => {
                        best = r2;
                        bf = f2;
                        improved = true;
                    }
                    _ => i += sz,
                }
            }
            if sz == 1 {
                break;
            }
            sz /= 2;
        }
        // simplify values
        let mut i = 0;
        while i < best.len() && budget > 0 && t0.elapsed() < Duration::from_secs(60) {
            if best[i] != 0 {
                for cand in [0, best[i] / 2, best[i] - 1] {
                    if cand >= best[i] {
                        continue;
                    }
                    let mut c = best.clone();
                    c[i] = cand;
                    budget -= 1;
                    if let Some((f2, r2)) = fails(run, &c, &sig, 2) {
                        if r2.len() < best.len() || (r2.len() == best.len() && r2 < best) {
                            best = r2;
                            bf = f2;
                            improved = true;
                            break;
                        }
                    }
                }
            }
            i += 1;
        }
        if !improved || budget <= 0 {
            break;
        }
    }
    (best, bf)
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n")
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c)
        }
    }
    o
}
fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Known {
    pub property: String,
    pub sig: String,
    pub text: String,
}
/// Lines `KNOWN-FINDING property=<id> sig=<sig> <text>`; everything else in the file is prose.
fn known(root: &Path, id: &str) -> Vec<Known> {
    let t = std::fs::read_to_string(root.join("known_findings.txt")).unwrap_or_default();
    t.lines()
        .filter_map(|l| {
            let r = l.strip_prefix("KNOWN-FINDING property=")?;
            let (p, r) = r.split_once(' ')?;
            let (s, text) = r.strip_prefix("sig=")?.split_once(' ')?;
            Some(Known { property: p.into(), sig: s.into(), text: text.into() })
        })
        .filter(|k| k.property == id)
        .collect()
}

// ---------------------------------------------------------------- worker
struct SinkLog;
impl log::Log for SinkLog {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        thread_local!(static BUF: RefCell<String> = const { RefCell::new(String::new()) });
        BUF.with(|b| {
            if let Ok(mut b) = b.try_borrow_mut() {
                b.clear();
                let _ = write!(b, "{}", r.args());
            }
        })
    }
    fn flush(&self) {}
}
static SINK: SinkLog = SinkLog;

fn worker(p: &Prop, tier: &str, seed: u64, shard: u64, shards: u64, out: &Path, root: &Path) -> i32 {
    simrt::exec::install_panic_hook();
    if shard % 4 == 3 {
        // some shards run with every log statement evaluated
        let _ = log::set_logger(&SINK);
        log::set_max_level(log::LevelFilter::Trace);
    }
    *PROGRESS.lock().unwrap() = std::fs::File::create(out.with_extension("p")).ok().map(|f| (f, 0, String::new()));
    let kn = known(root, p.id);
    let mut o = String::new();
    // a tree that makes every case slow gets fewer cases, and an answer
    let t0 = Instant::now();
    let budget = Duration::from_secs(if tier == "thorough" { 5 * 3600 } else { 420 });
    for part in &p.parts {
        let n = if tier == "thorough" { part.thorough } else { part.quick };
        let base = mix(seed, fnv(&format!("{}/{}", p.id, part.name)));
        let mut labels: BTreeMap<&str, u64> = BTreeMap::new();
        let mut hashes: HashSet<u64> = HashSet::new();
        let mut knownhits: BTreeMap<String, u64> = BTreeMap::new();
        let (mut evals, mut samples) = (0u64, 0);
        let mut viol = None;
        let mut idx = shard;
        while idx < n && t0.elapsed() < budget {
            progress(part.name, idx);
            let r = run_case(part.run, Source::gen(mix(base, idx)), false);
            evals += 1;
            if let Some(e) = r.harness_error {
                eprintln!("harness error in {}/{} case {idx}: {e}", p.id, part.name);
                return 3;
            }
            for l in &r.labels {
                *labels.entry(l).or_default() += 1;
            }
            if r.nontrivial {
                let fresh = hashes.insert(hash_rec(part.name, &r.rec));
                if fresh && shard == 0 && samples < 2 && r.res.is_ok() {
                    let t = run_case(part.run, Source::replay(r.rec.clone()), true);
                    if t.nontrivial && !t.trace.is_empty() {
                        samples += 1;
                        let mut s = format!("[{} case {idx}] ", part.name);
                        for l in t.trace.iter().take(40) {
                            s.push_str(l);
                            s.push_str("; ");
                            if s.len() > 1800 {
                                break;
                            }
                        }
                        let _ = writeln!(o, "S {}", esc(&s));
                    }
                }
            }
            if let Err(f) = r.res {
                if let Some(k) = kn.iter().find(|k| k.sig == f.sig) {
                    *knownhits.entry(k.sig.clone()).or_default() += 1;
                } else {
                    viol = Some((idx, f, r.rec));
                    break;
                }
            }
            idx += shards;
        }
        let _ = writeln!(o, "E {} {evals}", part.name);
        for (l, c) in labels {
            let _ = writeln!(o, "L {}:{l} {c}", part.name);
        }
        for h in hashes {
            let _ = writeln!(o, "H {h:x}");
        }
        for (s, c) in knownhits {
            let _ = writeln!(o, "K {s} {c}");
        }
        if let Some((idx, f, rec)) = viol {
            let v: Vec<String> = rec.iter().map(|x| x.to_string()).collect();
            // in case the worker is lost while shrinking
            let _ = std::fs::write(out, format!("{o}V {idx}\t{}\t{}\t{}\t{}\t\nDONE\n", part.name, esc(&f.sig), esc(&f.msg), v.join(",")));
            let (rec, f) = shrink(part.run, rec, f);
            let mut t = run_case(part.run, Source::replay(rec.clone()), true);
            for _ in 0..20 {
                if t.res.is_err() {
                    break;
                }
                t = run_case(part.run, Source::replay(rec.clone()), true);
            }
            let v: Vec<String> = rec.iter().map(|x| x.to_string()).collect();
            let _ = writeln!(o, "V {idx}\t{}\t{}\t{}\t{}\t{}", part.name, esc(&f.sig), esc(&f.msg), v.join(","), esc(&t.trace.join("\n")));
            break;
        }
    }
    let _ = writeln!(o, "DONE");
    std::fs::write(out, o).is_err() as i32 * 3
}

// ---------------------------------------------------------------- parent
const HANG: Duration = Duration::from_secs(60);
fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|s| s.trim().parse().ok()).unwrap_or(d)
}

pub fn main(props: Vec<Prop>) -> i32 {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
    let Some(p) = args.first().and_then(|id| props.iter().find(|p| p.id == id)) else {
        eprintln!("no such property: {args:?}");
        return 2;
    };
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let tier = if tier == "thorough" { "thorough" } else { "quick" };
    let seed = env_u64("VERIF_SEED", 1);
    match args.get(1).map(|s| s.as_str()) {
        Some("--shard") => {
            let i: u64 = args[2].parse().unwrap();
            let n: u64 = args[3].parse().unwrap();
            return worker(p, tier, seed, i, n, Path::new(&args[4]), &root);
        }
        Some("--replay") => return replay(p, &args[2]),
        Some("--case") => {
            simrt::exec::install_panic_hook();
            let part = p.parts.iter().find(|x| x.name == args[2]).unwrap();
            let idx: u64 = args[3].parse().unwrap();
            let base = mix(seed, fnv(&format!("{}/{}", p.id, part.name)));
            let r = run_case(part.run, Source::gen(mix(base, idx)), true);
            for l in r.trace {
                println!("  {l}");
            }
            println!("{:?} nontrivial={} labels={:?} {:?} choices={}", r.res, r.nontrivial, r.labels, r.harness_error, r.rec.len());
            return 0;
        }
        _ => {}
    }
    let t0 = Instant::now();
    let shards = env_u64("VERIF_SHARDS", 8);
    let dir = std::env::temp_dir().join(format!("lxi-verif-{}-{}", p.id, std::process::id()));
    if std::fs::create_dir_all(&dir).is_err() {
        eprintln!("cannot create {dir:?}");
        return 2;
    }
    let me = std::env::current_exe().unwrap();
    let mut kids: Vec<_> = (0..shards)
        .map(|i| {
            Command::new(&me)
                .args([p.id, "--shard", &i.to_string(), &shards.to_string(), dir.join(format!("s{i}")).to_str().unwrap()])
                .stdin(Stdio::null())
                .spawn()
                .expect("spawn worker")
        })
        .collect();
    let limit = Duration::from_secs(if tier == "thorough" { 6 * 3600 } else { 780 });
    let mut bad = None;
    let mut dead: Vec<(u64, &str, String, String)> = vec![];
    let mut seen: Vec<(String, Instant)> = (0..shards).map(|_| (String::new(), Instant::now())).collect();
    let mut ended = vec![false; shards as usize];
    let mut round = 0u64;
    loop {
        let mut running = false;
        round += 1;
        for (i, k) in kids.iter_mut().enumerate() {
            if ended[i] {
                continue;
            }
            let prog = || std::fs::read_to_string(dir.join(format!("s{i}.p"))).unwrap_or_default();
            match k.try_wait() {
                Ok(None) => {
                    running = true;
                    if round % 50 == 0 {
                        let now = prog();
                        if now != seen[i].0 {
                            seen[i] = (now, Instant::now());
                        } else if seen[i].1.elapsed() > HANG {
                            let _ = k.kill();
                            let _ = k.wait();
                            ended[i] = true;
                            dead.push((i as u64, "hang", now, format!("the code under test ran for over {} s without returning", HANG.as_secs())));
                        }
                    }
                }
                Ok(Some(s)) => {
                    ended[i] = true;
                    if s.code().is_none() {
                        dead.push((i as u64, "crash", prog(), format!("the process died: {s}")));
                    } else if !s.success() && bad.is_none() {
                        bad = Some(format!("worker {i} ended with {s}"));
                    }
                }
                Err(e) => {
                    ended[i] = true;
                    bad = Some(format!("worker {i}: {e}"));
                }
            }
        }
        if !running {
            break;
        }
        if t0.elapsed() > limit {
            for k in kids.iter_mut() {
                let _ = k.kill();
                let _ = k.wait();
            }
            bad = Some("watchdog: workers did not finish".into());
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    let (mut evals, mut hashes, mut labels) = (BTreeMap::<String, u64>::new(), HashSet::new(), BTreeMap::<String, u64>::new());
    let (mut samples, mut viols, mut khits) = (vec![], vec![], BTreeMap::<String, u64>::new());
    for i in 0..shards {
        let t = std::fs::read_to_string(dir.join(format!("s{i}"))).unwrap_or_default();
        if !t.ends_with("DONE\n") && bad.is_none() && !dead.iter().any(|d| d.0 == i) {
            bad = Some(format!("worker {i} left no result"));
        }
        for l in t.lines() {
            let Some((k, r)) = l.split_once(' ') else { continue };
            match k {
                "E" | "L" | "K" => {
                    let (n, c) = r.rsplit_once(' ').unwrap();
                    let c: u64 = c.parse().unwrap();
                    *match k {
                        "E" => &mut evals,
                        "L" => &mut labels,
                        _ => &mut khits,
                    }
                    .entry(n.to_string())
                    .or_default() += c;
                }
                "H" => {
                    hashes.insert(u64::from_str_radix(r, 16).unwrap());
                }
                "S" => samples.push(unesc(r)),
                "V" => {
                    let f: Vec<&str> = r.split('\t').collect();
                    viols.push((f[0].parse::<u64>().unwrap(), f[1].to_string(), unesc(f[2]), unesc(f[3]), f[4].to_string(), unesc(f[5])));
                }
                _ => {}
            }
        }
    }
    for (_, sig, prog, msg) in &dead {
        let f: Vec<&str> = prog.split_whitespace().collect();
        let (part, idx) = (f.first().copied().unwrap_or("-"), f.get(1).and_then(|x| x.parse().ok()).unwrap_or(0));
        if part != "-" {
            if known(&root, p.id).iter().any(|k| k.sig == *sig) {
                *khits.entry(sig.to_string()).or_default() += 1;
            } else {
                viols.push((idx, part.to_string(), sig.to_string(), msg.clone(), String::new(), String::new()));
            }
        } else if bad.is_none() {
            bad = Some(format!("worker lost while shrinking: {msg}"));
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    viols.sort_by_key(|v| (p.parts.iter().position(|x| x.name == v.1), v.0));
    let total: u64 = evals.values().sum();
    // evidence
    let ev = root.join("evidence");
    let _ = std::fs::create_dir_all(&ev);
    let mut j = String::new();
    let _ = write!(
        j,
        "{{\n \"property\": {},\n \"tier\": \"{tier}\",\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {total},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n",
        json(p.id),
        seed as i64,
        hashes.len(),
        json(p.rule)
    );
    let f = |m: &BTreeMap<String, u64>| m.iter().map(|(k, v)| format!("{}: {v}", json(k))).collect::<Vec<_>>().join(", ");
    let _ = write!(j, "  \"cases_per_part\": {{{}}},\n  \"classes\": {{{}}},\n  \"known_finding_hits\": {{{}}},\n", f(&evals), f(&labels), f(&khits));
    if samples.is_empty() {
        samples.push("(no non-trivial passing case was sampled in this run)".into());
    }
    let _ = write!(
        j,
        "  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        samples.iter().map(|s| json(s)).collect::<Vec<_>>().join(", "),
        p.assumptions.iter().map(|s| json(s)).collect::<Vec<_>>().join(", "),
        t0.elapsed().as_secs_f64(),
        viols.len()
    );
    if std::fs::write(ev.join(format!("{}.json", p.id)), j).is_err() {
        eprintln!("cannot write evidence");
        return 2;
    }
    for k in known(&root, p.id) {
        println!("KNOWN-FINDING: property={} {} (hit {} times in this run)", p.id, k.text, khits.get(&k.sig).copied().unwrap_or(0));
    }
    if let Some((idx, part, sig, msg, choices, trace)) = viols.first() {
        let path = ev.join(format!("{}.replay", p.id));
        let body = format!(
            "property={}\npart={part}\nseed={seed}\ncase={idx}\nsig={}\nmessage={}\nchoices={choices}\n\n--- readable trace of the shrunk case ---\n{trace}\n--- end ---\nrun again: cd /verif && bash check.sh {} --replay {}\n",
            p.id,
            esc(sig),
            esc(msg),
            p.id,
            path.display()
        );
        let _ = std::fs::write(&path, body);
        println!("{}: part {part}, case {idx}, {sig}: {msg}", p.id);
        println!("VIOLATION property={} replay={}", p.id, path.display());
        return 1;
    }
    if let Some(b) = bad {
        eprintln!("{}: error: {b}", p.id);
        return 2;
    }
    println!("{}: held on {total} cases ({} distinct non-trivial) in {:.1}s, tier {tier}, seed {seed}", p.id, hashes.len(), t0.elapsed().as_secs_f64());
    0
}

fn replay(p: &Prop, file: &str) -> i32 {
    simrt::exec::install_panic_hook();
    let t = std::fs::read_to_string(file).expect("replay file");
    let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(&format!("{k}="))).unwrap_or("").to_string();
    let part = get("part");
    let choices: Vec<u64> = get("choices").split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
    let part = p.parts.iter().find(|x| x.name == part).expect("part");
    if matches!(get("sig").as_str(), "crash" | "hang") {
        let mut k = Command::new(std::env::current_exe().unwrap())
            .args([p.id, "--case", part.name, &get("case")])
            .env("VERIF_SEED", get("seed"))
            .spawn()
            .expect("spawn");
        let t0 = Instant::now();
        loop {
            match k.try_wait() {
                Ok(Some(s)) if s.code() == Some(0) => {
                    println!("replay does not fail");
                    return 0;
                }
                Ok(None) if t0.elapsed() < HANG => std::thread::sleep(Duration::from_millis(50)),
                _ => break,
            }
        }
        let _ = k.kill();
        println!("VIOLATION property={} replay={file}", p.id);
        return 1;
    }
    for _ in 0..64 {
        let o = run_case(part.run, Source::replay(choices.clone()), true);
        if let Err(f) = o.res {
            for l in o.trace {
                println!("  {l}");
            }
            println!("{}: {}", f.sig, f.msg);
            println!("VIOLATION property={} replay={file}", p.id);
            return 1;
        }
    }
    println!("replay does not fail");
    0
}
