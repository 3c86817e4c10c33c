//! Exhaustive exploration of finite case spaces on the real library, in parallel, with owned
//! nondeterminism, replay of every violation, known findings and evidence.
use crate::env;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{mpsc, Arc, Mutex};
use std::time::{Duration, Instant};

pub fn h64<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// What one case showed.
#[derive(Clone, Debug, Default)]
pub struct Out {
    /// what is wrong, one line each; empty if the property held
    pub problems: Vec<String>,
    /// hashes of the reference-model states passed through
    pub states: Vec<u64>,
    /// operations executed on both the model and the library
    pub transitions: u64,
    /// hash of what was observed, to count distinct outcomes
    pub outcome: u64,
    pub nontrivial: bool,
    /// executions of the library within this case (default 1)
    pub runs: u64,
}
impl Out {
    pub fn bad(&mut self, s: impl Into<String>) {
        if self.problems.len() < 12 {
            self.problems.push(s.into())
        }
    }
}

pub struct Scratch {
    pub dir: PathBuf,
    n: std::cell::Cell<u32>,
}
impl Scratch {
    pub fn at(dir: PathBuf) -> Scratch {
        Scratch { dir, n: std::cell::Cell::new(0) }
    }
    pub fn file(&self, ext: &str) -> String {
        let n = self.n.get();
        self.n.set(n + 1);
        self.dir.join(format!("f{n}.{ext}")).to_string_lossy().into_owned()
    }
    pub fn put(&self, ext: &str, bytes: &[u8]) -> String {
        let p = self.file(ext);
        std::fs::write(&p, bytes).expect("scratch write");
        p
    }
}

pub type RunFn = dyn Fn(u64, &Scratch) -> Out + Send + Sync;
pub struct Space {
    pub name: String,
    /// the bound, in words
    pub bound: String,
    pub total: u64,
    pub desc: Box<dyn Fn(u64) -> String + Send + Sync>,
    pub run: Arc<RunFn>,
}
impl Space {
    pub fn new(
        name: &str,
        bound: &str,
        total: u64,
        desc: impl Fn(u64) -> String + Send + Sync + 'static,
        run: impl Fn(u64, &Scratch) -> Out + Send + Sync + 'static,
    ) -> Space {
        Space { name: name.into(), bound: bound.into(), total, desc: Box::new(desc), run: Arc::new(run) }
    }
}

/// index -> sequence over an alphabet of k symbols, all lengths 1..=d, shortest first
pub fn seq_total(k: u64, d: u32) -> u64 {
    (1..=d).map(|l| k.pow(l)).sum()
}
pub fn seq_at(k: u64, mut i: u64) -> Vec<usize> {
    let mut l = 1;
    loop {
        let n = k.pow(l);
        if i < n {
            let mut v = vec![0; l as usize];
            for s in v.iter_mut().rev() {
                *s = (i % k) as usize;
                i /= k;
            }
            return v;
        }
        i -= n;
        l += 1;
    }
}

// ---------------------------------------------------------------- running one case

pub enum Ran {
    Done(Out),
    LibPanic(String),
    HarnessPanic(String),
    Timeout,
}
thread_local! { static LAST_PANIC: std::cell::RefCell<Option<(String, String)>> = const { std::cell::RefCell::new(None) }; }
static QUIET: AtomicBool = AtomicBool::new(false);

pub fn install_panic_hook() {
    QUIET.store(true, Ordering::SeqCst);
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let _ = LAST_PANIC.try_with(|p| {
            let mut p = p.borrow_mut();
            if p.is_none() {
                *p = Some((loc, msg))
            }
        });
    }));
}
pub fn take_panic() -> (String, String) {
    LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()
}
/// Runs a call into the library; a panic inside it is a result, not a failure of the harness.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let (loc, msg) = take_panic();
            if loc.starts_with("src/") {
                panic!("harness: {msg} at {loc}");
            }
            let loc = loc.rsplit("/rs/src/").next().unwrap_or(&loc).to_string();
            let loc = loc.rsplit("/registry/src/").next().unwrap_or(&loc).to_string();
            Err(format!("panic: {} at {}", msg.lines().next().unwrap_or(""), loc))
        }
    }
}

pub fn run_case(run: &Arc<RunFn>, idx: u64, dir: &Path, seed: u64, limit: Duration) -> Ran {
    let (tx, rx) = mpsc::channel();
    let run = run.clone();
    let dir = dir.to_path_buf();
    let th = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            let sc = Scratch { dir: dir.clone(), n: std::cell::Cell::new(0) };
            env::begin(seed);
            crate::drv::set_in_memory(idx % 3 != 1);
            let r = catch_unwind(AssertUnwindSafe(|| run(idx, &sc)));
            env::fs_off();
            let r = match r {
                Ok(o) => Ran::Done(o),
                Err(_) => {
                    let (loc, msg) = take_panic();
                    if loc.starts_with("src/") {
                        Ran::HarnessPanic(format!("{msg} at {loc}"))
                    } else {
                        Ran::LibPanic(format!("panic: {msg} at {loc}"))
                    }
                }
            };
            clean_dir(&dir);
            let _ = tx.send(r);
        })
        .expect("spawn");
    match rx.recv_timeout(limit) {
        Ok(r) => {
            let _ = th.join();
            r
        }
        Err(mpsc::RecvTimeoutError::Timeout) => Ran::Timeout,
        Err(_) => {
            let _ = th.join();
            Ran::HarnessPanic("case thread died".into())
        }
    }
}
fn clean_dir(d: &Path) {
    if let Ok(rd) = std::fs::read_dir(d) {
        for e in rd.flatten() {
            let p = e.path();
            if p.is_dir() {
                clean_dir(&p);
                let _ = std::fs::remove_dir(&p);
            } else {
                let _ = std::fs::remove_file(&p);
            }
        }
    }
}

// ---------------------------------------------------------------- known findings

pub struct Finding {
    pub property: String,
    pub space: String,
    pub case: String,
    pub problem: String,
    pub what: String,
}
/// `*` matches any run of characters.
pub fn glob(pat: &str, s: &str) -> bool {
    let parts: Vec<&str> = pat.split('*').collect();
    if parts.len() == 1 {
        return pat == s;
    }
    let mut rest = match s.strip_prefix(parts[0]) {
        Some(r) => r,
        None => return false,
    };
    for p in &parts[1..parts.len() - 1] {
        match rest.find(p) {
            Some(i) => rest = &rest[i + p.len()..],
            None => return false,
        }
    }
    rest.ends_with(parts[parts.len() - 1])
}
pub fn load_findings(root: &Path) -> Vec<Finding> {
    let mut v = vec![];
    let Ok(s) = std::fs::read_to_string(root.join("known_findings.txt")) else { return v };
    for l in s.lines() {
        if let Some(r) = l.strip_prefix("finding: ") {
            let f: Vec<&str> = r.split(" || ").collect();
            let g = |k: &str| {
                f.iter()
                    .find_map(|x| x.strip_prefix(&format!("{k}=")))
                    .unwrap_or_else(|| {
                        eprintln!("known_findings.txt: no {k} in {l}");
                        std::process::exit(2)
                    })
                    .to_string()
            };
            v.push(Finding {
                property: g("property"),
                space: g("space"),
                case: g("case"),
                problem: g("problem"),
                what: g("what"),
            });
        }
    }
    v
}

// ---------------------------------------------------------------- exploration

pub struct Check {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
    pub spaces: Vec<Space>,
}

struct Agg {
    states: HashSet<u64>,
    outcomes: HashSet<u64>,
    nontrivial: HashSet<u64>,
    transitions: u64,
    evals: u64,
    runs: u64,
    bad: BTreeMap<(usize, u64), Vec<String>>,
    harness_err: Option<String>,
}

pub fn jesc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn scratch_base() -> PathBuf {
    let shm = Path::new("/dev/shm");
    let base = std::env::var_os("MC_SCRATCH").map(PathBuf::from).unwrap_or_else(|| {
        if shm.is_dir() && std::fs::write(shm.join(format!(".mc{}", std::process::id())), b"x").is_ok() {
            let _ = std::fs::remove_file(shm.join(format!(".mc{}", std::process::id())));
            shm.to_path_buf()
        } else {
            std::env::temp_dir()
        }
    });
    base.join(format!("mc-{}", std::process::id()))
}

fn problems_of(r: Ran, harness_err: &mut Option<String>) -> (Option<Out>, Vec<String>) {
    match r {
        Ran::Done(o) => {
            let p = o.problems.clone();
            (Some(o), p)
        }
        Ran::LibPanic(m) => (None, vec![m]),
        Ran::Timeout => (None, vec!["does not terminate within the time limit".into()]),
        Ran::HarnessPanic(m) => {
            *harness_err = Some(m);
            (None, vec![])
        }
    }
}

// ---------------------------------------------------------------- death of the process

static MARKS: std::sync::OnceLock<Option<std::fs::File>> = std::sync::OnceLock::new();
fn marks_path() -> Option<PathBuf> {
    std::env::var_os("MC_MARKS").map(PathBuf::from)
}
/// Notes which case a worker is at, for the supervisor.
fn mark(w: usize, si: usize, i: u64) {
    use std::os::unix::fs::FileExt;
    let f = MARKS.get_or_init(|| marks_path().and_then(|p| std::fs::OpenOptions::new().write(true).create(true).truncate(false).open(p).ok()));
    if let Some(f) = f {
        let mut b = [0u8; 24];
        b[..8].copy_from_slice(&1u64.to_le_bytes());
        b[8..16].copy_from_slice(&(si as u64).to_le_bytes());
        b[16..].copy_from_slice(&i.to_le_bytes());
        let _ = f.write_all_at(&b, 24 * w as u64);
    }
}
/// Runs the exploration in a child process. If the child dies (stack overflow, abort, out of memory), the
/// cases it was at are run alone, each in a process of its own, to tell which one it was.
pub fn supervise(id: &str, root: &Path, tier: &str, seed: u64, check: &dyn Fn() -> Check) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let Ok(exe) = std::env::current_exe() else { return 2 };
    let t0 = Instant::now();
    let marks = scratch_base().with_extension("marks");
    let run = |args: &[&str]| {
        std::process::Command::new(&exe).args(args).env("MC_CHILD", "1").env("MC_MARKS", &marks).status()
    };
    let st = match run(&["check", id, tier]) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("ENGINE ERROR: {e}");
            return 2;
        }
    };
    let data = std::fs::read(&marks).unwrap_or_default();
    let _ = std::fs::remove_file(&marks);
    if let Some(c) = st.code() {
        return c;
    }
    let sig = st.signal().unwrap_or(0);
    eprintln!("note: the exploration died of signal {sig}");
    let c = check();
    let mut code = 2;
    for m in data.chunks_exact(24) {
        let g = |o: usize| u64::from_le_bytes(m[o..o + 8].try_into().unwrap());
        if g(0) != 1 {
            continue;
        }
        let (si, i) = (g(8) as usize, g(16));
        let Some(sp) = c.spaces.get(si) else { continue };
        if i >= sp.total {
            continue;
        }
        let died = |n: &str| {
            let s = std::process::Command::new(&exe).args(["one", id, tier, n, &i.to_string()]).env("MC_CHILD", "1").stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).status();
            s.ok().and_then(|s| s.signal())
        };
        if let Some(sg) = died(&sp.name) {
            let rdir = root.join("evidence").join("replays");
            let _ = std::fs::create_dir_all(&rdir);
            let path = rdir.join(format!("{id}-{}-{i}.txt", sp.name));
            let what = format!("the process dies of signal {sg}");
            let _ = std::fs::write(&path, format!("property={id}\nspace={}\nindex={i}\ntier={tier}\nseed={seed}\n\ncase:\n{}\n\nobserved:\n{what}\n", sp.name, (sp.desc)(i)));
            println!("VIOLATION property={id} replay={}", path.display());
            println!("  space {} case {i}: {}", sp.name, (sp.desc)(i));
            println!("  {what}");
            code = 1;
        }
    }
    if code == 2 {
        eprintln!("ENGINE ERROR: the exploration died of signal {sig} and no case alone does");
    } else {
        let ev = format!(
            "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": {},\n \"coverage\": {{ \"evaluations\": 1, \"distinct_nontrivial\": 1, \"rule\": {}, \"exhaustive\": false, \"samples\": [\"the exploration was ended by the death of the process\"] }},\n \"assumptions\": [],\n \"wall_s\": {:.2},\n \"violations\": 1\n}}\n",
            jesc(id), jesc(tier), jesc(c.level), jesc(c.rule), t0.elapsed().as_secs_f64()
        );
        let _ = std::fs::write(root.join("evidence").join(format!("{id}.json")), ev);
    }
    code
}

pub fn explore(check: Check, root: &Path, tier: &str, seed: u64) -> i32 {
    let t0 = Instant::now();
    let wall_cap = Duration::from_secs(
        std::env::var("MC_WALL").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "quick" { 480 } else { 6 * 3600 }),
    );
    let limit = Duration::from_secs(90);
    let base = scratch_base();
    let workers = std::env::var("MC_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16));
    let agg = Mutex::new(Agg {
        states: HashSet::new(),
        outcomes: HashSet::new(),
        nontrivial: HashSet::new(),
        transitions: 0,
        evals: 0,
        runs: 0,
        bad: BTreeMap::new(),
        harness_err: None,
    });
    let keep_all = std::env::var_os("MC_ALL").is_some();
    let only = std::env::var("MC_SPACE").ok();
    let stop = AtomicBool::new(false);
    let capped = AtomicBool::new(false);
    let mut per_space: Vec<(u64, f64)> = vec![(0, 0.0); check.spaces.len()];
    // small spaces first: what a time limit cuts off is the end of the biggest
    let mut order: Vec<usize> = (0..check.spaces.len()).collect();
    order.sort_by_key(|i| check.spaces[*i].total);
    for si in order {
        let sp = &check.spaces[si];
        let ts = Instant::now();
        if only.as_ref().is_some_and(|o| !glob(o, &sp.name)) {
            continue;
        }
        let next = AtomicU64::new(0);
        let done = AtomicU64::new(0);
        std::thread::scope(|s| {
            for w in 0..workers {
                let (agg, next, done, stop, capped, base) = (&agg, &next, &done, &stop, &capped, &base);
                s.spawn(move || {
                    let dir = base.join(format!("w{w}"));
                    std::fs::create_dir_all(&dir).expect("scratch dir");
                    let mut l = Agg {
                        states: HashSet::new(),
                        outcomes: HashSet::new(),
                        nontrivial: HashSet::new(),
                        transitions: 0,
                        evals: 0,
                        runs: 0,
                        bad: BTreeMap::new(),
                        harness_err: None,
                    };
                    loop {
                        if stop.load(Ordering::Relaxed) {
                            break;
                        }
                        if t0.elapsed() > wall_cap {
                            capped.store(true, Ordering::Relaxed);
                            break;
                        }
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= sp.total {
                            break;
                        }
                        mark(w, si, i);
                        let r = run_case(&sp.run, i, &dir, seed_of(seed, si, i), limit);
                        let timeout = matches!(r, Ran::Timeout);
                        let (o, p) = problems_of(r, &mut l.harness_err);
                        if l.harness_err.is_some() {
                            l.harness_err = Some(format!("{} case {i} ({}): {}", sp.name, (sp.desc)(i), l.harness_err.unwrap()));
                            stop.store(true, Ordering::Relaxed);
                            break;
                        }
                        l.evals += 1;
                        if let Some(o) = o {
                            l.transitions += o.transitions;
                            l.runs += o.runs.max(1);
                            l.states.extend(o.states.iter());
                            l.outcomes.insert(o.outcome);
                            if o.nontrivial {
                                l.nontrivial.insert(h64(&(si, i)));
                            }
                        }
                        if !p.is_empty() {
                            l.bad.insert((si, i), p);
                            if l.bad.len() > if keep_all { 100_000 } else { 400 } {
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                        done.fetch_add(1, Ordering::Relaxed);
                        if timeout {
                            stop.store(true, Ordering::Relaxed);
                            break;
                        }
                    }
                    let mut a = agg.lock().unwrap();
                    a.states.extend(l.states);
                    a.outcomes.extend(l.outcomes);
                    a.nontrivial.extend(l.nontrivial);
                    a.transitions += l.transitions;
                    a.evals += l.evals;
                    a.runs += l.runs;
                    a.bad.extend(l.bad);
                    if a.harness_err.is_none() {
                        a.harness_err = l.harness_err
                    }
                });
            }
        });
        per_space[si] = (done.load(Ordering::Relaxed), ts.elapsed().as_secs_f64());
    }
    let mut a = agg.into_inner().unwrap();
    if let Some(e) = &a.harness_err {
        eprintln!("ENGINE ERROR: {e}");
        let _ = std::fs::remove_dir_all(&base);
        return 2;
    }
    // Determinism: the first and last case of every space, twice, must show the same.
    let dir = base.join("w0");
    let _ = std::fs::create_dir_all(&dir);
    let mut replays = 0u64;
    if !stop.load(Ordering::Relaxed) {
        for (si, sp) in check.spaces.iter().enumerate() {
            for i in [0, sp.total / 2, sp.total.saturating_sub(1)] {
                if i >= sp.total {
                    continue;
                }
                let mut he = None;
                let one = problems_of(run_case(&sp.run, i, &dir, seed_of(seed, si, i), limit), &mut he);
                let two = problems_of(run_case(&sp.run, i, &dir, seed_of(seed, si, i), limit), &mut he);
                replays += 2;
                let k = |x: &(Option<Out>, Vec<String>)| (x.0.as_ref().map(|o| (o.outcome, o.states.clone())), x.1.clone());
                if k(&one) != k(&two) {
                    eprintln!("ENGINE ERROR: case {i} of {} is not reproducible: {:?} / {:?}", sp.name, one, two);
                    let _ = std::fs::remove_dir_all(&base);
                    return 2;
                }
            }
        }
    }
    // Violations: replay, match against the known findings, report.
    let findings = load_findings(root);
    let mine: Vec<&Finding> = findings.iter().filter(|f| f.property == check.id).collect();
    let mut hit: BTreeMap<usize, u64> = BTreeMap::new();
    let mut fresh: Vec<(usize, u64, Vec<String>)> = vec![];
    let mut nbad = 0u64;
    for ((si, i), probs) in std::mem::take(&mut a.bad) {
        let sp = &check.spaces[si];
        let desc = (sp.desc)(i);
        let mut left = vec![];
        for p in probs {
            let k = mine.iter().position(|f| glob(&f.space, &sp.name) && glob(&f.case, &desc) && glob(&f.problem, &p));
            match k {
                Some(k) => *hit.entry(k).or_default() += 1,
                None => left.push(p),
            }
        }
        if !left.is_empty() {
            nbad += 1;
            fresh.push((si, i, left));
        }
    }
    let mut code = 0;
    let rdir = root.join("evidence").join("replays");
    // Only this check's own old replay files are removed.
    if let Ok(rd) = std::fs::read_dir(&rdir) {
        for e in rd.flatten() {
            if e.file_name().to_string_lossy().starts_with(&format!("{}-", check.id)) {
                let _ = std::fs::remove_file(e.path());
            }
        }
    }
    let mut shown = 0;
    let mut unconfirmed = 0;
    for (si, i, probs) in &fresh {
        let sp = &check.spaces[*si];
        if shown >= 5 {
            break;
        }
        let mut he = None;
        let timed_out = probs.iter().any(|p| p.starts_with("does not terminate"));
        let again = if timed_out { probs.clone() } else {
            problems_of(run_case(&sp.run, *i, &dir, seed_of(seed, *si, *i), limit), &mut he).1
        };
        if !timed_out { replays += 1; }
        if !probs.iter().any(|p| again.contains(p)) && again.is_empty() {
            unconfirmed += 1;
            eprintln!("note: case {} of {} failed once ({:?}) and not on replay", i, sp.name, probs);
            continue;
        }
        let _ = std::fs::create_dir_all(&rdir);
        let path = rdir.join(format!("{}-{}-{}.txt", check.id, sp.name, i));
        let mut t = format!("property={}\nspace={}\nindex={}\ntier={}\nseed={}\nwall: replay with: bash check.sh replay {}\n\ncase:\n{}\n\nobserved:\n", check.id, sp.name, i, tier, seed, path.display(), (sp.desc)(*i));
        for p in probs {
            t.push_str(p);
            t.push('\n');
        }
        let _ = std::fs::write(&path, t);
        println!("VIOLATION property={} replay={}", check.id, path.display());
        println!("  space {} case {}: {}", sp.name, i, (sp.desc)(*i));
        for p in probs.iter().take(4) {
            println!("  {}", p.chars().take(600).collect::<String>());
        }
        shown += 1;
        code = 1;
    }
    if keep_all {
        // development aid: violations by kind
        let mut kinds: BTreeMap<String, (u64, String)> = BTreeMap::new();
        for (si, i, probs) in &fresh {
            for p in probs {
                let k: String = p.chars().filter(|c| !c.is_ascii_digit()).take(90).collect();
                let e = kinds.entry(k).or_insert_with(|| (0, format!("{}[{}] {} => {}", check.spaces[*si].name, i, (check.spaces[*si].desc)(*i), p)));
                e.0 += 1;
            }
        }
        let mut v: Vec<_> = kinds.into_values().collect();
        v.sort_by_key(|e| std::cmp::Reverse(e.0));
        println!("{} kinds", v.len());
        for (n, t) in v.iter().take(40) {
            println!("{n:>6} x {}", t.chars().take(700).collect::<String>());
        }
    }
    if nbad > shown && code == 1 {
        println!("  ({nbad} violating cases in all)");
    }
    if code == 0 && unconfirmed > 0 {
        eprintln!("ENGINE ERROR: violations that do not reproduce");
        code = 2;
    }
    for (k, f) in mine.iter().enumerate() {
        if let Some(n) = hit.get(&k) {
            println!("KNOWN-FINDING: property={} {} ({} cases)", check.id, f.what, n);
        } else {
            eprintln!("note: listed finding not observed in this run: {}", f.what);
        }
    }
    // Evidence
    let total: u64 = check.spaces.iter().map(|s| s.total).sum();
    let exhaustive = !capped.load(Ordering::Relaxed) && !stop.load(Ordering::Relaxed) && a.evals == total;
    let mut samples = vec![];
    for sp in &check.spaces {
        for i in [0, sp.total / 2, sp.total.saturating_sub(1)] {
            if i < sp.total {
                samples.push(jesc(&format!("{}[{}]: {}", sp.name, i, (sp.desc)(i).chars().take(400).collect::<String>())));
            }
        }
    }
    samples.dedup();
    let spaces_json: Vec<String> = check
        .spaces
        .iter()
        .zip(&per_space)
        .map(|(s, (d, t))| format!("{{\"name\":{},\"bound\":{},\"cases\":{},\"explored\":{},\"wall_s\":{:.2}}}", jesc(&s.name), jesc(&s.bound), s.total, d, t))
        .collect();
    let ev = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"distinct_outcomes\": {},\n  \"determinism_replays\": {},\n  \"exhaustive\": {},\n  \"capped_by_wall_time\": {},\n  \"spaces\": [{}],\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        jesc(check.id), jesc(tier), seed, jesc(check.level), a.evals, a.nontrivial.len(), jesc(check.rule), a.states.len(), a.transitions, a.runs, a.outcomes.len(), replays, exhaustive, capped.load(Ordering::Relaxed),
        spaces_json.join(", "), samples.join(", "),
        check.assumptions.iter().map(|s| jesc(s)).collect::<Vec<_>>().join(", "),
        t0.elapsed().as_secs_f64(), nbad
    );
    let _ = std::fs::create_dir_all(root.join("evidence"));
    if let Err(e) = std::fs::write(root.join("evidence").join(format!("{}.json", check.id)), ev) {
        eprintln!("ENGINE ERROR: evidence: {e}");
        code = if code == 0 { 2 } else { code };
    }
    let _ = std::fs::remove_dir_all(&base);
    println!(
        "{}: {} of {} cases in {} spaces, {} states, {} transitions, {} distinct outcomes, {} violating, {:.1}s{}",
        check.id, a.evals, total, check.spaces.len(), a.states.len(), a.transitions, a.outcomes.len(), nbad, t0.elapsed().as_secs_f64(),
        if exhaustive { "" } else { " (NOT exhaustive: stopped early)" }
    );
    for (s, (d, t)) in check.spaces.iter().zip(&per_space) {
        println!("  {:<28} {:>8} of {:>8} cases {:>7.1}s  {}", s.name, d, s.total, t, s.bound);
    }
    code
}

fn seed_of(seed: u64, si: usize, i: u64) -> u64 {
    h64(&(seed, si, i))
}

pub fn replay(check: Check, space: &str, idx: u64, seed: u64) -> i32 {
    let base = scratch_base();
    let dir = base.join("w0");
    std::fs::create_dir_all(&dir).expect("scratch");
    let mut code = 2;
    for (si, sp) in check.spaces.iter().enumerate() {
        if sp.name == space && idx < sp.total {
            println!("case: {}", (sp.desc)(idx));
            let mut he = None;
            let (_, p) = problems_of(run_case(&sp.run, idx, &dir, seed_of(seed, si, idx), Duration::from_secs(90)), &mut he);
            if let Some(e) = he {
                println!("ENGINE ERROR {e}");
            } else if p.is_empty() {
                println!("holds");
                code = 0;
            } else {
                for q in &p {
                    println!("{q}");
                }
                code = 1;
            }
        }
    }
    let _ = std::fs::remove_dir_all(&base);
    code
}
