//! Exhaustive enumeration of cases, sharded over worker processes.
//!
//! A check is a deterministic function that calls [`Ctx::case`] for every case of its space. Every
//! worker goes through all of them, in order, and executes those whose index it draws from a counter that
//! all share, so that each is executed by exactly one. Each worker journals the index of the
//! case it is in (in shared memory), so that the parent can attribute an abort, a stack overflow,
//! a failed allocation or a hang to the very case that caused it, and go on behind it.

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::fs;
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::time::{Duration, Instant};

use crate::alloc;

/// How long a single step of a case may take before it counts as a hang.
const STEP_LIMIT: Duration = Duration::from_secs(40);
/// The default limit for live allocations within one case.
const MEM_LIMIT: usize = 512 << 20;
/// How many violations a single worker reports before it stops.
const MAX_VIOLATIONS: usize = 12;
/// How long a check may take, by tier. What has been found by then is reported.
const DEADLINE: [Duration; 2] = [Duration::from_secs(780), Duration::from_secs(4 * 3600)];

#[derive(Default, Clone)]
pub struct IdHasher(u64);
impl Hasher for IdHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = v;
    }
}
pub type IdSet = HashSet<u64, BuildHasherDefault<IdHasher>>;

/// A stable 64-bit hash (FNV-1a with a final mix).
pub struct Fnv(u64);
impl Default for Fnv {
    fn default() -> Self {
        Fnv(0xcbf29ce484222325)
    }
}
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        let mut x = self.0;
        x ^= x >> 32;
        x = x.wrapping_mul(0xd6e8feb86659fd93);
        x ^= x >> 32;
        x
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 = (self.0 ^ *b as u64).wrapping_mul(0x100000001b3);
        }
    }
}
pub fn hash<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = Fnv::default();
    t.hash(&mut h);
    h.finish()
}

extern "C" {
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

/// Two words of memory shared with the parent: the current case (plus one), and a step counter.
struct Journal(&'static [AtomicU64; 2]);

impl Journal {
    fn open(path: &Path) -> Journal {
        use std::os::unix::io::AsRawFd;
        let f = fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).expect("journal");
        f.set_len(4096).expect("journal");
        // PROT_READ | PROT_WRITE, MAP_SHARED
        let p = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 1, f.as_raw_fd(), 0) };
        assert!(p as isize != -1, "journal");
        Journal(unsafe { &*(p as *const [AtomicU64; 2]) })
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Tier {
    Quick,
    Thorough,
}

enum Mode {
    Run,
    Only(u64),
    Describe(u64),
}

pub struct Ctx {
    mode: Mode,
    pub tier: Tier,
    next: u64,
    done: bool,
    journal: Option<Journal>,
    /// The counter of cases that all workers share, and the case drawn from it.
    tickets: Option<Journal>,
    mine: u64,
    steps: Cell<u64>,
    out: RefCell<Option<fs::File>>,
    violations: Cell<usize>,
    states: RefCell<IdSet>,
    /// The states since the last flush.
    fresh: RefCell<Vec<u64>>,
    states_out: RefCell<Option<fs::File>>,
    counters: RefCell<BTreeMap<&'static str, u64>>,
    ops: Cell<u64>,
    traces: Cell<u64>,
    executed: u64,
    samples: Vec<(u64, String)>,
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

impl Ctx {
    fn new(mode: Mode, tier: Tier) -> Ctx {
        Ctx {
            mode,
            tier,
            next: 0,
            done: false,
            journal: None,
            tickets: None,
            mine: 0,
            steps: Cell::new(0),
            out: RefCell::new(None),
            violations: Cell::new(0),
            states: RefCell::default(),
            fresh: RefCell::default(),
            states_out: RefCell::new(None),
            counters: RefCell::default(),
            ops: Cell::new(0),
            traces: Cell::new(0),
            executed: 0,
            samples: vec![],
        }
    }

    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }

    /// Picks the quick or thorough bound.
    pub fn q<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() {
            thorough
        } else {
            quick
        }
    }

    /// Enumerate one case. `desc` identifies it; `body` executes it.
    pub fn case<D, B>(&mut self, desc: D, body: B)
    where
        D: FnOnce() -> String,
        B: FnOnce(&Ctx) -> Result<(), String>,
    {
        let idx = self.next;
        self.next += 1;
        if self.done {
            return;
        }
        match self.mode {
            Mode::Describe(i) => {
                if i == idx {
                    println!("{}", desc());
                    self.done = true;
                }
                return;
            }
            Mode::Only(i) => {
                if i != idx {
                    return;
                }
            }
            Mode::Run => {
                if idx != self.mine {
                    return;
                }
            }
        }

        if let Some(j) = &self.journal {
            j.0[0].store(idx + 1, Relaxed);
        }
        self.step();
        self.executed += 1;
        let want_sample = idx <= 2 || idx.is_power_of_two() || idx % 1000 == 500;

        PANIC.with(|p| p.borrow_mut().clear());
        let res = alloc::limited(MEM_LIMIT, || {
            catch_unwind(AssertUnwindSafe(|| body(&*self))).unwrap_or_else(|_| Err(format!("panicked: {}", PANIC.with(|p| std::mem::take(&mut *p.borrow_mut())))))
        });
        if res.is_err() || want_sample {
            let d = desc();
            if let Err(detail) = res {
                self.report(idx, &d, &detail);
            }
            if want_sample {
                self.samples.push((idx, d));
            }
        }
        if self.journal.is_some() {
            self.flush();
        }
        self.draw();
    }

    /// Write what has been counted since the last time, so that it isn't lost if a later case crashes.
    fn flush(&mut self) {
        let mut s = String::new();
        for (k, v) in self.counters.take() {
            let _ = writeln!(s, "C\t{k}\t{v}");
        }
        for (k, v) in [("cases", std::mem::take(&mut self.executed)), ("transitions", self.ops.take()), ("traces", self.traces.take())] {
            let _ = writeln!(s, "C\t{k}\t{v}");
        }
        let mut h: Vec<u8> = vec![];
        for x in self.fresh.take() {
            h.extend(x.to_le_bytes());
        }
        if let Some(f) = &mut *self.states_out.borrow_mut() {
            f.write_all(&h).expect("states");
        }
        if let Some(f) = &mut *self.out.borrow_mut() {
            f.write_all(s.as_bytes()).expect("report");
        }
    }

    /// Draw the next case to execute.
    fn draw(&mut self) {
        if let Some(t) = &self.tickets {
            self.mine = t.0[0].fetch_add(1, Relaxed);
        }
    }

    /// Whether the next case would be executed here, to skip preparing one that isn't.
    pub fn wanted(&self) -> bool {
        !self.done
            && match self.mode {
                Mode::Describe(i) | Mode::Only(i) => i == self.next,
                Mode::Run => self.next == self.mine,
            }
    }

    /// Skip a case without preparing it (only valid if it's not [`wanted`](Ctx::wanted)).
    pub fn skip(&mut self) {
        self.next += 1;
    }

    /// Report a violation found within the current case.
    fn report(&mut self, idx: u64, desc: &str, detail: &str) {
        self.violations.set(self.violations.get() + 1);
        let line = format!("V\t{}\t{}\t{}\n", idx, escape(desc), escape(detail));
        match &mut *self.out.borrow_mut() {
            Some(f) => f.write_all(line.as_bytes()).expect("report"),
            None => print!("case {idx}: {desc}\n  {detail}\n"),
        }
        if self.violations.get() >= MAX_VIOLATIONS && !matches!(self.mode, Mode::Describe(_)) {
            self.done = true;
        }
    }

    /// Mark progress within a case.
    pub fn step(&self) {
        self.steps.set(self.steps.get() + 1);
        if let Some(j) = &self.journal {
            j.0[1].store(self.steps.get(), Relaxed);
        }
    }

    /// Record a visited state. Returns whether it's new to this worker.
    pub fn state<T: Hash + ?Sized>(&self, t: &T) -> bool {
        self.step();
        let h = hash(t);
        let new = self.states.borrow_mut().insert(h);
        if new {
            self.fresh.borrow_mut().push(h);
        }
        new
    }

    /// Bump a named counter.
    pub fn count(&self, name: &'static str, by: u64) {
        *self.counters.borrow_mut().entry(name).or_insert(0) += by;
    }

    /// An operation executed on the implementation.
    pub fn transitions(&self, by: u64) {
        self.step();
        self.ops.set(self.ops.get() + by);
    }

    /// A complete trace whose outcome was compared with the implementation's.
    pub fn trace(&self) {
        self.step();
        self.traces.set(self.traces.get() + 1);
    }
}

fn escape(s: &str) -> String {
    let mut r = String::new();
    for c in s.chars() {
        match c {
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            '\t' => r.push_str("\\t"),
            c => r.push(c),
        }
    }
    r
}

fn unescape(s: &str) -> String {
    let mut r = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => r.push('\n'),
                Some('t') => r.push('\t'),
                Some(c) => r.push(c),
                None => {}
            }
        } else {
            r.push(c)
        }
    }
    r
}

pub fn json(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                let mut b = [0; 2];
                for u in c.encode_utf16(&mut b) {
                    let _ = write!(r, "\\u{:04x}", u);
                }
            }
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

pub struct Check {
    pub id: &'static str,
    pub run: fn(&mut Ctx),
    /// What a state, a transition and a trace are, and the bounds of the exploration.
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

struct Violation {
    idx: u64,
    desc: String,
    detail: String,
}

struct Args {
    id: String,
    tier: Tier,
    seed: u64,
    out: PathBuf,
    known: PathBuf,
    jobs: u64,
    worker: bool,
    only: Option<u64>,
    describe: Option<u64>,
    replay: Option<PathBuf>,
}

fn args() -> Args {
    let mut a = Args {
        id: String::new(),
        tier: Tier::Quick,
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        out: PathBuf::from("evidence"),
        known: PathBuf::from("known-findings.txt"),
        jobs: std::thread::available_parallelism().map_or(4, |n| n.get() as u64).clamp(1, 16),
        worker: false,
        only: None,
        describe: None,
        replay: None,
    };
    let mut it = std::env::args().skip(1);
    while let Some(x) = it.next() {
        let mut val = || it.next().expect("argument");
        match x.as_str() {
            "--tier" => a.tier = if val() == "thorough" { Tier::Thorough } else { Tier::Quick },
            "--out" => a.out = val().into(),
            "--known" => a.known = val().into(),
            "--jobs" => a.jobs = val().parse().unwrap(),
            "--worker" => a.worker = true,
            "--only" => a.only = Some(val().parse().unwrap()),
            "--describe" => a.describe = Some(val().parse().unwrap()),
            "--replay" => a.replay = Some(val().into()),
            id => a.id = id.to_string(),
        }
    }
    a
}

fn on_stack<R: Send + 'static>(f: impl FnOnce() -> R + Send + 'static) -> R {
    // The stack of a main thread.
    std::thread::Builder::new().stack_size(8 << 20).spawn(f).unwrap().join().unwrap()
}

fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let loc = info.location().map(|l| l.to_string()).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
    }));
}

fn worker(run: fn(&mut Ctx), tier: Tier, mode: Mode, dir: Option<PathBuf>) -> bool {
    quiet_panics();
    on_stack(move || {
        let mut c = Ctx::new(mode, tier);
        if let Some(d) = &dir {
            c.journal = Some(Journal::open(&d.with_extension("journal")));
            c.tickets = Some(Journal::open(&d.with_file_name("tickets")));
            c.draw();
            c.states_out = RefCell::new(Some(fs::OpenOptions::new().create(true).append(true).open(d.with_extension("states")).unwrap()));
            c.out = RefCell::new(Some(fs::OpenOptions::new().create(true).append(true).open(d.with_extension("out")).unwrap()));
        }
        run(&mut c);
        if dir.is_some() {
            c.flush();
            let mut s = String::new();
            let _ = writeln!(s, "T\t{}", c.next);
            for (i, x) in &c.samples {
                let _ = writeln!(s, "S\t{i}\t{}", escape(x));
            }
            let _ = writeln!(s, "D");
            c.out.borrow_mut().as_mut().unwrap().write_all(s.as_bytes()).unwrap();
        }
        c.violations.get() == 0
    })
}

struct Job {
    k: u64,
    child: std::process::Child,
    base: PathBuf,
    journal: Journal,
    last: (u64, u64),
    since: Instant,
    crashes: usize,
}

pub fn main(checks: &[Check]) -> i32 {
    let a = args();
    if a.id == "list" {
        for c in checks {
            println!("{}", c.id);
        }
        return 0;
    }
    let Some(check) = checks.iter().find(|c| c.id == a.id) else {
        eprintln!("unknown check {}", a.id);
        return 2;
    };
    if a.worker {
        worker(check.run, a.tier, Mode::Run, Some(a.out));
        return 0;
    }
    if let Some(i) = a.describe {
        worker(check.run, a.tier, Mode::Describe(i), None);
        return 0;
    }
    if let Some(i) = a.only {
        return !worker(check.run, a.tier, Mode::Only(i), None) as i32;
    }
    let tier_name = if a.tier == Tier::Thorough { "thorough" } else { "quick" };
    if let Some(r) = &a.replay {
        let text = fs::read_to_string(r).expect("replay file");
        let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(k)).map(|s| s.trim().to_string());
        let idx: u64 = get("index:").expect("index").parse().unwrap();
        let tier = if get("tier:").as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick };
        return !worker(check.run, tier, Mode::Only(idx), None) as i32;
    }

    let start = Instant::now();
    fs::create_dir_all(&a.out).unwrap();
    let evidence = a.out.join(format!("{}.json", check.id));
    let _ = fs::remove_file(&evidence);
    let dir = std::env::temp_dir().join(format!("mc-{}-{}", check.id, std::process::id()));
    fs::create_dir_all(&dir).unwrap();
    let exe = std::env::current_exe().unwrap();
    let spawn = |base: &Path| {
        Command::new(&exe)
            .arg(check.id)
            .args(["--tier", tier_name])
            .arg("--out")
            .arg(base)
            .arg("--worker")
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .spawn()
            .unwrap()
    };
    let mut jobs: Vec<Job> = (0..a.jobs)
        .map(|k| {
            let base = dir.join(format!("w{k}"));
            let journal = Journal::open(&base.with_extension("journal"));
            Job { k, child: spawn(&base), base, journal, last: (0, 0), since: Instant::now(), crashes: 0 }
        })
        .collect();
    let mut violations: Vec<Violation> = vec![];
    let mut crashed: Vec<(u64, String)> = vec![];
    let mut broken = false;
    let mut active: Vec<usize> = (0..jobs.len()).collect();
    while !active.is_empty() {
        if start.elapsed() > DEADLINE[a.tier as usize] {
            eprintln!("out of time");
            for &i in &active {
                let _ = jobs[i].child.kill();
                let _ = jobs[i].child.wait();
            }
            break;
        }
        let mut still = vec![];
        for &i in &active {
            let j = &mut jobs[i];
            let now = (j.journal.0[0].load(Relaxed), j.journal.0[1].load(Relaxed));
            if now != j.last {
                j.last = now;
                j.since = Instant::now();
            }
            let mut failure = None;
            match j.child.try_wait().unwrap() {
                Some(st) if st.success() => continue,
                Some(st) => {
                    use std::os::unix::process::ExitStatusExt;
                    failure = Some(match st.signal() {
                        Some(6) => "process aborted (SIGABRT): stack overflow or allocation out of proportion to the input".to_string(),
                        Some(s) => format!("process died with signal {s}"),
                        None => format!("process exited with {:?}", st.code()),
                    });
                }
                None if j.since.elapsed() > STEP_LIMIT => {
                    let _ = j.child.kill();
                    let _ = j.child.wait();
                    failure = Some(format!("no progress for {} s", STEP_LIMIT.as_secs()));
                }
                None => {}
            }
            if let Some(f) = failure {
                let cur = j.journal.0[0].load(Relaxed);
                if cur == 0 {
                    eprintln!("worker {} failed before its first case: {}", j.k, f);
                    broken = true;
                    continue;
                }
                crashed.push((cur - 1, f));
                j.crashes += 1;
                if j.crashes >= 3 {
                    continue;
                }
                j.journal.0[0].store(0, Relaxed);
                j.journal.0[1].store(0, Relaxed);
                j.child = spawn(&j.base.clone());
                j.since = Instant::now();
            }
            still.push(i);
        }
        active = still;
        std::thread::sleep(Duration::from_millis(15));
    }

    for (idx, f) in crashed {
        let o = Command::new(&exe).arg(check.id).args(["--tier", tier_name, "--describe", &idx.to_string()]).output().unwrap();
        violations.push(Violation { idx, desc: String::from_utf8_lossy(&o.stdout).trim_end().to_string(), detail: f });
    }
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<(u64, String)> = vec![];
    let mut states: Vec<u64> = vec![];
    let mut total_cases = 0u64;
    let mut complete = true;
    for j in &jobs {
        let text = fs::read_to_string(j.base.with_extension("out")).unwrap_or_default();
        let mut finished = false;
        for l in text.lines() {
            let p: Vec<&str> = l.split('\t').collect();
            match p[0] {
                "V" => violations.push(Violation { idx: p[1].parse().unwrap(), desc: unescape(p[2]), detail: unescape(p[3]) }),
                "C" => *counters.entry(p[1].to_string()).or_insert(0) += p[2].parse::<u64>().unwrap(),
                "T" => total_cases = total_cases.max(p[1].parse().unwrap()),
                "S" => samples.push((p[1].parse().unwrap(), unescape(p[2]))),
                "D" => finished = true,
                _ => {}
            }
        }
        complete &= finished;
        if let Ok(b) = fs::read(j.base.with_extension("states")) {
            states.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
        }
    }
    states.sort_unstable();
    states.dedup();
    let _ = fs::remove_dir_all(&dir);

    let known: Vec<(String, String)> = fs::read_to_string(&a.known)
        .unwrap_or_default()
        .lines()
        .filter_map(|l| l.strip_prefix(&format!("known: property={} case=", check.id)))
        .filter_map(|l| l.split_once(" ## "))
        .map(|(c, w)| (c.trim().to_string(), w.trim().to_string()))
        .collect();
    violations.sort_by_key(|v| v.idx);
    let mut fresh = vec![];
    let mut found = vec![];
    for v in violations {
        match known.iter().find(|(c, _)| *c == v.desc) {
            Some((c, w)) => {
                println!("KNOWN-FINDING: property={} {} [{}]", check.id, w, c);
                found.push(c.clone());
            }
            None => fresh.push(v),
        }
    }

    let mut e = String::from("{\n");
    let _ = writeln!(e, " \"property\": {},", json(check.id));
    let _ = writeln!(e, " \"tier\": {},", json(tier_name));
    let _ = writeln!(e, " \"seed\": {},", a.seed);
    let _ = writeln!(e, " \"level\": \"model_checking\",");
    let _ = writeln!(e, " \"coverage\": {{");
    let _ = writeln!(e, "  \"states\": {},", states.len());
    let get = |k: &str| counters.get(k).copied().unwrap_or(0);
    let _ = writeln!(e, "  \"transitions\": {},", get("transitions"));
    let _ = writeln!(e, "  \"traces_validated_against_impl\": {},", get("traces"));
    let _ = writeln!(e, "  \"cases_executed\": {},", get("cases"));
    for (k, v) in &counters {
        if !["transitions", "traces", "cases"].contains(&k.as_str()) {
            let _ = writeln!(e, "  {}: {},", json(k), v);
        }
    }
    let exhaustive = complete && fresh.is_empty() && get("truncated") == 0 && get("cases") + found.len() as u64 >= total_cases;
    let _ = writeln!(e, "  \"exhaustive\": {},", exhaustive);
    let _ = writeln!(e, "  \"hooks\": {},", cfg!(mollusc_verif));
    let _ = writeln!(e, "  \"rule\": {},", json(check.rule));
    samples.sort();
    samples.truncate(24);
    let s: Vec<String> = samples.iter().map(|(_, s)| json(s)).collect();
    let _ = writeln!(e, "  \"samples\": [{}]", s.join(",\n   "));
    let _ = writeln!(e, " }},");
    let s: Vec<String> = check.assumptions.iter().map(|s| json(s)).collect();
    let _ = writeln!(e, " \"assumptions\": [{}],", s.join(",\n  "));
    let _ = writeln!(e, " \"wall_s\": {:.2},", start.elapsed().as_secs_f64());
    let _ = writeln!(e, " \"violations\": {}", fresh.len());
    e.push_str("}\n");
    fs::write(&evidence, e).unwrap();

    println!(
        "{} ({}): {} cases, {} states, {} transitions, {} traces, {:.1} s{}",
        check.id,
        tier_name,
        get("cases"),
        states.len(),
        get("transitions"),
        get("traces"),
        start.elapsed().as_secs_f64(),
        if cfg!(mollusc_verif) { "" } else { " (without hooks)" },
    );
    if fresh.is_empty() {
        return if broken || !complete { 2 } else { 0 };
    }
    let replay = a.out.join(format!("replay-{}.txt", check.id));
    let mut r = String::new();
    for (n, v) in fresh.iter().take(10).enumerate() {
        if n == 0 {
            let _ = writeln!(r, "property: {}\ntier: {}\nindex: {}", check.id, tier_name, v.idx);
        }
        let _ = writeln!(r, "case {}: {}\n  {}", v.idx, v.desc, v.detail);
        if n < 5 {
            println!("case {}: {}\n  {}", v.idx, v.desc, v.detail);
        }
    }
    fs::write(&replay, r).unwrap();
    println!("VIOLATION property={} replay={}", check.id, replay.display());
    1
}
