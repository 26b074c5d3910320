//! Exhaustive enumeration engine: a check is a list of sections, a section is a finite, indexed
//! space of cases (histories, inputs, fault scenarios), and every index is executed on the real code.
use std::any::Any;
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type R = Result<(), String>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn pick<T>(self, q: T, t: T) -> T {
        match self {
            Tier::Quick => q,
            Tier::Thorough => t,
        }
    }
    pub fn name(self) -> &'static str {
        self.pick("quick", "thorough")
    }
}

/// Small fast hasher (FNV-1a over 8-byte words with a final mix).
#[derive(Clone, Copy)]
pub struct Fx(pub u64);
impl Default for Fx {
    fn default() -> Self {
        Fx(0xcbf29ce484222325)
    }
}
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        mix(self.0)
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut a = [0u8; 8];
            a[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(a) ^ ((c.len() as u64) << 56));
        }
    }
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64)
    }
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64)
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0 ^ v).wrapping_mul(0x100000001b3).rotate_left(23) ^ (self.0 >> 31);
    }
}
pub fn mix(mut x: u64) -> u64 {
    x ^= x >> 33;
    x = x.wrapping_mul(0xff51afd7ed558ccd);
    x ^= x >> 33;
    x = x.wrapping_mul(0xc4ceb9fe1a85ec53);
    x ^ (x >> 33)
}
pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = Fx::default();
    t.hash(&mut h);
    h.finish()
}

const SET_CAP: usize = 3_000_000;

/// Per-worker accounting and resources.
pub struct W {
    pub id: usize,
    pub dir: PathBuf,
    pub evals: u64,
    pub nontrivial: u64,
    pub transitions: u64,
    pub traces: u64,
    pub outcomes: HashSet<u64>,
    pub states: HashSet<u64>,
    pub extra: HashMap<&'static str, u64>,
    obs: Fx,
    beats: u64,
    slot: Option<&'static Slot>,
    store: HashMap<&'static str, Box<dyn Any>>,
}
impl W {
    pub fn new(id: usize, dir: PathBuf, slot: Option<&'static Slot>) -> W {
        W {
            id,
            dir,
            evals: 0,
            nontrivial: 0,
            transitions: 0,
            traces: 0,
            outcomes: HashSet::new(),
            states: HashSet::new(),
            extra: HashMap::new(),
            obs: Fx::default(),
            beats: 0,
            slot,
            store: HashMap::new(),
        }
    }
    /// This case reached the behaviour the section is about.
    pub fn nt(&mut self) {
        self.nontrivial += 1;
    }
    /// Something observed on the implementation in this case (also feeds the parity digest).
    pub fn obs<T: Hash + ?Sized>(&mut self, t: &T) {
        t.hash(&mut self.obs);
    }
    pub fn state(&mut self, h: u64) {
        if self.states.len() < SET_CAP {
            self.states.insert(h);
        }
    }
    pub fn count(&mut self, k: &'static str, n: u64) {
        *self.extra.entry(k).or_insert(0) += n;
    }
    /// A long case is still making progress.
    pub fn beat(&mut self) {
        self.beats += 1;
        if let Some(s) = self.slot {
            s.beats.store(self.beats, Relaxed);
        }
    }
    /// A lazily created per-worker resource, taken out while in use.
    pub fn take<T: 'static>(&mut self, key: &'static str, mk: impl FnOnce(&W) -> T) -> T {
        match self.store.remove(key) {
            Some(b) => *b.downcast::<T>().expect("store type"),
            None => mk(self),
        }
    }
    pub fn put<T: 'static>(&mut self, key: &'static str, v: T) {
        self.store.insert(key, Box::new(v));
    }
}

pub type RunFn = Box<dyn Fn(u64, &mut W) -> R + Send + Sync>;
pub type ShowFn = Box<dyn Fn(u64) -> String + Send + Sync>;

pub struct Section {
    pub name: &'static str,
    pub n: u64,
    pub run: RunFn,
    pub show: ShowFn,
    /// Taken into the comparison of build configurations (C27).
    pub parity: bool,
    /// Cases are run one at a time.
    pub serial: bool,
}
impl Section {
    pub fn new(
        name: &'static str,
        n: u64,
        run: impl Fn(u64, &mut W) -> R + Send + Sync + 'static,
        show: impl Fn(u64) -> String + Send + Sync + 'static,
    ) -> Section {
        Section {
            name,
            n,
            run: Box::new(run),
            show: Box::new(show),
            parity: false,
            serial: false,
        }
    }
    pub fn parity(mut self) -> Self {
        self.parity = true;
        self
    }
    pub fn serial(mut self) -> Self {
        self.serial = true;
        self
    }
}

pub struct Check {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub sections: Vec<Section>,
}

// ---------------------------------------------------------------- panics

thread_local! {
    static PANIC: RefCell<Option<(String, bool)>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let (loc, ours) = match info.location() {
            Some(l) => (
                format!("{}:{}", l.file(), l.line()),
                l.file().starts_with("src/") && file_is_ours(l.file()),
            ),
            None => ("?".into(), false),
        };
        PANIC.with(|p| *p.borrow_mut() = Some((format!("panic '{msg}' at {loc}"), ours)));
    }));
}
fn file_is_ours(f: &str) -> bool {
    // paths of this crate are relative to it; those of lcms2 start with /repo
    !f.starts_with("/")
}
/// Runs `f`; a panic of the code under test becomes Err, a panic of the harness ends the run (exit 3).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let (msg, ours) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if ours {
                eprintln!("ENGINE ERROR: {msg}");
                std::process::exit(3);
            }
            Err(format!("aborted: {msg}"))
        }
    }
}

// ---------------------------------------------------------------- shared slots (crash and hang notes)

#[repr(C)]
pub struct Slot {
    pub section: AtomicU64,
    pub case: AtomicU64,
    pub beats: AtomicU64,
    pub live: AtomicU64,
}
pub const SLOTS: usize = 64;

extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
}

pub fn map_slots(path: &Path) -> &'static [Slot; SLOTS] {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new()
        .read(true)
        .write(true)
        .create(true)
        .truncate(false)
        .open(path)
        .expect("slots file");
    let sz = std::mem::size_of::<[Slot; SLOTS]>();
    f.set_len(sz as u64).expect("slots size");
    unsafe {
        let p = mmap(std::ptr::null_mut(), sz, 3, 1, f.as_raw_fd(), 0);
        assert!(p as isize != -1);
        &*(p as *const [Slot; SLOTS])
    }
}

// ---------------------------------------------------------------- running

pub struct Violation {
    pub section: usize,
    pub index: u64,
    pub what: String,
}

#[derive(Default)]
pub struct Totals {
    pub evals: u64,
    pub nontrivial: u64,
    pub transitions: u64,
    pub traces: u64,
    pub outcomes: HashSet<u64>,
    pub states: HashSet<u64>,
    pub extra: HashMap<&'static str, u64>,
}
impl Totals {
    fn add(&mut self, w: &mut W) {
        self.evals += w.evals;
        self.nontrivial += w.nontrivial;
        self.transitions += w.transitions;
        self.traces += w.traces;
        for o in w.outcomes.drain() {
            if self.outcomes.len() < SET_CAP {
                self.outcomes.insert(o);
            }
        }
        for o in w.states.drain() {
            if self.states.len() < 4 * SET_CAP {
                self.states.insert(o);
            }
        }
        for (k, v) in w.extra.drain() {
            *self.extra.entry(k).or_insert(0) += v;
        }
    }
}

pub fn workers() -> usize {
    std::thread::available_parallelism()
        .map(|n| n.get())
        .unwrap_or(4)
        .clamp(1, 16)
}

pub struct Known {
    pub entries: Vec<(String, String)>, // (property, "section: case")
}
impl Known {
    pub fn load() -> Known {
        let mut entries = vec![];
        if let Ok(t) = std::fs::read_to_string(verif_dir().join("KNOWN_FINDINGS.txt")) {
            for l in t.lines() {
                // finding: property=<id> case=[<section>: <case>] <what>
                if let Some(rest) = l.strip_prefix("finding: property=") {
                    if let Some((id, rest)) = rest.split_once(" case=[") {
                        if let Some((case, _)) = rest.split_once("] ") {
                            entries.push((id.to_string(), case.to_string()));
                        }
                    }
                }
            }
        }
        Known { entries }
    }
}

pub fn verif_dir() -> PathBuf {
    std::env::var_os("MC_VERIF")
        .map(PathBuf::from)
        .unwrap_or_else(|| PathBuf::from("/verif"))
}

/// Runs one section completely (or until no smaller violating index is possible).
fn run_section(
    check: &Check,
    si: usize,
    totals: &mut Totals,
    scratch: &Path,
    slots: Option<&'static [Slot; SLOTS]>,
    known: &[String],
    known_hits: &Mutex<Vec<String>>,
    digest: Option<&[AtomicU64]>,
) -> Option<Violation> {
    let sec = &check.sections[si];
    let nw = if sec.serial { 1 } else { workers() };
    let chunk = (sec.n / (nw as u64 * 64)).clamp(1, 1 << 16);
    let next = AtomicU64::new(0);
    let best: Mutex<Option<Violation>> = Mutex::new(None);
    let bound = AtomicU64::new(u64::MAX);
    let all = Mutex::new(std::mem::take(totals));
    // no thread starts or ends while another forks
    let gate = std::sync::Barrier::new(nw);
    std::thread::scope(|s| {
        for id in 0..nw {
            let (next, best, bound, all, gate) = (&next, &best, &bound, &all, &gate);
            std::thread::Builder::new()
                .stack_size(32 << 20)
                .spawn_scoped(s, move || {
                    let slot = slots.map(|s| &s[id]);
                    let dir = scratch.join(format!("w{id}"));
                    let _ = std::fs::create_dir_all(&dir);
                    let mut w = W::new(id, dir, slot);
                    let cur = std::cell::Cell::new(0u64);
                    gate.wait();
                    loop {
                        let lo = next.fetch_add(chunk, Relaxed);
                        if lo >= sec.n || lo >= bound.load(Relaxed) {
                            break;
                        }
                        let hi = (lo + chunk).min(sec.n);
                        let mut at = lo;
                        while at < hi {
                            let res = guarded(|| {
                                for i in at..hi {
                                    cur.set(i);
                                    if let Some(s) = slot {
                                        s.case.store(i, Relaxed);
                                        s.section.store(si as u64, Relaxed);
                                        s.live.store(1, Relaxed);
                                    }
                                    w.obs = Fx::default();
                                    w.evals += 1;
                                    let r = (sec.run)(i, &mut w);
                                    finish_case(&mut w, i, sec.n, digest);
                                    if let Err(e) = r {
                                        return Some((i, e));
                                    }
                                }
                                None
                            });
                            let v = match res {
                                Ok(None) => break,
                                Ok(Some(v)) => v,
                                Err(p) => {
                                    w.obs("panic");
                                    finish_case(&mut w, cur.get(), sec.n, digest);
                                    (cur.get(), p)
                                }
                            };
                            at = v.0 + 1;
                            if digest.is_some() {
                                continue;
                            }
                            if !known.is_empty() {
                                let key = format!("{}: {}", sec.name, (sec.show)(v.0));
                                if known.iter().any(|k| *k == key) {
                                    known_hits.lock().unwrap().push(key);
                                    continue;
                                }
                            }
                            let mut b = best.lock().unwrap();
                            if b.as_ref().map_or(true, |b| v.0 < b.index) {
                                bound.store(v.0, Relaxed);
                                *b = Some(Violation {
                                    section: si,
                                    index: v.0,
                                    what: v.1,
                                });
                            }
                            break;
                        }
                    }
                    if let Some(s) = slot {
                        s.live.store(0, Relaxed);
                    }
                    all.lock().unwrap().add(&mut w);
                    gate.wait();
                })
                .expect("spawn worker");
        }
    });
    *totals = all.into_inner().unwrap();
    best.into_inner().unwrap()
}

pub const BLOCKS: usize = 4096;
pub fn block_of(i: u64, n: u64) -> usize {
    ((i as u128 * BLOCKS as u128) / n.max(1) as u128) as usize
}
fn finish_case(w: &mut W, i: u64, n: u64, digest: Option<&[AtomicU64]>) {
    let h = w.obs.finish();
    if w.outcomes.len() < 200_000 {
        w.outcomes.insert(h);
    }
    if let Some(d) = digest {
        d[block_of(i, n)].fetch_add(mix(h ^ mix(i)), Relaxed);
    }
}

pub fn scratch_base() -> PathBuf {
    for d in ["/dev/shm", "/tmp"] {
        let p = Path::new(d).join(format!("lcms2mc.{}", std::process::id()));
        if std::fs::create_dir_all(&p).is_ok() {
            return p;
        }
    }
    std::env::temp_dir()
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn build_name() -> &'static str {
    if cfg!(mc_sched) {
        return "scheduled";
    }
    match (cfg!(feature = "le"), cfg!(debug_assertions)) {
        (false, true) => "checked",
        (false, false) => "plain",
        (true, true) => "checked+little-endian",
        (true, false) => "plain+little-endian",
    }
}

#[allow(clippy::too_many_arguments)]
pub fn write_evidence(
    check: &Check,
    tier: Tier,
    t: &Totals,
    wall: f64,
    violations: u64,
    sections_done: usize,
    known: &[String],
    part: Option<&str>,
) {
    let seed: u64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(0);
    let mut samples = vec![];
    let mut secs = vec![];
    for (i, s) in check.sections.iter().enumerate() {
        if s.n > 0 && samples.len() < 12 {
            let k = s.n / 2;
            samples.push(json_str(&format!("{}[{}]: {}", s.name, k, (s.show)(k))));
        }
        secs.push(format!(
            "{{\"name\":{},\"cases\":{},\"explored_completely\":{}}}",
            json_str(s.name),
            s.n,
            i < sections_done && violations == 0
        ));
    }
    let mut extra = String::new();
    let mut ks: Vec<_> = t.extra.iter().collect();
    ks.sort();
    for (k, v) in ks {
        extra.push_str(&format!(",{}:{}", json_str(k), v));
    }
    let cov = format!(
        "{{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"distinct_outcomes_observed\":{},\"exhaustive\":{},\"build\":{},\"sections\":[{}],\"samples\":[{}],\"known_findings_hit\":{}{}}}",
        t.evals, t.nontrivial, json_str(check.rule), t.states.len(), t.transitions, t.traces, t.outcomes.len(),
        violations == 0 && sections_done == check.sections.len(),
        json_str(build_name()),
        secs.join(","), samples.join(","), known.len(), extra
    );
    let assum: Vec<_> = check.assumptions.iter().map(|a| json_str(a)).collect();
    let text = format!(
        "{{\"property\":\"{}\",\"tier\":\"{}\",\"seed\":{},\"level\":\"{}\",\"coverage\":{},\"assumptions\":[{}],\"wall_s\":{:.3},\"violations\":{}}}\n",
        check.id, tier.name(), seed, check.level, cov, assum.join(","), wall, violations
    );
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let name = match part {
        Some(p) => format!("{}.{}.part", check.id, p),
        None => format!("{}.json", check.id),
    };
    let _ = std::fs::write(dir.join(name), text);
}

pub fn report(check: &Check, tier: Tier, v: &Violation) {
    let sec = &check.sections[v.section];
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!(
        "{}-{}-{}.replay",
        check.id,
        sec.name.replace(|c: char| !c.is_ascii_alphanumeric(), "_"),
        v.index
    ));
    let show = (sec.show)(v.index);
    let text = format!(
        "property={}\nsection={}\nindex={}\ntier={}\nbuild={}\ncase={}\nwhat={}\nreplay_with=./check.sh replay {}\n",
        check.id,
        sec.name,
        v.index,
        tier.name(),
        build_name(),
        show.replace('\n', " "),
        v.what.replace('\n', " "),
        path.display()
    );
    let _ = std::fs::write(&path, text);
    println!("{} [{} #{}] {}\n  {}", check.id, sec.name, v.index, show, v.what);
    println!("VIOLATION property={} replay={}", check.id, path.display());
}

/// In the child process: run the whole check.
pub fn child_main(check: Check, tier: Tier, scratch: &Path, slots_path: &Path) -> i32 {
    let t0 = Instant::now();
    unsafe {
        // a runaway allocation of the code under test must not take the sandbox with it
        setrlimit(9, &[24u64 << 30, 24u64 << 30]);
    }
    let slots = map_slots(slots_path);
    let known: Vec<String> = Known::load()
        .entries
        .into_iter()
        .filter(|e| e.0 == check.id)
        .map(|e| e.1)
        .collect();
    let hits = Mutex::new(vec![]);
    let mut totals = Totals::default();
    let mut done = 0;
    let mut viol = None;
    let verbose = std::env::var_os("MC_VERBOSE").is_some();
    for si in 0..check.sections.len() {
        let s0 = Instant::now();
        let v = run_section(&check, si, &mut totals, scratch, Some(slots), &known, &hits, None);
        if verbose {
            eprintln!(
                "  {} {}: {} cases, {:.2}s",
                check.id,
                check.sections[si].name,
                check.sections[si].n,
                s0.elapsed().as_secs_f64()
            );
        }
        if v.is_some() {
            viol = v;
            break;
        }
        done += 1;
    }
    let mut hits = hits.into_inner().unwrap();
    hits.sort();
    hits.dedup();
    for h in &hits {
        println!("KNOWN-FINDING: property={} {}", check.id, h);
    }
    let part = std::env::var("MC_PART").ok();
    write_evidence(
        &check,
        tier,
        &totals,
        t0.elapsed().as_secs_f64(),
        viol.is_some() as u64,
        done,
        &hits,
        part.as_deref(),
    );
    match viol {
        Some(v) => {
            report(&check, tier, &v);
            1
        }
        None => {
            let d = crate::explore::DIVERGED.load(Relaxed);
            if d > 0 {
                eprintln!("{}: engine error: {d} replayed prefixes met other choice points", check.id);
                return 3;
            }
            println!(
                "{} held on {} cases ({} build, {:.1}s)",
                check.id,
                totals.evals,
                build_name(),
                t0.elapsed().as_secs_f64()
            );
            0
        }
    }
}

/// One case alone, in this process. Exit code: 0 held, 1 violated, 3 no such case.
pub fn one_main(check: &Check, section: &str, index: u64, scratch: &Path) -> i32 {
    let Some(sec) = check.sections.iter().find(|s| s.name == section) else {
        return 3;
    };
    if index >= sec.n {
        return 3;
    }
    let dir = scratch.join("one");
    let _ = std::fs::create_dir_all(&dir);
    let mut w = W::new(0, dir, None);
    println!("case: {}", (sec.show)(index));
    match guarded(|| (sec.run)(index, &mut w)) {
        Ok(Ok(())) => {
            println!("held");
            0
        }
        Ok(Err(e)) | Err(e) => {
            println!("VIOLATED: {e}");
            1
        }
    }
}

/// Observation digests of the sections marked for parity: one line per block.
pub fn digest_main(checks: Vec<Check>, scratch: &Path) -> i32 {
    for check in &checks {
        for si in 0..check.sections.len() {
            let sec = &check.sections[si];
            if !sec.parity {
                continue;
            }
            let d: Vec<AtomicU64> = (0..BLOCKS).map(|_| AtomicU64::new(0)).collect();
            let mut t = Totals::default();
            run_section(check, si, &mut t, scratch, None, &[], &Mutex::new(vec![]), Some(&d));
            println!("{}\t{}\t{}\t{}", check.id, sec.name, sec.n, t.evals);
            let line: Vec<String> = d.iter().map(|x| format!("{:x}", x.load(Relaxed))).collect();
            println!("{}", line.join(" "));
        }
    }
    0
}

/// Per-case observation hashes of one block.
pub fn dump_main(check: &Check, section: &str, block: usize, scratch: &Path) -> i32 {
    let Some(sec) = check.sections.iter().find(|s| s.name == section) else {
        return 3;
    };
    let mut w = W::new(0, scratch.join("dump"), None);
    let _ = std::fs::create_dir_all(&w.dir);
    let n = sec.n;
    let lo = ((block as u128 * n as u128) / BLOCKS as u128).saturating_sub(2) as u64;
    let mut i = lo;
    while i < n && block_of(i, n) <= block {
        if block_of(i, n) == block {
            w.obs = Fx::default();
            let r = guarded(|| (sec.run)(i, &mut w));
            if let Err(p) = &r {
                w.obs("panic");
                println!("{} {:x} {}", i, w.obs.finish(), p.replace('\n', " "));
            } else {
                println!("{} {:x}", i, w.obs.finish());
            }
        }
        i += 1;
    }
    0
}

// ---------------------------------------------------------------- parent

pub enum Ended {
    Code(i32),
    Abnormal(String),
    Stuck,
}

/// Supervises a child; `slots` tell whether it still makes progress.
fn supervise(
    mut child: std::process::Child,
    slots: Option<&'static [Slot; SLOTS]>,
    stall: Duration,
    total: Duration,
) -> Ended {
    use std::os::unix::process::ExitStatusExt;
    let t0 = Instant::now();
    let mut last: Vec<((u64, u64, u64), Instant)> = vec![((u64::MAX, 0, 0), Instant::now()); SLOTS];
    loop {
        if let Ok(Some(st)) = child.try_wait() {
            return match (st.code(), st.signal()) {
                (Some(c), _) => Ended::Code(c),
                (_, s) => Ended::Abnormal(format!("ended by signal {s:?}")),
            };
        }
        let mut stuck = t0.elapsed() > total;
        if let Some(slots) = slots {
            for (i, s) in slots.iter().enumerate() {
                let now = (s.section.load(Relaxed), s.case.load(Relaxed), s.beats.load(Relaxed));
                if s.live.load(Relaxed) == 0 || now != last[i].0 {
                    last[i] = (now, Instant::now());
                } else if last[i].1.elapsed() > stall {
                    stuck = true;
                }
            }
        }
        if stuck {
            let _ = child.kill();
            let _ = child.wait();
            return Ended::Stuck;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

pub fn parent_main(check: Check, tier: Tier) -> i32 {
    let t0 = Instant::now();
    let exe = std::env::current_exe().expect("exe");
    let scratch = scratch_base();
    let slots_path = scratch.join("slots");
    let slots = map_slots(&slots_path);
    let child = std::process::Command::new(&exe)
        .args(["child", check.id, tier.name()])
        .arg(&scratch)
        .arg(&slots_path)
        .spawn()
        .expect("spawn");
    let total = Duration::from_secs(tier.pick(800, 6 * 3600));
    let ended = supervise(child, Some(slots), Duration::from_secs(40), total);
    let code = match ended {
        Ended::Code(c @ (0 | 1)) => c,
        other => {
            let how = match &other {
                Ended::Code(c) => format!("exit code {c}"),
                Ended::Abnormal(s) => s.clone(),
                Ended::Stuck => "no progress".to_string(),
            };
            let mut code = 3;
            if !matches!(other, Ended::Code(_)) {
                // confirm, case by case, in fresh processes
                let mut suspects: Vec<(u64, u64)> = slots
                    .iter()
                    .filter(|s| s.live.load(Relaxed) == 1)
                    .map(|s| (s.section.load(Relaxed), s.case.load(Relaxed)))
                    .collect();
                suspects.sort();
                suspects.dedup();
                for (si, idx) in suspects {
                    let Some(sec) = check.sections.get(si as usize) else {
                        continue;
                    };
                    let c = std::process::Command::new(&exe)
                        .args(["one", check.id, tier.name(), sec.name, &idx.to_string()])
                        .stdout(std::process::Stdio::null())
                        .spawn()
                        .expect("spawn");
                    let what = match supervise(c, None, Duration::MAX, Duration::from_secs(120)) {
                        Ended::Code(_) => continue,
                        Ended::Abnormal(s) => format!("the process was killed: {s}"),
                        Ended::Stuck => "does not terminate (120 s)".to_string(),
                    };
                    report(
                        &check,
                        tier,
                        &Violation {
                            section: si as usize,
                            index: idx,
                            what,
                        },
                    );
                    write_evidence(
                        &check,
                        tier,
                        &Totals::default(),
                        t0.elapsed().as_secs_f64(),
                        1,
                        0,
                        &[],
                        std::env::var("MC_PART").ok().as_deref(),
                    );
                    code = 1;
                    break;
                }
            }
            if code == 3 {
                eprintln!("{}: engine error: child {how}, not reproduced by a single case", check.id);
            }
            code
        }
    };
    let _ = std::fs::remove_dir_all(&scratch);
    code
}

pub static STOP: AtomicBool = AtomicBool::new(false);

// ---------------------------------------------------------------- index helpers

/// Mixed-radix digits of `i`, least significant first.
pub fn digits(mut i: u64, radix: &[u64]) -> Vec<u64> {
    radix
        .iter()
        .map(|r| {
            let d = i % r;
            i /= r;
            d
        })
        .collect()
}
pub fn product(radix: &[u64]) -> u64 {
    radix.iter().product()
}
/// Number of sequences over `k` symbols with length 0..=d.
pub fn seqs(k: u64, d: u32) -> u64 {
    (0..=d).map(|l| k.pow(l)).sum()
}
/// The i-th such sequence, shortest first.
pub fn seq(mut i: u64, k: u64, d: u32, out: &mut Vec<u32>) {
    out.clear();
    let mut l = 0;
    while l < d && i >= k.pow(l) {
        i -= k.pow(l);
        l += 1;
    }
    for _ in 0..l {
        out.push((i % k) as u32);
        i /= k;
    }
    out.reverse();
}
