//! C17: every schedule, up to a number of preemptions, of threads that open profiles. The threads are
//! real ones running the real code; a token decides which of them moves. Scheduling points are the
//! basic blocks of the code under test (and of once_cell), its memory accesses, its system calls and
//! its futex calls, by compiler instrumentation (instrument.sh) and interposed libc entry points.
use crate::engine::*;
use crate::profile::*;
use lcms2::state::{Context, ErrorCode};
use lcms2::types::Profile;
use std::cell::Cell;
use std::collections::{HashMap, HashSet};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering::*};
use std::sync::Mutex;

const MAXT: usize = 66;
/// log entries a run may have
const LOG: usize = 1 << 21;
const TRACE: usize = 1 << 18;

extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
}

/// What a run leaves for its parent.
#[repr(C)]
struct Shared {
    /// 0 not finished, 1 finished, 2 deadlock, 3 no progress
    verdict: u64,
    points: u64,
    switches: u64,
    ntrace: u64,
    outcome: [[u64; 8]; MAXT],
    /// handler calls of each operation, one byte each: context (0 the process-wide one), code
    calls: [[u64; 8]; MAXT],
    nout: [u64; MAXT],
    /// points each thread passed, when scripted
    passed: [u64; MAXT],
    blocked: [u64; MAXT],
    text: [u8; 512],
    log: [u8; LOG],
    trace: [(u64, u64); TRACE],
}
struct Arena(*mut Shared);
unsafe impl Send for Arena {}
impl Arena {
    fn new() -> Arena {
        unsafe {
            // shared, anonymous, no reserve
            let p = mmap(std::ptr::null_mut(), std::mem::size_of::<Shared>(), 3, 0x4021, -1, 0);
            assert!(p as isize != -1);
            Arena(p as *mut Shared)
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
    Run,
    Blocked(usize),
    Timed(usize),
    Done,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    /// system and futex calls
    Calls,
    /// those and every basic block
    Blocks,
    /// system calls and accesses to memory that several threads use
    Accesses,
}
struct How {
    mode: Mode,
    /// judge the handler calls, not the results
    handlers: bool,
    script: Option<Script>,
    /// mode Accesses: the accesses that are scheduling points, sorted
    pcs: Vec<u64>,
}
struct Sched {
    n: usize,
    st: [St; MAXT],
    mode: Mode,
    trace: bool,
    devs: Vec<(u32, u8)>,
    next_dev: usize,
    out: *mut Shared,
    alone: u64,
    total: u64,
    stack: [usize; MAXT],
    script: Option<Script>,
}
/// Every thread runs up to its `park`th point before any goes on; then each runs to its end.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct Script {
    park: u64,
    backwards: bool,
    released: bool,
}
static mut S: *mut Sched = std::ptr::null_mut();
/// addresses of the accesses that are scheduling points in mode Accesses
static mut PCS: &[u64] = &[];
static WAKE: [AtomicU32; MAXT] = [const { AtomicU32::new(0) }; MAXT];
static FINISHED: AtomicU32 = AtomicU32::new(0);
const NONE: usize = usize::MAX;
thread_local! {
    static ME: Cell<usize> = const { Cell::new(NONE) };
}

unsafe fn futex(a: usize, op: usize, v: usize) -> isize {
    let r: isize;
    std::arch::asm!("syscall", inlateout("rax") 202isize => r, in("rdi") a, in("rsi") op, in("rdx") v,
        in("r10") 0usize, in("r8") 0usize, in("r9") 0usize, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
fn wait_for(w: &AtomicU32) {
    let mut spins = 0;
    while w.load(Acquire) == 0 {
        spins += 1;
        if spins < 300 {
            std::hint::spin_loop();
        } else {
            unsafe { futex(w.as_ptr() as usize, 128, 0) };
        }
    }
    w.store(0, Relaxed);
}
fn hand_to(t: usize) {
    WAKE[t].store(1, Release);
    unsafe { futex(WAKE[t].as_ptr() as usize, 129, 1) };
}
unsafe fn end(verdict: u64, why: &str) -> ! {
    let s = &mut *S;
    let o = &mut *s.out;
    for (i, st) in s.st.iter().enumerate().take(s.n) {
        o.blocked[i] = matches!(st, St::Blocked(_)) as u64;
    }
    let b = why.as_bytes();
    o.text[..b.len().min(512)].copy_from_slice(&b[..b.len().min(512)]);
    std::ptr::write_volatile(&mut o.verdict, verdict);
    _exit(0)
}
/// The runnable threads other than `me`, next ones first.
unsafe fn others(me: usize) -> ([u8; MAXT], usize) {
    let s = &*S;
    let mut v = [0u8; MAXT];
    let mut k = 0;
    for d in 1..s.n {
        let t = (me + d) % s.n;
        if s.st[t] == St::Run {
            v[k] = t as u8;
            k += 1;
        }
    }
    (v, k)
}
/// Records a choice among `alts` and returns the pick of this run's schedule.
unsafe fn choice(alts: usize, free: bool) -> usize {
    let s = &mut *S;
    let o = &mut *s.out;
    let i = o.points as usize;
    if i >= LOG {
        end(3, "more scheduling points than a run may have");
    }
    o.log[i] = alts as u8 | if free { 0x80 } else { 0 };
    o.points += 1;
    match s.devs.get(s.next_dev) {
        Some((at, pick)) if *at as usize == i => {
            s.next_dev += 1;
            (*pick as usize).min(alts - 1)
        }
        _ => 0,
    }
}
unsafe fn switch(me: usize, to: usize) {
    let s = &mut *S;
    s.alone = 0;
    (*s.out).switches += 1;
    hand_to(to);
    wait_for(&WAKE[me]);
}
/// The running thread may lose the token here.
unsafe fn point(me: usize) {
    let s = &mut *S;
    s.total += 1;
    s.alone += 1;
    if s.total > 4_000_000 {
        end(3, "the threads make no progress");
    }
    if let Some(sc) = s.script {
        let o = &mut *s.out;
        o.passed[me] += 1;
        if !sc.released && o.passed[me] == sc.park {
            let run = |t: &usize| s.st[*t] == St::Run && o.passed[*t] < sc.park;
            match (0..s.n).find(run) {
                Some(t) => switch(me, t),
                None => release(me),
            }
            return;
        }
        if s.alone <= 30_000 {
            return;
        }
    }
    let (v, k) = others(me);
    if k == 0 {
        return;
    }
    if s.alone > 30_000 {
        // a thread that waits for another by spinning must let it run
        switch(me, v[0] as usize);
        return;
    }
    let c = choice(k + 1, false);
    if c > 0 {
        switch(me, v[c - 1] as usize);
    }
}
/// The running thread cannot go on (it is blocked, or done).
unsafe fn leave(me: usize, done: bool) {
    let s = &mut *S;
    let (v, k) = others(me);
    if k == 0 {
        if let Some(t) = (0..s.n).find(|t| matches!(s.st[*t], St::Timed(_))) {
            s.st[t] = St::Run;
            if t == me {
                return;
            }
            if done {
                hand_to(t);
            } else {
                switch(me, t);
            }
            return;
        }
        if (0..s.n).all(|t| s.st[t] == St::Done) {
            return;
        }
        end(2, "deadlock: every thread that is not done waits for another");
    }
    let mut c = if k > 1 { choice(k, true) } else { 0 };
    if let Some(sc) = s.script {
        // those that are not there yet come first
        let o = &*s.out;
        match (0..k).find(|c| !sc.released && o.passed[v[*c] as usize] < sc.park) {
            Some(at) => c = at,
            None => {
                s.script.as_mut().expect("scripted").released = true;
                c = pick(&v[..k], sc.backwards);
            }
        }
    }
    if done {
        s.alone = 0;
        (*s.out).switches += 1;
        hand_to(v[c] as usize);
    } else {
        switch(me, v[c] as usize);
    }
}
/// The one to go on when all have come to their point.
fn pick(v: &[u8], backwards: bool) -> usize {
    let it = v.iter().enumerate();
    let at = if backwards { it.max_by_key(|x| x.1) } else { it.min_by_key(|x| x.1) };
    at.expect("one runs").0
}
unsafe fn release(me: usize) {
    let s = &mut *S;
    let sc = s.script.as_mut().expect("scripted");
    sc.released = true;
    let back = sc.backwards;
    let mut it = (0..s.n).filter(|t| s.st[*t] == St::Run);
    let to = if back { it.last() } else { it.next() }.unwrap_or(me);
    if to != me {
        switch(me, to);
    }
}

unsafe fn on_syscall() {
    let me = ME.try_with(|m| m.get()).unwrap_or(NONE);
    if me != NONE {
        point(me);
    }
}
unsafe fn on_yield() -> bool {
    let Ok(me) = ME.try_with(|m| m.get()) else { return false };
    if me != NONE {
        let s = &mut *S;
        s.total += 1;
        if s.total > 4_000_000 {
            end(3, "the threads make no progress");
        }
        let (v, k) = others(me);
        if k > 0 {
            let c = if k > 1 { choice(k, true) } else { 0 };
            switch(me, v[c] as usize);
        }
    }
    me != NONE
}
unsafe fn on_futex(a: usize, op: usize, val: usize, timeout: usize, _e: usize, _f: usize) -> Option<isize> {
    let me = ME.get();
    if me == NONE {
        return None;
    }
    match op & 127 {
        0 | 9 => {
            point(me);
            if (*(a as *const AtomicU32)).load(SeqCst) != val as u32 {
                return Some(-11);
            }
            let s = &mut *S;
            s.st[me] = if timeout == 0 { St::Blocked(a) } else { St::Timed(a) };
            leave(me, false);
            if matches!(s.st[me], St::Timed(_)) {
                s.st[me] = St::Run;
                return Some(-110);
            }
            Some(0)
        }
        1 | 10 => {
            let s = &mut *S;
            let mut n = 0;
            for t in 0..s.n {
                if n < val && (s.st[t] == St::Blocked(a) || s.st[t] == St::Timed(a)) {
                    s.st[t] = St::Run;
                    n += 1;
                }
            }
            point(me);
            // someone outside the schedule may wait there as well
            futex(a, op, val);
            Some(n as isize)
        }
        _ => None,
    }
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    on_yield();
    0
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    while p < stop {
        *p = 1;
        p = p.add(1);
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(_g: *mut u32) {
    let Ok(me) = ME.try_with(|m| m.get()) else { return };
    if me != NONE && (*S).mode == Mode::Blocks {
        point(me);
    }
}
#[no_mangle]
unsafe extern "C" fn mc_access(addr: usize, pc: u64, write: usize) {
    let Ok(me) = ME.try_with(|m| m.get()) else { return };
    if me == NONE {
        return;
    }
    let s = &mut *S;
    let top = s.stack[me];
    if addr < top + (64 << 10) && addr + (1 << 20) > top {
        return; // its own stack
    }
    if s.trace {
        let o = &mut *s.out;
        let k = o.ntrace as usize;
        if k < TRACE {
            o.trace[k] = (pc, (addr as u64 >> 3) << 8 | (write as u64) << 7 | me as u64);
            o.ntrace += 1;
        }
    }
    if s.mode == Mode::Accesses && PCS.binary_search(&pc).is_ok() {
        point(me);
    }
}
std::arch::global_asm!(
    ".macro MCACC name, w",
    ".globl \\name",
    "\\name:",
    "mov rsi, [rsp]",
    "mov edx, \\w",
    "jmp {f}",
    ".endm",
    "MCACC __sanitizer_cov_load1, 0",
    "MCACC __sanitizer_cov_load2, 0",
    "MCACC __sanitizer_cov_load4, 0",
    "MCACC __sanitizer_cov_load8, 0",
    "MCACC __sanitizer_cov_load16, 0",
    "MCACC __sanitizer_cov_store1, 1",
    "MCACC __sanitizer_cov_store2, 1",
    "MCACC __sanitizer_cov_store4, 1",
    "MCACC __sanitizer_cov_store8, 1",
    "MCACC __sanitizer_cov_store16, 1",
    f = sym mc_access,
);

// ---------------------------------------------------------------- scenarios

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Do {
    /// open for reading through the process-wide context
    G(usize),
    /// ... through a context of the thread's own
    O(usize),
    /// open for writing (a path of the thread's own)
    Gw,
    Ow,
    /// work on objects of the thread's own: the kind and a choice of values
    Work(usize, u64),
}
use Do::*;
const GOOD: usize = 0;
const GOOD2: usize = 1;
const BAD: usize = 2;
const MANY: usize = 3;
const GONE: usize = 4;
const SHORT: usize = 5;
const FULL: usize = 6;
fn files17() -> Vec<(&'static str, Option<Vec<u8>>)> {
    let good = build(&header(180), 2, &[(sig4(b"desc"), 156, 20), (sig4(b"wtpt"), 156, 20)], 180);
    let mut h = header(200);
    for k in (4..24).chain(40..128) {
        h[k] ^= 0x5A;
    }
    h[25] = 99;
    let good2 = build(&h, 3, &[(sig4(b"A2B0"), 168, 8), (sig4(b"B2A0"), 176, 8), (sig4(b"cprt"), 168, 8)], 200);
    let mut bad = good.clone();
    bad[36] ^= 0x20;
    let mut many = good.clone();
    many[128..132].copy_from_slice(&crate::stream::b32(101));
    vec![
        ("good", Some(good.clone())),
        ("good2", Some(good2)),
        ("wrong-signature", Some(bad)),
        ("101-tags", Some(many)),
        ("missing", None),
        ("short", Some(good[..150].to_vec())),
        ("100-tags", Some(base100())),
    ]
}
struct Scenario {
    threads: Vec<Vec<Do>>,
    warm: bool,
}
fn sc(t: &[&[Do]], warm: bool) -> Scenario {
    Scenario {
        threads: t.iter().map(|x| x.to_vec()).collect(),
        warm,
    }
}
fn pairs() -> Vec<Scenario> {
    let ops = [G(GOOD), G(GOOD2), G(BAD), G(MANY), G(GONE), G(SHORT), O(GOOD), O(GOOD2), O(BAD), O(MANY), Gw, Ow];
    let mut v = vec![];
    for warm in [false, true] {
        for (k, a) in ops.iter().enumerate() {
            for b in &ops[..=k] {
                // a warm process-wide context only matters to those who use it
                let uses = |d: &Do| matches!(d, G(_) | Gw);
                if !warm || uses(a) || uses(b) {
                    v.push(sc(&[&[*a], &[*b]], warm));
                }
            }
        }
    }
    v
}
fn longer() -> Vec<Scenario> {
    vec![
        sc(&[&[G(GOOD), G(BAD)], &[G(GOOD2), O(GOOD)]], false),
        sc(&[&[G(BAD), G(GOOD)], &[G(BAD), G(GOOD2)]], false),
        sc(&[&[O(GOOD), O(BAD)], &[O(GOOD2), O(MANY)]], false),
        sc(&[&[Gw, G(GOOD)], &[G(MANY), Gw]], false),
        sc(&[&[G(GOOD), G(GOOD)], &[O(GOOD2), O(GOOD2)]], true),
        sc(&[&[G(FULL)], &[G(GOOD)]], false),
        sc(&[&[O(FULL)], &[O(GOOD)]], false),
    ]
}
fn threes() -> Vec<Scenario> {
    vec![
        sc(&[&[G(GOOD)], &[G(GOOD2)], &[G(BAD)]], false),
        sc(&[&[G(BAD)], &[G(MANY)], &[G(GONE)]], false),
        sc(&[&[O(GOOD)], &[O(GOOD2)], &[G(GOOD)]], false),
        sc(&[&[O(GOOD)], &[O(BAD)], &[O(GOOD2)]], false),
        sc(&[&[Gw], &[Ow], &[G(GOOD)]], false),
        sc(&[&[G(GOOD)], &[G(GOOD)], &[G(GOOD)]], true),
    ]
}

thread_local! {
    static CALLS: Cell<u64> = const { Cell::new(0) };
}
fn record(c: &mut Context, code: ErrorCode, _: String) {
    let who = c.get_user_data().and_then(|d| d.first().copied()).unwrap_or(0) as u64;
    CALLS.set(CALLS.get() << 8 | who << 4 | code as u64);
}
/// The context of thread `t`'s own.
fn make(t: usize) -> Context {
    let mut c = mcglue::new_context(Some(vec![t as u8 + 1].into()));
    if HANDLERS.load(Relaxed) {
        c.verif_set_error_handler(record);
    }
    c
}
/// Whether handlers are set that note their calls; the handlers are the default ones otherwise.
static HANDLERS: AtomicBool = AtomicBool::new(false);
enum Got {
    Profile(Option<Box<Profile>>),
    Values(Vec<u64>),
}
fn perform(d: Do, t: usize, own: &mut Option<Context>, paths: &[PathBuf], mine: &Path) -> Got {
    Got::Profile(match d {
        Work(k, v) => return Got::Values(mcglue::work(k, v, &[&paths[GOOD], &paths[GOOD2]], mine)),
        G(f) => mcglue::open(&paths[f], false).ok(),
        O(f) => mcglue::open_thr(own.get_or_insert_with(|| make(t)), &paths[f], false).ok(),
        Gw => mcglue::open(mine, true).ok(),
        Ow => mcglue::open_thr(own.get_or_insert_with(|| make(t)), mine, true).ok(),
    })
}
/// The handler calls operation `d` of thread `t` is to make.
fn expected_calls(d: Do, t: usize, warm: bool) -> u64 {
    match d {
        G(BAD) if warm => 11,
        G(MANY) if warm => 2,
        O(BAD) => (t as u64 + 1) << 4 | 11,
        O(MANY) => (t as u64 + 1) << 4 | 2,
        _ => 0,
    }
}
fn digest(d: Do, p: &Got) -> u64 {
    match p {
        Got::Values(v) => hash_of(v) | 2,
        Got::Profile(None) => 1,
        Got::Profile(Some(p)) => {
            let mut v = p.verif_view();
            if matches!(d, Gw | Ow) {
                v.created = chrono::NaiveDateTime::from_timestamp(0, 0);
            }
            let sigs: Vec<u32> = (0..101).map(|n| p.get_tag_signature(n).into()).collect();
            hash_of(&(view_hash(&v), p.get_tag_count(), sigs)) | 2
        }
    }
}

/// One run: the scenario under the schedule that deviates from the default at `devs`.
#[allow(clippy::too_many_arguments)]
fn run_once(sc: &Scenario, paths: &[PathBuf], dir: &Path, how: &How, trace: bool, devs: &[(u32, u8)], a: &Arena) -> Result<(), String> {
    unsafe {
        let o = &mut *a.0;
        o.verdict = 0;
        o.points = 0;
        o.switches = 0;
        o.ntrace = 0;
        o.nout = [0; MAXT];
        o.passed = [0; MAXT];
        let st = crate::modes::in_child(|| child(sc, paths, dir, how, trace, devs, a.0));
        match std::ptr::read_volatile(&o.verdict) {
            1 => Ok(()),
            0 => Err(format!("the process ended abnormally (status {st:#x})")),
            _ => {
                let n = o.text.iter().position(|b| *b == 0).unwrap_or(512);
                Err(String::from_utf8_lossy(&o.text[..n]).into_owned())
            }
        }
    }
}
unsafe fn child(sc: &Scenario, paths: &[PathBuf], dir: &Path, how: &How, trace: bool, devs: &[(u32, u8)], out: *mut Shared) -> ! {
    let n = sc.threads.len();
    HANDLERS.store(how.handlers, Relaxed);
    if sc.warm {
        drop(mcglue::open(&paths[GOOD], false));
        if how.handlers {
            Context::verif_set_global_error_handler(record);
        }
    }
    let mut s = Sched {
        n,
        st: [St::Run; MAXT],
        mode: how.mode,
        trace,
        devs: devs.to_vec(),
        next_dev: 0,
        out,
        alone: 0,
        total: 0,
        stack: [0; MAXT],
        script: how.script,
    };
    S = &mut s;
    PCS = &*(how.pcs.as_slice() as *const [u64]);
    crate::sys::FUTEX = Some(on_futex);
    crate::sys::POINT = Some(on_syscall);
    crate::sys::YIELD = Some(on_yield);
    for t in 0..n {
        let ops: Vec<Do> = sc.threads[t].clone();
        let paths: Vec<PathBuf> = paths.to_vec();
        let mine = dir.join(format!("mine{t}.icc"));
        std::thread::Builder::new()
            .stack_size(1 << 20)
            .spawn(move || {
                let here = 0u8;
                let mut got: Vec<(Do, Got, u64)> = Vec::with_capacity(8);
                (*S).stack[t] = &here as *const u8 as usize;
                FINISHED.fetch_add(1, SeqCst);
                wait_for(&WAKE[t]);
                ME.set(t);
                let mut own = None;
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    for d in ops {
                        CALLS.set(0);
                        let p = perform(d, t, &mut own, &paths, &mine);
                        got.push((d, p, CALLS.get()));
                    }
                }));
                let out = &mut *(*S).out;
                if r.is_err() {
                    ME.set(NONE);
                    end(3, "a thread was aborted");
                }
                // look at everything at the end: later opens of others must not have changed it
                let last = (*S).st.iter().take((*S).n).filter(|s| **s != St::Done).count() == 1;
                (*S).st[t] = St::Done;
                ME.set(NONE);
                for (k, (d, p, c)) in got.iter().enumerate() {
                    out.calls[t][k] = *c;
                    out.outcome[t][k] = digest(*d, p);
                    out.nout[t] = k as u64 + 1;
                }
                if last {
                    end(1, "");
                }
                leave(t, true);
                // keep what was opened until the process ends
                std::mem::forget((got, own));
                loop {
                    std::thread::park();
                }
            })
            .expect("spawn");
    }
    while FINISHED.load(SeqCst) < n as u32 {
        std::hint::spin_loop();
    }
    let first = if n > 1 { choice(n, true) } else { 0 };
    hand_to(first);
    loop {
        std::thread::park();
    }
}

/// What each operation gives alone, in a process of its own.
type Alone = HashMap<(u8, usize), u64>;
fn key(d: Do) -> (u8, usize) {
    match d {
        G(f) => (0, f),
        O(f) => (1, f),
        Gw => (2, 0),
        Ow => (3, 0),
        Work(k, v) => (4 + k as u8, v as usize),
    }
}
struct Lab {
    a: Arena,
    paths: Vec<PathBuf>,
    alone: Alone,
}
fn lab(w: &mut W) -> Result<Lab, String> {
    let files = files17();
    let paths = crate::ctx::lay_out(w, "f17", files.iter().map(|f| f.1.clone()).collect());
    let mut l = w.take("lab17", |_| Lab {
        a: Arena::new(),
        paths,
        alone: HashMap::new(),
    });
    if l.alone.is_empty() {
        let opens = [G(0), G(1), G(2), G(3), G(4), G(5), G(6), O(0), O(1), O(2), O(3), O(4), O(5), O(6), Gw, Ow];
        let works = (0..mcglue::WORKS.len()).flat_map(|k| [Work(k, 0), Work(k, 1)]);
        for d in opens.into_iter().chain(works) {
            run_once(&sc(&[&[d]], false), &l.paths, &w.dir, &How { mode: Mode::Calls, handlers: false, script: None, pcs: vec![] }, false, &[], &l.a).map_err(|e| format!("{d:?} alone: {e}"))?;
            l.alone.insert(key(d), unsafe { (*l.a.0).outcome[0][0] });
        }
    }
    Ok(l)
}
fn judge(sc: &Scenario, l: &Lab, how: &How) -> R {
    let o = unsafe { &*l.a.0 };
    for (t, ops) in sc.threads.iter().enumerate() {
        if o.nout[t] as usize != ops.len() {
            return Err(format!("thread {t} finished {} of {} operations", o.nout[t], ops.len()));
        }
        for (k, d) in ops.iter().enumerate() {
            if how.handlers {
                let (got, want) = (o.calls[t][k], expected_calls(*d, t, sc.warm));
                if got != want {
                    return Err(format!("thread {t}: open {} made the handler calls {got:#x} instead of {want:#x} (context, code each)", k + 1));
                }
                continue;
            }
            let (got, want) = (o.outcome[t][k], l.alone[&key(*d)]);
            if got != want {
                if let Work(kind, _) = d {
                    return Err(format!("thread {t}: operation {} ({}) gave other results than alone", k + 1, mcglue::WORKS[*kind]));
                }
                return Err(format!(
                    "thread {t}: open {} {}",
                    k + 1,
                    match (got, want) {
                        (1, _) => "failed, alone it succeeds",
                        (_, 1) => "succeeded, alone it fails",
                        _ => "gave another profile than alone",
                    }
                ));
            }
        }
    }
    Ok(())
}
#[allow(clippy::type_complexity)]
static SHARED_PCS: Mutex<Option<HashMap<(&'static str, u64), Option<Result<Vec<u64>, String>>>>> = Mutex::new(None);
static RUNS: AtomicU64 = AtomicU64::new(0);

/// Accesses to memory that more than one thread uses, one of them writing, seen in the last run.
fn shared_pcs(l: &Lab, into: &mut HashSet<u64>) {
    let o = unsafe { &*l.a.0 };
    let mut by: HashMap<u64, (u64, bool)> = HashMap::new();
    let tr = &o.trace[..o.ntrace as usize];
    for (_, x) in tr {
        let e = by.entry(x >> 8).or_insert((0, false));
        e.0 |= 1 << (x & 0x7f);
        e.1 |= x & 0x80 != 0;
    }
    for (pc, x) in tr {
        let e = by[&(x >> 8)];
        if e.0.count_ones() > 1 && e.1 {
            into.insert(*pc);
        }
    }
}
fn run(sc: &Scenario, l: &Lab, how: &How, trace: bool, devs: &[(u32, u8)], w: &mut W) -> Result<Vec<u8>, String> {
    w.beat();
    RUNS.fetch_add(1, Relaxed);
    let r = run_once(sc, &l.paths, &w.dir, how, trace, devs, &l.a).and_then(|_| judge(sc, l, how));
    let o = unsafe { &*l.a.0 };
    w.traces += 1;
    w.transitions += o.points;
    w.count("schedules", 1);
    w.state(hash_of(&(o.outcome, o.switches, o.points)));
    match r {
        Ok(()) => Ok(o.log[..o.points as usize].to_vec()),
        Err(e) => Err(format!(
            "{e}; schedule: {}",
            if devs.is_empty() {
                "each thread runs until it blocks or ends".into()
            } else {
                devs.iter()
                    .map(|(p, c)| format!("at point {p} go on with choice {c}"))
                    .collect::<Vec<_>>()
                    .join(", ")
            }
        )),
    }
}
const SHARDS: u64 = 64;

/// All schedules with at most `bound` preemptions whose first deviation lies in this shard.
fn explore_shard(sc: &Scenario, l: &Lab, how: &How, bound: u32, shard: u64, w: &mut W) -> R {
    let base = run(sc, l, how, false, &[], w)?;
    if shard == 0 {
        // the same schedule gives the same run
        let again = run(sc, l, how, false, &[], w)?;
        if again != base {
            crate::explore::DIVERGED.fetch_add(1, Relaxed);
        }
    }
    let firsts: Vec<usize> = (0..base.len()).filter(|i| *i as u64 % SHARDS == shard).collect();
    extend(sc, l, how, bound, &mut vec![], &base, &firsts, w)
}
#[allow(clippy::too_many_arguments)]
fn extend(sc: &Scenario, l: &Lab, how: &How, left: u32, devs: &mut Vec<(u32, u8)>, log: &[u8], at: &[usize], w: &mut W) -> R {
    // fewest deviations first: all of this level, then below
    let mut below = vec![];
    for i in at {
        let (alts, free) = (log[*i] & 0x7f, log[*i] & 0x80 != 0);
        if !free && left == 0 {
            continue;
        }
        for c in 1..alts {
            devs.push((*i as u32, c));
            let got = run(sc, l, how, false, devs, w)?;
            if got.len() <= *i || got[..*i] != log[..*i] {
                crate::explore::DIVERGED.fetch_add(1, Relaxed);
            }
            let left = if free { left } else { left - 1 };
            let more = left > 0 || got[*i + 1..].iter().any(|x| x & 0x80 != 0);
            if more {
                below.push((devs.clone(), left, got));
            }
            devs.pop();
        }
    }
    for (mut d, left, got) in below {
        let from = d.last().expect("deviated").0 as usize + 1;
        let at: Vec<usize> = (from..got.len()).collect();
        extend(sc, l, how, left, &mut d, &got, &at, w)?;
    }
    Ok(())
}
/// Scheduling points of mode Accesses for scenario `id`: found by tracing runs until none is new.
fn discover(id: (&'static str, u64), sc: &Scenario, l: &Lab, handlers: bool, w: &mut W) -> Result<Vec<u64>, String> {
    loop {
        let mut g = SHARED_PCS.lock().unwrap_or_else(|e| e.into_inner());
        match g.get_or_insert_with(HashMap::new).get(&id) {
            Some(Some(r)) => return r.clone(),
            // another worker is at it
            Some(None) => {
                drop(g);
                w.beat();
                std::thread::sleep(std::time::Duration::from_millis(2));
            }
            None => {
                g.as_mut().expect("map").insert(id, None);
                drop(g);
                let r = find_shared(sc, l, handlers, w);
                let mut g = SHARED_PCS.lock().unwrap_or_else(|e| e.into_inner());
                g.as_mut().expect("map").insert(id, Some(r.clone()));
                return r;
            }
        }
    }
}
fn find_shared(sc: &Scenario, l: &Lab, handlers: bool, w: &mut W) -> Result<Vec<u64>, String> {
    let mut found = HashSet::new();
    loop {
        let mut pcs: Vec<u64> = found.iter().copied().collect();
        pcs.sort_unstable();
        let how = How { mode: Mode::Accesses, handlers, script: None, pcs };
        let base = run(sc, l, &how, true, &[], w)?;
        shared_pcs(l, &mut found);
        for i in 0..base.len() {
            for c in 1..base[i] & 0x7f {
                run(sc, l, &how, true, &[(i as u32, c)], w)?;
                shared_pcs(l, &mut found);
            }
        }
        if found.len() == how.pcs.len() {
            return Ok(how.pcs);
        }
    }
}

fn section(name: &'static str, list: fn() -> Vec<Scenario>, mode: Mode, bound: u32, handlers: bool) -> Section {
    let n = list().len() as u64;
    let show = move |i: u64| {
        let s = &list()[(i / SHARDS) as usize];
        format!(
            "{} {}, shard {}, at most {bound} preemptions",
            s.threads.iter().map(|t| format!("{t:?}")).collect::<Vec<_>>().join(" || "),
            if s.warm { "after a first open" } else { "as the first opens of the process" },
            i % SHARDS
        )
    };
    Section::new(
        name,
        n * SHARDS,
        move |i, w| {
            let l = lab(w)?;
            let all = list();
            let s = &all[(i / SHARDS) as usize];
            let r = (|| {
                let mut how = How { mode, handlers, script: None, pcs: vec![] };
                if mode == Mode::Accesses {
                    how.pcs = discover((name, i / SHARDS), s, &l, handlers, w)?;
                    if i % SHARDS == 0 {
                        w.count("shared_access_sites", how.pcs.len() as u64);
                    }
                }
                explore_shard(s, &l, &how, bound, i % SHARDS, w)
            })();
            w.put("lab17", l);
            w.nt();
            r
        },
        show,
    )
}
/// What many threads do at once: the operation of thread `t`.
fn crowds(works: bool) -> Vec<(String, Box<dyn Fn(usize) -> Do + Send + Sync>)> {
    let mut v: Vec<(String, Box<dyn Fn(usize) -> Do + Send + Sync>)> = vec![];
    if works {
        for k in 0..mcglue::WORKS.len() {
            v.push((format!("all {}", mcglue::WORKS[k]), Box::new(move |t| Work(k, t as u64 % 2))));
        }
        v.push(("every kind of work".into(), Box::new(|t| Work(t % mcglue::WORKS.len(), t as u64 / 3 % 2))));
        v.push(("work and opens".into(), Box::new(|t| [Work(t % MIXED, 0), O(GOOD), Work(t % MIXED, 1), O(BAD)][t % 4])));
        return v;
    }
    v.push(("opens of one file".into(), Box::new(|_| O(GOOD))));
    v.push(("opens of two files".into(), Box::new(|t| O([GOOD, GOOD2][t % 2]))));
    v.push(("good and rejected opens".into(), Box::new(|t| O([GOOD, BAD, GOOD2, MANY][t % 4]))));
    v.push(("opens of every kind".into(), Box::new(|t| [O(GOOD), O(BAD), O(SHORT), Ow, O(GONE), O(GOOD2), O(MANY)][t % 7])));
    v.push(("opens for writing".into(), Box::new(|_| Ow)));
    v.push(("opens through own contexts and the process-wide one".into(), Box::new(|t| [O(GOOD), G(GOOD2), O(GOOD2), G(BAD), Ow][t % 5])));
    v.push(("opens through the process-wide context".into(), Box::new(|t| [G(GOOD), G(GOOD2), G(BAD), Gw][t % 4])));
    v
}
/// Crowds of threads, all brought to the same point before any goes on, at every point in turn.
fn crowd(name: &'static str, works: bool, mode: Mode, sizes: &'static [usize]) -> Section {
    let all = crowds(works);
    let n = all.len() as u64;
    let names: Vec<String> = all.iter().map(|c| c.0.clone()).collect();
    let radix = [SHARDS, 2, sizes.len() as u64, n];
    Section::new(
        name,
        radix.iter().product(),
        move |i, w| {
            let l = lab(w)?;
            let d = digits(i, &radix);
            let size = sizes[d[2] as usize];
            let s = Scenario { threads: (0..size).map(|t| vec![all[d[3] as usize].1(t)]).collect(), warm: false };
            let go = |park: u64, w: &mut W| {
                let script = Script { park, backwards: d[1] == 1, released: false };
                let how = How { mode, handlers: false, script: Some(script), pcs: vec![] };
                run(&s, &l, &how, false, &[], w).map_err(|e| format!("{size} threads, each at its point {park} before any goes on, then {}: {e}", if d[1] == 1 { "the last first" } else { "the first first" }))?;
                Ok::<u64, String>(unsafe { (*l.a.0).passed.iter().copied().max().unwrap_or(0) })
            };
            let r = (|| {
                // one after the other, to learn how many points there are
                let points = go(u64::MAX, w)?;
                for k in (1..=points).filter(|k| k % SHARDS == d[0]) {
                    go(k, w)?;
                }
                Ok(())
            })();
            w.put("lab17", l);
            w.nt();
            r
        },
        move |i| {
            let d = digits(i, &radix);
            format!("{} threads, {}, released {}, shard {}", sizes[d[2] as usize], names[d[3] as usize], ["forwards", "backwards"][d[1] as usize], d[0])
        },
    )
}
/// A few pairs for the deeper bound.
fn core() -> Vec<Scenario> {
    vec![
        sc(&[&[G(GOOD)], &[G(GOOD2)]], false),
        sc(&[&[G(BAD)], &[G(GOOD)]], false),
        sc(&[&[O(GOOD)], &[O(GOOD2)]], false),
        sc(&[&[O(BAD)], &[O(GOOD)]], false),
        sc(&[&[O(GOOD)], &[G(GOOD2)]], false),
        sc(&[&[O(GOOD)], &[Gw]], false),
    ]
}
fn rejections() -> Vec<Scenario> {
    let mut v = vec![];
    for warm in [false, true] {
        for a in [O(BAD), O(MANY), G(BAD), G(MANY)] {
            for b in [O(BAD), O(MANY), O(GOOD), O(GONE), G(BAD), G(MANY), G(GOOD), Ow] {
                v.push(sc(&[&[a], &[b]], warm));
            }
        }
    }
    v.push(sc(&[&[O(BAD), O(GOOD)], &[O(MANY), O(BAD)]], true));
    v.push(sc(&[&[G(BAD), G(MANY)], &[O(MANY), O(BAD)]], true));
    v.push(sc(&[&[O(BAD)], &[O(MANY)], &[O(BAD)]], true));
    v.push(sc(&[&[G(BAD)], &[O(MANY)], &[G(GOOD)]], true));
    v
}
const RULE: &str = "every schedule with at most the stated number of preemptions of every scenario, each run in a process of its own; scheduling points are all basic blocks (every basic block), or all system and futex calls and all accesses to memory several threads use; crowds of threads are all brought to the same point, at every point in turn, and released forwards and backwards; one evaluation is one shard of a scenario's schedules; non-trivial: all its schedules ran and every outcome was compared";
const ASSUME: &[&str] = &["sequentially consistent memory", "interleavings inside a basic block and inside the standard library are explored only at system and futex calls", "schedules with more preemptions than the bound are not explored"];

pub fn c17(t: Tier) -> Check {
    let mut sections = vec![
        section("pairs, every basic block", pairs, Mode::Blocks, t.pick(1, 2), false),
        section("pairs, system calls and shared memory", pairs, Mode::Accesses, t.pick(2, 3), false),
        section("longer threads, every basic block", longer, Mode::Blocks, 1, false),
        section("three threads, every basic block", threes, Mode::Blocks, 1, false),
        section("three threads, system calls and shared memory", threes, Mode::Accesses, t.pick(2, 3), false),
    ];
    sections.push(crowd("crowds of threads, system calls", false, Mode::Calls, &[4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 20, 32, 33, 64, 65]));
    sections.push(crowd("crowds of threads, every basic block", false, Mode::Blocks, t.pick(&[5, 9], &[4, 5, 6, 8, 9, 12, 17, 33])));
    if t.pick(true, false) {
        sections.push(section("core pairs, every basic block, two preemptions", core, Mode::Blocks, 2, false));
    }
    Check {
        id: "C17",
        level: "model_checking",
        rule: RULE,
        assumptions: ASSUME,
        sections,
    }
}
/// The part of C18 that needs threads.
pub fn c18(t: Tier) -> Check {
    Check {
        id: "C18",
        level: "model_checking",
        rule: RULE,
        assumptions: ASSUME,
        sections: vec![
            section("concurrent rejections, every basic block", rejections, Mode::Blocks, t.pick(1, 2), true),
            section("concurrent rejections, system calls and shared memory", rejections, Mode::Accesses, t.pick(2, 3), true),
        ],
    }
}

fn same_work() -> Vec<Scenario> {
    (0..mcglue::WORKS.len())
        .flat_map(|k| [sc(&[&[Work(k, 0)], &[Work(k, 1)]], false), sc(&[&[Work(k, 0)], &[Work(k, 0)]], false)])
        .collect()
}
/// The kinds of work that are paired with others; the rest only meet their own kind.
const MIXED: usize = 11;
fn mixed_work() -> Vec<Scenario> {
    let n = MIXED;
    let mut v = vec![];
    for a in 0..n {
        for b in 0..a {
            v.push(sc(&[&[Work(a, 0)], &[Work(b, 1)]], false));
        }
        v.push(sc(&[&[Work(a, 0)], &[G(GOOD)]], false));
        v.push(sc(&[&[Work(a, 1)], &[O(BAD)]], false));
    }
    v
}
fn three_work() -> Vec<Scenario> {
    let n = MIXED;
    (0..n)
        .flat_map(|k| [sc(&[&[Work(k, 0)], &[Work(k, 1)], &[Work((k + 1) % n, 0)]], false), sc(&[&[Work(k, 0), Work(k, 0)], &[Work(k, 1), Work(k, 1)]], false)])
        .collect()
}
pub fn c31(t: Tier) -> Check {
    Check {
        id: "C31",
        level: "model_checking",
        rule: RULE,
        assumptions: ASSUME,
        sections: vec![
            section("two of a kind, every basic block", same_work, Mode::Blocks, t.pick(1, 2), false),
            section("two of a kind, system calls and shared memory", same_work, Mode::Accesses, t.pick(2, 3), false),
            section("two kinds, every basic block", mixed_work, Mode::Blocks, 1, false),
            section("two kinds, system calls and shared memory", mixed_work, Mode::Accesses, t.pick(2, 3), false),
            section("three threads and longer ones", three_work, Mode::Accesses, t.pick(2, 3), false),
            crowd("crowds of threads, system calls", true, Mode::Calls, &[4, 5, 9, 17, 33, 65]),
            crowd("crowds of threads, every basic block", true, Mode::Blocks, t.pick(&[5, 9], &[4, 5, 6, 8, 9, 12, 17, 33])),
        ],
    }
}
