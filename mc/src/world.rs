//! C32, C33, C34: causes of errors, memory, surroundings.
use crate::ctx::{corpus18, lay_out};
use crate::engine::*;
use crate::modes::Mailbox;
use crate::profile::*;
use crate::stream::{b32, pattern, T, TYPES};
use crate::sys::*;
use lcms2::io::{FileMem, FileNull, IOHandler};
use lcms2::state::Context;
use lcms2::types::Profile;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::fs::OpenOptions;
use std::io::{Error, ErrorKind, SeekFrom};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::Relaxed};

// ---------------------------------------------------------------- C32

/// Fails the n-th call of the kinds that can fail, with one error number.
struct FailAt {
    at: u32,
    errno: i32,
    /// what every later call fails with
    then: Option<i32>,
    seen: u32,
    hit: Option<Kind>,
}
impl Hook for FailAt {
    fn call(&mut self, c: &Call) -> Act {
        let counts = match c.kind {
            Kind::Read | Kind::Write => c.len > 0,
            Kind::Seek | Kind::Open | Kind::Sync => true,
            _ => false,
        };
        if !counts {
            return Act::Pass;
        }
        self.seen += 1;
        if self.seen == self.at {
            self.hit = Some(c.kind);
            return Act::Err(self.errno);
        }
        match self.then {
            Some(e) if self.seen > self.at => Act::Err(e),
            _ => Act::Pass,
        }
    }
}
/// Error numbers that say the call failed for good.
fn numbers() -> Vec<i32> {
    (1..=133).filter(|e| *e != EINTR).collect()
}
/// What is done to a stream.
#[derive(Clone, Copy, Debug)]
enum Do {
    Wt(T),
    Rt(T),
    W(usize),
    R(usize),
    S(u64),
    E(i64),
    C(i64),
    Tell,
    Size,
    Close,
}
fn does() -> Vec<Do> {
    let mut v: Vec<Do> = TYPES.iter().flat_map(|t| [Do::Wt(*t), Do::Rt(*t)]).collect();
    v.extend([Do::W(1), Do::R(1), Do::W(300), Do::R(300), Do::S(3), Do::E(-1), Do::C(1), Do::Tell, Do::Size]);
    v
}
fn perform(h: &mut dyn IOHandler, d: Do) -> std::io::Result<()> {
    match d {
        Do::Wt(t) => t.write(h, &pattern(1, t.size())),
        Do::Rt(t) => t.read(h).map(drop),
        Do::W(n) => h.write(&pattern(2, n)),
        Do::R(n) => h.read(&mut vec![0; n]),
        Do::S(v) => h.seek(SeekFrom::Start(v)),
        Do::E(v) => h.seek(SeekFrom::End(v)),
        Do::C(v) => h.seek(SeekFrom::Current(v)),
        Do::Tell => h.tell().map(drop),
        Do::Size => h.reported_size().map(drop),
        Do::Close => Ok(()),
    }
}
fn same_number(r: std::io::Result<()>, f: &FailAt, w: &mut W) -> R {
    w.transitions += 1;
    w.traces += 1;
    let Some(k) = f.hit else { return Ok(()) };
    w.nt();
    w.obs(&(k, r.as_ref().err().and_then(|e| e.raw_os_error())));
    match r {
        // reporting success is C04's, C05's and C14's matter
        Ok(()) => Ok(()),
        Err(e) if e.raw_os_error() == Some(f.errno) => Ok(()),
        // when several calls fail, any of them is the cause
        Err(e) if f.then.is_some() && f.seen > f.at && e.raw_os_error() == f.then => Ok(()),
        Err(e) => Err(format!(
            "{k:?} failed with error number {} ({}), reported as {e:?}",
            f.errno,
            Error::from_raw_os_error(f.errno)
        )),
    }
}
fn disk_errors() -> Section {
    let mut ops = does();
    ops.push(Do::Close);
    let (n, es) = (ops.len() as u64, numbers());
    let m = es.len() as u64;
    let dec = move |i: u64| {
        let d = digits(i, &[m, 8, 2, 2, n]);
        (es[d[0] as usize], d[1] as u32 + 1, d[2] * 400, d[3] == 1, ops[d[4] as usize])
    };
    let d2 = dec.clone();
    Section::new(
        "disk file: each system call failing with every error number",
        m * 8 * 2 * 2 * n,
        move |i, w| {
            let (errno, at, len, later, op) = dec(i);
            let path = w.dir.join("cause");
            let mut h = OpenOptions::new().read(true).write(true).create(true).truncate(true).open(&path).expect("scratch file");
            h.set_len(len).expect("scratch file");
            let mut f = FailAt { at, errno, then: later.then_some(if errno == 5 { 28 } else { 5 }), seen: 0, hit: None };
            let r = match op {
                Do::Close => with_hook(&mut f, || guarded(|| IOHandler::close(h)))?,
                _ => with_hook(&mut f, || guarded(|| perform(&mut h, op)))?,
            };
            same_number(r, &f, w)
        },
        move |i| format!("(error number, call, file length, later calls failing with another, operation) = {:?}", d2(i)),
    )
}
fn open_errors() -> Section {
    let es = numbers();
    let m = es.len() as u64;
    let dec = move |i: u64| {
        let d = digits(i, &[m, 16, 2, 2, 2]);
        (es[d[0] as usize], d[1] as u32 + 1, d[2] == 1, d[3] == 1, d[4] == 1)
    };
    let d2 = dec.clone();
    Section::new(
        "opening: each system call failing with every error number",
        m * 16 * 8,
        move |i, w| {
            let (errno, at, write, global, later) = dec(i);
            let path = if write {
                w.dir.join("cause")
            } else {
                bench(w, |f, _| {
                    f.set(&base3());
                    f.path.clone()
                })
            };
            let mut f = FailAt { at, errno, then: later.then_some(if errno == 5 { 28 } else { 5 }), seen: 0, hit: None };
            let mut c = Context::new(None);
            let r = with_hook(&mut f, || {
                guarded(|| {
                    if global {
                        mcglue::open(&path, write).map(drop)
                    } else {
                        mcglue::open_thr(&mut c, &path, write).map(drop)
                    }
                })
            })?;
            same_number(r, &f, w)
        },
        move |i| format!("(error number, call, for writing, process-wide context, later calls failing with another) = {:?}", d2(i)),
    )
}
const KINDS: [ErrorKind; 20] = [
    ErrorKind::NotFound, ErrorKind::PermissionDenied, ErrorKind::ConnectionRefused, ErrorKind::ConnectionReset,
    ErrorKind::ConnectionAborted, ErrorKind::NotConnected, ErrorKind::AddrInUse, ErrorKind::AddrNotAvailable,
    ErrorKind::BrokenPipe, ErrorKind::AlreadyExists, ErrorKind::InvalidInput, ErrorKind::InvalidData, ErrorKind::TimedOut,
    ErrorKind::WriteZero, ErrorKind::Unsupported, ErrorKind::UnexpectedEof, ErrorKind::OutOfMemory, ErrorKind::Other, ErrorKind::WouldBlock,
    ErrorKind::Interrupted,
];
/// A user's stream that fails with its own error.
#[derive(Debug)]
struct Own {
    inner: FileMem<Vec<u8>>,
    at: u32,
    seen: u32,
    kind: ErrorKind,
    /// every later call fails as well
    later: bool,
    hit: bool,
}
impl Own {
    fn step(&mut self) -> std::io::Result<()> {
        self.seen += 1;
        if self.seen == self.at {
            self.hit = true;
            return Err(Error::new(self.kind, "the user's own words"));
        }
        if self.hit && self.later {
            return Err(Error::new(ErrorKind::AddrInUse, "a later failure"));
        }
        Ok(())
    }
}
impl IOHandler for Own {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<()> {
        self.step()?;
        self.inner.read(b)
    }
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<()> {
        self.step()?;
        self.inner.seek(p)
    }
    fn close(self) -> std::io::Result<()> {
        Ok(())
    }
    fn tell(&mut self) -> std::io::Result<usize> {
        self.step()?;
        self.inner.tell()
    }
    fn write(&mut self, b: &[u8]) -> std::io::Result<()> {
        self.step()?;
        self.inner.write(b)
    }
}
fn user_errors() -> Section {
    let ops = does();
    let n = ops.len() as u64;
    let dec = move |i: u64| {
        let d = digits(i, &[20, 6, 2, n]);
        (KINDS[d[0] as usize], d[1] as u32 + 1, d[2] == 1, ops[d[3] as usize])
    };
    let d2 = dec.clone();
    Section::new(
        "user stream: each underlying call failing with every kind of error",
        20 * 6 * 2 * n,
        move |i, w| {
            let (kind, at, later, op) = dec(i);
            let mut h = Own { inner: FileMem::new(vec![1; 400]), at, seen: 0, kind, later, hit: false };
            let r = guarded(|| perform(&mut h, op))?;
            w.transitions += 1;
            w.traces += 1;
            if !h.hit {
                return Ok(());
            }
            w.nt();
            match r {
                Ok(()) => Ok(()),
                Err(e) if e.kind() == kind && e.to_string() == "the user's own words" => Ok(()),
                Err(e) if later && h.seen > at && e.kind() == ErrorKind::AddrInUse && e.to_string() == "a later failure" => Ok(()),
                Err(e) => Err(format!("a {kind:?} error of the user's stream is reported as {e:?}")),
            }
        },
        move |i| format!("(kind, call, later calls failing too, operation) = {:?}", d2(i)),
    )
}
const ENDS: [&str; 8] = [
    "vector", "slice", "box", "array", "null device", "disk file", "read-only disk file", "write-only disk file",
];
fn at_the_end() -> Section {
    // operations that must fail at a position of a stream of some length
    let mut ops = does();
    ops.retain(|o| !matches!(o, Do::S(_) | Do::E(_) | Do::C(_) | Do::Tell | Do::Size));
    for n in [2, 3, 7, 14, 15] {
        ops.extend([Do::R(n), Do::W(n)]);
    }
    for v in [-1, -2, -13, -14, -16, -1000, i64::MIN, i64::MIN + 1] {
        ops.extend([Do::E(v), Do::C(v)]);
    }
    let n = ops.len() as u64;
    let dec = move |i: u64| {
        let d = digits(i, &[n, 14, 20, 8]);
        (ops[d[0] as usize], d[1], d[2], d[3] as usize)
    };
    let d2 = dec.clone();
    Section::new(
        "ends of streams, closed directions, moves before the start",
        n * 14 * 20 * 8,
        move |i, w| {
            let (op, len, pos, kind) = dec(i);
            let init = vec![5u8; len as usize];
            let mut a13 = [5u8; 13];
            let path = w.dir.join("end");
            let file = |o: &mut OpenOptions| {
                std::fs::write(&path, &init).expect("scratch file");
                Box::new(o.open(&path).expect("scratch file"))
            };
            let mut slice = init.clone();
            let mut h: Box<dyn IOHandler + '_> = match kind {
                0 => Box::new(FileMem::new(init.clone())),
                1 => Box::new(FileMem::new(&mut slice[..])),
                2 => Box::new(FileMem::new(init.clone().into_boxed_slice())),
                3 if len == 13 => Box::new(FileMem::new(std::mem::replace(&mut a13, [0; 13]))),
                4 => {
                    let mut h = FileNull::new();
                    h.write(&init).map_err(|e| format!("writing to the null device failed ({e})"))?;
                    Box::new(h)
                }
                5 => file(OpenOptions::new().read(true).write(true)),
                6 => file(OpenOptions::new().read(true)),
                7 => file(OpenOptions::new().write(true)),
                _ => return Ok(()),
            };
            guarded(|| h.seek(SeekFrom::Start(pos)))?.map_err(|e| format!("seek to {pos} failed ({e})"))?;
            let r = guarded(|| perform(&mut *h, op))?;
            w.transitions += 2;
            w.traces += 1;
            let Err(e) = r else { return Ok(()) };
            w.nt();
            w.obs(&(kind, e.kind(), e.raw_os_error()));
            // what kind of failure this is, if it may fail
            let (size, read) = match op {
                Do::Rt(t) => (t.size() as u64, true),
                Do::R(n) => (n as u64, true),
                Do::Wt(t) => (t.size() as u64, false),
                Do::W(n) => (n as u64, false),
                Do::E(_) | Do::C(_) => {
                    return if e.kind() == ErrorKind::InvalidInput {
                        Ok(())
                    } else {
                        Err(format!("a move before the start is reported as {e:?}"))
                    }
                }
                _ => return Ok(()),
            };
            let (good, what) = match (kind, read) {
                (6, false) | (7, true) => (e.raw_os_error() == Some(9), "the direction is closed"),
                (_, true) => (e.kind() == ErrorKind::UnexpectedEof && pos + size > len, "the stream ends"),
                (_, false) => (e.kind() == ErrorKind::WriteZero && (1..=3).contains(&kind) && pos + size > len, "the buffer ends"),
            };
            if good {
                Ok(())
            } else {
                Err(format!("{what}, reported as {e:?}"))
            }
        },
        move |i| {
            let (op, len, pos, kind) = d2(i);
            format!("{op:?} at {pos} of {} of {len} bytes", ENDS[kind])
        },
    )
}
/// Paths and contents with the cause of the failure: a kind and perhaps an error number.
fn causes(dir: &Path) -> Vec<(String, PathBuf, bool, ErrorKind, Option<i32>)> {
    use std::os::unix::ffi::OsStrExt;
    let mut v = vec![];
    let good = dir.join("cause-good.icc");
    let here = |n: &str| dir.join(n);
    std::fs::write(&good, base3()).expect("scratch file");
    let _ = std::fs::create_dir(here("cause-dir"));
    for (a, b) in [("cause-loop-a", "cause-loop-b"), ("cause-loop-b", "cause-loop-a"), ("cause-dangling", "cause-nothing/at/all")] {
        let _ = std::os::unix::fs::symlink(here(b), here(a));
    }
    let nf = (ErrorKind::NotFound, Some(2));
    let long = here(&"n".repeat(300));
    for write in [false, true] {
        let m = if write { "for writing" } else { "for reading" };
        let mut put = |n: &str, p: PathBuf, k: ErrorKind, e: Option<i32>| v.push((format!("{n}, {m}"), p, write, k, e));
        put("in a missing directory", here("cause-nothing/file.icc"), nf.0, nf.1);
        put("an empty path", PathBuf::new(), nf.0, nf.1);
        put("a file used as a directory", good.join("inside.icc"), ErrorKind::NotADirectory, Some(20));
        put("a loop of links", here("cause-loop-a"), Error::from_raw_os_error(40).kind(), Some(40));
        put("a name too long", long.clone(), Error::from_raw_os_error(36).kind(), Some(36));
        put("a path with a zero byte", dir.join(std::ffi::OsStr::from_bytes(b"a\0b")), ErrorKind::InvalidInput, None);
        put("a directory", here("cause-dir"), ErrorKind::IsADirectory, Some(21));
        put("a link to nothing in a missing directory", here("cause-dangling"), nf.0, nf.1);
    }
    v.push(("a missing file".into(), here("cause-missing.icc"), false, nf.0, nf.1));
    let mut put = |n: String, b: Vec<u8>, k: ErrorKind| {
        let p = here(&format!("cause-{}.icc", v.len()));
        std::fs::write(&p, b).expect("scratch file");
        v.push((n, p, false, k, None));
    };
    let mut wrong = base3();
    wrong[37] = b'C';
    for n in 0..168 {
        put(format!("cut after {n} bytes"), base3()[..n].to_vec(), ErrorKind::UnexpectedEof);
        if n >= 128 {
            put(format!("a wrong signature, cut after {n} bytes"), wrong[..n].to_vec(), ErrorKind::InvalidData);
        }
    }
    for n in [101u32, 102, 127, 128, 255, 256, 1000, 65535, 65536, 65637, 1 << 24, 1 << 31, u32::MAX] {
        let mut b = base100();
        b[128..132].copy_from_slice(&b32(n));
        put(format!("{n} tags"), b, ErrorKind::InvalidData);
    }
    put("a wrong signature".into(), wrong, ErrorKind::InvalidData);
    v
}
fn open_causes() -> Section {
    Section::new(
        "opens that fail, every cause",
        240 * 2,
        |i, w| {
            let all = w.take("causes", |w| causes(&w.dir));
            let r = (|| {
                let Some((name, path, write, kind, number)) = all.get(i as usize / 2) else { return Ok(()) };
                w.traces += 1;
                w.transitions += 1;
                w.nt();
                let mut c = Context::new(None);
                let r = guarded(|| if i % 2 == 0 { mcglue::open_thr(&mut c, path, *write) } else { mcglue::open(path, *write) })?;
                match r {
                    Ok(_) => Err(format!("opening {name} succeeded")),
                    Err(e) if e.kind() == *kind && (number.is_none() || e.raw_os_error() == *number) => Ok(()),
                    Err(e) => Err(format!("opening {name} is reported as {e:?}, the cause is {kind:?}")),
                }
            })();
            w.put("causes", all);
            r
        },
        |i| format!("cause {}, {} context", i / 2, ["a", "the process-wide"][i as usize % 2]),
    )
}
pub fn c32(_t: Tier) -> Check {
    Check {
        id: "C32",
        level: "fault_enumeration",
        rule: "every operation with each of its system calls failing with every error number, on user streams with each underlying call failing with every kind of error, at every end of every kind of stream, and every cause an open can fail from; non-trivial: the operation failed and its error was compared with the cause",
        assumptions: &["error numbers 1 to 133 without EINTR, which asks for another try", "failing calls are one call, or it and all later ones"],
        sections: vec![open_causes(), at_the_end(), user_errors(), open_errors(), disk_errors()],
    }
}

// ---------------------------------------------------------------- C33

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}
/// Counts what each thread allocates.
pub struct Counting;
/// Counts what all threads allocate, while ALL is set.
static TOTAL: AtomicI64 = AtomicI64::new(0);
static ALL: AtomicBool = AtomicBool::new(false);
fn more(n: i64) {
    if ALL.load(Relaxed) {
        TOTAL.fetch_add(n, Relaxed);
    }
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        if n > 0 {
            let _ = PEAK.try_with(|p| {
                if v > p.get() {
                    p.set(v)
                }
            });
        }
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        more(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        more(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        more(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // both may exist at once
        more(n as i64);
        more(-(l.size() as i64));
        System.realloc(p, l, n)
    }
}
/// Bytes still held after `f`, and the most held during it.
fn weigh<T>(f: impl FnOnce() -> T) -> (T, i64, i64) {
    let before = LIVE.get();
    PEAK.set(before);
    let r = f();
    (r, LIVE.get() - before, PEAK.get() - before)
}
/// File handles taken and not given back.
struct Held(i64);
impl Hook for Held {
    fn call(&mut self, _: &Call) -> Act {
        Act::Pass
    }
    fn done(&mut self, c: &Call, r: i64) {
        match c.kind {
            Kind::Open | Kind::Dup if r >= 0 => self.0 += 1,
            Kind::Close if r == 0 => self.0 -= 1,
            _ => {}
        }
    }
}
/// Descriptors open and threads running in this process.
fn handles() -> (usize, usize) {
    let n = |p| std::fs::read_dir(p).map_or(0, |d| d.count());
    (n("/proc/self/fd"), n("/proc/self/task"))
}
fn same_handles(a: (usize, usize), of: &str) -> R {
    // a thread that has ended may show for a moment
    for k in 0..200 {
        let b = handles();
        if b == a || b.0 == a.0 && b.1 < a.1 {
            return Ok(());
        }
        if b.0 > a.0 && k > 20 || k == 199 {
            return Err(format!("{of}: {} more file handles and {} more threads are held than before it", b.0 as i64 - a.0 as i64, b.1 as i64 - a.1 as i64));
        }
        std::thread::sleep(std::time::Duration::from_millis(1));
    }
    Ok(())
}
/// What `f` holds on to after the second time it runs: nothing, whatever it set up for good at first.
fn returns_after(times: u32, mut f: impl FnMut() -> R, w: &mut W) -> Result<i64, String> {
    let mut top = 0;
    for k in 0..times {
        let mut held = Held(0);
        let (r, left, peak) = weigh(|| with_hook(&mut held, || guarded(&mut f)));
        r??;
        w.transitions += 1;
        top = top.max(peak);
        if k >= 2 && left != 0 {
            return Err(format!("time {}: {left} bytes more are held after everything was dropped", k + 1));
        }
        if k >= 2 && held.0 != 0 {
            return Err(format!("time {}: {} file handles more are held after everything was dropped", k + 1, held.0));
        }
    }
    Ok(top)
}
fn returns(f: impl FnMut() -> R, w: &mut W) -> Result<i64, String> {
    returns_after(3, f, w)
}
/// Enough for a list that grows by doubling to show.
const MANY: u32 = 40;
const OPEN_MAX: i64 = 64 * 1024;
/// Opens `b`, in a context of its own or the process-wide one, looks at it and drops it.
fn open33(b: &[u8], global: bool, times: u32, w: &mut W) -> R {
    let path = bench(w, |f, _| {
        f.set(b);
        f.path.clone()
    });
    w.traces += 1;
    w.nt();
    let n = b.len() as i64;
    let top = returns_after(
        times,
        || {
            let mut c = Context::new(None);
            let r = if global { mcglue::open(&path, false) } else { mcglue::open_thr(&mut c, &path, false) };
            if let Ok(p) = r {
                std::hint::black_box(p.get_tag_count());
                std::hint::black_box(p.get_tag_signature(0));
                std::hint::black_box(*p == *p);
            }
            Ok(())
        },
        w,
    )?;
    if top > OPEN_MAX + 4 * n {
        return Err(format!("opening {n} bytes took {top} bytes of memory"));
    }
    Ok(())
}
fn hostile() -> Vec<Section> {
    let at = |k: u64| if k < 4 { k } else { 124 + k } as usize;
    vec![
        Section::new(
            "opening: every value of every byte of the declared size, the count and the directory",
            256 * 44 * 2,
            move |i, w| {
                let d = digits(i, &[256, 44, 2]);
                let mut b = base3();
                b[at(d[1])] = d[0] as u8;
                open33(&b, d[2] == 1, 3, w)
            },
            |i| format!("(value, place, process-wide) = {:?}", digits(i, &[256, 44, 2])),
        ),
        Section::new(
            "opening: every count of tags by halves",
            65536 * 2,
            |i, w| {
                let mut b = base100();
                let v = if i < 65536 { i as u32 } else { (i as u32) << 16 | 5 };
                b[128..132].copy_from_slice(&b32(v));
                open33(&b, false, 3, w)
            },
            |i| format!("case {i}"),
        ),
        Section::new(
            "opening: sizes and offsets at their limits",
            44 * 44 * 3 * 3,
            |i, w| {
                let d = digits(i, &[44, 44, 3, 3]);
                let mut b = base3();
                let (x, y) = (U32S[d[0] as usize], U32S[d[1] as usize]);
                let k = 132 + 12 * d[2] as usize;
                b[k + 4..k + 8].copy_from_slice(&b32(x));
                b[k + 8..k + 12].copy_from_slice(&b32(y));
                if d[3] > 0 {
                    b[0..4].copy_from_slice(&b32([x, u32::MAX][d[3] as usize - 1]));
                }
                open33(&b, false, 3, w)
            },
            |i| format!("(offset, size, entry, declared size) = {:?}", digits(i, &[44, 44, 3, 3])),
        ),
        Section::new(
            "opening: every outcome, every truncation",
            (15 + 1733) * 2,
            |i, w| {
                let k = i as usize / 2;
                let b = match k {
                    0..=14 => corpus18()[k].1.clone().unwrap_or_default(),
                    _ => base100()[..k - 15].to_vec(),
                };
                open33(&b, i % 2 == 1, MANY, w)
            },
            |i| format!("case {}, process-wide {}", i / 2, i % 2),
        ),
    ]
}
fn pairs33() -> Section {
    let n = 2 * mcglue::WORKS.len() as u64;
    Section::new(
        "pairs of the library's other operations",
        n * n,
        move |i, w| {
            let paths = files33(w);
            let mine = w.dir.join("own.bin");
            w.traces += 1;
            w.nt();
            returns_after(
                MANY,
                || {
                    for k in [i % n, i / n] {
                        std::hint::black_box(mcglue::work(k as usize / 2, k % 2, &[&paths[0], &paths[10]], &mine));
                    }
                    Ok(())
                },
                w,
            )
            .map(drop)
        },
        move |i| format!("{} then {}", mcglue::WORKS[(i % n / 2) as usize], mcglue::WORKS[(i / n / 2) as usize]),
    )
}
fn files33(w: &mut W) -> Vec<PathBuf> {
    lay_out(w, "c33", corpus18().into_iter().map(|c| c.1).collect())
}
fn contexts33(t: Tier) -> Section {
    let (k, depth) = (crate::ctx::n_ops28(), t.pick(3u32, 4));
    Section::new(
        "histories of contexts",
        seqs(k, depth),
        move |i, w| {
            let mut s = vec![];
            seq(i, k, depth, &mut s);
            let (paths, out) = (files33(w), w.dir.join("written.icc"));
            w.traces += 1;
            w.nt();
            returns_after(if s.len() < 3 { MANY } else { 3 }, || crate::ctx::apply28(&s, &paths, &out), w).map(drop)
        },
        move |i| {
            let mut s = vec![];
            seq(i, k, depth, &mut s);
            crate::ctx::show28(&s)
        },
    )
}
/// The null device holds nothing, the in-memory stream little more than its content.
fn streams33() -> Section {
    const N: [usize; 9] = [1, 2, 7, 100, 255, 4096, 65536, 1 << 20, 3 << 20];
    const P: [u64; 8] = [0, 1, 4095, 65536, 1 << 20, 1 << 32, 1 << 50, (1 << 63) - (1 << 26)];
    Section::new(
        "what streams hold",
        9 * 8 * 6 * 2,
        |i, w| {
            let d = digits(i, &[9, 8, 6, 2]);
            let (n, p, times, null) = (N[d[0] as usize], P[d[1] as usize], [1usize, 2, 3, 10, 17, 100][d[2] as usize], d[3] == 0);
            if !null && (p > 1 << 20 || n * times > 1 << 23) {
                return Ok(());
            }
            w.traces += 1;
            w.nt();
            let mut b = vec![9u8; n];
            let top = returns(
                || {
                    let e = |e: Error| format!("failed ({e})");
                    if null {
                        let mut h = FileNull::new();
                        h.seek(SeekFrom::Start(p)).map_err(e)?;
                        for _ in 0..times {
                            h.write(&b).map_err(e)?;
                        }
                        h.seek(SeekFrom::Start(0)).map_err(e)?;
                        h.read(&mut b).map_err(e)?;
                        h.close().map_err(e)
                    } else {
                        let mut h = FileMem::new(Vec::new());
                        h.seek(SeekFrom::Start(p)).map_err(e)?;
                        for _ in 0..times {
                            h.write(&b).map_err(e)?;
                        }
                        h.seek(SeekFrom::Start(0)).map_err(e)?;
                        let m = b.len().min(h.reported_size().map_err(e)?);
                        h.read(&mut b[..m]).map_err(e)?;
                        h.close().map_err(e)
                    }
                },
                w,
            )?;
            let max = if null { OPEN_MAX } else { 16384 + 4 * (p as i64 + (n * times) as i64) };
            if top > max {
                return Err(format!("held {top} bytes"));
            }
            Ok(())
        },
        |i| format!("(length, position, times, in memory) = {:?}", digits(i, &[9, 8, 6, 2])),
    )
}
/// Objects that live on while operations on them are repeated.
fn lasting33() -> Section {
    use crate::curve::DECLARED;
    let n = 15 * 2 + crate::ctx::N_CHAINS + 8 + 6 + DECLARED.len() as u64 * 2;
    Section::new(
        "objects that live on",
        n,
        move |i, w| {
            let paths = files33(w);
            let (mut c, d) = (Context::new(Some(Box::new([1, 2]))), Context::new(None));
            let mut null = FileNull::new();
            let mut mem = FileMem::new(vec![3u8; 64]);
            let e = |e: Error| format!("failed ({e})");
            let (path, out) = (w.dir.join("lasting"), w.dir.join("written.icc"));
            let mut file = OpenOptions::new().read(true).write(true).create(true).truncate(true).open(&path).expect("scratch file");
            let set = crate::curve::set(w);
            let prof = mcglue::open(&paths[10], false).map_err(e)?;
            let mut k = 0u64;
            w.traces += 1;
            w.nt();
            let r = returns_after(
                2000,
                || {
                    k += 1;
                    let mut j = i;
                    let mut within = |n: u64| {
                        let r = j < n;
                        if !r {
                            j -= n;
                        }
                        r.then_some(j)
                    };
                    if let Some(j) = within(30) {
                        let p = &paths[j as usize / 2];
                        let r = if j % 2 == 0 { mcglue::open_thr(&mut c, p, false) } else { mcglue::open(p, false) };
                        std::hint::black_box(r.is_ok());
                        return Ok(());
                    }
                    if let Some(j) = within(crate::ctx::N_CHAINS) {
                        std::hint::black_box(crate::ctx::register(&mut c, j as usize).is_ok());
                        return Ok(());
                    }
                    if let Some(j) = within(8) {
                        match j {
                            0 => drop(std::hint::black_box(c.clone())),
                            1 => c.clone_from(&d),
                            2 => c.signal_error(lcms2::state::ErrorCode::Range, "a text"),
                            3 => drop(mcglue::open_thr(&mut c, &out, true).map_err(e)?),
                            4 => drop(mcglue::open(&out, true).map_err(e)?),
                            5 => drop(std::hint::black_box(format!("{c:?}"))),
                            6 => drop(std::hint::black_box((prof.get_tag_signature(k as usize % 110), prof.verif_search_tag((k as u32).into(), true)))),
                            _ => drop(std::hint::black_box(*prof == *prof)),
                        }
                        return Ok(());
                    }
                    if let Some(j) = within(6) {
                        let h: &mut dyn IOHandler = [&mut null as &mut dyn IOHandler, &mut mem, &mut file][j as usize % 3];
                        let mut b = [0; 4];
                        if j < 3 {
                            h.seek(SeekFrom::Start(if j == 0 { k * 5 } else { k % 50 })).map_err(e)?;
                            h.write_u32(k as u32).map_err(e)?;
                            h.seek(SeekFrom::Current(-4)).map_err(e)?;
                            h.read(&mut b).map_err(e)?;
                        } else {
                            h.write(&[1, 2, 3, 4]).map_err(e)?;
                            h.reported_size().map_err(e)?;
                            h.tell().map_err(e)?;
                            h.seek(SeekFrom::End(-4)).map_err(e)?;
                            h.read_u16_array(&mut [0, 0]).map_err(e)?;
                            h.seek(SeekFrom::Start(k % 60)).map_err(e)?;
                        }
                        return Ok(());
                    }
                    let t = DECLARED[j as usize / 2].0 * if j % 2 == 0 { 1 } else { -1 };
                    let p: Vec<f64> = (0..10).map(|m| 0.25 + (k * 7 + m) as f64 * 0.125).collect();
                    std::hint::black_box(((set.evaluator)(t, &p, k as f64 * 1e-3), set.is_in_set(t), set.is_in_set(k as i32 * 31)));
                    Ok(())
                },
                w,
            );
            w.put("curves", set);
            r.map(drop)
        },
        |i| format!("operation {i}"),
    )
}
fn curves33() -> Section {
    Section::new(
        "curves",
        crate::curve::DECLARED.len() as u64 * 2 * 40,
        |i, w| {
            let d = digits(i, &[2, 10, 40]);
            let t = crate::curve::DECLARED[d[1] as usize].0 * if d[0] == 0 { 1 } else { -1 };
            w.traces += 1;
            w.nt();
            let set = crate::curve::set(w);
            let p: Vec<f64> = (0..10).map(|k| 0.25 + 0.5 * ((k * 7 + d[2]) % 9) as f64).collect();
            let mut round = 0u64;
            let r = returns(
                || {
                    // other values each time: what is kept must not grow with them
                    round += 1;
                    for k in 0..2000u64 {
                        std::hint::black_box((set.evaluator)(t, &p, (k + 2000 * round) as f64 * 1e-4));
                        std::hint::black_box(set.is_in_set((k * 977 + round) as i32));
                    }
                    Ok(())
                },
                w,
            );
            w.put("curves", set);
            r.map(drop)
        },
        |i| format!("{:?}", digits(i, &[2, 10, 40])),
    )
}
/// The same done by one thread after the other, each gone before the next; processes of their own.
fn threads33() -> Section {
    let works = 2 * mcglue::WORKS.len() as u64;
    let (n28, n) = (crate::ctx::n_ops28(), 15 * 2 * 3);
    Section::new(
        "threads that come and go",
        n + works + n28 * n28,
        move |i, w| {
            let (paths, out, mine) = (files33(w), w.dir.join("written.icc"), w.dir.join("own.bin"));
            let m = w.take("mailbox", |_| Mailbox::new());
            w.traces += 1;
            w.transitions += MANY as u64;
            w.nt();
            let op = || -> R {
                guarded(|| {
                    if i < n {
                        // up to three opens, each in a context of its own or all process-wide
                        let d = digits(i % 30, &[2, 15]);
                        for _ in 0..1 + i / 30 {
                            let p = &paths[d[1] as usize];
                            let r = if d[0] == 0 { mcglue::open_thr(&mut Context::new(None), p, false) } else { mcglue::open(p, false) };
                            std::hint::black_box(r.is_ok_and(|p| *p == *p && p.get_tag_count() > 3));
                        }
                        return Ok(());
                    }
                    if i < n + works {
                        let k = i - n;
                        std::hint::black_box(mcglue::work(k as usize / 2, k % 2, &[&paths[0], &paths[10]], &mine));
                        return Ok(());
                    }
                    let k = i - n - works;
                    crate::ctx::apply28(&[(k % n28) as u32, (k / n28) as u32], &paths, &out)
                })?
            };
            let r = m.forked(|| {
                ALL.store(true, Relaxed);
                let mut r = Ok(());
                let mut had = (0, 0);
                for k in 0..MANY {
                    if k == 2 {
                        had = handles();
                    }
                    let before = TOTAL.load(Relaxed);
                    let got = std::thread::scope(|s| s.spawn(op).join());
                    let held = TOTAL.load(Relaxed) - before;
                    r = match got {
                        Ok(Ok(())) if k >= 2 && held != 0 => Err(format!("thread {}: {held} bytes more are held after it ended", k + 1)),
                        Ok(g) => g,
                        Err(_) => Err("the thread was aborted".into()),
                    };
                    if r.is_err() {
                        break;
                    }
                }
                ALL.store(false, Relaxed);
                let r = r.and_then(|_| same_handles(had, "the third and later threads"));
                r.err().unwrap_or_default().into_bytes()
            });
            w.put("mailbox", m);
            let e = r?;
            if e.is_empty() {
                Ok(())
            } else {
                Err(String::from_utf8_lossy(&e).into_owned())
            }
        },
        move |i| format!("operation {i}"),
    )
}
pub fn c33(t: Tier) -> Check {
    let mut sections = hostile();
    sections.extend([pairs33(), contexts33(t), streams33(), curves33(), lasting33(), threads33()]);
    Check {
        id: "C33",
        level: "model_checking",
        rule: "every file of the stated families opened three times, every history of contexts up to the depth and every pair of other operations run three times or more, every operation on objects that live on 2,000 times, every operation and every pair of context operations in 40 threads one after the other, with the allocations of the thread (of all threads there), the open file handles and the threads counted: nothing more is held after the third and any later time than before it, and an open never holds more than 64 KiB plus four times the file's length; non-trivial: the three runs were made and weighed",
        assumptions: &["allocation goes through the global allocator", "what is set up once for good (the process-wide context, lazily created tables) is done by the second time"],
        sections,
    }
}

// ---------------------------------------------------------------- C34

extern "C" {
    fn setenv(n: *const u8, v: *const u8, o: i32) -> i32;
    fn unsetenv(n: *const u8) -> i32;
    fn umask(m: u32) -> u32;
    fn setrlimit(r: i32, l: *const u64) -> i32;
    fn chdir(p: *const u8) -> i32;
}
const TZS: [Option<&str>; 6] = [None, Some("UTC"), Some("America/St_Johns"), Some("XYZ+11:30"), Some(":/nonexistent"), Some("")];
const LANGS: [&str; 3] = ["C", "tr_TR.UTF-8", "de_DE.ISO-8859-1"];
/// seconds added to the clock: now, 1970, 2038 and later, 2999
const CLOCKS: [i64; 5] = [0, -1_600_000_000, 600_000_000, 3_000_000_000, 30_000_000_000];
const CLOSED: [&[i32]; 4] = [&[], &[0], &[0, 1, 2], &[2]];
const MASKS: [u32; 3] = [0o022, 0, 0o777];
const RADIX: [u64; 8] = [6, 3, 5, 4, 3, 3, 3, 4];
/// What the library answers, by part; the same everywhere.
fn survey(dir: &Path, paths: &[PathBuf]) -> Vec<u64> {
    let mut v = vec![];
    let mine = dir.join("own.bin");
    for k in 0..mcglue::WORKS.len() {
        v.push(hash_of(&mcglue::work(k, k as u64 % 2, &[&paths[0], &paths[10]], &mine)));
    }
    let mut c = Context::new(None);
    for p in paths {
        for global in [false, true] {
            let r = if global { mcglue::open(p, false) } else { mcglue::open_thr(&mut c, p, false) };
            v.push(match r {
                Ok(p) => view_hash(&p.verif_view()),
                Err(e) => hash_of(&(e.kind(), e.raw_os_error())),
            });
        }
    }
    let out = dir.join("written.icc");
    std::fs::write(&out, b"old").expect("scratch file");
    let r = mcglue::open_thr(&mut c, &out, true);
    v.push(hash_of(&(r.is_ok(), r.is_ok_and(|p| p.verif_view().is_write), std::fs::read(&out).ok())));
    v
}
fn in_surroundings(i: u64, dir: &Path, paths: &[PathBuf]) -> Vec<u64> {
    let d = digits(i, &RADIX);
    let c = |s: &str| {
        let mut v = s.as_bytes().to_vec();
        v.push(0);
        v
    };
    unsafe {
        match TZS[d[0] as usize] {
            None => unsetenv(b"TZ\0".as_ptr()),
            Some(z) => setenv(b"TZ\0".as_ptr(), c(z).as_ptr(), 1),
        };
        for n in ["LANG\0", "LC_ALL\0", "LC_NUMERIC\0"] {
            setenv(n.as_ptr(), c(LANGS[d[1] as usize]).as_ptr(), 1);
        }
        CLOCK.store(CLOCKS[d[2] as usize], std::sync::atomic::Ordering::Relaxed);
        ENV.store(d[7] as usize, std::sync::atomic::Ordering::Relaxed);
        match d[4] {
            0 => {}
            1 => drop(chdir(b"/\0".as_ptr())),
            _ => {
                // a directory that is gone
                let p = dir.join("gone");
                let _ = std::fs::create_dir(&p);
                chdir(c(p.to_str().expect("scratch path")).as_ptr());
                let _ = std::fs::remove_dir(&p);
            }
        }
        umask(MASKS[d[5] as usize]);
        for fd in CLOSED[d[3] as usize] {
            close(*fd);
        }
        match d[6] {
            0 => survey(dir, paths),
            k => {
                // few descriptors, and a thread with a small stack
                if k == 2 {
                    setrlimit(7, [32u64, 32].as_ptr());
                }
                let (d, p) = (dir.to_path_buf(), paths.to_vec());
                std::thread::Builder::new()
                    .stack_size(256 * 1024)
                    .spawn(move || survey(&d, &p))
                    .expect("thread")
                    .join()
                    .unwrap_or_default()
            }
        }
    }
}
fn bytes64(v: &[u64]) -> Vec<u8> {
    v.iter().flat_map(|x| x.to_le_bytes()).collect()
}
fn part(k: usize) -> String {
    let n = mcglue::WORKS.len();
    match k {
        k if k < n => mcglue::WORKS[k].to_string(),
        k if k < n + 30 => format!("opening {}", corpus18()[(k - n) / 2].0),
        _ => "opening for writing".into(),
    }
}
fn surroundings() -> Section {
    Section::new(
        "every combination of surroundings",
        RADIX.iter().product(),
        |i, w| {
            let (paths, dir) = (files33(w), w.dir.clone());
            let m = w.take("mailbox", |_| Mailbox::new());
            let base = w.take("survey", |_| m.forked(|| bytes64(&in_surroundings(0, &dir, &paths))));
            let got = m.forked(|| bytes64(&guarded(|| in_surroundings(i, &dir, &paths)).unwrap_or_default()));
            w.put("mailbox", m);
            let r = (|| {
                let (a, b) = (base.as_ref().map_err(String::clone)?, got?);
                w.traces += 1;
                w.transitions += a.len() as u64 / 8;
                if a.is_empty() {
                    return Err("the library aborted".into());
                }
                w.nt();
                w.obs(&b);
                if *a == b {
                    return Ok(());
                }
                if b.is_empty() {
                    return Err("the library aborted".into());
                }
                let k = (0..a.len() / 8).find(|k| a.get(8 * k..8 * k + 8) != b.get(8 * k..8 * k + 8)).unwrap_or(0);
                Err(format!("{} gives another result than elsewhere", part(k)))
            })();
            w.put("survey", base);
            r
        },
        |i| {
            let d = digits(i, &RADIX);
            format!(
                "TZ {:?}, locale {}, clock {:+} s, descriptors closed {:?}, directory {}, umask {:o}, {}, every other variable {}",
                TZS[d[0] as usize],
                LANGS[d[1] as usize],
                CLOCKS[d[2] as usize],
                CLOSED[d[3] as usize],
                ["as it is", "/", "gone"][d[4] as usize],
                MASKS[d[5] as usize],
                ["main thread", "thread of 256 KiB", "thread of 256 KiB, 32 descriptors"][d[6] as usize],
                if d[7] == 0 { "not set" } else { ENVS[d[7] as usize].trim_end_matches('\0') }
            )
        },
    )
}
/// Notes every file opened and every write to a descriptor that was not opened meanwhile.
struct Watch {
    own: Vec<i32>,
    may: Vec<Vec<u8>>,
    writing: bool,
    /// the last open, if it names a file not allowed: it may still be one of them
    other: Option<String>,
    seen: Option<String>,
}
impl Watch {
    fn allowed(&self, fd: i32) -> bool {
        use std::os::unix::{ffi::OsStrExt, fs::MetadataExt};
        let ino = raw_inode(fd);
        unhooked(|| self.may.iter().any(|p| std::fs::metadata(std::ffi::OsStr::from_bytes(p)).is_ok_and(|m| m.ino() == ino)))
    }
}
impl Hook for Watch {
    fn call(&mut self, c: &Call) -> Act {
        match c.kind {
            Kind::Open => {
                let p = unsafe { std::ffi::CStr::from_ptr(c.path as *const _) }.to_bytes();
                self.other = None;
                if !self.may.iter().any(|m| m == p) {
                    self.other = Some(format!("opened {}", String::from_utf8_lossy(p)));
                } else if !self.writing && c.flags & 0o1103 != 0 {
                    self.seen.get_or_insert(format!("opened it with flags {:o}", c.flags));
                }
            }
            Kind::Write | Kind::Trunc if !self.writing || !self.own.contains(&c.fd) => {
                self.seen.get_or_insert(format!("{:?} on descriptor {}", c.kind, c.fd));
            }
            Kind::Read | Kind::Seek | Kind::Close | Kind::Sync if !self.own.contains(&c.fd) => {
                self.seen.get_or_insert(format!("{:?} on descriptor {}", c.kind, c.fd));
            }
            _ => {}
        }
        Act::Pass
    }
    fn done(&mut self, c: &Call, r: i64) {
        match c.kind {
            Kind::Open | Kind::Dup if r >= 0 => {
                if let Some(o) = self.other.take().filter(|_| !self.allowed(r as i32)) {
                    self.seen.get_or_insert(o);
                }
                self.own.push(r as i32)
            }
            Kind::Open => {
                if let Some(o) = self.other.take() {
                    self.seen.get_or_insert(o);
                }
            }
            Kind::Close => self.own.retain(|f| *f != c.fd),
            _ => {}
        }
    }
}
fn silent() -> Section {
    let n = mcglue::WORKS.len() as u64;
    Section::new(
        "nothing else is touched, nothing is printed",
        15 * 2 * 256 + 2 * 4 + 2 * n + 240 * 2,
        move |i, w| {
            let mut f = Watch { own: vec![], may: vec![], writing: false, other: None, seen: None };
            let b = |p: &Path| {
                use std::os::unix::ffi::OsStrExt;
                p.as_os_str().as_bytes().to_vec()
            };
            let paths = files33(w);
            let mut c = Context::new(Some(Box::new([1])));
            let mut open = |f: &mut Watch, p: &Path, write: bool, global: bool| {
                f.may.push(b(p));
                f.writing = write;
                with_hook(f, || {
                    guarded(|| {
                        let r = if global { mcglue::open(p, write) } else { mcglue::open_thr(&mut c, p, write) };
                        std::hint::black_box(r.is_ok_and(|p| *p == *p && p.get_tag_count() > 0));
                    })
                })
            };
            w.traces += 1;
            w.transitions += 1;
            w.nt();
            let opens = 15 * 2 * 256;
            if i < opens {
                // each outcome, each with one byte of the magic, the count or the directory changed
                let d = digits(i, &[256, 2, 15]);
                let mut x = corpus18()[d[2] as usize].1.clone();
                let at = [0usize, 3, 25, 27, 36, 39, 128, 130, 131, 137, 143, 8, 15, 19, 66, 99][d[0] as usize / 16];
                if let Some(v) = x.as_mut().and_then(|x| x.get_mut(at)) {
                    *v ^= [0u8, 1, 2, 4, 8, 16, 32, 64, 128, 255, 3, 5, 0x55, 0xAA, 0x7F, 0xF0][d[0] as usize % 16];
                }
                let p = match &x {
                    Some(x) => bench(w, |f, _| {
                        f.set(x);
                        f.path.clone()
                    }),
                    None => paths[5].clone(),
                };
                open(&mut f, &p, false, d[1] == 1)?;
            } else if i < opens + 8 {
                let k = (i - opens) as usize;
                let p = w.dir.join(["written.icc", "written2.icc", "nowhere/x.icc", ""][k % 4]);
                open(&mut f, &p, true, k >= 4)?;
            } else if i < opens + 8 + 2 * n {
                let k = i - opens - 8;
                let mine = w.dir.join("own.bin");
                f.may = [&paths[0], &paths[10], &mine].map(|p| b(p)).to_vec();
                f.writing = true;
                with_hook(&mut f, || guarded(|| std::hint::black_box(mcglue::work(k as usize / 2, k % 2, &[&paths[0], &paths[10]], &mine))))?;
            } else {
                let k = i - opens - 8 - 2 * n;
                let all = w.take("causes", |w| causes(&w.dir));
                let r = match all.get(k as usize / 2) {
                    Some(c) => open(&mut f, &c.1, c.2, k % 2 == 1),
                    None => Ok(()),
                };
                w.put("causes", all);
                r?;
            }
            match f.seen {
                Some(s) => Err(s),
                None => Ok(()),
            }
        },
        |i| format!("case {i}"),
    )
}
/// One file under every name it has.
fn spellings() -> Section {
    const N: u64 = 14;
    fn names(dir: &Path) -> Vec<PathBuf> {
        let d = dir.to_str().expect("scratch path").to_string();
        let sub = dir.join("sp");
        let _ = std::fs::create_dir(&sub);
        std::fs::write(dir.join("sp/file.icc"), base3()).expect("scratch file");
        std::fs::write(dir.join("sp/other.icc"), base100()).expect("scratch file");
        let _ = std::os::unix::fs::symlink(dir.join("sp/file.icc"), dir.join("sp-link"));
        let _ = std::os::unix::fs::symlink("sp/file.icc", dir.join("sp-relative-link"));
        let _ = std::os::unix::fs::symlink("sp", dir.join("sp-directory"));
        let _ = std::fs::hard_link(dir.join("sp/file.icc"), dir.join("sp-hard"));
        let odd = "sp/na me \u{e9}\u{1F3A8} %s {} \n.ICC";
        std::fs::write(dir.join(odd), base3()).expect("scratch file");
        vec![
            format!("{d}/sp/file.icc").into(),
            "sp/file.icc".into(),
            "./sp/file.icc".into(),
            "sp/../sp/./file.icc".into(),
            format!("{d}//sp///file.icc").into(),
            "sp-link".into(),
            "sp-relative-link".into(),
            "sp-directory/file.icc".into(),
            "sp-hard".into(),
            odd.into(),
            format!("{}sp/file.icc", "./".repeat(1500)).into(),
            format!("{d}/sp-link").into(),
            format!("{d}/sp-directory/../sp/file.icc").into(),
            format!("{d}/{odd}").into(),
        ]
    }
    Section::new(
        "one file under every name",
        N * N * 2,
        |i, w| {
            let d = digits(i, &[N, N, 2]);
            let dir = w.dir.clone();
            let m = w.take("mailbox", |_| Mailbox::new());
            w.traces += 1;
            w.transitions += 2;
            w.nt();
            let r = m.forked(|| {
                let names = names(&dir);
                std::env::set_current_dir(&dir).expect("scratch directory");
                let r = guarded(|| {
                    let mut c = Context::new(None);
                    let mut get = |k: u64| {
                        let p = &names[k as usize];
                        if d[2] == 0 { mcglue::open_thr(&mut c, p, false) } else { mcglue::open(p, false) }
                    };
                    let (a, b): (Result<Box<Profile>, _>, _) = (get(d[0]), get(d[1]));
                    match (a, b) {
                        (Ok(a), Ok(b)) if *a == *b && view_hash(&a.verif_view()) == view_hash(&b.verif_view()) && a.get_tag_count() == 3 => String::new(),
                        (Ok(_), Ok(_)) => "the two differ".into(),
                        (Err(e), _) => format!("the first fails ({e})"),
                        (_, Err(e)) => format!("the second fails ({e})"),
                    }
                });
                r.unwrap_or_else(|e| e).into_bytes()
            });
            w.put("mailbox", m);
            let e = r?;
            if e.is_empty() {
                Ok(())
            } else {
                Err(String::from_utf8_lossy(&e).into_owned())
            }
        },
        |i| format!("(name, name, process-wide) = {:?}", digits(i, &[N, N, 2])),
    )
}
/// Names of every character, of every length, and ones that mean something elsewhere.
pub fn odd_names() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![];
    for c in (1..=255u8).filter(|c| *c != b'/') {
        for n in [vec![c], vec![c, b'x'], vec![b'x', c], vec![b'x', c, b'x'], vec![c, c, c], vec![b'x', b'.', b'i', b'c', c]] {
            if n != b"." && n != b".." {
                v.push(n);
            }
        }
    }
    v.extend((1..=255).map(|n| vec![b'n'; n]));
    v.extend((1..=1000).map(|n| [b"./".repeat(n), b"deep".to_vec()].concat()));
    for n in [
        "CON", "nul", "aux.icc", "~", "~root", "$HOME", "${HOME}", "%HOME%", "a%20b", "a+b", "*", "?", "*.icc", "[a]", "http:", "file:a", "file:a.icc", "a:b", "C:", "C:a.icc", "\\\\a\\b",
        "a\\b", "-", "--", "-h", "a;1", "a b c", " a", "a ", "\ta", "a\n", "a.", ".a", "..a", "a..", "...", "#a#", "a~", "'a'", "\"a\"", "`a`", "$(a)", "&a", "a|b", ">a", "<a", "sRGB", "icc:sRGB", "mem:",
        "null", "stdin", "ICC", "Icc", "icc", ".icc.", "a.icc.icc", "x.icm", "x.ICM", "x.gz", "x.tmp", "x.bak", "x.lock", "x.part", "x.profile", "x.jpg", "x.xml", "x.json", "1", "0", "007", "0x10",
    ] {
        v.push(n.into());
    }
    v
}
fn every_name() -> Section {
    use std::os::unix::ffi::{OsStrExt, OsStringExt};
    let names = odd_names();
    let n = names.len() as u64;
    let shown = names.clone();
    Section::new(
        "every name",
        n * 8,
        move |i, w| {
            let d = digits(i, &[2, 4, n]);
            let name = &names[d[2] as usize];
            let dir = w.dir.join("names");
            let file = |n: &[u8]| dir.join(std::ffi::OsStr::from_bytes(n));
            let clear = || {
                let _ = std::fs::remove_dir_all(&dir);
            };
            clear();
            std::fs::create_dir(&dir).expect("scratch directory");
            let p = file(name);
            let bytes = if d[0] == 0 { base3() } else { base100() };
            let want = bench(w, |f, _| {
                f.set(&bytes);
                mcglue::open_thr(&mut Context::new(None), &f.path, false).map(|p| view_hash(&p.verif_view())).ok()
            });
            let mut c = Context::new(None);
            w.nt();
            w.traces += 1;
            w.transitions += 1;
            let write = d[1] > 1;
            if !write || d[0] == 0 {
                std::fs::write(&p, &bytes).expect("scratch file");
            }
            let r = guarded(|| if d[1] % 2 == 0 { mcglue::open_thr(&mut c, &p, write) } else { mcglue::open(&p, write) })?;
            let found: Vec<_> = std::fs::read_dir(&dir).expect("scratch directory").map(|e| e.expect("entry").file_name().into_vec()).collect();
            let base = name.rsplit(|c| *c == b'/').next().unwrap_or(&[]);
            let now = std::fs::read(file(base)).ok();
            clear();
            if found != [base] {
                return Err(format!("the directory now holds {:?}", found.iter().map(|n| String::from_utf8_lossy(n).into_owned()).collect::<Vec<_>>()));
            }
            match r {
                Err(e) => Err(format!("fails ({e})")),
                Ok(q) if write => {
                    if now != Some(vec![]) || !q.verif_view().is_write {
                        return Err("did not make the file empty".into());
                    }
                    Ok(())
                }
                Ok(q) => {
                    if Some(view_hash(&q.verif_view())) != want || now.as_ref() != Some(&bytes) {
                        return Err("gives another profile than under a plain name".into());
                    }
                    Ok(())
                }
            }
        },
        move |i| {
            let d = digits(i, &[2, 4, n]);
            format!("{} as {:?}", ["read", "read, process-wide", "written", "written, process-wide"][d[1] as usize], String::from_utf8_lossy(&shown[d[2] as usize]))
        },
    )
}
/// Ways a process or thread can differ that have nothing to do with the library.
const TRAITS: [(&str, &[&str]); 9] = [
    ("in", &["the main thread", "a thread without name", "a thread called main", "preview", "worker", "", "test", "tokio-runtime-worker", "rayon-0", "lcms2", "fifteen letters"]),
    ("processors", &["all", "one", "two"]),
    ("descriptors below taken", &["as they are", "256", "1024", "4100"]),
    ("it is", &["itself", "another user", "process 1", "the child of process 1", "process 0"]),
    ("signals and the like", &["as they are", "all blocked", "all ignored", "nice 19", "a session of its own", "no new privileges", "not dumpable"]),
    ("started as", &["it was", "nothing", "/usr/bin/convert", "lcms2", "a process called test"]),
    ("told", &["the truth", "everything is a terminal", "nothing is a terminal", "random is 0", "random is 255"]),
    ("run", &["plainly", "while panicking", "after a panic", "inside a caught panic's guard", "as the thread ends"]),
    ("limits", &["as they are", "no core", "no further process", "small stack", "1 GiB of memory"]),
];
extern "C" {
    fn sched_getaffinity(p: i32, n: usize, m: *mut u64) -> i32;
    fn sched_setaffinity(p: i32, n: usize, m: *const u64) -> i32;
    fn dup(fd: i32) -> i32;
    fn getrlimit(r: i32, l: *mut u64) -> i32;
    fn setresgid(a: u32, b: u32, c: u32) -> i32;
    fn setresuid(a: u32, b: u32, c: u32) -> i32;
    fn sigprocmask(how: i32, a: *const u64, b: *mut u64) -> i32;
    fn signal(s: i32, h: usize) -> usize;
    fn nice(n: i32) -> i32;
    fn setsid() -> i32;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}
/// The answers under these traits; None where this machine does not let them be set up.
fn with_traits(set: &[(usize, usize)], dir: &Path, paths: &[PathBuf]) -> Option<Vec<u64>> {
    let has = |t: usize| set.iter().find(|s| s.0 == t).map_or(0, |s| s.1);
    use std::sync::atomic::Ordering::Relaxed;
    unsafe {
        if has(1) > 0 {
            let (mut all, mut few, mut left) = ([0u64; 16], [0u64; 16], has(1));
            sched_getaffinity(0, 128, all.as_mut_ptr());
            for k in (0..1024).filter(|k| all[k / 64] >> (k % 64) & 1 == 1) {
                if left > 0 {
                    few[k / 64] |= 1 << (k % 64);
                    left -= 1;
                }
            }
            if sched_setaffinity(0, 128, few.as_ptr()) != 0 {
                return None;
            }
        }
        if has(2) > 0 {
            let below = [0, 256, 1024, 4100][has(2)];
            let mut l = [0u64; 2];
            getrlimit(7, l.as_mut_ptr());
            if l[1] < below + 100 {
                return None;
            }
            l[0] = below + 100;
            setrlimit(7, l.as_ptr());
            let zero = std::fs::File::open(&paths[0]).expect("scratch file");
            let fd = std::os::fd::IntoRawFd::into_raw_fd(zero);
            loop {
                let k = dup(fd);
                if k < 0 {
                    return None;
                }
                if k as u64 >= below {
                    close(k);
                    break;
                }
            }
        }
        match has(4) {
            1 => drop(sigprocmask(0, [!(1u64 << 13); 16].as_ptr(), std::ptr::null_mut())),
            // the harness's own time limit stays
            2 => (1..=64).filter(|s| ![9, 14, 19].contains(s)).for_each(|s| drop(signal(s, 1))),
            3 => drop(nice(19)),
            4 => drop(setsid()),
            5 => drop(prctl(38, 1, 0, 0, 0)),
            6 => drop(prctl(4, 0, 0, 0, 0)),
            _ => {}
        }
        match has(5) {
            1 => started_as(c""),
            2 => started_as(c"/usr/bin/convert"),
            3 => started_as(c"lcms2"),
            4 => drop(prctl(15, c"test".as_ptr() as u64, 0, 0, 0)),
            _ => {}
        }
        match has(6) {
            1 => TTY.store(1, Relaxed),
            2 => TTY.store(0, Relaxed),
            3 => RANDOM.store(0, Relaxed),
            4 => RANDOM.store(255, Relaxed),
            _ => {}
        }
        match has(8) {
            1 => drop(setrlimit(4, [0u64, 0].as_ptr())),
            2 if has(0) == 0 && has(7) != 4 => drop(setrlimit(6, [0u64, 0].as_ptr())),
            3 if has(0) == 0 && has(7) != 4 => drop(setrlimit(3, [256u64 << 10, 256 << 10].as_ptr())),
            4 => drop(setrlimit(9, [1u64 << 30, 1 << 30].as_ptr())),
            _ => {}
        }
        match has(3) {
            1 => {
                use std::os::unix::fs::PermissionsExt;
                let _ = std::fs::set_permissions(dir, std::fs::Permissions::from_mode(0o777));
                for n in ["own.bin", "written.icc"] {
                    let _ = std::fs::remove_file(dir.join(n));
                }
                if setresgid(65534, 65534, 65534) != 0 || setresuid(65534, 65534, 65534) != 0 {
                    return None;
                }
                // not where the scratch directory lies behind a private one
                if std::fs::File::open(&paths[0]).is_err() || std::fs::write(dir.join("written.icc"), b"").is_err() {
                    return None;
                }
            }
            2 => PID.store(1, Relaxed),
            3 => PPID.store(1, Relaxed),
            4 => {
                PID.store(0, Relaxed);
                PPID.store(0, Relaxed);
            }
            _ => {}
        }
    }
    let (dir, paths, how) = (dir.to_path_buf(), paths.to_vec(), has(7));
    let run = move || -> Vec<u64> {
        struct Last<F: FnMut()>(F);
        impl<F: FnMut()> Drop for Last<F> {
            fn drop(&mut self) {
                (self.0)()
            }
        }
        let mut got = vec![];
        let mut go = || got = guarded(|| survey(&dir, &paths)).unwrap_or_default();
        match how {
            0 | 4 => go(),
            1 => {
                let _ = guarded(|| {
                    let _last = Last(go);
                    std::panic::resume_unwind(Box::new(()));
                });
            }
            2 => {
                let _: Result<(), _> = guarded(|| std::panic::resume_unwind(Box::new(())));
                go()
            }
            _ => {
                let _ = guarded(|| {
                    let _last = Last(|| {
                        let _: Result<(), _> = guarded(|| std::panic::resume_unwind(Box::new(())));
                        go()
                    });
                    std::panic::resume_unwind(Box::new(()));
                });
            }
        }
        got
    };
    if how == 4 {
        // in the destructor of a variable of the thread
        struct End(Option<Box<dyn FnOnce()>>);
        impl Drop for End {
            fn drop(&mut self) {
                if let Some(f) = self.0.take() {
                    f()
                }
            }
        }
        thread_local! {
            static END: std::cell::RefCell<End> = const { std::cell::RefCell::new(End(None)) };
        }
        let (tx, rx) = std::sync::mpsc::channel();
        let mut t = std::thread::Builder::new();
        if has(0) > 1 {
            t = t.name(TRAITS[0].1[has(0)].into());
        }
        let t = t.spawn(move || {
            END.with(|e| e.borrow_mut().0 = Some(Box::new(move || drop(tx.send(run())))));
        });
        drop(t.expect("thread").join());
        return Some(rx.recv().unwrap_or_default());
    }
    match has(0) {
        0 => Some(run()),
        k => {
            let mut t = std::thread::Builder::new();
            if k > 1 {
                t = t.name(TRAITS[0].1[k].trim_start_matches("a thread called ").into());
            }
            Some(t.spawn(run).expect("thread").join().unwrap_or_default())
        }
    }
}
/// Every set of up to `n` traits, no two of a kind.
fn trait_sets(n: usize) -> Vec<Vec<(usize, usize)>> {
    let mut all: Vec<Vec<(usize, usize)>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..n {
        let to = all.len();
        for k in from..to {
            let next = all[k].last().map_or(0, |l: &(usize, usize)| l.0 + 1);
            for t in next..TRAITS.len() {
                for v in 1..TRAITS[t].1.len() {
                    let mut s = all[k].clone();
                    s.push((t, v));
                    all.push(s);
                }
            }
        }
        from = to;
    }
    all
}
fn processes(t: Tier) -> Section {
    let sets = std::sync::Arc::new(trait_sets(t.pick(2, 3)));
    let shown = sets.clone();
    Section::new(
        "every kind of process and thread",
        sets.len() as u64,
        move |i, w| {
            let (paths, dir) = (files33(w), w.dir.clone());
            let m = w.take("mailbox", |_| Mailbox::new());
            let base = w.take("survey", |_| m.forked(|| bytes64(&in_surroundings(0, &dir, &paths))));
            let got = m.forked(|| match guarded(|| with_traits(&sets[i as usize], &dir, &paths)) {
                Ok(None) => vec![1],
                Ok(Some(v)) => bytes64(&v),
                Err(_) => vec![],
            });
            w.put("mailbox", m);
            let r = (|| {
                let (a, b) = (base.as_ref().map_err(String::clone)?, got?);
                if b == [1] {
                    return Ok(());
                }
                w.traces += 1;
                w.transitions += a.len() as u64 / 8;
                w.nt();
                w.obs(&b);
                if *a == b {
                    return Ok(());
                }
                if b.is_empty() {
                    return Err("the library aborted".into());
                }
                let k = (0..a.len() / 8).find(|k| a.get(8 * k..8 * k + 8) != b.get(8 * k..8 * k + 8)).unwrap_or(0);
                Err(format!("{} gives another result than elsewhere", part(k)))
            })();
            w.put("survey", base);
            r
        },
        move |i| shown[i as usize].iter().map(|(t, v)| format!("{}: {}", TRAITS[*t].0, TRAITS[*t].1[*v])).collect::<Vec<_>>().join(", "),
    )
}
pub fn c34(t: Tier) -> Check {
    Check {
        id: "C34",
        level: "model_checking",
        rule: "every combination of time zone, locale, clock, value of all other environment variables, closed standard descriptors, working directory, umask, thread and limits, and every pair of other traits of processes and threads, each in a process of its own, with every answer of the library compared with the one in plain surroundings; every pair of names of one file; files under names of every character, every length and of special meaning elsewhere; every open of the corpora and every other operation with its system calls watched; non-trivial: the operations ran and were compared",
        assumptions: &["a process forked before any use of the library stands for a fresh one", "files and output are reached through the interposed libc entry points"],
        sections: vec![surroundings(), processes(t), spellings(), every_name(), silent()],
    }
}
