//! C04, C05, C14: every pattern of misbehaving system calls, up to a number of deviations.
use crate::engine::*;
use crate::explore::{explore, Chooser};
use crate::profile::*;
use crate::stream::{hex, pattern, MKind, Model, Op, T};
use crate::sys::*;
use lcms2::io::IOHandler;
use lcms2::state::Context;
use lcms2::types::verif::ProfileView;
use std::collections::HashMap;
use std::fs::{File, OpenOptions};
use std::io::SeekFrom;
use std::os::fd::AsRawFd;
use std::path::{Path, PathBuf};

/// Decides the answer of each call from a Chooser and notes what was answered.
pub struct Faults {
    c: Chooser,
    /// a real failure was answered since last cleared
    hard: Option<String>,
    /// the same for an answer that asks for another try: failing is as good as trying again
    soft: Option<String>,
    benign: u32,
    open_alts: bool,
    /// the only misbehaviour: failing with this error number
    only: Option<i32>,
    notes: Vec<String>,
    open: Vec<i32>,
    closes: Vec<(i32, i64)>,
    calls: u64,
}
impl Faults {
    fn new(c: Chooser) -> Faults {
        Faults {
            c,
            hard: None,
            soft: None,
            benign: 0,
            open_alts: true,
            only: None,
            notes: vec![],
            open: vec![],
            closes: vec![],
            calls: 0,
        }
    }
    fn note(&mut self, s: String) {
        self.notes.push(s);
    }
    fn err(&mut self, k: Kind, e: i32) -> Act {
        self.note(format!("{k:?} answered errno {e}"));
        if e == EINTR {
            self.benign += 1;
        } else if e == EAGAIN {
            self.soft = Some(format!("{k:?} would block"));
        } else {
            self.hard = Some(format!("{k:?} answered errno {e}"));
        }
        Act::Err(e)
    }
    /// What the operation failed from, now that it is known whether it did.
    fn settle(&mut self, failed: bool) {
        if failed && self.hard.is_none() {
            self.hard = self.soft.take();
        }
    }
    fn short(&mut self, k: Kind, n: usize, of: usize) -> Act {
        self.note(format!("{k:?} moved {n} of {of} bytes"));
        self.benign += 1;
        Act::Short(n)
    }
    fn end(&mut self, k: Kind) -> Act {
        self.note(format!("{k:?} moved nothing"));
        self.hard = Some(format!("{k:?} moved nothing"));
        Act::Ret(0)
    }
}
impl Hook for Faults {
    fn call(&mut self, c: &Call) -> Act {
        self.calls += 1;
        if let Some(e) = self.only {
            return match c.kind {
                Kind::Read | Kind::Write if c.len == 0 => Act::Pass,
                Kind::Read | Kind::Write | Kind::Seek | Kind::Open if self.c.choose(2) == 1 => self.err(c.kind, e),
                _ => Act::Pass,
            };
        }
        match c.kind {
            Kind::Read => {
                let at = if c.at { c.off } else { raw_lseek(c.fd, 0, 1) };
                let left = (raw_size(c.fd) - at).max(0) as usize;
                if c.len == 0 || left == 0 {
                    return Act::Pass;
                }
                let n = c.len.min(left);
                // 0 pass, 1 EINTR, 2 EIO, 3 end of file, 4 one byte, 5 all but one
                match self.c.choose(if n > 2 { 6 } else if n == 2 { 5 } else { 4 }) {
                    0 => Act::Pass,
                    1 => self.err(c.kind, EINTR),
                    2 => self.err(c.kind, EIO),
                    3 => self.end(c.kind),
                    4 => self.short(c.kind, 1, n),
                    _ => self.short(c.kind, n - 1, n),
                }
            }
            Kind::Write => {
                if c.len == 0 {
                    return Act::Pass;
                }
                let n = c.len;
                match self.c.choose(if n > 2 { 7 } else if n == 2 { 6 } else { 5 }) {
                    0 => Act::Pass,
                    1 => self.err(c.kind, EINTR),
                    2 => self.err(c.kind, EIO),
                    3 => self.err(c.kind, ENOSPC),
                    4 => self.end(c.kind),
                    5 => self.short(c.kind, 1, n),
                    _ => self.short(c.kind, n - 1, n),
                }
            }
            Kind::Seek => match self.c.choose(2) {
                0 => Act::Pass,
                _ => self.err(c.kind, EIO),
            },
            Kind::Open if self.open_alts => match self.c.choose(6) {
                0 => Act::Pass,
                1 => self.err(c.kind, EINTR),
                2 => self.err(c.kind, ENOENT),
                3 => self.err(c.kind, EACCES),
                4 => self.err(c.kind, EMFILE),
                _ => self.err(c.kind, EIO),
            },
            _ => Act::Pass,
        }
    }
    fn done(&mut self, c: &Call, ret: i64) {
        match c.kind {
            Kind::Open | Kind::Dup if ret >= 0 => self.open.push(ret as i32),
            Kind::Close => {
                self.closes.push((c.fd, ret));
                if let Some(k) = self.open.iter().position(|f| *f == c.fd) {
                    self.open.swap_remove(k);
                }
            }
            _ => {}
        }
    }
}

/// Every error number that means the call failed: EINTR and EAGAIN ask for another try.
fn errnos() -> Vec<i32> {
    (1..=133).filter(|e| *e != EINTR && *e != EAGAIN).collect()
}

// ---------------------------------------------------------------- C04

fn ops04() -> Vec<Op> {
    use Op::*;
    vec![
        W(1), W(5), W(300), R(1), R(5), R(300), Size, Tell, S(0), S(2), E(0), C(1), Wt(T::U16), Rt(T::U16),
        Wt(T::Xyz), Rt(T::Xyz), Wt(T::U16x3), Rt(T::U16x3), Wt(T::U64), Rt(T::U64), Rt(T::U32), Wt(T::S15),
        Rt(T::U8), Wt(T::F32),
    ]
}
fn init04(k: u64) -> Vec<u8> {
    (0..[0usize, 12, 400][k as usize]).map(|i| (i * 7 % 250) as u8 + 3).collect()
}

/// One execution: the history under the answers `c` decides.
fn exec04(path: &Path, init: &[u8], ops: &[Op], only: Option<i32>, c: Chooser, w: &mut W) -> (Chooser, R) {
    std::fs::write(path, init).expect("scratch file");
    let mut h = OpenOptions::new().read(true).write(true).open(path).expect("scratch file");
    let mut m = Model::new(MKind::Grow, init);
    let mut f = Faults::new(c);
    f.only = only;
    let mut out = Ok(());
    for (k, op) in ops.iter().enumerate() {
        (f.hard, f.soft) = (None, None);
        w.transitions += 1;
        if let Err(e) = step04(&mut h, &mut m, &mut f, *op, k, path) {
            out = Err(format!("step {} ({op:?}): {e}; answers so far: {:?}", k + 1, f.notes));
            break;
        }
    }
    if out.is_ok() {
        // with no more faults everything is as the model says
        let r = (|| {
            let at = h.tell().map_err(|e| format!("tell failed ({e})"))?;
            if m.pos.is_some_and(|p| p != at as u64) {
                return Err(format!("position {at} instead of {:?}", m.pos));
            }
            let got = std::fs::read(path).expect("scratch file");
            m.check_all(&got, "the file")
        })();
        if let Err(e) = r {
            out = Err(format!("afterwards: {e}; answers: {:?}", f.notes));
        }
    }
    w.obs(&f.notes.len());
    w.state(hash_of(&(&m.data, m.pos, f.notes.len())));
    w.traces += 1;
    (f.c, out)
}
fn step04(h: &mut File, m: &mut Model, f: &mut Faults, op: Op, k: usize, path: &Path) -> R {
    match op {
        Op::W(_) | Op::Wt(_) => {
            let Some(p) = m.pos else { return Ok(()) };
            let n = match op {
                Op::W(n) => n as usize,
                Op::Wt(t) => t.size(),
                _ => 0,
            };
            let b = pattern(k + 1, n);
            let got = with_hook(f, || match op {
                Op::Wt(t) => guarded(|| t.write(h, &b)),
                _ => guarded(|| h.write(&b)),
            })?;
            f.settle(got.is_err());
            match (&f.hard, got) {
                (None, Ok(())) => {
                    m.write(&b);
                }
                (Some(_), Err(_)) => {
                    // some of it may have been stored: bytes in the range are old or new, the rest is untouched
                    let now = std::fs::read(path).expect("scratch file");
                    let (p, e) = (p as usize, p as usize + n);
                    if now.len() < m.data.len() || now.len() > m.data.len().max(e) {
                        return Err(format!("the failed write left {} bytes of {}", now.len(), m.data.len()));
                    }
                    for (i, x) in now.iter().enumerate() {
                        let old = m.data.get(i).copied().unwrap_or(0);
                        let new = if (p..e).contains(&i) { b[i - p] } else { old };
                        if *x != old && *x != new {
                            return Err(format!("the failed write put {x:02x} at byte {i}"));
                        }
                    }
                    m.size = now.len() as u64;
                    m.data = now;
                    m.pos = None;
                }
                (Some(h), Ok(())) => return Err(format!("succeeded although {h}")),
                (None, Err(e)) => return Err(format!("failed ({e}) without a real failure")),
            }
        }
        Op::R(_) | Op::Rt(_) => {
            let Some(_) = m.pos else { return Ok(()) };
            let n = match op {
                Op::R(n) => n as usize,
                Op::Rt(t) => t.size(),
                _ => 0,
            };
            let got = with_hook(f, || match op {
                Op::Rt(t) => guarded(|| t.read(h)),
                _ => guarded(|| {
                    let mut b = vec![0xA5u8; n];
                    h.read(&mut b).map(|_| b)
                }),
            })?;
            f.settle(got.is_err());
            if let Some(why) = &f.hard {
                if let Ok(g) = got {
                    return Err(format!("gave {} although {why}", hex(&g)));
                }
                m.pos = None;
                return Ok(());
            }
            match (m.read(n as u64), got) {
                (Some(a), Ok(b)) if a == b => {}
                (None, Err(_)) => {}
                (Some(a), Ok(b)) => return Err(format!("read {} instead of {}", hex(&b), hex(&a))),
                (None, Ok(b)) => return Err(format!("gave {} beyond the end", hex(&b))),
                (Some(_), Err(e)) => return Err(format!("failed ({e}) without a real failure")),
            }
        }
        Op::S(_) | Op::E(_) | Op::C(_) => {
            let (sf, base, d) = match op {
                Op::S(v) => (SeekFrom::Start(v), Some(0), v as i128),
                Op::E(v) => (SeekFrom::End(v), Some(m.size), v as i128),
                Op::C(v) => (SeekFrom::Current(v), m.pos, v as i128),
                _ => unreachable!(),
            };
            if base.is_none() {
                return Ok(());
            }
            let got = with_hook(f, || guarded(|| h.seek(sf)))?;
            f.settle(got.is_err());
            match (&f.hard, got) {
                (Some(_), Err(_)) => m.pos = None,
                (Some(why), Ok(())) => return Err(format!("succeeded although {why}")),
                (None, Ok(())) => {
                    m.seek(base, d);
                }
                (None, Err(e)) => return Err(format!("failed ({e}) without a real failure")),
            }
        }
        Op::Tell | Op::Size => {
            let got = with_hook(f, || guarded(|| if op == Op::Tell { h.tell() } else { h.reported_size() }))?;
            f.settle(got.is_err());
            match (&f.hard, got) {
                (Some(_), Err(_)) => m.pos = None,
                (Some(why), Ok(v)) => return Err(format!("answered {v} although {why}")),
                (None, Err(e)) => return Err(format!("failed ({e}) without a real failure")),
                (None, Ok(v)) => {
                    let want = if op == Op::Tell { m.pos } else { Some(m.size) };
                    if want.is_some_and(|x| x != v as u64) {
                        return Err(format!("answered {v} instead of {want:?}"));
                    }
                }
            }
        }
    }
    Ok(())
}

fn faulty(name: &'static str, ops: Vec<Op>, depth: u32, bound: usize, errs: Vec<Option<i32>>) -> Section {
    let k = ops.len() as u64;
    let per = seqs(k, depth);
    let n = per * 3 * errs.len() as u64;
    let get = move |i: u64| {
        let mut v = vec![];
        seq(i % per, k, depth, &mut v);
        let o: Vec<Op> = v.iter().map(|b| ops[*b as usize]).collect();
        (i / per % 3, o, errs[(i / per / 3) as usize])
    };
    let get2 = get.clone();
    Section::new(
        name,
        n,
        move |i, w| {
            let (init, ops, only) = get(i);
            let init = init04(init);
            let path = w.dir.join("faulty");
            let n = explore(bound, |c| {
                w.beat();
                exec04(&path, &init, &ops, only, c, w)
            })?;
            w.count("executions", n);
            w.nt();
            Ok(())
        },
        move |i| {
            let (init, ops, only) = get2(i);
            let p = only.map_or("every answer pattern".to_string(), |e| format!("calls failing with error {e}"));
            format!("file of {} bytes, {ops:?}, {p}", init04(init).len())
        },
    )
}

/// A read or write of exactly `n` bytes cut at every byte position.
fn cuts() -> Section {
    const MAX: u64 = 600;
    Section::new(
        "a transfer cut at every byte",
        2 * MAX * 4,
        |i, w| {
            let (write, how, at) = (i % 2 == 0, i / 2 % 4, (i / 8) as usize);
            let path = w.dir.join("cut");
            struct Cut {
                at: usize,
                how: u64,
                moved: usize,
                done: bool,
            }
            impl Hook for Cut {
                fn call(&mut self, c: &Call) -> Act {
                    if !matches!(c.kind, Kind::Read | Kind::Write) || c.len == 0 {
                        return Act::Pass;
                    }
                    if self.moved < self.at {
                        return Act::Short(c.len.min(self.at - self.moved));
                    }
                    if self.done {
                        return Act::Pass;
                    }
                    self.done = true;
                    match self.how {
                        0 => Act::Err(EINTR),
                        1 => Act::Err(EIO),
                        2 => Act::Err(EAGAIN),
                        _ => Act::Ret(0),
                    }
                }
                fn done(&mut self, _: &Call, r: i64) {
                    self.moved += r.max(0) as usize;
                }
            }
            let data = pattern(3, MAX as usize);
            std::fs::write(&path, if write { &[][..] } else { &data }).expect("scratch file");
            let mut h = OpenOptions::new().read(true).write(true).open(&path).expect("scratch file");
            let mut c = Cut {
                at,
                how,
                moved: 0,
                done: false,
            };
            let mut buf = vec![0xA5; MAX as usize];
            let r = with_hook(&mut c, || {
                guarded(|| if write { h.write(&data) } else { h.read(&mut buf) })
            })?;
            w.nt();
            w.traces += 1;
            w.transitions += 2;
            w.obs(&r.is_ok());
            if write {
                buf = std::fs::read(&path).expect("scratch file");
            }
            match (how, r) {
                (0, Ok(())) if buf == data => Ok(()),
                (0, Ok(())) => Err(format!("interrupted after {at} bytes: moved {}", hex(&buf))),
                (0, Err(e)) => Err(format!("interrupted after {at} bytes: failed ({e})")),
                (_, Err(_)) => Ok(()),
                (2, Ok(())) if buf == data => Ok(()),
                (_, Ok(())) => Err(format!("failed after {at} bytes, reported as success")),
            }
        },
        |i| {
            format!(
                "{} of 600 bytes, {} after {} bytes",
                if i % 2 == 0 { "write" } else { "read" },
                ["interrupted", "input/output error", "would block", "nothing more moves"][(i / 2 % 4) as usize],
                i / 8
            )
        },
    )
}

/// Every transfer moves at most `piece` bytes and is interrupted `times` times before it does.
struct Storm {
    times: u32,
    piece: usize,
    left: u32,
    calls: u64,
    fds: i64,
}
impl Storm {
    fn new(times: u32, piece: usize) -> Storm {
        Storm { times, piece, left: times, calls: 0, fds: 0 }
    }
}
impl Hook for Storm {
    fn call(&mut self, c: &Call) -> Act {
        self.calls += 1;
        match c.kind {
            Kind::Read | Kind::Write | Kind::Sync | Kind::Open => {}
            _ => return Act::Pass,
        }
        if matches!(c.kind, Kind::Read | Kind::Write) && c.len == 0 {
            return Act::Pass;
        }
        if self.left > 0 {
            self.left -= 1;
            return Act::Err(EINTR);
        }
        self.left = self.times;
        match c.kind {
            Kind::Read | Kind::Write if c.len > self.piece => Act::Short(self.piece),
            _ => Act::Pass,
        }
    }
    fn done(&mut self, c: &Call, r: i64) {
        match c.kind {
            Kind::Open | Kind::Dup if r >= 0 => self.fds += 1,
            Kind::Close if r == 0 => self.fds -= 1,
            _ => {}
        }
    }
}
const TIMES: [u32; 22] = [0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 16, 20, 32, 50, 64, 100, 128, 256, 300, 1000, 1025, 10_000];
const PIECES: [usize; 11] = [1, 2, 3, 5, 7, 8, 13, 64, 127, 4096, usize::MAX];
/// Rounds too long to take are taken with fewer interruptions.
fn storm(i: u64, total: u64) -> (u32, usize) {
    let (piece, times) = (PIECES[(i / 22) as usize], TIMES[(i % 22) as usize]);
    let rounds = total / piece as u64 + 1;
    (times.min((400_000 / rounds).max(300) as u32), piece)
}
fn storms() -> Section {
    const LENS: [usize; 6] = [1, 2, 8, 300, 5000, 20_000];
    Section::new(
        "every transfer in pieces and interrupted again and again",
        22 * 11 * 6,
        |i, w| {
            let n = LENS[(i / 242) as usize];
            let (times, piece) = storm(i % 242, 4 * n as u64 + 100);
            let path = w.dir.join("storm");
            let _ = std::fs::remove_file(&path);
            let data = pattern(3, n);
            let mut f = Storm::new(times, piece);
            let mut back = vec![0xA5; n];
            let mut back2 = vec![0x5A; n];
            w.beat();
            let r = with_hook(&mut f, || {
                guarded(|| -> std::io::Result<(u64, usize)> {
                    let mut h = OpenOptions::new().read(true).write(true).create(true).open(&path)?;
                    IOHandler::write(&mut h, &data)?;
                    h.write_u64(0x0102_0304_0506_0708)?;
                    h.write_u16_array(&[0x1122, 0x3344, 0x5566])?;
                    IOHandler::seek(&mut h, SeekFrom::Start(0))?;
                    IOHandler::read(&mut h, &mut back)?;
                    let x = h.read_u64()?;
                    IOHandler::seek(&mut h, SeekFrom::Start(0))?;
                    IOHandler::read(&mut h, &mut back2)?;
                    let size = h.reported_size()?;
                    h.close()?;
                    Ok((x, size))
                })
            })?;
            w.nt();
            w.traces += 1;
            w.transitions += f.calls;
            w.obs(&f.calls);
            let mut whole = data.clone();
            whole.extend([1, 2, 3, 4, 5, 6, 7, 8, 0x11, 0x22, 0x33, 0x44, 0x55, 0x66]);
            match r {
                Err(e) => Err(format!("failed ({e})")),
                Ok(_) if std::fs::read(&path).ok() != Some(whole) => Err("the file is not what was written".into()),
                Ok((0x0102_0304_0506_0708, s)) if s == n + 14 && back == data && back2 == data => Ok(()),
                Ok((x, s)) => Err(format!("read back other bytes, {x:#x}, or size {s}")),
            }
        },
        |i| {
            let n = LENS[(i / 242) as usize];
            let (times, piece) = storm(i % 242, 4 * n as u64 + 100);
            format!("transfers of {n} bytes in pieces of up to {piece}, {times} interruptions before each")
        },
    )
}

pub fn c04(t: Tier) -> Check {
    use Op::*;
    Check {
        id: "C04",
        level: "fault_enumeration",
        rule: "every history up to the depth, times every pattern of short, interrupted and failing system calls with at most the stated number of deviations (quick 2, thorough 3 on short histories); transfers in pieces of every stated size with every stated number of interruptions before each; one evaluation is one history with all its patterns; non-trivial: all its executions ran to the end and the file was compared",
        assumptions: &["system calls misbehave in the ways enumerated: any of them fails, moves one byte or all but one, is interrupted, or moves nothing", "more deviations than the bound in one history are explored only in the regular patterns stated"],
        sections: vec![
            cuts(),
            storms(),
            faulty("one operation", ops04(), 1, t.pick(4, 5), vec![None]),
            faulty("two operations", ops04(), 2, t.pick(3, 4), vec![None]),
            faulty("three operations", vec![W(5), R(5), Rt(T::U64), Wt(T::Xyz), Size, S(2), E(0), W(1)], 3, t.pick(2, 3), vec![None]),
            faulty("larger transfers", vec![W(70_000), R(70_000), S(0), Size], 2, t.pick(2, 3), vec![None]),
            faulty("every error number", ops04(), t.pick(1, 2), t.pick(1, 2), errnos().into_iter().map(Some).collect()),
            faulty("calls that would block", ops04(), 2, t.pick(2, 3), vec![Some(EAGAIN)]),
            faulty("larger transfers that would block", vec![W(70_000), R(70_000), S(0), Size], 2, t.pick(2, 3), vec![Some(EAGAIN)]),
        ],
    }
}

// ---------------------------------------------------------------- C05

#[derive(Clone, Debug)]
enum Ev {
    Write(u64, Vec<u8>),
    Trunc(u64),
}
/// What the device has been asked to do, per file.
struct Disk {
    f: Faults,
    /// not yet flushed, per inode
    pending: HashMap<u64, Vec<Ev>>,
    durable: HashMap<u64, Vec<u8>>,
    sync_alts: bool,
    syncs_failed: u32,
    at: u64,
}
impl Disk {
    fn new(c: Chooser) -> Disk {
        let mut f = Faults::new(c);
        f.open_alts = false;
        Disk {
            f,
            pending: HashMap::new(),
            durable: HashMap::new(),
            sync_alts: true,
            syncs_failed: 0,
            at: 0,
        }
    }
}
fn apply(img: &mut Vec<u8>, e: &Ev) {
    match e {
        Ev::Write(at, b) => {
            let end = *at as usize + b.len();
            if img.len() < end {
                img.resize(end, 0);
            }
            img[*at as usize..end].copy_from_slice(b);
        }
        Ev::Trunc(n) => img.resize(*n as usize, 0),
    }
}
impl Hook for Disk {
    fn call(&mut self, c: &Call) -> Act {
        match c.kind {
            Kind::Write => {
                self.at = if c.at { c.off } else { raw_lseek(c.fd, 0, 1) } as u64;
                self.f.call(c)
            }
            Kind::Sync | Kind::Close if self.f.only.is_some() => {
                let e = self.f.only.unwrap_or(EIO);
                if self.f.c.choose(2) == 0 {
                    Act::Pass
                } else if c.kind == Kind::Sync {
                    self.f.note(format!("flush failed ({e})"));
                    self.syncs_failed += 1;
                    Act::Err(e)
                } else {
                    self.f.note(format!("close(2) reported {e}"));
                    Act::PassErr(e)
                }
            }
            Kind::Sync if self.sync_alts => match self.f.c.choose(4) {
                0 => Act::Pass,
                1 => {
                    self.f.note("flush interrupted".into());
                    Act::Err(EINTR)
                }
                2 => {
                    self.f.note("flush failed (EIO)".into());
                    self.syncs_failed += 1;
                    Act::Err(EIO)
                }
                _ => {
                    self.f.note("flush failed (ENOSPC)".into());
                    self.syncs_failed += 1;
                    Act::Err(ENOSPC)
                }
            },
            Kind::Close => match self.f.c.choose(2) {
                0 => Act::Pass,
                _ => {
                    self.f.note("close(2) reported EIO".into());
                    Act::PassErr(EIO)
                }
            },
            Kind::Read | Kind::Seek => Act::Pass,
            _ => self.f.call(c),
        }
    }
    fn done(&mut self, c: &Call, ret: i64) {
        self.f.done(c, ret);
        match c.kind {
            Kind::Write if ret > 0 => {
                let b = unsafe { std::slice::from_raw_parts(c.buf, ret as usize) }.to_vec();
                self.pending.entry(raw_inode(c.fd)).or_default().push(Ev::Write(self.at, b));
            }
            Kind::Trunc if ret == 0 => {
                self.pending.entry(raw_inode(c.fd)).or_default().push(Ev::Trunc(c.off as u64));
            }
            Kind::Sync if ret == 0 => {
                let ino = raw_inode(c.fd);
                let img = self.durable.entry(ino).or_default();
                for e in self.pending.remove(&ino).unwrap_or_default() {
                    apply(img, &e);
                }
            }
            _ => {}
        }
    }
}
/// Every image the file may have after a crash now, compared with what was acknowledged.
fn crash(d: &Disk, ino: u64, want: &[u8], w: &mut W) -> R {
    let none = vec![];
    let pend = d.pending.get(&ino).unwrap_or(&none);
    // a lost write may also be lost in parts (512-byte sectors)
    let mut parts: Vec<Ev> = vec![];
    for e in pend {
        match e {
            Ev::Write(at, b) => {
                for (k, c) in b.chunks(512).enumerate() {
                    parts.push(Ev::Write(at + 512 * k as u64, c.to_vec()));
                }
            }
            t => parts.push(t.clone()),
        }
    }
    let n = parts.len().min(10);
    for mask in 0..1u32 << n {
        let mut img = d.durable.get(&ino).cloned().unwrap_or_default();
        for (k, e) in parts.iter().enumerate() {
            if k >= n || mask >> k & 1 == 1 {
                apply(&mut img, e);
            }
        }
        w.transitions += 1;
        if img != want {
            return Err(format!(
                "after a crash losing {} of {} unflushed blocks the file holds {} instead of {}",
                n as u32 - mask.count_ones(),
                parts.len(),
                hex(&img),
                hex(want)
            ));
        }
    }
    Ok(())
}
fn descriptors(path: &Path) -> usize {
    let Ok(d) = std::fs::read_dir("/proc/self/fd") else { return 0 };
    d.filter_map(|e| e.ok())
        .filter(|e| std::fs::read_link(e.path()).is_ok_and(|p| p == path))
        .count()
}

fn ops05() -> Vec<Op> {
    use Op::*;
    vec![W(3), W(1), W(600), Wt(T::U32), Wt(T::Xyz), S(0), E(0), S(700), R(2), Size, W(1100)]
}
fn exec05(path: &Path, init: &[u8], ops: &[Op], only: Option<i32>, c: Chooser, w: &mut W) -> (Chooser, R) {
    std::fs::write(path, init).expect("scratch file");
    let mut h = OpenOptions::new().read(true).write(true).open(path).expect("scratch file");
    let ino = raw_inode(h.as_raw_fd());
    let mut m = Model::new(MKind::Grow, init);
    let mut d = Disk::new(c);
    d.f.only = only;
    d.durable.insert(ino, init.to_vec());
    let mut failed = false;
    for (k, op) in ops.iter().enumerate() {
        d.f.hard = None;
        w.transitions += 1;
        match *op {
            Op::W(_) | Op::Wt(_) => {
                let n = if let Op::W(n) = *op { n as usize } else if let Op::Wt(t) = *op { t.size() } else { 0 };
                let b = pattern(k + 1, n);
                let r = with_hook(&mut d, || match *op {
                    Op::Wt(t) => t.write(&mut h, &b),
                    _ => h.write(&b),
                });
                if r.is_err() {
                    failed = true;
                    break;
                }
                m.write(&b);
            }
            Op::R(n) => {
                let mut b = vec![0; n as usize];
                let r = with_hook(&mut d, || h.read(&mut b));
                if m.read(n as u64).is_none() || r.is_err() {
                    let at = m.size;
                    let _ = h.seek(SeekFrom::Start(at));
                    m.pos = Some(at);
                }
            }
            Op::S(v) => {
                let _ = with_hook(&mut d, || h.seek(SeekFrom::Start(v)));
                m.seek(Some(0), v as i128);
            }
            Op::E(_) => {
                let _ = with_hook(&mut d, || h.seek(SeekFrom::End(0)));
                m.pos = Some(m.size);
            }
            _ => {
                let _ = with_hook(&mut d, || h.reported_size());
            }
        }
    }
    let r = with_hook(&mut d, || h.close());
    w.traces += 1;
    w.obs(&(r.is_ok(), d.syncs_failed));
    w.state(hash_of(&(&m.data, d.f.notes.len(), r.is_ok())));
    let out = (|| {
        if d.syncs_failed > 0 && r.is_ok() {
            return Err("close succeeded although flushing failed".to_string());
        }
        if r.is_err() && d.f.notes.iter().all(|n| !n.starts_with("flush") && !n.starts_with("close")) {
            return Err(format!("close failed without a failure: {r:?}"));
        }
        let left = descriptors(path);
        if left != 0 {
            return Err(format!("{left} descriptors are still open after close"));
        }
        if d.f.closes.iter().any(|c| c.1 < 0) {
            return Err(format!("a descriptor was closed twice: {:?}", d.f.closes));
        }
        if r.is_ok() && !failed {
            let now = std::fs::read(path).expect("scratch file");
            if now != m.data {
                return Err(format!("the file holds {} instead of {}", hex(&now), hex(&m.data)));
            }
            crash(&d, ino, &m.data, w)?;
        }
        Ok(())
    })();
    (
        std::mem::take(&mut d.f.c),
        out.map_err(|e| format!("{e}; answers: {:?}", d.f.notes)),
    )
}

/// Two streams on two files, written and closed in every order: whatever was closed is durable.
fn two_files(depth: u32) -> Section {
    // 0..3: write to A, B; 2,3: close A, B (then reopen on the next write)
    Section::new(
        "two streams",
        seqs(4, depth),
        move |i, w| {
            let mut v = vec![];
            seq(i, 4, depth, &mut v);
            let paths = [w.dir.join("da"), w.dir.join("db")];
            let mut d = Disk::new(Chooser::default());
            d.sync_alts = false;
            let mut want = [vec![], vec![]];
            let mut h: [Option<File>; 2] = [None, None];
            let mut ino = [0; 2];
            for k in 0..2 {
                std::fs::write(&paths[k], b"").expect("scratch file");
            }
            let mut acked: [Option<Vec<u8>>; 2] = [None, None];
            for (k, op) in v.iter().enumerate() {
                let f = (*op % 2) as usize;
                w.transitions += 1;
                if *op < 2 {
                    if h[f].is_none() {
                        let x = OpenOptions::new().append(false).read(true).write(true).open(&paths[f]);
                        let mut x = x.expect("scratch file");
                        ino[f] = raw_inode(x.as_raw_fd());
                        x.seek(SeekFrom::Start(want[f].len() as u64)).map_err(|e| format!("seek failed ({e})"))?;
                        h[f] = Some(x);
                    }
                    let b = pattern(k + 1, 5 + k);
                    let x = h[f].as_mut().expect("open");
                    with_hook(&mut d, || x.write(&b)).map_err(|e| format!("write failed ({e})"))?;
                    want[f].extend(b);
                    acked[f] = None;
                } else if let Some(x) = h[f].take() {
                    with_hook(&mut d, || x.close()).map_err(|e| format!("close failed ({e})"))?;
                    acked[f] = Some(want[f].clone());
                }
                for f in 0..2 {
                    if let Some(a) = &acked[f] {
                        crash(&d, ino[f], a, w).map_err(|e| format!("step {}, file {f}: {e}", k + 1))?;
                    }
                }
            }
            w.nt();
            w.traces += 1;
            Ok(())
        },
        move |i| {
            let mut v = vec![];
            seq(i, 4, depth, &mut v);
            let n = ["write A", "write B", "close A", "close B"];
            format!("{:?}", v.iter().map(|o| n[*o as usize]).collect::<Vec<_>>())
        },
    )
}

/// Lengths worth closing at: all small ones, around whole blocks and pages.
fn lengths05() -> Vec<usize> {
    let mut v: Vec<usize> = (0..=1100).collect();
    for b in [2048usize, 4096, 8192, 12288, 16384, 32768, 65536, 131072, 1 << 20, 4 << 20] {
        v.extend([b - 1, b, b + 1]);
    }
    v.extend([3000, 5000, 10000, 100_000, 1_000_000]);
    v
}
const SITUATIONS: [&str; 16] = [
    "nothing else", "made read-only meanwhile", "mode 000 meanwhile", "renamed meanwhile", "with a second name", "also open elsewhere for reading",
    "also open elsewhere for writing", "locked by another", "the handle duplicated", "dated long ago", "of another owner", "opened to append", "opened write-only, created anew",
    "written in single bytes", "with a hole before it", "written twice",
];
/// A file of each length closed in each situation.
fn situations05() -> Section {
    let n = lengths05().len() as u64;
    extern "C" {
        fn flock(fd: i32, how: i32) -> i32;
        fn futimens(fd: i32, t: *const i64) -> i32;
        fn fchown(fd: i32, u: u32, g: u32) -> i32;
    }
    Section::new(
        "a file of every length in every situation",
        n * 16,
        move |i, w| {
            use std::os::unix::fs::PermissionsExt;
            let (len, how) = (lengths05()[(i / 16) as usize], i % 16);
            if how == 13 && len > 70_000 {
                return Ok(());
            }
            let (path, other) = (w.dir.join("closing"), w.dir.join("closing-too"));
            let _ = std::fs::remove_file(&path);
            let _ = std::fs::remove_file(&other);
            let e = |e: std::io::Error| format!("failed ({e})");
            let x = match how {
                11 => OpenOptions::new().append(true).create(true).open(&path),
                12 => OpenOptions::new().write(true).create_new(true).open(&path),
                _ => File::create(&path),
            };
            let mut h = x.expect("scratch file");
            let ino = raw_inode(h.as_raw_fd());
            let mut d = Disk::new(Chooser::default());
            d.sync_alts = false;
            let b = pattern(i as usize, len);
            let mut want = b.clone();
            with_hook(&mut d, || match how {
                13 => b.iter().try_for_each(|x| h.write_u8(*x)),
                14 => h.seek(SeekFrom::Start(700)).and_then(|_| h.write(&b)),
                15 => h.write(&b).and_then(|_| h.seek(SeekFrom::Start(0))).and_then(|_| h.write(&b[..len / 2])),
                _ => h.write(&b),
            })
            .map_err(e)?;
            if how == 14 && len > 0 {
                want.splice(0..0, vec![0; 700]);
            }
            let mode = |m| std::fs::set_permissions(&path, std::fs::Permissions::from_mode(m)).expect("scratch file");
            let elsewhere = match how {
                5 => Some(File::open(&path).expect("scratch file")),
                6 | 7 => Some(OpenOptions::new().write(true).open(&path).expect("scratch file")),
                8 => Some(h.try_clone().expect("scratch file")),
                _ => None,
            };
            match how {
                1 => mode(0o444),
                2 => mode(0),
                3 => std::fs::rename(&path, &other).expect("scratch file"),
                4 => std::fs::hard_link(&path, &other).expect("scratch file"),
                7 => assert_eq!(unsafe { flock(elsewhere.as_ref().map_or(-1, |f| f.as_raw_fd()), 6) }, 0),
                9 => assert_eq!(unsafe { futimens(h.as_raw_fd(), [3i64, 0, 3, 0].as_ptr()) }, 0),
                10 => assert_eq!(unsafe { fchown(h.as_raw_fd(), 65534, 65534) }, 0),
                _ => {}
            }
            let fd = h.as_raw_fd();
            let before = descriptors(&path) + descriptors(&other);
            let r = with_hook(&mut d, || h.close());
            w.transitions += 2;
            w.traces += 1;
            w.nt();
            w.obs(&r.is_ok());
            r.map_err(|e| format!("close failed ({e})"))?;
            let after = descriptors(&path) + descriptors(&other);
            // a path seen under two names counts once: the link names the one it was opened by
            if after + 1 != before {
                return Err(format!("{before} descriptors before close, {after} after it (number {fd} was to go)"));
            }
            let now = std::fs::read(if how == 3 { &other } else { &path }).expect("scratch file");
            if now != want {
                return Err(format!("the file holds {} instead of {}", hex(&now), hex(&want)));
            }
            crash(&d, ino, &want, w)
        },
        |i| format!("{} bytes, {}", lengths05()[(i / 16) as usize], SITUATIONS[(i % 16) as usize]),
    )
}

const HISTORIES: [&[Op]; 4] = [&[], &[Op::W(3)], &[Op::W(1100), Op::S(0), Op::W(600)], &[Op::Size, Op::R(2)]];
pub fn c05(t: Tier) -> Check {
    let ops = ops05();
    let k = ops.len() as u64;
    let depth = t.pick(3, 4);
    let bound = t.pick(2, 2);
    let per = seqs(k, depth);
    let o2 = ops.clone();
    let inits = || [vec![], (1..=250u8).cycle().take(900).collect::<Vec<u8>>()];
    Check {
        id: "C05",
        level: "fault_enumeration",
        rule: "every write history up to the depth followed by close, times every pattern of at most 2 misbehaving calls (writes short, interrupted or failing; flush interrupted or failing; close(2) failing), and after a successful close every subset of unflushed 512-byte blocks lost; non-trivial: close ran and every crash image was compared",
        assumptions: &["data is durable once fsync or fdatasync on its file has returned 0 after it was written, and not before", "loss of the directory entry of a newly created file is outside the property"],
        sections: vec![
            Section::new(
                "histories, faults and crashes",
                per * 2,
                move |i, w| {
                    let mut v = vec![];
                    seq(i % per, k, depth, &mut v);
                    let ops: Vec<Op> = v.iter().map(|b| ops[*b as usize]).collect();
                    let init = inits()[(i / per) as usize].clone();
                    let path = w.dir.join("durable");
                    let n = explore(bound, |c| {
                        w.beat();
                        exec05(&path, &init, &ops, None, c, w)
                    })?;
                    w.count("executions", n);
                    w.nt();
                    Ok(())
                },
                move |i| {
                    let mut v = vec![];
                    seq(i % per, k, depth, &mut v);
                    let ops: Vec<Op> = v.iter().map(|b| o2[*b as usize]).collect();
                    format!("file of {} bytes, {ops:?}, close", if i / per == 0 { 0 } else { 900 })
                },
            ),
            two_files(t.pick(6, 8)),
            situations05(),
            Section::new(
                "every error number",
                errnos().len() as u64 * HISTORIES.len() as u64,
                move |i, w| {
                    let (ops, e) = (HISTORIES[i as usize % HISTORIES.len()], errnos()[i as usize / HISTORIES.len()]);
                    let path = w.dir.join("durable");
                    let n = explore(2, |c| {
                        w.beat();
                        exec05(&path, &inits()[1], ops, Some(e), c, w)
                    })?;
                    w.count("executions", n);
                    w.nt();
                    Ok(())
                },
                |i| {
                    let (ops, e) = (HISTORIES[i as usize % HISTORIES.len()], errnos()[i as usize / HISTORIES.len()]);
                    format!("{ops:?}, close, calls failing with error {e}")
                },
            ),
        ],
    }
}

// ---------------------------------------------------------------- C14

fn files14() -> Vec<(&'static str, Option<Vec<u8>>)> {
    let mut bad = base3();
    bad[37] ^= 1;
    let mut many = base3();
    many[128..132].copy_from_slice(&crate::stream::b32(101));
    vec![
        ("three tags", Some(base3())),
        ("no tags", Some(base0())),
        ("wrong signature", Some(bad)),
        ("too many tags", Some(many)),
        ("truncated header", Some(base3()[..100].to_vec())),
        ("truncated directory", Some(base3()[..160].to_vec())),
        ("a directory and nothing else", Some(base3()[..168].to_vec())),
        ("missing", None),
    ]
}
type Outcome = Option<(ProfileView, usize)>;

/// Opens under the hook, looks at the result, drops it, and accounts for the descriptors.
fn attempt(how: u64, path: &Path, f: &mut Faults) -> Result<Outcome, String> {
    let mut ctx = Context::new(None);
    let r = with_hook(f, || {
        guarded(|| match how {
            0 => mcglue::open_thr(&mut ctx, path, false),
            1 => mcglue::open(path, false),
            _ => mcglue::open_thr(&mut ctx, path, true),
        })
    })?;
    let out = r.as_ref().ok().map(|p| (p.verif_view(), p.get_tag_count()));
    let hard = f.hard.take();
    with_hook(f, || guarded(move || drop(r)))?;
    if let (Some(why), true) = (&hard, out.is_some()) {
        return Err(format!("opening succeeded although {why}"));
    }
    if !f.open.is_empty() {
        return Err(format!("{} descriptors are still open after the result was dropped", f.open.len()));
    }
    if f.closes.iter().any(|c| c.1 < 0) {
        return Err(format!("a descriptor was closed twice: {:?}", f.closes));
    }
    f.hard = hard;
    Ok(out)
}
fn same(how: u64, a: &Outcome, b: &Outcome) -> bool {
    match (a, b) {
        (Some(a), Some(b)) if how == 2 => {
            // the creation date of a new profile is the time of opening
            let mut x = b.0.clone();
            x.created = a.0.created;
            a.0 == x && a.1 == b.1
        }
        _ => a == b,
    }
}
fn disturbed(path: &Path, how: u64, bound: usize, only: Option<i32>, w: &mut W) -> R {
    let clean = {
        let mut f = Faults::new(Chooser::default());
        attempt(how, path, &mut f)?
    };
    let n = explore(bound, |c| {
        w.beat();
        let mut f = Faults::new(c);
        f.only = only;
        let r = attempt(how, path, &mut f);
        w.traces += 1;
        w.transitions += f.calls;
        let r = r.and_then(|o| {
            w.obs(&o.is_some());
            w.state(hash_of(&(f.notes.clone(), o.is_some())));
            f.settle(o.is_none());
            if f.hard.is_none() && !same(how, &clean, &o) {
                return Err(format!(
                    "opened as {:?} instead of {:?}",
                    o.map(|o| o.0),
                    clean.as_ref().map(|o| &o.0)
                ));
            }
            Ok(())
        });
        let r = r.map_err(|e| format!("{e}; answers: {:?}", f.notes));
        (std::mem::take(&mut f.c), r)
    })?;
    w.count("executions", n);
    w.nt();
    Ok(())
}
fn place(w: &W, b: &Option<Vec<u8>>) -> PathBuf {
    let p = w.dir.join("disturbed.icc");
    match b {
        Some(b) => std::fs::write(&p, b).expect("scratch file"),
        None => {
            let _ = std::fs::remove_file(&p);
        }
    }
    p
}
pub fn c14(t: Tier) -> Check {
    const HOW: [&str; 3] = ["explicit context", "process-wide context", "write mode"];
    let nf = files14().len() as u64;
    let bound = t.pick(3, 4);
    let bound100 = 2;
    Check {
        id: "C14",
        level: "fault_enumeration",
        rule: "every file of the corpus opened under every pattern of misbehaving system calls (open, read, seek; short, interrupted, failing, end of file) with at most the stated number of deviations, and in pieces of every stated size with every stated number of interruptions before each; one evaluation is one file and way of opening with all its patterns; non-trivial: every pattern ran, result compared with the undisturbed one and descriptors accounted for",
        assumptions: &["system calls misbehave in the ways enumerated", "more deviations than the bound in one open are explored only in the regular patterns stated"],
        sections: vec![
            Section::new(
                "small files",
                nf * 3,
                move |i, w| {
                    let p = place(w, &files14()[(i / 3) as usize].1);
                    disturbed(&p, i % 3, bound, None, w)
                },
                |i| format!("{}, {}", files14()[(i / 3) as usize].0, HOW[(i % 3) as usize]),
            ),
            Section::new(
                "100 tags",
                2,
                move |i, w| {
                    let p = place(w, &Some(base100()));
                    disturbed(&p, i, bound100, None, w)
                },
                |i| HOW[i as usize].to_string(),
            ),
            Section::new(
                "every error number",
                nf * 3 * (errnos().len() as u64 + 1),
                move |i, w| {
                    let p = place(w, &files14()[(i / 3 % nf) as usize].1);
                    disturbed(&p, i % 3, 2, Some(*errnos().get((i / 3 / nf) as usize).unwrap_or(&EAGAIN)), w)
                },
                move |i| {
                    format!(
                        "{}, {}, calls failing with error {}",
                        files14()[(i / 3 % nf) as usize].0,
                        HOW[(i % 3) as usize],
                        errnos().get((i / 3 / nf) as usize).unwrap_or(&EAGAIN)
                    )
                },
            ),
            Section::new(
                "every transfer in pieces and interrupted again and again",
                242 * (nf + 1) * 2,
                move |i, w| {
                    let d = digits(i, &[242, 2, nf + 1]);
                    let p = place(w, &files14().get(d[2] as usize).map_or(Some(base100()), |f| f.1.clone()));
                    let (times, piece) = storm(d[0], 1500);
                    let mut f = Storm::new(times, piece);
                    w.beat();
                    let open = |c: &mut Context| if d[1] == 0 { mcglue::open_thr(c, &p, false) } else { mcglue::open(&p, false) };
                    let clean = guarded(|| open(&mut Context::new(None)).map(|p| p.verif_view()).ok())?;
                    let r = with_hook(&mut f, || guarded(|| open(&mut Context::new(None)).map(|p| p.verif_view())))?;
                    w.nt();
                    w.traces += 1;
                    w.transitions += f.calls;
                    w.obs(&r.is_ok());
                    if f.fds != 0 {
                        return Err(format!("{} descriptors left open", f.fds));
                    }
                    match r {
                        Err(e) if clean.is_some() => Err(format!("fails ({e})")),
                        r if r.as_ref().ok() != clean.as_ref() => Err("opens as something else".into()),
                        _ => Ok(()),
                    }
                },
                move |i| {
                    let d = digits(i, &[242, 2, nf + 1]);
                    let (times, piece) = storm(d[0], 1500);
                    format!("{}, {}, pieces of up to {piece}, {times} interruptions before each", files14().get(d[2] as usize).map_or("100 tags", |f| f.0), HOW[d[1] as usize])
                },
            ),
            // one stream of answers cut at every byte of the file
            Section::new(
                "a file that ends or fails at every byte",
                2 * 4 * 1732,
                |i, w| {
                    let (how, what, at) = (i % 2, i / 2 % 4, i / 8);
                    let p = w.take("full14", |w| {
                        let p = w.dir.join("full14.icc");
                        std::fs::write(&p, base100()).expect("scratch file");
                        p
                    });
                    struct At {
                        at: i64,
                        what: u64,
                        hit: bool,
                        fds: i64,
                    }
                    impl Hook for At {
                        fn call(&mut self, c: &Call) -> Act {
                            if c.kind != Kind::Read || c.len == 0 {
                                return Act::Pass;
                            }
                            let pos = if c.at { c.off } else { raw_lseek(c.fd, 0, 1) };
                            if pos < self.at && pos + (c.len as i64) > self.at {
                                return Act::Short((self.at - pos) as usize);
                            }
                            if pos != self.at || (self.what % 2 == 0 && self.hit) {
                                return Act::Pass;
                            }
                            self.hit = true;
                            match self.what {
                                0 => Act::Err(EINTR),
                                1 => Act::Err(EIO),
                                2 => Act::Err(EAGAIN),
                                _ => Act::Ret(0),
                            }
                        }
                        fn done(&mut self, c: &Call, r: i64) {
                            match c.kind {
                                Kind::Open | Kind::Dup if r >= 0 => self.fds += 1,
                                Kind::Close if r == 0 => self.fds -= 1,
                                _ => {}
                            }
                        }
                    }
                    let mut h = At {
                        at: at as i64,
                        what,
                        hit: false,
                        fds: 0,
                    };
                    let mut ctx = Context::new(None);
                    let r = with_hook(&mut h, || {
                        guarded(|| {
                            let r = if how == 0 { mcglue::open_thr(&mut ctx, &p, false) } else { mcglue::open(&p, false) };
                            r.map(|p| p.verif_view())
                        })
                    })?;
                    w.traces += 1;
                    w.transitions += 1;
                    w.obs(&r.is_ok());
                    let clean = w.take("clean14", |_| {
                        mcglue::open_thr(&mut Context::new(None), &p, false).map(|p| p.verif_view()).ok()
                    });
                    let ok = clean == r.as_ref().ok().cloned();
                    w.put("clean14", clean);
                    w.put("full14", p);
                    if h.hit {
                        w.nt();
                    }
                    if h.fds != 0 {
                        return Err(format!("{} descriptors left open", h.fds));
                    }
                    match r {
                        Ok(_) if h.hit && what % 2 != 0 => Err("opened although reading failed".into()),
                        Ok(_) if !ok => Err("opened as something else".into()),
                        Err(e) if !h.hit || what == 0 => Err(format!("failed ({e}) without a real failure")),
                        _ => Ok(()),
                    }
                },
                |i| {
                    format!(
                        "100 tags, {}, {} at byte {}",
                        HOW[(i % 2) as usize],
                        ["interrupted", "input/output error", "would block", "end of file"][(i / 2 % 4) as usize],
                        i / 8
                    )
                },
            ),
        ],
    }
}
