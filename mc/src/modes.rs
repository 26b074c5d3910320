//! C15 (read mode never changes anything, write mode starts empty) and C16 (history independence).
use crate::ctx::corpus18;
use crate::engine::*;
use crate::profile::*;
use crate::sys::{at_time, with_hook, Act, Call, Hook, Kind};
use lcms2::state::Context;
use lcms2::types::{Profile, Signature};
use std::os::unix::fs::MetadataExt;
use std::path::{Path, PathBuf};

// ---------------------------------------------------------------- C15

#[derive(Default)]
struct Changes(Vec<String>);
impl Hook for Changes {
    fn call(&mut self, c: &Call) -> Act {
        match c.kind {
            Kind::Write if c.len > 0 => self.0.push(format!("write of {} bytes", c.len)),
            Kind::Trunc => self.0.push("truncation".into()),
            // O_CREAT, O_TRUNC
            Kind::Open if c.flags & 0o1100 != 0 => self.0.push(format!("open with flags {:#o}", c.flags)),
            _ => {}
        }
        Act::Pass
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Op {
    Read(usize, bool),
    Write(usize, bool),
    Put(usize, usize),
    Remove(usize),
    /// let go of all profiles opened so far
    Drop,
}
const PATHS: [&str; 7] = ["a.icc", "b.icc", "dir", "missing/x.icc", "link", "dangling", "dir/in.icc"];
/// Where the file of a path is, if it can have one.
fn target(p: usize) -> Option<usize> {
    match p {
        0 | 1 | 6 => Some(p),
        4 => Some(0),
        5 => Some(7),
        _ => None,
    }
}
fn contents(k: usize) -> Vec<u8> {
    match k {
        0 => base3(),
        1 => b"this is no profile, but it is longer than a header would be: ".repeat(5),
        2 => base3()[..150].to_vec(),
        _ => vec![],
    }
}
fn ops15(full: bool) -> Vec<Op> {
    use Op::*;
    let mut v = vec![];
    for p in 0..2 {
        v.extend([Read(p, false), Write(p, false), Put(p, 0), Put(p, 1), Remove(p)]);
    }
    v.extend([Read(0, true), Write(0, true), Drop]);
    if full {
        v.extend([
            Put(0, 2), Put(0, 3), Read(2, false), Write(2, false), Read(3, false), Write(3, false), Read(4, false),
            Write(4, false), Read(5, false), Write(5, false), Read(6, false), Write(6, false), Read(3, true), Write(3, true),
        ]);
    }
    v
}
type Snap = Vec<(PathBuf, Vec<u8>, i64, i64, u64)>;
fn snapshot(dir: &Path) -> Snap {
    let mut v = vec![];
    let mut todo = vec![dir.to_path_buf()];
    while let Some(d) = todo.pop() {
        for e in std::fs::read_dir(&d).expect("scratch").filter_map(|e| e.ok()) {
            let p = e.path();
            let m = std::fs::symlink_metadata(&p).expect("scratch");
            if m.is_dir() {
                todo.push(p.clone());
            }
            let b = if m.is_file() { std::fs::read(&p).expect("scratch") } else { vec![] };
            v.push((p, b, m.mtime(), m.mtime_nsec(), m.ino()));
        }
    }
    v.sort();
    v
}
fn run15(ops: &[Op], w: &mut W) -> R {
    let dir = w.dir.join("modes");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(dir.join("dir")).expect("scratch");
    std::os::unix::fs::symlink("a.icc", dir.join("link")).expect("scratch");
    std::os::unix::fs::symlink("there.icc", dir.join("dangling")).expect("scratch");
    let path = |p: usize| if p == 7 { dir.join("there.icc") } else { dir.join(PATHS[p]) };
    let mut held: [Option<Vec<u8>>; 8] = Default::default();
    let mut open: Vec<(Box<Profile>, u64)> = vec![];
    let mut ctx = Context::new(None);
    for (k, op) in ops.iter().enumerate() {
        w.transitions += 1;
        let fail = |s: String| Err(format!("step {} ({op:?}): {s}", k + 1));
        match *op {
            Op::Put(p, c) => {
                std::fs::write(path(p), contents(c)).expect("scratch");
                held[p] = Some(contents(c));
            }
            Op::Remove(p) => {
                let _ = std::fs::remove_file(path(p));
                held[p] = None;
            }
            Op::Drop => {
                let o = std::mem::take(&mut open);
                guarded(move || drop(o))?;
            }
            Op::Read(p, global) => {
                let before = snapshot(&dir);
                let mut h = Changes::default();
                let r = with_hook(&mut h, || {
                    guarded(|| if global { mcglue::open(&path(p), false) } else { mcglue::open_thr(&mut ctx, &path(p), false) })
                })?;
                w.obs(&(1u8, r.is_ok()));
                let after = snapshot(&dir);
                if before != after {
                    return fail(format!("the directory changed: {}", difference(&before, &after)));
                }
                if !h.0.is_empty() {
                    return fail(format!("asked the system for {}", h.0.join(", ")));
                }
                let want = target(p).and_then(|t| held[t].as_ref()).is_some_and(|b| *b == base3());
                match r {
                    Ok(q) if want => {
                        let v = q.verif_view();
                        if v.is_write || v.tags.len() != 3 {
                            return fail(format!("opened as {v:?}"));
                        }
                        let hash = view_hash(&v);
                        open.push((q, hash));
                    }
                    Err(_) if !want => {}
                    Ok(_) => return fail("succeeded, must fail".into()),
                    Err(e) => return fail(format!("failed ({e}), must succeed")),
                }
                w.nt();
            }
            Op::Write(p, global) => {
                let before = snapshot(&dir);
                let r = guarded(|| if global { mcglue::open(&path(p), true) } else { mcglue::open_thr(&mut ctx, &path(p), true) })?;
                w.obs(&(2u8, r.is_ok()));
                let after = snapshot(&dir);
                match (r, target(p)) {
                    (Ok(q), Some(t)) => {
                        held[t] = Some(vec![]);
                        let v = q.verif_view();
                        if !v.is_write || !v.tags.is_empty() || q.get_tag_count() != 0 {
                            return fail(format!("not an empty profile in write mode: {v:?}"));
                        }
                        for n in [0, 1, 99, 100] {
                            if q.get_tag_signature(n) != Signature::default() {
                                return fail(format!("has a tag {n}"));
                            }
                        }
                        if q.get_io_handler().is_none() {
                            return fail("has no stream".into());
                        }
                        let hash = view_hash(&v);
                        open.push((q, hash));
                        // nothing but that file has changed
                        let tp = path(t);
                        let others = |s: &Snap| -> Vec<_> {
                            s.iter()
                                .filter(|e| e.0 != tp && e.0 != dir && !e.0.is_dir())
                                .cloned()
                                .collect()
                        };
                        if others(&before) != others(&after) {
                            return fail(format!("another file changed: {}", difference(&before, &after)));
                        }
                    }
                    (Err(_), None) => {
                        if before != after {
                            return fail(format!("failed and yet changed: {}", difference(&before, &after)));
                        }
                    }
                    (Ok(_), None) => return fail("succeeded, the file cannot be created".into()),
                    (Err(e), Some(_)) => return fail(format!("failed ({e}), the file can be created")),
                }
                w.nt();
            }
        }
        for (t, h) in held.iter().enumerate() {
            let now = match std::fs::symlink_metadata(path(t)) {
                Ok(m) if m.is_file() => Some(std::fs::read(path(t)).expect("scratch")),
                _ => None,
            };
            if now != *h {
                return fail(format!(
                    "{:?} holds {:?} bytes instead of {:?}",
                    path(t),
                    now.map(|b| b.len()),
                    h.as_ref().map(|b| b.len())
                ));
            }
        }
        for (q, hash) in &open {
            if view_hash(&q.verif_view()) != *hash {
                return fail("a profile opened earlier has changed".into());
            }
        }
    }
    // giving the profiles up writes nothing either
    let before = snapshot(&dir);
    guarded(move || drop(open))?;
    if before != snapshot(&dir) {
        return Err("dropping the profiles changed the directory".into());
    }
    w.state(hash_of(&held));
    w.traces += 1;
    Ok(())
}
fn difference(a: &Snap, b: &Snap) -> String {
    let f = |s: &Snap| -> String {
        s.iter()
            .map(|e| format!("{}({})", e.0.file_name().unwrap_or_default().to_string_lossy(), e.1.len()))
            .collect::<Vec<_>>()
            .join(" ")
    };
    format!("[{}] became [{}]", f(a), f(b))
}
fn section15(name: &'static str, ops: Vec<Op>, depth: u32) -> Section {
    let o2 = ops.clone();
    let k = ops.len() as u64;
    Section::new(
        name,
        seqs(k, depth),
        move |i, w| {
            let mut v = vec![];
            seq(i, k, depth, &mut v);
            let o: Vec<Op> = v.iter().map(|x| ops[*x as usize]).collect();
            run15(&o, w)
        },
        move |i| {
            let mut v = vec![];
            seq(i, k, depth, &mut v);
            let o: Vec<Op> = v.iter().map(|x| o2[*x as usize]).collect();
            format!("{o:?}")
        },
    )
}
pub fn c15(t: Tier) -> Check {
    Check {
        id: "C15",
        level: "model_checking",
        rule: "every history up to the depth of opening (read, write, either context), replacing and removing files at ordinary, linked, dangling, nested, missing and directory paths, against a model of which file holds what; non-trivial: an open whose effect on the whole directory was compared",
        assumptions: &["runs as a user to whom every existing path is writable"],
        sections: vec![
            section15("all paths", ops15(true), t.pick(3, 4)),
            section15("two files", ops15(false), t.pick(4, 5)),
            bytes15(),
            untouched15(),
            places15(),
        ],
    }
}
extern "C" {
    fn flock(fd: i32, how: i32) -> i32;
    fn fcntl(fd: i32, what: i32, ...) -> i32;
    fn chown(p: *const u8, u: u32, g: u32) -> i32;
    fn utimensat(d: i32, p: *const u8, t: *const i64, f: i32) -> i32;
    fn setfsuid(u: u32) -> i32;
    fn setxattr(p: *const u8, name: *const u8, v: *const u8, n: usize, f: i32) -> i32;
}
fn c_path(p: &Path) -> Vec<u8> {
    use std::os::unix::ffi::OsStrExt;
    [p.as_os_str().as_bytes(), &[0]].concat()
}
/// Locks that other programs may hold on a file.
fn lock(f: &std::fs::File, k: u64) {
    use std::os::fd::AsRawFd;
    let fd = f.as_raw_fd();
    unsafe {
        match k {
            0 => assert_eq!(flock(fd, 2 | 4), 0),
            1 => assert_eq!(flock(fd, 1 | 4), 0),
            _ => {
                // an open file description lock over the whole file: type, whence, start, length, process
                let l: [i64; 4] = [if k == 2 { 1 } else { 0 }, 0, 0, 0];
                assert_eq!(fcntl(fd, 37, l.as_ptr()), 0);
            }
        }
    }
}
const STATES15: [&str; 18] = [
    "nothing", "an empty file", "one byte", "a profile", "a profile with nothing blank", "text", "a megabyte", "a gigabyte of hole", "a read-only profile", "a profile of mode 000", "another user's profile",
    "a profile with a second name", "a link to a profile", "a link to a link to a profile", "a profile locked by another", "a profile with shared lock", "a profile open elsewhere", "a profile with attributes, from 1960",
];
/// Every name, and every state of what lies at the path.
fn places15() -> Section {
    let mut names = crate::world::odd_names();
    names.extend(["x", "x.icc", "dir/x", "dir/../x.icc", "dir/./x", ".//x", "dir/dir/x.icc", "x/../x"].map(|n| n.as_bytes().to_vec()));
    let n = names.len() as u64;
    let shown = names.clone();
    let dec = move |i: u64| {
        // all names in two states, the last ten in all
        if i < n * 2 * 4 {
            let d = digits(i, &[4, 2, n]);
            (d[0], d[1] * 3, d[2])
        } else {
            let d = digits(i - n * 8, &[4, 18, 10]);
            (d[0], d[1], n - 10 + d[2])
        }
    };
    Section::new(
        "every name and everything that may lie there",
        n * 8 + 4 * 18 * 10,
        move |i, w| {
            use std::os::unix::{ffi::OsStrExt, fs::PermissionsExt};
            let (how, state, name) = dec(i);
            let name = std::ffi::OsStr::from_bytes(&names[name as usize]);
            let dir = w.dir.join("places");
            let _ = std::fs::remove_dir_all(&dir);
            std::fs::create_dir_all(dir.join("dir/dir")).expect("scratch");
            let (p, other) = (dir.join(name), w.dir.join("places-other"));
            let _ = std::fs::remove_file(&other);
            let can = std::fs::File::create(&p).is_ok();
            if can {
                std::fs::remove_file(&p).expect("scratch");
            }
            let put = |b: &[u8]| std::fs::write(&p, b).expect("scratch");
            let mode = |m| std::fs::set_permissions(&p, std::fs::Permissions::from_mode(m)).expect("scratch");
            let b = if state == 4 { full() } else { base3() };
            let mut keep = None;
            if can {
                match state {
                    0 => {}
                    1 => put(&[]),
                    2 => put(&[7]),
                    5 => put(&contents(1)),
                    6 => put(&vec![b'a'; 1 << 20]),
                    7 => std::fs::File::create(&p).and_then(|f| f.set_len(1 << 30)).expect("scratch"),
                    12 | 13 => {
                        std::fs::write(&other, &b).expect("scratch");
                        let mid = dir.join("dir/link");
                        std::os::unix::fs::symlink(&other, &mid).expect("scratch");
                        std::os::unix::fs::symlink(if state == 12 { &other } else { &mid }, &p).expect("scratch");
                    }
                    _ => put(&b),
                }
                match state {
                    8 => mode(0o444),
                    9 => mode(0),
                    10 => {
                        mode(0o600);
                        unsafe { assert_eq!(chown(c_path(&p).as_ptr(), 65534, 65534), 0) }
                    }
                    11 => std::fs::hard_link(&p, &other).expect("scratch"),
                    14 | 15 | 16 => {
                        let f = std::fs::File::options().read(true).write(true).open(&p).expect("scratch");
                        if state < 16 {
                            lock(&f, state - 14);
                        }
                        keep = Some(f);
                    }
                    17 => unsafe {
                        setxattr(c_path(&p).as_ptr(), b"user.lcms\0".as_ptr(), b"no".as_ptr(), 2, 0);
                        assert_eq!(utimensat(-100, c_path(&p).as_ptr(), [-315_619_200i64, 0, -315_619_200, 0].as_ptr(), 0), 0);
                    },
                    _ => {}
                }
            }
            let (write, global) = (how & 1 == 1, how & 2 == 2);
            let len = std::fs::metadata(&p).map(|m| m.len()).ok();
            let before = if len.is_some_and(|n| n < 1 << 24) { std::fs::read(&p).ok() } else { None };
            let tree = |d: &Path| -> Vec<PathBuf> {
                let mut v = vec![];
                for d in [d.to_path_buf(), d.join("dir"), d.join("dir/dir")] {
                    v.extend(std::fs::read_dir(d).expect("scratch").map(|e| e.expect("entry").path()));
                }
                v.sort();
                v
            };
            let t0 = tree(&dir);
            w.nt();
            w.traces += 1;
            w.transitions += 1;
            let mut h = Changes::default();
            let r = with_hook(&mut h, || guarded(|| if global { mcglue::open(&p, write) } else { mcglue::open_thr(&mut Context::new(None), &p, write) }))?;
            let ok = r.is_ok();
            w.obs(&ok);
            let shape = r.as_ref().ok().map(|q| (q.verif_view().is_write, q.verif_view().tags.len(), q.get_tag_count()));
            let why = r.as_ref().err().map(|e| e.to_string());
            guarded(move || drop(r))?;
            drop(keep);
            let now = std::fs::metadata(&p).map(|m| m.len()).ok();
            let t1 = tree(&dir);
            let got = (|| {
                if write {
                    if ok != can {
                        return Err(format!("{}", why.map_or("succeeded, the file cannot be created".into(), |e| format!("failed ({e}), the file can be created"))));
                    }
                    if ok && shape != Some((true, 0, 0)) {
                        return Err(format!("(write mode, tags, tag count) is {shape:?}"));
                    }
                    if ok && now != Some(0) {
                        return Err(format!("the file has {now:?} bytes afterwards"));
                    }
                    let mut want = t0.clone();
                    if ok && len.is_none() {
                        // the one file that is new
                        want = t1.clone();
                        want.retain(|x| t0.contains(x));
                        if want.len() + 1 != t1.len() {
                            return Err(format!("{} files are new", t1.len() - want.len()));
                        }
                        want = t1.clone();
                    }
                    if want != t1 {
                        return Err("another file has come or gone".into());
                    }
                    if matches!(state, 12 | 13) && can && !std::fs::symlink_metadata(&p).is_ok_and(|m| m.is_symlink()) {
                        return Err("the link was replaced".into());
                    }
                    return Ok(());
                }
                if now != len || t0 != t1 || !h.0.is_empty() || (before.is_some() && std::fs::read(&p).ok() != before) {
                    return Err(format!("reading changed something; calls: {:?}", h.0));
                }
                let want = can && matches!(state, 3 | 4 | 8..=17);
                if ok != want {
                    return Err(why.map_or("succeeded, must fail".into(), |e| format!("failed ({e}), must succeed")));
                }
                Ok(())
            })();
            let _ = std::fs::remove_dir_all(&dir);
            got
        },
        move |i| {
            let (how, state, name) = dec(i);
            format!(
                "{} mode, {} context, {} at {:?}",
                if how & 1 == 1 { "write" } else { "read" },
                if how & 2 == 2 { "process-wide" } else { "own" },
                STATES15[state as usize],
                String::from_utf8_lossy(&shown[name as usize])
            )
        },
    )
}
/// Read opens of every kind of content (whether or not they succeed) ask for no change; a write open empties it.
fn bytes15() -> Section {
    let files: Vec<Vec<u8>> = {
        let mut v: Vec<Vec<u8>> = corpus18().into_iter().filter_map(|c| c.1).collect();
        for n in 0..=base3().len() {
            v.push(base3()[..n].to_vec());
        }
        for bit in 0..168 * 8 {
            let mut b = base3();
            b[bit / 8] ^= 1 << (bit % 8);
            v.push(b);
        }
        v
    };
    let n = files.len() as u64;
    let f2 = files.clone();
    Section::new(
        "every content",
        n * 4,
        move |i, w| {
            let b = &files[(i / 4) as usize];
            let (write, global) = (i & 1 == 1, i & 2 == 2);
            let p = w.dir.join("content.icc");
            std::fs::write(&p, b).expect("scratch");
            let m0 = std::fs::metadata(&p).expect("scratch");
            let mut h = Changes::default();
            let r = with_hook(&mut h, || {
                guarded(|| {
                    if global {
                        mcglue::open(&p, write)
                    } else {
                        mcglue::open_thr(&mut Context::new(None), &p, write)
                    }
                })
            })?;
            w.obs(&r.is_ok());
            w.nt();
            w.traces += 1;
            w.transitions += 1;
            if write {
                let q = r.map_err(|e| format!("failed ({e})"))?;
                if q.get_tag_count() != 0 {
                    return Err(format!("has {} tags", q.get_tag_count()));
                }
                drop(q);
                let n = std::fs::metadata(&p).expect("scratch").len();
                return if n == 0 { Ok(()) } else { Err(format!("the file has {n} bytes")) };
            }
            drop(r);
            let m1 = std::fs::metadata(&p).expect("scratch");
            let now = std::fs::read(&p).expect("scratch");
            if now != *b || !h.0.is_empty() || (m0.mtime(), m0.mtime_nsec(), m0.ino()) != (m1.mtime(), m1.mtime_nsec(), m1.ino()) {
                return Err(format!("the file was changed; calls: {:?}", h.0));
            }
            Ok(())
        },
        move |i| {
            format!(
                "{} bytes (file {}), {} mode, {} context",
                f2[(i / 4) as usize].len(),
                i / 4,
                if i & 1 == 1 { "write" } else { "read" },
                if i & 2 == 2 { "process-wide" } else { "own" }
            )
        },
    )
}
/// A read open of a file of long ago leaves all that is recorded of the file as it was: headers of every
/// kind before directories of every kind.
fn untouched15() -> Section {
    let n = HEADS + SMALL_DIRECTORIES;
    Section::new(
        "nothing recorded of the file changes",
        n * 2,
        move |i, w| {
            let b = if i / 2 < HEADS { head(i / 2) } else { small_directory(i / 2 - HEADS) };
            let p = w.dir.join("untouched.icc");
            std::fs::write(&p, &b).expect("scratch");
            unsafe { assert_eq!(utimensat(-100, c_path(&p).as_ptr(), [1_000_000_000i64, 5, 1_000_000_000, 5].as_ptr(), 0), 0) };
            let recorded = || {
                let m = std::fs::symlink_metadata(&p).expect("scratch");
                (m.mtime(), m.mtime_nsec(), m.ino(), m.mode(), m.uid(), m.gid(), m.nlink(), m.len(), m.blocks())
            };
            let was = recorded();
            let mut h = Changes::default();
            let r = with_hook(&mut h, || guarded(|| if i % 2 == 1 { mcglue::open(&p, false) } else { mcglue::open_thr(&mut Context::new(None), &p, false) }))?;
            w.obs(&r.is_ok());
            w.traces += 1;
            w.transitions += 1;
            w.nt();
            guarded(move || drop(r))?;
            let now = recorded();
            if was != now || !h.0.is_empty() {
                return Err(format!("(mtime, its nanoseconds, inode, mode, owner, group, links, length, blocks) were {was:?} and are {now:?}; calls: {:?}", h.0));
            }
            if std::fs::read(&p).expect("scratch") != b {
                return Err("the file's bytes have changed".into());
            }
            Ok(())
        },
        |i| format!("file {}, {} context", i / 2, ["own", "process-wide"][(i % 2) as usize]),
    )
}

// ---------------------------------------------------------------- C16

extern "C" {
    fn fork() -> i32;
    fn alarm(s: u32) -> u32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
}
const PAGE: usize = 1 << 16;
/// Shared memory through which a forked process answers.
/// Runs `f`, which ends the process, in a forked child; its status. A child that does not end is tried
/// again: forked from a process with several threads it may have inherited a lock held by one of them.
pub fn in_child(mut f: impl FnMut()) -> i32 {
    let mut st = 0;
    for _ in 0..3 {
        unsafe {
            let pid = fork();
            assert!(pid >= 0, "fork");
            if pid == 0 {
                prctl(1, 9, 0, 0, 0);
                alarm(10);
                f();
                _exit(99);
            }
            while waitpid(pid, &mut st, 0) < 0 {}
        }
        if st & 0x7f != 14 {
            break;
        }
    }
    st
}
pub struct Mailbox(*mut u8);
unsafe impl Send for Mailbox {}
unsafe impl Sync for Mailbox {}
impl Mailbox {
    pub fn new() -> Mailbox {
        unsafe {
            let p = mmap(std::ptr::null_mut(), PAGE, 3, 0x21, -1, 0);
            assert!(p as isize != -1);
            Mailbox(p)
        }
    }
    /// What the process reading it is to get.
    pub fn say(&self, v: &[u8]) {
        unsafe {
            let n = v.len().min(PAGE - 8);
            std::ptr::copy_nonoverlapping(v.as_ptr(), self.0.add(8), n);
            std::ptr::write_volatile(self.0 as *mut u64, n as u64);
        }
    }
    /// Runs `f` in a process of its own, forked from this one.
    pub fn forked(&self, f: impl FnOnce() -> Vec<u8>) -> Result<Vec<u8>, String> {
        unsafe {
            let hdr = self.0 as *mut u64;
            *hdr = u64::MAX;
            let mut f = Some(f);
            let st = in_child(|| {
                self.say(&f.take().expect("once per process")());
                _exit(0);
            });
            let n = std::ptr::read_volatile(hdr);
            if n == u64::MAX {
                return Err(format!("the process ended abnormally (status {st:#x})"));
            }
            Ok(std::slice::from_raw_parts(self.0.add(8), n as usize).to_vec())
        }
    }
}

fn files16() -> Vec<(&'static str, Option<Vec<u8>>)> {
    let mut v: Vec<(&'static str, Option<Vec<u8>>)> = corpus18().into_iter().map(|c| (c.0, c.1)).collect();
    // of the same length as the good file, everything else different
    let mut h = header(220);
    for k in (4..36).chain(40..128) {
        h[k] = h[k].wrapping_add(1);
    }
    h[24..36].copy_from_slice(&base3()[24..36]);
    v.push((
        "another good file of the same length",
        Some(build(&h, 3, &[(sig4(b"A2B0"), 200, 20), (sig4(b"desc"), 168, 20), (sig4(b"wtpt"), 200, 20)], 220)),
    ));
    let mut five = base3();
    five.truncate(132);
    five[128..132].copy_from_slice(&crate::stream::b32(5));
    let ents: Vec<Ent> = [(sig4(b"desc"), 192, 8), (sig4(b"rXYZ"), 192, 8), (sig4(b"gXYZ"), 200, 8), (sig4(b"bXYZ"), 200, 8), (sig4(b"wtpt"), 4000, 8)].to_vec();
    let mut hh = [0u8; 128];
    hh.copy_from_slice(&five[..128]);
    v.push(("five entries, two links, one outside", Some(build(&hh, 5, &ents, 220))));
    v
}
fn keep_mtime(p: &Path) {
    let f = std::fs::File::options().write(true).open(p).expect("scratch");
    f.set_modified(std::time::UNIX_EPOCH + std::time::Duration::from_secs(1_600_000_000)).expect("scratch");
}
type Seen = Option<u64>;
fn open16(who: u64, ctx: &mut [Context; 2], p: &Path) -> Result<Option<Box<Profile>>, String> {
    guarded(|| match who {
        0 => mcglue::open(p, false).ok(),
        1 => mcglue::open_thr(&mut ctx[0], p, false).ok(),
        _ => mcglue::open_thr(&mut ctx[1], p, false).ok(),
    })
}
fn seen(p: &Option<Box<Profile>>) -> Result<Seen, String> {
    guarded(|| {
        p.as_ref().map(|p| {
            let v = p.verif_view();
            let sigs: Vec<u32> = (0..101).map(|n| p.get_tag_signature(n).into()).collect();
            hash_of(&(view_hash(&v), p.get_tag_count(), sigs))
        })
    })
}
/// What each file opens as in a process that never opened anything.
fn baseline(w: &mut W) -> Vec<Seen> {
    let b = w.take("baseline16", |w| {
        let m = Mailbox::new();
        files16()
            .iter()
            .map(|(name, b)| {
                let p = w.dir.join("baseline.icc");
                match b {
                    Some(b) => std::fs::write(&p, b).expect("scratch"),
                    None => drop(std::fs::remove_file(&p)),
                }
                let v = m
                    .forked(|| {
                        let mut ctx = [Context::new(None), Context::new(None)];
                        match open16(1, &mut ctx, &p).and_then(|p| seen(&p)) {
                            Ok(None) => vec![0],
                            Ok(Some(h)) => [&[1u8][..], &h.to_le_bytes()].concat(),
                            Err(_) => vec![2],
                        }
                    })
                    .unwrap_or_else(|e| panic!("{name}: {e}"));
                match v[0] {
                    0 => None,
                    1 => Some(u64::from_le_bytes(v[1..9].try_into().expect("9 bytes"))),
                    // an abort is C10's matter: the comparison below will meet it again
                    _ => Some(0),
                }
            })
            .collect::<Vec<_>>()
    });
    w.put("baseline16", b.clone());
    b
}
/// Opens in turn, in a process of their own; every outcome must be the baseline's.
fn history16(steps: &[(usize, u64)], same_path: bool, keep: bool, w: &mut W) -> R {
    let base = baseline(w);
    let files = w.take("files16", |_| files16());
    let paths = lay(w, &files);
    let m = w.take("mailbox", |_| Mailbox::new());
    let one = w.dir.join("same.icc");
    w.beat();
    let r = m.forked(|| {
        let r = (|| -> R {
            let mut ctx = [Context::new(None), Context::new(None)];
            let mut got: Vec<(usize, Option<Box<Profile>>)> = vec![];
            for (k, (f, who)) in steps.iter().enumerate() {
                let p = if same_path {
                    match &files[*f].1 {
                        Some(b) => {
                            std::fs::write(&one, b).expect("scratch");
                            keep_mtime(&one);
                        }
                        None => drop(std::fs::remove_file(&one)),
                    }
                    &one
                } else {
                    &paths[*f]
                };
                let q = open16(*who, &mut ctx, p)?;
                let s = seen(&q)?;
                if s != base[*f] {
                    return Err(format!(
                        "open {} ({}) {}",
                        k + 1,
                        files[*f].0,
                        match (s, base[*f]) {
                            (Some(_), Some(_)) => "gave another profile than it does first in a process",
                            (Some(_), None) => "succeeded, first in a process it fails",
                            _ => "failed, first in a process it succeeds",
                        }
                    ));
                }
                if keep {
                    got.push((*f, q));
                }
            }
            for (f, q) in &got {
                if seen(q)? != base[*f] {
                    return Err(format!("the profile of {} was changed by a later open", files[*f].0));
                }
            }
            for a in 0..got.len() {
                for b in 0..a {
                    if let (true, (Some(x), Some(y))) = (got[a].0 == got[b].0, (&got[a].1, &got[b].1)) {
                        if !guarded(|| x == y)? {
                            return Err(format!("opens {} and {} of the same bytes compare different", b + 1, a + 1));
                        }
                    }
                }
            }
            Ok(())
        })();
        r.err().unwrap_or_default().into_bytes()
    });
    w.put("mailbox", m);
    w.put("files16", files);
    w.traces += 1;
    w.nt();
    w.transitions += steps.len() as u64;
    w.state(hash_of(&(steps, same_path)));
    let e = r?;
    w.obs(&e);
    if e.is_empty() {
        Ok(())
    } else {
        Err(String::from_utf8_lossy(&e).into_owned())
    }
}
/// Two files that differ as little as one case says, opened in turn; each must give what it gives alone.
fn apart(a: &[u8], b: &[u8], who: u64, same_path: bool, w: &mut W) -> R {
    let m = w.take("mailbox", |_| Mailbox::new());
    let (pa, pb) = (w.dir.join("apart-a.icc"), w.dir.join("apart-b.icc"));
    let put = |p: &Path, b: &[u8]| {
        std::fs::write(p, b).expect("scratch");
        keep_mtime(p);
    };
    let code = |s: Result<Seen, String>| match s {
        Ok(None) => vec![0u8],
        Ok(Some(h)) => [&[1u8][..], &h.to_le_bytes()].concat(),
        Err(e) => [&[2u8][..], e.as_bytes()].concat(),
    };
    w.beat();
    put(&pa, a);
    put(&pb, b);
    let lone = |m: &Mailbox, p: &Path| {
        m.forked(|| {
            let mut ctx = [Context::new(None), Context::new(None)];
            code(open16(1, &mut ctx, p).and_then(|p| seen(&p)))
        })
    };
    let la = match w.take("lone", |_| (Vec::<u8>::new(), Vec::<u8>::new())) {
        (f, l) if f == a => l,
        _ => lone(&m, &pa)?,
    };
    w.put("lone", (a.to_vec(), la.clone()));
    let want = [la, lone(&m, &pb)?];
    let r = m.forked(|| {
        let mut ctx = [Context::new(None), Context::new(None)];
        for (k, f) in [0, 1, 0, 1].iter().enumerate() {
            let p = if same_path {
                put(&pa, [a, b][*f]);
                &pa
            } else {
                [&pa, &pb][*f]
            };
            let got = code(open16(who, &mut ctx, p).and_then(|p| seen(&p)));
            if got != want[*f] {
                return format!("open {} (file {}) gave another result than alone", k + 1, ["a", "b"][*f]).into_bytes();
            }
        }
        vec![]
    });
    w.put("mailbox", m);
    w.traces += 1;
    w.transitions += 4;
    w.state(hash_of(&(&want, who, same_path)));
    w.obs(&want);
    w.nt();
    let e = r?;
    if e.is_empty() {
        Ok(())
    } else {
        Err(String::from_utf8_lossy(&e).into_owned())
    }
}
/// A good file with nothing blank in its header.
fn full() -> Vec<u8> {
    let mut b = base3();
    for k in (40..128).filter(|k| !(68..80).contains(k)) {
        b[k] = b[k].wrapping_add(k as u8) | 1;
    }
    b
}
fn one_byte() -> Section {
    let n = base3().len() as u64;
    let dec = move |i: u64| digits(i, &[n, 3, 2, 2, 2]);
    Section::new(
        "two files one byte apart",
        n * 3 * 8,
        move |i, w| {
            let d = dec(i);
            let a = if d[4] == 0 { base3() } else { full() };
            let mut b = a.clone();
            b[d[0] as usize] ^= [1, 0x80, 0x20][d[1] as usize];
            apart(&a, &b, d[2], d[3] == 1, w)
        },
        move |i| {
            let d = dec(i);
            format!("byte {} changed by {:#x}, {}, {}, base {}", d[0], [1, 0x80, 0x20][d[1] as usize], WHO[d[2] as usize], if d[3] == 1 { "one path" } else { "two paths" }, d[4])
        },
    )
}
/// Two changes that a sum, an exclusive or, or a set of the bytes does not see.
fn two_bytes(n: u64) -> Section {
    let dec = move |i: u64| {
        let (mut a, mut k) = (0, i / 3);
        while k >= n - 1 - a {
            k -= n - 1 - a;
            a += 1;
        }
        (a as usize, (a + 1 + k) as usize, i % 3)
    };
    const HOW: [&str; 3] = ["one up and one down", "the same bit in both", "exchanged"];
    Section::new(
        "two files two bytes apart",
        n * (n - 1) / 2 * 3,
        move |i, w| {
            let (x, y, how) = dec(i);
            let a = full();
            let mut b = a.clone();
            match how {
                0 => {
                    b[x] = b[x].wrapping_add(1);
                    b[y] = b[y].wrapping_sub(1);
                }
                1 => {
                    b[x] ^= 4;
                    b[y] ^= 4;
                }
                _ => b.swap(x, y),
            }
            apart(&a, &b, (x % 2) as u64, y % 2 == 0, w)
        },
        move |i| {
            let (x, y, how) = dec(i);
            format!("bytes {x} and {y}: {}", HOW[how as usize])
        },
    )
}
/// Nothing about a file counts but what is in it.
fn attributes() -> Section {
    const NAMES: [&str; 10] = ["a.icc", "a.icm", "A.ICM", "a.ICC", "a.txt", "a.icc.gz", ".icc", "a", "a.b.c.tiff", "%s a\u{f6}.pf"];
    const MODES: [u32; 5] = [0o644, 0o444, 0o000, 0o777, 0o7755];
    const TIMES: [i64; 6] = [1_600_000_000, 0, -1, 1, 4_102_444_800, 915_148_800];
    let n = files16().len() as u64;
    let radix = [n, NAMES.len() as u64, 5, 6, 2, 3, 2];
    Section::new(
        "one content under every name and attribute",
        radix.iter().product(),
        move |i, w| {
            let d = digits(i, &radix);
            let base = baseline(w);
            let files = w.take("files16", |_| files16());
            let f = d[0] as usize;
            let p = w.dir.join(NAMES[d[1] as usize]);
            let _ = std::fs::remove_file(&p);
            let mut want = base[f];
            if let Some(b) = &files[f].1 {
                use std::os::unix::{ffi::OsStrExt, fs::PermissionsExt};
                std::fs::write(&p, b).expect("scratch");
                let link = w.dir.join("second-name");
                let _ = std::fs::remove_file(&link);
                let name = [p.as_os_str().as_bytes(), &[0]].concat();
                let t = TIMES[d[3] as usize];
                unsafe {
                    if d[4] == 1 {
                        std::fs::hard_link(&p, &link).expect("scratch");
                        chown(name.as_ptr(), 65534, 12345);
                    }
                    utimensat(-100, name.as_ptr(), [t, 5, t, 5].as_ptr(), 0);
                }
                std::fs::set_permissions(&p, std::fs::Permissions::from_mode(MODES[d[2] as usize])).expect("scratch");
                if d[6] == 1 {
                    std::fs::set_permissions(&w.dir, std::fs::Permissions::from_mode(0o755)).expect("scratch");
                    unsafe { setfsuid(65533) };
                }
                if std::fs::File::open(&p).is_err() {
                    want = None;
                }
            }
            let mut ctx = [Context::new(None), Context::new(None)];
            let q = open16(d[5], &mut ctx, &p);
            unsafe { setfsuid(0) };
            let got = q.and_then(|q| seen(&q));
            w.put("files16", files);
            w.traces += 1;
            w.transitions += 1;
            w.nt();
            w.obs(&got);
            match got? {
                s if s == want => Ok(()),
                s => Err(format!(
                    "the open {}",
                    match (s, want) {
                        (Some(_), Some(_)) => "gave another profile than the same bytes do elsewhere",
                        (Some(_), None) => "succeeded, elsewhere the same bytes fail",
                        _ => "failed, elsewhere the same bytes succeed",
                    }
                )),
            }
        },
        move |i| {
            let d = digits(i, &radix);
            format!(
                "{} as {:?}, mode {:o}, modified at {}, {}, {}",
                files16()[d[0] as usize].0,
                NAMES[d[1] as usize],
                MODES[d[2] as usize],
                TIMES[d[3] as usize],
                if d[4] == 1 { "of another owner, with a second name" } else { "own" },
                WHO[d[5] as usize].to_string() + if d[6] == 1 { ", by another user" } else { "" }
            )
        },
    )
}
const SITUATIONS16: [&str; 14] = [
    "locked", "with a shared lock", "with a record lock for writing", "with a record lock for reading", "open elsewhere for reading", "open elsewhere for writing", "with an extended attribute",
    "through a chain of links", "through the number of an open file", "without any name", "in memory only", "dated in nanoseconds", "with 20 names", "just replaced by renaming",
];
/// The same bytes, in a file that others use or that lies elsewhere.
fn used_by_others() -> Section {
    let n = files16().len() as u64;
    Section::new(
        "one content in every situation",
        n * 14 * 3,
        move |i, w| {
            use std::os::fd::AsRawFd;
            let d = digits(i, &[n, 14, 3]);
            let base = baseline(w);
            let files = w.take("files16", |_| files16());
            let Some(b) = &files[d[0] as usize].1 else {
                w.put("files16", files);
                return Ok(());
            };
            let p = w.dir.join("used");
            let _ = std::fs::remove_file(&p);
            std::fs::write(&p, b).expect("scratch");
            let mut path = p.clone();
            let mut held = None;
            let all = std::fs::File::options().read(true).write(true).open(&p).expect("scratch");
            let more: Vec<PathBuf> = (0..20).map(|k| w.dir.join(format!("used-{k}"))).collect();
            for m in &more {
                let _ = std::fs::remove_file(m);
            }
            match d[1] {
                k @ 0..=3 => lock(&all, k),
                4 => held = Some(std::fs::File::open(&p).expect("scratch")),
                5 | 8 => {}
                6 => unsafe {
                    setxattr(c_path(&p).as_ptr(), b"user.mime_type\0".as_ptr(), b"text/plain".as_ptr(), 10, 0);
                },
                7 => {
                    for k in 0..10 {
                        std::os::unix::fs::symlink(if k == 0 { &p } else { &more[k - 1] }, &more[k]).expect("scratch");
                    }
                    path = more[9].clone();
                }
                9 => std::fs::remove_file(&p).expect("scratch"),
                10 => {
                    extern "C" {
                        fn memfd_create(n: *const u8, f: u32) -> i32;
                    }
                    use std::os::fd::FromRawFd;
                    let fd = unsafe { memfd_create(b"used\0".as_ptr(), 1) };
                    if fd >= 0 {
                        let mut f = unsafe { std::fs::File::from_raw_fd(fd) };
                        std::io::Write::write_all(&mut f, b).expect("memory file");
                        held = Some(f);
                    }
                }
                11 => unsafe {
                    assert_eq!(utimensat(-100, c_path(&p).as_ptr(), [1i64, 999_999_999, 1, 999_999_999].as_ptr(), 0), 0);
                },
                12 => more.iter().for_each(|m| std::fs::hard_link(&p, m).expect("scratch")),
                _ => {
                    std::fs::write(&more[0], b).expect("scratch");
                    std::fs::rename(&more[0], &p).expect("scratch");
                }
            }
            if matches!(d[1], 8 | 9) {
                path = format!("/proc/self/fd/{}", all.as_raw_fd()).into();
            } else if let (10, Some(f)) = (d[1], &held) {
                path = format!("/proc/self/fd/{}", f.as_raw_fd()).into();
            } else if !matches!(d[1], 0..=3 | 5) {
                drop(all.try_clone());
            }
            let mut ctx = [Context::new(None), Context::new(None)];
            let got = open16(d[2], &mut ctx, &path).and_then(|q| seen(&q));
            drop((all, held));
            for m in &more {
                let _ = std::fs::remove_file(m);
            }
            w.put("files16", files);
            w.traces += 1;
            w.transitions += 1;
            w.nt();
            w.obs(&got);
            if got? != base[d[0] as usize] {
                return Err("the open gave another result than the same bytes do elsewhere".into());
            }
            Ok(())
        },
        move |i| {
            let d = digits(i, &[n, 14, 3]);
            format!("{} {}, {}", files16()[d[0] as usize].0, SITUATIONS16[d[1] as usize], WHO[d[2] as usize])
        },
    )
}
/// Files with holes, followed by more holes, and the same files written out.
fn holes16() -> Section {
    const TAIL: [u64; 7] = [0, 1, 4096, 65536, 1 << 20, 5 << 20, (1 << 20) + 7];
    let n = files16().len() as u64;
    Section::new(
        "files with holes and without",
        n * 7 * 3,
        move |i, w| {
            let d = digits(i, &[n, 7, 3]);
            let files = w.take("files16", |_| files16());
            let b = files[d[0] as usize].1.clone();
            w.put("files16", files);
            let Some(mut b) = b else { return Ok(()) };
            let (p, q) = (w.dir.join("dense"), w.dir.join("sparse"));
            let f = std::fs::File::create(&q).expect("scratch");
            // as far as the last byte that is not zero, the rest is hole
            let end = b.iter().rposition(|x| *x != 0).map_or(0, |k| k + 1);
            std::os::unix::fs::FileExt::write_all_at(&f, &b[..end], 0).expect("scratch");
            b.resize(b.len() + TAIL[d[1] as usize] as usize, 0);
            f.set_len(b.len() as u64).expect("scratch");
            drop(f);
            std::fs::write(&p, &b).expect("scratch");
            let mut ctx = [Context::new(None), Context::new(None)];
            let x = open16(1, &mut ctx, &p).and_then(|q| seen(&q))?;
            let y = open16(d[2], &mut ctx, &q).and_then(|q| seen(&q))?;
            w.traces += 1;
            w.transitions += 2;
            w.nt();
            w.obs(&(x, y));
            if x != y {
                return Err("a file with a hole gives another result than the same bytes written out".into());
            }
            Ok(())
        },
        move |i| {
            let d = digits(i, &[n, 7, 3]);
            format!("{} and {} zeros, {}", files16()[d[0] as usize].0, TAIL[d[1] as usize], WHO[d[2] as usize])
        },
    )
}
fn lay(w: &mut W, files: &[(&'static str, Option<Vec<u8>>)]) -> Vec<PathBuf> {
    crate::ctx::lay_out(w, "f16", files.iter().map(|f| f.1.clone()).collect())
}
const WHO: [&str; 3] = ["process-wide", "A", "B"];
fn decode16(i: u64, k: u64, depth: u32) -> Vec<(usize, u64)> {
    let mut v = vec![];
    seq(i, k, depth, &mut v);
    v.iter().map(|x| ((*x / 3) as usize, (*x % 3) as u64)).collect()
}
fn show16(s: &[(usize, u64)]) -> String {
    let f = files16();
    s.iter()
        .map(|(x, who)| format!("{} ({})", f[*x].0, WHO[*who as usize]))
        .collect::<Vec<_>>()
        .join("; ")
}
pub fn c16(t: Tier) -> Check {
    let n = files16().len() as u64;
    let k = 3 * n;
    let mk = |name, same: bool, depth: u32| {
        Section::new(
            name,
            seqs(k, depth),
            move |i, w| history16(&decode16(i, k, depth), same, true, w),
            move |i| show16(&decode16(i, k, depth)),
        )
    };
    Check {
        id: "C16",
        level: "model_checking",
        rule: "every sequence of opens up to the depth over the corpus and three contexts, each sequence in a process of its own, each outcome compared with that of the file opened alone in a fresh process; every file of the corpus under every combination of name, mode, times, owner and links; non-trivial: all opens of the sequence ran and were compared, also once more at the end",
        assumptions: &["a process forked before any use of the library stands for a fresh one"],
        sections: vec![
            mk("files at their own paths", false, t.pick(2, 3)),
            mk("one path rewritten each time", true, t.pick(2, 3)),
            attributes(),
            used_by_others(),
            holes16(),
            one_byte(),
            two_bytes(t.pick(144, 220)),
            {
                // three opens, the contexts fixed per pattern
                const PAT: [[u64; 3]; 6] = [[0, 0, 0], [1, 1, 1], [0, 1, 0], [1, 0, 1], [1, 2, 1], [0, 0, 1]];
                let dec = move |i: u64| {
                    let d = digits(i, &[n, n, n, 6]);
                    (0..3).map(|j| (d[j] as usize, PAT[d[3] as usize][j])).collect::<Vec<_>>()
                };
                Section::new(
                    "three opens",
                    n * n * n * 6,
                    move |i, w| history16(&dec(i), i % 2 == 0, true, w),
                    move |i| show16(&dec(i)),
                )
            },
            {
                let dec = move |i: u64| {
                    let d = digits(i, &[n, n, 3]);
                    (0..300).map(|j| (d[j % 2] as usize, d[2])).collect::<Vec<_>>()
                };
                Section::new(
                    "300 opens in turn",
                    n * n * 3,
                    move |i, w| history16(&dec(i), false, false, w),
                    move |i| show16(&dec(i)[..2]) + " ... 300 times",
                )
            },
            {
                // past the wrap of a 16-bit count
                let dec = move |i: u64| {
                    let d = digits(i, &[n, 3]);
                    (0..66_000).map(|_| (d[0] as usize, d[1])).collect::<Vec<_>>()
                };
                Section::new(
                    "66,000 opens of one file",
                    n * 3,
                    move |i, w| history16(&dec(i), false, false, w),
                    move |i| show16(&dec(i)[..1]) + " ... 66,000 times",
                )
            },
        ],
    }
}

// ---------------------------------------------------------------- C35

const WAYS: [&str; 3] = ["made", "opened for writing", "opened for writing, process-wide"];
fn fresh35(way: usize, ctx: &mut Context, p: &Path) -> Result<Box<Profile>, String> {
    guarded(|| match way {
        0 => Ok(Box::new(Profile::new())),
        1 => mcglue::open_thr(ctx, p, true),
        _ => mcglue::open(p, true),
    })?
    .map_err(|e| format!("cannot be opened for writing ({e})"))
}
/// A new profile is empty, with the defaults of Little CMS 2.13.1, dated `secs`.
fn is_new(q: &Profile, way: usize, secs: i64) -> R {
    let v = guarded(|| q.verif_view())?;
    if v.created.timestamp() != secs {
        return Err(format!("is dated {} ({} seconds), made at {secs} seconds", v.created, v.created.timestamp()));
    }
    let names = ["version", "class", "colour space", "connection space", "flags", "manufacturer", "model", "attributes", "rendering intent", "creator", ""];
    for (k, x) in view_nums(&v).iter().enumerate() {
        // a signature that is not set is four spaces or zero
        let unset = (1..=3).contains(&k) && *x == u32::from(Signature::default()) as u64;
        let want = if k == 0 { 0x0210_0000 } else { 0 };
        if *x != want && !unset {
            return Err(format!("has {} {x:#x}, must be {want:#x}", names[k]));
        }
    }
    if unsafe { v.profile_id.id8 } != [0; 16] {
        return Err("has a profile ID".into());
    }
    if v.is_write != (way > 0) || !v.tags.is_empty() || q.get_tag_count() != 0 {
        return Err(format!("is {v:?}"));
    }
    if q.get_io_handler().is_some() != (way > 0) {
        return Err("its stream is wrong".into());
    }
    for n in (0..130).chain([255, 256, 65535, 1 << 32, usize::MAX]) {
        if guarded(|| q.get_tag_signature(n))? != Signature::default() {
            return Err(format!("has a tag {n}"));
        }
    }
    for s in [b"desc", b"A2B0", b"wtpt", b"rXYZ", b"    ", b"\0\0\0\0", b"cprt"] {
        for links in [false, true] {
            if let Some(n) = guarded(|| q.verif_search_tag(Signature::from(sig4(s)), links))? {
                return Err(format!("finds {s:?} at {n}"));
            }
        }
    }
    Ok(())
}
const REPLACED: [&str; 4] = ["nothing", "a profile", "a profile with nothing blank", "text"];
/// What lies at the path to be written.
fn replaced(k: u64, p: &Path) {
    match k {
        0 => drop(std::fs::remove_file(p)),
        k => std::fs::write(p, [base3(), full(), b"hello".to_vec()][k as usize - 1].clone()).expect("scratch file"),
    }
}
/// In this process (a child) the time zone is this, also where another one was in use before.
fn in_zone(zone: &str) {
    extern "C" {
        fn tzset();
    }
    std::env::set_var("TZ", zone);
    unsafe { tzset() }
}
const ZONES: [&str; 5] = ["UTC", "XYZ-5", "XYZ+11:30", "Europe/Berlin", ""];
fn zones35() -> Section {
    let times = moments();
    let n = times.len() as u64;
    Section::new(
        "every time zone",
        5 * 3 * 60,
        move |i, w| {
            let d = digits(i, &[5, 3, 60]);
            let p = w.dir.join("new.icc");
            let m = w.take("mailbox", |_| Mailbox::new());
            w.nt();
            w.traces += 1;
            w.transitions += 40;
            let r = m.forked(|| {
                in_zone(ZONES[d[0] as usize]);
                let r = (0..40).try_for_each(|j| {
                    let secs = times[((d[2] * 40 + j) * n / 2400) as usize];
                    let q = at_time((secs, 1), || fresh35(d[1] as usize, &mut Context::new(None), &p))?;
                    is_new(&q, d[1] as usize, secs)
                });
                r.err().unwrap_or_default().into_bytes()
            });
            w.put("mailbox", m);
            let e = r?;
            if e.is_empty() {
                Ok(())
            } else {
                Err(String::from_utf8_lossy(&e).into_owned())
            }
        },
        |i| {
            let d = digits(i, &[5, 3, 60]);
            format!("TZ={}, {}, moments {}", ZONES[d[0] as usize], WAYS[d[1] as usize], d[2])
        },
    )
}
/// Seconds worth looking at: limits of counters, every year's first and last second, every day around leap days.
fn moments() -> Vec<i64> {
    let mut v: Vec<i64> = vec![0, 1, 59, 60, 3599, 3600, 86399, 86400, 951_782_399, 951_782_400, 951_868_800, 253_402_300_799, 253_402_300_800];
    for b in [31, 32, 33, 40] {
        v.extend([(1i64 << b) - 1, 1 << b, (1 << b) + 1]);
    }
    // years 1970 to 2400 by their length
    let mut t = 0i64;
    for y in 1970..2400 {
        let days = 365 + (y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)) as i64;
        v.extend([t, t + 59 * 86400 - 1, t + 59 * 86400, t + 60 * 86400 - 1, t + days * 86400 - 1]);
        t += days * 86400;
    }
    // every hour of two years, one of them leap
    v.extend((0..731 * 24).map(|h| 1_672_531_200 + h * 3600 + 1799));
    v
}
pub fn c35(t: Tier) -> Check {
    const NANOS: [i64; 4] = [0, 1, 500_000_000, 999_999_999];
    let times = moments();
    let n = times.len() as u64;
    let times2 = times.clone();
    // what happens before: opens of each file in two contexts, a write in two, a new profile
    let nf = files16().len() as u64;
    let k = 2 * nf + 3;
    let depth = t.pick(2, 3);
    let steps = move |i: u64| {
        let mut v = vec![];
        seq(i / 3, k, depth, &mut v);
        v
    };
    Check {
        id: "C35",
        level: "model_checking",
        rule: "every way of making a new profile at every one of the stated moments, in place of nothing, of profiles and of text, in five time zones, and after every history up to the depth of opens, writes and new profiles, each history in a process of its own; every field compared with the defaults; non-trivial: the new profile was made and compared",
        assumptions: &["times of day before 1970 are not looked at"],
        sections: vec![
            Section::new(
                "every moment",
                n * 4 * 3 * 4,
                move |i, w| {
                    let d = digits(i, &[3, 4, n, 4]);
                    let now = (times[d[2] as usize], NANOS[d[1] as usize]);
                    let p = w.dir.join("new.icc");
                    replaced(d[3], &p);
                    let mut c = Context::new(None);
                    let q = at_time(now, || fresh35(d[0] as usize, &mut c, &p))?;
                    let r = at_time(now, || fresh35(d[0] as usize, &mut c, &p))?;
                    w.nt();
                    w.traces += 1;
                    w.transitions += 2;
                    w.obs(&view_hash(&q.verif_view()));
                    is_new(&q, d[0] as usize, now.0)?;
                    if !guarded(|| *q == *r && *r == *q)? {
                        return Err("two of the same moment differ".into());
                    }
                    Ok(())
                },
                move |i| {
                    let d = digits(i, &[3, 4, n, 4]);
                    format!("{} at {} s and {} ns, in place of {}", WAYS[d[0] as usize], times2[d[2] as usize], NANOS[d[1] as usize], REPLACED[d[3] as usize])
                },
            )
            .parity(),
            Section::new(
                "after every history",
                seqs(k, depth) * 3,
                move |i, w| {
                    let way = (i % 3) as usize;
                    let zone = ZONES[(hash_of(&i) % 5) as usize];
                    let files = w.take("files16", |_| files16());
                    let paths = lay(w, &files);
                    w.put("files16", files);
                    let m = w.take("mailbox", |_| Mailbox::new());
                    let out = w.dir.join("new.icc");
                    w.nt();
                    w.traces += 1;
                    w.beat();
                    let s = steps(i);
                    w.transitions += s.len() as u64 + 1;
                    let r = m.forked(|| {
                        let r = (|| -> R {
                            in_zone(zone);
                            replaced(i % 4, &out);
                            let mut ctx = Context::new(Some(vec![1].into()));
                            let mut held = vec![];
                            let mut old = None;
                            for (j, x) in s.iter().enumerate() {
                                let (x, nf) = (*x as u64, nf);
                                let q = at_time((1_000_000_000 + j as i64, 0), || {
                                    if x < 2 * nf {
                                        let p = &paths[(x / 2) as usize];
                                        guarded(|| if x % 2 == 0 { mcglue::open_thr(&mut ctx, p, false) } else { mcglue::open(p, false) }.ok())
                                    } else {
                                        fresh35((x - 2 * nf) as usize, &mut ctx, &out).map(Some)
                                    }
                                })?;
                                if x >= 2 * nf && old.is_none() {
                                    old = Some((j, (x - 2 * nf) as usize));
                                }
                                held.push(q);
                            }
                            let q = at_time((1_700_000_000, 7), || fresh35(way, &mut ctx, &out))?;
                            is_new(&q, way, 1_700_000_000)?;
                            // one made before is still as it was
                            if let Some((j, way)) = old {
                                if let Some(q) = &held[j] {
                                    is_new(q, way, 1_000_000_000 + j as i64).map_err(|e| format!("an earlier one now {e}"))?;
                                }
                            }
                            drop(held);
                            is_new(&q, way, 1_700_000_000)
                        })();
                        r.err().unwrap_or_default().into_bytes()
                    });
                    w.put("mailbox", m);
                    w.state(hash_of(&i));
                    let e = r?;
                    if e.is_empty() {
                        Ok(())
                    } else {
                        Err(String::from_utf8_lossy(&e).into_owned())
                    }
                },
                move |i| {
                    let f = files16();
                    let mut v = vec![];
                    seq(i / 3, k, depth, &mut v);
                    let s: Vec<String> = v
                        .iter()
                        .map(|x| match *x as u64 {
                            x if x < 2 * nf => format!("opened {} ({})", f[(x / 2) as usize].0, if x % 2 == 0 { "own" } else { "process-wide" }),
                            x => WAYS[(x - 2 * nf) as usize].to_string(),
                        })
                        .collect();
                    format!("{}; then {}", s.join("; "), WAYS[(i % 3) as usize])
                },
            ),
            zones35(),
        ],
    }
}
