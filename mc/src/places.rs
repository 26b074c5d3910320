//! The cases of a check once more where a process or thread is not as usual: what a property promises,
//! it promises there too.
use crate::engine::*;
use crate::modes::Mailbox;
use crate::sys::*;
use std::sync::atomic::Ordering::Relaxed;
use std::sync::Arc;

#[derive(Clone, Copy)]
enum Is {
    Plain,
    Env(&'static str, &'static str),
    Every(usize),
    Clock(i64),
    In(&'static str),
    Mask(u32),
    Closed(&'static [i32]),
    /// name and KiB of stack
    Thread(Option<&'static str>, usize),
    Descriptors(usize),
    Ignored,
    Blocked,
    Processors(usize),
    Name(&'static std::ffi::CStr),
    Pid(i32),
    Terminal(i32),
    Random(i32),
    Unwinding,
    UnwindingTwice,
    Panicked,
    Ending,
    AtExit,
    Crowd(usize),
    Heap(usize),
    Forked(usize),
    ThreadsBefore(usize),
}
use Is::*;
const ALL: [(&str, Is); 76] = [
    ("as usual", Plain),
    ("TZ=UTC", Env("TZ", "UTC")),
    ("TZ east", Env("TZ", "XYZ-5")),
    ("TZ far west", Env("TZ", "XYZ+11:30")),
    ("TZ with summer time", Env("TZ", "CET-1CEST,M3.5.0,M10.5.0/3")),
    ("TZ with summer time in the south", Env("TZ", "NZST-12NZDT,M9.5.0,M4.1.0/3")),
    ("TZ=America/St_Johns", Env("TZ", "America/St_Johns")),
    ("TZ that does not exist", Env("TZ", ":/nonexistent")),
    ("TZ empty", Env("TZ", "")),
    ("LANG=tr_TR.UTF-8", Env("LANG", "tr_TR.UTF-8")),
    ("LC_ALL=de_DE.UTF-8", Env("LC_ALL", "de_DE.UTF-8")),
    ("LC_ALL=C", Env("LC_ALL", "C")),
    ("SOURCE_DATE_EPOCH=0", Env("SOURCE_DATE_EPOCH", "0")),
    ("RUST_BACKTRACE=1", Env("RUST_BACKTRACE", "1")),
    ("DEBUG=1", Env("DEBUG", "1")),
    ("CI=true", Env("CI", "true")),
    ("HOME not absolute", Env("HOME", "x")),
    ("TMPDIR not there", Env("TMPDIR", "/nonexistent")),
    ("every variable is 1", Every(1)),
    ("every variable is empty", Every(2)),
    ("every variable is a path", Every(3)),
    ("1970", Clock(-1_790_000_000)),
    ("before 2001", Clock(-1_000_000_000)),
    ("2038 and later", Clock(600_000_000)),
    ("2106 and later", Clock(2_700_000_000)),
    ("2999", Clock(30_000_000_000)),
    ("in /", In("/")),
    ("in /tmp", In("/tmp")),
    ("umask 0", Mask(0)),
    ("umask 077", Mask(0o077)),
    ("no standard input", Closed(&[0])),
    ("no standard error", Closed(&[2])),
    ("no standard streams", Closed(&[0, 1, 2])),
    ("a thread", Thread(None, 8192)),
    ("a thread called main", Thread(Some("main"), 8192)),
    ("a thread called worker", Thread(Some("worker"), 8192)),
    ("a thread called test", Thread(Some("test"), 8192)),
    ("a thread called lcms2", Thread(Some("lcms2"), 8192)),
    ("a thread called preview", Thread(Some("preview"), 8192)),
    ("a thread called tokio-runtime-worker", Thread(Some("tokio-runtime-worker"), 8192)),
    ("a thread called rayon-0", Thread(Some("rayon-0"), 8192)),
    ("a thread with an empty name", Thread(Some(""), 8192)),
    ("a thread with a small stack", Thread(None, 256)),
    ("a thread with a large stack", Thread(None, 1 << 18)),
    ("3 descriptors open", Descriptors(3)),
    ("descriptors past 255", Descriptors(256)),
    ("descriptors past 1023", Descriptors(1024)),
    ("signals ignored", Ignored),
    ("signals blocked", Blocked),
    ("one processor", Processors(1)),
    ("two processors", Processors(2)),
    ("started as nothing", Name(c"")),
    ("started as convert", Name(c"/usr/bin/convert")),
    ("started as lcms2", Name(c"lcms2")),
    ("process 1", Pid(1)),
    ("process 0", Pid(0)),
    ("process 32768", Pid(32768)),
    ("process 4194304", Pid(4_194_304)),
    ("all terminals", Terminal(1)),
    ("no terminals", Terminal(0)),
    ("random is 0", Random(0)),
    ("random is 255", Random(255)),
    ("while unwinding", Unwinding),
    ("while unwinding within an unwinding", UnwindingTwice),
    ("after a panic", Panicked),
    ("as the thread ends", Ending),
    ("as the process ends", AtExit),
    ("beside 20 threads", Crowd(20)),
    ("beside 130 threads", Crowd(130)),
    ("200 MiB held", Heap(200 << 20)),
    ("a million pieces held", Heap(0)),
    ("in a child's child", Forked(1)),
    ("four processes down", Forked(4)),
    ("after 300 threads", ThreadsBefore(300)),
    ("after a thread", ThreadsBefore(1)),
    ("a thread called 0123456789abcde", Thread(Some("0123456789abcde"), 8192)),
];
extern "C" {
    fn umask(m: u32) -> u32;
    fn close(fd: i32) -> i32;
    fn dup(fd: i32) -> i32;
    fn getrlimit(r: i32, l: *mut u64) -> i32;
    fn setrlimit(r: i32, l: *const u64) -> i32;
    fn sigprocmask(how: i32, a: *const u64, b: *mut u64) -> i32;
    fn signal(s: i32, h: usize) -> usize;
    fn sched_getaffinity(p: i32, n: usize, m: *mut u64) -> i32;
    fn sched_setaffinity(p: i32, n: usize, m: *const u64) -> i32;
    fn tzset();
    fn alarm(s: u32) -> u32;
    fn atexit(f: extern "C" fn()) -> i32;
}
type Work<'a> = &'a (dyn Fn() -> Vec<u8> + Sync);
struct Last<F: FnMut()>(F);
impl<F: FnMut()> Drop for Last<F> {
    fn drop(&mut self) {
        (self.0)()
    }
}
fn unwind() {
    std::panic::resume_unwind(Box::new(()));
}
/// What the work gives there; None where this machine does not let it be set up.
fn there(is: Is, work: Work, m: &Mailbox) -> Option<Vec<u8>> {
    unsafe {
        match is {
            Plain | Unwinding | UnwindingTwice | Panicked | Ending | AtExit | Thread(..) => {}
            Env(n, v) => {
                std::env::set_var(n, v);
                tzset()
            }
            Every(k) => ENV.store(k, Relaxed),
            Clock(by) => CLOCK.store(by, Relaxed),
            In(p) => std::env::set_current_dir(p).ok()?,
            Mask(k) => drop(umask(k)),
            Closed(v) => v.iter().for_each(|fd| drop(close(*fd))),
            Descriptors(n) => {
                let mut l = [0u64; 2];
                getrlimit(7, l.as_mut_ptr());
                if l[1] < n as u64 + 300 {
                    return None;
                }
                l[0] = l[0].max(n as u64 + 300);
                setrlimit(7, l.as_ptr());
                let fd = std::os::fd::IntoRawFd::into_raw_fd(std::fs::File::open("/dev/null").ok()?);
                if n == 3 {
                    (0..3).for_each(|_| drop(dup(fd)));
                }
                while n > 3 {
                    match dup(fd) {
                        k if k < 0 => return None,
                        k if k as usize >= n => break,
                        _ => {}
                    }
                }
            }
            // the harness's own time limit stays
            Ignored => (1..=64).filter(|s| ![9, 14, 17, 19].contains(s)).for_each(|s| drop(signal(s, 1))),
            Blocked => drop(sigprocmask(0, [!(1u64 << 13); 16].as_ptr(), std::ptr::null_mut())),
            Processors(n) => {
                let (mut all, mut few, mut left) = ([0u64; 16], [0u64; 16], n);
                sched_getaffinity(0, 128, all.as_mut_ptr());
                for k in (0..1024).filter(|k| all[k / 64] >> (k % 64) & 1 == 1) {
                    if left > 0 {
                        few[k / 64] |= 1 << (k % 64);
                        left -= 1;
                    }
                }
                if sched_setaffinity(0, 128, few.as_ptr()) != 0 {
                    return None;
                }
            }
            Name(n) => started_as(n),
            Pid(p) => PID.store(p, Relaxed),
            Terminal(k) => TTY.store(k, Relaxed),
            Random(k) => RANDOM.store(k, Relaxed),
            Crowd(_) | Heap(_) | Forked(_) | ThreadsBefore(_) => {}
        }
    }
    Some(match is {
        Thread(name, kib) => std::thread::scope(|s| {
            let mut t = std::thread::Builder::new().stack_size(kib << 10);
            if let Some(n) = name {
                t = t.name(n.into());
            }
            t.spawn_scoped(s, work).ok().and_then(|t| t.join().ok())
        })?,
        Unwinding => {
            let mut got = vec![];
            let _ = guarded(|| {
                let _last = Last(|| got = work());
                unwind()
            });
            got
        }
        UnwindingTwice => {
            let mut got = vec![];
            let _ = guarded(|| {
                let _last = Last(|| {
                    let _ = guarded(|| {
                        let _last = Last(|| got = work());
                        unwind()
                    });
                });
                unwind()
            });
            got
        }
        Panicked => {
            let _ = guarded(unwind);
            work()
        }
        Ending => {
            // in the destructor of a variable of the thread
            struct End(Option<Box<dyn FnOnce()>>);
            impl Drop for End {
                fn drop(&mut self) {
                    if let Some(f) = self.0.take() {
                        f()
                    }
                }
            }
            thread_local! {
                static END: std::cell::RefCell<End> = const { std::cell::RefCell::new(End(None)) };
            }
            let (tx, rx) = std::sync::mpsc::channel();
            // the thread is waited for below
            let work: Work<'static> = unsafe { std::mem::transmute(work) };
            let t = std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
                END.with(|e| e.borrow_mut().0 = Some(Box::new(move || drop(tx.send(work())))));
            });
            drop(t.ok()?.join());
            rx.recv().ok()?
        }
        AtExit => {
            static mut DO: Option<(Work<'static>, &'static Mailbox)> = None;
            extern "C" fn last() {
                unsafe {
                    let d = std::ptr::addr_of!(DO);
                    if let Some((work, m)) = &*d {
                        m.say(&guarded(*work).unwrap_or_else(|e| e.into_bytes()));
                        _exit(0)
                    }
                }
            }
            unsafe {
                DO = Some((std::mem::transmute::<Work, Work<'static>>(work), std::mem::transmute::<&Mailbox, &'static Mailbox>(m)));
                atexit(last);
            }
            std::process::exit(0)
        }
        Crowd(n) => {
            let stop = std::sync::Barrier::new(n + 1);
            std::thread::scope(|s| {
                let mut up = 0;
                for _ in 0..n {
                    up += std::thread::Builder::new().stack_size(64 << 10).spawn_scoped(s, || drop(stop.wait())).is_ok() as usize;
                }
                if up < n {
                    // cannot be ended but with the process
                    m.say(&[]);
                    unsafe { _exit(0) }
                }
                let got = guarded(work);
                stop.wait();
                got.unwrap_or_else(|e| e.into_bytes())
            })
        }
        Heap(n) => {
            let mut held = vec![];
            if n > 0 {
                held.push(vec![1u8; n].into_boxed_slice());
            } else {
                held.extend((0..1_000_000usize).map(|k| vec![1u8; k % 40].into_boxed_slice()));
            }
            let got = work();
            drop(held);
            got
        }
        Forked(n) => {
            let inner = Mailbox::new();
            let r = inner.forked(|| there(if n > 1 { Forked(n - 1) } else { Plain }, work, &inner).unwrap_or_default());
            r.unwrap_or_else(|e| e.into_bytes())
        }
        ThreadsBefore(n) => {
            for _ in 0..n {
                let _ = std::thread::Builder::new().stack_size(64 << 10).spawn(|| ()).ok()?.join();
            }
            work()
        }
        _ => work(),
    })
}
extern "C" {
    fn _exit(c: i32) -> !;
}

/// How many cases of a section stand for it; the long ones not at all.
fn few(id: &str, name: &str) -> u64 {
    let of = |name| LONG.iter().find(|l| l.0 == id && l.1 == name).map(|l| l.2);
    of(name).or(of("")).unwrap_or(100)
}
const LONG: &[(&str, &str, u64)] = &[
    ("C03", "two operations in turn, more than 65,536 times", 6),
    ("C04", "every transfer in pieces and interrupted again and again", 12),
    ("C04", "", 30),
    ("C16", "", 20),
    ("C33", "", 30),
    ("C05", "histories, faults and crashes", 6),
    ("C14", "100 tags", 0),
    ("C16", "66,000 opens of one file", 0),
    ("C28", "long user data, copied in every way", 6),
    ("C30", "very many contexts", 4),
];
/// Spread over the section, whatever the periods of its digits.
fn stand_ins(id: &str, s: &Section) -> Vec<u64> {
    let k = few(id, s.name);
    if s.n <= k {
        return (0..s.n).collect();
    }
    let mut v: Vec<u64> = (0..k).map(|j| ((j as u128 * s.n as u128 / k as u128) as u64 + j * j * 37) % s.n).chain([0, s.n - 1]).collect();
    if k == 0 {
        v.clear();
    }
    v.sort();
    v.dedup();
    v
}
pub fn section(of: Check) -> Section {
    let of = Arc::new(of);
    let cases: Vec<(usize, u64)> = of.sections.iter().enumerate().flat_map(|(k, s)| stand_ins(of.id, s).into_iter().map(move |i| (k, i))).collect();
    Section::new(
        "parts of all sections in every place",
        ALL.len() as u64,
        move |i, w| {
            let m = w.take("places mailbox", |_| Mailbox::new());
            let dir = w.dir.join("place");
            std::fs::create_dir_all(&dir).expect("scratch directory");
            let (of, cases) = (&of, &cases);
            let work = || {
                unsafe { alarm(90) };
                let mut w = W::new(0, dir.clone(), None);
                for (k, i) in cases {
                    let s = &of.sections[*k];
                    match guarded(|| (s.run)(*i, &mut w)) {
                        Ok(Ok(())) => {}
                        Ok(Err(e)) | Err(e) => return format!("{} ({}): {e}", s.name, (s.show)(*i)).into_bytes(),
                    }
                }
                b"\0held".to_vec()
            };
            w.beat();
            let r = m.forked(|| there(ALL[i as usize].1, &work, &m).unwrap_or_default());
            w.put("places mailbox", m);
            w.transitions += cases.len() as u64;
            w.traces += 1;
            let e = r?;
            w.obs(&e);
            if e.is_empty() {
                return Ok(());
            }
            w.nt();
            if e == b"\0held" {
                Ok(())
            } else {
                Err(String::from_utf8_lossy(&e).into_owned())
            }
        },
        |i| ALL[i as usize].0.into(),
    )
}
