//! The libc entry points that std uses, owned by the harness. They pass through (raw system calls)
//! unless the current thread has installed a hook, which then decides the answer of each call.
use std::cell::Cell;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind {
    Open,
    Read,
    Write,
    Seek,
    Sync,
    Close,
    Trunc,
    Stat,
    Dup,
}

#[derive(Clone, Copy, Debug)]
pub struct Call {
    pub kind: Kind,
    pub fd: i32,
    pub len: usize,
    pub buf: *const u8,
    /// path of an open
    pub path: *const u8,
    pub flags: i32,
    pub off: i64,
    pub whence: i32,
    /// explicit offset (pread, pwrite)
    pub at: bool,
}

pub enum Act {
    Pass,
    /// perform with this length only
    Short(usize),
    Err(i32),
    /// return this value without doing anything
    Ret(i64),
    /// perform, but report this error (close)
    PassErr(i32),
}

pub trait Hook {
    fn call(&mut self, c: &Call) -> Act;
    fn done(&mut self, _c: &Call, _ret: i64) {}
}

thread_local! {
    static HOOK: Cell<Option<*mut dyn Hook>> = const { Cell::new(None) };
}

extern "C" {
    fn __errno_location() -> *mut i32;
}

pub const EINTR: i32 = 4;
pub const EAGAIN: i32 = 11;
pub const EIO: i32 = 5;
pub const ENOENT: i32 = 2;
pub const EACCES: i32 = 13;
pub const EMFILE: i32 = 24;
pub const ENOSPC: i32 = 28;
pub const EINVAL: i32 = 22;

/// Runs `f` with `hook` deciding this thread's file system calls.
pub fn with_hook<H: Hook + 'static, T>(hook: &mut H, f: impl FnOnce() -> T) -> T {
    struct Off(Option<*mut dyn Hook>);
    impl Drop for Off {
        fn drop(&mut self) {
            HOOK.with(|h| h.set(self.0));
        }
    }
    let p: *mut dyn Hook = hook;
    let old = HOOK.with(|h| h.replace(Some(p)));
    let _off = Off(old);
    f()
}
/// Runs `f` with no hook (harness's own file accesses inside a hooked region).
pub fn unhooked<T>(f: impl FnOnce() -> T) -> T {
    struct Off(Option<*mut dyn Hook>);
    impl Drop for Off {
        fn drop(&mut self) {
            HOOK.with(|h| h.set(self.0));
        }
    }
    let _off = Off(HOOK.with(|h| h.take()));
    f()
}

#[inline]
unsafe fn raw6(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
unsafe fn fix(r: isize) -> isize {
    if (-4095..0).contains(&r) {
        *__errno_location() = (-r) as i32;
        -1
    } else {
        r
    }
}

/// Called before every file system call of a scheduled thread; see sched.rs.
pub static mut POINT: Option<unsafe fn()> = None;

unsafe fn run(mut c: Call, real: impl Fn(&Call) -> isize) -> isize {
    if let Some(p) = POINT {
        p();
    }
    let Some(h) = HOOK.try_with(|h| h.take()).ok().flatten() else {
        return fix(real(&c));
    };
    let act = (*h).call(&c);
    let r = match act {
        Act::Pass => real(&c),
        Act::Short(n) => {
            c.len = n;
            real(&c)
        }
        Act::Err(e) => -(e as isize),
        Act::Ret(v) => v as isize,
        Act::PassErr(e) => {
            let r = real(&c);
            (*h).done(&c, r as i64);
            HOOK.with(|x| x.set(Some(h)));
            return fix(if r < 0 { r } else { -(e as isize) });
        }
    };
    (*h).done(&c, r as i64);
    HOOK.with(|x| x.set(Some(h)));
    fix(r)
}

fn base(kind: Kind, fd: i32) -> Call {
    Call {
        kind,
        fd,
        len: 0,
        buf: std::ptr::null(),
        path: std::ptr::null(),
        flags: 0,
        off: 0,
        whence: 0,
        at: false,
    }
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const u8, flags: i32, mode: u32) -> i32 {
    let mut c = base(Kind::Open, -1);
    c.path = path;
    c.flags = flags;
    run(c, |c| {
        raw6(257, -100i64 as usize, c.path as usize, flags as usize, mode as usize, 0, 0)
    }) as i32
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, buf: *mut u8, n: usize) -> isize {
    let mut c = base(Kind::Read, fd);
    c.len = n;
    c.buf = buf;
    run(c, |c| raw6(0, fd as usize, buf as usize, c.len, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: i32, buf: *mut u8, n: usize, off: i64) -> isize {
    let mut c = base(Kind::Read, fd);
    c.len = n;
    c.buf = buf;
    c.at = true;
    c.off = off;
    run(c, |c| raw6(17, fd as usize, buf as usize, c.len, off as usize, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, buf: *const u8, n: usize) -> isize {
    let mut c = base(Kind::Write, fd);
    c.len = n;
    c.buf = buf;
    run(c, |c| raw6(1, fd as usize, buf as usize, c.len, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: i32, buf: *const u8, n: usize, off: i64) -> isize {
    let mut c = base(Kind::Write, fd);
    c.len = n;
    c.buf = buf;
    c.at = true;
    c.off = off;
    run(c, |c| raw6(18, fd as usize, buf as usize, c.len, off as usize, 0, 0))
}
#[repr(C)]
struct IoVec {
    p: *mut u8,
    n: usize,
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: i32, v: *const u8, n: i32) -> isize {
    let v = v as *const IoVec;
    for i in 0..n as usize {
        if (*v.add(i)).n > 0 {
            return read(fd, (*v.add(i)).p, (*v.add(i)).n);
        }
    }
    read(fd, std::ptr::null_mut(), 0)
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, v: *const u8, n: i32) -> isize {
    let v = v as *const IoVec;
    for i in 0..n as usize {
        if (*v.add(i)).n > 0 {
            return write(fd, (*v.add(i)).p, (*v.add(i)).n);
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: i32, off: i64, whence: i32) -> i64 {
    let mut c = base(Kind::Seek, fd);
    c.off = off;
    c.whence = whence;
    run(c, |_| raw6(8, fd as usize, off as usize, whence as usize, 0, 0, 0)) as i64
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: i32, off: i64, whence: i32) -> i64 {
    lseek64(fd, off, whence)
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: i32) -> i32 {
    run(base(Kind::Sync, fd), |_| raw6(74, fd as usize, 0, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: i32) -> i32 {
    run(base(Kind::Sync, fd), |_| raw6(75, fd as usize, 0, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: i32, n: i64) -> i32 {
    let mut c = base(Kind::Trunc, fd);
    c.off = n;
    run(c, |_| raw6(77, fd as usize, n as usize, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    run(base(Kind::Close, fd), |_| raw6(3, fd as usize, 0, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: i32, cmd: i32, arg: usize) -> i32 {
    if cmd == 0 || cmd == 1030 {
        return run(base(Kind::Dup, fd), |_| raw6(72, fd as usize, cmd as usize, arg, 0, 0, 0)) as i32;
    }
    fix(raw6(72, fd as usize, cmd as usize, arg, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: i32, cmd: i32, arg: usize) -> i32 {
    fcntl(fd, cmd, arg)
}
/// Straight to the kernel, whatever hook is installed.
pub fn raw_lseek(fd: i32, off: i64, whence: i32) -> i64 {
    unsafe { raw6(8, fd as usize, off as usize, whence as usize, 0, 0, 0) as i64 }
}
pub fn raw_size(fd: i32) -> i64 {
    let mut st = [0u64; 32];
    let r = unsafe { raw6(5, fd as usize, st.as_mut_ptr() as usize, 0, 0, 0, 0) };
    if r < 0 {
        -1
    } else {
        st[6] as i64
    }
}
/// Inode number behind a descriptor.
pub fn raw_inode(fd: i32) -> u64 {
    let mut st = [0u64; 32];
    let r = unsafe { raw6(5, fd as usize, st.as_mut_ptr() as usize, 0, 0, 0, 0) };
    if r < 0 {
        0
    } else {
        st[1]
    }
}

#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: i32, st: *mut u8) -> i32 {
    run(base(Kind::Stat, fd), |_| raw6(5, fd as usize, st as usize, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn statx(fd: i32, path: *const u8, flags: i32, mask: u32, st: *mut u8) -> i32 {
    let mut c = base(Kind::Stat, fd);
    c.path = path;
    run(c, |_| {
        raw6(332, fd as usize, path as usize, flags as usize, mask as usize, st as usize, 0)
    }) as i32
}

/// Futex calls of scheduled threads; see sched.rs.
pub static mut FUTEX: Option<unsafe fn(usize, usize, usize, usize, usize, usize) -> Option<isize>> = None;

#[no_mangle]
pub unsafe extern "C" fn syscall(
    n: usize,
    a: usize,
    b: usize,
    c: usize,
    d: usize,
    e: usize,
    f: usize,
) -> isize {
    if n == 202 {
        if let Some(h) = FUTEX {
            if let Some(r) = h(a, b, c, d, e, f) {
                return fix(r);
            }
        }
    }
    fix(raw6(n, a, b, c, d, e, f))
}

// Waiting by the clock: a scheduled thread lets the others run instead.
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const u8, rem: *mut u8) -> i32 {
    clock_nanosleep(1, 0, req, rem);
    0
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clock: i32, flags: i32, req: *const u8, rem: *mut u8) -> i32 {
    if let Some(y) = YIELD {
        if y() {
            return 0;
        }
    }
    -raw6(230, clock as usize, flags as usize, req as usize, rem as usize, 0, 0) as i32
}
pub static mut YIELD: Option<unsafe fn() -> bool> = None;
/// File locks: a scheduled thread tries and lets the others run until it succeeds.
#[no_mangle]
pub unsafe extern "C" fn flock(fd: i32, op: i32) -> i32 {
    if let Some(p) = POINT {
        p();
    }
    if op & 4 == 0 {
        if let Some(y) = YIELD {
            loop {
                let r = raw6(73, fd as usize, (op | 4) as usize, 0, 0, 0, 0);
                if r != -11 || !y() {
                    return fix(r) as i32;
                }
            }
        }
    }
    fix(raw6(73, fd as usize, op as usize, 0, 0, 0, 0)) as i32
}

thread_local! {
    /// The time of day this thread is told, in seconds and nanoseconds.
    static NOW: Cell<Option<(i64, i64)>> = const { Cell::new(None) };
}
/// Runs `f` at that time.
pub fn at_time<T>(now: (i64, i64), f: impl FnOnce() -> T) -> T {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            NOW.set(None);
        }
    }
    NOW.set(Some(now));
    let _off = Off;
    f()
}
/// Seconds added to the time of day.
pub static CLOCK: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: i32, at: *mut i64) -> i32 {
    let r = raw6(228, clock as usize, at as usize, 0, 0, 0, 0);
    let by = CLOCK.load(std::sync::atomic::Ordering::Relaxed);
    if let (true, Some((s, ns))) = (clock == 0 || clock == 5, NOW.try_with(|n| n.get()).ok().flatten()) {
        *at = s;
        *at.add(1) = ns;
        return 0;
    }
    // the time since the start cannot be less than none
    if r == 0 && (clock == 0 || clock == 5 || by > 0) {
        *at += by;
    }
    fix(r) as i32
}

/// What every environment variable not set is said to be: 0 not set, else a text of ENVS.
pub static ENV: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
pub const ENVS: [&str; 4] = ["", "1\0", "\0", "/nonexistent/x\0"];
extern "C" {
    static environ: *const *const u8;
}
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const u8) -> *const u8 {
    let n = std::ffi::CStr::from_ptr(name as *const _).to_bytes();
    let mut e = environ;
    while !e.is_null() && !(*e).is_null() {
        let v = std::ffi::CStr::from_ptr(*e as *const _).to_bytes();
        if v.len() > n.len() && v.starts_with(n) && v[n.len()] == b'=' {
            return (*e).add(n.len() + 1);
        }
        e = e.add(1);
    }
    match ENV.load(std::sync::atomic::Ordering::Relaxed) {
        0 => std::ptr::null(),
        k => ENVS[k].as_ptr(),
    }
}

// What the process is told about itself; -1 and 0: the truth.
use std::sync::atomic::{AtomicI32, Ordering::Relaxed};
pub static PID: AtomicI32 = AtomicI32::new(-1);
pub static PPID: AtomicI32 = AtomicI32::new(-1);
pub static TTY: AtomicI32 = AtomicI32::new(-1);
/// what random bytes are: -1 random
pub static RANDOM: AtomicI32 = AtomicI32::new(-1);
#[no_mangle]
pub unsafe extern "C" fn getpid() -> i32 {
    match PID.load(Relaxed) {
        -1 => raw6(39, 0, 0, 0, 0, 0, 0) as i32,
        p => p,
    }
}
#[no_mangle]
pub unsafe extern "C" fn getppid() -> i32 {
    match PPID.load(Relaxed) {
        -1 => raw6(110, 0, 0, 0, 0, 0, 0) as i32,
        p => p,
    }
}
#[no_mangle]
pub unsafe extern "C" fn isatty(fd: i32) -> i32 {
    match TTY.load(Relaxed) {
        -1 => {
            let mut t = [0u8; 64];
            (fix(raw6(16, fd as usize, 0x5401, t.as_mut_ptr() as usize, 0, 0, 0)) == 0) as i32
        }
        t => t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, n: usize, flags: u32) -> isize {
    match RANDOM.load(Relaxed) {
        -1 => fix(raw6(318, buf as usize, n, flags as usize, 0, 0, 0)),
        b => {
            std::ptr::write_bytes(buf, b as u8, n);
            n as isize
        }
    }
}
/// The process's argument list, as the C runtime hands it to std too.
static mut ARGV: *mut *const u8 = std::ptr::null_mut();
unsafe extern "C" fn keep_args(_: i32, v: *mut *const u8, _: *const *const u8) {
    ARGV = v;
}
#[used]
#[link_section = ".init_array"]
static KEEP: unsafe extern "C" fn(i32, *mut *const u8, *const *const u8) = keep_args;
/// Replaces the name the process was started by.
pub fn started_as(name: &'static std::ffi::CStr) {
    unsafe {
        if !ARGV.is_null() && !(*ARGV).is_null() {
            *ARGV = name.as_ptr() as *const u8;
        }
    }
}
