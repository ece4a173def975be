//! The file-system boundary under test control. The executable defines the libc entry points that
//! std and memmap use, so every file-system operation of the code under test passes through here.
//! Only files below the tracked prefix (a scratch directory of the check) are observed or disturbed.
#![allow(static_mut_refs)]
use libc::{c_char, c_int, c_void, mode_t, off64_t, size_t, ssize_t};
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Op {
    OpenRead,
    OpenWrite,
    Write,
    Seek,
    Mkdir,
    Mmap,
    Truncate,
    Rename,
    Unlink,
    Sync,
    /// only when asked for (`start_with_stats`)
    Stat,
}
impl Op {
    pub fn mutating(self) -> bool {
        match self {
            Op::OpenWrite | Op::Write | Op::Mkdir | Op::Truncate | Op::Rename | Op::Unlink => true,
            _ => false,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mode {
    /// Only record.
    Watch,
    /// The process dies at operation `at`: before it, after it, or after its first n bytes.
    CrashBefore { at: usize },
    CrashAfter { at: usize },
    CrashPartial { at: usize, n: usize },
    /// Operation `at` fails; `partial` bytes of a write are stored first; all later ones fail too if `stick`.
    Fail { at: usize, errno: i32, partial: usize, stick: bool },
    /// Benign disturbances: interrupted calls and short writes, chosen from the seed.
    Benign { seed: u64, eintr: bool, short: bool },
    /// Large writes: store only non-zero pages (files become sparse), so that totals beyond 4 GiB are cheap.
    Sparse,
}

/// Operations since `start` by kind, and bytes handed to write calls.
#[derive(Clone, Copy, Debug, Default)]
pub struct Totals {
    pub ops: [usize; 11],
    pub written: u64,
}
impl Totals {
    pub fn writes(&self) -> usize {
        self.ops[Op::Write as usize]
    }
    pub fn others(&self) -> usize {
        self.ops.iter().sum::<usize>() - self.writes()
    }
}

struct State {
    totals: Totals,
    prefix: Vec<u8>,
    mode: Mode,
    next: usize,
    log: Vec<(Op, usize)>,
    /// number of injected disturbances, and of those that failed a write or the opening of a file to write
    hits: usize,
    write_hits: usize,
    fds: [bool; 4096],
    pending: i32,
    rng: u64,
    last_eintr: bool,
}
static ON: AtomicBool = AtomicBool::new(false);
static STATS: AtomicBool = AtomicBool::new(false);
static mut ST: State = State {
    totals: Totals { ops: [0; 11], written: 0 },
    prefix: Vec::new(),
    mode: Mode::Watch,
    next: 0,
    log: Vec::new(),
    hits: 0,
    write_hits: 0,
    fds: [false; 4096],
    pending: 0,
    rng: 0,
    last_eintr: false,
};

#[derive(Debug, Default, Clone)]
pub struct Record {
    pub log: Vec<(Op, usize)>,
    pub hits: usize,
}

/// Starts observing/disturbing operations below `prefix`.
pub fn start(prefix: &std::path::Path, mode: Mode) {
    unsafe {
        ST.prefix = prefix.to_str().unwrap().as_bytes().to_vec();
        ST.mode = mode;
        ST.next = 0;
        ST.totals = Totals::default();
        ST.log = Vec::with_capacity(1 << 14);
        ST.hits = 0;
        ST.write_hits = 0;
        ST.pending = 0;
        ST.last_eintr = false;
        ST.rng = match mode {
            Mode::Benign { seed, .. } => seed,
            _ => 1,
        };
    }
    ON.store(true, SeqCst);
}
/// The same, also counting and disturbing queries about files.
pub fn start_with_stats(prefix: &std::path::Path, mode: Mode) {
    start(prefix, mode);
    STATS.store(true, SeqCst);
}
pub fn stop() -> Record {
    ON.store(false, SeqCst);
    STATS.store(false, SeqCst);
    unsafe { Record { log: std::mem::replace(&mut ST.log, Vec::new()), hits: ST.hits } }
}
pub fn hits() -> usize {
    unsafe { ST.hits }
}
pub fn write_hits() -> usize {
    unsafe { ST.write_hits }
}
pub fn totals() -> Totals {
    unsafe { ST.totals }
}
pub fn ops() -> usize {
    unsafe { ST.next }
}
pub fn pause() -> bool {
    ON.swap(false, SeqCst)
}
pub fn resume(on: bool) {
    ON.store(on, SeqCst)
}

/// Called before every operation, with observation switched off.
static mut HOOK: Option<Box<dyn FnMut()>> = None;
pub fn hook(f: Option<Box<dyn FnMut()>>) {
    let old = unsafe { std::mem::replace(&mut HOOK, f) };
    drop(old);
}

enum Act {
    Go,
    Err(i32),
    Short(usize),
    DieAfter,
    ShortDie(usize),
}

pub const CRASH_CODE: c_int = 77;

unsafe fn die() -> ! {
    libc::_exit(CRASH_CODE)
}

/// Paths of the operations that failed, recorded only when asked for (`start_with_names`).
static NAMES: AtomicBool = AtomicBool::new(false);
static mut CUR: Vec<u8> = Vec::new();
static mut FD_PATHS: Vec<(c_int, Vec<u8>)> = Vec::new();
static mut FAILED: Vec<(Op, Vec<u8>)> = Vec::new();
/// As `start_with_stats`, also recording which paths the failed operations were about.
pub fn start_with_names(prefix: &std::path::Path, mode: Mode) {
    unsafe {
        CUR.clear();
        FD_PATHS.clear();
        FAILED.clear();
    }
    NAMES.store(true, SeqCst);
    start_with_stats(prefix, mode);
}
pub fn failed() -> Vec<(Op, String)> {
    NAMES.store(false, SeqCst);
    unsafe { FAILED.drain(..).map(|(o, p)| (o, String::from_utf8_lossy(&p).into_owned())).collect() }
}
unsafe fn about_path(p: *const c_char) {
    if NAMES.load(SeqCst) && !p.is_null() {
        CUR = std::ffi::CStr::from_ptr(p).to_bytes().to_vec();
    }
}
unsafe fn about_fd(fd: c_int) {
    if NAMES.load(SeqCst) {
        CUR = FD_PATHS.iter().rev().find(|x| x.0 == fd).map(|x| x.1.clone()).unwrap_or_default();
    }
}
unsafe fn decide(op: Op, len: usize) -> Act {
    let a = decide_only(op, len);
    if let Act::Err(_) = a {
        if NAMES.load(SeqCst) {
            FAILED.push((op, CUR.clone()));
        }
    }
    a
}
unsafe fn decide_only(op: Op, len: usize) -> Act {
    if let Some(mut h) = HOOK.take() {
        let on = pause();
        h();
        resume(on);
        HOOK = Some(h);
    }
    let k = ST.next;
    ST.next += 1;
    ST.totals.ops[op as usize] += 1;
    ST.totals.written += len as u64;
    if ST.log.len() < ST.log.capacity() {
        ST.log.push((op, len));
    }
    match ST.mode {
        Mode::Watch | Mode::Sparse => Act::Go,
        Mode::CrashBefore { at } if at == k => die(),
        Mode::CrashAfter { at } if at == k => Act::DieAfter,
        Mode::CrashPartial { at, n } if at == k => {
            if op == Op::Write && n < len {
                Act::ShortDie(n)
            } else {
                Act::DieAfter
            }
        }
        Mode::Fail { at, errno, partial, stick } => {
            if ST.pending != 0 {
                if !stick {
                    ST.pending = 0;
                }
                ST.hits += 1;
                if op == Op::Write || op == Op::OpenWrite {
                    ST.write_hits += 1;
                }
                return Act::Err(errno);
            }
            if k == at {
                if op == Op::Write && partial > 0 && partial < len {
                    ST.pending = errno;
                    return Act::Short(partial);
                }
                if stick {
                    ST.pending = errno;
                }
                ST.hits += 1;
                if op == Op::Write || op == Op::OpenWrite {
                    ST.write_hits += 1;
                }
                return Act::Err(errno);
            }
            Act::Go
        }
        Mode::Benign { eintr, short, .. } => {
            ST.rng = ST.rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let r = ST.rng >> 33;
            if eintr && !ST.last_eintr && (op == Op::Write || op == Op::OpenRead || op == Op::OpenWrite) && r % 3 == 0 {
                ST.last_eintr = r % 2 == 0;
                ST.hits += 1;
                return Act::Err(libc::EINTR);
            }
            ST.last_eintr = false;
            if short && op == Op::Write && len > 1 && r % 5 < 3 {
                ST.hits += 1;
                let n = if len > 1 << 16 { len / 2 + 1 } else { 1 + (r as usize / 7) % (len - 1) };
                return Act::Short(n);
            }
            Act::Go
        }
        _ => Act::Go,
    }
}

unsafe fn set_errno(e: i32) {
    *libc::__errno_location() = e;
}

unsafe fn simple(op: Op, f: impl FnOnce() -> i64) -> i64 {
    match decide(op, 0) {
        Act::Err(e) => {
            set_errno(e);
            -1
        }
        Act::DieAfter | Act::ShortDie(_) => {
            f();
            die()
        }
        _ => f(),
    }
}

unsafe fn tracked_path(p: *const c_char) -> bool {
    if !ON.load(SeqCst) || p.is_null() {
        return false;
    }
    let pre = &ST.prefix;
    for (i, b) in pre.iter().enumerate() {
        if *(p.add(i)) as u8 != *b {
            return false;
        }
    }
    true
}
unsafe fn tracked_fd(fd: c_int) -> bool {
    ON.load(SeqCst) && fd >= 0 && (fd as usize) < 4096 && ST.fds[fd as usize]
}

unsafe fn do_open(dirfd: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    let raw = || libc::syscall(libc::SYS_openat, dirfd, path, flags, mode as libc::c_uint) as i64;
    if dirfd != libc::AT_FDCWD || !tracked_path(path) {
        return raw() as c_int;
    }
    let op = if flags & libc::O_ACCMODE == libc::O_RDONLY && flags & (libc::O_CREAT | libc::O_TRUNC) == 0 { Op::OpenRead } else { Op::OpenWrite };
    about_path(path);
    let fd = simple(op, raw) as c_int;
    if fd >= 0 && NAMES.load(SeqCst) {
        FD_PATHS.push((fd, CUR.clone()));
    }
    if fd >= 0 && (fd as usize) < 4096 {
        ST.fds[fd as usize] = true;
    }
    fd
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(d, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if fd >= 0 && (fd as usize) < 4096 {
        ST.fds[fd as usize] = false;
    }
    libc::syscall(libc::SYS_close, fd) as c_int
}

unsafe fn sparse(fd: c_int, buf: *const u8, n: usize) -> ssize_t {
    // current position
    let pos = libc::syscall(libc::SYS_lseek, fd, 0i64, libc::SEEK_CUR);
    let data = std::slice::from_raw_parts(buf, n);
    let mut o = 0;
    while o < n {
        let page = (4096 - ((pos as usize + o) % 4096)).min(n - o);
        let p = &data[o..o + page];
        if p.iter().any(|b| *b != 0) {
            let r = libc::syscall(libc::SYS_pwrite64, fd, p.as_ptr(), p.len(), pos + o as i64);
            if r != p.len() as i64 {
                return -1;
            }
        }
        o += page;
    }
    let end = pos + n as i64;
    // extend the file when its end was a hole
    let mut st: libc::stat = std::mem::zeroed();
    libc::syscall(libc::SYS_fstat, fd, &mut st as *mut libc::stat);
    if st.st_size < end {
        libc::syscall(libc::SYS_ftruncate, fd, end);
    }
    libc::syscall(libc::SYS_lseek, fd, end, libc::SEEK_SET);
    n as ssize_t
}

unsafe fn do_write(fd: c_int, n: usize, raw: impl FnOnce(usize) -> i64) -> i64 {
    about_fd(fd);
    match decide(Op::Write, n) {
        Act::Go => raw(n),
        Act::Err(e) => {
            set_errno(e);
            -1
        }
        Act::Short(k) => raw(k),
        Act::DieAfter => {
            raw(n);
            die()
        }
        Act::ShortDie(k) => {
            if k > 0 {
                raw(k);
            }
            let _ = fd;
            die()
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if !tracked_fd(fd) {
        return libc::syscall(libc::SYS_write, fd, buf, n) as ssize_t;
    }
    if ST.mode == Mode::Sparse && n >= 4096 {
        decide(Op::Write, n);
        return sparse(fd, buf as *const u8, n);
    }
    do_write(fd, n, |k| libc::syscall(libc::SYS_write, fd, buf, k) as i64) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    if !tracked_fd(fd) {
        return libc::syscall(libc::SYS_pwrite64, fd, buf, n, off) as ssize_t;
    }
    do_write(fd, n, |k| libc::syscall(libc::SYS_pwrite64, fd, buf, k, off) as i64) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    if !tracked_fd(fd) {
        return libc::syscall(libc::SYS_writev, fd, iov, cnt) as ssize_t;
    }
    let v = std::slice::from_raw_parts(iov, cnt as usize);
    let total: usize = v.iter().map(|x| x.iov_len).sum();
    do_write(fd, total, |k| {
        if k == total {
            return libc::syscall(libc::SYS_writev, fd, iov, cnt) as i64;
        }
        let mut left = k;
        let mut done = 0i64;
        for x in v {
            let m = left.min(x.iov_len);
            if m == 0 {
                break;
            }
            let r = libc::syscall(libc::SYS_write, fd, x.iov_base, m) as i64;
            if r < 0 {
                return r;
            }
            done += r;
            left -= m;
        }
        done
    }) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    let raw = || libc::syscall(libc::SYS_lseek, fd, off, whence) as i64;
    if !tracked_fd(fd) {
        return raw();
    }
    about_fd(fd);
    simple(Op::Seek, raw)
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: mode_t) -> c_int {
    let raw = || libc::syscall(libc::SYS_mkdir, path, mode as libc::c_uint) as i64;
    if !tracked_path(path) {
        return raw() as c_int;
    }
    about_path(path);
    simple(Op::Mkdir, raw) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    let raw = || libc::syscall(libc::SYS_ftruncate, fd, len) as i64;
    if !tracked_fd(fd) {
        return raw() as c_int;
    }
    about_fd(fd);
    simple(Op::Truncate, raw) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    let raw = || libc::syscall(libc::SYS_fsync, fd) as i64;
    if !tracked_fd(fd) {
        return raw() as c_int;
    }
    about_fd(fd);
    simple(Op::Sync, raw) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    let raw = || libc::syscall(libc::SYS_fdatasync, fd) as i64;
    if !tracked_fd(fd) {
        return raw() as c_int;
    }
    about_fd(fd);
    simple(Op::Sync, raw) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    let raw = || libc::syscall(libc::SYS_rename, a, b) as i64;
    if !tracked_path(a) && !tracked_path(b) {
        return raw() as c_int;
    }
    about_path(a);
    simple(Op::Rename, raw) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    let raw = || libc::syscall(libc::SYS_unlink, a) as i64;
    if !tracked_path(a) {
        return raw() as c_int;
    }
    about_path(a);
    simple(Op::Unlink, raw) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(a: *const c_char) -> c_int {
    let raw = || libc::syscall(libc::SYS_rmdir, a) as i64;
    if !tracked_path(a) {
        return raw() as c_int;
    }
    about_path(a);
    simple(Op::Unlink, raw) as c_int
}
unsafe fn tracked_stat(d: c_int, path: *const c_char) -> bool {
    STATS.load(SeqCst) && ON.load(SeqCst) && (tracked_path(path) || (!path.is_null() && *path == 0 && tracked_fd(d)))
}
#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, path: *const c_char, flags: c_int, mask: libc::c_uint, buf: *mut c_void) -> c_int {
    let raw = || libc::syscall(libc::SYS_statx, d, path, flags, mask, buf) as i64;
    if !tracked_stat(d, path) {
        return raw() as c_int;
    }
    if *path == 0 {
        about_fd(d);
    } else {
        about_path(path);
    }
    simple(Op::Stat, raw) as c_int
}
unsafe fn do_mmap(addr: *mut c_void, len: size_t, prot: c_int, flags: c_int, fd: c_int, off: off64_t) -> *mut c_void {
    let raw = || libc::syscall(libc::SYS_mmap, addr, len, prot, flags, fd, off) as i64;
    if fd < 0 || !tracked_fd(fd) {
        return raw() as *mut c_void;
    }
    about_fd(fd);
    simple(Op::Mmap, raw) as *mut c_void
}
#[no_mangle]
pub unsafe extern "C" fn mmap(addr: *mut c_void, len: size_t, prot: c_int, flags: c_int, fd: c_int, off: off64_t) -> *mut c_void {
    do_mmap(addr, len, prot, flags, fd, off)
}
#[no_mangle]
pub unsafe extern "C" fn mmap64(addr: *mut c_void, len: size_t, prot: c_int, flags: c_int, fd: c_int, off: off64_t) -> *mut c_void {
    do_mmap(addr, len, prot, flags, fd, off)
}
