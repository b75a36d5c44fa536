//! The file system of the simulated processes: a scratch directory of the real one, behind libc symbols that the program
//! defines itself. Every file operation under the scratch root is a scheduling point and a place where a fault may strike;
//! what the operation does is left to the kernel. Paths outside the root are not touched.
#![allow(clippy::missing_safety_doc)]
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicUsize, Ordering};

use crate::core::{self, proc_id, sim, Fault, Sim};
use crate::os::{raw6, real, ret, set_errno, RawMutex, SIMCLOCK};

#[derive(Clone)]
struct Open {
    path: String,
    proc: u32,
    reads: u32,
    flock: bool,
}
struct List {
    path: String,
    ents: Vec<Box<libc::dirent64>>,
    next: usize,
    read: bool,
}
struct Fs {
    root: String,
    fds: HashMap<c_int, Open>,
    dirs: HashMap<usize, List>,
}
static FS: RawMutex<Option<Fs>> = RawMutex::new(None);
static ON: AtomicBool = AtomicBool::new(false);
static BASE: std::sync::OnceLock<PathBuf> = std::sync::OnceLock::new();
/// waiters for any file lock
const FLOCK_KEY: u64 = 2;

// ---------------------------------------------------------------- the scratch root

/// This process's scratch directory; its parent removes it, too.
pub fn base_of(pid: u32) -> PathBuf {
    PathBuf::from(format!("/dev/shm/dst-{pid}"))
}
fn base() -> &'static PathBuf {
    BASE.get_or_init(|| {
        let b = base_of(std::process::id());
        if std::fs::create_dir_all(&b).is_ok() {
            return b;
        }
        let b = PathBuf::from(std::env::var("DST_TMP").expect("DST_TMP")).join("fs");
        std::fs::create_dir_all(&b).expect("scratch directory");
        b
    })
}
/// Remove this process's scratch directory.
pub fn tidy() {
    if let Some(b) = BASE.get() {
        let _ = std::fs::remove_dir_all(b);
    }
}
/// Start with an empty scratch root.
pub fn begin() -> PathBuf {
    end();
    let root = base().join("r");
    let _ = std::fs::remove_dir_all(&root);
    std::fs::create_dir_all(&root).expect("scratch root");
    *FS.lock() = Some(Fs { root: root.to_str().unwrap().to_string(), fds: HashMap::new(), dirs: HashMap::new() });
    ON.store(true, Ordering::SeqCst);
    root
}
pub fn end() {
    ON.store(false, Ordering::SeqCst);
    *FS.lock() = None;
}
/// The text without the name of the scratch root.
pub fn clean(s: &str) -> String {
    match FS.lock().as_ref() {
        Some(f) => s.replace(&f.root, ""),
        None => s.into(),
    }
}
/// The file locks of a process that died.
pub fn proc_died(p: u32) {
    if !ON.load(Ordering::Relaxed) {
        return;
    }
    let mut g = FS.lock();
    let Some(f) = g.as_mut() else { return };
    for (fd, o) in f.fds.iter_mut() {
        if o.proc == p && o.flock {
            o.flock = false;
            unsafe { raw6(libc::SYS_flock, *fd as usize, libc::LOCK_UN as usize, 0, 0, 0, 0) };
        }
    }
}
/// Is this thread's output part of the simulation?
pub fn swallow(fd: c_int) -> bool {
    (fd == 1 || fd == 2) && ON.load(Ordering::Relaxed) && SIMCLOCK.try_with(|c| c.get()).unwrap_or(false)
}

fn mine() -> bool {
    ON.load(Ordering::Relaxed) && SIMCLOCK.try_with(|c| c.get()).unwrap_or(false)
}
unsafe fn scoped(p: *const c_char) -> Option<String> {
    if !mine() || p.is_null() {
        return None;
    }
    let s = CStr::from_ptr(p).to_str().ok()?;
    let g = FS.lock();
    s.strip_prefix(g.as_ref()?.root.as_str()).map(|x| x.to_string())
}
fn of_fd(fd: c_int) -> Option<Open> {
    if !mine() {
        return None;
    }
    FS.lock().as_ref()?.fds.get(&fd).cloned()
}
unsafe fn scoped_at(dir: c_int, p: *const c_char) -> Option<String> {
    if !mine() || p.is_null() {
        return None;
    }
    if *p == b'/' as c_char || dir == libc::AT_FDCWD {
        return scoped(p);
    }
    let d = of_fd(dir)?;
    Some(format!("{}/{}", d.path, CStr::from_ptr(p).to_string_lossy()))
}

// ---------------------------------------------------------------- fault points

enum Do {
    Go,
    /// not done at all
    Err(c_int),
    /// done in part; then this error, or success
    Part(usize),
    /// done in part or whole, then the process dies
    Die(usize),
}
const ALL: usize = usize::MAX;

/// A path without the number that tells temporary files of one process apart: this process counts
/// on through all of the runs it simulates.
fn without_count(path: &str) -> (String, u64) {
    if let Some(stem) = path.strip_suffix(".tmp") {
        let end = stem.trim_end_matches(|c: char| c.is_ascii_digit());
        if end.len() < stem.len() && end.ends_with('-') {
            return (format!("{end}N.tmp"), stem[end.len()..].parse().unwrap_or(0));
        }
    }
    (path.to_string(), 0)
}

fn point(op: &str, path: &str, len: usize, app: &[Fault]) -> Do {
    core::yield_point();
    let path = &without_count(path).0;
    let p = proc_id();
    let d = sim(|s| {
        if s.quiet {
            return Do::Go;
        }
        s.now_us += 15;
        s.stat("fs_ops");
        if s.proc_dead(p) {
            return Do::Err(libc::EIO);
        }
        let f = s.fault_here(app);
        if f.is_none() && s.plan.full_left > 0 && app.contains(&Fault::Full) {
            s.plan.full_left -= 1;
            s.plan.hits += 1;
            s.log(&format!("{op} {path} {len} still full"));
            return Do::Err(libc::ENOSPC);
        }
        let Some(k) = f else {
            s.log(&format!("{op} {path} {len}"));
            return Do::Go;
        };
        s.log(&format!("{op} {path} {len} FAULT {k:?}"));
        let part = |s: &mut Sim| s.fault.below(len as u32 + 1) as usize;
        match k {
            Fault::Kill | Fault::Power => {
                if s.fault.chance(500) {
                    s.kill_proc(p);
                    return Do::Err(libc::EIO);
                }
                let n = if len > 1 && s.fault.chance(600) { part(s) } else { ALL };
                Do::Die(n)
            }
            Fault::Full => {
                s.plan.full_left = s.fault.below(4);
                if len > 1 && s.fault.chance(400) {
                    s.plan.full_left += 1;
                    let n = part(s);
                    if n > 0 {
                        return Do::Part(n);
                    }
                }
                Do::Err(libc::ENOSPC)
            }
            Fault::Torn => Do::Part(1.max(part(s)).min(len)),
            Fault::CantOpen => Do::Err(*s.fault.pick(&[libc::EMFILE, libc::EACCES, libc::EIO])),
            _ => Do::Err(libc::EIO),
        }
    });
    if matches!(d, Do::Err(_)) && sim(|s| s.proc_dead(p)) {
        core::wake_key(FLOCK_KEY);
    }
    d
}
fn die() {
    let p = proc_id();
    sim(|s| s.kill_proc(p));
    core::wake_key(FLOCK_KEY);
}
fn fail(e: c_int) -> isize {
    set_errno(e);
    -1
}
/// An operation that is done whole or not at all.
fn whole(op: &str, path: &str, app: &[Fault], f: impl FnOnce() -> isize) -> isize {
    match point(op, path, 0, app) {
        Do::Go | Do::Part(_) => f(),
        Do::Err(e) => fail(e),
        Do::Die(_) => {
            f();
            die();
            fail(libc::EIO)
        }
    }
}

// ---------------------------------------------------------------- files

unsafe fn open_at(dir: c_int, path: *const c_char, fl: c_int, mode: c_uint) -> c_int {
    let raw = || ret(raw6(libc::SYS_openat, dir as isize as usize, path as usize, fl as usize, mode as usize, 0, 0));
    let Some(p) = scoped_at(dir, path) else { return raw() as c_int };
    use Fault::*;
    let (op, app): (&str, &[Fault]) = if fl & libc::O_CREAT != 0 {
        if fl & libc::O_TRUNC != 0 {
            ("create", &[CantOpen, Full, Eio, Kill])
        } else {
            ("open/create", &[CantOpen, Full, Eio, Kill])
        }
    } else {
        ("open", &[CantOpen, Eio, Kill])
    };
    let got = std::cell::Cell::new(-1);
    let fd = whole(op, &p, app, || {
        got.set(raw());
        got.get()
    }) as c_int;
    if fd < 0 && got.get() >= 0 {
        raw6(libc::SYS_close, got.get() as usize, 0, 0, 0, 0, 0);
        set_errno(libc::EIO);
    }
    if fd >= 0 {
        if let Some(f) = FS.lock().as_mut() {
            f.fds.insert(fd, Open { path: p, proc: proc_id(), reads: 0, flock: false });
        }
    }
    fd
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, fl: c_int, mode: c_uint) -> c_int {
    open_at(libc::AT_FDCWD, path, fl, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: c_int, path: *const c_char, fl: c_int, mode: c_uint) -> c_int {
    open_at(dir, path, fl, mode)
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize {
    let raw = |n: usize| ret(raw6(libc::SYS_read, fd as usize, buf as usize, n, 0, 0, 0));
    let Some(o) = of_fd(fd) else { return raw(n) };
    if n == 1 {
        // reading byte by byte: one of many is a fault point
        if let Some(x) = FS.lock().as_mut().and_then(|f| f.fds.get_mut(&fd)) {
            x.reads += 1;
        }
        if o.reads > 1 && o.reads % 61 != 0 {
            return if sim(|s| s.proc_dead(o.proc)) { fail(libc::EIO) } else { raw(n) };
        }
    }
    match point("read", &o.path, n.min(4096), &[Fault::Eio, Fault::Torn, Fault::Kill]) {
        Do::Go => raw(n),
        Do::Part(k) => raw(k.max(1).min(n)),
        Do::Err(e) => fail(e),
        Do::Die(_) => {
            die();
            fail(libc::EIO)
        }
    }
}
unsafe fn write_buf(fd: c_int, buf: *const c_void, n: usize) -> Option<isize> {
    let o = of_fd(fd)?;
    let raw = |n: usize| ret(raw6(libc::SYS_write, fd as usize, buf as usize, n, 0, 0, 0));
    use Fault::*;
    Some(match point("write", &o.path, n, &[Eio, Full, Torn, Kill]) {
        Do::Go => raw(n),
        Do::Part(k) => {
            let k = k.min(n);
            crate::slog!("only {k}");
            raw(k)
        }
        Do::Err(e) => fail(e),
        Do::Die(k) => {
            let k = k.min(n);
            if k > 0 {
                raw(k);
            }
            die();
            fail(libc::EIO)
        }
    })
}
/// For `os::write`.
pub unsafe fn write(fd: c_int, buf: *const c_void, n: usize) -> Option<isize> {
    if !ON.load(Ordering::Relaxed) {
        return None;
    }
    write_buf(fd, buf, n)
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, n: c_int) -> isize {
    let _poke = crate::os::Poke;
    if swallow(fd) {
        return (0..n as usize).map(|i| (*iov.add(i)).iov_len).sum::<usize>() as isize;
    }
    if of_fd(fd).is_some() {
        for i in 0..n as usize {
            let v = &*iov.add(i);
            if v.iov_len > 0 {
                return write_buf(fd, v.iov_base, v.iov_len).unwrap();
            }
        }
        return 0;
    }
    ret(raw6(libc::SYS_writev, fd as usize, iov as usize, n as usize, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn pread(fd: c_int, buf: *mut c_void, n: usize, off: i64) -> isize {
    let raw = |n: usize| ret(raw6(libc::SYS_pread64, fd as usize, buf as usize, n, off as usize, 0, 0));
    let Some(o) = of_fd(fd) else { return raw(n) };
    match point("read at", &o.path, n, &[Fault::Eio, Fault::Kill]) {
        Do::Go | Do::Part(_) => raw(n),
        Do::Err(e) => fail(e),
        Do::Die(_) => {
            die();
            fail(libc::EIO)
        }
    }
}
unsafe fn write_at(fd: c_int, len: usize, raw: impl Fn(usize) -> isize) -> isize {
    let Some(o) = of_fd(fd) else { return raw(len) };
    use Fault::*;
    match point("write at", &o.path, len, &[Eio, Full, Torn, Kill]) {
        Do::Go => raw(len),
        Do::Part(k) => {
            let k = k.min(len);
            crate::slog!("only {k}");
            raw(k)
        }
        Do::Err(e) => fail(e),
        Do::Die(k) => {
            // Turso does not always find what it wrote after the torn end of a log
            let k = if crate::tur::on() && k < len { 0 } else { k.min(len) };
            if k > 0 {
                raw(k);
            }
            die();
            fail(libc::EIO)
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: usize, off: i64) -> isize {
    write_at(fd, n, |n| ret(raw6(libc::SYS_pwrite64, fd as usize, buf as usize, n, off as usize, 0, 0)))
}
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: c_int, buf: *const c_void, n: usize, off: i64) -> isize {
    pwrite64(fd, buf, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn pwritev(fd: c_int, iov: *const libc::iovec, cnt: c_int, off: i64) -> isize {
    let len = (0..cnt as usize).map(|i| (*iov.add(i)).iov_len).sum::<usize>();
    write_at(fd, len, |n| {
        // the first n bytes of the buffers
        let mut done = 0;
        for i in 0..cnt as usize {
            let v = &*iov.add(i);
            let k = v.iov_len.min(n - done);
            if k > 0 {
                let r = raw6(libc::SYS_pwrite64, fd as usize, v.iov_base as usize, k, off as usize + done, 0, 0);
                let r = ret(r);
                if r < 0 {
                    return if done > 0 { done as isize } else { r };
                }
                done += r as usize;
            }
        }
        done as isize
    })
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    let _poke = crate::os::Poke;
    if ON.load(Ordering::Relaxed) {
        if let Some(o) = of_fd(fd) {
            let d = point("close", &o.path, 0, &[Fault::Kill]);
            if let Some(f) = FS.lock().as_mut() {
                f.fds.remove(&fd);
            }
            let r = ret(raw6(libc::SYS_close, fd as usize, 0, 0, 0, 0, 0)) as c_int;
            if matches!(d, Do::Die(_)) {
                die();
            }
            core::wake_key(FLOCK_KEY);
            return r;
        }
        if let Some(f) = FS.lock().as_mut() {
            f.fds.remove(&fd);
        }
    }
    ret(raw6(libc::SYS_close, fd as usize, 0, 0, 0, 0, 0)) as c_int
}
unsafe fn fsync_with(fd: c_int, raw: impl Fn() -> isize) -> c_int {
    let Some(o) = of_fd(fd) else { return raw() as c_int };
    if crate::tur::on() {
        // Turso ends the process when fsync fails
        let r = whole("fsync", &o.path, &[Fault::Kill], raw);
        return if r != 0 && crate::store::me_dead() { 0 } else { r as c_int };
    }
    whole("fsync", &o.path, &[Fault::Eio, Fault::Kill], raw) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    fsync_with(fd, || ret(raw6(libc::SYS_fsync, fd as usize, 0, 0, 0, 0, 0)))
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    fsync_with(fd, || ret(raw6(libc::SYS_fdatasync, fd as usize, 0, 0, 0, 0, 0)))
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: i64) -> c_int {
    let raw = || ret(raw6(libc::SYS_ftruncate, fd as usize, n as usize, 0, 0, 0, 0));
    match of_fd(fd) {
        Some(o) => whole("truncate", &o.path, &[Fault::Eio, Fault::Kill], raw) as c_int,
        None => raw() as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(
    a: c_int,
    ao: *mut i64,
    b: c_int,
    bo: *mut i64,
    n: usize,
    fl: c_uint,
) -> isize {
    if of_fd(b).is_some() || of_fd(a).is_some() {
        // the caller falls back to reading and writing
        return fail(libc::EXDEV);
    }
    ret(raw6(libc::SYS_copy_file_range, a as usize, ao as usize, b as usize, bo as usize, n, fl as usize))
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(o: c_int, i: c_int, off: *mut i64, n: usize) -> isize {
    if of_fd(o).is_some() || of_fd(i).is_some() {
        return fail(libc::EINVAL);
    }
    ret(raw6(libc::SYS_sendfile, o as usize, i as usize, off as usize, n, 0, 0))
}

// ---------------------------------------------------------------- names

#[no_mangle]
pub unsafe extern "C" fn statx(dir: c_int, path: *const c_char, fl: c_int, mask: c_uint, st: *mut c_void) -> c_int {
    let raw = || {
        ret(raw6(libc::SYS_statx, dir as isize as usize, path as usize, fl as usize, mask as usize, st as usize, 0))
    };
    if !mine() || path.is_null() {
        return raw() as c_int;
    }
    let p = if *path == 0 { of_fd(dir).map(|o| o.path) } else { scoped_at(dir, path) };
    match p {
        Some(p) => whole("stat", &p, &[Fault::Eio, Fault::Kill], raw) as c_int,
        None => raw() as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: c_uint) -> c_int {
    let raw = || ret(raw6(libc::SYS_mkdir, path as usize, mode as usize, 0, 0, 0, 0));
    match scoped(path) {
        Some(p) => whole("mkdir", &p, &[Fault::Eio, Fault::Full, Fault::Kill], raw) as c_int,
        None => raw() as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    let raw = || ret(raw6(libc::SYS_unlink, path as usize, 0, 0, 0, 0, 0));
    match scoped(path) {
        Some(p) => whole("unlink", &p, &[Fault::Eio, Fault::Kill], raw) as c_int,
        None => raw() as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(path: *const c_char) -> c_int {
    let raw = || ret(raw6(libc::SYS_rmdir, path as usize, 0, 0, 0, 0, 0));
    match scoped(path) {
        Some(p) => whole("rmdir", &p, &[Fault::Eio, Fault::Kill], raw) as c_int,
        None => raw() as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(dir: c_int, path: *const c_char, fl: c_int) -> c_int {
    let raw = || ret(raw6(libc::SYS_unlinkat, dir as isize as usize, path as usize, fl as usize, 0, 0, 0));
    match scoped_at(dir, path) {
        Some(p) => {
            let op = if fl & libc::AT_REMOVEDIR != 0 { "rmdir" } else { "unlink" };
            whole(op, &p, &[Fault::Eio, Fault::Kill], raw) as c_int
        }
        None => raw() as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    let raw = || ret(raw6(libc::SYS_rename, a as usize, b as usize, 0, 0, 0, 0));
    match (scoped(a), scoped(b)) {
        (Some(x), Some(y)) => {
            whole("rename", &format!("{} {y}", without_count(&x).0), &[Fault::Eio, Fault::Full, Fault::Kill], raw) as c_int
        }
        _ => raw() as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn linkat(ad: c_int, a: *const c_char, bd: c_int, b: *const c_char, fl: c_int) -> c_int {
    let raw =
        || ret(raw6(libc::SYS_linkat, ad as isize as usize, a as usize, bd as isize as usize, b as usize, fl as usize, 0));
    match scoped_at(bd, b) {
        Some(y) => whole("link", &y, &[Fault::Eio, Fault::Full, Fault::Kill], raw) as c_int,
        _ => raw() as c_int,
    }
}

// ---------------------------------------------------------------- directories

static REAL_OPENDIR: AtomicUsize = AtomicUsize::new(0);
static REAL_FDOPENDIR: AtomicUsize = AtomicUsize::new(0);
static REAL_READDIR: AtomicUsize = AtomicUsize::new(0);
static REAL_CLOSEDIR: AtomicUsize = AtomicUsize::new(0);

fn new_list(d: usize, path: String) {
    if let Some(f) = FS.lock().as_mut() {
        f.dirs.insert(d, List { path, ents: vec![], next: 0, read: false });
    }
}
#[no_mangle]
pub unsafe extern "C" fn opendir(path: *const c_char) -> *mut c_void {
    let f: unsafe extern "C" fn(*const c_char) -> *mut c_void = std::mem::transmute(real(b"opendir\0", &REAL_OPENDIR));
    let Some(p) = scoped(path) else { return f(path) };
    let got = std::cell::Cell::new(0isize);
    let d = whole("opendir", &p, &[Fault::CantOpen, Fault::Eio, Fault::Kill], || {
        got.set(f(path) as isize);
        if got.get() == 0 {
            -1
        } else {
            got.get()
        }
    });
    if d == -1 {
        if got.get() != 0 {
            closedir(got.get() as *mut c_void);
            set_errno(libc::EIO);
        }
        return std::ptr::null_mut();
    }
    new_list(d as usize, p);
    d as *mut c_void
}
#[no_mangle]
pub unsafe extern "C" fn fdopendir(fd: c_int) -> *mut c_void {
    let f: unsafe extern "C" fn(c_int) -> *mut c_void = std::mem::transmute(real(b"fdopendir\0", &REAL_FDOPENDIR));
    let o = of_fd(fd);
    let d = f(fd);
    if let (Some(o), false) = (o, d.is_null()) {
        new_list(d as usize, o.path);
    }
    d
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut c_void) -> *mut libc::dirent64 {
    let f: unsafe extern "C" fn(*mut c_void) -> *mut libc::dirent64 =
        std::mem::transmute(real(b"readdir64\0", &REAL_READDIR));
    let (path, first) = {
        let g = FS.lock();
        match g.as_ref().and_then(|x| x.dirs.get(&(d as usize))) {
            Some(l) if mine() => (l.path.clone(), !l.read),
            _ => {
                drop(g);
                return f(d);
            }
        }
    };
    if first {
        match point("readdir", &path, 0, &[Fault::Eio, Fault::Kill]) {
            Do::Go | Do::Part(_) => {}
            Do::Err(e) => {
                set_errno(e);
                return std::ptr::null_mut();
            }
            Do::Die(_) => {
                die();
                set_errno(libc::EIO);
                return std::ptr::null_mut();
            }
        }
        // one order for one seed, whatever the kernel's
        let seed = sim(|s| s.seed);
        let mut v: Vec<(u64, u64, Box<libc::dirent64>)> = vec![];
        loop {
            let e = f(d);
            if e.is_null() {
                break;
            }
            let mut b: Box<libc::dirent64> = Box::new(std::mem::zeroed());
            let n = ((*e).d_reclen as usize).min(std::mem::size_of::<libc::dirent64>());
            std::ptr::copy_nonoverlapping(e as *const u8, &mut *b as *mut _ as *mut u8, n);
            let mut h = seed ^ 0x9E3779B97F4A7C15;
            let (name, count) = without_count(&CStr::from_ptr(b.d_name.as_ptr()).to_string_lossy());
            for x in name.bytes() {
                h = (h ^ x as u64).wrapping_mul(0x100000001b3).rotate_left(23);
            }
            v.push((h, count, b));
        }
        v.sort_by_key(|x| (x.0, x.1));
        if let Some(l) = FS.lock().as_mut().and_then(|x| x.dirs.get_mut(&(d as usize))) {
            l.ents = v.into_iter().map(|x| x.2).collect();
            l.read = true;
        }
    }
    let mut g = FS.lock();
    let l = g.as_mut().and_then(|x| x.dirs.get_mut(&(d as usize))).unwrap();
    l.next += 1;
    match l.ents.get_mut(l.next - 1) {
        Some(e) => &mut **e,
        None => std::ptr::null_mut(),
    }
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut c_void) -> c_int {
    let f: unsafe extern "C" fn(*mut c_void) -> c_int = std::mem::transmute(real(b"closedir\0", &REAL_CLOSEDIR));
    if ON.load(Ordering::Relaxed) {
        let fd = libc::dirfd(d as *mut libc::DIR);
        if let Some(x) = FS.lock().as_mut() {
            x.dirs.remove(&(d as usize));
            x.fds.remove(&fd);
        }
    }
    f(d)
}

// ---------------------------------------------------------------- locks

#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    let raw = |op: c_int| ret(raw6(libc::SYS_flock, fd as usize, op as usize, 0, 0, 0, 0));
    let Some(o) = of_fd(fd) else { return raw(op) as c_int };
    let set = |b: bool| {
        if let Some(x) = FS.lock().as_mut().and_then(|f| f.fds.get_mut(&fd)) {
            x.flock = b;
        }
    };
    if op & libc::LOCK_UN != 0 {
        if !sim(|s| s.proc_dead(o.proc)) {
            match point("unlock", &o.path, 0, &[Fault::Kill]) {
                Do::Die(_) => die(),
                _ => {
                    set(false);
                    raw(op);
                }
            }
        }
        core::wake_key(FLOCK_KEY);
        core::yield_point();
        return 0;
    }
    let name = if op & libc::LOCK_EX != 0 { "lock" } else { "lock shared" };
    loop {
        let r = whole(name, &o.path, &[Fault::Eio, Fault::Kill], || raw(op | libc::LOCK_NB));
        if r == 0 {
            set(true);
            return 0;
        }
        let e = *libc::__errno_location();
        if e != libc::EWOULDBLOCK || op & libc::LOCK_NB != 0 {
            return fail(e) as c_int;
        }
        sim(|s| s.stat("probe:waited_for_file_lock"));
        if !core::block_on_key(FLOCK_KEY) {
            return fail(libc::EDEADLK) as c_int;
        }
    }
}

// ---------------------------------------------------------------- the process

#[no_mangle]
pub unsafe extern "C" fn getpid() -> c_int {
    if mine() && sim_proc() {
        return 1000 + proc_id() as c_int;
    }
    raw6(libc::SYS_getpid, 0, 0, 0, 0, 0, 0) as c_int
}
fn sim_proc() -> bool {
    core::run_active() && proc_id() != core::ORACLE
}
static CODE: AtomicI32 = AtomicI32::new(0);
static REAL_EXIT: AtomicUsize = AtomicUsize::new(0);
/// End the program, without the C library's exit: simulated processes may have used that up.
pub fn leave(code: i32) -> ! {
    use std::io::Write;
    let _ = std::io::stdout().flush();
    tidy();
    CODE.store(code, Ordering::SeqCst);
    unsafe { libc::_exit(code) }
}
/// How the last process that ended itself did it.
pub static EXIT: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(0);
/// A simulated process ends its run: its thread goes, and what the kernel would release is released.
unsafe fn gone(code: c_int) -> ! {
    let p = proc_id();
    sim(|s| {
        if !s.proc_dead(p) {
            EXIT.store(code, Ordering::SeqCst);
        }
        s.log(&format!("process {p} exits with {code}"));
        s.stat("probe:process_exit");
        s.kill_proc(p);
    });
    core::wake_key(FLOCK_KEY);
    core::end_thread()
}
#[no_mangle]
pub unsafe extern "C" fn exit(code: c_int) -> ! {
    if ON.load(Ordering::Relaxed) && core::in_sim_thread() {
        gone(code);
    }
    let f: unsafe extern "C" fn(c_int) -> ! = std::mem::transmute(real(b"exit\0", &REAL_EXIT));
    f(code)
}
/// std lets every thread but the first that calls `exit` wait here for the end of the program.
#[no_mangle]
pub unsafe extern "C" fn pause() -> c_int {
    if ON.load(Ordering::Relaxed) && core::in_sim_thread() {
        gone(1);
    }
    libc::_exit(CODE.load(Ordering::SeqCst))
}
