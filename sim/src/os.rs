//! The seam under everything: the C library symbols through which Rust code (std, parking_lot, tokio, crossbeam, r2d2 …)
//! waits, wakes, starts threads, sleeps and reads clocks. They are defined here and so replace libc's for the whole
//! program. For a simulated thread they go to the scheduler in `core`; for any other thread they are plain system calls.
#![allow(clippy::missing_safety_doc)]
use std::arch::asm;
use std::cell::{Cell, UnsafeCell};
use std::ffi::{c_char, c_int, c_long, c_void};
use std::ops::{Deref, DerefMut};
use std::sync::atomic::{AtomicU32, AtomicUsize, Ordering};

use crate::core;

pub unsafe fn raw6(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e,
        in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
pub fn set_errno(e: c_int) {
    unsafe { *libc::__errno_location() = e }
}
pub unsafe fn ret(r: isize) -> isize {
    if r < 0 && r > -4096 {
        set_errno(-r as c_int);
        -1
    } else {
        r
    }
}

// ---------------------------------------------------------------- primitives for the simulator itself

pub fn raw_wait(a: &AtomicU32, v: u32) {
    unsafe { raw6(libc::SYS_futex, a as *const _ as usize, 128, v as usize, 0, 0, 0) };
}
pub fn raw_wake(a: &AtomicU32) {
    unsafe { raw6(libc::SYS_futex, a as *const _ as usize, 129, i32::MAX as usize, 0, 0, 0) };
}
/// A mutex the interposed calls do not see.
pub struct RawMutex<T> {
    s: AtomicU32,
    v: UnsafeCell<T>,
}
unsafe impl<T> Sync for RawMutex<T> {}
pub struct RawGuard<'a, T>(&'a RawMutex<T>);
impl<T> RawMutex<T> {
    pub const fn new(v: T) -> Self {
        RawMutex { s: AtomicU32::new(0), v: UnsafeCell::new(v) }
    }
    pub fn lock(&self) -> RawGuard<'_, T> {
        if self.s.compare_exchange(0, 1, Ordering::Acquire, Ordering::Relaxed).is_err() {
            while self.s.swap(2, Ordering::Acquire) != 0 {
                raw_wait(&self.s, 2);
            }
        }
        RawGuard(self)
    }
}
impl<T> Deref for RawGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.v.get() }
    }
}
impl<T> DerefMut for RawGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.0.v.get() }
    }
}
impl<T> Drop for RawGuard<'_, T> {
    fn drop(&mut self) {
        if self.0.s.swap(0, Ordering::Release) == 2 {
            raw_wake(&self.0.s);
        }
    }
}

// ---------------------------------------------------------------- futex

/// Wakes of threads blocked in the scheduler on this address.
fn sim_wake(addr: usize, n: usize) -> usize {
    core::wake_some(addr as u64, n)
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if n == libc::SYS_futex && core::scheduled() {
        let op = b as c_int & 127;
        match op {
            0 | 9 => {
                let deadline = if d == 0 {
                    None
                } else {
                    let ts = &*(d as *const libc::timespec);
                    let us = ts.tv_sec as u64 * 1_000_000 + ts.tv_nsec as u64 / 1000;
                    // op 9: absolute on the monotonic clock (256: realtime); op 0: relative
                    Some(if op == 9 {
                        let base = if b & 256 != 0 { REAL_BASE_US } else { MONO_BASE_US };
                        us.saturating_sub(base)
                    } else {
                        core::sim(|s| s.now_us) + us
                    })
                };
                let w = &*(a as *const AtomicU32);
                if w.load(Ordering::SeqCst) != c as u32 {
                    set_errno(libc::EAGAIN);
                    return -1;
                }
                return if core::block_futex(a as u64, deadline) {
                    0
                } else {
                    set_errno(libc::ETIMEDOUT);
                    -1
                };
            }
            1 | 10 => {
                let k = sim_wake(a, c);
                if k < c {
                    // somebody outside the simulation may wait, too
                    raw6(n, a, b, c - k, d, e, f);
                }
                core::yield_point();
                return k as c_long;
            }
            _ => {}
        }
    } else if n == libc::SYS_futex && core::run_active() && matches!(b as c_int & 127, 1 | 10) {
        sim_wake(a, c);
    }
    if n == libc::SYS_getrandom && core::scheduled() {
        return getrandom(a as *mut c_void, b, c as u32) as c_long;
    }
    ret(raw6(n, a, b, c, d, e, f)) as c_long
}

// ---------------------------------------------------------------- time

pub const MONO_BASE_US: u64 = 1_000_000_000;
pub const REAL_BASE_US: u64 = 1_700_000_000_000_000;

thread_local! {
    /// this thread's clock is the simulated one
    pub static SIMCLOCK: Cell<bool> = const { Cell::new(false) };
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: c_int, ts: *mut libc::timespec) -> c_int {
    if SIMCLOCK.try_with(|c| c.get()).unwrap_or(false) && (id == 0 || id == 1 || id == 4 || id == 5 || id == 6 || id == 7) {
        let now = core::clock();
        let base = if id == 0 || id == 5 { REAL_BASE_US + core::wall_skew() } else { MONO_BASE_US };
        let t = base + now;
        (*ts).tv_sec = (t / 1_000_000) as i64;
        (*ts).tv_nsec = (t % 1_000_000 * 1000) as i64;
        return 0;
    }
    ret(raw6(libc::SYS_clock_gettime, id as usize, ts as usize, 0, 0, 0, 0)) as c_int
}
unsafe fn ts_us(ts: *const libc::timespec) -> u64 {
    (*ts).tv_sec as u64 * 1_000_000 + (*ts).tv_nsec as u64 / 1000
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(ts: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if core::scheduled() {
        core::sleep_us(ts_us(ts));
        return 0;
    }
    ret(raw6(libc::SYS_nanosleep, ts as usize, rem as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: c_int, fl: c_int, ts: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if core::scheduled() {
        let t = ts_us(ts);
        let d = if fl & 1 != 0 {
            let base = if id == 0 { REAL_BASE_US } else { MONO_BASE_US };
            t.saturating_sub(base + core::sim(|s| s.now_us))
        } else {
            t
        };
        core::sleep_us(d);
        return 0;
    }
    -(raw6(libc::SYS_clock_nanosleep, id as usize, fl as usize, ts as usize, rem as usize, 0, 0) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if core::scheduled() {
        core::yield_point();
        return 0;
    }
    raw6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: usize, fl: u32) -> isize {
    if core::run_active() && (core::scheduled() || SIMCLOCK.try_with(|c| c.get()).unwrap_or(false)) {
        let out = std::slice::from_raw_parts_mut(buf as *mut u8, n);
        core::sim(|s| {
            for b in out.iter_mut() {
                *b = s.aux.next() as u8;
            }
        });
        return n as isize;
    }
    ret(raw6(libc::SYS_getrandom, buf as usize, n, fl as usize, 0, 0, 0))
}

// ---------------------------------------------------------------- threads

type Start = extern "C" fn(*mut c_void) -> *mut c_void;
pub unsafe fn real(name: &'static [u8], slot: &AtomicUsize) -> usize {
    let p = slot.load(Ordering::Relaxed);
    if p != 0 {
        return p;
    }
    let p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const c_char) as usize;
    assert!(p != 0);
    slot.store(p, Ordering::Relaxed);
    p
}
struct Boot {
    id: usize,
    proc: u32,
    start: Start,
    arg: *mut c_void,
}
extern "C" fn boot(p: *mut c_void) -> *mut c_void {
    let b = unsafe { Box::from_raw(p as *mut Boot) };
    SIMCLOCK.with(|c| c.set(true));
    core::thread_enter(b.id, b.proc);
    let r = (b.start)(b.arg);
    core::thread_exit(b.id);
    SIMCLOCK.with(|c| c.set(false));
    r
}
static REAL_CREATE: AtomicUsize = AtomicUsize::new(0);
#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    t: *mut libc::pthread_t,
    attr: *const libc::pthread_attr_t,
    start: Start,
    arg: *mut c_void,
) -> c_int {
    let f: unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, Start, *mut c_void) -> c_int =
        std::mem::transmute(real(b"pthread_create\0", &REAL_CREATE));
    match core::thread_new() {
        None => f(t, attr, start, arg),
        Some((id, proc)) => {
            let b = Box::into_raw(Box::new(Boot { id, proc, start, arg }));
            let rc = f(t, attr, boot, b as *mut c_void);
            if rc != 0 {
                drop(Box::from_raw(b));
                core::thread_exit_unstarted(id);
            } else {
                core::thread_started(id, *t as u64);
                core::yield_point();
            }
            rc
        }
    }
}
static REAL_JOIN: AtomicUsize = AtomicUsize::new(0);
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, r: *mut *mut c_void) -> c_int {
    if core::scheduled() {
        core::thread_await(t as u64);
    }
    let f: unsafe extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int =
        std::mem::transmute(real(b"pthread_join\0", &REAL_JOIN));
    f(t, r)
}

// ---------------------------------------------------------------- epoll (tokio's I/O driver)

pub const EPOLL_KEY: u64 = 1;
static REAL_EPOLL: AtomicUsize = AtomicUsize::new(0);
#[no_mangle]
pub unsafe extern "C" fn epoll_wait(fd: c_int, ev: *mut libc::epoll_event, n: c_int, timeout: c_int) -> c_int {
    let f: unsafe extern "C" fn(c_int, *mut libc::epoll_event, c_int, c_int) -> c_int =
        std::mem::transmute(real(b"epoll_wait\0", &REAL_EPOLL));
    let net = crate::pg::on();
    if !core::scheduled() && !(net && SIMCLOCK.try_with(|c| c.get()).unwrap_or(false)) {
        return f(fd, ev, n, timeout);
    }
    let deadline = if timeout < 0 { None } else { Some(core::sim(|s| s.now_us) + timeout as u64 * 1000) };
    loop {
        let next = crate::pg::step();
        let r = f(fd, ev, n, 0);
        if r != 0 {
            return r;
        }
        if deadline.is_some_and(|d| core::sim(|s| s.now_us) >= d) {
            return 0;
        }
        let until = match (deadline, next) {
            (Some(a), Some(b)) => Some(a.min(b)),
            (a, b) => a.or(b),
        };
        if core::scheduled() {
            core::block_futex(EPOLL_KEY, until);
        } else {
            match until {
                Some(t) => core::sim(|s| s.now_us = s.now_us.max(t)),
                None => crate::pg::stuck(),
            }
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn connect(fd: c_int, addr: *const c_void, len: u32) -> c_int {
    crate::pg::c_connect(fd, addr, len)
}

/// A thread waiting in epoll_wait is woken through an eventfd.
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    if crate::fsim::swallow(fd) {
        return n as isize;
    }
    if let Some(r) = crate::fsim::write(fd, buf, n) {
        return r;
    }
    let r = ret(raw6(libc::SYS_write, fd as usize, buf as usize, n, 0, 0, 0));
    if n == 8 && core::run_active() {
        core::wake_some(EPOLL_KEY, usize::MAX);
    } else {
        poke();
    }
    r
}
/// Something has been sent on a simulated connection: whoever waits looks again.
pub fn poke() {
    if crate::pg::on() && core::scheduled() {
        core::wake_some(EPOLL_KEY, usize::MAX);
    }
}
pub struct Poke;
impl Drop for Poke {
    fn drop(&mut self) {
        poke();
    }
}
#[no_mangle]
pub unsafe extern "C" fn epoll_ctl(fd: c_int, op: c_int, of: c_int, ev: *mut libc::epoll_event) -> c_int {
    let r = ret(raw6(libc::SYS_epoll_ctl, fd as usize, op as usize, of as usize, ev as usize, 0, 0)) as c_int;
    poke();
    r
}
#[no_mangle]
pub unsafe extern "C" fn send(fd: c_int, buf: *const c_void, n: usize, flags: c_int) -> isize {
    let r = ret(raw6(libc::SYS_sendto, fd as usize, buf as usize, n, flags as usize, 0, 0));
    poke();
    r
}
#[no_mangle]
pub unsafe extern "C" fn shutdown(fd: c_int, how: c_int) -> c_int {
    let r = ret(raw6(libc::SYS_shutdown, fd as usize, how as usize, 0, 0, 0, 0)) as c_int;
    poke();
    r
}
