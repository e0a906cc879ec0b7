//! libc symbols defined in the executable take precedence over libc's own.
use crate::*;
use libc::{c_int, c_long, timespec};

unsafe fn raw(nr: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    let r: c_long;
    core::arch::asm!("syscall", inlateout("rax") nr => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _, options(nostack));
    r
}
/// A system call around libc, with libc's errno convention.
///
/// # Safety
/// As the system call.
pub unsafe fn raw_ret(nr: c_long, a: [usize; 6]) -> c_long {
    ret(raw(nr, a[0], a[1], a[2], a[3], a[4], a[5]))
}
unsafe fn ret(r: c_long) -> c_long {
    if r < 0 && r > -4096 {
        *libc::__errno_location() = (-r) as c_int;
        -1
    } else {
        r
    }
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: c_int, ts: *mut timespec) -> c_int {
    if !active() {
        return ret(raw(libc::SYS_clock_gettime, clk as usize, ts as usize, 0, 0, 0, 0)) as c_int;
    }
    let ns: i64 = match clk {
        libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE => wall_ns(),
        _ => 1_000_000_000_000 + elapsed_ns() as i64,
    };
    (*ts).tv_sec = ns.div_euclid(1_000_000_000);
    (*ts).tv_nsec = ns.rem_euclid(1_000_000_000);
    0
}

/// The real monotonic clock, for budgets and reports outside a simulation only.
pub fn real_mono_s() -> f64 {
    let mut ts = timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { raw(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC as usize, &mut ts as *mut _ as usize, 0, 0, 0, 0) };
    ts.tv_sec as f64 + ts.tv_nsec as f64 / 1e9
}

#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, _tz: *mut libc::c_void) -> c_int {
    let mut ts = timespec { tv_sec: 0, tv_nsec: 0 };
    clock_gettime(libc::CLOCK_REALTIME, &mut ts);
    (*tv).tv_sec = ts.tv_sec;
    (*tv).tv_usec = ts.tv_nsec / 1000;
    0
}

#[no_mangle]
pub unsafe extern "C" fn time(t: *mut libc::time_t) -> libc::time_t {
    let mut ts = timespec { tv_sec: 0, tv_nsec: 0 };
    clock_gettime(libc::CLOCK_REALTIME, &mut ts);
    if !t.is_null() {
        *t = ts.tv_sec;
    }
    ts.tv_sec
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, n: usize, _flags: u32) -> isize {
    fill_random(core::slice::from_raw_parts_mut(buf, n));
    n as isize
}

#[no_mangle]
pub unsafe extern "C" fn syscall(nr: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if nr == libc::SYS_getrandom {
        if b > 0 {
            fill_random(core::slice::from_raw_parts_mut(a as *mut u8, b));
        }
        return b as c_long;
    }
    ret(raw(nr, a, b, c, d, e, f))
}

/// A real sleep inside a simulation would stop the world without moving the simulated clock:
/// it is turned into a no-op that only lets the simulated clocks move on (see `BLOCKING_SLEEPS`).
pub static BLOCKING_SLEEPS: AtomicU64 = AtomicU64::new(0);

pub fn touch() {} // keeps this object file linked in
