//! Instrumentation callbacks and interposed libc entry points.
use crate::arena;
use crate::raw;
use crate::sched::*;
use crate::shm::{shm, COVCAP};

pub static mut NGUARDS: u32 = 0;

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    if p == stop || *p != 0 {
        return;
    }
    while p < stop {
        NGUARDS += 1;
        *p = NGUARDS;
        p = p.add(1);
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if ACTIVE {
        LASTG = *g;
        let c = &mut shm().cov[LASTG as usize & (COVCAP - 1)];
        if *c == 0 {
            *c = 1;
        }
        step();
    }
}
macro_rules! acc {
    ($l:ident, $s:ident, $n:expr) => {
        #[no_mangle]
        pub unsafe extern "C" fn $l(p: *const u8) {
            if ACTIVE {
                step();
                arena::check(p as usize, $n, false);
            }
        }
        #[no_mangle]
        pub unsafe extern "C" fn $s(p: *const u8) {
            if ACTIVE {
                step();
                arena::check(p as usize, $n, true);
            }
        }
    };
}
acc!(__sanitizer_cov_load1, __sanitizer_cov_store1, 1);
acc!(__sanitizer_cov_load2, __sanitizer_cov_store2, 2);
acc!(__sanitizer_cov_load4, __sanitizer_cov_store4, 4);
acc!(__sanitizer_cov_load8, __sanitizer_cov_store8, 8);
acc!(__sanitizer_cov_load16, __sanitizer_cov_store16, 16);

// ---- libc ---------------------------------------------------------------------------------
unsafe fn set_errno(e: i32) {
    *libc::__errno_location() = e;
}
unsafe fn ts_ns(ts: *const libc::timespec) -> u64 {
    ((*ts).tv_sec as u64).saturating_mul(1_000_000_000).saturating_add((*ts).tv_nsec as u64)
}
const SYS_FUTEX: i64 = 202;

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    if RUNNING && n == SYS_FUTEX {
        let cmd = b & 0x7f;
        match cmd {
            0 | 9 => {
                // FUTEX_WAIT / FUTEX_WAIT_BITSET
                let cur = std::ptr::read_volatile(a as *const u32);
                if cur != c as u32 {
                    set_errno(libc::EAGAIN);
                    return -1;
                }
                count(ctr::FUTEX_WAIT);
                if SPURIOUS_P > 0 && SPUR_RNG.below(256) < SPURIOUS_P {
                    count(ctr::SPURIOUS);
                    yield_point();
                    return 0;
                }
                let dl = if d == 0 {
                    u64::MAX
                } else {
                    let t = ts_ns(d as *const libc::timespec);
                    if cmd == 9 {
                        t
                    } else {
                        now_ns() + t
                    }
                };
                return match block_on(a, dl) {
                    Wait::Woken => 0,
                    Wait::TimedOut => {
                        set_errno(libc::ETIMEDOUT);
                        -1
                    }
                };
            }
            1 | 10 => {
                count(ctr::FUTEX_WAKE);
                return wake(a, c) as i64;
            }
            _ => {}
        }
    }
    let r = raw::syscall6(n, a, b, c, d, e, f);
    if r < 0 {
        set_errno(-r as i32);
        return -1;
    }
    r as i64
}
pub static mut RAND_SEED: u64 = 1;
pub static mut SIM_ENV: bool = false; // random and clock are simulated
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    if !SIM_ENV {
        return raw::syscall6(318, buf as usize, len, flags as usize, 0, 0, 0);
    }
    count(ctr::RANDOM);
    for i in 0..len {
        RAND_SEED = crate::prng::mix(RAND_SEED, i as u64 + 1);
        *buf.add(i) = RAND_SEED as u8;
    }
    len as isize
}
pub static mut CLOCK_JUMP: u64 = 0;
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut libc::timespec) -> i32 {
    if !SIM_ENV {
        let r = raw::syscall6(228, id as usize, ts as usize, 0, 0, 0, 0);
        return r as i32;
    }
    count(ctr::CLOCK);
    if CLOCK_JUMP > 0 && id == 0 {
        // wall clock: jumps forwards and backwards
        CLOCK_JUMP = crate::prng::mix(CLOCK_JUMP, 7) | 1;
    }
    let base = if id == 0 { 1_700_000_000_000_000_000 + (CLOCK_JUMP % 100_000) * 1_000_000_000 } else { 1_000_000_000_000 };
    let t = base + now_ns();
    (*ts).tv_sec = (t / 1_000_000_000) as i64;
    (*ts).tv_nsec = (t % 1_000_000_000) as i64;
    0
}
extern "C" {
    static environ: *const *const u8;
}
pub static mut VARS: u64 = 0;
static VALUES: [&[u8]; 8] = [b"1\0", b"0\0", b",\0", b"on\0", b"3\0", b"true\0", b"17\0", b"\0"];
/// What the library asks the environment for is there, with some value, in runs that say so.
/// The real function; a change of the locale by the library itself may be followed by another thread's.
#[no_mangle]
pub unsafe extern "C" fn setlocale(cat: libc::c_int, l: *const libc::c_char) -> *mut libc::c_char {
    static mut REAL: usize = 0;
    if REAL == 0 {
        REAL = libc::dlsym(libc::RTLD_NEXT, b"setlocale\0".as_ptr() as *const _) as usize;
    }
    let real: unsafe extern "C" fn(libc::c_int, *const libc::c_char) -> *mut libc::c_char = std::mem::transmute(REAL);
    let r = real(cat, l);
    if ACTIVE && !l.is_null() {
        count(ctr::idx("library_sets_locale"));
        for _ in 0..3 {
            crate::sched::yield_point();
        }
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const u8) -> *const u8 {
    let mut n = 0;
    while *name.add(n) != 0 {
        n += 1;
    }
    let key = std::slice::from_raw_parts(name, n);
    let mut e = environ;
    while !e.is_null() && !(*e).is_null() {
        let v = *e;
        let mut i = 0;
        while i < n && *v.add(i) == key[i] {
            i += 1;
        }
        if i == n && *v.add(n) == b'=' {
            return v.add(n + 1);
        }
        e = e.add(1);
    }
    if ACTIVE && VARS > 0 && !key.starts_with(b"RUST_") {
        count(ctr::idx("environment_read"));
        let mut h = VARS;
        for b in key {
            h = crate::prng::mix(h, *b as u64);
        }
        return VALUES[(h % 8) as usize].as_ptr();
    }
    std::ptr::null()
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, _rem: *mut libc::timespec) -> i32 {
    if RUNNING {
        let t = now_ns().saturating_add(ts_ns(req));
        block_on(0, t);
        return 0;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(_id: i32, fl: i32, req: *const libc::timespec, _rem: *mut libc::timespec) -> i32 {
    if RUNNING {
        let t = if fl & 1 == 1 { ts_ns(req) } else { now_ns().saturating_add(ts_ns(req)) };
        block_on(0, t);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if RUNNING {
        yield_point();
    }
    0
}

// ---- block operations: ranges are checked like single accesses ---------------------------
#[inline(always)]
unsafe fn range(p: *const u8, n: usize, write: bool) {
    if ACTIVE && n > 0 {
        step();
        arena::check(p as usize, n, write);
    }
}
#[inline(always)]
unsafe fn movsb(d: *mut u8, s: *const u8, n: usize) {
    std::arch::asm!("rep movsb", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _, options(nostack, preserves_flags));
}
#[no_mangle]
pub unsafe extern "C" fn memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    range(s, n, false);
    range(d, n, true);
    movsb(d, s, n);
    d
}
#[no_mangle]
pub unsafe extern "C" fn memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    range(s, n, false);
    range(d, n, true);
    if (d as usize).wrapping_sub(s as usize) >= n {
        movsb(d, s, n);
    } else {
        std::arch::asm!("std", "rep movsb", "cld", inout("rcx") n => _, inout("rdi") d.wrapping_add(n).wrapping_sub(1) => _,
            inout("rsi") s.wrapping_add(n).wrapping_sub(1) => _, options(nostack));
    }
    d
}
#[no_mangle]
pub unsafe extern "C" fn memset(d: *mut u8, c: i32, n: usize) -> *mut u8 {
    range(d, n, true);
    std::arch::asm!("rep stosb", inout("rcx") n => _, inout("rdi") d => _, in("al") c as u8, options(nostack, preserves_flags));
    d
}
#[no_mangle]
pub unsafe extern "C" fn memcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    range(a, n, false);
    range(b, n, false);
    let mut i = 0;
    while i < n {
        let (x, y) = (std::ptr::read_volatile(a.add(i)), std::ptr::read_volatile(b.add(i)));
        if x != y {
            return x as i32 - y as i32;
        }
        i += 1;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn bcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    memcmp(a, b, n)
}
