//! Raw system calls that bypass the interposed libc entry points.
use std::arch::asm;
use std::sync::atomic::{AtomicU32, Ordering};

pub unsafe fn syscall6(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
pub fn futex_wait(a: &AtomicU32, val: u32) {
    unsafe {
        syscall6(202, a as *const _ as usize, 128, val as usize, 0, 0, 0);
    }
}
pub fn futex_wake(a: &AtomicU32) {
    unsafe {
        syscall6(202, a as *const _ as usize, 129, 1, 0, 0, 0);
    }
}
pub fn wait_go(a: &AtomicU32) {
    loop {
        // short spin: the waker usually runs on another core
        for _ in 0..60 {
            if a.compare_exchange(1, 0, Ordering::Acquire, Ordering::Relaxed).is_ok() {
                return;
            }
            std::hint::spin_loop();
        }
        if a.compare_exchange(1, 0, Ordering::Acquire, Ordering::Relaxed).is_ok() {
            return;
        }
        futex_wait(a, 0);
    }
}
pub fn give_go(a: &AtomicU32) {
    a.store(1, Ordering::Release);
    futex_wake(a);
}
pub fn exit_group(code: i32) -> ! {
    loop {
        unsafe {
            syscall6(231, code as usize, 0, 0, 0, 0, 0);
        }
    }
}
