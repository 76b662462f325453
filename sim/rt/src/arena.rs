//! The simulated allocator: decides where blocks lie and what they contain, checks every release
//! against the request, and keeps a byte-granular shadow of what belongs to whom.
use crate::prng::Rng;
use crate::sched::{self, class, count, ctr, ACTIVE, CUR};
use std::alloc::{GlobalAlloc, Layout, System};

pub const BASE: usize = 0x2000_0000_0000;
pub const SIZE: usize = 1 << 32;
pub const SHADOW: usize = 0x2400_0000_0000;
const HDR: usize = 64;
const RZ: usize = 32;
const MAGIC: u64 = 0x5AFE_B10C_C0DE_2024;
const FREED: u64 = 0xDEAD_B10C_C0DE_2024;

// shadow byte values
const S_NONE: u8 = 0;
const S_RZ: u8 = 0xFA;
const S_FREED: u8 = 0xFD;
const S_HOST: u8 = 0x40; // harness-provided bytes: readable by all
const S_RO: u8 = 0x41; // harness-provided bytes that must not be written

#[repr(C)]
struct Hdr {
    magic: u64,
    size: u64,
    align: u32,
    tid: u32,
    seq: u64,
    total: u64, // whole chunk
    start: u64, // chunk start
    epoch: u64,
    host: u32,
    pad: u32,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fresh {
    Zero,
    Ones,
    Nines,
    Half,
    Random,
    Digits,
    DeadBeef,
}
#[derive(Clone, Debug)]
pub struct MemCfg {
    pub on: bool,
    pub fresh: Fresh,
    pub minimal_align: bool,
    pub reuse: u64, // of 256: probability of handing out a recently freed block as is
    pub seed: u64,
    pub fail_at: u64, // 0 = never
    pub skew: u64,    // extra distance between blocks
}

pub static mut ON: bool = false;
static mut BUMP: usize = BASE;
static mut RNG: Rng = Rng(0);
static mut CFG: MemCfg = MemCfg { on: false, fresh: Fresh::Zero, minimal_align: false, reuse: 0, seed: 0, fail_at: 0, skew: 0 };
pub static mut SEQ: u64 = 0;
pub static mut LIVE_BLOCKS: i64 = 0;
pub static mut LIVE_BYTES: i64 = 0;
pub static mut EPOCH: u64 = 0;
static mut FREELIST: [(usize, usize); 32] = [(0, 0); 32]; // (user ptr, size)
static mut FREEN: usize = 0;
static mut DATA_LO: usize = 0;
static mut DATA_HI: usize = 0;

extern "C" {
    static __data_start: u8;
    static _end: u8;
}

pub struct SimAlloc;

/// Maps arena and shadow (once, before forking).
pub fn map() {
    unsafe {
        for (a, l) in [(BASE, SIZE), (SHADOW, SIZE)] {
            let p = libc::mmap(
                a as *mut _,
                l,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE,
                -1,
                0,
            );
            assert_eq!(p as usize, a, "cannot map the arena");
            libc::madvise(p, l, libc::MADV_NOHUGEPAGE);
        }
        DATA_LO = &__data_start as *const u8 as usize;
        DATA_HI = &_end as *const u8 as usize;
    }
}
pub fn configure(c: &MemCfg) {
    unsafe {
        CFG = c.clone();
        RNG = Rng::new(c.seed);
        BUMP = BASE + 4096;
        SEQ = 0;
        LIVE_BLOCKS = 0;
        LIVE_BYTES = 0;
        EPOCH = 0;
        FREEN = 0;
        ON = c.on;
    }
}
/// The n-th request from now fails (0 = never).
pub fn set_fail_at(n: u64) {
    unsafe { CFG.fail_at = n }
}
#[inline]
pub fn in_arena(p: usize) -> bool {
    p.wrapping_sub(BASE) < SIZE
}
#[inline]
unsafe fn sh(p: usize) -> *mut u8 {
    (p - BASE + SHADOW) as *mut u8
}

/// A write to read-only bytes is reported once.
static mut RO_SEEN: bool = false;
/// Called for every instrumented load and store.
#[inline]
pub unsafe fn check(p: usize, n: usize, write: bool) {
    if in_arena(p) {
        let s = sh(p);
        let own = 0x80 | CUR as u8;
        let mut other = false;
        for i in 0..n {
            let v = *s.add(i);
            if v != own {
                if v == S_HOST {
                    continue;
                }
                if v & 0xF0 == 0x80 || v == S_RO && (!write || RO_SEEN) {
                    other = true;
                } else if v == S_RO {
                    bad_access(p, n, i, v, write);
                    RO_SEEN = true;
                    other = true;
                } else {
                    bad_access(p, n, i, v, write);
                    return;
                }
            }
        }
        if other {
            sched::hot(p, n, write, false);
        }
    } else if p >= DATA_LO && p < DATA_HI {
        sched::hot(p, n, write, true);
    } else if p < 4096 {
        // null pointer: will fault by itself
    }
}
#[cold]
#[inline(never)]
unsafe fn bad_access(p: usize, n: usize, off: usize, v: u8, write: bool) {
    let what = if write { "write" } else { "read" };
    let (c, w) = match v {
        S_FREED => (class::UAF, "memory already given back"),
        S_RZ => (class::OOB, "bytes beside a block"),
        S_RO => (class::RO_WRITE, "the bytes of a numeric that is only read"),
        S_NONE => (class::OOB, "bytes of no block"),
        _ => (class::OOB, "foreign bytes"),
    };
    // nearest block below, for the report
    let mut q = p + off;
    let lim = q.saturating_sub(4096).max(BASE + 4096);
    let mut rel = String::new();
    while q > lim {
        let s = *sh(q);
        if s & 0xF0 == 0x80 || s == S_HOST || s == S_RO || s == S_FREED {
            rel = format!(", {} bytes past the end of the nearest block below", p + off - q - 1);
            break;
        }
        q -= 1;
    }
    sched::report(c, &format!("{}-byte {} touches {}{}", n, what, w, if v == S_FREED { String::new() } else { rel }));
    ACTIVE = true; // class not enabled: go on
}

unsafe fn fill(p: *mut u8, n: usize) {
    match CFG.fresh {
        Fresh::Zero => std::ptr::write_bytes(p, 0, n),
        Fresh::Ones => std::ptr::write_bytes(p, 0xFF, n),
        Fresh::DeadBeef => std::ptr::write_bytes(p, 0xDB, n),
        Fresh::Nines | Fresh::Half | Fresh::Digits => {
            // i16 digit patterns at even addresses
            for i in 0..n {
                let a = p as usize + i;
                let d: u16 = match CFG.fresh {
                    Fresh::Nines => 9999,
                    Fresh::Half => 5000,
                    _ => ((a >> 1).wrapping_mul(0x9E37_79B9) >> 7) as u16 % 10000,
                };
                *p.add(i) = if a & 1 == 0 { d as u8 } else { (d >> 8) as u8 };
            }
        }
        Fresh::Random => {
            let mut i = 0;
            while i + 8 <= n {
                std::ptr::write_unaligned(p.add(i) as *mut u64, RNG.next());
                i += 8;
            }
            while i < n {
                *p.add(i) = RNG.next() as u8;
                i += 1;
            }
        }
    }
}

unsafe fn carve(size: usize, align: usize, shadow: u8, host: bool) -> *mut u8 {
    // [HDR][RZ][user][RZ]
    let a = align.max(1);
    let start = BUMP;
    let mut u = start + HDR + RZ;
    if CFG.skew > 0 {
        u += RNG.below(CFG.skew) as usize;
    }
    if CFG.minimal_align {
        // aligned to exactly `a`, not to 2a
        let m = 2 * a;
        u = (u + m - 1) / m * m + a;
    } else {
        let m = a.max(16);
        u = (u + m - 1) / m * m;
    }
    let end = (u + size + RZ + 15) & !15;
    if end >= BASE + SIZE {
        return std::ptr::null_mut();
    }
    BUMP = end;
    let h = (((u - RZ - HDR) & !7) as *mut Hdr) as usize;
    let hp = h as *mut Hdr;
    SEQ += 1;
    std::ptr::write(
        hp,
        Hdr { magic: MAGIC, size: size as u64, align: align as u32, tid: CUR as u32, seq: SEQ, total: (end - start) as u64, start: start as u64, epoch: EPOCH, host: host as u32, pad: 0 },
    );
    // red zones: content and shadow
    let lo = h + HDR;
    std::ptr::write_bytes(lo as *mut u8, 0xA5, u - lo);
    std::ptr::write_bytes((u + size) as *mut u8, 0xA5, end - u - size);
    std::ptr::write_bytes(sh(start), S_RZ, u - start);
    std::ptr::write_bytes(sh(u), shadow, size);
    std::ptr::write_bytes(sh(u + size), S_RZ, end - u - size);
    u as *mut u8
}
unsafe fn hdr(u: usize) -> *mut Hdr {
    ((u - RZ - HDR) & !7) as *mut Hdr
}

/// Bytes provided by the caller of the library, at an address with the given alignment exactly,
/// with red zones on both sides; `ro`: the library must not write to them.
pub fn caller_bytes(b: &[u8], align: usize, ro: bool) -> &'static mut [u8] {
    unsafe {
        let keep = CFG.minimal_align;
        CFG.minimal_align = true;
        let u = carve(b.len(), align, if ro { S_RO } else { S_HOST }, true);
        CFG.minimal_align = keep;
        assert!(!u.is_null());
        std::ptr::copy_nonoverlapping(b.as_ptr(), u, b.len());
        std::slice::from_raw_parts_mut(u, b.len())
    }
}
/// From now on nobody may write to these bytes of a block.
pub fn freeze(b: &[u8]) {
    unsafe {
        if in_arena(b.as_ptr() as usize) {
            std::ptr::write_bytes(sh(b.as_ptr() as usize), S_RO, b.len());
        }
    }
}
pub fn thaw(b: &[u8]) {
    unsafe {
        if in_arena(b.as_ptr() as usize) {
            std::ptr::write_bytes(sh(b.as_ptr() as usize), 0x80 | CUR as u8, b.len());
        }
    }
}
/// True if the red zones of a caller_bytes block are untouched.
pub fn caller_bytes_release(b: &[u8]) {
    unsafe {
        let u = b.as_ptr() as usize;
        canary(u, hdr(u));
        std::ptr::write_bytes(sh(u), S_FREED, b.len());
        std::ptr::write_bytes(u as *mut u8, 0xDD, b.len());
    }
}

unsafe extern "C" fn tls_size(info: *mut libc::dl_phdr_info, _: usize, out: *mut libc::c_void) -> i32 {
    for i in 0..(*info).dlpi_phnum as usize {
        let ph = &*(*info).dlpi_phdr.add(i);
        if ph.p_type == libc::PT_TLS {
            *(out as *mut usize) = (ph.p_memsz + ph.p_align) as usize;
        }
    }
    1 // the first object is the program itself
}
/// Blocks handed out after request `seq` that are still held although no pointer to them is left:
/// neither in static data, this thread's stack and thread-local data, older blocks, nor in a block
/// found from those (any word that lies within a block counts as a pointer to it).
#[inline(never)]
pub fn lost(seq: u64) -> (usize, u64) {
    unsafe {
        struct B(usize, usize, bool, bool); // address, size, new, found
        let mut bs: Vec<B> = vec![];
        let mut pos = BASE + 4096;
        while pos < BUMP {
            let mut h = pos;
            while !(((*(h as *const Hdr)).magic == MAGIC || (*(h as *const Hdr)).magic == FREED) && (*(h as *const Hdr)).start == pos as u64) {
                h += 8;
                if h + HDR > BUMP {
                    return (0, 0);
                }
            }
            let b = &*(h as *const Hdr);
            let end = pos + b.total as usize;
            // the user part starts at the only address from which this header is computed that the shadow agrees with
            let mut u = h + HDR + RZ;
            while u < end && *sh(u) == S_RZ && u & 7 != 7 {
                u += 1;
            }
            if b.magic == MAGIC {
                bs.push(B(u, b.size as usize, b.host == 0 && b.seq > seq, false));
            }
            pos = end;
        }
        let mut todo: Vec<(usize, usize)> = vec![(DATA_LO, DATA_HI)];
        let fs: usize;
        std::arch::asm!("mov {}, fs:0", out(reg) fs);
        let mut tls = 0usize;
        libc::dl_iterate_phdr(Some(tls_size), &mut tls as *mut usize as *mut _);
        todo.push((fs - tls, fs + 2304));
        let mut attr: libc::pthread_attr_t = std::mem::zeroed();
        let (mut lo, mut sz) = (std::ptr::null_mut(), 0usize);
        if libc::pthread_getattr_np(libc::pthread_self(), &mut attr) == 0 {
            libc::pthread_attr_getstack(&attr, &mut lo, &mut sz);
            libc::pthread_attr_destroy(&mut attr);
            let here = &attr as *const _ as usize;
            todo.push((here, (lo as usize + sz).max(here)));
        }
        for b in &bs {
            if !b.2 {
                todo.push((b.0, b.0 + b.1));
            }
        }
        while let Some((lo, hi)) = todo.pop() {
            let mut a = (lo + 7) & !7;
            while a + 8 <= hi {
                let w = *(a as *const usize);
                if in_arena(w) {
                    let i = bs.partition_point(|b| b.0 <= w);
                    if i > 0 && w <= bs[i - 1].0 + bs[i - 1].1 && bs[i - 1].2 && !bs[i - 1].3 {
                        bs[i - 1].3 = true;
                        todo.push((bs[i - 1].0, bs[i - 1].0 + bs[i - 1].1));
                    }
                }
                a += 8;
            }
        }
        let l: Vec<&B> = bs.iter().filter(|b| b.2 && !b.3).collect();
        (l.len(), l.iter().map(|b| b.1 as u64).sum())
    }
}

unsafe fn canary(u: usize, h: *mut Hdr) {
    let lo = h as usize + HDR;
    let n = (*h).size as usize;
    let end = (*h).start as usize + (*h).total as usize;
    let bad = (lo..u).chain(u + n..end).find(|&a| *(a as *const u8) != 0xA5);
    if let Some(a) = bad {
        let at = if a < u { format!("{} bytes before", u - a) } else { format!("{} bytes after the end of", a - u - n) };
        sched::report(class::CANARY, &format!("bytes {} a block of {} were overwritten", at, n));
    }
}

unsafe fn sim_alloc(l: Layout) -> *mut u8 {
    let act = ACTIVE;
    ACTIVE = false;
    count(ctr::ALLOC);
    if CFG.fail_at > 0 {
        CFG.fail_at -= 1;
        if CFG.fail_at == 0 {
            count(ctr::ALLOC_FAIL);
            crate::shm::shm().alloc_fail_fired = 1;
            ACTIVE = act;
            return std::ptr::null_mut();
        }
    }
    let mut reused = std::ptr::null_mut();
    if CFG.reuse > 0 && FREEN > 0 && RNG.below(256) < CFG.reuse {
        // most recently freed block of the same size and alignment, contents kept
        let mut i = FREEN;
        while i > 0 {
            i -= 1;
            let (u, s) = FREELIST[i];
            if s == l.size() && (*hdr(u)).align as usize == l.align() {
                for j in i..FREEN - 1 {
                    FREELIST[j] = FREELIST[j + 1];
                }
                FREEN -= 1;
                let h = hdr(u);
                (*h).magic = MAGIC;
                (*h).tid = CUR as u32;
                SEQ += 1;
                (*h).seq = SEQ;
                (*h).epoch = EPOCH;
                std::ptr::write_bytes(sh(u), 0x80 | CUR as u8, s);
                count(ctr::REUSED);
                reused = u as *mut u8;
                break;
            }
        }
    }
    let p = if !reused.is_null() {
        reused
    } else {
        let p = carve(l.size(), l.align(), 0x80 | CUR as u8, false);
        if !p.is_null() {
            fill(p, l.size());
        }
        p
    };
    if !p.is_null() {
        LIVE_BLOCKS += 1;
        LIVE_BYTES += l.size() as i64;
    }
    ACTIVE = act;
    p
}
unsafe fn sim_free(p: *mut u8, l: Layout) {
    let act = ACTIVE;
    ACTIVE = false;
    count(ctr::FREE);
    let u = p as usize;
    let h = hdr(u);
    match (*h).magic {
        MAGIC => {}
        FREED => {
            sched::report(class::DOUBLE_FREE, &format!("block of {} bytes given back twice", (*h).size));
            ACTIVE = act;
            return;
        }
        _ => {
            sched::report(class::WILD_FREE, &format!("release of an address ({} bytes) that was never handed out", l.size()));
            ACTIVE = act;
            return;
        }
    }
    if (*h).host != 0 {
        sched::report(class::WILD_FREE, "release of bytes that belong to the caller");
        ACTIVE = act;
        return;
    }
    if (*h).size as usize != l.size() || (*h).align as usize != l.align() {
        sched::report(
            class::BAD_LAYOUT,
            &format!("requested {} bytes aligned {}, released as {} bytes aligned {}", (*h).size, (*h).align, l.size(), l.align()),
        );
    }
    canary(u, h);
    let n = (*h).size as usize;
    LIVE_BLOCKS -= 1;
    LIVE_BYTES -= n as i64;
    (*h).magic = FREED;
    std::ptr::write_bytes(sh(u), S_FREED, n);
    if CFG.reuse > 0 && FREEN < 32 {
        FREELIST[FREEN] = (u, n);
        FREEN += 1;
    } else {
        if CFG.reuse > 0 {
            for j in 0..31 {
                FREELIST[j] = FREELIST[j + 1];
            }
            FREELIST[31] = (u, n);
        }
        if n <= 1 << 16 {
            std::ptr::write_bytes(p, 0xDD, n);
        }
    }
    ACTIVE = act;
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if ON && ACTIVE {
            sim_alloc(l)
        } else {
            System.alloc(l)
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if in_arena(p as usize) {
            sim_free(p, l)
        } else {
            System.dealloc(p, l)
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if ON && ACTIVE {
            let p = sim_alloc(l);
            if !p.is_null() {
                std::ptr::write_bytes(p, 0, l.size());
            }
            p
        } else {
            System.alloc_zeroed(l)
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if in_arena(p as usize) {
            count(ctr::REALLOC);
            let q = sim_alloc(Layout::from_size_align_unchecked(n, l.align()));
            if !q.is_null() {
                let act = ACTIVE;
                ACTIVE = false;
                std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                ACTIVE = act;
                sim_free(p, l);
            }
            q
        } else {
            System.realloc(p, l, n)
        }
    }
}

/// Makes the unused stack below the caller contain the current memory personality.
#[inline(never)]
pub fn dirty_stack(n: usize) {
    unsafe {
        let mut a: [std::mem::MaybeUninit<u8>; 24576] = std::mem::MaybeUninit::uninit().assume_init();
        let n = n.min(24576);
        let p = a.as_mut_ptr() as *mut u8;
        let keep = CFG.fresh;
        if CFG.fresh == Fresh::Random {
            CFG.fresh = Fresh::Digits;
        }
        fill(p.add(24576 - n), n);
        CFG.fresh = keep;
        std::hint::black_box(p);
    }
}
pub fn fresh_from(i: u64) -> Fresh {
    [Fresh::Zero, Fresh::Ones, Fresh::Nines, Fresh::Half, Fresh::Random, Fresh::Digits, Fresh::DeadBeef][i as usize % 7]
}
