//! Token-passing scheduler: real threads, exactly one runs, and a seeded strategy decides at every
//! instrumented step, operation boundary and blocking call which one.
use crate::prng::{mix, Rng};
use crate::raw;
use crate::shm::{shm, Preempt, MAXT, TRACECAP};
use std::sync::atomic::{AtomicU32, Ordering};

// ---- violation classes -------------------------------------------------------------------
pub mod class {
    pub const OOB: u32 = 1;
    pub const UAF: u32 = 2;
    pub const BAD_LAYOUT: u32 = 3;
    pub const DOUBLE_FREE: u32 = 4;
    pub const WILD_FREE: u32 = 5;
    pub const CANARY: u32 = 6;
    pub const LEAK: u32 = 7;
    pub const DEADLOCK: u32 = 8;
    pub const HANG: u32 = 9;
    pub const MODEL: u32 = 10;
    pub const FAIL_STATE: u32 = 11;
    pub const BYSTANDER: u32 = 12;
    pub const SINK: u32 = 13;
    pub const CANON: u32 = 14;
    pub const STORE: u32 = 15;
    pub const CORRUPT: u32 = 16;
    pub const SERDE: u32 = 17;
    pub const MAP: u32 = 18;
    pub const PANIC: u32 = 19;
    pub const STALL: u32 = 20;
    pub const ENV: u32 = 21;
    pub const REENTRY: u32 = 22;
    pub const RO_WRITE: u32 = 23;
    pub const DIFF: u32 = 30;
    pub const CRASH: u32 = 31;
    pub const WALL: u32 = 32;
    pub const ALLOCFAIL: u32 = 33;
    pub const HARNESS: u32 = 40;
    pub fn name(c: u32) -> &'static str {
        match c {
            OOB => "out-of-bounds-access",
            RO_WRITE => "write-to-value-being-read",
            UAF => "use-after-free",
            BAD_LAYOUT => "release-with-wrong-layout",
            DOUBLE_FREE => "double-release",
            WILD_FREE => "release-of-foreign-memory",
            CANARY => "write-outside-block",
            LEAK => "leak",
            DEADLOCK => "deadlock",
            HANG => "no-progress",
            MODEL => "wrong-result",
            FAIL_STATE => "operand-damaged-by-failure",
            BYSTANDER => "bystander-changed",
            SINK => "sink-contract",
            CANON => "bytes-not-canonical",
            STORE => "stored-value-lost",
            CORRUPT => "corrupt-accepted",
            SERDE => "serde-mismatch",
            MAP => "collection-mismatch",
            PANIC => "unexpected-panic",
            STALL => "stall-propagates",
            ENV => "environment-dependent",
            REENTRY => "reentrancy",
            DIFF => "result-differs-from-quiet-run",
            CRASH => "crash",
            WALL => "cpu-time-exhausted",
            ALLOCFAIL => "wrong-after-allocation-failure",
            HARNESS => "harness-error",
            _ => "?",
        }
    }
}

// ---- counters (shm.counters indices) ------------------------------------------------------
pub mod ctr {
    pub const NAMES: &[&str] = &[
        "preempt_in_call", "preempt_at_op", "preempt_hot_access", "fairness_switch", "futex_wait",
        "futex_wake", "spurious_wake", "clock_read", "random_read", "stall", "alloc", "free",
        "realloc", "alloc_reused", "alloc_failure", "sink_error", "sink_panic", "hasher_panic",
        "ser_error", "ser_panic", "read_error", "read_eof", "read_interrupted", "read_short",
        "write_error", "write_short", "write_interrupted", "callback_yield", "callback_reenter",
        "callback_panic", "crash_restart", "torn_record", "lost_record", "corruption", "locale_flip",
        "op_panic", "op_error", "ops", "handover", "stack_dirtied", "model_checked", "values_observed",
        "corrupt_rejected", "corrupt_accepted_sound", "maps_checked", "hot_accesses", "cold_start",
        "overflow_failures", "div_zero_failures", "view_misaligned", "unobserved", "bystander_checks",
        "leak_cycles", "env_change", "cpu_fallback", "text_corruption", "shared_state_cases",
        "environment_read", "callback_error", "ended_late", "thread_generations", "library_sets_locale",
    ];
    pub fn idx(name: &str) -> usize {
        NAMES.iter().position(|n| *n == name).expect(name)
    }
    pub const PREEMPT_CALL: usize = 0;
    pub const PREEMPT_OP: usize = 1;
    pub const PREEMPT_HOT: usize = 2;
    pub const FAIRNESS: usize = 3;
    pub const FUTEX_WAIT: usize = 4;
    pub const FUTEX_WAKE: usize = 5;
    pub const SPURIOUS: usize = 6;
    pub const CLOCK: usize = 7;
    pub const RANDOM: usize = 8;
    pub const STALL: usize = 9;
    pub const ALLOC: usize = 10;
    pub const FREE: usize = 11;
    pub const REALLOC: usize = 12;
    pub const REUSED: usize = 13;
    pub const ALLOC_FAIL: usize = 14;
    pub const HOT: usize = 45;
}
#[inline]
pub fn count(i: usize) {
    shm().counters[i] += 1;
}

// ---- thread table -------------------------------------------------------------------------
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St {
    Unused,
    Runnable,
    Blocked,
    Done,
}
pub struct Th {
    pub st: St,
    pub go: AtomicU32,
    pub active: bool,
    pub lstep: u64,
    pub next: u64,
    pub addr: usize,
    pub deadline: u64,
    pub woken: bool,
    pub stalled: bool,
    pub prio: u64,
    pub since: u64,
    pub op: u32,
    pub xi: usize,
    pub gapnext: u64,
    pub panic_msg: [u8; 256],
    pub panic_len: usize,
}
const TH0: Th = Th {
    st: St::Unused,
    go: AtomicU32::new(0),
    active: false,
    lstep: 0,
    next: 0,
    addr: 0,
    deadline: 0,
    woken: false,
    stalled: false,
    prio: 0,
    since: 0,
    op: 0,
    xi: 0,
    gapnext: 0,
    panic_msg: [0; 256],
    panic_len: 0,
};

#[derive(Clone, Debug)]
pub enum Strategy {
    /// run threads one after the other, switching only when a thread ends or blocks
    Seq,
    /// random switch at operation boundaries only
    Ops,
    /// random preemption with the given mean gap (in steps), also at op boundaries
    Geo(u64),
    /// priority schedule with d change points spread over k steps
    Pct(u32, u64),
    /// preempt at accesses to memory other threads could see, probability p/256
    Hot(u64),
    /// switch exactly at d of the (about k) accesses to words several threads share and some write;
    /// true: only to words that are written again after others have used them
    Words(u32, u64, bool),
    /// exactly these decisions: (tid, lstep, to)
    Explicit(Vec<(u16, u64, u16)>),
}

pub static mut TH: [Th; MAXT] = [TH0; MAXT];
pub static mut N: usize = 0;
pub static mut CUR: usize = 0;
pub static mut ACTIVE: bool = false;
pub static mut LSTEP: u64 = 0;
pub static mut NEXT: u64 = u64::MAX;
pub static mut TOTAL: u64 = 0; // steps of all switched-out slices
pub static mut SLICE0: u64 = 0; // LSTEP at which the current slice began
pub static mut RUNNING: bool = false;
pub static mut BUDGET: u64 = u64::MAX;
pub static mut LASTG: u32 = 0;
pub static mut STRAT: Strategy = Strategy::Seq;
pub static mut RNG: Rng = Rng(0);
pub static mut SPURIOUS_P: u64 = 0; // of 256
pub static mut SPUR_RNG: Rng = Rng(0);
pub static mut CHANGE: Vec<u64> = Vec::new();
pub static mut DETECT: u64 = 0;
pub static mut STALL_AT: Option<(usize, u64)> = None;
pub static mut STALL_ACTIVE: bool = false;
pub static mut CLOCK_NS: u64 = 0;
static READY: AtomicU32 = AtomicU32::new(0);
pub static DONE: AtomicU32 = AtomicU32::new(0);
pub static mut FAIR_SLICE: u64 = 20_000;
pub static mut CRASH_AT: u64 = u64::MAX; // total steps
pub static mut HOT_ON: bool = false;
/// Words of static memory found shared in the quiet run: (word, written after another thread had used it).
pub static mut SHARED: Vec<(u64, bool)> = Vec::new();
#[derive(Clone, Copy)]
struct Word {
    key: u64,
    writes: u32,
    uses: u32,
    late: bool,
    mask: u8,
    stat: bool,
}
const WORD0: Word = Word { key: 0, writes: 0, uses: 0, late: false, mask: 0, stat: false };
const NWORDS: usize = 8192;
static mut WORDS: [Word; NWORDS] = [WORD0; NWORDS];
static mut WORD_EVENTS: u64 = 0;
const EARLY: u32 = 8;
/// What the quiet run says about shared words, for the runs that follow.
fn export_words() {
    unsafe {
        let s = shm();
        s.nshared = 0;
        s.shared_events = 0;
        s.late_events = 0;
        for w in WORDS.iter() {
            if w.key == 0 || w.writes == 0 || w.mask.count_ones() < 2 {
                continue;
            }
            if w.late {
                s.late_events += w.uses as u64;
            }
            s.shared_events += if w.late { w.uses } else { w.uses.min(EARLY) } as u64;
            if w.stat && (s.nshared as usize) < s.shared.len() {
                s.shared[s.nshared as usize] = (w.key, w.late as u32);
                s.nshared += 1;
            }
        }
    }
}
pub fn import_words() {
    unsafe {
        let s = shm();
        SHARED = s.shared[..s.nshared as usize].iter().map(|w| (w.0, w.1 > 0)).collect();
        SHARED.sort();
    }
}
pub static mut HOT_LIMIT: u64 = 400;
pub static mut ON_FATAL: Option<fn()> = None;

pub fn detects(c: u32) -> bool {
    unsafe { DETECT >> c & 1 == 1 }
}
fn finish_run(status: u32) -> ! {
    unsafe {
        let s = shm();
        s.status = status;
        export_words();
        s.total_steps = SUM_TOTAL + total();
        for i in 0..MAXT {
            s.lsteps[i] = TH[i].lstep & ((1 << 40) - 1);
        }
        s.lsteps[CUR] = LSTEP & ((1 << 40) - 1);
        s.nguards = crate::hooks::NGUARDS;
        s.sim_ns = CLOCK_NS + (SUM_TOTAL + total()) * 10;
        raw::exit_group(if status == 1 { 0 } else if status == 3 { 78 } else { 77 })
    }
}
pub fn end_run_ok() -> ! {
    finish_run(1)
}
pub fn crash_now() -> ! {
    finish_run(3)
}
/// Reports a violation of an enabled class and ends the run; a disabled class is ignored.
pub fn report(c: u32, detail: &str) {
    unsafe {
        ACTIVE = false;
        if detects(c) {
            shm().violation(c, CUR as u32, TH[CUR].op, detail);
            finish_run(2)
        }
    }
}
/// Reports and ends the run whatever the class filter says (harness cannot go on).
pub fn fatal(c: u32, detail: &str) -> ! {
    unsafe {
        ACTIVE = false;
        shm().violation(c, CUR as u32, TH[CUR].op, detail);
    }
    finish_run(2)
}
#[inline]
pub fn total() -> u64 {
    unsafe { TOTAL + (LSTEP - SLICE0) }
}

// ---- steps --------------------------------------------------------------------------------
#[inline(always)]
pub fn step() {
    unsafe {
        LSTEP += 1;
        if LSTEP >= NEXT {
            slow();
        }
    }
}

fn record(kind: u32, to: usize) {
    unsafe {
        let s = shm();
        let i = s.ntrace as usize;
        if i < TRACECAP {
            s.trace[i] = Preempt { lstep: LSTEP, tid: CUR as u16, to: to as u16, kind };
            s.ntrace = i as u32 + 1;
        }
    }
}

fn runnable(i: usize) -> bool {
    unsafe { i < N && TH[i].st == St::Runnable && !TH[i].stalled }
}
fn others() -> usize {
    unsafe { (0..N).filter(|&i| i != CUR && runnable(i)).count() }
}
fn pick_other() -> Option<usize> {
    unsafe {
        let c = others();
        if c == 0 {
            return None;
        }
        let mut k = RNG.below(c as u64) as usize;
        for i in 0..N {
            if i != CUR && runnable(i) {
                if k == 0 {
                    return Some(i);
                }
                k -= 1;
            }
        }
        None
    }
}
fn next_cyclic() -> Option<usize> {
    unsafe { (1..=N).map(|d| (CUR + d) % N).find(|&i| i != CUR && runnable(i)) }
}
fn best_prio(exclude_cur: bool) -> Option<usize> {
    unsafe {
        (0..N)
            .filter(|&i| runnable(i) && !(exclude_cur && i == CUR))
            .max_by_key(|&i| (TH[i].prio, N - i))
    }
}

unsafe fn set_next() {
    let mut n = TH[CUR].since + FAIR_SLICE;
    match &STRAT {
        Strategy::Explicit(v) => {
            n = TH[CUR].since + FAIR_SLICE;
            let mut xi = TH[CUR].xi;
            while xi < v.len() && (v[xi].0 as usize != CUR || v[xi].1 <= LSTEP) {
                xi += 1;
            }
            TH[CUR].xi = xi;
            if xi < v.len() {
                n = n.min(v[xi].1);
            }
        }
        Strategy::Geo(_) | Strategy::Words(..) => n = n.min(TH[CUR].gapnext),
        Strategy::Pct(..) => {
            let t = total();
            if let Some(c) = CHANGE.iter().filter(|c| **c > t).min() {
                n = n.min(LSTEP + (*c - t));
            }
        }
        _ => {}
    }
    if let Some((t, s)) = STALL_AT {
        if t == CUR && s > LSTEP {
            n = n.min(s);
        }
    }
    let t = total();
    if CRASH_AT != u64::MAX {
        n = n.min(LSTEP + CRASH_AT.saturating_sub(t).max(1));
    }
    let left = if BUDGET > t { BUDGET - t } else { 1 };
    n = n.min(LSTEP.saturating_add(left));
    NEXT = n.max(LSTEP + 1);
}

#[cold]
#[inline(never)]
fn slow() {
    unsafe {
        if !RUNNING {
            NEXT = LSTEP + 1_000_000;
            if total() > BUDGET {
                ACTIVE = false;
                fatal(class::HANG, "step budget exhausted (sequential)");
            }
            return;
        }
        let act = ACTIVE;
        ACTIVE = false;
        if total() >= CRASH_AT {
            finish_run(3);
        }
        if total() > BUDGET {
            fatal(class::HANG, "step budget of the run exhausted: an operation does not finish");
        }
        if let Some((t, s)) = STALL_AT {
            if t == CUR && LSTEP >= s {
                STALL_AT = None;
                if others() > 0 {
                    count(ctr::STALL);
                    STALL_ACTIVE = true;
                    TH[CUR].stalled = true;
                    let to = choose_forced();
                    match to {
                        Some(to) => switch(to),
                        None => unreachable!(),
                    }
                    ACTIVE = act;
                    set_next();
                    return;
                }
            }
        }
        let mut to = None;
        let mut kind = 0;
        match &STRAT {
            Strategy::Explicit(v) => {
                let xi = TH[CUR].xi;
                if xi < v.len() && v[xi].0 as usize == CUR && v[xi].1 == LSTEP {
                    let t = v[xi].2 as usize;
                    TH[CUR].xi += 1;
                    if runnable(t) && t != CUR {
                        to = Some(t);
                    }
                } else if LSTEP >= TH[CUR].since + FAIR_SLICE {
                    TH[CUR].since = LSTEP;
                    to = next_cyclic();
                    kind = 2;
                }
            }
            Strategy::Geo(m) => {
                if LSTEP >= TH[CUR].gapnext {
                    let m = *m;
                    TH[CUR].gapnext = LSTEP + RNG.gap(m);
                    to = pick_other();
                }
            }
            Strategy::Words(..) => {
                if LSTEP >= TH[CUR].gapnext {
                    TH[CUR].gapnext = u64::MAX;
                    to = pick_other();
                }
            }
            Strategy::Pct(..) => {
                let t = total();
                if let Some(i) = CHANGE.iter().position(|c| *c <= t) {
                    CHANGE.swap_remove(i);
                    let lo = (0..N).map(|i| TH[i].prio).min().unwrap();
                    TH[CUR].prio = lo.saturating_sub(1);
                    to = best_prio(true);
                }
            }
            _ => {}
        }
        if to.is_none() && kind == 0 && LSTEP >= TH[CUR].since + FAIR_SLICE {
            TH[CUR].since = LSTEP;
            if !matches!(STRAT, Strategy::Explicit(_)) {
                to = next_cyclic();
                kind = 2;
                if let (Strategy::Pct(..), Some(t)) = (&STRAT, to) {
                    // let the other one really run
                    let p = TH[CUR].prio;
                    TH[CUR].prio = TH[t].prio;
                    TH[t].prio = p;
                }
            }
        }
        if let Some(t) = to {
            count(if kind == 2 { ctr::FAIRNESS } else { ctr::PREEMPT_CALL });
            record(kind, t);
            switch(t);
        }
        ACTIVE = act;
        set_next();
    }
}

/// Access to memory that another thread may also reach (writable globals, other threads' blocks).
#[cold]
#[inline(never)]
pub fn hot(p: usize, n: usize, write: bool, stat: bool) {
    unsafe {
        count(ctr::HOT);
        if !RUNNING {
            return;
        }
        let mut event = false;
        let late_only = matches!(STRAT, Strategy::Words(_, _, true));
        for key in p as u64 >> 3..=(p + n - 1).min(p + 127) as u64 >> 3 {
            let w = &mut WORDS[(key.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 51) as usize % NWORDS];
            if w.key != key {
                *w = Word { key, stat, ..WORD0 };
            }
            w.uses += 1;
            if write {
                w.writes += 1;
                // written when another thread has used it already: truly mutable
                w.late |= w.mask & !(1 << CUR) != 0;
            }
            w.mask |= 1 << CUR;
            if w.late && TH[CUR].op < 64 {
                shm().late_ops[CUR] |= 1 << TH[CUR].op;
            }
            event |= match SHARED.binary_search_by_key(&key, |s| s.0) {
                Ok(i) => SHARED[i].1 || w.uses <= EARLY && !late_only,
                Err(_) => !stat && w.late,
            };
        }
        if let Strategy::Words(..) = STRAT {
            if event {
                WORD_EVENTS += 1;
                if let Some(i) = CHANGE.iter().position(|c| *c == WORD_EVENTS) {
                    CHANGE.swap_remove(i);
                    // at the access or a little after it (a lock may still be held here)
                    let g = *RNG.pick(&[6, 12, 24, 60]);
                    TH[CUR].gapnext = LSTEP + if RNG.chance(1, 3) { 0 } else { RNG.below(g) };
                    if TH[CUR].gapnext == LSTEP {
                        TH[CUR].gapnext = u64::MAX;
                        if let Some(t) = pick_other() {
                            let act = ACTIVE;
                            ACTIVE = false;
                            count(ctr::PREEMPT_HOT);
                            record(3, t);
                            switch(t);
                            ACTIVE = act;
                            set_next();
                        }
                    } else {
                        set_next();
                    }
                }
            }
            return;
        }
        if !HOT_ON {
            return;
        }
        if let Strategy::Hot(p) = STRAT {
            if shm().counters[ctr::HOT] > 50 * HOT_LIMIT || shm().counters[ctr::PREEMPT_HOT] > HOT_LIMIT {
                return;
            }
            if RNG.below(256) < p {
                if let Some(t) = pick_other() {
                    let act = ACTIVE;
                    ACTIVE = false;
                    count(ctr::PREEMPT_HOT);
                    record(3, t);
                    switch(t);
                    ACTIVE = act;
                    set_next();
                }
            }
        }
    }
}

/// Operation boundary or explicit yield inside a callback.
pub fn yield_point() {
    unsafe {
        if !RUNNING {
            return;
        }
        let act = ACTIVE;
        ACTIVE = false;
        LSTEP += 1;
        let mut to = None;
        match &STRAT {
            Strategy::Seq => {}
            Strategy::Ops => {
                if RNG.chance(1, 2) {
                    to = pick_other()
                }
            }
            Strategy::Geo(_) | Strategy::Hot(_) => {
                if RNG.chance(1, 4) {
                    to = pick_other()
                }
            }
            Strategy::Pct(..) => {}
            Strategy::Words(..) => {
                if RNG.chance(1, 16) {
                    to = pick_other()
                }
            }
            Strategy::Explicit(v) => {
                if let Some(e) = v.iter().find(|e| e.0 as usize == CUR && e.1 == LSTEP) {
                    let t = e.2 as usize;
                    if runnable(t) && t != CUR {
                        to = Some(t);
                    }
                }
            }
        }
        if let Some(t) = to {
            count(ctr::PREEMPT_OP);
            record(1, t);
            switch(t);
        }
        ACTIVE = act;
        set_next();
    }
}

/// The current thread cannot continue: choose who runs.
fn choose_forced() -> Option<usize> {
    unsafe {
        LSTEP += 1;
        let to = match &STRAT {
            Strategy::Seq => next_cyclic(),
            Strategy::Pct(..) => best_prio(true),
            Strategy::Explicit(v) => {
                let e = v.iter().find(|e| e.0 as usize == CUR && e.1 == LSTEP).map(|e| e.2 as usize);
                match e {
                    Some(t) if t != CUR && runnable(t) => Some(t),
                    _ => next_cyclic(),
                }
            }
            _ => pick_other(),
        };
        if let Some(t) = to {
            record(4, t);
        }
        to
    }
}

fn switch(to: usize) {
    unsafe {
        let me = CUR;
        let s = shm();
        s.switches += 1;
        s.sig = mix(s.sig, (LASTG as u64) << 16 | (me as u64) << 8 | to as u64);
        TOTAL += LSTEP - SLICE0;
        TH[me].lstep = LSTEP;
        load(to);
        raw::give_go(&TH[to].go);
        if TH[me].st != St::Done {
            raw::wait_go(&TH[me].go);
            // resumed: whoever switched to us has loaded CUR/LSTEP for us
        }
    }
}
unsafe fn load(to: usize) {
    CUR = to;
    LSTEP = TH[to].lstep;
    SLICE0 = LSTEP;
    TH[to].since = LSTEP;
    shm().cur_tid = to as u32;
    set_next();
}

// ---- blocking -----------------------------------------------------------------------------
pub enum Wait {
    Woken,
    TimedOut,
}
/// Blocks the current thread on `addr`; `deadline` in virtual ns (u64::MAX = none).
pub fn block_on(addr: usize, deadline: u64) -> Wait {
    unsafe {
        let act = ACTIVE;
        ACTIVE = false;
        let me = CUR;
        TH[me].st = St::Blocked;
        TH[me].addr = addr;
        TH[me].deadline = deadline;
        TH[me].woken = false;
        loop {
            match choose_forced() {
                Some(t) => {
                    switch(t);
                    break;
                }
                None => {
                    if !unblock_something() {
                        dead();
                    }
                    if TH[me].st == St::Runnable {
                        break;
                    }
                }
            }
        }
        ACTIVE = act;
        set_next();
        if TH[me].woken {
            Wait::Woken
        } else {
            Wait::TimedOut
        }
    }
}
/// No thread is runnable: advance the clock to the next deadline, or release the stalled thread.
unsafe fn unblock_something() -> bool {
    let mut best: Option<usize> = None;
    for i in 0..N {
        if TH[i].st == St::Blocked && TH[i].deadline != u64::MAX {
            if best.map_or(true, |b| TH[i].deadline < TH[b].deadline) {
                best = Some(i);
            }
        }
    }
    if let Some(b) = best {
        if TH[b].deadline > now_ns() {
            CLOCK_NS += TH[b].deadline - now_ns();
        }
        TH[b].st = St::Runnable;
        return true;
    }
    if STALL_ACTIVE {
        let blocked: Vec<usize> = (0..N).filter(|&i| TH[i].st == St::Blocked).collect();
        if !blocked.is_empty() {
            report(
                class::STALL,
                "a thread stalled inside a call keeps other threads from finishing theirs",
            );
        }
        STALL_ACTIVE = false;
        for i in 0..N {
            TH[i].stalled = false;
        }
        return (0..N).any(|i| runnable(i));
    }
    false
}
fn dead() -> ! {
    fatal(class::DEADLOCK, "all unfinished threads are blocked")
}
pub fn wake(addr: usize, n: usize) -> usize {
    unsafe {
        let mut k = 0;
        for i in 0..N {
            if k < n && TH[i].st == St::Blocked && TH[i].addr == addr {
                TH[i].st = St::Runnable;
                TH[i].woken = true;
                k += 1;
            }
        }
        if k > 0 && matches!(STRAT, Strategy::Words(..)) && RNG.chance(1, 2) {
            let g = *RNG.pick(&[6, 12, 24, 60]);
            TH[CUR].gapnext = LSTEP + RNG.below(g);
            set_next();
        }
        k
    }
}
pub fn now_ns() -> u64 {
    unsafe { CLOCK_NS + (SUM_TOTAL + total()) * 10 }
}

// ---- lifecycle ----------------------------------------------------------------------------
pub struct Setup {
    pub nthreads: usize,
    pub strategy: Strategy,
    pub seed: u64,
    pub budget: u64,
    pub spurious: u64,
    pub stall: Option<(usize, u64)>,
    /// phases of one run have disjoint step numbers
    pub phase: u64,
    pub crash_at: u64,
    /// `f` is called a second time by a thread-local destructor of the ending thread, the last one to run
    pub teardown: bool,
}
static mut TEARDOWN: bool = false;
extern "C" {
    fn __cxa_thread_atexit_impl(dtor: unsafe extern "C" fn(*mut libc::c_void), obj: *mut libc::c_void, dso: *mut libc::c_void) -> libc::c_int;
    static __dso_handle: u8;
}
type Body = (usize, &'static (dyn Fn(usize) + Sync));
unsafe extern "C" fn at_teardown(arg: *mut libc::c_void) {
    let (tid, f) = *Box::from_raw(arg as *mut Body);
    f(tid);
    thread_over(tid);
}
extern "C" fn thread_main(arg: *mut libc::c_void) -> *mut libc::c_void {
    unsafe {
        let (tid, f): (usize, &'static (dyn Fn(usize) + Sync)) =
            *Box::from_raw(arg as *mut (usize, &'static (dyn Fn(usize) + Sync)));
        // nothing of the thread's start runs beside the simulation
        READY.fetch_add(1, Ordering::AcqRel);
        raw::wait_go(&TH[tid].go);
        if TEARDOWN {
            // registered before any other, so it runs after all others
            let b: Box<Body> = Box::new((tid, f));
            let r = __cxa_thread_atexit_impl(at_teardown, Box::into_raw(b) as *mut _, &__dso_handle as *const u8 as *mut _);
            if r != 0 {
                fatal(class::HARNESS, "__cxa_thread_atexit_impl failed");
            }
            f(tid);
            ACTIVE = false;
            return std::ptr::null_mut();
        }
        f(tid);
        thread_over(tid);
        std::ptr::null_mut()
    }
}
fn thread_over(tid: usize) {
    unsafe {
        // thread is over
        ACTIVE = false;
        TH[tid].st = St::Done;
        loop {
            if let Some(t) = choose_forced() {
                switch(t);
                break;
            }
            if (0..N).all(|i| TH[i].st == St::Done) {
                TOTAL += LSTEP - SLICE0;
                TH[tid].lstep = LSTEP;
                SLICE0 = LSTEP;
                DONE.store(1, Ordering::Release);
                raw::futex_wake(&DONE);
                break;
            }
            if !unblock_something() {
                dead();
            }
        }
        // leave one after the other, when the main thread says so (thread-local destructors)
        raw::wait_go(&TH[tid].go);
    }
}
/// Runs `f(tid)` on `nthreads` simulated threads; returns when all of them ended.
pub fn run_threads(s: Setup, f: &(dyn Fn(usize) + Sync)) {
    unsafe {
        let f: &'static (dyn Fn(usize) + Sync) = std::mem::transmute(f);
        let n = s.nthreads;
        N = n;
        RNG = Rng::new(s.seed);
        STRAT = s.strategy;
        HOT_ON = matches!(STRAT, Strategy::Hot(_));
        SPURIOUS_P = s.spurious;
        SPUR_RNG = Rng::new(s.seed ^ 0x5b5b);
        let base = s.phase << 40;
        TEARDOWN = s.teardown;
        CRASH_AT = if s.crash_at > 0 { s.crash_at } else { u64::MAX };
        STALL_AT = s.stall.map(|(t, l)| (t, base + l));
        STALL_ACTIVE = false;
        TOTAL = 0;
        BUDGET = s.budget;
        CHANGE = Vec::new();
        WORDS = [WORD0; NWORDS];
        WORD_EVENTS = 0;
        FAIR_SLICE = match STRAT {
            Strategy::Seq => 4_000_000,
            Strategy::Explicit(_) => 10_000_000,
            Strategy::Words(..) => 1_000_000,
            _ => *RNG.pick(&[20_000, 20_000, 20_000, 200_000, 1_000_000]),
        };
        if let Strategy::Pct(d, k) | Strategy::Words(d, k, _) = STRAT {
            for _ in 0..d {
                CHANGE.push(1 + RNG.below(k.max(1)));
            }
        }
        for i in 0..MAXT {
            TH[i] = TH0;
            if i < n {
                TH[i].st = St::Runnable;
                TH[i].lstep = base;
                TH[i].prio = 1000 + RNG.below(1000);
                TH[i].gapnext = u64::MAX;
                if let Strategy::Geo(m) = STRAT {
                    TH[i].gapnext = base + RNG.gap(m);
                }
            }
        }
        DONE.store(0, Ordering::Relaxed);
        READY.store(0, Ordering::Relaxed);
        let mut ids = vec![];
        for i in 0..n {
            let arg = Box::into_raw(Box::new((i, f)));
            let mut attr: libc::pthread_attr_t = std::mem::zeroed();
            libc::pthread_attr_init(&mut attr);
            libc::pthread_attr_setstacksize(&mut attr, 1 << 20);
            let mut id: libc::pthread_t = 0;
            let r = libc::pthread_create(&mut id, &attr, std::mem::transmute(thread_main as extern "C" fn(*mut libc::c_void) -> *mut libc::c_void), arg as *mut _);
            if r != 0 {
                fatal(class::HARNESS, "pthread_create failed");
            }
            ids.push(id);
        }
        while READY.load(Ordering::Acquire) < n as u32 {
            raw::syscall6(24, 0, 0, 0, 0, 0, 0); // sched_yield
        }
        let first = match &STRAT {
            Strategy::Seq | Strategy::Explicit(_) => 0,
            Strategy::Pct(..) => best_prio(false).unwrap(),
            _ => RNG.below(n as u64) as usize,
        };
        // the choice of the first thread is a decision too: (tid 0, lstep 0)
        let first = if let Strategy::Explicit(v) = &STRAT {
            v.iter().find(|e| e.0 == 0 && e.1 == base).map(|e| e.2 as usize).filter(|t| *t < n).unwrap_or(0)
        } else {
            CUR = 0;
            LSTEP = base;
            record(5, first);
            first
        };
        RUNNING = true;
        load(first);
        raw::give_go(&TH[first].go);
        while DONE.load(Ordering::Acquire) == 0 {
            raw::futex_wait(&DONE, 0);
        }
        RUNNING = false;
        CUR = 0;
        ACTIVE = false;
        for (i, id) in ids.into_iter().enumerate() {
            raw::give_go(&TH[i].go);
            libc::pthread_join(id, std::ptr::null_mut());
        }
        SUM_TOTAL += TOTAL;
        LSTEP = TH[0].lstep;
        SLICE0 = LSTEP;
        TOTAL = 0;
        BUDGET = u64::MAX;
        CRASH_AT = u64::MAX;
        NEXT = LSTEP + 1_000_000;
    }
}
/// steps of all finished phases
pub static mut SUM_TOTAL: u64 = 0;

// ---- guarded sections ---------------------------------------------------------------------
// The non-generic parts live here so that they are not instantiated in instrumented crates.
#[inline(never)]
pub fn enter(active: bool) -> bool {
    unsafe {
        let old = ACTIVE;
        ACTIVE = active;
        shm().in_sys = active as u32;
        old
    }
}
#[inline(never)]
pub fn leave(old: bool) {
    unsafe {
        ACTIVE = old;
        shm().in_sys = old as u32;
    }
}
#[inline(never)]
pub fn clear_panic() {
    unsafe { TH[CUR].panic_len = 0 }
}
#[inline(never)]
pub fn panic_message() -> String {
    unsafe {
        let t = &TH[CUR];
        String::from_utf8_lossy(&t.panic_msg[..t.panic_len]).into_owned()
    }
}
pub struct Restore(bool);
impl Restore {
    #[inline(never)]
    pub fn new(active: bool) -> Restore {
        Restore(enter(active))
    }
}
impl Drop for Restore {
    #[inline(never)]
    fn drop(&mut self) {
        leave(self.0)
    }
}
/// Code under simulation: instrumented steps count and may be preempted; panics are caught.
pub fn sys<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    clear_panic();
    let old = enter(true);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    leave(old);
    match r {
        Ok(v) => Ok(v),
        Err(p) => {
            let m = panic_message();
            drop(p);
            Err(m)
        }
    }
}
/// Harness code called back from code under simulation.
pub fn host<R>(f: impl FnOnce() -> R) -> R {
    let _g = Restore::new(false);
    f()
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| unsafe {
        let _g = Restore::new(false);
        let m: &str = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s
        } else {
            "?"
        };
        let l = m.len().min(256);
        TH[CUR].panic_msg[..l].copy_from_slice(&m.as_bytes()[..l]);
        TH[CUR].panic_len = l;
        let l = m.len().min(160);
        shm().panic[..l].copy_from_slice(&m.as_bytes()[..l]);
        shm().npanic = l as u32;
        if DEBUG_PANICS {
            let loc = info.location().map(|l| l.to_string()).unwrap_or_default();
            let s = format!("[panic t{} {}] {}\n", CUR, loc, m);
            libc::write(2, s.as_ptr() as *const _, s.len());
        }
    }));
}
pub static mut DEBUG_PANICS: bool = false;
