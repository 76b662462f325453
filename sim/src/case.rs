//! A case is everything a run is made from: programs of the threads, memory personality, faults and
//! schedule. It is generated from one seed, serialisable, and is what a replay file holds.
use serde::{Deserialize, Serialize};
use simrt::sched::Strategy;

/// Behaviour of caller-supplied code (text sink, hasher, serializer, transport).
#[derive(Clone, Serialize, Deserialize, Debug, PartialEq, Default)]
pub struct Cb {
    /// byte (text sinks, transports) or call (hashers, serializers) at which `act` happens; -1 = never,
    /// below that counted from the end (-2 = before the last byte)
    pub at: i64,
    /// 1 = report an error, 2 = panic, 3 = end of stream (readers)
    pub act: u8,
    /// every so many calls do `re`: bit 0 = yield to other threads, bit 1 = use the library again
    pub every: u8,
    pub re: u8,
    /// transports: largest piece handled per call (0 = everything)
    pub cap: u8,
    /// transports: every so many calls fail with Interrupted
    pub intr: u8,
}
impl Cb {
    pub fn none() -> Cb {
        Cb { at: -1, ..Default::default() }
    }
    pub fn near_end(&mut self, len: usize) {
        if self.at <= -2 {
            self.at = (len as i64 + 1 + self.at).max(0);
        }
    }
}

#[derive(Clone, Serialize, Deserialize, Debug, PartialEq)]
pub enum MapOp {
    Insert(u16),
    Get(u16),
    Remove(u16),
    Iter,
    Range(u16),
    Clear,
}

/// Registers: 0..8 private to the thread, 100.. shared read-only, 200.. borrowed views of caller bytes.
#[derive(Clone, Serialize, Deserialize, Debug, PartialEq)]
pub enum Op {
    Set { d: u16, v: String, how: u8 },
    Int { d: u16, ty: u8, v: String },
    Flt { d: u16, bits: u64, f32: bool },
    Bin { d: u16, o: u8, f: u8, a: u16, b: u16 },
    Chk { d: u16, o: u8, a: u16, b: u16 },
    Asg { d: u16, o: u8, f: u8, b: u16 },
    Un { d: u16, o: u8, f: u8, a: u16 },
    Scl { d: u16, o: u8, a: u16, s: i32 },
    Mut { d: u16, o: u8, s: i32 },
    Typ { d: u16, p: i32, s: i32 },
    Tr { d: u16, o: u8, a: u16, b: u16, i: i64 },
    Copy { d: u16, how: u8, a: u16 },
    Drop { a: u16 },
    Cmp { a: u16, b: u16, f: u8 },
    Hash { a: u16, cb: Cb },
    ToInt { a: u16, ty: u8, f: u8 },
    ToF { a: u16, f32: bool, f: u8 },
    Query { a: u16 },
    Show { a: u16, k: u8, cb: Cb },
    Ser { d: u16, a: u16, fmt: u8, mode: u8, wrap: u8, w: Cb, r: Cb },
    Corrupt { d: u16, a: u16, path: u8, muts: Vec<(u8, u32, u32)> },
    Store { a: u16 },
    Sync,
    Map { kind: u8, hs: u64, ops: Vec<MapOp> },
    Sort { how: u8, xs: Vec<u16> },
    Send { a: u16, to: u8 },
    Recv { d: u16, from: u8 },
    Locale { k: u8 },
    Env { k: u8 },
    Yield,
}

#[derive(Clone, Serialize, Deserialize, Debug, PartialEq)]
pub enum Sched {
    Seq,
    Ops,
    Geo(u64),
    Pct(u32, u64),
    Hot(u64),
    Words(u32, u64, bool),
    Explicit(Vec<(u16, u64, u16)>),
}
impl Sched {
    pub fn strategy(&self) -> Strategy {
        match self {
            Sched::Seq => Strategy::Seq,
            Sched::Ops => Strategy::Ops,
            Sched::Geo(g) => Strategy::Geo(*g),
            Sched::Pct(d, k) => Strategy::Pct(*d, *k),
            Sched::Words(d, k, l) => Strategy::Words(*d, *k, *l),
            Sched::Hot(p) => Strategy::Hot(*p),
            Sched::Explicit(v) => Strategy::Explicit(v.clone()),
        }
    }
}

/// What the environment does to one run of the programs.
#[derive(Clone, Serialize, Deserialize, Debug, PartialEq)]
pub struct Env {
    pub sched: Sched,
    pub sched_seed: u64,
    pub spurious: u64,
    pub stall: Option<(usize, u64)>,
    pub crash_at: u64,
    /// 0 keep everything, 1 lose the unsynced tail, 2 tear it
    pub disk_fault: u8,
    pub fresh: u8,
    pub minimal_align: bool,
    pub reuse: u64,
    pub skew: u64,
    pub mem_seed: u64,
    pub fail_at: u64,
    pub dirty: bool,
    /// run the programs once before (caches and constants warm)
    pub warm: bool,
    /// identical cycles for leak accounting
    pub cycles: u8,
    pub clock_jump: u64,
    /// locale active when the threads start
    pub locale: u8,
    /// what unknown environment variables seem to hold (0 = they are unset)
    #[serde(default)]
    pub vars: u64,
    /// every so many operations are done again alone in a fresh process (0 = none)
    #[serde(default)]
    pub solo: u32,
    /// eighths of every program that run in a thread-local destructor of its ending thread
    #[serde(default)]
    pub late: u8,
}
impl Env {
    /// The cycles are there for the number of threads that have come and gone.
    pub fn many(&self) -> bool {
        self.cycles > 3
    }
    pub fn quiet() -> Env {
        Env {
            sched: Sched::Seq,
            sched_seed: 0,
            spurious: 0,
            stall: None,
            crash_at: 0,
            disk_fault: 0,
            fresh: 0,
            minimal_align: false,
            reuse: 0,
            skew: 0,
            mem_seed: 0,
            fail_at: 0,
            dirty: false,
            warm: false,
            cycles: 1,
            clock_jump: 0,
            locale: 0,
            vars: 0,
            solo: 0,
            late: 0,
        }
    }
}

#[derive(Clone, Serialize, Deserialize, Debug, PartialEq)]
pub struct Case {
    pub prop: String,
    pub seed: u64,
    pub shared: Vec<String>,
    pub views: Vec<(String, u8)>,
    pub threads: Vec<Vec<Op>>,
    pub env: Env,
}

/// An operation with the values of its operands and what it gave, to be repeated alone.
#[derive(Clone, Serialize, Deserialize, Debug)]
pub struct Solo {
    pub tid: u32,
    pub at: u32,
    pub op: Op,
    pub vals: Vec<String>,
    pub rest: String,
}
