//! Runs a case in a forked process, compares runs, minimises failures.
use crate::case::*;
use crate::exec::*;
use crate::io;
use decmodel::Val;
use pgnumeric::Numeric;
use simrt::arena::{self, MemCfg};
use simrt::sched::{self, class as c, Setup};
use simrt::shm::{shm, COVCAP, MAXT, NCOUNT};
use simrt::{hooks, sys};
use std::collections::VecDeque;

pub fn mask(prop: &str) -> u64 {
    let l: &[u32] = match prop {
        "C01" => &[c::DIFF, c::CRASH, c::DEADLOCK, c::HANG, c::WALL, c::UAF, c::DOUBLE_FREE],
        "C02" => &[c::BAD_LAYOUT, c::DOUBLE_FREE, c::WILD_FREE, c::UAF, c::LEAK, c::CANARY, c::CRASH],
        "C03" => &[c::MODEL, c::PANIC, c::CRASH, c::DEADLOCK],
        "C04" => &[c::FAIL_STATE, c::CRASH, c::UAF, c::DOUBLE_FREE, c::DEADLOCK],
        "C05" => &[c::BYSTANDER, c::RO_WRITE, c::UAF, c::CRASH],
        "C06" => &[c::DIFF, c::OOB, c::RO_WRITE, c::UAF, c::CANARY, c::CRASH],
        "C07" => &[c::SINK, c::CRASH, c::HANG, c::DEADLOCK],
        "C08" => &[c::STORE, c::CANON, c::CRASH],
        "C09" => &[c::CORRUPT, c::OOB, c::RO_WRITE, c::UAF, c::CANARY, c::CRASH, c::HANG, c::WALL],
        "C10" => &[c::SERDE, c::CRASH, c::HANG, c::BYSTANDER, c::DEADLOCK],
        "C11" => &[c::MAP, c::CRASH, c::HANG],
        "C12" => &[c::ENV, c::DIFF, c::CRASH],
        "C13" => &[c::REENTRY, c::DIFF, c::DEADLOCK, c::HANG, c::CRASH, c::WALL],
        "C14" => &[c::STALL, c::DIFF, c::DEADLOCK, c::HANG, c::CRASH, c::ALLOCFAIL, c::WALL],
        _ => &[],
    };
    l.iter().fold(0, |m, x| m | 1 << x)
}

#[derive(Clone, Debug, PartialEq)]
pub struct Viol {
    pub class: u32,
    pub tid: u32,
    pub op: u32,
    pub detail: String,
}
pub struct Res {
    /// 1 finished, 2 violation, 3 crashed as planned, 0 died
    pub status: u32,
    pub viol: Option<Viol>,
    pub signal: i32,
    pub alloc_failed: bool,
    pub logs: Vec<Vec<u8>>,
    pub counters: [u64; NCOUNT],
    pub steps: u64,
    pub lsteps: [u64; MAXT],
    pub sig: u64,
    pub switches: u32,
    pub trace: Vec<(u16, u64, u16)>,
    pub kinds: Vec<u32>,
    pub sim_ns: u64,
    pub disk: Vec<u8>,
    pub durable: usize,
    pub nguards: u32,
    pub shared_events: u64,
    pub late_events: u64,
    pub late_ops: [u64; MAXT],
}

pub static mut DEBUG: bool = false;

/// So many more cycles are run when memory has grown: a few, and as many as it takes to tell a
/// store of results that has a limit from one that has none.
const MORE: usize = 10;
const MOST: usize = 150;

struct Sh(*const Shared);
unsafe impl Sync for Sh {}
unsafe impl Send for Sh {}

unsafe fn limits() {
    let r = libc::rlimit { rlim_cur: 60, rlim_max: 65 };
    libc::setrlimit(libc::RLIMIT_CPU, &r);
    let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
    libc::setrlimit(libc::RLIMIT_CORE, &z);
    libc::alarm(300);
    if !DEBUG {
        let fd = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
        libc::dup2(fd, 2);
    }
}

fn prepare(case: &Case, env: &Env) {
    unsafe {
        sched::DEBUG_PANICS = DEBUG;
        sched::DETECT = mask(&case.prop);
        sched::install_panic_hook();
        hooks::SIM_ENV = true;
        hooks::RAND_SEED = case.seed | 1;
        hooks::CLOCK_JUMP = env.clock_jump;
        hooks::VARS = env.vars;
        arena::configure(&MemCfg {
            on: true,
            fresh: arena::fresh_from(env.fresh as u64),
            minimal_align: env.minimal_align,
            reuse: env.reuse,
            seed: env.mem_seed,
            fail_at: 0,
            skew: env.skew,
        });
        sched::NEXT = 1_000_000;
        SOLO = env.solo;
        if env.locale > 0 {
            set_locale(env.locale);
        }
    }
}

static mut CTX: [usize; MAXT] = [0; MAXT];
/// Body of the forked process.
fn child(case: &Case, env: &Env, budget: u64) -> ! {
    unsafe {
        limits();
        prepare(case, env);
        MAIL = (0..64).map(|_| VecDeque::new()).collect();
        let mut sh = Shared { bufs: vec![], views: vec![] };
        for v in &case.shared {
            let m = Val::parse(&expand(v)).expect("shared value");
            let b = m.encode(BE);
            let cb: &'static [u8] = arena::caller_bytes(&b, 2, true);
            let n = sys(|| Numeric::from_bytes_unchecked(cb).to_owned()).ok();
            let snap = n.as_ref().map(|n| n.as_bytes().to_vec()).unwrap_or_default();
            if let Some(n) = &n {
                arena::freeze(n.as_bytes());
            }
            sh.bufs.push(Slot { n, m, snap });
        }
        for (v, al) in &case.views {
            let m = Val::parse(&expand(v)).expect("view value");
            let b = if *al >= 3 { m.encode_old(BE) } else { m.encode(BE) };
            let cb: &'static [u8] = arena::caller_bytes(&b, [2, 4, 8][*al as usize % 3], true);
            sh.views.push((cb, m, b));
        }
        let n = case.threads.len();
        crate::exec::LIMIT = 400_000_000 / (1 + n as i64);
        let shp = Sh(&sh);
        let mut phase = 0;
        if env.warm {
            let f = |t: usize| {
                let shp = &shp;
                let mut cx = Ctx::new(t, &*shp.0, false, 1);
                cx.run(&case.threads[t]);
                cx.drop_all();
            };
            sched::run_threads(
                Setup { nthreads: n, strategy: simrt::sched::Strategy::Seq, seed: 1, budget, spurious: 0, stall: None, phase, crash_at: 0, teardown: false },
                &f,
            );
            phase = 1;
        }
        arena::set_fail_at(env.fail_at);
        let mut live: Vec<(i64, i64)> = vec![];
        let planned = env.cycles.max(1) as usize;
        let mut cyc = 0;
        let seq = arena::SEQ;
        loop {
            if cyc >= planned {
                if planned < 3 || !sched::detects(c::LEAK) || live[cyc - 1].0 <= live[planned - 2].0 {
                    break;
                }
                let l = &live[cyc.saturating_sub(MORE / 2 + 1)..];
                let more = (l[l.len() - 1].0 - l[0].0, l[l.len() - 1].1 - l[0].1);
                let say = |w: &str| vio(&[c::LEAK], &format!("an identical history, repeated {} times, leaves {} more blocks ({} bytes) allocated{}", l.len() - 1, more.0, more.1, w));
                let gone = arena::lost(seq);
                if gone.0 > 0 {
                    say(", to which no pointer is left");
                    break;
                }
                let grew = l.windows(2).filter(|w| w[1].0 > w[0].0).count();
                if cyc >= planned + MORE && grew + 1 < MORE / 2 {
                    break;
                }
                if cyc >= planned + MOST {
                    say(", without limit");
                    break;
                }
            }
            for q in MAIL.iter_mut() {
                q.clear();
            }
            let f = |t: usize| {
                let shp = &shp;
                // the last operations may fall into the end of the thread
                let prog = &case.threads[t];
                let cut = prog.len() - prog.len() * env.late.min(8) as usize / 8;
                if env.late == 0 {
                    let mut cx = Ctx::new(t, &*shp.0, env.dirty, cyc as u32);
                    cx.run(prog);
                    cx.drop_all();
                } else if CTX[t] == 0 {
                    let mut cx = Box::new(Ctx::new(t, &*shp.0, env.dirty, cyc as u32));
                    cx.run_part(prog, 0, cut);
                    CTX[t] = Box::into_raw(cx) as usize;
                } else {
                    let mut cx = Box::from_raw(CTX[t] as *mut Ctx);
                    CTX[t] = 0;
                    bump("ended_late");
                    cx.run_part(prog, cut, prog.len());
                    cx.drop_all();
                }
            };
            sched::run_threads(
                Setup {
                    nthreads: n,
                    strategy: env.sched.strategy(),
                    seed: env.sched_seed,
                    budget: if cyc < planned { budget } else { budget * 4 },
                    spurious: env.spurious,
                    stall: env.stall,
                    phase: phase + cyc as u64,
                    crash_at: env.crash_at,
                    teardown: env.late > 0,
                },
                &f,
            );
            for q in MAIL.iter_mut() {
                while let Some(m) = q.pop_front() {
                    sys(|| drop(m)).ok();
                }
            }
            live.push((arena::LIVE_BLOCKS, arena::LIVE_BYTES));
            if env.cycles > 1 {
                bump(if env.many() { "thread_generations" } else { "leak_cycles" });
            }
            cyc += 1;
        }
        for s in sh.bufs.iter_mut() {
            let n = s.n.take();
            if let Some(n) = &n {
                arena::thaw(n.as_bytes());
            }
            sys(|| drop(n)).ok();
        }
        sched::end_run_ok()
    }
}

fn collect(pid: i32, nthreads: usize) -> Res {
    let mut st = 0;
    unsafe {
        while libc::waitpid(pid, &mut st, 0) < 0 {}
    }
    let s = shm();
    let viol = if s.nviol > 0 {
        let v = &s.viol[0];
        Some(Viol { class: v.class, tid: v.tid, op: v.op, detail: String::from_utf8_lossy(&v.detail[..v.len as usize]).into_owned() })
    } else {
        None
    };
    let nt = s.ntrace as usize;
    Res {
        status: s.status,
        viol,
        signal: if libc::WIFSIGNALED(st) { libc::WTERMSIG(st) } else { 0 },
        alloc_failed: s.alloc_fail_fired != 0,
        logs: (0..MAXT).map(|i| if i < nthreads || i >= 4 { s.logs[i][..s.nlog[i] as usize].to_vec() } else { vec![] }).collect(),
        counters: s.counters,
        steps: s.total_steps,
        lsteps: s.lsteps,
        sig: s.sig,
        switches: s.switches,
        trace: s.trace[..nt].iter().map(|p| (p.tid, p.lstep, p.to)).collect(),
        kinds: s.trace[..nt].iter().map(|p| p.kind).collect(),
        sim_ns: s.sim_ns,
        disk: s.disk[..s.disk_len as usize].to_vec(),
        durable: s.disk_durable as usize,
        nguards: s.nguards,
        shared_events: s.shared_events,
        late_events: s.late_events,
        late_ops: s.late_ops,
    }
}
pub fn execute(case: &Case, env: &Env, budget: u64) -> Res {
    shm().reset(false);
    unsafe {
        let pid = libc::fork();
        if pid == 0 {
            child(case, env, budget);
        }
        assert!(pid > 0, "fork failed");
        collect(pid, case.threads.len())
    }
}
/// The process after the crash.
pub fn execute_recovery(case: &Case, env: &Env, disk: &[u8], durable: usize, acks: &[String]) -> Res {
    shm().reset(false);
    unsafe {
        let pid = libc::fork();
        if pid == 0 {
            limits();
            prepare(case, env);
            io::recover(disk, durable, acks, env.mem_seed ^ 0x77);
            sched::end_run_ok()
        }
        assert!(pid > 0, "fork failed");
        collect(pid, 0)
    }
}

fn died(r: &Res, case: &Case, env: &Env) -> Option<Viol> {
    let m = mask(&case.prop);
    let s = shm();
    let tid = s.cur_tid.min(MAXT as u32 - 1);
    let op = s.cur_op[tid as usize];
    let opn = case.threads.get(tid as usize).and_then(|t| t.get(op as usize)).map(name).unwrap_or_default();
    if r.status == 0 {
        if r.signal == libc::SIGXCPU || r.signal == libc::SIGALRM || r.signal == libc::SIGKILL {
            if m >> c::WALL & 1 == 1 {
                return Some(Viol { class: c::WALL, tid, op, detail: format!("the run used up its processor time in {}", opn) });
            }
            return None;
        }
        if r.signal == libc::SIGABRT && r.alloc_failed && env.fail_at > 0 {
            return None; // running out of memory may end the process
        }
        if m >> c::CRASH & 1 == 1 {
            // a panic that cannot unwind ends in SIGABRT; its message says what was wrong
            let mut why = String::new();
            if r.signal == libc::SIGABRT && s.npanic > 0 {
                let m = String::from_utf8_lossy(&s.panic[..s.npanic as usize]).into_owned();
                let m: String = m.split_whitespace().map(|w| if w.starts_with("0x") && w.len() > 4 { "0x.." } else { w }).collect::<Vec<_>>().join(" ");
                why = format!(": {}{}", if s.note == 1 { "borrowing bytes at an odd address: " } else { "" }, m);
            }
            return Some(Viol { class: c::CRASH, tid, op, detail: format!("the process died of signal {} in {}{}", r.signal, opn, why) });
        }
    }
    None
}
/// Violation seen by this run alone (without comparison).
pub fn own_violation(r: &Res, case: &Case, env: &Env) -> Option<Viol> {
    if let Some(v) = &r.viol {
        return Some(v.clone());
    }
    died(r, case, env)
}
fn lines(b: &[u8]) -> Vec<String> {
    String::from_utf8_lossy(b).lines().map(|s| s.to_string()).collect()
}
/// Compares what the threads saw with the quiet run.
pub fn diff(base: &Res, r: &Res, case: &Case, env: &Env) -> Option<Viol> {
    let m = mask(&case.prop);
    let cls = if env.fail_at > 0 { c::ALLOCFAIL } else { c::DIFF };
    if m >> cls & 1 == 0 {
        return None;
    }
    let full = r.status == 1;
    for t in 0..case.threads.len() {
        let (a, b) = (lines(&base.logs[t]), lines(&r.logs[t]));
        for i in 0..a.len().max(b.len()) {
            match (a.get(i), b.get(i)) {
                (Some(x), Some(y)) if x == y => {}
                (Some(_), None) if !full => break,
                (x, y) => {
                    let op = x.or(y).and_then(|l| l.split(' ').next()).and_then(|n| n.parse().ok()).unwrap_or(0);
                    let cut = |s: Option<&String>| s.map(|s| s.chars().take(300).collect::<String>()).unwrap_or_else(|| "nothing".into());
                    return Some(Viol {
                        class: cls,
                        tid: t as u32,
                        op,
                        detail: format!("alone: [{}], here: [{}]", cut(x), cut(y)),
                    });
                }
            }
        }
    }
    None
}

pub const BASE_BUDGET: u64 = 800_000_000;
pub enum Base {
    Ok(Box<Res>),
    Bad(Viol),
    Skip,
}
pub fn baseline(case: &Case) -> (Base, u64, [u64; NCOUNT]) {
    let mut q = Env::quiet();
    q.warm = case.env.warm;
    let r = execute(case, &q, BASE_BUDGET);
    sched::import_words();
    if std::env::var("SIM_WORDS").is_ok() {
        eprintln!("{} late, {} shared events {:x?}", r.late_events, r.shared_events, unsafe { &sched::SHARED });
    }
    let (st, ct) = (r.steps, r.counters);
    if let Some(v) = &r.viol {
        if v.class == c::HANG || v.class == c::HARNESS {
            // cases are generated to stay far below the budget: an operation does not finish
            if v.class == c::HARNESS || mask(&case.prop) >> c::HANG & 1 == 1 {
                return (Base::Bad(v.clone()), st, ct);
            }
            return (Base::Skip, st, ct);
        }
    }
    if r.status == 0 && (r.signal == libc::SIGXCPU || r.signal == libc::SIGALRM || r.signal == libc::SIGKILL) {
        return (Base::Skip, st, ct);
    }
    match own_violation(&r, case, &q) {
        Some(v) => (Base::Bad(v), st, ct),
        None => {
            if r.status == 0 {
                (Base::Skip, st, ct)
            } else {
                (Base::Ok(Box::new(r)), st, ct)
            }
        }
    }
}
pub fn budget_of(base: &Res) -> u64 {
    base.steps * 20 + 2_000_000
}
/// One simulated run under `case.env`, with everything that is checked about it.
pub fn simulate(case: &Case, base: &Res) -> (Option<Viol>, Res, Option<Res>) {
    let env = &case.env;
    let r = execute(case, env, budget_of(base));
    if let Some(v) = own_violation(&r, case, env) {
        return (Some(v), r, None);
    }
    if let Some(v) = diff(base, &r, case, env) {
        return (Some(v), r, None);
    }
    if env.solo > 0 {
        if let Some(v) = solo_check(&r, case, env) {
            return (Some(v), r, None);
        }
    }
    if case.prop == "C08" {
        let mut disk = r.disk.clone();
        let durable = if r.status == 3 { r.durable } else { disk.len() };
        match env.disk_fault {
            1 => disk.truncate(durable),
            2 => {
                let tail = disk.len() - durable;
                if tail > 0 {
                    let keep = durable + (env.mem_seed as usize % (tail + 1));
                    for (i, b) in disk.iter_mut().enumerate().skip(keep) {
                        *b = (env.mem_seed >> (i % 8 * 8)) as u8;
                    }
                }
            }
            _ => {}
        }
        let acks = lines(&r.logs[5]);
        let rec = execute_recovery(case, env, &disk, durable, &acks);
        let v = match &rec.viol {
            Some(v) => Some(v.clone()),
            None => died(&rec, case, env),
        };
        return (v, r, Some(rec));
    }
    (None, r, None)
}
/// Repeats recorded operations one by one, each alone in a fresh process.
fn solo_check(r: &Res, case: &Case, env: &Env) -> Option<Viol> {
    let cap = if env.solo == 1 { 400 } else { 3 };
    let recs = lines(&r.logs[4]);
    let skip = if env.solo == 1 { 0 } else { env.sched_seed as usize % recs.len().max(1) };
    let n = recs.len();
    for l in recs.iter().cycle().skip(skip).take(n.min(cap)) {
        let s: Solo = match serde_json::from_str(l) {
            Ok(s) => s,
            Err(_) => continue, // cut off at the end of the log
        };
        let mut prog: Vec<Op> = s.vals.iter().enumerate().map(|(i, v)| Op::Set { d: i as u16, v: v.clone(), how: 1 }).collect();
        prog.push(s.op.clone());
        let at = prog.len() - 1;
        let mini = Case { prop: case.prop.clone(), seed: case.seed, shared: vec![], views: vec![], threads: vec![prog], env: Env::quiet() };
        let q = execute(&mini, &mini.env, BASE_BUDGET);
        if q.viol.is_some() || q.status != 1 {
            continue;
        }
        let out = lines(&q.logs[0]);
        let pre = format!("{} {}", at, name(&s.op));
        if let Some(rest) = out.get(at).and_then(|l| l.strip_prefix(&pre)) {
            // an operation left out for its cost (which depends on the program so far) is no result
            if rest != s.rest && !rest.ends_with(" skip") && !s.rest.ends_with(" skip") {
                return Some(Viol {
                    class: c::DIFF,
                    tid: s.tid,
                    op: s.at,
                    detail: format!("{} of {:?}: alone in a fresh process [{}], here [{}]", name(&s.op), s.vals.iter().map(|v| short(v)).collect::<Vec<_>>(), short(rest), short(&s.rest)),
                });
            }
        }
    }
    None
}
/// Baseline plus run: what a replay does.
pub fn full_check(case: &Case) -> Option<(Viol, Option<Res>)> {
    match baseline(case).0 {
        Base::Bad(v) => Some((v, None)),
        Base::Skip => None,
        Base::Ok(b) => {
            let (v, r, _) = simulate(case, &b);
            v.map(|v| (v, Some(r)))
        }
    }
}

// ---- minimisation -------------------------------------------------------------------------
pub struct Min {
    pub tries: u32,
    pub limit: u32,
    pub until: std::time::Instant,
}
impl Min {
    fn ok(&mut self, case: &Case, class: u32) -> Option<(Viol, Option<Res>)> {
        if self.tries >= self.limit || std::time::Instant::now() > self.until {
            return None;
        }
        self.tries += 1;
        match full_check(case) {
            Some((v, r)) if v.class == class => Some((v, r)),
            _ => None,
        }
    }
    /// Shrinks the case while a violation of the same class remains.
    pub fn run(&mut self, case: Case, v: Viol) -> (Case, Viol) {
        let class = v.class;
        let mut best = case;
        let mut bv = v;
        // quiet environment, piece by piece
        let q = Env::quiet();
        let edits: Vec<Box<dyn Fn(&mut Env)>> = vec![
            Box::new(|e| e.sched = Sched::Seq),
            Box::new(|e| e.stall = None),
            Box::new(|e| e.spurious = 0),
            Box::new(|e| {
                e.fresh = 0;
                e.dirty = false;
            }),
            Box::new(|e| e.reuse = 0),
            Box::new(|e| e.minimal_align = false),
            Box::new(|e| e.skew = 0),
            Box::new(|e| e.crash_at = 0),
            Box::new(|e| e.disk_fault = 0),
            Box::new(|e| e.locale = 0),
            Box::new(|e| e.vars = 0),
            Box::new(|e| e.clock_jump = 0),
            Box::new(|e| e.warm = false),
            Box::new(|e| e.fail_at = 0),
            Box::new(|e| e.cycles = 1),
            Box::new(|e| e.late = 0),
        ];
        let mut all = best.clone();
        all.env = q;
        all.env.cycles = best.env.cycles;
        if let Some((v, _)) = self.ok(&all, class) {
            best = all;
            bv = v;
        } else {
            for e in &edits {
                let mut t = best.clone();
                e(&mut t.env);
                if t == best {
                    continue;
                }
                if let Some((v, _)) = self.ok(&t, class) {
                    best = t;
                    bv = v;
                }
            }
        }
        if best.env.solo > 1 {
            let mut t = best.clone();
            t.env.solo = 1;
            if let Some((v, _)) = self.ok(&t, class) {
                best = t;
                bv = v;
            }
        }
        let mut t = best.clone();
        t.env.solo = 0;
        if let Some((v, _)) = self.ok(&t, class) {
            best = t;
            bv = v;
        }
        // operations
        let sched_matters = best.env.sched != Sched::Seq;
        loop {
            let before: usize = best.threads.iter().map(|t| t.len()).sum();
            for t in (0..best.threads.len()).rev() {
                let mut chunk = best.threads[t].len().max(1);
                while chunk >= 1 {
                    let mut i = 0;
                    while i < best.threads[t].len() {
                        if self.tries >= self.limit {
                            break;
                        }
                        let mut x = best.clone();
                        let end = (i + chunk).min(x.threads[t].len());
                        if x.threads[t][i..end].iter().any(|o| matches!(o, Op::Send { .. } | Op::Recv { .. })) && !all_links(&x, t, i, end) {
                            i += chunk;
                            continue;
                        }
                        x.threads[t].drain(i..end);
                        let mut hit = None;
                        let seeds = if sched_matters { 4 } else { 1 };
                        for k in 0..seeds {
                            let mut y = x.clone();
                            if k > 0 {
                                y.env.sched_seed = y.env.sched_seed.wrapping_add(k * 7919);
                            }
                            if let Some((v, _)) = self.ok(&y, class) {
                                hit = Some((y, v));
                                break;
                            }
                        }
                        match hit {
                            Some((y, v)) => {
                                best = y;
                                bv = v;
                            }
                            None => i += chunk,
                        }
                    }
                    if chunk == 1 {
                        break;
                    }
                    chunk = (chunk / 2).max(1);
                }
            }
            // empty trailing threads
            while best.threads.len() > 1 && best.threads.last().map_or(false, |t| t.is_empty()) {
                let mut x = best.clone();
                x.threads.pop();
                match self.ok(&x, class) {
                    Some((v, _)) => {
                        best = x;
                        bv = v;
                    }
                    None => break,
                }
            }
            let after: usize = best.threads.iter().map(|t| t.len()).sum();
            if after == before || self.tries >= self.limit {
                break;
            }
        }
        // freeze the schedule
        if best.env.sched != Sched::Seq {
            self.limit = self.limit.max(self.tries + 40);
            if let Some((_, Some(r))) = self.ok(&best, class) {
                let mut x = best.clone();
                x.env.sched = Sched::Explicit(r.trace.clone());
                if let Some((v, _)) = self.ok(&x, class) {
                    best = x;
                    bv = v;
                    self.limit += 60;
                    let mut chunk = r.trace.len().max(1);
                    while chunk >= 1 {
                        let mut i = 0;
                        loop {
                            let cur = match &best.env.sched {
                                Sched::Explicit(t) => t.clone(),
                                _ => vec![],
                            };
                            if i >= cur.len() || self.tries >= self.limit {
                                break;
                            }
                            let mut t = cur.clone();
                            t.drain(i..(i + chunk).min(cur.len()));
                            let mut x = best.clone();
                            x.env.sched = Sched::Explicit(t);
                            match self.ok(&x, class) {
                                Some((v, _)) => {
                                    best = x;
                                    bv = v;
                                }
                                None => i += chunk,
                            }
                        }
                        if chunk == 1 {
                            break;
                        }
                        chunk /= 2;
                    }
                }
            }
        }
        // shared values and views nobody names stay where they are (their numbers are operands)
        (best, bv)
    }
}
/// Sends and receives may only be removed together with their partners; simplest: never in part.
fn all_links(_c: &Case, _t: usize, _i: usize, _e: usize) -> bool {
    false
}

pub fn coverage() -> Vec<u8> {
    shm().cov[..COVCAP].to_vec()
}
/// `[9*40]` in a literal stands for forty nines.
pub fn expand(s: &str) -> String {
    if !s.contains('[') {
        return s.to_string();
    }
    let mut out = String::new();
    let mut it = s.chars();
    while let Some(ch) = it.next() {
        if ch == '[' {
            let body: String = it.by_ref().take_while(|c| *c != ']').collect();
            if let Some((a, n)) = body.split_once('*') {
                out.push_str(&a.repeat(n.parse().unwrap_or(0)));
            }
        } else {
            out.push(ch);
        }
    }
    out
}
