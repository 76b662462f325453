//! Deterministic simulation of the whole library in one process per run. See ../../DESIGN.md.
#![allow(static_mut_refs)]
#![allow(unknown_lints)]
mod case;
mod coll;
mod exec;
mod gen;
mod io;
mod run;

use case::*;
use run::*;
use serde::{Deserialize, Serialize};
use simrt::sched::{class, ctr};
use simrt::shm::NCOUNT;
use std::collections::{BTreeMap, BTreeSet};
use std::time::{Duration, Instant};

#[global_allocator]
static A: simrt::arena::SimAlloc = simrt::arena::SimAlloc;

#[derive(Serialize, Deserialize, Clone)]
struct Replay {
    property: String,
    variant: String,
    class: String,
    class_id: u32,
    tid: u32,
    op: u32,
    detail: String,
    original_case_index: u64,
    case: Case,
}
#[derive(Serialize, Default)]
struct Out {
    variant: String,
    cases: u64,
    runs: u64,
    skipped: u64,
    skipped_idx: Vec<u64>,
    unreproduced: Vec<String>,
    known: BTreeMap<String, u64>,
    counters: BTreeMap<String, u64>,
    total_steps: u64,
    max_base_steps: u64,
    max_base_index: u64,
    sim_ns: u64,
    switches: u64,
    sigs: BTreeSet<String>,
    sched_kinds: BTreeMap<String, u64>,
    faults_env: BTreeMap<String, u64>,
    edges: BTreeSet<u32>,
    nguards: u32,
    nontrivial: u64,
    digest: u64,
    violation: Option<String>,
    violation_text: Option<String>,
    harness: Option<String>,
    sample: Option<serde_json::Value>,
    wall: f64,
    next_index: u64,
}

fn arg(a: &[String], n: &str) -> Option<String> {
    a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned()
}
fn num(a: &[String], n: &str, d: u64) -> u64 {
    arg(a, n).and_then(|s| s.parse().ok()).unwrap_or(d)
}
fn case_seed(seed: u64, i: u64) -> u64 {
    simrt::prng::mix(simrt::prng::mix(seed, 0x51), i)
}

fn main() {
    // the same addresses in every process: nothing may depend on them, but replays are then exact
    unsafe {
        let p = libc::personality(0xffff_ffff);
        if p & 0x0040000 == 0 && std::env::var_os("SIM_NOASLR").is_none() {
            std::env::set_var("SIM_NOASLR", "1");
            if libc::personality(p as libc::c_ulong | 0x0040000) != -1 {
                let args: Vec<std::ffi::CString> = std::env::args().map(|a| std::ffi::CString::new(a).unwrap()).collect();
                let mut ptrs: Vec<*const libc::c_char> = args.iter().map(|a| a.as_ptr()).collect();
                ptrs.push(std::ptr::null());
                libc::execv(b"/proc/self/exe\0".as_ptr() as *const _, ptrs.as_ptr());
            }
        }
    }
    let a: Vec<String> = std::env::args().collect();
    simrt::shm::map();
    simrt::arena::map();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("worker") => worker(&a),
        Some("replay") => replay(&a),
        Some("one") => one(&a),
        _ => {
            eprintln!("usage: simcheck worker|replay|one ...");
            2
        }
    };
    std::process::exit(code);
}

fn replay(a: &[String]) -> i32 {
    let rp: Replay = serde_json::from_str(&std::fs::read_to_string(&a[2]).expect("replay file")).expect("replay file");
    if a.iter().any(|x| x == "--debug") {
        unsafe { run::DEBUG = true }
    }
    match full_check(&rp.case) {
        Some((v, _)) => {
            println!("{} (thread {}, operation {}): {}", class::name(v.class), v.tid, v.op, v.detail);
            if v.class == rp.class_id && v.detail == rp.detail && v.tid == rp.tid && v.op == rp.op {
                println!("REPRODUCED exactly");
                1
            } else {
                println!("DIFFERENT from the recorded violation: {} ({}.{}) {}", rp.class, rp.tid, rp.op, rp.detail);
                3
            }
        }
        None => {
            println!("no violation");
            0
        }
    }
}

fn one(a: &[String]) -> i32 {
    let prop = arg(a, "--prop").unwrap();
    let i = num(a, "--index", 0);
    let k = num(a, "--run", 0);
    unsafe { run::DEBUG = true }
    let mut c = match arg(a, "--case") {
        Some(f) => serde_json::from_str::<Replay>(&std::fs::read_to_string(f).unwrap()).unwrap().case,
        None => gen::case(&prop, case_seed(num(a, "--seed", 1), i)),
    };
    let t0 = Instant::now();
    let (b, st, _) = baseline(&c);
    println!("baseline {} steps {:?}", st, t0.elapsed());
    if let Base::Ok(b) = &b {
        println!("{} late, {} shared events", b.late_events, b.shared_events);
    }
    match b {
        Base::Bad(v) => {
            println!("BASE {} t{} op{}: {}", class::name(v.class), v.tid, v.op, v.detail);
            println!("{}", serde_json::to_string(&c).unwrap());
        }
        Base::Skip => {
            let s = simrt::shm::shm();
            let t = (s.cur_tid as usize).min(3);
            println!("skipped in thread {} operation {}: {:?}", t, s.cur_op[t], c.threads.get(t).and_then(|x| x.get(s.cur_op[t] as usize)));
        }
        Base::Ok(b) => {
            if a.iter().any(|x| x == "--log") {
                for t in 0..c.threads.len() {
                    println!("-- thread {}\n{}", t, String::from_utf8_lossy(&b.logs[t]));
                }
            }
            if arg(a, "--case").is_none() {
                c.env = gen::env(&c, k, &b);
            }
            println!("{:?}", c.env);
            let t0 = Instant::now();
            let (v, r, _) = simulate(&c, &b);
            println!("run: status {} steps {} switches {} {:?}", r.status, r.steps, r.switches, t0.elapsed());
            if let Some(v) = v {
                println!("{} t{} op{}: {}", class::name(v.class), v.tid, v.op, v.detail);
                println!("{}", serde_json::to_string(&c).unwrap());
            }
        }
    }
    0
}

fn worker(a: &[String]) -> i32 {
    let prop = arg(a, "--prop").unwrap();
    let variant = arg(a, "--variant").unwrap_or_default();
    let seed = num(a, "--seed", 1);
    let (from, step, count) = (num(a, "--from", 0), num(a, "--step", 1), num(a, "--count", u64::MAX));
    let sims = num(a, "--sims", 2);
    let out_file = arg(a, "--out").unwrap();
    let replay_dir = arg(a, "--replay-dir").unwrap();
    let t0 = Instant::now();
    let deadline = t0 + Duration::from_millis(num(a, "--deadline-ms", 60_000));
    let known: Vec<(String, String)> = arg(a, "--known")
        .and_then(|f| std::fs::read_to_string(f).ok())
        .unwrap_or_default()
        .lines()
        .filter_map(|l| {
            // "known: property=<id> class=<class> match=<text>"
            let l = l.strip_prefix("known: property=")?;
            let (id, l) = l.split_once(" class=")?;
            let (cl, m) = l.split_once(" match=")?;
            if id == prop {
                Some((cl.to_string(), m.trim().to_string()))
            } else {
                None
            }
        })
        .collect();
    let mut o = Out { variant: variant.clone(), ..Default::default() };
    let mut cnt = [0u64; NCOUNT];
    let mut done = 0;
    let mut i = from;
    let mut next = from;
    let mut queue: Vec<Case> = vec![];
    'cases: while (done < count || !queue.is_empty()) && Instant::now() < deadline {
        let (mut c, is_derived) = match queue.pop() {
            Some(c) => (c, true),
            None => {
                done += 1;
                i = next;
                next += step;
                (gen::case(&prop, case_seed(seed, i)), false)
            }
        };
        o.cases += 1;
        let (b, st, ct) = baseline(&c);
        o.runs += 1;
        o.total_steps += st;
        if st > o.max_base_steps {
            o.max_base_steps = st;
            o.max_base_index = i;
        }
        for k in 0..NCOUNT {
            cnt[k] += ct[k];
        }
        o.digest = simrt::prng::mix(o.digest, st);
        let mut found: Option<(Viol, Case)> = None;
        match b {
            Base::Bad(v) => {
                let mut q = c.clone();
                let w = q.env.warm;
                q.env = Env::quiet();
                q.env.warm = w;
                found = Some((v, q));
            }
            Base::Skip => {
                o.skipped += 1;
                o.skipped_idx.push(i);
            }
            Base::Ok(b) => {
                let mut any = false;
                // state that is shared and written after its construction deserves a closer look
                let sims = if b.late_events > 0 { sims * 6 } else { sims };
                cnt[ctr::idx("shared_state_cases")] += (b.late_events > 0) as u64;
                if b.late_events > 0 && !is_derived {
                    queue.extend((0..10).filter_map(|k| gen::derived(&c, &b, k)));
                }
                for k in 0..sims {
                    if Instant::now() >= deadline {
                        break;
                    }
                    c.env = gen::env(&c0(&c), k, &b);
                    let (v, r, rec) = simulate(&c, &b);
                    o.runs += 1 + rec.is_some() as u64;
                    o.total_steps += r.steps;
                    o.sim_ns += r.sim_ns;
                    o.switches += r.switches as u64;
                    o.nguards = o.nguards.max(r.nguards);
                    if r.switches > 0 {
                        o.sigs.insert(format!("{:x}", r.sig));
                    }
                    o.digest = simrt::prng::mix(simrt::prng::mix(o.digest, r.steps), r.sig);
                    for t in 0..c.threads.len() {
                        o.digest = simrt::prng::mix(o.digest, simrt::prng::hash_bytes(&r.logs[t]));
                    }
                    for x in 0..NCOUNT {
                        cnt[x] += r.counters[x];
                    }
                    if let Some(rec) = &rec {
                        cnt[ctr::idx("crash_restart")] += (r.status == 3) as u64;
                        cnt[ctr::idx("lost_record")] += (c.env.disk_fault == 1 && r.durable < r.disk.len()) as u64;
                        cnt[ctr::idx("torn_record")] += (c.env.disk_fault == 2 && r.durable < r.disk.len()) as u64;
                        for x in 0..NCOUNT {
                            cnt[x] += rec.counters[x];
                        }
                    }
                    any |= r.counters[ctr::idx("values_observed")] > 0;
                    let sk = match &c.env.sched {
                        Sched::Seq => "seq",
                        Sched::Ops => "ops",
                        Sched::Geo(_) => "geo",
                        Sched::Pct(..) => "pct",
                        Sched::Hot(_) => "hot",
                        Sched::Words(..) => "words",
                        Sched::Explicit(_) => "explicit",
                    };
                    *o.sched_kinds.entry(sk.into()).or_default() += 1;
                    for (n, f) in [
                        ("memory_contents", c.env.fresh > 0),
                        ("minimal_alignment", c.env.minimal_align),
                        ("block_reuse", c.env.reuse > 0),
                        ("block_skew", c.env.skew > 0),
                        ("dirty_stack", c.env.dirty),
                        ("spurious_wakeups", c.env.spurious > 0),
                        ("stall", c.env.stall.is_some()),
                        ("alloc_failure", c.env.fail_at > 0),
                        ("crash", c.env.crash_at > 0),
                        ("clock_jump", c.env.clock_jump > 0),
                        ("locale", c.env.locale > 0),
                        ("environment", c.env.vars > 0),
                        ("cold_start", !c.env.warm),
                        ("thread_teardown", c.env.late > 0),
                        ("thread_generations", c.env.many()),
                    ] {
                        if f {
                            *o.faults_env.entry(n.into()).or_default() += 1;
                        }
                    }
                    if o.sample.is_none() && any {
                        let mut s = c.clone();
                        for t in s.threads.iter_mut() {
                            t.truncate(6);
                        }
                        o.sample = Some(serde_json::to_value(&s).unwrap());
                    }
                    if let Some(v) = v {
                        found = Some((v, c.clone()));
                        break;
                    }
                }
                o.nontrivial += any as u64;
            }
        }
        if let Some((v, c)) = found {
            if v.class == class::HARNESS {
                o.harness = Some(format!("case {}: {}", i, v.detail));
                break 'cases;
            }
            let line = |v: &Viol| format!("{}: {}", class::name(v.class), v.detail);
            if let Some(k) = known.iter().find(|k| k.0 == class::name(v.class) && v.detail.contains(&k.1)) {
                *o.known.entry(k.1.clone()).or_default() += 1;
                continue;
            }
            // it must come again by itself, in full
            let again = full_check(&c).map(|x| x.0);
            if again.as_ref() != Some(&v) {
                let again2 = full_check(&c).map(|x| x.0);
                if again.is_none() || again2.is_none() || again.as_ref().map(|x| x.class) != Some(v.class) {
                    o.unreproduced.push(format!("case {}: {}", i, line(&v)));
                    continue;
                }
            }
            let mut m = Min { tries: 0, limit: num(a, "--min-tries", 400) as u32, until: Instant::now() + Duration::from_millis(num(a, "--min-ms", 60_000)) };
            let (mc, mv) = m.run(c, v.clone());
            if let Some(k) = known.iter().find(|k| k.0 == class::name(mv.class) && mv.detail.contains(&k.1)) {
                *o.known.entry(k.1.clone()).or_default() += 1;
                continue;
            }
            let rp = Replay {
                property: prop.clone(),
                variant: variant.clone(),
                class: class::name(mv.class).into(),
                class_id: mv.class,
                tid: mv.tid,
                op: mv.op,
                detail: mv.detail.clone(),
                original_case_index: i,
                case: mc,
            };
            let f = format!("{}/{}-{}-{}-{}.json", replay_dir, prop, variant, seed, i);
            std::fs::write(&f, serde_json::to_string_pretty(&rp).unwrap()).expect("write replay");
            o.violation = Some(f);
            o.violation_text = Some(line(&mv));
            break 'cases;
        }
    }
    o.next_index = next;
    for (k, n) in ctr::NAMES.iter().enumerate() {
        if cnt[k] > 0 {
            o.counters.insert(n.to_string(), cnt[k]);
        }
    }
    for (k, x) in coverage().iter().enumerate() {
        if *x > 0 {
            o.edges.insert(k as u32);
        }
    }
    o.wall = t0.elapsed().as_secs_f64();
    std::fs::write(&out_file, serde_json::to_string(&o).unwrap()).expect("write result");
    if o.harness.is_some() {
        2
    } else if o.violation.is_some() {
        1
    } else {
        0
    }
}
/// The case with the environment the generator gave it.
fn c0(c: &Case) -> Case {
    gen::case(&c.prop, c.seed)
}
