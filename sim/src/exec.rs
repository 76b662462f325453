//! Executes the programs of a case against the real library, with the model alongside.
use crate::case::*;
use crate::io;
use decmodel::{Fail, Res, Val};
use pgnumeric::{Numeric, NumericBuf, Typmod};
use simrt::sched::{self, class as c};
use simrt::shm::shm;
use simrt::{arena, host, prng, sys};
use std::borrow::{Borrow, Cow};
use std::cmp::Ordering;
use std::collections::VecDeque;
use std::convert::TryFrom;
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};

pub const BE: bool = cfg!(feature = "be");
pub const NREG: usize = 8;

pub struct Slot {
    pub n: Option<NumericBuf>,
    pub m: Val,
    pub snap: Vec<u8>,
}
pub struct Shared {
    pub bufs: Vec<Slot>,
    pub views: Vec<(&'static [u8], Val, Vec<u8>)>,
}
/// What each program of the case may spend on operations on long numbers.
pub static mut LIMIT: i64 = 0;
pub static mut MAIL: Vec<VecDeque<Option<(NumericBuf, Val)>>> = Vec::new();

/// Reports the first of `cl` that this property watches.
pub fn vio(cl: &[u32], detail: &str) {
    for x in cl {
        if *x == c::FAIL_STATE && unsafe { !FAILED } {
            continue;
        }
        if sched::detects(*x) {
            sched::report(*x, detail);
        }
    }
}
pub static mut SOLO: u32 = 0;
/// An operation of this run has failed before.
pub static mut FAILED: bool = false;
pub fn bump(name: &str) {
    sched::count(sched::ctr::idx(name));
}
pub fn short(s: &str) -> String {
    if s.len() <= 70 {
        s.to_string()
    } else {
        format!("{}..{}[{} chars #{:x}]", &s[..24], &s[s.len() - 12..], s.len(), prng::hash_bytes(s.as_bytes()))
    }
}

#[derive(Clone, Copy)]
pub enum Opd<'a> {
    Buf(&'a NumericBuf),
    View(&'static [u8]),
}
impl<'a> Opd<'a> {
    /// runs library code: call inside `sys`
    #[inline]
    pub fn num(&self) -> &'a Numeric {
        match *self {
            Opd::Buf(b) => b,
            Opd::View(v) => unsafe { Numeric::from_bytes_unchecked(v) },
        }
    }
}

pub struct Ctx<'a> {
    pub tid: usize,
    pub regs: Vec<Slot>,
    pub sh: &'a Shared,
    pub dirty: bool,
    pub opi: u32,
    pub line: String,
    pub pass: u32,
    /// digit products the program has cost so far: what it may cost is bounded
    pub spent: i64,
}
fn empty() -> Slot {
    Slot { n: None, m: Val::NaN, snap: vec![] }
}
/// `operand outlives the borrow of the context` — the context never drops a register while an
/// operand of the running operation points to it.
unsafe fn long<'b>(n: &NumericBuf) -> &'b NumericBuf {
    &*(n as *const NumericBuf)
}

macro_rules! ints {
    ($m:ident, $ty:expr, $($a:tt)*) => {
        match $ty {
            0 => $m!(i8, $($a)*), 1 => $m!(i16, $($a)*), 2 => $m!(i32, $($a)*), 3 => $m!(i64, $($a)*),
            4 => $m!(i128, $($a)*), 5 => $m!(isize, $($a)*), 6 => $m!(u8, $($a)*), 7 => $m!(u16, $($a)*),
            8 => $m!(u32, $($a)*), 9 => $m!(u64, $($a)*), 10 => $m!(u128, $($a)*), _ => $m!(usize, $($a)*),
        }
    };
}

pub enum Out {
    Ok(NumericBuf),
    /// reported without a panic (None / Err)
    Refused,
    Panicked(String),
}
const DECLARED: [&str; 2] = ["attempt to divide by zero", "value overflows numeric format"];

impl<'a> Ctx<'a> {
    pub fn new(tid: usize, sh: &'a Shared, dirty: bool, pass: u32) -> Ctx<'a> {
        Ctx { tid, regs: (0..NREG).map(|_| empty()).collect(), sh, dirty, opi: 0, line: String::new(), pass, spent: 0 }
    }
    pub fn opd(&self, r: u16) -> Option<Opd<'static>> {
        unsafe {
            match r {
                0..=99 => self.regs.get(r as usize)?.n.as_ref().map(|n| Opd::Buf(long(n))),
                100..=199 => self.sh.bufs.get(r as usize - 100)?.n.as_ref().map(|n| Opd::Buf(long(n))),
                _ => self.sh.views.get(r as usize - 200).map(|v| Opd::View(v.0)),
            }
        }
    }
    pub fn model(&self, r: u16) -> Option<Val> {
        match r {
            0..=99 => {
                let s = self.regs.get(r as usize)?;
                s.n.as_ref().map(|_| s.m.clone())
            }
            100..=199 => self.sh.bufs.get(r as usize - 100).map(|s| s.m.clone()),
            _ => self.sh.views.get(r as usize - 200).map(|v| v.1.clone()),
        }
    }
    /// An owned copy of an operand, or the register itself if it is private (which becomes empty).
    fn own(&mut self, r: u16) -> Option<NumericBuf> {
        if (r as usize) < NREG {
            return self.regs[r as usize].n.take();
        }
        let o = self.opd(r)?;
        sys(|| o.num().to_owned()).ok()
    }

    /// Checks a produced value against the model; returns the value to go on with.
    pub fn judge(&mut self, n: &NumericBuf, m: Option<&Val>, what: &str) -> Val {
        let b = n.as_bytes();
        let got = Val::decode(b, BE);
        sched::count(sched::ctr::idx("values_observed"));
        match &got {
            Ok(v) => {
                if let Some(m) = m {
                    bump("model_checked");
                    if v != m {
                        vio(
                            &[c::MODEL, c::FAIL_STATE, c::CORRUPT, c::SERDE, c::STORE],
                            &format!("{}: expected {}, got {}", what, short(&m.text()), short(&v.text())),
                        );
                    }
                }
                let canon = v.encode(BE);
                if b != &canon[..] && !v.is_nan() {
                    vio(&[c::CANON], &format!("{}: {} has bytes {:02x?}, canonical are {:02x?}", what, short(&v.text()), head(b), head(&canon)));
                }
                if v.is_nan() && b.len() != nan_len() {
                    vio(&[c::CANON], &format!("{}: NaN has bytes {:02x?}", what, head(b)));
                }
                let h = if v.is_nan() { 0 } else { prng::hash_bytes(b) & 0xffff_ffff };
                let _ = write!(self.line, " {}#{:x}", short(&v.text()), h);
                v.clone()
            }
            Err(e) => {
                vio(
                    &[c::CANON, c::MODEL, c::FAIL_STATE, c::CORRUPT, c::SERDE],
                    &format!("{}: bytes {:02x?} are not a numeric: {}", what, head(b), e),
                );
                let _ = write!(self.line, " bad:{:x?}", prng::hash_bytes(b));
                m.cloned().unwrap_or(Val::NaN)
            }
        }
    }
    pub fn put(&mut self, d: u16, n: NumericBuf, m: Option<&Val>, what: &str) {
        let v = self.judge(&n, m, what);
        let d = d as usize % NREG;
        let snap = n.as_bytes().to_vec();
        let old = std::mem::replace(&mut self.regs[d], Slot { n: Some(n), m: v, snap });
        self.release(old.n);
    }
    fn release(&mut self, n: Option<NumericBuf>) {
        if let Some(n) = n {
            if sys(|| drop(n)).is_err() {
                vio(&[c::PANIC, c::FAIL_STATE], "dropping a numeric panicked");
                self.line.push_str(" drop-panicked");
            }
        }
    }
    /// Outcome of an exact operation: value or declared failure, as the model says.
    fn settle(&mut self, d: u16, out: Out, m: &Res, what: &str, refuses: bool) {
        match (out, m) {
            (Out::Ok(n), Ok(v)) => self.put(d, n, Some(v), what),
            (Out::Ok(n), Err(f)) => {
                let t = short(&n.to_string());
                vio(&[c::MODEL, c::FAIL_STATE], &format!("{}: should fail with {:?}, returned {}", what, f, t));
                self.put(d, n, None, what)
            }
            (Out::Refused, Err(f)) => self.failed(f, "refused"),
            (Out::Refused, Ok(v)) => {
                vio(&[c::MODEL], &format!("{}: should be {}, was refused", what, short(&v.text())));
                self.line.push_str(" refused");
            }
            (Out::Panicked(msg), Err(f)) => {
                if refuses || !DECLARED.iter().any(|d| msg.contains(d)) {
                    vio(&[c::PANIC, c::FAIL_STATE], &format!("{}: {:?} surfaced as panic '{}'", what, f, short(&msg)));
                }
                bump("op_panic");
                self.failed(f, &format!("panic:{}", short(&msg)))
            }
            (Out::Panicked(msg), Ok(v)) => {
                vio(&[c::PANIC, c::MODEL, c::FAIL_STATE], &format!("{}: should be {}, panicked '{}'", what, short(&v.text()), short(&msg)));
                let _ = write!(self.line, " panic:{}", short(&msg));
            }
        }
    }
    fn failed(&mut self, f: &Fail, how: &str) {
        unsafe { FAILED = true };
        bump(if *f == Fail::Overflow { "overflow_failures" } else { "div_zero_failures" });
        let _ = write!(self.line, " fail:{:?}:{}", f, how);
    }
    /// Nothing but the destination may have changed.
    fn bystanders(&mut self, dest: Option<u16>, touched: &[u16]) {
        bump("bystander_checks");
        for i in 0..NREG {
            if Some(i as u16) == dest {
                continue;
            }
            let s = &self.regs[i];
            if let Some(n) = &s.n {
                if n.as_bytes() != &s.snap[..] {
                    let d = format!("register {} was {} [{:02x?}], now [{:02x?}]", i, short(&s.m.text()), head(&s.snap), head(n.as_bytes()));
                    if touched.contains(&(i as u16)) {
                        vio(&[c::FAIL_STATE, c::BYSTANDER], &d);
                    } else {
                        vio(&[c::BYSTANDER, c::FAIL_STATE], &d);
                    }
                }
            }
        }
        for (i, s) in self.sh.bufs.iter().enumerate() {
            if let Some(n) = &s.n {
                if n.as_bytes() != &s.snap[..] {
                    vio(&[c::BYSTANDER, c::FAIL_STATE], &format!("shared value {} ({}) changed", i, short(&s.m.text())));
                }
            }
        }
        for (i, v) in self.sh.views.iter().enumerate() {
            if v.0 != &v.2[..] {
                vio(&[c::BYSTANDER, c::FAIL_STATE, c::OOB], &format!("the caller's bytes of view {} ({}) changed", i, short(&v.1.text())));
            }
        }
        for (i, k) in [Numeric::zero(), Numeric::nan()].iter().enumerate() {
            let ok = match Val::decode(k.as_bytes(), BE) {
                Ok(v) => v == if i == 0 { Val::int(0) } else { Val::NaN },
                Err(_) => false,
            };
            if !ok {
                vio(&[c::BYSTANDER], "a constant of the library changed");
            }
        }
    }

    pub fn run(&mut self, prog: &[Op]) {
        self.run_part(prog, 0, prog.len())
    }
    pub fn run_part(&mut self, prog: &[Op], from: usize, to: usize) {
        let me = self.tid;
        for (i, op) in prog.iter().enumerate().take(to).skip(from) {
            self.opi = i as u32;
            unsafe { sched::TH[me].op = i as u32 };
            shm().cur_op[me] = i as u32;
            shm().note = 0;
            sched::count(37);
            self.line.clear();
            let _ = write!(self.line, "{} {}", i, name(op));
            if self.dirty {
                bump("stack_dirtied");
                arena::dirty_stack(4096 + (i * 977) % 16384);
            }
            let solo = self.solo(op);
            let pre = self.line.len();
            self.exec(op);
            if self.line.contains(|c| c == '\n' || c == '\r') {
                // a line of the log is one operation
                self.line = self.line.replace(|c| c == '\n' || c == '\r', "|");
            }
            if let Some((op, vals)) = solo {
                let rec = Solo { tid: me as u32, at: i as u32, op, vals, rest: self.line[pre..].to_string() };
                shm().log(4, serde_json::to_string(&rec).unwrap().as_bytes());
            }
            if self.pass == 0 {
                shm().log(me, self.line.as_bytes());
            }
            if me < 6 {
                sched::yield_point();
            }
        }
    }
    /// The operation on registers 0 and 1, with the present values of its operands.
    fn solo(&self, op: &Op) -> Option<(Op, Vec<String>)> {
        let n = unsafe { SOLO } as u64;
        if n == 0 || self.pass > 0 || prng::mix(prng::mix(self.tid as u64, self.opi as u64), 77) % n != 0 {
            return None;
        }
        let text = |r: u16| self.model(r).filter(|m| size(m) < 4000).map(|m| m.text());
        let mut o = op.clone();
        let mut vals = vec![];
        match &mut o {
            Op::Bin { a, b, .. } | Op::Chk { a, b, .. } | Op::Tr { a, b, .. } | Op::Cmp { a, b, .. } => {
                let same = a == b;
                vals.push(text(*a)?);
                if !same {
                    vals.push(text(*b)?);
                }
                *a = 0;
                *b = !same as u16;
            }
            Op::Asg { d, b, .. } => {
                let same = d == b;
                vals.push(text(*d)?);
                if !same {
                    vals.push(text(*b)?);
                }
                *d = 0;
                *b = !same as u16;
            }
            Op::Un { a, .. } | Op::Scl { a, .. } | Op::ToInt { a, .. } | Op::ToF { a, .. } | Op::Query { a } => {
                vals.push(text(*a)?);
                *a = 0;
            }
            // debug text shows the buffer's layout, which the value's history decides
            Op::Show { k: 3 | 4, .. } => return None,
            Op::Hash { a, cb } | Op::Show { a, cb, .. } => {
                if *cb != Cb::none() {
                    return None;
                }
                vals.push(text(*a)?);
                *a = 0;
            }
            Op::Mut { d, .. } | Op::Typ { d, .. } => {
                vals.push(text(*d)?);
                *d = 0;
            }
            Op::Set { .. } | Op::Int { .. } | Op::Flt { .. } => {}
            _ => return None,
        }
        Some((o, vals))
    }
    pub fn drop_all(&mut self) {
        for i in 0..NREG {
            let n = self.regs[i].n.take();
            self.release(n);
        }
    }

    fn exec(&mut self, op: &Op) {
        let mut dest: Option<u16> = None;
        let mut touched: Vec<u16> = vec![];
        match op {
            Op::Set { d, v, how } => {
                dest = Some(*d);
                let v = &crate::run::expand(v);
                let m = Val::parse(v);
                let out = match how {
                    1 => {
                        // from stored bytes
                        let b = match &m {
                            Some(m) => m.encode(BE),
                            None => return,
                        };
                        let b: &'static [u8] = arena::caller_bytes(&b, 2, true);
                        let r = sys(|| unsafe { Numeric::from_bytes_unchecked(b) }.to_owned());
                        arena::caller_bytes_release(b);
                        r.map(Some)
                    }
                    2 => {
                        let t = format!(" \t{}\n ", v);
                        sys(|| t.parse::<NumericBuf>().ok())
                    }
                    _ => sys(|| v.parse::<NumericBuf>().ok()),
                };
                match (out, m) {
                    (Ok(Some(n)), m) => self.put(*d, n, m.as_ref(), &format!("parse {}", short(v))),
                    (Ok(None), Some(m)) => {
                        vio(&[c::MODEL], &format!("parse of {} refused, expected {}", short(v), short(&m.text())));
                        self.line.push_str(" refused");
                    }
                    (Ok(None), None) => {
                        bump("op_error");
                        self.line.push_str(" refused")
                    }
                    (Err(p), _) => {
                        vio(&[c::PANIC, c::MODEL], &format!("parse of {} panicked: {}", short(v), short(&p)));
                        let _ = write!(self.line, " panic:{}", short(&p));
                    }
                }
            }
            Op::Int { d, ty, v } => {
                dest = Some(*d);
                let (r, m) = if *ty == 12 {
                    let b = v == "1";
                    (sys(|| NumericBuf::from(b)), Val::int(b as i128))
                } else {
                    macro_rules! mk {
                        ($t:ty, $v:expr) => {{
                            let x: $t = match $v.parse() {
                                Ok(x) => x,
                                Err(_) => return,
                            };
                            (sys(|| NumericBuf::from(x)), Val::parse(&x.to_string()).unwrap())
                        }};
                    }
                    ints!(mk, *ty, v)
                };
                self.settle(*d, out_of(r), &Ok(m), &format!("from integer {}", v), false);
            }
            Op::Flt { d, bits, f32: is32 } => {
                dest = Some(*d);
                let (f, r) = if *is32 {
                    let f = f32::from_bits(*bits as u32);
                    (f as f64, sys(|| NumericBuf::try_from(f)))
                } else {
                    let f = f64::from_bits(*bits);
                    (f, sys(|| NumericBuf::try_from(f)))
                };
                let sig = if *is32 { 6 } else { 15 };
                let what = format!("from float {:e}", f);
                match r {
                    Ok(Ok(n)) => {
                        let m = if f.is_nan() {
                            Some(Val::NaN)
                        } else if f.is_infinite() {
                            vio(&[c::ENV, c::MODEL], "an infinity converted");
                            None
                        } else {
                            Some(Val::from_f64(f, sig))
                        };
                        if let Some(m) = &m {
                            match Val::decode(n.as_bytes(), BE) {
                                Ok(v) if &v == m => {}
                                Ok(v) => vio(&[c::ENV, c::MODEL], &format!("{}: expected {}, got {}", what, short(&m.text()), short(&v.text()))),
                                Err(_) => {}
                            }
                        }
                        self.put(*d, n, m.as_ref(), &what)
                    }
                    Ok(Err(e)) => {
                        if f.is_finite() || f.is_nan() {
                            vio(&[c::ENV, c::MODEL], &format!("{}: refused ({})", what, e));
                        }
                        bump("op_error");
                        let _ = write!(self.line, " err:{}", e);
                    }
                    Err(p) => {
                        vio(&[c::ENV, c::PANIC], &format!("{}: panicked ({})", what, short(&p)));
                        let _ = write!(self.line, " panic:{}", short(&p));
                    }
                }
            }
            Op::Bin { d, o, f, a, b } => {
                let (ma, mb) = match (self.model(*a), self.model(*b)) {
                    (Some(x), Some(y)) if self.affordable(*o, &x, &y) => (x, y),
                    _ => return self.skip(),
                };
                let m = model_bin(*o, &ma, &mb);
                let what = format!("{} {} {}", short(&ma.text()), sym(*o), short(&mb.text()));
                touched.extend_from_slice(&[*a, *b]);
                let out = self.bin_forms(*o, *f, *a, *b);
                match out {
                    Some(out) => {
                        if matches!(out, Out::Ok(_)) {
                            dest = Some(*d);
                        }
                        self.settle(*d, out, &m, &what, false)
                    }
                    None => return self.skip(),
                }
            }
            Op::Chk { d, o, a, b } => {
                let (ma, mb) = match (self.model(*a), self.model(*b)) {
                    (Some(x), Some(y)) if self.affordable(*o, &x, &y) => (x, y),
                    _ => return self.skip(),
                };
                let (x, y) = (self.opd(*a).unwrap(), self.opd(*b).unwrap());
                let m = model_bin(*o, &ma, &mb);
                touched.extend_from_slice(&[*a, *b]);
                let r = sys(|| {
                    let (x, y) = (x.num(), y.num());
                    match o {
                        0 => x.checked_add(y),
                        1 => x.checked_sub(y),
                        2 => x.checked_mul(y),
                        3 => x.checked_div(y),
                        4 => x.checked_rem(y),
                        _ => x.checked_div_trunc(y),
                    }
                });
                let out = out_opt(r);
                if matches!(out, Out::Ok(_)) {
                    dest = Some(*d);
                }
                self.settle(*d, out, &m, &format!("{} {} {} (checked)", short(&ma.text()), sym(*o), short(&mb.text())), true);
            }
            Op::Asg { d, o, f, b } => {
                let (ma, mb) = match (self.model(*d), self.model(*b)) {
                    (Some(x), Some(y)) if *d < NREG as u16 && self.affordable(*o, &x, &y) => (x, y),
                    _ => return self.skip(),
                };
                let m = model_bin(*o, &ma, &mb);
                let what = format!("{} {}= {}", short(&ma.text()), sym(*o), short(&mb.text()));
                touched.extend_from_slice(&[*d, *b]);
                // the destination also fails in place: it must keep its value
                let rhs_own = if *f % 3 == 1 {
                    let r = if b == d { let x = self.opd(*b).unwrap(); sys(|| x.num().to_owned()).ok() } else { self.own(*b) };
                    match r {
                        Some(x) => Some(x),
                        None => return self.skip(),
                    }
                } else {
                    None
                };
                let mut lhs = self.regs[*d as usize].n.take().unwrap();
                let self_copy: Option<NumericBuf>;
                let bo = if b == d {
                    // a += &a needs a second value
                    self_copy = sys(|| lhs.clone()).ok();
                    self_copy.as_ref().map(|n| Opd::Buf(unsafe { long(n) }))
                } else {
                    self_copy = None;
                    self.opd(*b)
                };
                macro_rules! asg {
                    ($op:tt) => {
                        match (*f % 3, rhs_own, bo) {
                            (1, Some(r), _) => sys(|| lhs $op r),
                            (0, _, Some(Opd::Buf(y))) => sys(|| lhs $op y),
                            (_, _, Some(y)) => sys(|| { let y = y.num(); lhs $op y }),
                            _ => Ok(()),
                        }
                    };
                }
                let r = match o {
                    0 => asg!(+=),
                    1 => asg!(-=),
                    2 => asg!(*=),
                    3 => asg!(/=),
                    _ => asg!(%=),
                };
                if let Some(n) = self_copy {
                    self.release(Some(n));
                }
                match r {
                    Ok(()) => {
                        dest = Some(*d);
                        self.settle(*d, Out::Ok(lhs), &m, &what, false)
                    }
                    Err(p) => {
                        // still there, must still hold the old value
                        self.regs[*d as usize].n = Some(lhs);
                        self.settle(*d, Out::Panicked(p), &m, &what, false)
                    }
                }
            }
            Op::Un { d, o, f, a } => {
                let ma = match self.model(*a) {
                    Some(x) => x,
                    _ => return self.skip(),
                };
                let m = match o {
                    0 => ma.neg(),
                    1 => ma.abs(),
                    2 => ma.signum(),
                    3 => ma.inc(),
                    4 => ma.ceil(),
                    _ => ma.floor(),
                };
                touched.push(*a);
                let r = if *o == 0 && *f == 1 {
                    match self.own(*a) {
                        Some(n) => sys(|| -n),
                        None => return self.skip(),
                    }
                } else {
                    let x = self.opd(*a).unwrap();
                    sys(|| match (o, f, x) {
                        (0, 2, Opd::Buf(b)) => -b,
                        (0, 3, _) => -x.num(),
                        (0, _, _) => x.num().negate(),
                        (1, _, _) => x.num().abs(),
                        (2, _, _) => x.num().signum(),
                        (3, _, _) => x.num().inc(),
                        (4, _, _) => x.num().ceil(),
                        _ => x.num().floor(),
                    })
                };
                if r.is_ok() {
                    dest = Some(*d);
                }
                let nm = ["-", "abs", "signum", "inc", "ceil", "floor"][(*o as usize).min(5)];
                self.settle(*d, out_of(r), &m, &format!("{} {}", nm, short(&ma.text())), false);
            }
            Op::Scl { d, o, a, s } => {
                let ma = match self.model(*a) {
                    Some(x) => x,
                    _ => return self.skip(),
                };
                let m = if *o == 0 { ma.round(*s as i64) } else { ma.trunc(*s as i64) };
                let x = self.opd(*a).unwrap();
                touched.push(*a);
                let r = sys(|| if *o == 0 { x.num().round(*s) } else { x.num().trunc(*s) });
                if r.is_ok() {
                    dest = Some(*d);
                }
                self.settle(*d, out_of(r), &m, &format!("{} {} to {}", ["round", "trunc"][*o as usize & 1], short(&ma.text()), s), false);
            }
            Op::Mut { d, o, s } => {
                let ma = match self.model(*d) {
                    Some(x) if *d < NREG as u16 => x,
                    _ => return self.skip(),
                };
                let m = match o {
                    0 => ma.neg(),
                    1 => ma.abs(),
                    2 => ma.round(*s as i64),
                    _ => ma.trunc(*s as i64),
                };
                let what = format!("{} in place of {} ({})", ["negate", "abs", "round", "trunc"][(*o as usize).min(3)], short(&ma.text()), s);
                touched.push(*d);
                let mut n = self.regs[*d as usize].n.take().unwrap();
                let r = sys(|| match o {
                    0 => n.negate_mut(),
                    1 => n.abs_mut(),
                    2 => n.round_mut(*s),
                    _ => n.trunc_mut(*s),
                });
                match r {
                    Ok(()) => {
                        dest = Some(*d);
                        self.settle(*d, Out::Ok(n), &m, &what, false)
                    }
                    Err(p) => {
                        self.regs[*d as usize].n = Some(n);
                        self.settle(*d, Out::Panicked(p), &m, &what, false)
                    }
                }
            }
            Op::Typ { d, p, s } => {
                let ma = match self.model(*d) {
                    Some(x) if *d < NREG as u16 => x,
                    _ => return self.skip(),
                };
                let t = match Typmod::new(*p, *s) {
                    Some(t) => t,
                    None => return self.skip(),
                };
                let (mv, mo) = ma.typmod(*p as i64, *s as i64);
                let what = format!("typmod({},{}) of {}", p, s, short(&ma.text()));
                touched.push(*d);
                let mut n = self.regs[*d as usize].n.take().unwrap();
                let r = sys(|| n.apply_typmod(t));
                match r {
                    Ok(over) => {
                        if over != mo {
                            vio(&[c::MODEL], &format!("{}: reported overflow={}, expected {}", what, over, mo));
                        }
                        if over {
                            unsafe { FAILED = true };
                            bump("overflow_failures");
                        }
                        let _ = write!(self.line, " over={}", over);
                        dest = Some(*d);
                        self.settle(*d, Out::Ok(n), &Ok(mv), &what, false)
                    }
                    Err(msg) => {
                        self.regs[*d as usize].n = Some(n);
                        self.settle(*d, Out::Panicked(msg), &Ok(mv), &what, false)
                    }
                }
            }
            Op::Tr { d, o, a, b, i } => {
                let r = if *o == 7 {
                    if *i > 900 {
                        return self.skip();
                    }
                    sys(|| NumericBuf::factorial(*i))
                } else {
                    let (ma, mb) = match (self.model(*a), self.model(*b)) {
                        (Some(x), Some(y)) if tr_affordable(*o, &x, &y) => (x, y),
                        _ => return self.skip(),
                    };
                    let _ = (ma, mb);
                    touched.extend_from_slice(&[*a, *b]);
                    let (x, y) = (self.opd(*a).unwrap(), self.opd(*b).unwrap());
                    sys(|| match o {
                        0 => Some(x.num().sqrt()),
                        1 => x.num().exp(),
                        2 => Some(x.num().ln()),
                        3 => Some(x.num().log10()),
                        4 => Some(x.num().log2()),
                        5 => Some(x.num().log(y.num())),
                        _ => x.num().pow(y.num()),
                    })
                };
                match out_opt(r) {
                    Out::Ok(n) => {
                        dest = Some(*d);
                        self.put(*d, n, None, "transcendental")
                    }
                    Out::Refused => {
                        bump("op_error");
                        self.line.push_str(" refused")
                    }
                    Out::Panicked(p) => {
                        unsafe { FAILED = true };
                        bump("op_panic");
                        let _ = write!(self.line, " panic:{}", short(&p));
                    }
                }
            }
            Op::Copy { d, how, a } => {
                let ma = match self.model(*a) {
                    Some(x) => x,
                    _ => return self.skip(),
                };
                let x = self.opd(*a).unwrap();
                touched.push(*a);
                let mut m = ma.clone();
                let mut buf: Option<&'static [u8]> = None;
                let r = match how {
                    0 => sys(|| match x {
                        Opd::Buf(b) => b.clone(),
                        _ => x.num().to_owned(),
                    }),
                    1 => sys(|| x.num().to_owned()),
                    2 => sys(|| match x {
                        Opd::Buf(b) => Cow::from(b).into_owned(),
                        _ => Cow::from(x.num()).into_owned(),
                    }),
                    3 => sys(|| {
                        let n: NumericBuf = x.num().to_owned();
                        Cow::<Numeric>::from(n).into_owned()
                    }),
                    4 => {
                        // stored and reopened
                        let stored = match sys(|| x.num().as_bytes().to_vec()) {
                            Ok(b) => b,
                            Err(_) => return self.skip(),
                        };
                        let cb: &'static [u8] = arena::caller_bytes(&stored, 2, true);
                        sys(|| drop(stored)).ok();
                        buf = Some(cb);
                        sys(|| unsafe { Numeric::from_bytes_unchecked(cb) }.to_owned())
                    }
                    5 => {
                        m = Val::int(0);
                        sys(|| NumericBuf::zero())
                    }
                    6 => {
                        m = Val::NaN;
                        sys(|| NumericBuf::nan())
                    }
                    7 => {
                        m = if a % 2 == 0 { Val::int(0) } else { Val::NaN };
                        sys(|| if a % 2 == 0 { Numeric::zero().to_owned() } else { Numeric::nan().to_owned() })
                    }
                    8 => {
                        m = ma.neg().unwrap();
                        sys(|| {
                            let mut cow = Cow::from(x.num());
                            cow.to_mut().negate_mut();
                            cow.into_owned()
                        })
                    }
                    9 => {
                        // over the value that is there, as user code does to reuse it
                        let t = if d != a && (*d as usize) < NREG { self.regs[*d as usize].n.take() } else { None };
                        sys(move || {
                            let mut n = t.unwrap_or_else(NumericBuf::nan);
                            match x {
                                Opd::Buf(b) => n.clone_from(b),
                                _ => x.num().clone_into(&mut n),
                            }
                            n
                        })
                    }
                    10 => sys(|| match x {
                        Opd::Buf(b) => {
                            let r: &Numeric = b.as_ref();
                            let q: &Numeric = b.borrow();
                            if r.as_bytes() == q.as_bytes() { r.to_owned() } else { NumericBuf::nan() }
                        }
                        _ => x.num().to_owned(),
                    }),
                    _ => {
                        // move (through an Option and a Box, as user code does)
                        match self.own(*a) {
                            Some(n) => sys(|| *Box::new(Some(n)).take().map(Box::new).unwrap()),
                            None => return self.skip(),
                        }
                    }
                };
                if let Some(b) = buf {
                    arena::caller_bytes_release(b);
                }
                if r.is_ok() {
                    dest = Some(*d);
                }
                self.settle(*d, out_of(r), &Ok(m), &format!("copy ({}) of {}", how, short(&ma.text())), false);
            }
            Op::Drop { a } => {
                if (*a as usize) < NREG {
                    dest = Some(*a);
                    let n = self.regs[*a as usize].n.take();
                    self.release(n);
                }
            }
            Op::Cmp { a, b, f } => {
                let (ma, mb) = match (self.model(*a), self.model(*b)) {
                    (Some(x), Some(y)) => (x, y),
                    _ => return self.skip(),
                };
                let (x, y) = (self.opd(*a).unwrap(), self.opd(*b).unwrap());
                touched.extend_from_slice(&[*a, *b]);
                let r = sys(|| compare(x, y, *f));
                match r {
                    Ok((ord, bits)) => {
                        let mo = ma.cmp(&mb);
                        let want = (mo == Ordering::Equal) as u8
                            | ((mo != Ordering::Equal) as u8) << 1
                            | ((mo == Ordering::Less) as u8) << 2
                            | ((mo != Ordering::Greater) as u8) << 3
                            | ((mo == Ordering::Greater) as u8) << 4
                            | ((mo != Ordering::Less) as u8) << 5;
                        if ord != mo || bits != want {
                            vio(
                                &[c::MODEL, c::MAP],
                                &format!("comparing (form {}) {} with {}: got {:?}/{:b}, expected {:?}/{:b}", f, short(&ma.text()), short(&mb.text()), ord, bits, mo, want),
                            );
                        }
                        let _ = write!(self.line, " {:?} {:b}", ord, bits);
                    }
                    Err(p) => {
                        vio(&[c::PANIC, c::MAP], &format!("comparison panicked: {}", short(&p)));
                        let _ = write!(self.line, " panic:{}", short(&p));
                    }
                }
            }
            Op::Hash { a, cb } => {
                let ma = match self.model(*a) {
                    Some(x) => x,
                    _ => return self.skip(),
                };
                let x = self.opd(*a).unwrap();
                touched.push(*a);
                self.do_hash(x, &ma, cb);
            }
            Op::ToInt { a, ty, f } => {
                let ma = match self.model(*a) {
                    Some(x) => x,
                    _ => return self.skip(),
                };
                touched.push(*a);
                let x = self.opd(*a).unwrap();
                let owned = if *f == 2 { sys(|| x.num().to_owned()).ok() } else { None };
                macro_rules! conv {
                    ($t:ty, $x:expr) => {{
                        let want = ma.to_int(<$t>::MIN as i128, <$t>::MAX as u128).map(|v| v as $t);
                        let r = sys(|| match ($x, owned) {
                            (_, Some(n)) => <$t>::try_from(n),
                            (Opd::Buf(b), _) if *f == 0 => <$t>::try_from(b),
                            (x, _) => <$t>::try_from(x.num()),
                        });
                        match r {
                            Ok(Ok(v)) => (Ok(v.to_string()), want.map(|v| v.to_string())),
                            Ok(Err(e)) => (Err(e.to_string()), want.map(|v| v.to_string())),
                            Err(p) => (Err(format!("panic:{}", short(&p))), want.map(|v| v.to_string())),
                        }
                    }};
                }
                let (got, want) = ints!(conv, *ty, x);
                let same = match (&got, &want) {
                    (Ok(g), Ok(w)) => g == w,
                    (Err(g), Err(_)) => !g.starts_with("panic:"),
                    _ => false,
                };
                if !same {
                    vio(&[c::MODEL, c::ENV], &format!("{} to integer type {}: got {:?}, expected {:?}", short(&ma.text()), ty, got, want));
                }
                let _ = write!(self.line, " {:?}", got);
            }
            Op::ToF { a, f32: is32, f } => {
                let ma = match self.model(*a) {
                    Some(x) => x,
                    _ => return self.skip(),
                };
                touched.push(*a);
                let x = self.opd(*a).unwrap();
                let owned = if *f == 2 { sys(|| x.num().to_owned()).ok() } else { None };
                let r = if *is32 {
                    sys(|| match (x, owned) {
                        (_, Some(n)) => f32::try_from(n).map(|f| f.to_bits() as u64),
                        (Opd::Buf(b), _) if *f == 0 => f32::try_from(b).map(|f| f.to_bits() as u64),
                        (x, _) => f32::try_from(x.num()).map(|f| f.to_bits() as u64),
                    })
                } else {
                    sys(|| match (x, owned) {
                        (_, Some(n)) => f64::try_from(n).map(|f| f.to_bits()),
                        (Opd::Buf(b), _) if *f == 0 => f64::try_from(b).map(|f| f.to_bits()),
                        (x, _) => f64::try_from(x.num()).map(|f| f.to_bits()),
                    })
                };
                match r {
                    Ok(Ok(bits)) => {
                        let got = if *is32 { f32::from_bits(bits as u32) as f64 } else { f64::from_bits(bits) };
                        // sanity only (correct rounding is another property): within 4 ulps of the true value
                        let want: f64 = if ma.is_nan() { f64::NAN } else { ma.text().parse().unwrap() };
                        let near = if want.is_nan() {
                            got.is_nan()
                        } else if *is32 {
                            (got - want).abs() <= want.abs() * 5e-7 + 1e-44 || got == want
                        } else {
                            (got - want).abs() <= want.abs() * 1e-15 + 2e-323 || got == want
                        };
                        if !near {
                            vio(&[c::ENV, c::MODEL], &format!("{} to float: got {:e}, expected {:e}", short(&ma.text()), got, want));
                        }
                        let _ = write!(self.line, " {:x}", bits);
                    }
                    Ok(Err(e)) => {
                        bump("op_error");
                        let _ = write!(self.line, " err:{}", e);
                    }
                    Err(p) => {
                        vio(&[c::PANIC, c::ENV], &format!("{} to float panicked: {}", short(&ma.text()), short(&p)));
                        let _ = write!(self.line, " panic:{}", short(&p));
                    }
                }
            }
            Op::Query { a } => {
                let ma = match self.model(*a) {
                    Some(x) => x,
                    _ => return self.skip(),
                };
                touched.push(*a);
                let x = self.opd(*a).unwrap();
                let r = sys(|| {
                    let n = x.num();
                    (n.is_nan(), n.is_negative(), n.is_positive(), n.scale(), n.normalize())
                });
                match r {
                    Ok((nan, neg, pos, scale, norm)) => {
                        let (wn, ws, zero) = match &ma {
                            Val::NaN => (false, None, false),
                            Val::Num(d) => (d.neg, Some(d.scale as i32), d.is_zero()),
                        };
                        if nan != ma.is_nan() || neg != wn || scale != ws || norm != ma.key() || (!zero && pos != (!wn && !nan)) {
                            vio(&[c::MODEL], &format!("queries of {}: nan={} negative={} positive={} scale={:?} normalized={}", short(&ma.text()), nan, neg, pos, scale, short(&norm)));
                        }
                        let _ = write!(self.line, " {} {} {} {:?} {}", nan, neg, pos, scale, short(&norm));
                        sys(|| drop(norm)).ok();
                    }
                    Err(p) => {
                        vio(&[c::PANIC], &format!("query of {} panicked: {}", short(&ma.text()), short(&p)));
                        let _ = write!(self.line, " panic:{}", short(&p));
                    }
                }
            }
            Op::Show { a, k, cb } => {
                let ma = match self.model(*a) {
                    Some(x) => x,
                    _ => return self.skip(),
                };
                touched.push(*a);
                if !self.affordable_io(&ma) {
                    return self.skip();
                }
                let x = self.opd(*a).unwrap();
                self.do_show(x, &ma, *k, cb);
            }
            Op::Ser { d, a, fmt, mode, wrap, w, r } => {
                let ma = match self.model(*a) {
                    Some(x) => x,
                    _ => return self.skip(),
                };
                touched.push(*a);
                if !self.affordable_io(&ma) {
                    return self.skip();
                }
                let x = self.opd(*a).unwrap();
                if let Some(n) = io::transfer(self, x, &ma, *fmt, *mode, *wrap, w, r) {
                    dest = Some(*d);
                    self.put(*d, n, Some(&ma), "after serialisation");
                }
            }
            Op::Corrupt { d, a, path, muts } => {
                let ma = match self.model(*a) {
                    Some(x) => x,
                    _ => return self.skip(),
                };
                touched.push(*a);
                if !self.affordable_io(&ma) {
                    return self.skip();
                }
                let x = self.opd(*a).unwrap();
                if let Some(n) = io::corrupt(self, x, &ma, *path, muts) {
                    dest = Some(*d);
                    self.put(*d, n, None, "accepted damaged bytes");
                }
            }
            Op::Store { a } => {
                let ma = match self.model(*a) {
                    Some(x) => x,
                    _ => return self.skip(),
                };
                if !self.affordable_io(&ma) {
                    return self.skip();
                }
                let x = self.opd(*a).unwrap();
                io::store(self, x, &ma);
            }
            Op::Sync => io::sync(),
            Op::Map { kind, hs, ops } => crate::coll::run_map(self, *kind, *hs, ops),
            Op::Sort { how, xs } => crate::coll::run_sort(self, *how, xs),
            Op::Send { a, to } => {
                let n = if (*a as usize) < NREG { self.regs[*a as usize].n.take() } else { self.own(*a) };
                let msg = n.map(|n| {
                    let m = if (*a as usize) < NREG { self.regs[*a as usize].m.clone() } else { self.model(*a).unwrap() };
                    (n, m)
                });
                dest = Some(*a);
                unsafe {
                    let q = &mut MAIL[self.tid * 8 + *to as usize % 8];
                    q.push_back(msg);
                    sched::wake(q as *const _ as usize, 1);
                }
                bump("handover");
            }
            Op::Recv { d, from } => unsafe {
                let q: *mut VecDeque<Option<(NumericBuf, Val)>> = &mut MAIL[(*from as usize % 8) * 8 + self.tid];
                while (*q).is_empty() {
                    sched::block_on(q as usize, u64::MAX);
                }
                if let Some((n, m)) = (*q).pop_front().unwrap() {
                    dest = Some(*d);
                    self.put(*d, n, Some(&m), "received from another thread");
                }
            },
            Op::Locale { k } => {
                set_locale(*k);
                bump("locale_flip");
            }
            Op::Env { k } => {
                set_env(*k);
                bump("env_change");
            }
            Op::Yield => {}
        }
        let dest = dest.filter(|d| (*d as usize) < NREG);
        self.bystanders(dest, &touched);
    }
    fn skip(&mut self) {
        self.line.push_str(" skip");
    }

    fn bin_forms(&mut self, o: u8, f: u8, a: u16, b: u16) -> Option<Out> {
        let (fa, fb) = (f / 3 % 3, f % 3);
        // 0 = &Buf, 1 = Buf, 2 = &Numeric
        let oa = self.opd(a)?;
        let ob = self.opd(b)?;
        let fa = if fa == 0 && matches!(oa, Opd::View(_)) { 2 } else { fa };
        let fb = if fb == 0 && matches!(ob, Opd::View(_)) { 2 } else { fb };
        let mut ta = None;
        let mut tb = None;
        if fa == 1 {
            // keep the register if it is needed by reference on the other side
            ta = if a == b { sys(|| oa.num().to_owned()).ok() } else { self.own(a) };
            ta.as_ref()?;
        }
        if fb == 1 {
            tb = self.own(b);
            if tb.is_none() {
                self.release(ta);
                return None;
            }
        }
        macro_rules! go {
            ($op:tt) => {
                match (fa, fb, ta, tb, oa, ob) {
                    (1, 1, Some(x), Some(y), _, _) => sys(move || x $op y),
                    (1, 0, Some(x), _, _, Opd::Buf(y)) => sys(move || x $op y),
                    (1, _, Some(x), _, _, y) => sys(move || { let y = y.num(); x $op y }),
                    (0, 1, _, Some(y), Opd::Buf(x), _) => sys(move || x $op y),
                    (_, 1, _, Some(y), x, _) => sys(move || { let x = x.num(); x $op y }),
                    (0, 0, _, _, Opd::Buf(x), Opd::Buf(y)) => sys(move || x $op y),
                    (0, _, _, _, Opd::Buf(x), y) => sys(move || { let y = y.num(); x $op y }),
                    (_, 0, _, _, x, Opd::Buf(y)) => sys(move || { let x = x.num(); x $op y }),
                    (_, _, _, _, x, y) => sys(move || { let (x, y) = (x.num(), y.num()); x $op y }),
                }
            };
        }
        let r = match o {
            0 => go!(+),
            1 => go!(-),
            2 => go!(*),
            3 => go!(/),
            _ => go!(%),
        };
        Some(out_of(r))
    }

    fn do_hash(&mut self, x: Opd<'static>, ma: &Val, cb: &Cb) {
        let mut h = RecHasher::new(cb.clone(), x, ma.clone());
        let r = sys(|| match x {
            Opd::Buf(b) => b.hash(&mut h),
            _ => x.num().hash(&mut h),
        });
        let _ = write!(self.line, " {:x}/{}", prng::hash_bytes(&h.stream), h.calls);
        match r {
            Ok(()) => {
                if h.fired {
                    vio(&[c::REENTRY], "a panic of the hasher was swallowed");
                }
            }
            Err(p) => {
                if !h.fired {
                    vio(&[c::PANIC, c::MAP], &format!("hashing {} panicked: {}", short(&ma.text()), short(&p)));
                }
                bump("hasher_panic");
                self.line.push_str(" panicked");
            }
        }
        if h.fired {
            // the value is unharmed: hash again
            let mut h2 = RecHasher::new(Cb::none(), x, ma.clone());
            let r = sys(|| x.num().hash(&mut h2));
            if r.is_err() || !h2.stream.starts_with(&h.stream) {
                vio(&[c::REENTRY, c::MAP], "hashing after an interrupted hash differs");
            }
            h = h2;
        }
        // equal values feed the same stream whatever their scale
        for v in equal_forms(ma) {
            let b = v.encode(BE);
            let cbv: &'static [u8] = arena::caller_bytes(&b, 2, true);
            let mut h2 = RecHasher::new(Cb::none(), Opd::View(cbv), v.clone());
            let r = sys(|| unsafe { Numeric::from_bytes_unchecked(cbv) }.hash(&mut h2));
            if r.is_err() || h2.stream != h.stream {
                vio(&[c::MAP], &format!("{} and {} are equal but hash differently", short(&ma.text()), short(&v.text())));
            }
            arena::caller_bytes_release(cbv);
        }
    }

    /// Operations on long numbers take long; how much of that a program gets is bounded.
    fn affordable(&mut self, o: u8, a: &Val, b: &Val) -> bool {
        let c = cost(o, a, b);
        if c > if o == 2 { 40_000_000 } else { 60_000_000 } || self.spent + c > unsafe { LIMIT } {
            return false;
        }
        self.spent += c;
        true
    }
    /// Likewise for writing and reading back long numbers.
    fn affordable_io(&mut self, m: &Val) -> bool {
        let n = size(m);
        if n <= 2000 {
            return true;
        }
        let c = n * 300;
        if self.spent + c > unsafe { LIMIT } {
            return false;
        }
        self.spent += c;
        true
    }
    fn do_show(&mut self, x: Opd<'static>, ma: &Val, k: u8, cb: &Cb) {
        let mut cb = cb.clone();
        if cb.at <= -2 {
            // the fault's place is counted from the end
            let mut t = Sink::new(Cb::none(), x, ma.clone());
            let _ = sys(|| show(x, k, &mut t));
            cb.near_end(t.got.len());
        }
        let mut s = Sink::new(cb.clone(), x, ma.clone());
        let r = sys(|| show(x, k, &mut s));
        let mut full = String::new();
        let rf = sys(|| show(x, k, &mut full));
        let f = host(|| full.clone());
        sys(|| drop(full)).ok();
        if let Err(p) = &rf {
            vio(&[c::PANIC, c::SINK, c::FAIL_STATE], &format!("writing {} (kind {}) panicked: {}", short(&ma.text()), k, short(p)));
            let _ = write!(self.line, " panic:{}", short(p));
            return;
        }
        if !matches!(rf, Ok(Ok(()))) {
            vio(&[c::SINK], &format!("writing {} (kind {}) to a sink that never fails reported an error", short(&ma.text()), k));
        }
        let want = match k {
            0 => Some(ma.text()),
            1 => Some(ma.sci(false)),
            2 => Some(ma.sci(true)),
            7 => Some(format!("<{}|{}>", ma.text(), ma.sci(false))),
            _ => None,
        };
        if want.map_or(false, |w| w != f) {
            vio(&[c::MODEL, c::SINK], &format!("text of {} (kind {}) came out as {}", short(&ma.text()), k, short(&f)));
        }
        if s.after > 0 {
            vio(&[c::SINK], &format!("the sink was called {} more times after it refused (kind {})", s.after, k));
        }
        if !f.as_bytes().starts_with(s.got.as_bytes()) {
            vio(&[c::SINK, c::REENTRY], &format!("sink received '{}', which is no prefix of '{}' (kind {})", short(&s.got), short(&f), k));
        }
        match (&r, s.fired) {
            (Ok(Ok(())), 0) => {
                if s.got != f {
                    vio(&[c::SINK, c::REENTRY], &format!("working sink received '{}' instead of '{}' (kind {})", short(&s.got), short(&f), k));
                }
            }
            (Ok(Ok(())), _) => vio(&[c::SINK], &format!("the sink's failure at byte {} was swallowed (kind {}, value {})", cb.at, k, short(&ma.text()))),
            (Ok(Err(_)), 1) => bump("sink_error"),
            (Ok(Err(_)), _) => vio(&[c::SINK], &format!("an error is reported although the sink did not fail (kind {})", k)),
            (Err(_), 2) => bump("sink_panic"),
            (Err(p), _) => vio(&[c::SINK, c::PANIC], &format!("writing panicked by itself: {} (kind {})", short(p), k)),
        }
        let _ = write!(self.line, " {} {}/{}", short(&f), s.got.len(), s.fired);
    }
}

/// NaN is stored with this many bytes everywhere.
pub fn nan_len() -> usize {
    static mut L: usize = 0;
    unsafe {
        if L == 0 {
            L = host(|| NumericBuf::nan().as_bytes().len());
        }
        L
    }
}
fn head(b: &[u8]) -> &[u8] {
    &b[..b.len().min(24)]
}
fn out_of(r: Result<NumericBuf, String>) -> Out {
    match r {
        Ok(n) => Out::Ok(n),
        Err(p) => Out::Panicked(p),
    }
}
fn out_opt(r: Result<Option<NumericBuf>, String>) -> Out {
    match r {
        Ok(Some(n)) => Out::Ok(n),
        Ok(None) => Out::Refused,
        Err(p) => Out::Panicked(p),
    }
}
pub fn sym(o: u8) -> &'static str {
    ["+", "-", "*", "/", "%", "div_trunc"][(o as usize).min(5)]
}
pub fn model_bin(o: u8, a: &Val, b: &Val) -> Res {
    match o {
        0 => a.add(b),
        1 => a.sub(b),
        2 => a.mul(b),
        3 => a.div(b),
        4 => a.rem(b),
        _ => a.div_trunc(b),
    }
}
pub fn size(v: &Val) -> i64 {
    match v {
        Val::NaN => 0,
        Val::Num(d) => d.mag.ndigits().max(1).max(d.scale),
    }
}
fn cost(o: u8, a: &Val, b: &Val) -> i64 {
    let (x, y) = (size(a), size(b));
    match o {
        0 | 1 => 4 * (x + y),
        2 => x * y,
        _ => match (a, b) {
            (Val::Num(p), Val::Num(q)) => {
                let quo = (p.mag.ndigits() - p.scale - q.mag.ndigits() + q.scale).max(16) + 1000;
                quo * (y + quo)
            }
            _ => 0,
        },
    }
}
fn tr_affordable(o: u8, a: &Val, b: &Val) -> bool {
    let small = |v: &Val, dig: i64, mag: i64| match v {
        Val::NaN => true,
        Val::Num(d) => d.mag.ndigits() <= dig && d.scale <= dig && d.exp10().abs() <= mag,
    };
    match o {
        0 => small(a, 120, 300),
        1 => small(a, 40, 2) || matches!(a, Val::Num(d) if d.neg || d.scale == 0) && small(a, 8, 4),
        2 | 3 | 4 => small(a, 60, 60),
        5 => small(a, 40, 40) && small(b, 40, 40),
        6 => small(a, 24, 8) && small(b, 12, 1),
        _ => true,
    }
}
pub fn equal_forms(v: &Val) -> Vec<Val> {
    match v {
        Val::NaN => vec![Val::NaN],
        Val::Num(d) => {
            let n = d.normalized();
            let mut r = vec![Val::Num(n.clone())];
            for k in [1, 3, 4, 70] {
                if n.scale + k <= decmodel::DSCALE_MAX {
                    r.push(Val::Num(n.round(n.scale + k)));
                }
            }
            r
        }
    }
}

fn compare(x: Opd<'static>, y: Opd<'static>, f: u8) -> (Ordering, u8) {
    macro_rules! all {
        ($x:expr, $y:expr) => {{
            let (x, y) = ($x, $y);
            let bits = (x == y) as u8 | ((x != y) as u8) << 1 | ((x < y) as u8) << 2 | ((x <= y) as u8) << 3 | ((x > y) as u8) << 4 | ((x >= y) as u8) << 5;
            (x.partial_cmp(&y).unwrap_or(Ordering::Equal), bits)
        }};
    }
    macro_rules! ops {
        ($x:expr, $y:expr) => {{
            // unsized operands: no partial_cmp by reference of reference
            let bits = ($x == $y) as u8 | (($x != $y) as u8) << 1 | (($x < $y) as u8) << 2 | (($x <= $y) as u8) << 3 | (($x > $y) as u8) << 4 | (($x >= $y) as u8) << 5;
            bits
        }};
    }
    match (f, x, y) {
        (0, Opd::Buf(a), Opd::Buf(b)) => {
            let (_, bits) = all!(a, b);
            (Ord::cmp(a, b), bits)
        }
        (1, Opd::Buf(a), y) => {
            let b = y.num();
            let bits = ops!(*a, *b);
            (a.partial_cmp(b).unwrap(), bits)
        }
        (2, x, Opd::Buf(b)) => {
            let a = x.num();
            let bits = ops!(*a, *b);
            (a.partial_cmp(b).unwrap(), bits)
        }
        (3, Opd::Buf(a), y) => {
            let b = y.num();
            let bits = ops!(*a, b);
            (PartialOrd::<&Numeric>::partial_cmp(a, &b).unwrap(), bits)
        }
        (4, x, Opd::Buf(b)) => {
            let a = x.num();
            let bits = ops!(a, *b);
            (PartialOrd::<NumericBuf>::partial_cmp(&a, b).unwrap(), bits)
        }
        (5, x, y) => {
            let (a, b) = (x.num(), y.num());
            let bits = ops!(a, *b);
            (PartialOrd::<Numeric>::partial_cmp(&a, b).unwrap(), bits)
        }
        (6, x, y) => {
            let (a, b) = (x.num(), y.num());
            let bits = ops!(*a, b);
            (PartialOrd::<&Numeric>::partial_cmp(a, &b).unwrap(), bits)
        }
        (7, Opd::Buf(a), Opd::Buf(b)) => {
            let bits = ops!(a, *b);
            (PartialOrd::<NumericBuf>::partial_cmp(&a, b).unwrap(), bits)
        }
        (8, Opd::Buf(a), Opd::Buf(b)) => {
            let bits = ops!(*a, b);
            (PartialOrd::<&NumericBuf>::partial_cmp(a, &b).unwrap(), bits)
        }
        (_, x, y) => {
            let (a, b) = (x.num(), y.num());
            let (p, bits) = all!(a, b);
            let o = Ord::cmp(a, b);
            (if o == p { o } else { Ordering::Equal }, bits)
        }
    }
}

fn show<W: std::fmt::Write>(x: Opd<'static>, k: u8, s: &mut W) -> std::fmt::Result {
    match x {
        Opd::Buf(n) => match k {
            0 => write!(s, "{}", n),
            1 => write!(s, "{:e}", n),
            2 => write!(s, "{:E}", n),
            3 => write!(s, "{:?}", n),
            4 => write!(s, "{:#?}", n),
            5 => write!(s, "{:>40}", n),
            6 => write!(s, "{:+}", n),
            7 => write!(s, "<{}|{:e}>", n, n),
            _ => write!(s, "{:.3}", n),
        },
        _ => {
            let n = x.num();
            match k {
                0 => write!(s, "{}", n),
                1 => write!(s, "{:e}", n),
                2 => write!(s, "{:E}", n),
                3 => write!(s, "{:?}", n),
                4 => write!(s, "{:#?}", n),
                5 => write!(s, "{:>40}", n),
                6 => write!(s, "{:+}", n),
                7 => write!(s, "<{}|{:e}>", n, n),
                _ => write!(s, "{:.3}", n),
            }
        }
    }
}

// ---- caller-supplied code -----------------------------------------------------------------
/// What user code does with the library while the library is calling it.
pub fn reenter(cb: &Cb, x: Opd<'static>, m: &Val, k: u64) {
    if cb.re & 1 != 0 {
        bump("callback_yield");
        sched::yield_point();
    }
    if cb.re & 2 != 0 {
        bump("callback_reenter");
        let bad = |w: &str| vio(&[c::REENTRY, c::MODEL], &format!("library used from inside a callback: {} of {} is wrong", w, short(&m.text())));
        // long values make every inner call long
        let big = size(m) > 300;
        for j in 0..if big { 1 } else { 1 + k % 3 } {
            inner(x, m, if big && (k % 4 > 0 || size(m) > 4000) { [2, 3, 5, 13, 14, 15, 20, 21][k as usize % 8] } else { (k + j * 5) % 22 }, &bad);
        }
    }
}
/// The uses of the library that are made inside callbacks.
fn inner(x: Opd<'static>, m: &Val, k: u64, bad: &dyn Fn(&str)) {
    {
        let text = |r: Result<String, String>, want: &str, w: &str| {
            let ok = r.as_ref().map_or(false, |t| t == want);
            sys(|| drop(r)).ok();
            if !ok {
                bad(w);
            }
        };
        match k {
            0 => text(sys(|| x.num().to_string()), &m.text(), "text"),
            7 => text(
                sys(|| match x {
                    Opd::Buf(b) => format!("<{}|{:e}>", b, b),
                    _ => format!("<{}|{:e}>", x.num(), x.num()),
                }),
                &format!("<{}|{}>", m.text(), m.sci(false)),
                "formatted text",
            ),
            8 => text(sys(|| format!("{:E}", x.num())), &m.sci(true), "scientific text"),
            9 => text(sys(|| serde_json::to_string(x.num()).unwrap_or_default()), &format!("\"{}\"", m.text()), "JSON"),
            10 => {
                let r = sys(|| match x {
                    Opd::Buf(b) => serde_json::to_vec(b).ok(),
                    _ => serde_json::to_vec(&x.num().to_owned()).ok(),
                });
                let r2 = match &r {
                    Ok(Some(v)) => {
                        let v = v.clone();
                        sys(|| serde_json::from_slice::<NumericBuf>(&v).map(|n| n.to_string()).unwrap_or_default())
                    }
                    _ => Ok(String::new()),
                };
                sys(|| drop(r)).ok();
                text(r2, &m.text(), "the way through JSON");
            }
            11 => {
                let r = sys(|| {
                    let v = bincode::serialize(x.num()).unwrap();
                    let n: NumericBuf = bincode::deserialize(&v).unwrap();
                    n.to_string()
                });
                text(r, &m.text(), "the way through binary");
            }
            12 => {
                let t = m.text();
                let r = sys(|| t.parse::<NumericBuf>().map(|n| (n == *x.num()).to_string()).unwrap_or_default());
                text(r, "true", "parsed text");
            }
            13 => {
                let r = sys(|| {
                    let a: NumericBuf = "3.7".parse().unwrap();
                    let b: NumericBuf = "10".parse().unwrap();
                    format!("{} {} {}", a.ln(), a.log(&b), b.pow(&a).unwrap())
                });
                text(r, "1.3083328196501788 0.5682017240669950 5011.8723362727229", "logarithms and powers");
            }
            14 => {
                let r = sys(|| {
                    let d = f64::try_from(&NumericBuf::from(-77i8)).unwrap();
                    let n = NumericBuf::try_from(d * 0.125).unwrap();
                    let i: i32 = (&n).try_into().unwrap();
                    format!("{} {}", n, i)
                });
                text(r, "-9.625 -10", "conversions");
            }
            15 => {
                let r = sys(|| {
                    let mut n: NumericBuf = "98765432101234567890987654321.0123456789".parse().unwrap();
                    n.round_mut(4);
                    n *= &NumericBuf::from(1001);
                    format!("{:?} {}", n.as_numeric(), n).split_once("} ").map_or(String::new(), |t| t.1.to_string())
                });
                text(r, "98864197533335802458878641975333.3123", "a long product");
            }
            16 => {
                let mut h = RecHasher::new(Cb::none(), x, m.clone());
                let mut h2 = RecHasher::new(Cb::none(), x, m.clone());
                let r = sys(|| {
                    x.num().hash(&mut h);
                    match x {
                        Opd::Buf(b) => b.hash(&mut h2),
                        _ => x.num().hash(&mut h2),
                    }
                });
                if r.is_err() || h.stream != h2.stream {
                    bad("hash");
                }
            }
            17 => {
                let r = sys(|| x.num().checked_mul(x.num()));
                let ok = match (&r, (cost(2, m, m) <= 1_000_000).then(|| m.mul(m))) {
                    (_, None) => true,
                    (Ok(Some(n)), Some(Ok(v))) => Val::decode(n.as_bytes(), BE).as_ref() == Ok(&v),
                    (Ok(None), Some(Err(_))) => true,
                    _ => false,
                };
                sys(|| drop(r)).ok();
                if !ok {
                    bad("square");
                }
            }
            1 => {
                let r = sys(|| x.num().checked_add(x.num()));
                let ok = match (&r, m.add(m)) {
                    (Ok(Some(n)), Ok(v)) => Val::decode(n.as_bytes(), BE).as_ref() == Ok(&v),
                    (Ok(None), Err(_)) => true,
                    _ => false,
                };
                sys(|| drop(r)).ok();
                if !ok {
                    bad("sum");
                }
            }
            2 => {
                let r = sys(|| x.num().cmp(x.num()));
                if r != Ok(Ordering::Equal) {
                    bad("comparison");
                }
            }
            3 => {
                let r = sys(|| {
                    let a: NumericBuf = "12345.678901".parse().unwrap();
                    let b: NumericBuf = NumericBuf::from(-77i64);
                    let q = (&a * &b).round(3);
                    q.to_string()
                });
                let ok = r.as_ref().map_or(false, |t| t == "-950617.275");
                sys(|| drop(r)).ok();
                if !ok {
                    bad("a fresh product");
                }
            }
            4 => {
                let mut h = std::collections::hash_map::DefaultHasher::new();
                let mut h2 = h.clone();
                let r = sys(|| {
                    x.num().hash(&mut h);
                    let n = x.num().to_owned();
                    n.hash(&mut h2);
                });
                if r.is_err() || h.finish() != h2.finish() {
                    bad("hash");
                }
            }
            5 => {
                let r = sys(|| {
                    let a: NumericBuf = "2".parse().unwrap();
                    a.sqrt().to_string()
                });
                let ok = r.as_ref().map_or(false, |t| t == "1.414213562373095");
                sys(|| drop(r)).ok();
                if !ok {
                    bad("sqrt(2)");
                }
            }
            20 => {
                // sinks that write into sinks
                let mut top = Nest::new(NESTED.len());
                let r = sys(|| top.write_str("").is_ok());
                if r != Ok(true) || !top.ok {
                    bad("text written by the sink of a text written by a sink");
                }
            }
            21 => {
                let mut h = Nest::new(NESTED.len());
                let r = sys(|| Hasher::write_u8(&mut h, 1));
                if r.is_err() || !h.ok {
                    bad("hash taken by the hasher of a hash");
                }
            }
            _ => {
                let r = sys(|| {
                    let mut n = x.num().to_owned();
                    n.negate_mut();
                    n.negate_mut();
                    n
                });
                let ok = r.as_ref().map_or(false, |n| Val::decode(n.as_bytes(), BE).as_ref() == Ok(m));
                sys(|| drop(r)).ok();
                if !ok {
                    bad("double negation");
                }
            }
        }
    }
}

/// Sinks and hashers that use the library while it calls them, some levels deep.
const NESTED: [(&str, &str); 4] = [
    ("5.5", "5.5e+00"),
    ("-12345678901234567890123456789012345678901234567.000125", "-1.2345678901234567890123456789012345678901234567000125e+46"),
    ("0.00000001", "1e-08"),
    ("9999999900000000.1", "9.9999999000000001e+15"),
];
struct Nest {
    depth: usize,
    left: u8,
    ok: bool,
    text: String,
    h: u64,
}
impl Nest {
    fn new(depth: usize) -> Nest {
        Nest { depth, left: 2, ok: true, text: String::new(), h: 7 }
    }
    fn down(&mut self) -> Option<(NumericBuf, &'static (&'static str, &'static str))> {
        if self.depth == 0 || self.left == 0 {
            return None;
        }
        self.left -= 1;
        let t = &NESTED[self.depth - 1];
        Some((t.0.parse().ok()?, t))
    }
}
impl std::fmt::Write for Nest {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.text.push_str(s);
        if let Some((n, t)) = self.down() {
            let mut k = Nest::new(self.depth - 1);
            let sci = self.left == 0;
            let r = if sci { write!(k, "{:e}", n) } else { write!(k, "{}", n) };
            self.ok &= r.is_ok() && k.ok && k.text == if sci { t.1 } else { t.0 };
        }
        Ok(())
    }
}
impl Hasher for Nest {
    fn finish(&self) -> u64 {
        self.h
    }
    fn write(&mut self, b: &[u8]) {
        self.h = prng::mix(self.h, prng::hash_bytes(b));
        if let Some((n, _)) = self.down() {
            let (mut k, mut plain) = (Nest::new(self.depth - 1), Nest::new(0));
            n.hash(&mut k);
            n.hash(&mut plain);
            self.ok &= k.ok && k.h == plain.h;
        }
    }
}

pub struct Sink {
    cb: Cb,
    x: Opd<'static>,
    m: Val,
    pub got: String,
    pub calls: u64,
    pub fired: u8,
    pub after: u32,
}
impl Sink {
    pub fn new(cb: Cb, x: Opd<'static>, m: Val) -> Sink {
        Sink { cb, x, m, got: String::new(), calls: 0, fired: 0, after: 0 }
    }
}
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        host(|| {
            self.calls += 1;
            if self.fired > 0 {
                self.after += 1;
                return Err(std::fmt::Error);
            }
            if self.cb.every > 0 && self.calls % self.cb.every as u64 == 0 && self.calls / (self.cb.every as u64) <= 40 {
                reenter(&self.cb, self.x, &self.m, self.calls / self.cb.every as u64 + self.cb.cap as u64);
            }
            if self.cb.at >= 0 && self.got.len() as i64 + s.len() as i64 > self.cb.at {
                let k = (self.cb.at - self.got.len() as i64).max(0) as usize;
                let k = (0..=k.min(s.len())).rev().find(|&k| s.is_char_boundary(k)).unwrap();
                self.got.push_str(&s[..k]);
                match self.cb.act {
                    1 => {
                        self.fired = 1;
                        return Err(std::fmt::Error);
                    }
                    2 => {
                        self.fired = 2;
                        panic!("sink gives up");
                    }
                    _ => {}
                }
                self.got.push_str(&s[k..]);
                return Ok(());
            }
            self.got.push_str(s);
            Ok(())
        })
    }
}

pub struct RecHasher {
    cb: Cb,
    x: Opd<'static>,
    m: Val,
    pub stream: Vec<u8>,
    pub calls: i64,
    pub fired: bool,
}
impl RecHasher {
    pub fn new(cb: Cb, x: Opd<'static>, m: Val) -> RecHasher {
        RecHasher { cb, x, m, stream: vec![], calls: 0, fired: false }
    }
    fn put(&mut self, k: u8, b: &[u8]) {
        host(|| {
            self.calls += 1;
            if self.cb.every > 0 && self.calls % self.cb.every as i64 == 0 && self.calls / (self.cb.every as i64) <= 40 {
                reenter(&self.cb, self.x, &self.m, self.calls as u64 / self.cb.every as u64 + self.cb.cap as u64);
            }
            if self.cb.act == 2 && self.cb.at >= 0 && self.calls > self.cb.at {
                self.fired = true;
                panic!("hasher gives up");
            }
            self.stream.push(k);
            self.stream.extend_from_slice(&(b.len() as u32).to_le_bytes());
            self.stream.extend_from_slice(b);
        })
    }
}
impl Hasher for RecHasher {
    fn finish(&self) -> u64 {
        prng::hash_bytes(&self.stream)
    }
    fn write(&mut self, b: &[u8]) {
        self.put(0, b)
    }
    fn write_u8(&mut self, v: u8) {
        self.put(1, &[v])
    }
    fn write_u16(&mut self, v: u16) {
        self.put(2, &v.to_le_bytes())
    }
    fn write_u32(&mut self, v: u32) {
        self.put(3, &v.to_le_bytes())
    }
    fn write_u64(&mut self, v: u64) {
        self.put(4, &v.to_le_bytes())
    }
    fn write_usize(&mut self, v: usize) {
        self.put(5, &v.to_le_bytes())
    }
    fn write_i8(&mut self, v: i8) {
        self.put(6, &v.to_le_bytes())
    }
    fn write_i16(&mut self, v: i16) {
        self.put(7, &v.to_le_bytes())
    }
    fn write_i32(&mut self, v: i32) {
        self.put(8, &v.to_le_bytes())
    }
    fn write_i64(&mut self, v: i64) {
        self.put(9, &v.to_le_bytes())
    }
}

// ---- environment --------------------------------------------------------------------------
pub const LOCALES: [&[u8]; 3] = [b"C\0", b"sim_COMMA\0", b"sim_COMMA.utf8\0"];
pub fn set_locale(k: u8) {
    unsafe {
        let p = libc::setlocale(libc::LC_ALL, LOCALES[k as usize % 2].as_ptr() as *const _);
        if p.is_null() {
            sched::fatal(c::HARNESS, "the comma locale is not available (LOCPATH)");
        }
    }
}
fn set_env(k: u8) {
    let v = ["C", "sim_COMMA", "xx_YY", ""][k as usize % 4];
    for n in ["LC_ALL", "LC_NUMERIC", "LANG", "TZ", "POSIXLY_CORRECT"] {
        if k % 5 == 4 {
            std::env::remove_var(n);
        } else {
            std::env::set_var(n, v);
        }
    }
}
pub fn name(op: &Op) -> String {
    match op {
        Op::Set { v, .. } => format!("set({})", short(v)),
        Op::Map { kind, .. } => format!("map{}", kind),
        Op::Corrupt { path, .. } => format!("corrupt{}", path),
        Op::Ser { fmt, mode, wrap, .. } => format!("ser{}.{}.{}", fmt, mode, wrap),
        o => {
            let s = format!("{:?}", o);
            s.chars().take(60).filter(|c| !c.is_whitespace()).collect()
        }
    }
}
