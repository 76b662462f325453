//! Collections keyed by numerics, compared with a list keyed by mathematical value.
use crate::case::MapOp;
use crate::exec::*;
use decmodel::Val;
use pgnumeric::{Numeric, NumericBuf};
use simrt::sched::class as c;
use simrt::{prng, sys};
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::Write as _;
use std::hash::{BuildHasher, Hasher};
use std::ops::Bound;

/// Seeded hashers; `weak` ones keep few bits so that unequal keys often collide.
#[derive(Clone)]
pub struct SeedHash {
    seed: u64,
    kind: u8,
}
pub struct SH {
    h: u64,
    kind: u8,
    calls: u64,
}
impl BuildHasher for SeedHash {
    type Hasher = SH;
    fn build_hasher(&self) -> SH {
        SH { h: self.seed, kind: self.kind, calls: 0 }
    }
}
impl Hasher for SH {
    fn finish(&self) -> u64 {
        match self.kind {
            1 => self.h,
            2 => self.h & 3, // weak
            3 => prng::mix(self.h, self.calls),
            _ => 7, // constant
        }
    }
    fn write(&mut self, b: &[u8]) {
        self.calls += 1;
        if self.kind == 3 {
            // sensitive to how the input is cut into calls
            self.h = prng::mix(self.h, prng::hash_bytes(b) ^ b.len() as u64);
        } else {
            for &x in b {
                self.h = (self.h ^ x as u64).wrapping_mul(0x100_0000_01b3).rotate_left(5);
            }
        }
    }
}

enum M {
    Hm(HashMap<NumericBuf, u32, std::collections::hash_map::RandomState>),
    Hs(HashMap<NumericBuf, u32, SeedHash>),
    Set(HashSet<NumericBuf, SeedHash>),
    Bm(BTreeMap<NumericBuf, u32>),
    Bs(BTreeSet<NumericBuf>),
}

pub fn run_map(cx: &mut Ctx, kind: u8, hs: u64, ops: &[MapOp]) {
    bump("maps_checked");
    let mut list: Vec<(Val, u32)> = vec![]; // model
    let bh = SeedHash { seed: hs, kind: 1 + (hs % 4) as u8 };
    let m = sys(|| match kind {
        0 => M::Hm(HashMap::new()),
        1 => M::Hs(HashMap::with_hasher(bh.clone())),
        2 => M::Set(HashSet::with_hasher(bh.clone())),
        3 => M::Bm(BTreeMap::new()),
        _ => M::Bs(BTreeSet::new()),
    });
    let mut m = match m {
        Ok(m) => m,
        Err(_) => return,
    };
    let mut n = 0u32;
    for op in ops {
        n += 1;
        let r = match op {
            MapOp::Insert(a) | MapOp::Get(a) | MapOp::Remove(a) | MapOp::Range(a) => *a,
            _ => 0,
        };
        let (x, mx) = match (cx.opd(r), cx.model(r)) {
            (Some(x), Some(m)) => (x, m),
            _ => continue,
        };
        let pos = list.iter().position(|e| e.0.cmp(&mx) == Ordering::Equal);
        let bad = |w: &str| vio(&[c::MAP], &format!("{} of {} in collection {} (hasher {})", w, short(&mx.text()), kind, 1 + hs % 4));
        match op {
            MapOp::Insert(_) => {
                let r = sys(|| {
                    let k = x.num().to_owned();
                    match &mut m {
                        M::Hm(m) => m.insert(k, n).map(|v| v as i64),
                        M::Hs(m) => m.insert(k, n).map(|v| v as i64),
                        M::Set(s) => Some(if s.insert(k) { -1 } else { -2 }),
                        M::Bm(m) => m.insert(k, n).map(|v| v as i64),
                        M::Bs(s) => Some(if s.insert(k) { -1 } else { -2 }),
                    }
                });
                let want = match pos {
                    Some(i) => Some(if kind == 2 || kind == 4 { -2 } else { list[i].1 as i64 }),
                    None => {
                        if kind == 2 || kind == 4 {
                            Some(-1)
                        } else {
                            None
                        }
                    }
                };
                if r != Ok(want) {
                    bad(&format!("insertion returned {:?} instead of {:?}", r, want));
                }
                match pos {
                    Some(i) => list[i].1 = n,
                    None => list.push((mx.clone(), n)),
                }
            }
            MapOp::Get(_) => {
                // by the borrowed form
                let r = sys(|| {
                    let k: &Numeric = x.num();
                    match &m {
                        M::Hm(m) => m.get(k).map(|v| *v),
                        M::Hs(m) => m.get(k).map(|v| *v),
                        M::Set(s) => s.get(k).map(|_| 0),
                        M::Bm(m) => m.get(k).map(|v| *v),
                        M::Bs(s) => s.get(k).map(|_| 0),
                    }
                });
                let want = pos.map(|i| if kind == 2 || kind == 4 { 0 } else { list[i].1 });
                if r != Ok(want) {
                    bad(&format!("lookup gave {:?} instead of {:?}", r, want));
                }
                let _ = write!(cx.line, " g{:?}", want);
            }
            MapOp::Remove(_) => {
                let r = sys(|| {
                    let k: &Numeric = x.num();
                    match &mut m {
                        M::Hm(m) => m.remove(k),
                        M::Hs(m) => m.remove(k),
                        M::Set(s) => s.take(k).map(|_| 0),
                        M::Bm(m) => m.remove(k),
                        M::Bs(s) => s.take(k).map(|_| 0),
                    }
                });
                let want = pos.map(|i| if kind == 2 || kind == 4 { 0 } else { list[i].1 });
                if r != Ok(want) {
                    bad(&format!("removal gave {:?} instead of {:?}", r, want));
                }
                if let Some(i) = pos {
                    list.remove(i);
                }
            }
            MapOp::Range(_) => {
                let r = sys(|| {
                    let k: &Numeric = x.num();
                    match &m {
                        M::Bm(m) => Some(m.range::<Numeric, _>((Bound::Included(k), Bound::Unbounded)).count()),
                        M::Bs(s) => Some(s.range::<Numeric, _>((Bound::Included(k), Bound::Unbounded)).count()),
                        _ => None,
                    }
                });
                let want = list.iter().filter(|e| e.0.cmp(&mx) != Ordering::Less).count();
                match r {
                    Ok(Some(g)) if g != want => bad(&format!("range from here has {} instead of {} keys; range", g, want)),
                    Err(p) => bad(&format!("range panicked ({})", short(&p))),
                    _ => {}
                }
            }
            MapOp::Iter => {
                let r: Result<Vec<Val>, String> = {
                    let v = |n: &NumericBuf| Val::decode(n.as_bytes(), BE).unwrap_or(Val::NaN);
                    Ok(match &m {
                        M::Hm(m) => m.keys().map(v).collect(),
                        M::Hs(m) => m.keys().map(v).collect(),
                        M::Set(s) => s.iter().map(v).collect(),
                        M::Bm(m) => m.keys().map(v).collect(),
                        M::Bs(s) => s.iter().map(v).collect(),
                    })
                };
                let got = r.unwrap();
                let mut want: Vec<&Val> = list.iter().map(|e| &e.0).collect();
                want.sort_by(|a, b| a.cmp(b));
                let mut g: Vec<&Val> = got.iter().collect();
                if kind < 3 {
                    g.sort_by(|a, b| a.cmp(b));
                }
                if g.len() != want.len() || g.iter().zip(&want).any(|(a, b)| a.cmp(b) != Ordering::Equal) {
                    vio(
                        &[c::MAP],
                        &format!(
                            "collection {} holds {:?} instead of {:?}",
                            kind,
                            g.iter().map(|v| short(&v.text())).collect::<Vec<_>>(),
                            want.iter().map(|v| short(&v.text())).collect::<Vec<_>>()
                        ),
                    );
                }
                let _ = write!(cx.line, " i{}", want.len());
            }
            MapOp::Clear => {
                sys(|| match &mut m {
                    M::Hm(m) => m.clear(),
                    M::Hs(m) => m.clear(),
                    M::Set(m) => m.clear(),
                    M::Bm(m) => m.clear(),
                    M::Bs(m) => m.clear(),
                })
                .ok();
                list.clear();
            }
        }
    }
    if sys(|| drop(m)).is_err() {
        vio(&[c::PANIC, c::MAP], "dropping a collection panicked");
    }
}

pub fn run_sort(cx: &mut Ctx, how: u8, xs: &[u16]) {
    bump("maps_checked");
    let items: Vec<(Opd<'static>, Val)> = xs.iter().filter_map(|&r| Some((cx.opd(r)?, cx.model(r)?))).collect();
    if items.is_empty() {
        return;
    }
    let mut want: Vec<Val> = items.iter().map(|i| i.1.clone()).collect();
    want.sort_by(|a, b| a.cmp(b)); // stable
    let cap = items.len();
    let v = sys(|| {
        let mut v: Vec<NumericBuf> = Vec::with_capacity(cap);
        for i in &items {
            v.push(i.0.num().to_owned());
        }
        match how {
            0 => v.sort(),
            1 => v.sort_unstable(),
            2 => v.sort_by(|a, b| a.partial_cmp(b).unwrap()),
            3 => v.sort_by(|a, b| Numeric::partial_cmp(a, b).unwrap()),
            4 => v.sort_by(|a, b| b.cmp(a)),
            5 => {
                // selection by max
                let mut out: Vec<NumericBuf> = Vec::with_capacity(cap);
                while !v.is_empty() {
                    let mut k = 0;
                    for i in 1..v.len() {
                        if v[i] >= v[k] {
                            k = i;
                        }
                    }
                    out.push(v.remove(k));
                }
                out.reverse();
                v = out;
            }
            _ => {
                let mut r: Vec<&Numeric> = items.iter().map(|i| i.0.num()).collect();
                r.sort();
                v = r.into_iter().map(|n| n.to_owned()).collect();
            }
        }
        v
    });
    let v = match v {
        Ok(v) => v,
        Err(p) => {
            vio(&[c::MAP], &format!("sorting panicked: {}", short(&p)));
            return;
        }
    };
    let mut got: Vec<Val> = v.iter().map(|n| Val::decode(n.as_bytes(), BE).unwrap_or(Val::NaN)).collect();
    if how == 4 {
        got.reverse();
    }
    let exact = matches!(how, 0 | 2 | 3 | 5) || how > 5;
    let same = got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| if exact { a == b } else { a.cmp(b) == Ordering::Equal });
    if !same {
        vio(
            &[c::MAP],
            &format!(
                "sorting (way {}) gave {:?} instead of {:?}",
                how,
                got.iter().map(|v| short(&v.text())).collect::<Vec<_>>(),
                want.iter().map(|v| short(&v.text())).collect::<Vec<_>>()
            ),
        );
    }
    // agreed order: binary search finds every element
    if how < 4 {
        for i in &items {
            let r = sys(|| v.binary_search_by(|p| PartialOrd::<Numeric>::partial_cmp(p, i.0.num()).unwrap()).is_ok());
            if r != Ok(true) {
                vio(&[c::MAP], &format!("{} not found by binary search after sorting", short(&i.1.text())));
            }
        }
    }
    let _ = write!(cx.line, " {:x}", want.iter().fold(0, |h, v| prng::mix(h, prng::hash_bytes(v.text().as_bytes()))));
    sys(|| drop(v)).ok();
}
