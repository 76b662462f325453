//! Generates cases: values, programs, hand-overs and the environment of each run.
use crate::case::*;
use crate::exec::NREG;
use crate::run::Res;
use simrt::Rng;

const GROUPS: [u32; 12] = [0, 0, 1, 9, 10, 4999, 5000, 5001, 9990, 9998, 9999, 9999];

/// What sort of values a case is made of.
#[derive(Clone, Copy, PartialEq)]
pub enum Profile {
    Small,
    Mixed,
    Edge,
    Extreme,
    /// few digits, exponents all over the range: overflows and huge gaps, yet quick
    Over,
}

pub fn lit(r: &mut Rng, p: Profile) -> String {
    let neg = if r.chance(2, 5) { "-" } else { "" };
    let k = match p {
        Profile::Small => *r.pick(&[0, 0, 0, 1, 1, 1, 2, 5, 8, 10]),
        Profile::Mixed => *r.pick(&[0, 1, 2, 2, 2, 2, 3, 3, 4, 4, 5, 5, 6, 8, 9, 10, 11]),
        Profile::Edge => *r.pick(&[1, 2, 2, 2, 3, 3, 3, 4, 4, 4, 5, 6, 6, 6, 8, 11]),
        Profile::Over => *r.pick(&[0, 1, 3, 5, 8, 13, 13, 13, 13]),
        Profile::Extreme => *r.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 7, 7, 7, 7, 7, 7, 8]),
    };
    // now and then something far out in any company
    let k = if matches!(p, Profile::Mixed | Profile::Edge) && r.chance(1, 60) || p == Profile::Extreme && r.chance(1, 6) { 12 } else { k };
    let body = match k {
        13 => match r.below(6) {
            0 => format!("{}e131071", r.range(1, 9)),
            1 => format!("{}e{}", r.range(1, 99), 131_070 - r.range(0, 5)),
            2 => format!("{}e{}", r.range(1, 9999), r.range(10_000, 100_000)),
            3 => format!("{}e{}", r.range(1, 99_999), r.range(100, 20_000)),
            4 => format!("{}e-{}", r.range(1, 99_999), r.range(100, 16_378)),
            _ => format!("{}e-{}", r.range(1, 999), r.range(0, 20)),
        },
        12 => match r.below(8) {
            0 => format!("0e-{}", r.range(900, 16_383)),
            1 => format!("0e-{}", 16_383 - r.range(0, 3)),
            2 => format!("{}e-{}", r.range(1, 9999), r.range(300, 16_379)),
            3 => format!("{}e-{}", r.range(1, 99), r.range(990, 1050)),
            4 => format!("{}e{}", r.range(1, 9999), r.range(20, 2000)),
            5 => format!("[9*{}]", r.range(900, 1100)),
            6 => format!("{}.[0*{}]{}", r.range(0, 9), r.range(900, 2050), r.range(0, 9)),
            _ => format!("{}e-{}", r.range(1, 999), r.range(60, 300)),
        },
        0 => format!("{}", r.range(0, 30)),
        1 => format!("{}.{}", r.range(0, 2000), r.range(0, 99_999)),
        2 => groups(r),
        3 => match r.below(6) {
            0 => format!("1[0*{}]", r.range(0, 24)),
            1 => format!("[9*{}]", r.range(1, 24)),
            2 => format!("0.[0*{}]1", r.range(0, 24)),
            3 => format!("1[0*{}].[0*{}]1", r.range(0, 12), r.range(0, 20)),
            4 => format!("0.[9*{}]", r.range(1, 24)),
            _ => format!("1.[0*{}]", r.range(1, 24)),
        },
        4 => match r.below(4) {
            0 => format!("[9*{}].[9*{}]5", r.range(1, 14), r.range(0, 14)),
            1 => format!("{}.{}[9*{}]{}", r.range(0, 99), r.range(0, 99), r.range(1, 12), r.range(0, 9)),
            2 => format!("{}.[4*{}]{}", r.range(0, 9), r.range(1, 12), r.range(4, 6)),
            _ => format!("{}.5", r.range(0, 100_000)),
        },
        5 => match r.below(3) {
            0 => "0".into(),
            1 => format!("0.[0*{}]", r.range(1, 70)),
            _ => format!("0.[0*{}]{}", r.range(1, 9), r.range(1, 9)),
        },
        6 => {
            let f = *r.pick(&[60, 61, 62, 63, 64, 65, 66, 67]);
            match r.below(6) {
                0 => format!("{}.[0*{}]{}", r.range(0, 99), f, r.range(0, 9)),
                1 => format!("{}[0*{}]", r.range(1, 9), 4 * 63 + r.range(-2, 8)),
                2 => format!("{}[7*{}].{}", r.range(1, 9), 4 * 63 + r.range(-2, 8), r.range(1, 9999)),
                3 => format!("0.[0*{}]{}", 4 * 64 + r.range(-8, 8), r.range(1, 99_999)),
                4 => format!("[9*{}].[9*{}]", 4 * 63 + r.range(0, 5), f),
                _ => format!("0.[0*{}]", f),
            }
        }
        // rounds up out of range
        7 if r.chance(1, 8) => format!("[9*131072].[9*{}]", r.range(1, 8)),
        7 => match r.below(10) {
            0 => "1e131071".into(),
            1 => "9e131071".into(),
            2 => "9.999999e131071".into(),
            3 => format!("{}e{}", r.range(1, 9), 131_071 - r.range(0, 12)),
            4 => "1e-16383".into(),
            5 => format!("{}e-{}", r.range(1, 99), 16_383 - r.range(0, 8)),
            6 => format!("1e{}", r.range(60_000, 70_000)),
            7 => format!("1e-{}", r.range(7_000, 9_000)),
            8 => format!("{}e{}", r.range(1, 9999), r.range(200, 3000)),
            _ => "5e131071".into(),
        },
        8 => return "NaN".into(),
        9 => {
            let n = r.range(300, 1500);
            let m = r.range(0, 600);
            let mut s = String::new();
            for i in 0..n {
                s.push((b'0' + if i == 0 { r.range(1, 9) } else { r.range(0, 9) } as u8) as char);
            }
            if m > 0 {
                s.push('.');
                for _ in 0..m {
                    s.push((b'0' + r.range(0, 9) as u8) as char);
                }
            }
            s
        }
        10 => {
            let e = r.range(-20, 20);
            format!("{}.{}e{}", r.range(1, 9), r.below(1_000_000_000_000_000), e)
        }
        _ => {
            let b: i128 = *r.pick(&[127, 128, 255, 256, 32767, 32768, 65535, 65536, 2147483647, 2147483648, 4294967295, 4294967296, i64::MAX as i128, 1 << 63, u64::MAX as i128, 1 << 64, i128::MAX]);
            let f = *r.pick(&["", "", ".4", ".5", ".49999999999999999999", ".50000000000000000001"]);
            let d = if b == i128::MAX { b - r.range(0, 1) as i128 } else { b + r.range(-1, 1) as i128 };
            format!("{}{}", d, f)
        }
    };
    format!("{}{}", neg, body)
}
/// A literal close to `t`: equal but written otherwise, or off by little.
fn related(r: &mut Rng, t: &str) -> String {
    if t == "NaN" || t.contains('e') {
        return match t.strip_prefix('-') {
            Some(x) if r.chance(1, 2) => x.to_string(),
            _ => t.to_string(),
        };
    }
    let point = t.contains('.');
    match r.below(8) {
        0 | 1 => {
            // one digit is different
            let b = t.as_bytes();
            let mut inside = false;
            let mut at = vec![];
            for (i, ch) in b.iter().enumerate() {
                match ch {
                    b'[' => inside = true,
                    b']' => inside = false,
                    b'0'..=b'9' if !inside => at.push(i),
                    _ => {}
                }
            }
            if at.is_empty() {
                return t.to_string();
            }
            let i = if r.chance(1, 3) { at[at.len() - 1] } else { *r.pick(&at) };
            let mut b = b.to_vec();
            b[i] = b'0' + if r.chance(1, 2) { (b[i] - b'0' + 1) % 10 } else { r.below(10) as u8 };
            String::from_utf8(b).unwrap()
        }
        2 => format!("{}{}[0*{}]", t, if point { "" } else { "." }, r.range(1, 12)),
        3 => format!("{}{}[0*{}]{}", t, if point { "" } else { "." }, r.range(0, 12), r.range(1, 9)),
        4 => format!("{}{}", t, r.range(0, 9)),
        5 => match t.strip_prefix('-') {
            Some(x) => x.to_string(),
            None => format!("-{}", t),
        },
        6 if t.len() > 2 && !t.ends_with(']') => t[..t.len() - 1].trim_end_matches(|c| c == '.' || c == '-').to_string(),
        7 => match t.strip_prefix('-') {
            Some(x) => format!("-{}{}", r.range(1, 9), x),
            None => format!("{}{}", r.range(1, 9), t),
        },
        _ => t.to_string(),
    }
}
/// Long numbers out of carry-prone groups: rare branches of multiplication and division.
fn long_groups(r: &mut Rng) -> String {
    let (ni, nf) = match r.below(4) {
        0 => (r.range(8, 40), 0),
        1 => (r.range(6, 40), r.range(1, 16)),
        2 => (1, r.range(8, 40)),
        _ => (r.range(2, 90), r.range(0, 30)),
    };
    let mut s = String::new();
    let mode = r.below(4);
    let g = |r: &mut Rng| -> u32 {
        match mode {
            0 => 9999,
            1 => *r.pick(&[9999, 9999, 9999, 0]),
            2 => *r.pick(&GROUPS),
            _ => r.below(10000) as u32,
        }
    };
    for i in 0..ni {
        let x = g(r);
        if i == 0 {
            let x = if r.chance(1, 2) { r.range(1, 30) as u32 } else { x.max(1) };
            s.push_str(&x.to_string());
        } else {
            s.push_str(&format!("{:04}", x));
        }
    }
    if nf > 0 {
        s.push('.');
        for _ in 0..nf {
            s.push_str(&format!("{:04}", g(r)));
        }
    }
    s
}
fn groups(r: &mut Rng) -> String {
    if r.chance(1, 7) {
        return long_groups(r);
    }
    let (ni, nf) = (r.range(0, 6), r.range(0, 6));
    let g = |r: &mut Rng| -> u32 {
        match r.below(4) {
            0 | 1 => *r.pick(&GROUPS),
            2 => 10u32.pow(r.below(4) as u32),
            _ => r.below(10000) as u32,
        }
    };
    let mut s = String::new();
    if ni == 0 {
        s.push('0');
    }
    for i in 0..ni {
        let x = g(r);
        if i == 0 {
            s.push_str(&x.max(1).to_string());
        } else {
            s.push_str(&format!("{:04}", x));
        }
    }
    if nf > 0 {
        let mut f = String::new();
        for _ in 0..nf {
            f.push_str(&format!("{:04}", g(r)));
        }
        let cut = f.len() - r.below(4) as usize;
        s.push('.');
        s.push_str(&f[..cut]);
    }
    s
}

// ---- operations ---------------------------------------------------------------------------
const K: usize = 27;
//                Set Int Flt Bin Chk Asg Un Scl Mut Typ Tr Cpy Drp Cmp Hsh TI TF Qry Shw Ser Cor Sto Syn Map Srt Loc Env
const W: [(&str, [u32; K]); 14] = [
    ("C01", [10, 3, 5, 12, 6, 8, 6, 5, 6, 3, 9, 6, 3, 5, 4, 4, 4, 2, 8, 5, 1, 0, 0, 2, 1, 0, 0]),
    ("C02", [10, 3, 3, 12, 8, 8, 7, 6, 8, 6, 3, 10, 8, 2, 2, 2, 2, 2, 4, 6, 6, 0, 0, 3, 2, 0, 0]),
    ("C03", [12, 3, 2, 16, 8, 14, 10, 10, 12, 8, 2, 6, 2, 6, 0, 6, 0, 2, 2, 0, 0, 0, 0, 0, 0, 0, 0]),
    ("C04", [12, 2, 1, 14, 8, 14, 8, 6, 14, 14, 3, 5, 2, 3, 0, 2, 0, 1, 2, 1, 0, 0, 0, 0, 0, 0, 0]),
    ("C05", [8, 1, 1, 10, 4, 14, 6, 4, 16, 8, 2, 20, 10, 2, 1, 1, 1, 1, 2, 2, 1, 0, 0, 2, 1, 0, 0]),
    ("C06", [10, 3, 4, 14, 6, 8, 8, 8, 10, 5, 7, 6, 2, 4, 3, 3, 4, 1, 8, 4, 4, 0, 0, 1, 1, 0, 0]),
    ("C07", [14, 1, 1, 8, 2, 4, 3, 3, 3, 1, 1, 3, 1, 0, 0, 0, 0, 0, 40, 0, 0, 0, 0, 0, 0, 0, 0]),
    ("C08", [14, 3, 3, 12, 4, 8, 8, 8, 10, 6, 4, 5, 1, 0, 0, 0, 0, 0, 0, 3, 2, 26, 5, 0, 0, 0, 0]),
    ("C09", [14, 1, 1, 6, 0, 2, 2, 2, 4, 1, 1, 2, 1, 1, 1, 1, 1, 1, 2, 2, 50, 0, 0, 1, 0, 0, 0]),
    ("C10", [14, 2, 2, 8, 1, 4, 4, 4, 5, 2, 2, 3, 1, 0, 0, 0, 0, 0, 1, 48, 0, 0, 0, 0, 0, 0, 0]),
    ("C11", [16, 3, 2, 10, 2, 4, 5, 8, 6, 2, 1, 3, 1, 12, 14, 0, 0, 0, 0, 0, 0, 0, 0, 14, 8, 0, 0]),
    ("C12", [14, 12, 26, 6, 0, 3, 2, 3, 2, 1, 2, 2, 1, 0, 0, 12, 20, 0, 8, 2, 0, 0, 0, 0, 0, 0, 2]),
    ("C13", [10, 1, 2, 8, 1, 3, 2, 2, 3, 1, 3, 2, 1, 2, 14, 1, 1, 0, 24, 16, 0, 0, 0, 2, 0, 0, 0]),
    ("C14", [10, 2, 2, 14, 4, 10, 4, 4, 6, 6, 9, 3, 2, 2, 3, 2, 2, 1, 6, 4, 0, 0, 0, 1, 1, 0, 0]),
];

pub struct G {
    pub r: Rng,
    prop: String,
    prof: Profile,
    nshared: u16,
    nviews: u16,
    /// registers that something was put into
    filled: u32,
    /// literals so far: later ones may be close relatives of them
    lits: Vec<String>,
}
impl G {
    fn reg(&mut self) -> u16 {
        self.r.below(NREG as u64) as u16
    }
    /// a register that is likely to hold something
    fn src(&mut self) -> u16 {
        if self.filled != 0 && self.r.chance(7, 8) {
            let mut k = self.r.below(self.filled.count_ones() as u64);
            for i in 0..NREG as u16 {
                if self.filled >> i & 1 == 1 {
                    if k == 0 {
                        return i;
                    }
                    k -= 1;
                }
            }
        }
        self.reg()
    }
    fn any(&mut self) -> u16 {
        let k = self.r.below(10);
        if k == 0 && self.nshared > 0 || k == 1 && self.nviews == 0 && self.nshared > 0 {
            100 + self.r.below(self.nshared as u64) as u16
        } else if k == 1 && self.nviews > 0 {
            200 + self.r.below(self.nviews as u64) as u16
        } else {
            self.src()
        }
    }
    fn lit(&mut self) -> String {
        let p = self.prof;
        lit(&mut self.r, p)
    }
    /// behaviour of caller-supplied code; `calls`: positions are calls rather than bytes
    fn cb(&mut self, calls: bool) -> Cb {
        let mut c = Cb::none();
        let r = &mut self.r;
        let p = self.prop.as_str();
        let fault = match p {
            "C07" => r.chance(3, 4),
            "C10" => r.chance(1, 3),
            "C02" | "C13" | "C14" => r.chance(1, 3),
            "C01" | "C05" | "C06" | "C08" => r.chance(1, 8),
            _ => false,
        };
        if fault {
            c.at = match r.below(6) {
                0 => 0,
                1 | 2 | 3 => r.range(0, if calls { 6 } else { 12 }),
                4 => r.range(0, if calls { 12 } else { 60 }),
                _ => r.range(0, if calls { 30 } else { 400 }),
            };
            if !calls && r.chance(1, 5) {
                let m = if r.chance(1, 2) { 6 } else { 600 };
                c.at = -2 - r.range(0, m);
            }
            c.act = 1 + r.below(2) as u8;
        }
        let again = match p {
            "C13" => r.chance(5, 6),
            "C07" => r.chance(1, 3),
            "C01" | "C05" | "C10" | "C14" | "C02" | "C04" => r.chance(1, 5),
            _ => false,
        };
        if again {
            c.every = 1 + r.below(4) as u8;
            c.re = 1 + r.below(3) as u8;
            c.cap = r.below(7) as u8;
        }
        c
    }
    fn pipe(&mut self) -> Cb {
        let mut c = self.cb(false);
        if self.prop == "C10" || self.r.chance(1, 3) {
            c.cap = *self.r.pick(&[0, 1, 2, 3, 5, 7, 16]);
            c.intr = *self.r.pick(&[0, 0, 1, 2, 5]);
        }
        if c.act > 0 && self.r.chance(1, 3) {
            c.act = 3;
        }
        c
    }
    fn scale(&mut self) -> i32 {
        match self.r.below(12) {
            0..=5 => self.r.range(-6, 14) as i32,
            6 | 7 => self.r.range(-12, 40) as i32,
            8 => *self.r.pick(&[-4, -1, 0, 1, 3, 4, 5, 8]),
            9 => *self.r.pick(&[62, 63, 64, 65, 66, 100]),
            10 => self.r.range(-300, 300) as i32,
            _ => *self.r.pick(&[-2000, -2001, 2000, 2001, 5000, -5000, i32::MAX, i32::MIN, -131_072]),
        }
    }
    fn op(&mut self, k: usize) -> Op {
        let d = if matches!(k, 5 | 8 | 9 | 12) { self.src() } else { self.reg() };
        let (a, b) = (self.any(), self.any());
        self.filled = match k {
            12 => self.filled & !(1 << d),
            0..=3 | 6 | 7 | 10 | 11 => self.filled | 1 << d,
            _ => self.filled,
        };
        match k {
            0 => {
                let how = *self.r.pick(&[0, 0, 0, 1, 2]);
                if self.r.chance(1, 80) {
                    let v = *self.r.pick(&["", " ", "abc", "1e131072", "1.2.3", "0x10", "1e-99999999999", "--1", "1e", "."]);
                    return Op::Set { d, v: v.into(), how: if how == 1 { 0 } else { how } };
                }
                let v = if !self.lits.is_empty() && self.r.chance(1, 4) {
                    let k = self.r.below(self.lits.len() as u64) as usize;
                    let t = self.lits[k].clone();
                    related(&mut self.r, &t)
                } else {
                    self.lit()
                };
                if self.lits.len() < 12 {
                    self.lits.push(v.clone());
                }
                Op::Set { d, v, how }
            }
            1 => {
                let ty = self.r.below(13) as u8;
                let v: String = match ty {
                    12 => format!("{}", self.r.below(2)),
                    0..=5 => {
                        let bits = [8, 16, 32, 64, 128, 64][ty as usize];
                        let min = i128::MIN >> (128 - bits);
                        let x = match self.r.below(4) {
                            0 => min,
                            1 => !min,
                            2 => self.r.range(-100, 100) as i128,
                            _ => (self.r.next() as i128 | (self.r.next() as i128) << 64) >> (128 - bits),
                        };
                        x.max(min).min(!min).to_string()
                    }
                    _ => {
                        let bits = [8, 16, 32, 64, 128, 64][ty as usize - 6];
                        let max = u128::MAX >> (128 - bits);
                        let x = match self.r.below(4) {
                            0 => max,
                            1 => self.r.below(200) as u128,
                            _ => (self.r.next() as u128 | (self.r.next() as u128) << 64) >> (128 - bits),
                        };
                        x.min(max).to_string()
                    }
                };
                Op::Int { d, ty, v }
            }
            2 => {
                let f32 = self.r.chance(1, 3);
                let f: f64 = match self.r.below(9) {
                    0 => self.r.range(-1000, 1000) as f64 / 8.0,
                    1 => self.r.range(-1_000_000, 1_000_000) as f64 / 1000.0,
                    2 => f64::from_bits(self.r.next()),
                    3 => 10f64.powi(self.r.range(-30, 30) as i32),
                    4 => *self.r.pick(&[0.0, -0.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN_POSITIVE, 5e-324]),
                    5 => self.r.range(1, 1 << 53) as f64 * 2f64.powi(self.r.range(-80, 40) as i32),
                    6 => 0.1 * self.r.range(1, 99) as f64,
                    7 => (10f64.powi(self.r.range(1, 15) as i32) - 1.0) * 10f64.powi(self.r.range(-15, 5) as i32),
                    _ => f32::from_bits(self.r.next() as u32) as f64,
                };
                Op::Flt { d, bits: if f32 { (f as f32).to_bits() as u64 } else { f.to_bits() }, f32 }
            }
            3 => Op::Bin { d, o: self.r.below(5) as u8, f: self.r.below(9) as u8, a, b },
            4 => Op::Chk { d, o: self.r.below(6) as u8, a, b },
            5 => Op::Asg { d, o: self.r.below(5) as u8, f: self.r.below(3) as u8, b },
            6 => Op::Un { d, o: self.r.below(6) as u8, f: self.r.below(4) as u8, a },
            7 => Op::Scl { d, o: self.r.below(2) as u8, a, s: self.scale() },
            8 => Op::Mut { d, o: self.r.below(4) as u8, s: self.scale() },
            9 => {
                let p = match self.r.below(4) {
                    0 => self.r.range(1, 6),
                    1 | 2 => self.r.range(1, 40),
                    _ => self.r.range(1, 1000),
                } as i32;
                let cap = if self.r.chance(3, 4) { 12 } else { 1000 };
                let s = self.r.range(0, p.min(cap) as i64) as i32;
                Op::Typ { d, p, s }
            }
            10 => {
                let o = self.r.below(8) as u8;
                Op::Tr { d, o, a, b, i: if o == 7 { if self.r.chance(1, 8) { self.r.range(-3, 300) } else { self.r.range(0, 40) } } else { 0 } }
            }
            11 => Op::Copy { d, how: self.r.below(12) as u8, a },
            12 => Op::Drop { a: d },
            13 => Op::Cmp { a, b, f: self.r.below(10) as u8 },
            14 => Op::Hash { a, cb: self.cb(true) },
            15 => Op::ToInt { a, ty: self.r.below(12) as u8, f: self.r.below(3) as u8 },
            16 => Op::ToF { a, f32: self.r.chance(1, 3), f: self.r.below(3) as u8 },
            17 => Op::Query { a },
            18 => {
                let k = if self.prop == "C06" && self.r.chance(1, 3) { 3 } else { *self.r.pick(&[0, 0, 0, 1, 1, 2, 3, 4, 5, 6, 7, 8]) };
                Op::Show { a, k, cb: self.cb(false) }
            }
            19 => {
                let fmt = self.r.below(5) as u8;
                let (w, rd) = if fmt >= 3 { (self.cb(true), self.cb(true)) } else { (self.pipe(), self.pipe()) };
                let mut w = w;
                if w.act == 3 {
                    w.act = 1;
                }
                Op::Ser { d, a, fmt, mode: self.r.below(4) as u8, wrap: *self.r.pick(&[0, 0, 0, 1, 2, 3, 4, 5]), w, r: rd }
            }
            20 => {
                let n = *self.r.pick(&[0usize, 1, 1, 1, 1, 2, 2, 3]);
                let muts = (0..n)
                    .map(|_| {
                        let k = self.r.below(18) as u8;
                        let p = if self.r.chance(1, 2) { self.r.below(12) as u32 } else { self.r.next() as u32 };
                        let v = match k {
                            5 => *self.r.pick(&[10000u32, 9999, 32767, 32768, 65535, 0, 20000, 40000]),
                            6 => match self.r.below(6) {
                                0 => self.r.next() as u32,
                                1 => 0xC000,
                                2 => 0xF000,
                                3 => self.r.below(0x4000) as u32,
                                4 => 0x4000 | self.r.below(0x4000) as u32,
                                _ => 0x8000 | self.r.below(0x4000) as u32,
                            },
                            7 => *self.r.pick(&[0x7fffu32, 0x8000, 0x8001, 0, 0xffff, 1, 32766, 64, 63, 0xffc0, 0xffbf]),
                            _ => self.r.next() as u32,
                        };
                        (k, p, v)
                    })
                    .collect();
                Op::Corrupt { d, a, path: self.r.below(17) as u8, muts }
            }
            21 => Op::Store { a },
            22 => Op::Sync,
            23 => {
                let n = self.r.range(3, 16);
                let ops = (0..n)
                    .map(|_| {
                        let x = self.any();
                        match self.r.below(12) {
                            0..=4 => MapOp::Insert(x),
                            5..=7 => MapOp::Get(x),
                            8 => MapOp::Remove(x),
                            9 => MapOp::Iter,
                            10 => MapOp::Range(x),
                            _ => {
                                if self.r.chance(1, 5) {
                                    MapOp::Clear
                                } else {
                                    MapOp::Get(x)
                                }
                            }
                        }
                    })
                    .collect();
                Op::Map { kind: self.r.below(5) as u8, hs: self.r.next() % 1000, ops }
            }
            24 => {
                let n = self.r.range(2, 12);
                Op::Sort { how: self.r.below(7) as u8, xs: (0..n).map(|_| self.any()).collect() }
            }
            25 => Op::Locale { k: self.r.below(2) as u8 },
            _ => Op::Env { k: self.r.below(20) as u8 },
        }
    }
    fn weighted(&mut self, w: &[u32]) -> usize {
        let sum: u32 = w.iter().sum();
        let mut k = self.r.below(sum as u64) as u32;
        for (i, x) in w.iter().enumerate() {
            if k < *x {
                return i;
            }
            k -= x;
        }
        0
    }
    fn program(&mut self, w: &[u32], n: usize) -> Vec<Op> {
        let mut v = vec![];
        let fill = self.r.range(2, 5);
        for i in 0..fill {
            let mut o = self.op(0);
            if let Op::Set { d, .. } = &mut o {
                *d = i as u16;
            }
            v.push(o);
        }
        self.filled = (1 << fill) - 1;
        // sometimes a program hammers one operation: chains of it reach states mixtures do not
        let focus = if self.r.chance(1, 4) { Some(self.weighted(w)) } else { None };
        while v.len() < n {
            let k = match focus {
                Some(f) if self.r.chance(1, 2) => f,
                _ => self.weighted(w),
            };
            let o = self.op(k);
            // after rounding or converting something, use the result at once
            let follow = match &o {
                Op::Set { d, .. } | Op::Int { d, .. } | Op::Flt { d, .. } | Op::Mut { d, .. } | Op::Asg { d, .. } | Op::Typ { d, .. } | Op::Bin { d, .. } | Op::Scl { d, .. } | Op::Copy { d, .. } if self.r.chance(1, 5) => Some(*d),
                _ => None,
            };
            v.push(o);
            if let Some(d) = follow {
                let mut o2 = self.op(3 + self.r.clone().below(6) as usize);
                match &mut o2 {
                    Op::Bin { a, .. } | Op::Chk { a, .. } | Op::Un { a, .. } | Op::Scl { a, .. } => *a = d,
                    Op::Asg { d: x, .. } | Op::Mut { d: x, .. } => *x = d,
                    _ => {}
                }
                self.r.next();
                v.push(o2);
            }
        }
        // loops: some stretch is done again, with slightly different inputs
        if self.r.chance(1, 3) {
            let len = self.r.range(1, 7) as usize;
            let from = self.r.below(v.len() as u64) as usize;
            let chunk: Vec<Op> = v[from..(from + len).min(v.len())].to_vec();
            let vary = self.r.chance(2, 3);
            let at = from + chunk.len();
            let mut more = vec![];
            for _ in 0..self.r.range(1, 5) {
                for o in &chunk {
                    let mut o = o.clone();
                    match &mut o {
                        Op::Set { v, .. } if vary => {
                            *v = match v.bytes().last() {
                                Some(c @ b'0'..=b'9') if self.r.chance(2, 3) => {
                                    let c = (b'0' + (c - b'0' + self.r.range(1, 9) as u8) % 10) as char;
                                    format!("{}{}", &v[..v.len() - 1], c)
                                }
                                _ => related(&mut self.r, v),
                            }
                        }
                        Op::Flt { bits, f32, .. } if vary => *bits ^= 1 << self.r.below(if *f32 { 6 } else { 12 }),
                        Op::Scl { s, .. } | Op::Mut { s, .. } if vary && s.unsigned_abs() < 1000 => *s += self.r.range(-1, 1) as i32,
                        _ => {}
                    }
                    more.push(o);
                }
            }
            v.splice(at..at, more);
        }
        v
    }
}

/// Threads that keep doing the same few things: shared state behind an operation gets hit from
/// all sides, with operands of different sizes and scales.
fn duel(g: &mut G, r: &mut Rng, w: &[u32], nt: usize, threads: &mut Vec<Vec<Op>>) {
    let kinds: Vec<usize> = (0..1 + r.below(3)).map(|_| if r.chance(1, 2) { 10 } else { g.weighted(w) }).collect();
    // a couple of transcendental functions per case: all pairs of them meet
    let fns: Vec<u8> = (0..2 + r.below(2)).map(|_| *r.pick(&[0, 1, 2, 3, 4, 5, 6, 5, 6])).collect();
    *threads = (0..nt)
        .map(|_| {
            let mut v: Vec<Op> = vec![];
            for d in 0..4u16 {
                let text = duel_lit(r);
                v.push(Op::Set { d, v: text, how: r.below(2) as u8 });
            }
            for _ in 0..r.range(2, 9) {
                let k = *r.pick(&kinds);
                let mut o = g.op(k);
                if let Op::Tr { d, o, a, b, i } = &mut o {
                    *d = 4 + r.below(4) as u16;
                    *o = *r.pick(&fns);
                    *a = r.below(4) as u16;
                    *b = r.below(4) as u16;
                    *i = 0;
                }
                v.push(o);
            }
            v
        })
        .collect();
}

/// A case made of the operations of `c` that met on shared state, by all threads, with new operands.
pub fn derived(c: &Case, base: &Res, k: u64) -> Option<Case> {
    let nt = c.threads.len();
    let mut pool: Vec<Op> = vec![];
    for t in 0..nt {
        for (i, o) in c.threads[t].iter().enumerate().take(64) {
            if base.late_ops[t] >> i & 1 == 1 && !matches!(o, Op::Send { .. } | Op::Recv { .. } | Op::Drop { .. }) && !pool.contains(o) {
                pool.push(o.clone());
            }
        }
    }
    if pool.is_empty() || nt < 2 {
        return None;
    }
    let mut r = Rng::new(c.seed ^ 0x6465_7269 ^ k.wrapping_mul(0x9E37_79B9_7F4A_7C15));
    let mut d = c.clone();
    // at most three different operations
    while pool.len() > 1 + k as usize % 3 {
        pool.swap_remove(r.below(pool.len() as u64) as usize);
    }
    let n = r.range(2, 6);
    d.threads = (0..nt)
        .map(|_| {
            let mut v: Vec<Op> = vec![];
            for d in 0..4u16 {
                v.push(Op::Set { d, v: duel_lit(&mut r), how: r.below(2) as u8 });
            }
            for _ in 0..n {
                let mut o = r.pick(&pool).clone();
                let (x, y, z) = (r.below(4) as u16, r.below(4) as u16, 4 + r.below(4) as u16);
                match &mut o {
                    Op::Bin { d, a, b, .. } | Op::Chk { d, a, b, .. } | Op::Tr { d, a, b, .. } => {
                        *a = x;
                        *b = y;
                        *d = z;
                    }
                    Op::Un { d, a, .. } | Op::Scl { d, a, .. } | Op::Copy { d, a, .. } | Op::Ser { d, a, .. } => {
                        *a = x;
                        *d = z;
                    }
                    Op::Asg { d, b, .. } => {
                        *b = y;
                        *d = x;
                    }
                    Op::Mut { d, .. } | Op::Typ { d, .. } => *d = x,
                    Op::Cmp { a, b, .. } => {
                        *a = x;
                        *b = y;
                    }
                    Op::Hash { a, .. } | Op::ToInt { a, .. } | Op::ToF { a, .. } | Op::Query { a } | Op::Show { a, .. } | Op::Store { a } => *a = x,
                    _ => {}
                }
                v.push(o);
            }
            v
        })
        .collect();
    d.seed = r.next();
    Some(d)
}
fn duel_lit(r: &mut Rng) -> String {
    let digs = r.range(1, 3);
    match r.below(4) {
        0 => format!("{}", r.range(2, 200)),
        1 => format!("{}.{}", r.range(1, 40), r.range(1, 99_999)),
        2 => format!("{}.{}", r.range(0, 3), "5".repeat(digs as usize)),
        _ => format!("{}.[0*{}]{}", r.range(1, 9), r.range(0, 30), r.range(1, 9)),
    }
}

/// Deterministic in (prop, seed).
pub fn case(prop: &str, seed: u64) -> Case {
    let mut r = Rng::new(seed ^ simrt::prng::hash_bytes(prop.as_bytes()));
    let w = W.iter().find(|x| x.0 == prop).expect("property").1;
    let prof = match prop {
        "C04" => *r.pick(&[Profile::Extreme, Profile::Extreme, Profile::Mixed, Profile::Edge]),
        "C01" | "C13" | "C14" => *r.pick(&[Profile::Small, Profile::Small, Profile::Mixed, Profile::Mixed, Profile::Edge]),
        "C12" => *r.pick(&[Profile::Small, Profile::Mixed]),
        "C02" | "C03" | "C05" | "C06" | "C08" | "C09" | "C10" | "C11" if r.chance(1, 15) => Profile::Over,
        "C02" => *r.pick(&[Profile::Small, Profile::Small, Profile::Mixed, Profile::Mixed, Profile::Edge, Profile::Edge]),
        "C11" => *r.pick(&[Profile::Small, Profile::Mixed, Profile::Mixed, Profile::Edge]),
        _ if r.chance(1, 100) => Profile::Extreme,
        "C07" | "C08" => *r.pick(&[Profile::Small, Profile::Mixed, Profile::Edge, Profile::Edge]),
        _ => *r.pick(&[Profile::Small, Profile::Small, Profile::Mixed, Profile::Mixed, Profile::Mixed, Profile::Mixed, Profile::Edge, Profile::Edge, Profile::Edge, Profile::Edge]),
    };
    let nt = match prop {
        "C01" => r.range(2, 4),
        "C14" => r.range(2, 4),
        "C12" => r.range(1, 3),
        "C13" => r.range(1, 3),
        "C02" | "C05" => r.range(1, 3),
        "C03" | "C04" => *r.pick(&[1, 1, 1, 2]),
        _ => *r.pick(&[1, 1, 2]),
    } as usize;
    let mut g = G { r: r.fork(1), prop: prop.into(), prof, nshared: 0, nviews: 0, filled: 0, lits: vec![] };
    g.nshared = r.below(4) as u16;
    g.nviews = r.below(3) as u16;
    let shared: Vec<String> = (0..g.nshared).map(|_| g.lit()).collect();
    let views: Vec<(String, u8)> = (0..g.nviews)
        .map(|_| {
            // the header forms of earlier PostgreSQL releases, where only values are compared
            let old = matches!(prop, "C02" | "C03" | "C04" | "C05" | "C06" | "C11" | "C13") && g.r.chance(1, 4);
            let v = if old && g.r.chance(1, 3) { "NaN".to_string() } else { g.lit() };
            (v, g.r.below(3) as u8 + if old { 3 } else { 0 })
        })
        .collect();
    let len = match prop {
        "C09" => r.range(8, 30),
        "C01" | "C14" | "C13" => r.range(4, 16),
        "C03" | "C04" | "C05" => r.range(8, 50),
        _ => r.range(6, 30),
    } as usize;
    let mut threads: Vec<Vec<Op>> = (0..nt).map(|_| g.program(&w, len)).collect();
    // hand-overs, in one global order so that they cannot deadlock
    if nt > 1 && prop != "C14" {
        let links = r.below(5) as usize;
        let mut per: Vec<Vec<Op>> = vec![vec![]; nt];
        for _ in 0..links {
            let a = r.below(nt as u64) as usize;
            let b = (a + 1 + r.below(nt as u64 - 1) as usize) % nt;
            let src = g.any();
            per[a].push(Op::Send { a: src, to: b as u8 });
            per[b].push(Op::Recv { d: g.reg(), from: a as u8 });
        }
        for t in 0..nt {
            let mut at: Vec<usize> = per[t].iter().map(|_| r.below(threads[t].len() as u64 + 1) as usize).collect();
            at.sort();
            for (k, o) in per[t].drain(..).enumerate() {
                threads[t].insert(at[k] + k, o);
            }
        }
    }
    let mut env = Env::quiet();
    match prop {
        "C12" => {
            if nt > 1 {
                // the last thread does nothing but change the locale
                let n = r.range(4, 30);
                threads[nt - 1] = (0..n).map(|i| if r.chance(1, 6) { Op::Env { k: r.below(20) as u8 } } else { Op::Locale { k: (i % 2 == 0) as u8 } }).collect();
                // a thread that only flips does not receive
                for t in threads[..nt - 1].iter_mut() {
                    t.retain(|o| !matches!(o, Op::Send { .. } | Op::Recv { .. }));
                }
            }
        }
        "C14" => env.warm = r.chance(1, 2),
        "C01" => {
            env.warm = r.chance(1, 4);
            let mode = r.below(10);
            if mode < 4 {
                duel(&mut g, &mut r, &w, nt, &mut threads);
            } else if mode < 6 {
                // everybody races for the same first use
                let k = g.weighted(&w);
                let mut o = g.op(k);
                if r.chance(1, 2) {
                    o = Op::Tr { d: 0, o: r.below(7) as u8, a: 0, b: 1, i: 0 };
                }
                for t in threads.iter_mut() {
                    t.truncate(4 + r.below(4) as usize);
                    let at = 2.min(t.len());
                    t.insert(at, o.clone());
                    t.retain(|o| !matches!(o, Op::Send { .. } | Op::Recv { .. }));
                }
            }
        }
        "C02" => {
            env.cycles = 3;
        }
        _ => env.warm = r.chance(1, 6),
    }
    Case { prop: prop.into(), seed, shared, views, threads, env }
}

/// The environment of the k-th run of a case, given what the quiet run looked like.
pub fn env(c: &Case, k: u64, base: &Res) -> Env {
    let mut r = Rng::new(c.seed ^ simrt::prng::hash_bytes(c.prop.as_bytes()) ^ (k + 1).wrapping_mul(0xA24B_AED4_963E_E407));
    let mut e = c.env.clone();
    let nt = c.threads.len();
    let steps = base.steps.max(10);
    let p = c.prop.as_str();
    if nt > 1 {
        e.sched = match r.below(10) {
            // nothing in the library should be written while others use it: look closely if it is
            _ if base.late_events > 0 && r.chance(2, 3) => Sched::Words(1 + r.below(3) as u32, base.late_events, true),
            _ if base.shared_events > 0 && r.chance(1, 5) => Sched::Words(1 + r.below(3) as u32, base.shared_events, false),
            0 => Sched::Ops,
            1 => Sched::Geo(50),
            2 | 3 => Sched::Geo(300),
            4 => Sched::Geo(2000),
            5 => Sched::Geo(steps / 20 + 1),
            6 | 7 => Sched::Pct(1 + r.below(4) as u32, steps),
            _ => Sched::Hot(*r.pick(&[8, 32, 64, 128, 200])),
        };
        e.spurious = *r.pick(&[0, 0, 64, 200]);
    }
    if let Sched::Geo(g) = &mut e.sched {
        *g = (*g).max(steps / 3000);
    }
    if matches!(p, "C01" | "C06" | "C12") {
        e.solo = 7;
    }
    e.sched_seed = r.next();
    e.mem_seed = r.next();
    let mem = p == "C06" || r.chance(1, 2);
    if mem {
        e.fresh = r.below(7) as u8;
        e.minimal_align = r.chance(1, 2);
        e.reuse = *r.pick(&[0, 0, 128, 255]);
        e.skew = *r.pick(&[0, 0, 16, 200]);
        e.dirty = r.chance(1, 3);
    }
    e.clock_jump = if r.chance(1, 4) { r.next() | 1 } else { 0 };
    match p {
        "C08" => {
            if r.chance(2, 3) {
                e.crash_at = 1 + r.below(steps);
                e.disk_fault = r.below(3) as u8;
            }
        }
        "C12" => {
            e.locale = r.below(2) as u8;
            e.vars = if r.chance(1, 3) { r.next() | 1 } else { 0 };
        }
        "C14" => {
            let links = c.threads.iter().any(|t| t.iter().any(|o| matches!(o, Op::Send { .. } | Op::Recv { .. })));
            match r.below(4) {
                0 | 1 if nt > 1 && !links && e.warm => {
                    let t = r.below(nt as u64) as usize;
                    e.stall = Some((t, 1 + r.below(base.lsteps[t].max(1))));
                }
                2 => {
                    let n = base.counters[simrt::sched::ctr::ALLOC].max(1);
                    e.fail_at = 1 + r.below(n);
                }
                3 => {
                    // generations of threads
                    let n = (3_000_000 / steps).min(40);
                    if n > 4 && r.chance(1, 2) {
                        e.cycles = 4 + r.below(n - 3) as u8;
                    }
                }
                _ => {}
            }
        }
        _ => {}
    }
    if matches!(p, "C06" | "C14") && r.chance(1, 3) {
        e.late = 1 + r.below(8) as u8;
    }
    e
}
