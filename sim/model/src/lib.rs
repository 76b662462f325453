//! Reference model: exact decimal arithmetic on (sign, magnitude, scale) with PostgreSQL's scale
//! rules, and an independent codec for PostgreSQL's on-disk numeric format. Written from the
//! PostgreSQL documentation, base 10^9 magnitudes, no code shared with the crate under test.
use std::cmp::Ordering;

const B: u64 = 1_000_000_000;
pub const WEIGHT_MAX: i64 = 32767;
pub const DSCALE_MAX: i64 = 16383;

/// Unsigned magnitude, little endian base 10^9, no leading zero limb.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Big(pub Vec<u32>);

impl Big {
    pub fn zero() -> Big {
        Big(vec![])
    }
    pub fn from_u128(mut v: u128) -> Big {
        let mut r = vec![];
        while v > 0 {
            r.push((v % B as u128) as u32);
            v /= B as u128;
        }
        Big(r)
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
    fn trim(mut self) -> Big {
        while self.0.last() == Some(&0) {
            self.0.pop();
        }
        self
    }
    pub fn from_digits(d: &[u8]) -> Big {
        // ascii decimal digits
        let mut r = Vec::with_capacity(d.len() / 9 + 1);
        let mut end = d.len();
        while end > 0 {
            let st = end.saturating_sub(9);
            let mut v = 0u32;
            for &c in &d[st..end] {
                v = v * 10 + (c - b'0') as u32;
            }
            r.push(v);
            end = st;
        }
        Big(r).trim()
    }
    pub fn to_digits(&self) -> String {
        if self.is_zero() {
            return "0".into();
        }
        let mut s = self.0.last().unwrap().to_string();
        let mut out = std::mem::take(&mut s).into_bytes();
        out.reserve(self.0.len() * 9);
        for l in self.0.iter().rev().skip(1) {
            let mut v = *l;
            let mut d = [0u8; 9];
            for x in d.iter_mut().rev() {
                *x = b'0' + (v % 10) as u8;
                v /= 10;
            }
            out.extend_from_slice(&d);
        }
        String::from_utf8(out).unwrap()
    }
    pub fn ndigits(&self) -> i64 {
        match self.0.last() {
            None => 0,
            Some(l) => (self.0.len() as i64 - 1) * 9 + l.to_string().len() as i64,
        }
    }
    pub fn cmp(&self, o: &Big) -> Ordering {
        self.0.len().cmp(&o.0.len()).then_with(|| self.0.iter().rev().cmp(o.0.iter().rev()))
    }
    pub fn add(&self, o: &Big) -> Big {
        let mut r = Vec::with_capacity(self.0.len().max(o.0.len()) + 1);
        let mut c = 0u64;
        for i in 0..self.0.len().max(o.0.len()) {
            c += *self.0.get(i).unwrap_or(&0) as u64 + *o.0.get(i).unwrap_or(&0) as u64;
            r.push((c % B) as u32);
            c /= B;
        }
        if c > 0 {
            r.push(c as u32);
        }
        Big(r)
    }
    /// self - o, requires self >= o
    pub fn sub(&self, o: &Big) -> Big {
        let mut r = Vec::with_capacity(self.0.len());
        let mut c = 0i64;
        for i in 0..self.0.len() {
            let mut v = self.0[i] as i64 - *o.0.get(i).unwrap_or(&0) as i64 - c;
            c = 0;
            if v < 0 {
                v += B as i64;
                c = 1;
            }
            r.push(v as u32);
        }
        assert_eq!(c, 0);
        Big(r).trim()
    }
    pub fn mul(&self, o: &Big) -> Big {
        if self.is_zero() || o.is_zero() {
            return Big::zero();
        }
        let mut r = vec![0u64; self.0.len() + o.0.len() + 1];
        for (i, &a) in self.0.iter().enumerate() {
            if a == 0 {
                continue;
            }
            let mut c = 0u64;
            for (j, &b) in o.0.iter().enumerate() {
                let t = a as u64 * b as u64 + r[i + j] + c;
                r[i + j] = t % B;
                c = t / B;
            }
            let mut k = i + o.0.len();
            while c > 0 {
                let t = r[k] + c;
                r[k] = t % B;
                c = t / B;
                k += 1;
            }
        }
        Big(r.into_iter().map(|x| x as u32).collect()).trim()
    }
    pub fn mul_small(&self, m: u32) -> Big {
        let mut r = Vec::with_capacity(self.0.len() + 1);
        let mut c = 0u64;
        for &a in &self.0 {
            c += a as u64 * m as u64;
            r.push((c % B) as u32);
            c /= B;
        }
        if c > 0 {
            r.push(c as u32);
        }
        Big(r).trim()
    }
    pub fn divrem_small(&self, m: u32) -> (Big, u32) {
        let mut r = vec![0u32; self.0.len()];
        let mut c = 0u64;
        for i in (0..self.0.len()).rev() {
            c = c * B + self.0[i] as u64;
            r[i] = (c / m as u64) as u32;
            c %= m as u64;
        }
        (Big(r).trim(), c as u32)
    }
    pub fn mul_pow10(&self, k: u64) -> Big {
        if self.is_zero() {
            return Big::zero();
        }
        let mut r = self.mul_small(10u32.pow((k % 9) as u32));
        let mut v = vec![0u32; (k / 9) as usize];
        v.append(&mut r.0);
        Big(v)
    }
    /// (quotient, remainder) by 10^k
    pub fn divrem_pow10(&self, k: u64) -> (Big, Big) {
        let l = (k / 9) as usize;
        if l >= self.0.len() {
            return (Big::zero(), self.clone());
        }
        let lo = Big(self.0[..l].to_vec()).trim();
        let hi = Big(self.0[l..].to_vec());
        let (q, r) = hi.divrem_small(10u32.pow((k % 9) as u32));
        let mut rem = vec![0u32; l];
        rem[..lo.0.len()].copy_from_slice(&lo.0);
        rem.push(r);
        (q, Big(rem).trim())
    }
    pub fn divrem(&self, d: &Big) -> (Big, Big) {
        assert!(!d.is_zero());
        if self.cmp(d) == Ordering::Less {
            return (Big::zero(), self.clone());
        }
        if d.0.len() == 1 {
            let (q, r) = self.divrem_small(d.0[0]);
            return (q, Big::from_u128(r as u128));
        }
        let f = (B / (*d.0.last().unwrap() as u64 + 1)) as u32;
        let mut u: Vec<u32> = self.mul_small(f).0;
        let v = d.mul_small(f).0;
        let n = v.len();
        u.push(0);
        while u.len() < self.0.len() + 1 {
            u.push(0);
        }
        let m = u.len() - n - 1;
        let mut q = vec![0u32; m + 1];
        for j in (0..=m).rev() {
            let num = u[j + n] as u64 * B + u[j + n - 1] as u64;
            let mut qh = num / v[n - 1] as u64;
            let mut rh = num % v[n - 1] as u64;
            while qh >= B || qh * v[n - 2] as u64 > rh * B + u[j + n - 2] as u64 {
                qh -= 1;
                rh += v[n - 1] as u64;
                if rh >= B {
                    break;
                }
            }
            let mut borrow = 0i64;
            let mut carry = 0u64;
            for i in 0..n {
                let p = qh * v[i] as u64 + carry;
                carry = p / B;
                let mut t = u[i + j] as i64 - (p % B) as i64 - borrow;
                borrow = 0;
                if t < 0 {
                    t += B as i64;
                    borrow = 1;
                }
                u[i + j] = t as u32;
            }
            let mut t = u[j + n] as i64 - carry as i64 - borrow;
            if t < 0 {
                t += B as i64;
                u[j + n] = t as u32;
                qh -= 1;
                let mut c = 0u64;
                for i in 0..n {
                    c += u[i + j] as u64 + v[i] as u64;
                    u[i + j] = (c % B) as u32;
                    c /= B;
                }
                u[j + n] = ((u[j + n] as u64 + c) % B) as u32;
            } else {
                u[j + n] = t as u32;
            }
            q[j] = qh as u32;
        }
        u.truncate(n);
        let (r, z) = Big(u).trim().divrem_small(f);
        assert_eq!(z, 0);
        (Big(q).trim(), r)
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Dec {
    pub neg: bool,
    pub mag: Big,
    pub scale: i64,
}
/// A numeric: NaN or a decimal with display scale.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Val {
    NaN,
    Num(Dec),
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Fail {
    Overflow,
    DivZero,
}
pub type Res = Result<Val, Fail>;

impl Dec {
    pub fn new(neg: bool, mag: Big, scale: i64) -> Dec {
        let neg = neg && !mag.is_zero();
        Dec { neg, mag, scale }
    }
    pub fn zero(scale: i64) -> Dec {
        Dec::new(false, Big::zero(), scale)
    }
    pub fn int(v: i128) -> Dec {
        Dec::new(v < 0, Big::from_u128(v.unsigned_abs()), 0)
    }
    pub fn is_zero(&self) -> bool {
        self.mag.is_zero()
    }
    fn aligned(&self, o: &Dec) -> (Big, Big, i64) {
        let s = self.scale.max(o.scale);
        (self.mag.mul_pow10((s - self.scale) as u64), o.mag.mul_pow10((s - o.scale) as u64), s)
    }
    pub fn add(&self, o: &Dec) -> Dec {
        let (a, b, s) = self.aligned(o);
        if self.neg == o.neg {
            return Dec::new(self.neg, a.add(&b), s);
        }
        match a.cmp(&b) {
            Ordering::Equal => Dec::zero(s),
            Ordering::Greater => Dec::new(self.neg, a.sub(&b), s),
            Ordering::Less => Dec::new(o.neg, b.sub(&a), s),
        }
    }
    pub fn negate(&self) -> Dec {
        Dec::new(!self.neg, self.mag.clone(), self.scale)
    }
    pub fn abs(&self) -> Dec {
        Dec::new(false, self.mag.clone(), self.scale)
    }
    pub fn sub(&self, o: &Dec) -> Dec {
        self.add(&o.negate())
    }
    pub fn mul(&self, o: &Dec) -> Dec {
        Dec::new(self.neg != o.neg, self.mag.mul(&o.mag), self.scale + o.scale)
    }
    /// position of the leading digit: value in [10^e, 10^(e+1))
    pub fn exp10(&self) -> i64 {
        self.mag.ndigits() - self.scale - 1
    }
    pub fn weight(&self) -> i64 {
        if self.is_zero() {
            0
        } else {
            self.exp10().div_euclid(4)
        }
    }
    /// leading base-10000 digit
    fn first_digit(&self) -> i64 {
        if self.is_zero() {
            return 0;
        }
        let e = self.exp10();
        let keep = e.rem_euclid(4) + 1; // decimal digits in the leading group
        let d = self.mag.to_digits();
        let mut s: String = d.chars().take(keep as usize).collect();
        while (s.len() as i64) < keep {
            s.push('0');
        }
        s.parse().unwrap()
    }
    pub fn div_scale(&self, o: &Dec) -> i64 {
        let (w1, f1) = (self.weight(), self.first_digit());
        let (w2, f2) = (o.weight(), o.first_digit());
        let mut q = w1 - w2;
        if f1 <= f2 {
            q -= 1;
        }
        (16 - q * 4).max(self.scale).max(o.scale).max(0).min(1000)
    }
    /// quotient at `rs` decimals, rounded half away from zero or truncated
    pub fn div_at(&self, o: &Dec, rs: i64, round: bool) -> Dec {
        // (a / 10^sa) / (b / 10^sb) * 10^rs = a * 10^(rs + sb - sa) / b
        let k = rs + o.scale - self.scale;
        let (num, den) = if k >= 0 { (self.mag.mul_pow10(k as u64), o.mag.clone()) } else { (self.mag.clone(), o.mag.mul_pow10((-k) as u64)) };
        let (mut q, r) = num.divrem(&den);
        if round && r.mul_small(2).cmp(&den) != Ordering::Less {
            q = q.add(&Big::from_u128(1));
        }
        Dec::new(self.neg != o.neg, q, rs)
    }
    pub fn rem(&self, o: &Dec) -> Dec {
        let q = self.div_at(o, 0, false);
        let p = q.mul(o);
        let r = self.sub(&p);
        r
    }
    /// to `s` decimals (s may be negative; the scale is then 0)
    pub fn round(&self, s: i64) -> Dec {
        self.rescale(s, true)
    }
    pub fn trunc(&self, s: i64) -> Dec {
        self.rescale(s, false)
    }
    fn rescale(&self, s: i64, round: bool) -> Dec {
        if s >= self.scale {
            return Dec::new(self.neg, self.mag.mul_pow10((s - self.scale) as u64), s);
        }
        let k = (self.scale - s) as u64;
        let (mut q, r) = self.mag.divrem_pow10(k);
        if round && k > 0 {
            // compare r with half of 10^k: leading digit of r at position k-1
            let half = r.ndigits() == k as i64 && r.to_digits().as_bytes()[0] >= b'5';
            if half {
                q = q.add(&Big::from_u128(1));
            }
        }
        if s < 0 {
            q = q.mul_pow10((-s) as u64);
        }
        Dec::new(self.neg, q, s.max(0))
    }
    pub fn is_integer(&self) -> bool {
        self.mag.divrem_pow10(self.scale as u64).1.is_zero()
    }
    pub fn ceil(&self) -> Dec {
        let t = self.trunc(0);
        if !self.neg && !self.is_integer() {
            t.add(&Dec::int(1))
        } else {
            t
        }
    }
    pub fn floor(&self) -> Dec {
        let t = self.trunc(0);
        if self.neg && !self.is_integer() {
            t.sub(&Dec::int(1))
        } else {
            t
        }
    }
    pub fn cmp_val(&self, o: &Dec) -> Ordering {
        if self.is_zero() && o.is_zero() {
            return Ordering::Equal;
        }
        let sa = if self.is_zero() { 0 } else if self.neg { -1 } else { 1 };
        let sb = if o.is_zero() { 0 } else if o.neg { -1 } else { 1 };
        if sa != sb {
            return sa.cmp(&sb);
        }
        let (a, b, _) = self.aligned(o);
        let c = a.cmp(&b);
        if self.neg {
            c.reverse()
        } else {
            c
        }
    }
    pub fn text(&self) -> String {
        let mut d = self.mag.to_digits();
        let s = self.scale as usize;
        if d.len() <= s {
            d = format!("{}{}", "0".repeat(s + 1 - d.len()), d);
        }
        let mut r = String::with_capacity(d.len() + 2);
        if self.neg {
            r.push('-');
        }
        let (i, f) = d.split_at(d.len() - s);
        r.push_str(i);
        if s > 0 {
            r.push('.');
            r.push_str(f);
        }
        r
    }
    /// fits the numeric format?
    pub fn checked(self) -> Res {
        if self.scale > DSCALE_MAX || self.weight() > WEIGHT_MAX || self.weight() < -WEIGHT_MAX {
            Err(Fail::Overflow)
        } else {
            Ok(Val::Num(self))
        }
    }
    /// value without the trailing zeros of the fraction (key for equality)
    pub fn normalized(&self) -> Dec {
        let mut m = self.mag.clone();
        let mut s = self.scale;
        if m.is_zero() {
            return Dec::zero(0);
        }
        while s > 0 {
            let (q, r) = m.divrem_small(10);
            if r != 0 {
                break;
            }
            m = q;
            s -= 1;
        }
        Dec::new(self.neg, m, s)
    }
}

impl Val {
    pub fn int(v: i128) -> Val {
        Val::Num(Dec::int(v))
    }
    pub fn text(&self) -> String {
        match self {
            Val::NaN => "NaN".into(),
            Val::Num(d) => d.text(),
        }
    }
    /// Scientific notation with every significant digit.
    pub fn sci(&self, upper: bool) -> String {
        match self {
            Val::NaN => "NaN".into(),
            Val::Num(d) => {
                let all = d.mag.to_digits();
                let sig = if d.mag.is_zero() { "0" } else { all.trim_end_matches('0') };
                let exp = if d.mag.is_zero() { 0 } else { all.len() as i64 - 1 - d.scale };
                let dot = if sig.len() > 1 { "." } else { "" };
                let (es, e) = (if exp < 0 { '-' } else { '+' }, exp.abs());
                format!("{}{}{}{}{}{}{:02}", if d.neg { "-" } else { "" }, &sig[..1], dot, &sig[1..], if upper { 'E' } else { 'e' }, es, e)
            }
        }
    }
    pub fn is_nan(&self) -> bool {
        matches!(self, Val::NaN)
    }
    fn two(&self, o: &Val, f: impl Fn(&Dec, &Dec) -> Res) -> Res {
        match (self, o) {
            (Val::Num(a), Val::Num(b)) => f(a, b),
            _ => Ok(Val::NaN),
        }
    }
    fn one(&self, f: impl Fn(&Dec) -> Res) -> Res {
        match self {
            Val::Num(a) => f(a),
            _ => Ok(Val::NaN),
        }
    }
    pub fn add(&self, o: &Val) -> Res {
        self.two(o, |a, b| a.add(b).checked())
    }
    pub fn sub(&self, o: &Val) -> Res {
        self.two(o, |a, b| a.sub(b).checked())
    }
    pub fn mul(&self, o: &Val) -> Res {
        self.two(o, |a, b| {
            if a.scale + b.scale > DSCALE_MAX {
                return Err(Fail::Overflow);
            }
            a.mul(b).checked()
        })
    }
    pub fn div(&self, o: &Val) -> Res {
        self.two(o, |a, b| {
            if b.is_zero() {
                return Err(Fail::DivZero);
            }
            a.div_at(b, a.div_scale(b), true).checked()
        })
    }
    pub fn div_trunc(&self, o: &Val) -> Res {
        self.two(o, |a, b| {
            if b.is_zero() {
                return Err(Fail::DivZero);
            }
            a.div_at(b, 0, false).checked()
        })
    }
    pub fn rem(&self, o: &Val) -> Res {
        self.two(o, |a, b| {
            if b.is_zero() {
                return Err(Fail::DivZero);
            }
            a.rem(b).checked()
        })
    }
    pub fn neg(&self) -> Res {
        self.one(|a| Ok(Val::Num(a.negate())))
    }
    pub fn abs(&self) -> Res {
        self.one(|a| Ok(Val::Num(a.abs())))
    }
    pub fn signum(&self) -> Res {
        self.one(|a| Ok(Val::int(if a.is_zero() { 0 } else if a.neg { -1 } else { 1 })))
    }
    pub fn inc(&self) -> Res {
        self.one(|a| a.add(&Dec::int(1)).checked())
    }
    pub fn round(&self, s: i64) -> Res {
        self.one(|a| a.round(s.max(-1000).min(1000)).checked())
    }
    pub fn trunc(&self, s: i64) -> Res {
        self.one(|a| a.trunc(s.max(-1000).min(1000)).checked())
    }
    pub fn ceil(&self) -> Res {
        self.one(|a| a.ceil().checked())
    }
    pub fn floor(&self) -> Res {
        self.one(|a| a.floor().checked())
    }
    /// (value afterwards, overflow?)
    pub fn typmod(&self, precision: i64, scale: i64) -> (Val, bool) {
        match self {
            Val::NaN => (Val::NaN, false),
            Val::Num(a) => {
                let r = a.round(scale);
                let over = !r.is_zero() && r.exp10() + 1 > precision - scale;
                match r.checked() {
                    Ok(v) => (v, over),
                    Err(_) => (self.clone(), true),
                }
            }
        }
    }
    pub fn cmp(&self, o: &Val) -> Ordering {
        match (self, o) {
            (Val::NaN, Val::NaN) => Ordering::Equal,
            (Val::NaN, _) => Ordering::Greater,
            (_, Val::NaN) => Ordering::Less,
            (Val::Num(a), Val::Num(b)) => a.cmp_val(b),
        }
    }
    /// text equal exactly for equal values
    pub fn key(&self) -> String {
        match self {
            Val::NaN => "NaN".into(),
            Val::Num(d) => d.normalized().text(),
        }
    }
    /// Rounds to an integer, half away from zero; Err = does not fit in lo..=hi.
    pub fn to_int(&self, lo: i128, hi: u128) -> Result<i128, &'static str> {
        match self {
            Val::NaN => Err("invalid"),
            Val::Num(d) => {
                let r = d.round(0);
                let mut v = 0u128;
                if r.mag.ndigits() > 39 {
                    return Err("overflow");
                }
                for &l in r.mag.0.iter().rev() {
                    v = v.checked_mul(B as u128).and_then(|x| x.checked_add(l as u128)).ok_or("overflow")?;
                }
                if r.neg {
                    if lo == 0 || v > lo.unsigned_abs() {
                        return Err("overflow");
                    }
                    Ok((v as i128).wrapping_neg())
                } else {
                    if v > hi {
                        return Err("overflow");
                    }
                    Ok(v as i128) // u128 callers compare as u128
                }
            }
        }
    }
    /// Text of a decimal literal (no blanks), NaN allowed; None = not a literal or out of range.
    pub fn parse(s: &str) -> Option<Val> {
        if s.eq_ignore_ascii_case("nan") {
            return Some(Val::NaN);
        }
        let b = s.as_bytes();
        let mut i = 0;
        let mut neg = false;
        if i < b.len() && (b[i] == b'+' || b[i] == b'-') {
            neg = b[i] == b'-';
            i += 1;
        }
        let st = i;
        while i < b.len() && b[i].is_ascii_digit() {
            i += 1;
        }
        let mut digits = b[st..i].to_vec();
        let mut scale = 0i64;
        if i < b.len() && b[i] == b'.' {
            i += 1;
            let f = i;
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1;
            }
            digits.extend_from_slice(&b[f..i]);
            scale = (i - f) as i64;
        }
        if digits.is_empty() {
            return None;
        }
        if i < b.len() && (b[i] == b'e' || b[i] == b'E') {
            let e: i64 = std::str::from_utf8(&b[i + 1..]).ok()?.parse().ok()?;
            if e.abs() > 200_000 {
                return None;
            }
            scale -= e;
            i = b.len();
        }
        if i != b.len() {
            return None;
        }
        let mut mag = Big::from_digits(&digits);
        if scale < 0 {
            mag = mag.mul_pow10((-scale) as u64);
            scale = 0;
        }
        Dec::new(neg, mag, scale).checked().ok()
    }
    /// Decimal with `sig` significant digits of a finite double, as "%.{sig}g" prints it.
    pub fn from_f64(f: f64, sig: i64) -> Val {
        if f.is_nan() {
            return Val::NaN;
        }
        if f == 0.0 {
            return Val::int(0);
        }
        let bits = f.to_bits();
        let ex = ((bits >> 52) & 0x7ff) as i64;
        let frac = bits & ((1 << 52) - 1);
        let (m, e) = if ex == 0 { (frac, -1074) } else { (frac | 1 << 52, ex - 1075) };
        // value = m * 2^e exactly
        let mut mag = Big::from_u128(m as u128);
        let mut scale = 0i64;
        if e >= 0 {
            for _ in 0..e {
                mag = mag.mul_small(2);
            }
        } else {
            for _ in 0..-e {
                mag = mag.mul_small(5);
            }
            scale = -e;
        }
        // round to sig digits, half to even on the exact value
        let nd = mag.ndigits();
        if nd > sig {
            let k = (nd - sig) as u64;
            let (mut q, r) = mag.divrem_pow10(k);
            let half = Big::from_u128(5).mul_pow10(k - 1);
            let up = match r.cmp(&half) {
                Ordering::Greater => true,
                Ordering::Less => false,
                Ordering::Equal => q.divrem_small(2).1 == 1,
            };
            if up {
                q = q.add(&Big::from_u128(1));
            }
            mag = q;
            scale -= k as i64;
        }
        // %g drops trailing zeros
        loop {
            let (q, r) = mag.divrem_small(10);
            if r != 0 {
                break;
            }
            mag = q;
            scale -= 1;
        }
        if scale < 0 {
            mag = mag.mul_pow10((-scale) as u64);
            scale = 0;
        }
        Val::Num(Dec::new(f < 0.0, mag, scale))
    }

    // ---- PostgreSQL on-disk format --------------------------------------------------------
    /// Canonical bytes, little-endian host; `be`: varlena length in big-endian form.
    pub fn encode(&self, be: bool) -> Vec<u8> {
        let mut out = vec![0u8; 4];
        match self {
            Val::NaN => out.extend_from_slice(&0xC000u16.to_le_bytes()),
            Val::Num(d) => {
                let groups = d.groups();
                let w = if groups.is_empty() { 0 } else { d.weight() };
                let short = d.scale <= 63 && w <= 63 && w >= -64;
                if short {
                    let mut h = 0x8000u16;
                    if d.neg {
                        h |= 0x2000;
                    }
                    h |= (d.scale as u16) << 7;
                    if w < 0 {
                        h |= 0x40;
                    }
                    h |= (w as u16) & 0x3f;
                    out.extend_from_slice(&h.to_le_bytes());
                } else {
                    let h = if d.neg { 0x4000u16 } else { 0 } | d.scale as u16;
                    out.extend_from_slice(&h.to_le_bytes());
                    out.extend_from_slice(&(w as i16).to_le_bytes());
                }
                for g in groups {
                    out.extend_from_slice(&g.to_le_bytes());
                }
            }
        }
        let l = out.len() as u32;
        let lb = if be { l.to_be_bytes() } else { (l << 2).to_le_bytes() };
        out[..4].copy_from_slice(&lb);
        out
    }
    /// As PostgreSQL before 9.1 stored it: always the long header.
    pub fn encode_old(&self, be: bool) -> Vec<u8> {
        let mut out = vec![0u8; 4];
        match self {
            Val::NaN => out.extend_from_slice(&[0, 0xC0, 0, 0]),
            Val::Num(d) => {
                let groups = d.groups();
                let w = if groups.is_empty() { 0 } else { d.weight() };
                let h = if d.neg { 0x4000u16 } else { 0 } | d.scale as u16;
                out.extend_from_slice(&h.to_le_bytes());
                out.extend_from_slice(&(w as i16).to_le_bytes());
                for g in groups {
                    out.extend_from_slice(&g.to_le_bytes());
                }
            }
        }
        let l = out.len() as u32;
        let lb = if be { l.to_be_bytes() } else { (l << 2).to_le_bytes() };
        out[..4].copy_from_slice(&lb);
        out
    }
    /// Strict decoder: Err describes what makes the bytes not a canonical numeric.
    pub fn decode(b: &[u8], be: bool) -> Result<Val, String> {
        if b.len() < 6 {
            return Err(format!("only {} bytes", b.len()));
        }
        let raw = [b[0], b[1], b[2], b[3]];
        let len = if be { u32::from_be_bytes(raw) & 0x3fff_ffff } else { u32::from_le_bytes(raw) >> 2 & 0x3fff_ffff };
        if len as usize != b.len() {
            return Err(format!("length word says {}, there are {} bytes", len, b.len()));
        }
        let h = u16::from_le_bytes([b[4], b[5]]);
        let (neg, scale, w, off) = match h & 0xC000 {
            0xC000 => {
                return if b.len() == 6 || b.len() == 8 { Ok(Val::NaN) } else { Err("NaN with digits".into()) };
            }
            0x8000 => {
                let mut w = (h & 0x3f) as i64;
                if h & 0x40 != 0 {
                    w -= 64;
                }
                (h & 0x2000 != 0, ((h & 0x1f80) >> 7) as i64, w, 6)
            }
            s => {
                if b.len() < 8 {
                    return Err("long header cut off".into());
                }
                (s == 0x4000, (h & 0x3fff) as i64, i16::from_le_bytes([b[6], b[7]]) as i64, 8)
            }
        };
        if (b.len() - off) % 2 != 0 {
            return Err("odd number of digit bytes".into());
        }
        let g: Vec<i16> = b[off..].chunks(2).map(|c| i16::from_le_bytes([c[0], c[1]])).collect();
        if g.iter().any(|&d| d < 0 || d > 9999) {
            return Err("digit group outside 0..9999".into());
        }
        if g.is_empty() {
            if neg || w != 0 {
                return Err("zero with sign or weight".into());
            }
            return Ok(Val::Num(Dec::zero(scale)));
        }
        if g[0] == 0 || *g.last().unwrap() == 0 {
            return Err("leading or trailing zero group".into());
        }
        let mut ds: Vec<u8> = vec![];
        for d in &g {
            let d = *d as u16;
            ds.extend_from_slice(&[d / 1000, d / 100 % 10, d / 10 % 10, d % 10].map(|x| b'0' + x as u8));
        }
        // value = ds * 10^(4*(w - n + 1))
        let e = 4 * (w - g.len() as i64 + 1);
        let mut mag = Big::from_digits(&ds);
        let mut have = -e; // decimals held
        if have < 0 {
            mag = mag.mul_pow10((-have) as u64);
            have = 0;
        }
        if have > scale {
            let (q, r) = mag.divrem_pow10((have - scale) as u64);
            if !r.is_zero() {
                return Err("digits beyond the display scale".into());
            }
            mag = q;
        } else {
            mag = mag.mul_pow10((scale - have) as u64);
        }
        let v = Dec::new(neg, mag, scale);
        if v.weight() < -WEIGHT_MAX {
            return Err("weight too small".into());
        }
        Ok(Val::Num(v))
    }
}
impl Dec {
    /// base-10000 digit groups, no leading or trailing zero group
    pub fn groups(&self) -> Vec<i16> {
        if self.is_zero() {
            return vec![];
        }
        // align the fraction to a multiple of 4 decimals
        let pad = (4 - self.scale % 4) % 4;
        let mut d = self.mag.mul_pow10(pad as u64).to_digits();
        let lead = (4 - d.len() % 4) % 4;
        d = format!("{}{}", "0".repeat(lead), d);
        let mut g: Vec<i16> = d.as_bytes().chunks(4).map(|c| c.iter().fold(0i16, |a, &x| a * 10 + (x - b'0') as i16)).collect();
        while g.last() == Some(&0) {
            g.pop();
        }
        let z = g.iter().take_while(|&&x| x == 0).count();
        g.drain(..z);
        g
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    fn v(s: &str) -> Val {
        Val::parse(s).unwrap()
    }
    #[test]
    fn basics() {
        assert_eq!(v("12.34").add(&v("-0.345")).unwrap().text(), "11.995");
        assert_eq!(v("1").div(&v("3")).unwrap().text(), "0.33333333333333333333");
        assert_eq!(v("-7.5").rem(&v("2")).unwrap().text(), "-1.5");
        assert_eq!(v("123456.123456").round(-2).unwrap().text(), "123500");
        assert_eq!(v("9999.9").round(-4).unwrap().text(), "10000");
        assert_eq!(v("9999.9").trunc(-4).unwrap().text(), "0");
        assert_eq!(v("-2.5").to_int(-128, 127), Ok(-3));
        for s in ["0", "0.00", "-1", "1e40", "123456789.00010", "0.00000001", "NaN", "-99990000.5", "1e-70", "1e300"] {
            for be in [false, true] {
                let x = v(s);
                assert_eq!(Val::decode(&x.encode(be), be).unwrap(), x, "{}", s);
            }
        }
        assert_eq!(Val::from_f64(0.1, 15).text(), "0.1");
        assert_eq!(Val::from_f64(1e22, 15).text(), "10000000000000000000000");
        assert_eq!(Val::from_f64(-123456789012345.678, 15).text(), "-123456789012346");
        let a = v("123456789012345678901234567890123456789");
        let b = v("98765432109876543210.5");
        let q = a.div_trunc(&b).unwrap();
        let r = a.rem(&b).unwrap();
        assert_eq!(q.mul(&b).unwrap().add(&r).unwrap().key(), a.key());
    }
}
