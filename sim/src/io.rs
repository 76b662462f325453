//! Transports, data formats and storage under simulation, with faults.
use crate::case::Cb;
use crate::exec::*;
use decmodel::Val;
use pgnumeric::{Numeric, NumericBuf};
use serde::de::{self, DeserializeSeed, Deserializer, MapAccess, SeqAccess, Visitor};
use serde::ser::{self, SerializeMap, Serializer};
use serde::{Deserialize, Serialize};
use simrt::sched::class as c;
use simrt::shm::{shm, DISKCAP};
use simrt::{arena, host, prng, sys, Rng};
use std::fmt::{self, Write as _};
use std::io::{self, Read, Write};

// ---- transport ----------------------------------------------------------------------------
pub struct Pipe {
    pub buf: Vec<u8>,
    pub pos: usize,
    cb: Cb,
    x: Opd<'static>,
    m: Val,
    calls: u64,
    pub fired: u8,
}
impl Pipe {
    pub fn new(buf: Vec<u8>, cb: &Cb, x: Opd<'static>, m: &Val) -> Pipe {
        Pipe { buf, pos: 0, cb: cb.clone(), x, m: m.clone(), calls: 0, fired: 0 }
    }
    fn tick(&mut self) -> io::Result<()> {
        self.calls += 1;
        if self.cb.every > 0 && self.calls % self.cb.every as u64 == 0 && self.calls / (self.cb.every as u64) <= 40 {
            reenter(&self.cb, self.x, &self.m, self.calls / self.cb.every as u64);
        }
        if self.cb.intr > 0 && self.calls % (self.cb.intr as u64 + 1) == 1 {
            return Err(io::ErrorKind::Interrupted.into());
        }
        Ok(())
    }
}
impl Write for Pipe {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        host(|| {
            if let Err(e) = self.tick() {
                bump("write_interrupted");
                return Err(e);
            }
            let mut n = b.len();
            if self.cb.cap > 0 && n > self.cb.cap as usize {
                n = self.cb.cap as usize;
                bump("write_short");
            }
            if self.cb.at >= 0 && self.buf.len() + n > self.cb.at as usize {
                n = (self.cb.at as usize).saturating_sub(self.buf.len());
                if n == 0 && !b.is_empty() {
                    self.fired = self.cb.act.max(1);
                    bump("write_error");
                    if self.cb.act == 2 {
                        panic!("transport panics");
                    }
                    return Err(io::Error::new(io::ErrorKind::Other, "no space"));
                }
            }
            self.buf.extend_from_slice(&b[..n]);
            Ok(n)
        })
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Read for Pipe {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        host(|| {
            if let Err(e) = self.tick() {
                bump("read_interrupted");
                return Err(e);
            }
            let mut n = b.len().min(self.buf.len() - self.pos);
            if self.cb.cap > 0 && n > self.cb.cap as usize {
                n = self.cb.cap as usize;
                bump("read_short");
            }
            if self.cb.at >= 0 && self.pos + n > self.cb.at as usize && !b.is_empty() {
                n = (self.cb.at as usize).saturating_sub(self.pos);
                if n == 0 {
                    self.fired = self.cb.act.max(1);
                    match self.cb.act {
                        2 => {
                            bump("read_error");
                            panic!("transport panics")
                        }
                        3 => {
                            bump("read_eof");
                            return Ok(0);
                        }
                        _ => {
                            bump("read_error");
                            return Err(io::Error::new(io::ErrorKind::Other, "broken"));
                        }
                    }
                }
            }
            b[..n].copy_from_slice(&self.buf[self.pos..self.pos + n]);
            self.pos += n;
            Ok(n)
        })
    }
}

// ---- what is sent -------------------------------------------------------------------------
pub struct Wrapped<'a, T: ?Sized> {
    v: &'a T,
    wrap: u8,
}
#[derive(Serialize)]
struct StS<'a, T: ?Sized> {
    id: u32,
    val: &'a T,
    tail: Option<u8>,
}
#[derive(Deserialize)]
struct StD {
    id: u32,
    val: NumericBuf,
    tail: Option<u8>,
}
impl<'a, T: Serialize + ?Sized> Serialize for Wrapped<'a, T> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let v = self.v;
        match self.wrap {
            0 => v.serialize(s),
            1 => (7u8, v, 9u8).serialize(s),
            2 => [v, v, v].as_ref().serialize(s),
            3 => Some(v).serialize(s),
            4 => {
                let mut m = s.serialize_map(Some(1))?;
                m.serialize_entry(v, &5u8)?;
                m.end()
            }
            _ => StS { id: 3, val: v, tail: Some(1) }.serialize(s),
        }
    }
}
struct OneMap;
impl<'de> Visitor<'de> for OneMap {
    type Value = NumericBuf;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a map")
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<NumericBuf, A::Error> {
        let e: Option<(NumericBuf, u8)> = a.next_entry()?;
        match e {
            Some((k, 5)) => Ok(k),
            _ => Err(de::Error::custom("map contents")),
        }
    }
}
fn unwrap_de<'de, D: Deserializer<'de>>(d: D, wrap: u8) -> Result<(NumericBuf, Vec<NumericBuf>), D::Error> {
    let bad = || de::Error::custom("frame");
    match wrap {
        0 => Ok((NumericBuf::deserialize(d)?, vec![])),
        1 => {
            let t = <(u8, NumericBuf, u8)>::deserialize(d)?;
            if t.0 == 7 && t.2 == 9 {
                Ok((t.1, vec![]))
            } else {
                Err(bad())
            }
        }
        2 => {
            let mut v = Vec::<NumericBuf>::deserialize(d)?;
            if v.len() != 3 {
                return Err(bad());
            }
            let a = v.pop().unwrap();
            Ok((a, v))
        }
        3 => Option::<NumericBuf>::deserialize(d)?.map(|n| (n, vec![])).ok_or_else(bad),
        4 => Ok((d.deserialize_map(OneMap)?, vec![])),
        _ => {
            let s = StD::deserialize(d)?;
            if s.id == 3 && s.tail == Some(1) {
                Ok((s.val, vec![]))
            } else {
                Err(bad())
            }
        }
    }
}

// ---- a data format made of tokens ---------------------------------------------------------
#[derive(Debug, Clone, PartialEq)]
pub enum Tok {
    U(u64),
    S(String),
    B(Vec<u8>),
    None,
    Some(Box<Tok>),
    Seq(Vec<Tok>),
    Map(Vec<(Tok, Tok)>),
}
#[derive(Debug)]
pub struct TokErr(String);
impl fmt::Display for TokErr {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for TokErr {}
impl ser::Error for TokErr {
    fn custom<T: fmt::Display>(m: T) -> Self {
        TokErr(m.to_string())
    }
}
/// Whose format it is that makes an error, per thread.
static mut ERR: [*const TokState; simrt::shm::MAXT] = [std::ptr::null(); simrt::shm::MAXT];
/// Text of an error message; the format uses the library before and while it is made.
struct ErrText(String);
impl ErrText {
    fn tick(&self) {
        host(|| unsafe {
            let st = ERR[simrt::sched::CUR];
            if !st.is_null() && self.0.len() < 400 {
                bump("callback_error");
                reenter(&(*st).cb, (*st).x, &(*st).m, (*st).cb.cap as u64 + 3 + self.0.len() as u64);
            }
        })
    }
}
impl fmt::Write for ErrText {
    fn write_str(&mut self, t: &str) -> fmt::Result {
        host(|| self.0.push_str(t));
        self.tick();
        Ok(())
    }
}
impl de::Error for TokErr {
    fn custom<T: fmt::Display>(m: T) -> Self {
        use fmt::Write;
        let mut t = ErrText(String::new());
        t.tick();
        let _ = write!(t, "{}", m);
        TokErr(t.0)
    }
}
/// The same tokens with damage that no reader may accept.
fn spoil(t: &Tok, how: u64) -> Tok {
    match t {
        Tok::B(b) => match how % 5 {
            0 => Tok::B(b[..b.len() - 1].to_vec()),
            1 => Tok::B(b[..(b.len() - 1).min(how as usize / 5 % 8)].to_vec()),
            2 => Tok::U(how),
            3 => Tok::None,
            _ => Tok::B(b.iter().chain(&[0, 1]).cloned().collect()),
        },
        Tok::S(s) => match how % 4 {
            0 => Tok::S(format!("{}x", s)),
            1 => Tok::S(String::new()),
            2 => Tok::U(how),
            _ => Tok::S(format!("{}e99999999999", s)),
        },
        Tok::Some(t) => Tok::Some(Box::new(spoil(t, how))),
        Tok::Seq(v) => Tok::Seq(v.iter().map(|t| spoil(t, how)).collect()),
        Tok::Map(v) => Tok::Map(v.iter().map(|(k, t)| (k.clone(), spoil(t, how))).collect()),
        _ => Tok::U(how),
    }
}
pub struct TokState {
    pub cb: Cb,
    pub x: Opd<'static>,
    pub m: Val,
    pub calls: i64,
    pub fired: u8,
    pub hr: bool,
    pub form: u8,
}
impl TokState {
    fn tick(&mut self) -> Result<(), TokErr> {
        host(|| {
            self.calls += 1;
            if self.cb.every > 0 && self.calls % self.cb.every as i64 == 0 && self.calls / (self.cb.every as i64) <= 40 {
                reenter(&self.cb, self.x, &self.m, self.calls as u64 + self.cb.cap as u64);
            }
            if self.cb.at >= 0 && self.calls > self.cb.at && self.cb.act > 0 && self.fired == 0 {
                self.fired = self.cb.act;
                if self.cb.act == 2 {
                    bump("ser_panic");
                    panic!("format panics");
                }
                bump("ser_error");
                return Err(TokErr("format refuses".into()));
            }
            Ok(())
        })
    }
}
pub struct TokSer<'s> {
    st: &'s mut TokState,
}
pub struct TokSeq<'s> {
    st: &'s mut TokState,
    v: Vec<Tok>,
    map: bool,
}
fn unsup<T>() -> Result<T, TokErr> {
    Err(TokErr("unsupported".into()))
}
macro_rules! num_ser {
    ($($f:ident $t:ty),*) => { $(fn $f(self, v: $t) -> Result<Tok, TokErr> { self.st.tick()?; Ok(Tok::U(v as u64)) })* };
}
impl<'s> Serializer for TokSer<'s> {
    type Ok = Tok;
    type Error = TokErr;
    type SerializeSeq = TokSeq<'s>;
    type SerializeTuple = TokSeq<'s>;
    type SerializeTupleStruct = TokSeq<'s>;
    type SerializeTupleVariant = TokSeq<'s>;
    type SerializeMap = TokSeq<'s>;
    type SerializeStruct = TokSeq<'s>;
    type SerializeStructVariant = TokSeq<'s>;
    num_ser!(serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_bool bool);
    fn serialize_f32(self, _: f32) -> Result<Tok, TokErr> {
        unsup()
    }
    fn serialize_f64(self, _: f64) -> Result<Tok, TokErr> {
        unsup()
    }
    fn serialize_char(self, _: char) -> Result<Tok, TokErr> {
        unsup()
    }
    fn serialize_str(self, v: &str) -> Result<Tok, TokErr> {
        self.st.tick()?;
        Ok(host(|| Tok::S(v.to_string())))
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<Tok, TokErr> {
        self.st.tick()?;
        Ok(host(|| Tok::B(v.to_vec())))
    }
    fn serialize_none(self) -> Result<Tok, TokErr> {
        Ok(Tok::None)
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<Tok, TokErr> {
        let t = v.serialize(TokSer { st: self.st })?;
        Ok(Tok::Some(Box::new(t)))
    }
    fn serialize_unit(self) -> Result<Tok, TokErr> {
        unsup()
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<Tok, TokErr> {
        unsup()
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<Tok, TokErr> {
        unsup()
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<Tok, TokErr> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Tok, TokErr> {
        unsup()
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<TokSeq<'s>, TokErr> {
        self.st.tick()?;
        Ok(TokSeq { st: self.st, v: vec![], map: false })
    }
    fn serialize_tuple(self, n: usize) -> Result<TokSeq<'s>, TokErr> {
        self.serialize_seq(Some(n))
    }
    fn serialize_tuple_struct(self, _: &'static str, n: usize) -> Result<TokSeq<'s>, TokErr> {
        self.serialize_seq(Some(n))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<TokSeq<'s>, TokErr> {
        unsup()
    }
    fn serialize_map(self, _: Option<usize>) -> Result<TokSeq<'s>, TokErr> {
        self.st.tick()?;
        Ok(TokSeq { st: self.st, v: vec![], map: true })
    }
    fn serialize_struct(self, _: &'static str, n: usize) -> Result<TokSeq<'s>, TokErr> {
        self.serialize_seq(Some(n))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<TokSeq<'s>, TokErr> {
        unsup()
    }
    fn is_human_readable(&self) -> bool {
        self.st.hr
    }
}
impl<'s> TokSeq<'s> {
    fn add<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), TokErr> {
        self.st.tick()?;
        let t = v.serialize(TokSer { st: self.st })?;
        self.v.push(t);
        Ok(())
    }
    fn fin(self) -> Result<Tok, TokErr> {
        self.st.tick()?;
        Ok(if self.map {
            let mut it = self.v.into_iter();
            let mut m = vec![];
            while let (Some(k), Some(v)) = (it.next(), it.next()) {
                m.push((k, v));
            }
            Tok::Map(m)
        } else {
            Tok::Seq(self.v)
        })
    }
}
macro_rules! seq_impl {
    ($tr:ident, $f:ident) => {
        impl<'s> ser::$tr for TokSeq<'s> {
            type Ok = Tok;
            type Error = TokErr;
            fn $f<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), TokErr> {
                self.add(v)
            }
            fn end(self) -> Result<Tok, TokErr> {
                self.fin()
            }
        }
    };
}
seq_impl!(SerializeSeq, serialize_element);
seq_impl!(SerializeTuple, serialize_element);
seq_impl!(SerializeTupleStruct, serialize_field);
seq_impl!(SerializeTupleVariant, serialize_field);
impl<'s> ser::SerializeMap for TokSeq<'s> {
    type Ok = Tok;
    type Error = TokErr;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), TokErr> {
        self.add(v)
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), TokErr> {
        self.add(v)
    }
    fn end(self) -> Result<Tok, TokErr> {
        self.fin()
    }
}
impl<'s> ser::SerializeStruct for TokSeq<'s> {
    type Ok = Tok;
    type Error = TokErr;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, _: &'static str, v: &T) -> Result<(), TokErr> {
        self.add(v)
    }
    fn end(self) -> Result<Tok, TokErr> {
        self.fin()
    }
}
impl<'s> ser::SerializeStructVariant for TokSeq<'s> {
    type Ok = Tok;
    type Error = TokErr;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, _: &'static str, v: &T) -> Result<(), TokErr> {
        self.add(v)
    }
    fn end(self) -> Result<Tok, TokErr> {
        self.fin()
    }
}

pub struct TokDe<'a> {
    t: &'a Tok,
    st: *mut TokState,
}
impl<'a> TokDe<'a> {
    pub fn new(t: &'a Tok, st: &mut TokState) -> TokDe<'a> {
        TokDe { t, st }
    }
}
/// The bytes of a token live where the sender's buffer would: red zones around.
fn lend(b: &[u8], align: usize) -> &'static [u8] {
    host(|| &*arena::caller_bytes(b, align, true))
}
impl<'de, 'a: 'de> Deserializer<'de> for TokDe<'a> {
    type Error = TokErr;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, TokErr> {
        let st = unsafe { &mut *self.st };
        st.tick()?;
        match self.t {
            Tok::U(n) => v.visit_u64(*n),
            Tok::S(s) => match st.form {
                0 => v.visit_borrowed_str(unsafe { std::str::from_utf8_unchecked(lend(s.as_bytes(), 1)) }),
                1 => {
                    let b = lend(s.as_bytes(), 1);
                    let r = v.visit_str(unsafe { std::str::from_utf8_unchecked(b) });
                    host(|| arena::caller_bytes_release(b));
                    r
                }
                _ => v.visit_string(s.clone()),
            },
            Tok::B(b) => match st.form {
                0 => v.visit_borrowed_bytes(lend(b, 2)),
                1 => {
                    let b = lend(b, 1 + b.len() / 2 % 2);
                    let r = v.visit_bytes(b);
                    host(|| arena::caller_bytes_release(b));
                    r
                }
                _ => v.visit_byte_buf(b.clone()),
            },
            Tok::None => v.visit_none(),
            Tok::Some(t) => v.visit_some(TokDe { t, st: self.st }),
            Tok::Seq(s) => v.visit_seq(Acc { s: s.iter(), m: [].iter(), val: None, st: self.st }),
            Tok::Map(m) => v.visit_map(Acc { s: [].iter(), m: m.iter(), val: None, st: self.st }),
        }
    }
    fn is_human_readable(&self) -> bool {
        unsafe { (*self.st).hr }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option
        unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}
struct Acc<'a> {
    s: std::slice::Iter<'a, Tok>,
    m: std::slice::Iter<'a, (Tok, Tok)>,
    val: Option<&'a Tok>,
    st: *mut TokState,
}
impl<'de, 'a: 'de> SeqAccess<'de> for Acc<'a> {
    type Error = TokErr;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, TokErr> {
        match self.s.next() {
            Some(t) => s.deserialize(TokDe { t, st: self.st }).map(Some),
            None => Ok(None),
        }
    }
}
impl<'de, 'a: 'de> MapAccess<'de> for Acc<'a> {
    type Error = TokErr;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, TokErr> {
        match self.m.next() {
            Some((k, v)) => {
                self.val = Some(v);
                s.deserialize(TokDe { t: k, st: self.st }).map(Some)
            }
            None => Ok(None),
        }
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<T::Value, TokErr> {
        s.deserialize(TokDe { t: self.val.take().unwrap(), st: self.st })
    }
}

// ---- one transfer -------------------------------------------------------------------------
fn ser_to<T: Serialize + ?Sized>(v: &T, fmt: u8, wrap: u8, p: &mut Pipe) -> Result<(), String> {
    let w = Wrapped { v, wrap };
    match fmt {
        0 => bincode::serialize_into(p, &w).map_err(|e| e.to_string()),
        1 => serde_json::to_writer(p, &w).map_err(|e| e.to_string()),
        _ => serde_cbor::to_writer(p, &w).map_err(|e| e.to_string()),
    }
}
fn ser_vec<T: Serialize + ?Sized>(v: &T, fmt: u8, wrap: u8) -> Result<Vec<u8>, String> {
    let w = Wrapped { v, wrap };
    match fmt {
        0 => bincode::serialize(&w).map_err(|e| e.to_string()),
        1 => serde_json::to_vec(&w).map_err(|e| e.to_string()),
        _ => serde_cbor::to_vec(&w).map_err(|e| e.to_string()),
    }
}
type Got = Result<(NumericBuf, Vec<NumericBuf>), String>;
fn de_slice(b: &'static [u8], fmt: u8, wrap: u8, mode: u8) -> Got {
    use bincode::Options;
    match fmt {
        0 => {
            let mut d = bincode::Deserializer::from_slice(b, bincode::DefaultOptions::new().with_fixint_encoding());
            unwrap_de(&mut d, wrap).map_err(|e| e.to_string())
        }
        1 if mode == 2 => match std::str::from_utf8(b) {
            Ok(s) => unwrap_de(&mut serde_json::Deserializer::from_str(s), wrap).map_err(|e| e.to_string()),
            Err(e) => Err(e.to_string()),
        },
        1 => unwrap_de(&mut serde_json::Deserializer::from_slice(b), wrap).map_err(|e| e.to_string()),
        _ => unwrap_de(&mut serde_cbor::Deserializer::from_slice(b), wrap).map_err(|e| e.to_string()),
    }
}
fn de_read(p: &mut Pipe, fmt: u8, wrap: u8) -> Got {
    use bincode::Options;
    match fmt {
        0 => {
            let mut d = bincode::Deserializer::with_reader(p, bincode::DefaultOptions::new().with_fixint_encoding());
            unwrap_de(&mut d, wrap).map_err(|e| e.to_string())
        }
        1 => unwrap_de(&mut serde_json::Deserializer::from_reader(p), wrap).map_err(|e| e.to_string()),
        _ => unwrap_de(&mut serde_cbor::Deserializer::from_reader(p), wrap).map_err(|e| e.to_string()),
    }
}
const FMT: [&str; 5] = ["bincode", "json", "cbor", "tokens-binary", "tokens-text"];

/// Serialises `x`, moves it over the transport, reads it back. Returns the received value.
pub fn transfer(cx: &mut Ctx, x: Opd<'static>, m: &Val, fmt: u8, mode: u8, wrap: u8, w: &Cb, r: &Cb) -> Option<NumericBuf> {
    let fmt = fmt % 5;
    let what = format!("{} (mode {}, frame {}) of {}", FMT[fmt as usize], mode, wrap, short(&m.text()));
    if fmt >= 3 {
        let mut st = TokState { cb: w.clone(), x, m: m.clone(), calls: 0, fired: 0, hr: fmt == 4, form: mode % 3 };
        let out = sys(|| match x {
            Opd::Buf(b) => Wrapped { v: b, wrap }.serialize(TokSer { st: &mut st }),
            _ => Wrapped { v: x.num(), wrap }.serialize(TokSer { st: &mut st }),
        });
        let out = match out {
            Ok(o) => o.map_err(|e| e.0.clone()),
            Err(p) => Err(format!("panic:{}", p)),
        };
        let t = match outcome(cx, out, st.fired, "serialising", &what) {
            Some(t) => t,
            None => return None,
        };
        let _ = write!(cx.line, " {:x}", prng::hash_bytes(format!("{:?}", t).as_bytes()));
        let mut st = TokState { cb: r.clone(), x, m: m.clone(), calls: 0, fired: 0, hr: fmt == 4, form: mode % 3 };
        let tr: &Tok = unsafe { &*(&t as *const Tok) };
        if mode >= 3 && fmt == 3 && wrap == 0 {
            // borrowed form
            st.form = 0;
            let g = sys(|| <&Numeric>::deserialize(TokDe::new(tr, &mut st)).map_err(|e| e.0));
            return borrowed(cx, flat(g), st.fired, m, &what);
        }
        let g: Got = flat(sys(|| unwrap_de(TokDe::new(tr, &mut st), wrap).map_err(|e| e.0)));
        let n = received(cx, g, st.fired, m, &what);
        if r.re != 0 && crate::exec::size(m) < 3000 {
            // damaged in transit: the reader's error type uses the library while the error is made
            let how = prng::hash_bytes(what.as_bytes());
            let bad = spoil(tr, how);
            let br: &Tok = unsafe { &*(&bad as *const Tok) };
            let st = TokState { cb: r.clone(), x, m: m.clone(), calls: 0, fired: 0, hr: fmt == 4, form: mode % 3 };
            let mut quiet = TokState { cb: Cb::none(), x, m: m.clone(), calls: 0, fired: 0, hr: fmt == 4, form: mode % 3 };
            unsafe { ERR[simrt::sched::CUR] = &st };
            let me = unsafe { simrt::sched::CUR };
            let g = sys(|| {
                if wrap == 0 && fmt == 3 && how % 16 < 4 {
                    <&Numeric>::deserialize(TokDe::new(br, &mut quiet)).map(|_| ()).map_err(|e| e.0)
                } else {
                    unwrap_de(TokDe::new(br, &mut quiet), wrap).map(drop).map_err(|e| e.0)
                }
            });
            unsafe { ERR[me] = std::ptr::null() };
            match g {
                Ok(Err(e)) => {
                    let _ = write!(cx.line, " refused {:x}", prng::hash_bytes(e.as_bytes()));
                }
                Ok(Ok(())) => vio(&[c::SERDE, c::CORRUPT, c::REENTRY], &format!("reading back {}: damage was not noticed", what)),
                Err(p) => vio(&[c::SERDE, c::CORRUPT, c::REENTRY], &format!("reading back {} with damage panicked: {}", what, short(&p))),
            }
            sys(|| drop(bad)).ok();
        }
        sys(|| drop(t)).ok();
        return n;
    }
    let bytes: Vec<u8> = if mode == 0 {
        let mut w = w.clone();
        w.near_end(m.text().len());
        let mut p = Pipe::new(vec![], &w, x, m);
        let out = flat(sys(|| match x {
            Opd::Buf(b) => ser_to(b, fmt, wrap, &mut p),
            _ => ser_to(x.num(), fmt, wrap, &mut p),
        }));
        let fired = p.fired;
        if outcome(cx, out, fired, "serialising", &what).is_none() {
            return None;
        }
        p.buf
    } else {
        let out = flat(sys(|| match x {
            Opd::Buf(b) => ser_vec(b, fmt, wrap),
            _ => ser_vec(x.num(), fmt, wrap),
        }));
        match outcome(cx, out, 0, "serialising", &what) {
            Some(v) => {
                let b = v.clone();
                sys(|| drop(v)).ok();
                b
            }
            None => return None,
        }
    };
    let _ = write!(cx.line, " {:x}", prng::hash_bytes(&bytes));
    if mode == 0 {
        let mut r = r.clone();
        r.near_end(bytes.len());
        let mut p = Pipe::new(bytes, &r, x, m);
        let g: Got = flat(sys(|| de_read(&mut p, fmt, wrap)));
        return received(cx, g, p.fired, m, &what);
    }
    // payload at an even address
    let odd_prefix = fmt == 2 && wrap == 0 && bytes.len() >= 1 && bytes[0] & 0xE0 == 0x40 && (bytes[0] & 0x1f < 24 || (bytes[0] & 0x1f) == 25 || (bytes[0] & 0x1f) == 26);
    let borrow = mode >= 3 && fmt != 1 && wrap == 0;
    let odd = odd_prefix != misplaced(&bytes, borrow);
    let b: &'static [u8] = arena::caller_bytes(&bytes, if odd { 1 } else { 2 }, true);
    if borrow {
        let g = flat(sys(|| {
            if fmt == 0 {
                bincode::deserialize::<&Numeric>(b).map_err(|e| e.to_string())
            } else {
                serde_cbor::from_slice::<&Numeric>(b).map_err(|e| e.to_string())
            }
        }));
        let n = borrowed(cx, g, 0, m, &what);
        arena::caller_bytes_release(b);
        return n;
    }
    let g: Got = flat(sys(|| de_slice(b, fmt, wrap, mode)));
    arena::caller_bytes_release(b);
    received(cx, g, 0, m, &what)
}
/// The payload lies at an odd address: half the time if it is copied out, rarely if it is borrowed in place,
/// because that is a known finding (see known-findings.txt).
fn misplaced(bytes: &[u8], borrow: bool) -> bool {
    let h = prng::hash_bytes(bytes);
    let m = if borrow { h % 64 == 3 && unsafe { simrt::sched::DETECT } >> c::SERDE & 1 == 1 } else { h % 2 == 1 };
    simrt::shm::shm().note = (m && borrow) as u32;
    m
}
fn flat<T>(r: Result<Result<T, String>, String>) -> Result<T, String> {
    match r {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => Err(e),
        Err(p) => Err(format!("panic:{}", p)),
    }
}
/// Success if and only if no fault fired; a panic only if the fault was a panic.
fn outcome<T>(cx: &mut Ctx, r: Result<T, String>, fired: u8, doing: &str, what: &str) -> Option<T> {
    match (r, fired) {
        (Ok(v), 0) => Some(v),
        (Ok(_), f) => {
            vio(&[c::SERDE, c::REENTRY], &format!("{} {}: transport fault {} was swallowed", doing, what, f));
            cx.line.push_str(" swallowed");
            None
        }
        (Err(e), 0) => {
            vio(&[c::SERDE, c::CORRUPT, c::REENTRY], &format!("{} {} failed without a fault: {}", doing, what, short(&e)));
            let _ = write!(cx.line, " err:{}", short(&e));
            None
        }
        (Err(e), f) => {
            if e.starts_with("panic:") && f != 2 {
                vio(&[c::SERDE, c::PANIC], &format!("{} {}: transport fault {} became a panic: {}", doing, what, f, short(&e)));
            }
            let _ = write!(cx.line, " fault{}", f);
            None
        }
    }
}
fn received(cx: &mut Ctx, g: Got, fired: u8, m: &Val, what: &str) -> Option<NumericBuf> {
    let (n, rest) = outcome(cx, g, fired, "reading back", what)?;
    for k in rest.iter() {
        if Val::decode(k.as_bytes(), BE).as_ref() != Ok(m) {
            vio(&[c::SERDE], &format!("reading back {}: an element came back as {}", what, short(&k.to_string())));
        }
    }
    sys(|| drop(rest)).ok();
    Some(n)
}
fn borrowed(cx: &mut Ctx, g: Result<&Numeric, String>, fired: u8, m: &Val, what: &str) -> Option<NumericBuf> {
    let n = outcome(cx, g, fired, "borrowing", what)?;
    let t = sys(|| n.to_string());
    if t.as_ref().map(|t| t.as_str()) != Ok(m.text().as_str()) {
        vio(&[c::SERDE], &format!("borrowing {} gives {:?}", what, t.as_ref().map(|t| short(t))));
    }
    sys(|| drop(t)).ok();
    sys(|| n.to_owned()).ok()
}

// ---- damaged bytes ------------------------------------------------------------------------
fn set_len(b: &mut Vec<u8>) {
    if b.len() >= 4 {
        let l = b.len() as u32;
        let w = if BE { l.to_be_bytes() } else { (l << 2).to_le_bytes() };
        b[..4].copy_from_slice(&w);
    }
}
fn put16(b: &mut [u8], at: usize, v: u16) {
    if at + 2 <= b.len() {
        b[at..at + 2].copy_from_slice(&v.to_le_bytes());
    }
}
/// Payload-level damage; returns true if the result may be anything.
pub fn damage(b: &mut Vec<u8>, muts: &[(u8, u32, u32)]) {
    for &(k, p, v) in muts {
        let n = b.len().max(1);
        let mut rng = Rng::new((p as u64) << 32 | v as u64);
        match k {
            0 => {
                let i = p as usize % n;
                if i < b.len() {
                    b[i] ^= 1 << (v % 8);
                }
            }
            1 => {
                let i = p as usize % n;
                if i < b.len() {
                    b[i] = v as u8;
                }
            }
            2 => b.truncate(p as usize % (n + 1)),
            3 => {
                for _ in 0..v % 12 {
                    b.push(rng.next() as u8);
                }
            }
            4 => set_len(b),
            5 => {
                let nd = b.len().saturating_sub(6) / 2;
                if nd > 0 {
                    put16(b, 6 + 2 * (p as usize % nd), v as u16);
                }
            }
            6 => put16(b, 4, v as u16),
            7 => put16(b, 6, v as u16),
            8 => {
                // torn: tail of another value
                let i = p as usize % n;
                for x in b.iter_mut().skip(i) {
                    *x = rng.next() as u8;
                }
            }
            9 => {
                // leading or trailing zero group, length fixed up
                let off = if b.len() >= 6 && b[5] & 0x80 != 0 { 6 } else { 8 };
                if b.len() >= off {
                    if v % 2 == 0 {
                        b.push(0);
                        b.push(0);
                    } else {
                        b.insert(off, 0);
                        b.insert(off, 0);
                    }
                    set_len(b);
                }
            }
            10 => {
                let l = b.len().saturating_sub(2 * (1 + v as usize % 3)).max(4);
                b.truncate(l);
                set_len(b);
            }
            11 => {
                b.clear();
                for _ in 0..p % 40 {
                    b.push(rng.next() as u8);
                }
                if v % 2 == 0 {
                    set_len(b);
                }
            }
            12 => {
                // only the length word is wrong
                if b.len() >= 4 {
                    let l = (b.len() as i64 + (v as i64 % 41) - 20).max(0) as u32;
                    let w = if BE { l.to_be_bytes() } else { (l << 2 | p & 3).to_le_bytes() };
                    b[..4].copy_from_slice(&w);
                }
            }
            13 => {
                // huge length word
                if b.len() >= 4 {
                    b[..4].copy_from_slice(&(v | 0xFF00_0000).to_le_bytes());
                }
            }
            14 => {
                // sign, NaN, short and long header bits
                if b.len() >= 6 {
                    b[5] = (b[5] & 0x1f) | (v as u8 & 0xe0);
                }
            }
            15 => {
                // scale of a short header
                if b.len() >= 6 {
                    let h = u16::from_le_bytes([b[4], b[5]]);
                    put16(b, 4, (h & !0x1f80) | ((v as u16 & 0x3f) << 7));
                }
            }
            16 => {
                // weight of a short header
                if b.len() >= 6 {
                    let h = u16::from_le_bytes([b[4], b[5]]);
                    put16(b, 4, (h & !0x7f) | (v as u16 & 0x7f));
                }
            }
            _ => {
                // digit beyond the scale: a whole extra group, length fixed up
                b.extend_from_slice(&((1 + v % 9999) as u16).to_le_bytes());
                set_len(b);
            }
        }
    }
}
/// Lets the library read damaged bytes; returns what it accepted.
pub fn corrupt(cx: &mut Ctx, x: Opd<'static>, m: &Val, path: u8, muts: &[(u8, u32, u32)]) -> Option<NumericBuf> {
    bump("corruption");
    if path % 17 >= 12 {
        return corrupt_text(cx, x, m, path % 17 - 12, muts);
    }
    let src = match sys(|| x.num().as_bytes().to_vec()) {
        Ok(v) => {
            let b = v.clone();
            sys(|| drop(v)).ok();
            b
        }
        Err(_) => return None,
    };
    let none = Cb::none();
    let what = format!("path {} on damaged {} {:?}", path, short(&m.text()), muts);
    let mut b = src;
    let wire_level = path >= 9;
    if !wire_level {
        damage(&mut b, muts);
    }
    let valid = Val::decode(&b, BE);
    let mut keep: Option<&'static [u8]> = None;
    let mk_st = |form: u8, hr: bool| TokState { cb: none.clone(), x, m: m.clone(), calls: 0, fired: 0, hr, form };
    // &Numeric results are converted for the checks below, after looking at them in place
    let g: Result<NumericBuf, String> = match path {
        0 | 1 | 2 | 3 | 6 | 7 => {
            let mut wire = vec![];
            if path == 2 || path == 3 || path == 7 {
                // cbor byte string
                let n = b.len();
                if n < 24 {
                    wire.push(0x40 | n as u8);
                } else if n < 256 {
                    wire.extend_from_slice(&[0x58, n as u8]);
                } else if n < 65536 {
                    wire.push(0x59);
                    wire.extend_from_slice(&(n as u16).to_be_bytes());
                } else {
                    wire.push(0x5a);
                    wire.extend_from_slice(&(n as u32).to_be_bytes());
                }
            } else {
                wire.extend_from_slice(&(b.len() as u64).to_le_bytes());
            }
            let odd = wire.len() % 2 == 1;
            wire.extend_from_slice(&b);
            let fmt = if path == 2 || path == 3 || path == 7 { 2 } else { 0 };
            if path == 1 || path == 3 {
                let mut p = Pipe::new(wire, &Cb { cap: 3, ..Cb::none() }, x, m);
                flat(sys(|| de_read(&mut p, fmt, 0).map(|t| t.0)))
            } else {
                let odd = odd != misplaced(&wire, path >= 6);
                let cb: &'static [u8] = arena::caller_bytes(&wire, if odd { 1 } else { 2 }, true);
                keep = Some(cb);
                if path == 0 || path == 2 {
                    flat(sys(|| de_slice(cb, fmt, 0, 1).map(|t| t.0)))
                } else {
                    flat(sys(|| {
                        let n: Result<&Numeric, String> =
                            if fmt == 0 { bincode::deserialize(cb).map_err(|e| e.to_string()) } else { serde_cbor::from_slice(cb).map_err(|e| e.to_string()) };
                        n.map(|n| look(n))
                    }))
                }
            }
        }
        4 | 5 | 8 => {
            let t = Tok::B(b.clone());
            let tr: &Tok = unsafe { &*(&t as *const Tok) };
            if path == 8 {
                let mut st = mk_st(0, false);
                flat(sys(|| <&Numeric>::deserialize(TokDe::new(tr, &mut st)).map(|n| look(n)).map_err(|e| e.0)))
            } else {
                let mut st = mk_st(if path == 4 { (muts.len() % 2) as u8 } else { 2 }, false);
                flat(sys(|| NumericBuf::deserialize(TokDe::new(tr, &mut st)).map_err(|e| e.0)))
            }
        }
        _ => {
            // damage on the wire, framing included
            let fmt = path - 9;
            let mut wire = match flat(sys(|| ser_vec(x.num(), fmt, (muts.len() % 3) as u8))) {
                Ok(v) => {
                    let w = v.clone();
                    sys(|| drop(v)).ok();
                    w
                }
                Err(e) => {
                    let _ = write!(cx.line, " ser:{}", short(&e));
                    return None;
                }
            };
            if !muts.is_empty() {
                let ms: Vec<_> = muts.iter().map(|&(k, p, v)| ([0, 1, 2, 3, 8][k as usize % 5], p, v)).collect();
                damage(&mut wire, &ms);
                // a frame that announces gigabytes is the format's business, not the library's
                if fmt == 0 && wire.len() >= 8 && wire[3..8].iter().any(|&z| z != 0) {
                    for z in &mut wire[3..8] {
                        *z = 0;
                    }
                }
            }
            let cb: &'static [u8] = arena::caller_bytes(&wire, 2, true);
            keep = Some(cb);
            flat(sys(|| {
                de_slice(cb, fmt, (muts.len() % 3) as u8, 1).map(|(a, v)| {
                    drop(v);
                    a
                })
            }))
        }
    };
    if let Some(cb) = keep {
        arena::caller_bytes_release(cb);
    }
    match g {
        Err(e) => {
            if e.starts_with("panic:") {
                vio(&[c::CORRUPT], &format!("{}: panicked: {}", what, short(&e)));
            }
            bump("corrupt_rejected");
            if !wire_level {
                if let Ok(v) = &valid {
                    if !v.is_nan() && v.encode(BE) == b || v.is_nan() && b.len() == nan_len() && b.len() == 6 && v.encode(BE) == b {
                        vio(&[c::CORRUPT], &format!("{}: the bytes of {} were rejected: {}", what, short(&v.text()), short(&e)));
                    }
                }
            } else if muts.is_empty() {
                vio(&[c::CORRUPT, c::SERDE], &format!("{}: undamaged bytes were rejected: {}", what, short(&e)));
            }
            cx.line.push_str(" rejected");
            None
        }
        Ok(n) => {
            let own = n.as_bytes().to_vec();
            match Val::decode(&own, BE) {
                Err(e) => {
                    vio(&[c::CORRUPT], &format!("{}: accepted, but the value's bytes {:02x?} are no numeric: {}", what, &own[..own.len().min(24)], e));
                    sys(|| drop(n)).ok();
                    None
                }
                Ok(v) => {
                    if !wire_level && valid.as_ref() != Ok(&v) {
                        vio(&[c::CORRUPT], &format!("{}: bytes that mean {:?} were read as {}", what, valid.as_ref().map(|v| short(&v.text())), short(&v.text())));
                    }
                    exercise(&n, &v, &what);
                    bump("corrupt_accepted_sound");
                    cx.line.push_str(" accepted");
                    Some(n)
                }
            }
        }
    }
}
/// Damage to the text form.
fn damage_text(t: &mut Vec<u8>, muts: &[(u8, u32, u32)]) {
    const SET: &[u8] = b"0123456789999000....eE+-- \t\nNanif_,x\"\\\x00\x7f\xc3\xa9";
    for &(k, p, v) in muts {
        let mut rng = Rng::new((p as u64) << 32 | v as u64);
        let i = p as usize % (t.len() + 1);
        let ch = SET[v as usize % SET.len()];
        match k % 10 {
            0 if i < t.len() => t[i] ^= 1 << (v % 8),
            1 if i < t.len() => t[i] = ch,
            2 => t.truncate(i),
            3 => t.insert(i, ch),
            4 if i < t.len() => {
                t.remove(i);
            }
            // an exponent of any length
            5 | 6 => {
                t.truncate(40);
                t.push(b"eE"[v as usize & 1]);
                t.extend_from_slice([&b""[..], b"-", b"+", b"-"][v as usize >> 1 & 3]);
                match v >> 3 & 7 {
                    0 => t.extend_from_slice(*rng.pick(&[
                        &b"18446744073709551616"[..], b"18446744073709551617", b"4294967296", b"4294967297", b"2147483648", b"2147483647", b"1073741823", b"1073741824",
                        b"9223372036854775808", b"9223372036854775807", b"00000000000000000000001", b"65536", b"65537", b"131072", b"131071", b"16384", b"32768",
                        b"340282366920938463463374607431768211457",
                    ])),
                    1 => t.extend_from_slice(format!("{}", rng.range(0, 200_000)).as_bytes()),
                    2 => {
                        let n = rng.range(1, 40);
                        t.extend_from_slice(&vec![b'0'; n as usize]);
                        t.extend_from_slice(format!("{}", rng.range(0, 20)).as_bytes());
                    }
                    3 => t.extend_from_slice(format!("{}", rng.range(0, 30)).as_bytes()),
                    4 | 5 => t.extend_from_slice(format!("{}{}", rng.next(), rng.range(0, 30)).as_bytes()),
                    _ => {
                        for _ in 0..rng.range(9, 24) {
                            t.push(b'0' + rng.below(10) as u8);
                        }
                    }
                }
            }
            // made up
            7 => {
                t.clear();
                for _ in 0..p % 24 {
                    t.push(SET[rng.below(SET.len() as u64) as usize]);
                }
            }
            // torn: another text from here on
            8 => {
                t.truncate(i);
                t.extend_from_slice(format!("{}.{}", rng.below(100_000), rng.below(1000)).as_bytes());
            }
            _ => {
                let n = rng.range(1, 30) as usize;
                for _ in 0..n {
                    t.insert(i, ch);
                }
            }
        }
    }
}
/// Lets the library read a damaged text form.
fn corrupt_text(cx: &mut Ctx, x: Opd<'static>, m: &Val, path: u8, muts: &[(u8, u32, u32)]) -> Option<NumericBuf> {
    bump("text_corruption");
    let mut t = m.text().into_bytes();
    if t.len() > 3000 {
        t.truncate(3000);
    }
    let whole = muts.is_empty() && t == m.text().as_bytes();
    damage_text(&mut t, muts);
    let what = format!("path text-{} on damaged {} {:?}", path, short(&m.text()), muts);
    let str_of = std::str::from_utf8(&t).ok().map(|s| s.to_string());
    let json = |t: &[u8]| {
        let mut j = vec![b'"'];
        j.extend_from_slice(t);
        j.push(b'"');
        j
    };
    let mut keep: Option<&'static [u8]> = None;
    let r: Result<NumericBuf, String> = match (path, &str_of) {
        (0, _) => {
            let cb: &'static [u8] = arena::caller_bytes(&json(&t), 1, true);
            keep = Some(cb);
            flat(sys(|| de_slice(cb, 1, 0, 1).map(|g| g.0)))
        }
        (1, _) => {
            let mut p = Pipe::new(json(&t), &Cb { cap: 3, ..Cb::none() }, x, m);
            flat(sys(|| de_read(&mut p, 1, 0).map(|g| g.0)))
        }
        (2, Some(s)) => {
            let tok = Tok::S(s.clone());
            let tr: &Tok = unsafe { &*(&tok as *const Tok) };
            let mut st = TokState { cb: Cb::none(), x, m: m.clone(), calls: 0, fired: 0, hr: true, form: (muts.len() % 3) as u8 };
            flat(sys(|| NumericBuf::deserialize(TokDe::new(tr, &mut st)).map_err(|e| e.0)))
        }
        (3, _) => {
            // text where bytes are expected and bytes where text is
            let tok = if muts.len() % 2 == 0 { Tok::B(t.clone()) } else { Tok::S(String::from_utf8_lossy(&t).into_owned()) };
            let tr: &Tok = unsafe { &*(&tok as *const Tok) };
            let mut st = TokState { cb: Cb::none(), x, m: m.clone(), calls: 0, fired: 0, hr: muts.len() % 2 == 0, form: (muts.len() % 3) as u8 };
            flat(sys(|| NumericBuf::deserialize(TokDe::new(tr, &mut st)).map_err(|e| e.0)))
        }
        (_, Some(s)) => {
            let cb: &'static [u8] = arena::caller_bytes(s.as_bytes(), 1, true);
            keep = Some(cb);
            flat(sys(|| unsafe { std::str::from_utf8_unchecked(cb) }.parse::<NumericBuf>().map_err(|e| e.to_string())))
        }
        _ => Err("not text".into()),
    };
    if let Some(cb) = keep {
        arena::caller_bytes_release(cb);
    }
    // what the text means, in JSON after unescaping
    let meant = match path {
        0 | 1 => serde_json::from_slice::<String>(&json(&t)).ok(),
        3 => None,
        _ => str_of,
    };
    let meant = meant.map(|s| s.trim_matches(|c: char| c.is_ascii_whitespace()).to_string());
    match r {
        Err(e) => {
            if e.starts_with("panic:") {
                vio(&[c::CORRUPT], &format!("{}: panicked: {}", what, short(&e)));
            }
            if whole && path != 3 {
                vio(&[c::CORRUPT, c::SERDE], &format!("{}: undamaged text was rejected: {}", what, short(&e)));
            }
            bump("corrupt_rejected");
            cx.line.push_str(" rejected");
            None
        }
        Ok(n) => match Val::decode(n.as_bytes(), BE) {
            Err(e) => {
                vio(&[c::CORRUPT], &format!("{}: accepted, but the value's bytes are no numeric: {}", what, e));
                sys(|| drop(n)).ok();
                None
            }
            Ok(v) => {
                if let Some(s) = &meant {
                    let zero = !s.bytes().any(|b| (b'1'..=b'9').contains(&b));
                    match Val::parse(s) {
                        Some(w) if w != v => vio(&[c::CORRUPT], &format!("{}: {} was read as {}", what, short(s), short(&v.text()))),
                        None if !zero => vio(&[c::CORRUPT], &format!("{}: {} means no numeric, was read as {}", what, short(s), short(&v.text()))),
                        _ => {}
                    }
                }
                exercise(&n, &v, &what);
                bump("corrupt_accepted_sound");
                cx.line.push_str(" accepted");
                Some(n)
            }
        },
    }
}
/// In-place use of a borrowed numeric before it is copied.
fn look(n: &Numeric) -> NumericBuf {
    let t = n.to_string();
    let o = n.to_owned();
    if n.as_bytes().len() < 6 || t.is_empty() {
        return NumericBuf::nan();
    }
    o
}
/// Uses an accepted value in every way later code could.
fn exercise(n: &NumericBuf, v: &Val, what: &str) {
    let t = v.text();
    let bad = |w: &str| vio(&[c::CORRUPT], &format!("{}: accepted as {}, but {}", what, short(&t), w));
    let r = sys(|| {
        let s = n.to_string();
        let e = format!("{:e}", n);
        let sum = n.checked_add(n);
        let neg = n.negate();
        let c = n.to_owned();
        let eq = c == *n && n.as_numeric() == c.as_numeric();
        if n.as_bytes().len() < 4000 {
            let _ = n.checked_mul(&neg);
        }
        let rounded = n.trunc(2);
        let back = bincode::serialize(n).ok().and_then(|b| bincode::deserialize::<NumericBuf>(&b).ok());
        (s, e, sum, neg, eq, rounded, back)
    });
    match r {
        Err(p) => bad(&format!("using it panics: {}", short(&p))),
        Ok((s, e, sum, neg, eq, rounded, back)) => {
            let dec = |n: &NumericBuf| Val::decode(n.as_bytes(), BE).ok();
            if s != t {
                bad(&format!("it prints as {}", short(&s)));
            }
            if e.is_empty() || !eq {
                bad("it does not equal its copy");
            }
            match (sum.as_ref().map(|n| dec(n)), v.add(v)) {
                (Some(Some(g)), Ok(w)) if g == w => {}
                (None, Err(_)) => {}
                _ => bad("adding it to itself is wrong"),
            }
            if dec(&neg) != v.neg().ok() {
                bad("its negation is wrong");
            }
            if dec(&rounded) != v.trunc(2).ok() {
                bad("truncating it is wrong");
            }
            match back.as_ref().map(|n| dec(n)) {
                Some(Some(b)) if &b == v => {}
                _ => bad("its own bytes cannot be read back"),
            }
            sys(|| drop((s, e, sum, neg, rounded, back))).ok();
        }
    }
}

// ---- simulated disk -----------------------------------------------------------------------
const REC: u32 = 0x5245_4331;
pub fn store(cx: &mut Ctx, x: Opd<'static>, m: &Val) {
    let b = match sys(|| x.num().as_bytes().to_vec()) {
        Ok(v) => {
            let b = v.clone();
            sys(|| drop(v)).ok();
            b
        }
        Err(p) => {
            vio(&[c::STORE, c::PANIC], &format!("taking the bytes of {} panicked: {}", short(&m.text()), short(&p)));
            return;
        }
    };
    if b != m.encode(BE) && !m.is_nan() {
        vio(&[c::CANON], &format!("{} is stored as {:02x?}, canonical is {:02x?}", short(&m.text()), &b[..b.len().min(24)], &m.encode(BE)[..m.encode(BE).len().min(24)]));
    }
    let s = shm();
    let mut rec = vec![];
    rec.extend_from_slice(&REC.to_le_bytes());
    rec.extend_from_slice(&(b.len() as u32).to_le_bytes());
    rec.extend_from_slice(&prng::hash_bytes(&b).to_le_bytes());
    rec.extend_from_slice(&b);
    let at = s.disk_len as usize;
    // a record counts when both it and its acknowledgement were taken
    if at + rec.len() <= DISKCAP && s.nlog[5] as usize + m.text().len() < simrt::shm::LOGCAP {
        s.disk[at..at + rec.len()].copy_from_slice(&rec);
        s.disk_len += rec.len() as u32;
        s.log(5, m.text().as_bytes());
        let _ = write!(cx.line, " {:x}", prng::hash_bytes(&b));
    }
}
pub fn sync() {
    let s = shm();
    s.disk_durable = s.disk_len;
}
/// (record bytes) found on the disk image
pub fn records(disk: &[u8]) -> Vec<Vec<u8>> {
    let mut r = vec![];
    let mut i = 0;
    while i + 16 <= disk.len() {
        let mg = u32::from_le_bytes([disk[i], disk[i + 1], disk[i + 2], disk[i + 3]]);
        let l = u32::from_le_bytes([disk[i + 4], disk[i + 5], disk[i + 6], disk[i + 7]]) as usize;
        if mg != REC || i + 16 + l > disk.len() {
            break;
        }
        let mut h = [0u8; 8];
        h.copy_from_slice(&disk[i + 8..i + 16]);
        let b = &disk[i + 16..i + 16 + l];
        if prng::hash_bytes(b) != u64::from_le_bytes(h) {
            break;
        }
        r.push(b.to_vec());
        i += 16 + l;
    }
    r
}
/// Runs in a fresh process after a crash: what was acknowledged as durable must reopen.
pub fn recover(disk: &[u8], durable: usize, acks: &[String], seed: u64) {
    let recs = records(disk);
    let need = records(&disk[..durable.min(disk.len())]).len();
    if recs.len() < need || recs.len() > acks.len() {
        simrt::sched::fatal(c::HARNESS, "the simulated disk lost an acknowledged record");
    }
    let mut rng = Rng::new(seed);
    for (b, t) in recs.iter().zip(acks) {
        bump("values_observed");
        let m = match Val::parse(t) {
            Some(m) => m,
            None => simrt::sched::fatal(c::HARNESS, "bad ack"),
        };
        let align = [2usize, 2, 4, 8][rng.below(4) as usize];
        let cb: &'static [u8] = arena::caller_bytes(b, align, true);
        let bad = |w: String| vio(&[c::STORE], &format!("{} reopened after a crash (aligned {}): {}", short(t), align, w));
        let r = sys(|| {
            let n = unsafe { Numeric::from_bytes_unchecked(cb) };
            let s = n.to_string();
            let sc = n.scale();
            let own = n.to_owned();
            let fresh: Option<NumericBuf> = t.parse().ok();
            let same = fresh.as_ref().map_or(false, |f| f == n && n == f && f.as_numeric() == n);
            let bytes = fresh.as_ref().map_or(false, |f| f.as_bytes() == cb);
            let sum = n.checked_add(&own);
            let ng = -n;
            let tr = n.trunc(1);
            let mut h1 = std::collections::hash_map::DefaultHasher::new();
            let mut h2 = h1.clone();
            std::hash::Hash::hash(n, &mut h1);
            if let Some(f) = &fresh {
                std::hash::Hash::hash(f, &mut h2);
            }
            let hs = std::hash::Hasher::finish(&h1) == std::hash::Hasher::finish(&h2);
            (s, sc, own, same, bytes, sum, ng, tr, hs)
        });
        match r {
            Err(p) => bad(format!("using it panics: {}", short(&p))),
            Ok((s, sc, own, same, bytes, sum, ng, tr, hs)) => {
                let dec = |n: &NumericBuf| Val::decode(n.as_bytes(), BE).ok();
                let ws = match &m {
                    Val::NaN => None,
                    Val::Num(d) => Some(d.scale as i32),
                };
                if s != *t || sc != ws {
                    bad(format!("prints {} with scale {:?}", short(&s), sc));
                }
                if dec(&own).as_ref() != Some(&m) {
                    bad("its owned copy differs".into());
                }
                if !same || !hs {
                    bad("it does not equal (or hash like) the same value made from text".into());
                }
                if !bytes {
                    vio(&[c::CANON, c::STORE], &format!("{}: stored bytes differ from the bytes of the value parsed from its text", short(t)));
                }
                match (sum.as_ref().map(|n| dec(n)), m.add(&m)) {
                    (Some(Some(g)), Ok(w)) if g == w => {}
                    (None, Err(_)) => {}
                    _ => bad("adding it is wrong".into()),
                }
                if dec(&ng) != m.neg().ok() || dec(&tr) != m.trunc(1).ok() {
                    bad("negating or truncating it is wrong".into());
                }
                sys(|| drop((s, own, sum, ng, tr))).ok();
            }
        }
        if cb != &b[..] {
            vio(&[c::BYSTANDER, c::STORE], "the stored bytes were changed by reading them");
        }
        arena::caller_bytes_release(cb);
    }
}
