//! ndjson server around generated code.  Reports what the code did; decides nothing.
#![recursion_limit = "512"]
#![allow(unused)]
#![allow(clippy::all)]

use std::collections::{HashMap, HashSet, VecDeque};
use std::hash::Hash;
use std::io::{BufRead, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};

use bytes::{Buf, Bytes};
use mabo::buf::{Decode, Encode, Size};
use serde_json::{Value as J, json};

include!("gen.rs");

/// Values in the form the specification uses.
pub trait Vv: Sized {
    fn mk(j: &J) -> Self;
    fn sh(&self) -> J;
}

fn u8s(j: &J) -> Vec<u8> {
    j.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect()
}

impl Vv for bool {
    fn mk(j: &J) -> Self { j.as_bool().unwrap() }
    fn sh(&self) -> J { json!(*self) }
}
impl Vv for u8 {
    fn mk(j: &J) -> Self { j.as_u64().unwrap() as u8 }
    fn sh(&self) -> J { json!(*self) }
}
impl Vv for i8 {
    fn mk(j: &J) -> Self { j.as_i64().unwrap() as i8 }
    fn sh(&self) -> J { json!(*self) }
}

fn digits(mut n: u128) -> J {
    let mut d = vec![];
    while n > 0 {
        d.push(json!((n % 128) as u8));
        n /= 128;
    }
    J::Array(d)
}
fn num(j: &J) -> u128 {
    j.as_array().unwrap().iter().rev().fold(0u128, |a, d| a.wrapping_mul(128).wrapping_add(d.as_u64().unwrap() as u128))
}
macro_rules! ints {
    ($($u:ty, $i:ty);*) => {$(
        impl Vv for $u {
            fn mk(j: &J) -> Self { num(&j["m"]) as $u }
            fn sh(&self) -> J { json!({"s": 0, "m": digits(*self as u128)}) }
        }
        impl Vv for $i {
            fn mk(j: &J) -> Self {
                let m = num(&j["m"]) as $i;
                if j["s"] == 1 { m.wrapping_neg() } else { m }
            }
            fn sh(&self) -> J {
                json!({"s": if *self < 0 { 1 } else { 0 }, "m": digits(self.unsigned_abs() as u128)})
            }
        }
    )*};
}
ints!(u16, i16; u32, i32; u64, i64; u128, i128);

macro_rules! nzints {
    ($($n:ident, $t:ty);*) => {$(
        impl Vv for std::num::$n {
            fn mk(j: &J) -> Self { Self::new(<$t as Vv>::mk(j)).unwrap() }
            fn sh(&self) -> J { self.get().sh() }
        }
    )*};
}
nzints!(NonZeroU8, u8; NonZeroU16, u16; NonZeroU32, u32; NonZeroU64, u64; NonZeroU128, u128;
        NonZeroI8, i8; NonZeroI16, i16; NonZeroI32, i32; NonZeroI64, i64; NonZeroI128, i128);

impl Vv for f32 {
    fn mk(j: &J) -> Self { f32::from_be_bytes(u8s(j).try_into().unwrap()) }
    fn sh(&self) -> J { json!(self.to_be_bytes()) }
}
impl Vv for f64 {
    fn mk(j: &J) -> Self { f64::from_be_bytes(u8s(j).try_into().unwrap()) }
    fn sh(&self) -> J { json!(self.to_be_bytes()) }
}
impl Vv for String {
    fn mk(j: &J) -> Self { String::from_utf8(u8s(j)).unwrap() }
    fn sh(&self) -> J { json!(self.as_bytes()) }
}
impl Vv for Box<str> {
    fn mk(j: &J) -> Self { String::mk(j).into() }
    fn sh(&self) -> J { json!(self.as_bytes()) }
}
impl Vv for Box<[u8]> {
    fn mk(j: &J) -> Self { u8s(j).into() }
    fn sh(&self) -> J { json!(&self[..]) }
}
impl Vv for Bytes {
    fn mk(j: &J) -> Self { u8s(j).into() }
    fn sh(&self) -> J { json!(&self[..]) }
}
impl<T: Vv> Vv for Vec<T> {
    fn mk(j: &J) -> Self { j.as_array().unwrap().iter().map(T::mk).collect() }
    fn sh(&self) -> J { self.iter().map(T::sh).collect() }
}
impl<K: Vv + Hash + Eq, T: Vv> Vv for HashMap<K, T> {
    fn mk(j: &J) -> Self { j.as_array().unwrap().iter().map(|e| (K::mk(&e[0]), T::mk(&e[1]))).collect() }
    fn sh(&self) -> J { self.iter().map(|(k, v)| json!([k.sh(), v.sh()])).collect() }
}
impl<T: Vv + Hash + Eq> Vv for HashSet<T> {
    fn mk(j: &J) -> Self { j.as_array().unwrap().iter().map(T::mk).collect() }
    fn sh(&self) -> J { self.iter().map(T::sh).collect() }
}
impl<T: Vv> Vv for Option<T> {
    fn mk(j: &J) -> Self { j.as_array().unwrap().first().map(T::mk) }
    fn sh(&self) -> J { self.iter().map(T::sh).collect() }
}
macro_rules! shared {
    ($($p:ty),*) => {$(
        impl<T: Vv + Clone + 'static> Vv for $p {
            fn mk(j: &J) -> Self { Self::from_value(T::mk(j)) }
            fn sh(&self) -> J { T::sh(self) }
        }
    )*};
}
trait FromValue<T> { fn from_value(v: T) -> Self; }
impl<T> FromValue<T> for std::rc::Rc<T> { fn from_value(v: T) -> Self { std::rc::Rc::new(v) } }
impl<T> FromValue<T> for std::sync::Arc<T> { fn from_value(v: T) -> Self { std::sync::Arc::new(v) } }
impl<T: Clone> FromValue<T> for std::borrow::Cow<'static, T> { fn from_value(v: T) -> Self { std::borrow::Cow::Owned(v) } }
shared!(std::rc::Rc<T>, std::sync::Arc<T>, std::borrow::Cow<'static, T>);

/// Written as a borrowed slice, read as a vector.
#[derive(Clone, Debug, PartialEq)]
pub struct Slice<T>(Vec<T>);
impl<T: Size> Size for Slice<T> {
    fn size(&self) -> usize { <&[T] as Size>::size(&&self.0[..]) }
}
impl<T: Encode> Encode for Slice<T> {
    fn encode(&self, w: &mut impl bytes::BufMut) { <&[T] as Encode>::encode(&&self.0[..], w) }
}
impl<T: Decode> Decode for Slice<T> {
    fn decode(r: &mut impl Buf) -> mabo::buf::Result<Self> { Vec::decode(r).map(Self) }
}
impl<T: Vv> Vv for Slice<T> {
    fn mk(j: &J) -> Self { Self(Vec::mk(j)) }
    fn sh(&self) -> J { self.0.sh() }
}
impl<T: Vv, const N: usize> Vv for [T; N] {
    fn mk(j: &J) -> Self {
        let a = j.as_array().unwrap();
        std::array::from_fn(|i| T::mk(&a[i]))
    }
    fn sh(&self) -> J { self.iter().map(T::sh).collect() }
}
macro_rules! tups {
    ($(($($t:ident $i:tt),*))*) => {$(
        impl<$($t: Vv),*> Vv for ($($t,)*) {
            fn mk(j: &J) -> Self { ($($t::mk(&j[$i]),)*) }
            fn sh(&self) -> J { json!([$(self.$i.sh()),*]) }
        }
    )*};
}
tups!((A 0, B 1)(A 0, B 1, C 2)(A 0, B 1, C 2, D 3)(A 0, B 1, C 2, D 3, E 4)(A 0, B 1, C 2, D 3, E 4, F 5)
      (A 0, B 1, C 2, D 3, E 4, F 5, G 6)(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7)
      (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8)(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, K 9)
      (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, K 9, L 10)
      (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, K 9, L 10, M 11));
macro_rules! nzc {
    ([$($g:tt)*] $t:ty) => {
        impl<$($g)*> Vv for mabo::NonZero<$t> {
            fn mk(j: &J) -> Self { mabo::NonZero::<$t>::new(<$t>::mk(j)).unwrap() }
            fn sh(&self) -> J { self.get().sh() }
        }
    };
}
nzc!([] String);
nzc!([] Bytes);
nzc!([T: Vv] Vec<T>);
nzc!([T: Vv + Hash + Eq] HashSet<T>);
nzc!([K: Vv + Hash + Eq, T: Vv] HashMap<K, T>);

/// A buffer in several pieces.
struct Pieces {
    segs: VecDeque<Bytes>,
}
impl Pieces {
    fn new(b: &[u8], cuts: &[usize]) -> Self {
        let mut segs = VecDeque::new();
        let mut p = 0;
        for &c in cuts {
            let c = c.min(b.len());
            if c > p {
                segs.push_back(Bytes::copy_from_slice(&b[p..c]));
                p = c;
            }
        }
        if p < b.len() {
            segs.push_back(Bytes::copy_from_slice(&b[p..]));
        }
        Self { segs }
    }
}
impl Buf for Pieces {
    fn remaining(&self) -> usize { self.segs.iter().map(|s| s.len()).sum() }
    fn chunk(&self) -> &[u8] { self.segs.front().map_or(&[], |s| &s[..]) }
    fn advance(&mut self, mut n: usize) {
        while n > 0 {
            let f = self.segs.front_mut().expect("advance past the end");
            if n < f.len() {
                f.advance(n);
                return;
            }
            n -= f.len();
            self.segs.pop_front();
        }
    }
}

fn guard(f: impl FnOnce() -> J) -> J {
    catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|p| {
        let m = p.downcast_ref::<String>().cloned()
            .or_else(|| p.downcast_ref::<&str>().map(|s| (*s).to_owned())).unwrap_or_default();
        json!({"st": "panic", "msg": m})
    })
}

fn dec<X: Vv + Decode>(mut r: &mut dyn Buf) -> J {
    use mabo::buf::Error as E;
    guard(|| match X::decode(&mut r) {
        Ok(v) => json!({"st": "ok", "v": v.sh(), "rest": r.remaining()}),
        Err(e) => {
            let _ = e.to_string();
            let e = match e {
                E::InsufficientData => json!(["InsufficientData"]),
                E::DecodeInt(_) => json!(["DecodeInt"]),
                E::NonUtf8(_) => json!(["NonUtf8"]),
                E::MissingField { id, name } => json!(["MissingField", digits(id.into()), name.unwrap_or("")]),
                E::UnknownVariant(id) => json!(["UnknownVariant", digits(id.into())]),
                E::UnknownEncoding(x) => json!(["UnknownEncoding", digits(x.into())]),
                E::Zero => json!(["Zero"]),
            };
            json!({"st": "err", "e": e})
        }
    })
}

fn run<X: Vv + Encode + Decode + Size>(q: &J, s: &mut St) -> J {
    match q["op"].as_str().unwrap() {
        "rt" => guard(|| {
            let x = X::mk(&q["v"]);
            let size = x.size();
            let mut w = Vec::new();
            x.encode(&mut w);
            let mut all = w.clone();
            all.extend(u8s(&q["tail"]));
            let mut r = &all[..];
            let out = dec::<X>(&mut r);
            json!({"v": x.sh(), "size": size, "bytes": w, "out": out})
        }),
        "dec" => {
            let b = u8s(&q["in"]);
            if let Some(c) = q["cuts"].as_array() {
                let c: Vec<usize> = c.iter().map(|x| x.as_u64().unwrap() as usize).collect();
                dec::<X>(&mut Pieces::new(&b, &c))
            } else {
                dec::<X>(&mut &b[..])
            }
        }
        // streams: encode appends, take decodes the next message from each open buffer
        "put" => guard(|| {
            let x = X::mk(&q["v"]);
            let n = s.w.len();
            x.encode(&mut s.w);
            json!({"v": x.sh(), "bytes": s.w[n..]})
        }),
        "take" => s.rs.iter_mut().map(|r| dec::<X>(r)).collect(),
        _ => json!({"st": "bad"}),
    }
}

#[derive(Default)]
struct St {
    w: Vec<u8>,
    rs: Vec<Pieces>,
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let out = std::io::stdout();
    let mut st = St::default();
    for line in std::io::stdin().lock().lines() {
        let q: J = serde_json::from_str(&line.unwrap()).unwrap();
        let r = match q["op"].as_str().unwrap() {
            "new" => {
                st = St::default();
                json!({})
            }
            "open" => {
                st.rs = q["cuts"].as_array().unwrap().iter()
                    .map(|c| Pieces::new(&st.w, &c.as_array().unwrap().iter()
                        .map(|x| x.as_u64().unwrap() as usize).collect::<Vec<_>>()))
                    .collect();
                json!({})
            }
            _ => {
                let t = q["t"].as_u64().unwrap();
                guard(|| dispatch(t, &q, &mut st))
            }
        };
        let mut o = out.lock();
        writeln!(o, "{r}").unwrap();
        o.flush().unwrap();
    }
}
