use svm_abi_decoder::CallData;
use svm_abi_encoder::{ByteSize, Encoder};
use svm_sdk_std::{Option as SOption, Vec as SVec};
use svm_sdk_types::value::Value;
use svm_sdk_types::{Address, Amount};
use vcommon::{check, panics, trace, Rng};

pub trait Val: Encoder + ByteSize + From<Value> + Clone + PartialEq + std::fmt::Debug {
    fn gen(rng: &mut Rng) -> Self;
    /// The documented encoding.
    fn want(&self) -> Vec<u8>;
    /// Bytes of the largest encoding.
    fn largest() -> usize;
}

fn minimal(v: u64) -> Vec<u8> {
    let b = v.to_be_bytes();
    let skip = b.iter().take(7).take_while(|x| **x == 0).count();
    b[skip..].to_vec()
}

macro_rules! int {
    ($t:ty, $u:ty, $base:expr) => {
        impl Val for $t {
            fn gen(rng: &mut Rng) -> Self { let v = rng.edge(); if rng.chance(1, 4) { (v as $t).wrapping_neg() } else { v as $t } }
            fn want(&self) -> Vec<u8> {
                let p = minimal(*self as $u as u64);
                let mut out = vec![$base | (((p.len() - 1) as u8) << 4)];
                out.extend(p);
                out
            }
            fn largest() -> usize { 1 + std::mem::size_of::<$t>() }
        }
    };
}
int!(i8, u8, 0b0_000_0010u8);
int!(u8, u8, 0b0_001_0010u8);
int!(i16, u16, 0b0_010_0010u8);
int!(u16, u16, 0b0_100_0010u8);
int!(i32, u32, 0b0_000_0011u8);
int!(u32, u32, 0b0_100_0011u8);
int!(i64, u64, 0b0_000_0100u8);
int!(u64, u64, 0b0_000_0101u8);

impl Val for bool {
    fn gen(rng: &mut Rng) -> Self { rng.chance(1, 2) }
    fn want(&self) -> Vec<u8> { vec![if *self { 0x10 } else { 0 }] }
    fn largest() -> usize { 1 }
}
impl Val for () {
    fn gen(_: &mut Rng) -> Self {}
    fn want(&self) -> Vec<u8> { vec![0x30] }
    fn largest() -> usize { 1 }
}
impl Val for Amount {
    fn gen(rng: &mut Rng) -> Self { Amount(rng.edge()) }
    fn want(&self) -> Vec<u8> {
        let p = minimal(self.0);
        let mut out = vec![1 | (((p.len() - 1) as u8) << 4)];
        out.extend(p);
        out
    }
    fn largest() -> usize { 9 }
}
impl Val for Address {
    fn gen(rng: &mut Rng) -> Self { let mut a = [0; 20]; a.copy_from_slice(&rng.bytes(20)); a.into() }
    fn want(&self) -> Vec<u8> { let mut v = vec![0x40]; v.extend(self.as_slice()); v }
    fn largest() -> usize { 21 }
}
macro_rules! opt {
    ($($t:ty),*) => {$(
        impl Val for SOption<$t> {
            fn gen(rng: &mut Rng) -> Self { if rng.chance(1, 3) { SOption::None } else { SOption::Some(<$t>::gen(rng)) } }
            fn want(&self) -> Vec<u8> { match self { SOption::None => vec![0x20], SOption::Some(v) => v.want() } }
            fn largest() -> usize { <$t>::largest() }
        }
    )*};
}
opt!(bool, Amount, Address, i8, u8, i16, u16, i32, u32, i64, u64);

macro_rules! arr {
    ($($n:expr),*) => {$( arr!(@ $n => bool Amount Address i8 u8 i16 u16 i32 u32 i64 u64); )*};
    (@ $n:expr => $($t:ty)*) => {$(
        impl Val for [$t; $n] {
            fn gen(rng: &mut Rng) -> Self { std::array::from_fn::<_, _, $n>(|_| <$t>::gen(rng)) }
            fn want(&self) -> Vec<u8> {
                let mut v = vec![array_marker($n)];
                for x in self { v.extend(x.want()); }
                v
            }
            fn largest() -> usize { 1 + $n * <$t>::largest() }
        }
    )*};
}
arr!(1, 2, 3, 4, 5, 6, 7, 8, 9, 10);

fn encode<T: Encoder + ByteSize>(v: &T) -> Result<Vec<u8>, String> {
    let n = v.byte_size();
    check!(n <= T::max_byte_size(), "announced size {n} exceeds the announced maximum {}", T::max_byte_size());
    // capacity exactly as announced: writing more aborts
    let mut w: SVec<u8> = SVec::with_capacity(n);
    if let Err(e) = panics(|| v.encode(&mut w)) {
        return Err(format!("encoding within the announced {n} bytes aborted: {e}"));
    }
    check!(w.len() == n, "announced {n} bytes but wrote {}", w.len());
    Ok(w.as_slice().to_vec())
}

fn check_one<T: Val>(v: &T) -> Result<(), String> {
    trace(format!("{} = {v:?}", std::any::type_name::<T>()));
    let bytes = encode(v)?;
    check!(bytes == v.want(), "{v:?} is encoded as {bytes:02x?} instead of {:02x?}", v.want());
    check!(T::max_byte_size() == T::largest(), "the announced maximum is {} instead of {}", T::max_byte_size(), T::largest());
    let w = encode(&(v.clone(),))?;
    check!(w == bytes, "a tuple of one value is encoded differently");
    let mut cd = CallData::new(&bytes);
    let got: T = panics(|| cd.next_1()).map_err(|e| format!("{v:?} can't be decoded: {e}"))?;
    check!(&got == v, "{v:?} is decoded as {got:?}");
    check!(panics(|| cd.next() == SOption::None) == Ok(true), "bytes are left after decoding {v:?}");
    // the dynamically typed value is the same one
    let val = CallData::new(&bytes).next();
    let val = match val { SOption::Some(v) => v, SOption::None => return Err("no value".into()) };
    let mut w = SVec::with_capacity(bytes.len());
    if let Err(e) = panics(|| val.encode(&mut w)) {
        return Err(format!("encoding the decoded value of {v:?} aborted: {e}"));
    }
    check!(w.as_slice() == &bytes[..], "the decoded value of {v:?} is encoded as {:02x?}", w.as_slice());
    Ok(())
}

fn one<T: Val>(rng: &mut Rng) -> Result<u64, String> {
    let v = T::gen(rng);
    check_one(&v)?;
    Ok(8)
}

macro_rules! table { ($($t:ty),* $(,)?) => { &[$(one::<$t> as fn(&mut Rng) -> Result<u64, String>),*] }; }

pub fn singles(i: u64, rng: &mut Rng) -> Result<u64, String> {
    let t: &[fn(&mut Rng) -> Result<u64, String>] = table![bool, (), Amount, Address, i8, u8, i16, u16, i32, u32, i64, u64,
        SOption<bool>, SOption<Amount>, SOption<Address>, SOption<i8>, SOption<u8>, SOption<i16>, SOption<u16>, SOption<i32>,
        SOption<u32>, SOption<i64>, SOption<u64>];
    t[i as usize % t.len()](rng)
}

macro_rules! atable { ($($n:expr),*) => { &[$(table![[bool; $n], [Amount; $n], [Address; $n], [i8; $n], [u8; $n], [i16; $n], [u16; $n],
    [i32; $n], [u32; $n], [i64; $n], [u64; $n]]),*] }; }

pub fn arrays(i: u64, rng: &mut Rng) -> Result<u64, String> {
    let t: &[&[fn(&mut Rng) -> Result<u64, String>]] = atable!(1, 2, 3, 4, 5, 6, 7, 8, 9, 10);
    let row = t[i as usize % t.len()];
    row[rng.usize(row.len())](rng)
}

pub fn exhaustive16(i: u64, _rng: &mut Rng) -> Result<u64, String> {
    let v = i as u16;
    check_one(&v)?;
    check_one(&(v as i16))?;
    if v < 256 {
        check_one(&(v as u8))?;
        check_one(&(v as u8 as i8))?;
    }
    Ok(16)
}

/// Tuples of values whose types are drawn per case.
macro_rules! tuple {
    ($go:ident, $next:ident, $($t:ident)*) => {
        #[allow(non_snake_case)]
        fn $go<$($t: Val),*>(rng: &mut Rng) -> Result<u64, String> {
            $( let $t = $t::gen(rng); )*
            $( trace(format!("{} = {:?}", std::any::type_name::<$t>(), $t)); )*
            let t = ($($t.clone(),)*);
            let bytes = encode(&t)?;
            let mut want: Vec<u8> = vec![];
            $( want.extend($t.want()); )*
            check!(bytes == want, "the tuple is encoded as {bytes:02x?} instead of {want:02x?}");
            let max = 0 $( + $t::largest() )*;
            check!(<($($t,)*)>::max_byte_size() == max, "the announced maximum of a tuple isn't {max}");
            let mut cd = CallData::new(&bytes);
            let got: Result<($($t,)*), String> = panics(|| cd.$next::<$($t),*>()).map(|x| tup(x));
            let got = got.map_err(|e| format!("the tuple can't be decoded: {e}"))?;
            check!(got == t, "{t:?} is decoded as {got:?}");
            check!(panics(|| cd.next() == SOption::None) == Ok(true), "bytes are left after decoding {t:?}");
            // one by one, too
            let mut cd = CallData::new(&bytes);
            $( let v: $t = panics(|| cd.next_1()).map_err(|e| format!("can't decode one by one: {e}"))?;
               check!(v == $t, "{:?} is decoded as {v:?}", $t); )*
            Ok(6)
        }
    };
}
tuple!(tuple2, next_2, A B);
tuple!(tuple3, next_3, A B C);
tuple!(tuple4, next_4, A B C D);
tuple!(tuple5, next_5, A B C D E);
tuple!(tuple6, next_6, A B C D E G);
fn tup<T>(x: T) -> T { x }

type F = fn(&mut Rng) -> Result<u64, String>;

pub fn tuples(i: u64, rng: &mut Rng) -> Result<u64, String> {
    type O<T> = SOption<T>;
    let t: Vec<F> = vec![
        tuple2::<u8, i64>,
        tuple2::<Address, O<Amount>>,
        tuple2::<[u16; 9], bool>,
        tuple2::<(), O<i16>>,
        tuple3::<i32, [Address; 3], u64>,
        tuple3::<O<Address>, Amount, i8>,
        tuple3::<[bool; 10], (), [i64; 8]>,
        tuple4::<i16, u16, [i8; 1], O<u64>>,
        tuple4::<Amount, Amount, Address, bool>,
        tuple4::<u32, O<u32>, [u32; 2], i32>,
        tuple5::<i8, i16, i32, i64, O<bool>>,
        tuple5::<u64, [Amount; 4], (), Address, u8>,
        tuple6::<u8, u16, u32, u64, Amount, Address>,
        tuple6::<O<i8>, O<u16>, [i16; 7], bool, i64, ()>,
        tuple6::<i64, i32, i16, i8, O<Address>, [u8; 6]>,
    ];
    t[i as usize % t.len()](rng)
}

fn array_marker(n: u8) -> u8 {
    if n < 8 { 6 | (n << 4) } else { 7 | ((n - 8) << 4) }
}
