//! The specification: enc(v) = marker byte of (type, number of payload bytes), then the payload, big-endian and minimal.
//! * encode: appends exactly enc(v) to whatever the buffer holds, as many bytes as `byte_size` announces;
//! * decode: given enc(v) followed by anything, returns v and consumes exactly enc(v) (one harness per number of payload
//!   bytes: the marker is then a constant and the payload arbitrary);
//! * conversion: the decoded dynamic value converts to exactly the native one.
//! Round-trip of every value is the composition of the three; tuples and arrays are sequences.
use svm_abi_decoder::{CallData, Cursor, Decoder};
use svm_abi_encoder::{ByteSize, Encoder};
use svm_sdk_std::{Option as SOption, Result as SResult, Vec as SVec};
use svm_sdk_types::value::{Composite, Primitive, Value};
use svm_sdk_types::{Address, Amount};

/// Number of payload bytes of an unsigned magnitude.
fn width(v: u64) -> usize {
    if v < 1 << 8 { 1 }
    else if v < 1 << 16 { 2 }
    else if v < 1 << 24 { 3 }
    else if v < 1 << 32 { 4 }
    else if v < 1 << 40 { 5 }
    else if v < 1 << 48 { 6 }
    else if v < 1 << 56 { 7 }
    else { 8 }
}

fn encode<T: Encoder + ByteSize>(v: &T, before: u8) -> SVec<u8> {
    let n = v.byte_size();
    assert!(n <= T::max_byte_size(), "POST the announced size is at most the announced maximum");
    let mut w: SVec<u8> = SVec::with_capacity(64);
    w.push(before);
    v.encode(&mut w);
    assert!(w.len() == n + 1, "POST as many bytes are appended as announced");
    assert!(w.as_slice()[0] == before, "POST what was written before is kept");
    w
}

macro_rules! enc_int {
    ($name:ident, $v:ident: $t:ty, $mag:expr, $val:expr, $max:expr, $base:expr) => {
        #[kani::proof]
        #[kani::unwind(10)]
        fn $name() {
            let $v: $t = kani::any();
            let val = $val;
            let w = encode(&val, kani::any());
            let p = width($mag);
            assert!(val.byte_size() == 1 + p, "POST the size is minimal");
            let s = w.as_slice();
            assert!(s[1] == ($base | (((p - 1) as u8) << 4)), "POST the marker is the documented one");
            let k: usize = kani::any();
            kani::assume(k < p);
            kani::cover!(p == $max, "REACHED");
            assert!(s[2 + k] == (($mag >> (8 * (p - 1 - k))) & 0xff) as u8, "POST the payload is big-endian");
        }
    };
}
enc_int!(encode_i8, v: i8, v as u8 as u64, v, 1, 0b0_000_0010u8);
enc_int!(encode_u8, v: u8, v as u64, v, 1, 0b0_001_0010u8);
enc_int!(encode_i16, v: i16, v as u16 as u64, v, 2, 0b0_010_0010u8);
enc_int!(encode_u16, v: u16, v as u64, v, 2, 0b0_100_0010u8);
enc_int!(encode_i32, v: i32, v as u32 as u64, v, 4, 0b0_000_0011u8);
enc_int!(encode_u32, v: u32, v as u64, v, 4, 0b0_100_0011u8);
enc_int!(encode_i64, v: i64, v as u64, v, 8, 0b0_000_0100u8);
enc_int!(encode_u64, v: u64, v, v, 8, 0b0_000_0101u8);
enc_int!(encode_amount, v: u64, v, Amount(v), 8, 0b0_000_0001u8);

#[kani::proof]
#[kani::unwind(10)]
fn encode_maxima() {
    assert!(i8::max_byte_size() == 2 && u8::max_byte_size() == 2, "POST the maximum is that of the type");
    assert!(i16::max_byte_size() == 3 && u16::max_byte_size() == 3, "POST the maximum is that of the type");
    assert!(i32::max_byte_size() == 5 && u32::max_byte_size() == 5, "POST the maximum is that of the type");
    assert!(i64::max_byte_size() == 9 && u64::max_byte_size() == 9, "POST the maximum is that of the type");
    assert!(Amount::max_byte_size() == 9 && Address::max_byte_size() == 21, "POST the maximum is that of the type");
    assert!(bool::max_byte_size() == 1 && <()>::max_byte_size() == 1, "POST the maximum is that of the type");
    assert!(SOption::<u64>::max_byte_size() == 9 && SOption::<bool>::max_byte_size() == 1, "POST the maximum is that of the type");
    assert!(<[u16; 10]>::max_byte_size() == 31 && <[bool; 1]>::max_byte_size() == 2, "POST the maximum is that of the type");
    kani::cover!(true, "REACHED");
}

#[kani::proof]
#[kani::unwind(10)]
fn encode_others() {
    let v: bool = kani::any();
    let w = encode(&v, kani::any());
    assert!(w.len() == 2 && w.as_slice()[1] == if v { 0x10 } else { 0 }, "POST the documented bytes");
    kani::cover!(v, "REACHED");
    let w = encode(&(), kani::any());
    assert!(w.len() == 2 && w.as_slice()[1] == 0x30, "POST the documented bytes");
    let w = encode(&SOption::<u64>::None, kani::any());
    assert!(w.len() == 2 && w.as_slice()[1] == 0x20, "POST the documented bytes");
    let x: u16 = kani::any();
    let w = encode(&x, 7);
    let o = encode(&SOption::Some(x), 7);
    assert!(w.len() == o.len(), "POST a present optional value is encoded as the value");
    let k: usize = kani::any();
    kani::assume(k < w.len());
    assert!(w.as_slice()[k] == o.as_slice()[k], "POST a present optional value is encoded as the value");
}

#[kani::proof]
#[kani::unwind(22)]
fn encode_address() {
    let bytes: [u8; 20] = kani::any();
    let v: Address = (&bytes as *const u8).into();
    let w = encode(&v, kani::any());
    assert!(w.len() == 22 && w.as_slice()[1] == 0x40, "POST the documented bytes");
    let k: usize = kani::any();
    kani::assume(k < 20);
    kani::cover!(true, "REACHED");
    assert!(w.as_slice()[2 + k] == bytes[k], "POST the bytes of the address in order");
}

/// Decodes `BUF` up to its last byte, which must be left.
fn decode<const N: usize>(buf: &[u8; N]) -> Value {
    let mut c = Cursor::new(&buf[..]);
    let v = match Decoder::new().decode_value(&mut c) {
        SResult::Ok(v) => v,
        SResult::Err(_) => { assert!(false, "POST a value is decoded"); loop {} }
    };
    assert!(!c.is_eof(), "POST decoding consumes no more than the encoding");
    let _ = c.read_byte();
    assert!(c.is_eof(), "POST decoding consumes all of the encoding");
    v
}

macro_rules! dec_int {
    ($name:ident, $t:ty, $u:ty, $base:expr, $var:ident, $get:expr, $($p:expr),*) => {
        #[kani::proof]
        #[kani::unwind(10)]
        fn $name() {
            $({
                let mut buf: [u8; $p + 2] = kani::any();
                buf[0] = $base | (($p as u8 - 1) << 4);
                let mut mag: u64 = 0;
                let mut i = 0;
                while i < $p { mag = (mag << 8) | buf[1 + i] as u64; i += 1; }
                match decode(&buf) {
                    Value::Primitive(Primitive::$var(x)) => {
                        kani::cover!(true, "REACHED");
                        let get: fn($t) -> u64 = $get;
                        assert!(get(x) == mag, "POST the decoded number is the encoded one");
                    }
                    _ => assert!(false, "POST the decoded type is the encoded one"),
                }
            })*
        }
    };
}
dec_int!(decode_i8, i8, u8, 0b0_000_0010u8, I8, |x| x as u8 as u64, 1);
dec_int!(decode_u8, u8, u8, 0b0_001_0010u8, U8, |x| x as u64, 1);
dec_int!(decode_i16, i16, u16, 0b0_010_0010u8, I16, |x| x as u16 as u64, 1, 2);
dec_int!(decode_u16, u16, u16, 0b0_100_0010u8, U16, |x| x as u64, 1, 2);
dec_int!(decode_i32, i32, u32, 0b0_000_0011u8, I32, |x| x as u32 as u64, 1, 2, 3, 4);
dec_int!(decode_u32, u32, u32, 0b0_100_0011u8, U32, |x| x as u64, 1, 2, 3, 4);
dec_int!(decode_i64, i64, u64, 0b0_000_0100u8, I64, |x| x as u64, 1, 2, 3, 4, 5, 6, 7, 8);
dec_int!(decode_u64, u64, u64, 0b0_000_0101u8, U64, |x| x, 1, 2, 3, 4, 5, 6, 7, 8);
dec_int!(decode_amount, Amount, u64, 0b0_000_0001u8, Amount, |x| x.0, 1, 2, 3, 4, 5, 6, 7, 8);

#[kani::proof]
#[kani::unwind(22)]
fn decode_others() {
    let tail: u8 = kani::any();
    match decode(&[0x10, tail]) { Value::Primitive(Primitive::Bool(true)) => {}, _ => assert!(false, "POST true") }
    match decode(&[0x00, tail]) { Value::Primitive(Primitive::Bool(false)) => {}, _ => assert!(false, "POST false") }
    match decode(&[0x20, tail]) { Value::Primitive(Primitive::None) => {}, _ => assert!(false, "POST none") }
    match decode(&[0x30, tail]) { Value::Primitive(Primitive::Unit) => {}, _ => assert!(false, "POST unit") }
    kani::cover!(true, "REACHED");
    let mut buf: [u8; 22] = kani::any();
    buf[0] = 0x40;
    match decode(&buf) {
        Value::Primitive(Primitive::Address(x)) => {
            let k: usize = kani::any();
            kani::assume(k < 20);
            assert!(x.as_slice()[k] == buf[1 + k], "POST the decoded address is the encoded one");
        }
        _ => assert!(false, "POST the decoded type is the encoded one"),
    }
}

macro_rules! conv {
    ($($t:ty),*) => {
        #[kani::proof]
        #[kani::unwind(3)]
        fn conversions() {
            $({
                let v: $t = kani::any();
                let x: $t = Value::from(v).into();
                assert!(x == v, "POST a value converts back to itself");
                let y: SOption<$t> = Value::from(v).into();
                assert!(y == SOption::Some(v), "POST a value converts to itself, present");
                let z: SOption<$t> = Value::none().into();
                assert!(z == SOption::None, "POST none converts to none");
            })*
            let v: u64 = kani::any();
            let x: Amount = Value::from(Amount(v)).into();
            assert!(x.0 == v, "POST an amount converts back to itself");
            let y: SOption<Amount> = Value::from(Amount(v)).into();
            assert!(y == SOption::Some(Amount(v)), "POST an amount converts to itself, present");
            kani::cover!(true, "REACHED");
        }
    };
}
conv!(bool, i8, u8, i16, u16, i32, u32, i64, u64);

macro_rules! array {
    ($enc:ident, $dec:ident, $nat:ident, $n:expr, $marker:expr) => {
        #[kani::proof]
        #[kani::unwind(12)]
        fn $enc() {
            let v: [u8; $n] = kani::any();
            let w = encode(&v, 0);
            let s = w.as_slice();
            assert!(s.len() == 2 + 2 * $n && s[1] == $marker, "POST the documented bytes");
            let k: usize = kani::any();
            kani::assume(k < $n);
            kani::cover!(true, "REACHED");
            assert!(s[2 + 2 * k] == 0x12 && s[3 + 2 * k] == v[k], "POST the items in order");
        }
        #[kani::proof]
        #[kani::unwind(12)]
        fn $dec() {
            let v: [u8; $n] = kani::any();
            let k: usize = kani::any();
            kani::assume(k < $n);
            let mut buf = [0u8; 2 * $n + 2];
            buf[0] = $marker;
            let mut i = 0;
            while i < $n { buf[1 + 2 * i] = 0x12; buf[2 + 2 * i] = v[i]; i += 1; }
            match decode(&buf) {
                Value::Composite(Composite::Vec(items)) => {
                    kani::cover!(true, "REACHED");
                    assert!(items.len() == $n, "POST as many items are decoded");
                    match items.as_slice()[k] {
                        Value::Primitive(Primitive::U8(x)) => assert!(x == v[k], "POST the decoded items are the encoded ones"),
                        _ => assert!(false, "POST the decoded type is the encoded one"),
                    }
                }
                _ => assert!(false, "POST the decoded type is the encoded one"),
            }
        }
        #[kani::proof]
        #[kani::unwind(12)]
        fn $nat() {
            let v: [u16; $n] = kani::any();
            let k: usize = kani::any();
            kani::assume(k < $n);
            let mut items: SVec<Value> = SVec::with_capacity($n);
            let mut i = 0;
            while i < $n { items.push(v[i].into()); i += 1; }
            let x: [u16; $n] = Value::from(items).into();
            kani::cover!(true, "REACHED");
            assert!(x[k] == v[k], "POST the native items are the decoded ones");
        }
    };
}
array!(enc_array_1, dec_array_1, nat_array_1, 1, 0x16);
array!(enc_array_2, dec_array_2, nat_array_2, 2, 0x26);
array!(enc_array_3, dec_array_3, nat_array_3, 3, 0x36);
array!(enc_array_4, dec_array_4, nat_array_4, 4, 0x46);
array!(enc_array_5, dec_array_5, nat_array_5, 5, 0x56);
array!(enc_array_6, dec_array_6, nat_array_6, 6, 0x66);
array!(enc_array_7, dec_array_7, nat_array_7, 7, 0x76);
array!(enc_array_8, dec_array_8, nat_array_8, 8, 0x7);
array!(enc_array_9, dec_array_9, nat_array_9, 9, 0x17);
array!(enc_array_10, dec_array_10, nat_array_10, 10, 0x27);

macro_rules! tuple {
    ($name:ident, $next:ident, $n:expr, $($v:ident),*) => {
        #[kani::proof]
        #[kani::unwind(16)]
        fn $name() {
            $( let $v: u8 = kani::any(); )*
            let t = ($($v,)*);
            let w = encode(&t, 0);
            assert!(t.byte_size() == 2 * $n && <($(u8!($v),)*)>::max_byte_size() == 2 * $n, "POST the size of a tuple is the sum of its parts");
            let vals = [$($v),*];
            let k: usize = kani::any();
            kani::assume(k < $n);
            assert!(w.as_slice()[1 + 2 * k] == 0x12 && w.as_slice()[2 + 2 * k] == vals[k], "POST the values in order");
            let mut buf = [0u8; 2 * $n];
            let mut i = 0;
            while i < $n { buf[2 * i] = 0x12; buf[1 + 2 * i] = vals[i]; i += 1; }
            let mut cd = CallData::new(&buf);
            let x: ($(u8!($v),)*) = cd.$next();
            kani::cover!(true, "REACHED");
            assert!(x == t, "POST the values come back in order");
            match cd.next() { SOption::None => {}, _ => assert!(false, "POST nothing is left") }
        }
    };
}
macro_rules! u8 { ($v:ident) => { u8 }; }
tuple!(tuple_2, next_2, 2, a, b);
tuple!(tuple_3, next_3, 3, a, b, c);
tuple!(tuple_4, next_4, 4, a, b, c, d);
tuple!(tuple_5, next_5, 5, a, b, c, d, e);
tuple!(tuple_6, next_6, 6, a, b, c, d, e, f);
