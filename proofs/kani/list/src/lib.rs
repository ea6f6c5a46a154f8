//! Contracts of the fixed-capacity list and of short strings. A list is any `len <= cap` items in a block of `cap` items; `cap` is
//! arbitrary from 1 up to MAX.
#![feature(core_intrinsics)]
#![allow(internal_features)]
#![cfg(kani)]
use svm_sdk_std::Vec as SVec;

const MAX: usize = 1 << 24;

/// Any list: arbitrary capacity, length and contents.
fn any_list<T>() -> (SVec<T>, usize, usize, *mut T) {
    let cap: usize = kani::any();
    let len: usize = kani::any();
    kani::assume(0 < cap && cap <= MAX && len <= cap);
    let base: SVec<T> = SVec::with_capacity(cap);
    assert!(base.len() == 0 && base.capacity() == cap && base.is_empty(), "POST a new list is empty and has its capacity");
    let p = base.verif_ptr();
    (unsafe { SVec::verif_from_parts(p, len, cap) }, len, cap, p)
}

macro_rules! list {
    ($t:ty, $push:ident, $push_full:ident, $pop:ident, $read:ident, $other:ident) => {
        /// requires len < cap; ensures the item is appended, the others and the capacity are kept
        #[kani::proof]
        #[kani::unwind(2)]
        fn $push() {
            let (mut v, len, cap, p) = any_list::<$t>();
            kani::assume(len < cap);
            let k: usize = kani::any();
            kani::assume(k < len);
            let old: $t = kani::any();
            unsafe { *p.add(k) = old };
            let x: $t = kani::any();
            v.push(x);
            kani::cover!(true, "REACHED");
            assert!(v.len() == len + 1 && v.capacity() == cap && !v.is_empty(), "POST one more item, same capacity");
            assert!(v.as_slice()[len] == x, "POST the item pushed is the last");
            assert!(v.as_slice()[k] == old, "POST the other items are kept");
            assert!(v.as_slice().len() == len + 1, "POST the slice has all items");
        }
        /// requires len == cap; ensures it never returns
        #[kani::proof]
        #[kani::unwind(2)]
        fn $push_full() {
            let (mut v, len, cap, _p) = any_list::<$t>();
            kani::assume(len == cap);
            kani::cover!(true, "REACHED");
            v.push(kani::any());
            assert!(false, "POST a push beyond the capacity aborts");
        }
        /// ensures: aborts when empty; else the last item is returned and the others are kept
        #[kani::proof]
        #[kani::unwind(2)]
        fn $pop() {
            let (mut v, len, cap, p) = any_list::<$t>();
            let k: usize = kani::any();
            let last: $t = kani::any();
            let old: $t = kani::any();
            if len > 0 {
                unsafe { *p.add(len - 1) = last };
            }
            if len > 1 {
                kani::assume(k < len - 1);
                unsafe { *p.add(k) = old };
            }
            let x = v.pop();
            kani::cover!(len > 1, "REACHED");
            assert!(len > 0, "POST popping an empty list aborts");
            assert!(x == last, "POST the last item is returned");
            assert!(v.len() == len - 1 && v.capacity() == cap, "POST one item less, same capacity");
            if len > 1 {
                assert!(v.as_slice()[k] == old, "POST the other items are kept");
            }
        }
        /// ensures: all ways of reading agree on item k, for every k < len
        #[kani::proof]
        #[kani::unwind(2)]
        fn $read() {
            let (mut v, len, _cap, p) = any_list::<$t>();
            let k: usize = kani::any();
            kani::assume(k < len);
            let old: $t = kani::any();
            unsafe { *p.add(k) = old };
            assert!(v.as_slice()[k] == old && v[k] == old && v.as_mut()[k] == old, "POST reads return the item");
            assert!(v.as_slice().len() == len && v.as_mut().len() == len, "POST slices have len items");
            let new: $t = kani::any();
            v[k] = new;
            kani::cover!(true, "REACHED");
            assert!(v.as_slice()[k] == new && v.len() == len, "POST an overwritten item is returned");
            let j: usize = kani::any();
            kani::assume(j < len && j != k);
            let other: $t = kani::any();
            unsafe { *p.add(j) = other };
            v.as_mut()[k] = old;
            assert!(v.as_slice()[j] == other, "POST overwriting one item keeps the others");
        }
        /// clear, leak, and the first steps of both iterators
        #[kani::proof]
        #[kani::unwind(4)]
        fn $other() {
            let (mut v, len, cap, p) = any_list::<$t>();
            let (a, b): ($t, $t) = (kani::any(), kani::any());
            if len > 0 { unsafe { *p = a }; }
            if len > 1 { unsafe { *p.add(1) = b }; }
            {
                let mut it = v.iter();
                let x = it.next();
                assert!(x.is_some() == (len > 0) && (len == 0 || *x.unwrap() == a), "POST iteration gives the first item");
                let y = it.next();
                assert!(y.is_some() == (len > 1) && (len <= 1 || *y.unwrap() == b), "POST iteration gives the second item");
            }
            let way: u8 = kani::any();
            kani::cover!(way == 0 && len > 1, "REACHED");
            if way == 0 {
                let mut it = v.into_iter();
                let x = it.next();
                assert!(x.is_some() == (len > 0) && (len == 0 || x.unwrap() == a), "POST consuming iteration gives the first item");
                let y = it.next();
                assert!(y.is_some() == (len > 1) && (len <= 1 || y.unwrap() == b), "POST consuming iteration gives the second item");
            } else if way == 1 {
                let s = v.leak();
                assert!(s.len() == len && (len == 0 || s[0] == a), "POST leaking gives the items");
            } else {
                v.clear();
                assert!(v.len() == 0 && v.is_empty() && v.capacity() == cap, "POST clearing empties the list and keeps its capacity");
            }
        }
    };
}
list!(u8, push_u8, push_full_u8, pop_u8, read_u8, other_u8);
list!(u16, push_u16, push_full_u16, pop_u16, read_u16, other_u16);

mod strings {
    use svm_sdk_std::{DecDigit, HexDigit, String as SString, StringBuilder, ToString as _};

    /// ensures: exactly the bytes, or abort when one isn't ASCII
    #[kani::proof]
    #[kani::unwind(10)]
    fn short_strings() {
        let data: [u8; 8] = kani::any();
        let n: usize = kani::any();
        kani::assume(n <= 8);
        let s = SString::new_short(&data[..n]);
        let k: usize = kani::any();
        kani::cover!(n == 8, "REACHED");
        assert!(s.as_bytes().len() == n, "POST as many bytes");
        if k < n {
            assert!(s.as_bytes()[k] == data[k], "POST the same bytes");
            assert!(data[k] < 128, "POST a non-ASCII byte aborts");
        }
    }

    #[kani::proof]
    #[kani::unwind(10)]
    fn bytes_and_digits() {
        let b: u8 = kani::any();
        if b < 10 {
            let s = DecDigit(b).to_string();
            assert!(s.as_bytes().len() == 1 && s.as_bytes()[0] == b'0' + b, "POST the decimal digit");
        }
        if b < 16 {
            let s = HexDigit(b).to_string();
            assert!(s.as_bytes().len() == 1 && s.as_bytes()[0] == b"0123456789ABCDEF"[b as usize], "POST the hex digit");
        }
        kani::cover!(b == 15, "REACHED");
        let s = SString::from_byte(b);
        assert!(s.as_bytes().len() == 1 && s.as_bytes()[0] == b, "POST the byte");
        assert!(b < 128, "POST a non-ASCII byte aborts");
    }

    /// requires: ASCII; ensures: returns
    #[kani::proof]
    #[kani::unwind(10)]
    fn short_strings_total() {
        let data: [u8; 8] = kani::any();
        let n: usize = kani::any();
        kani::assume(n <= 8);
        let mut i = 0;
        while i < 8 { kani::assume(data[i] < 128); i += 1; }
        let s = SString::new_short(&data[..n]);
        kani::cover!(n == 8, "REACHED");
        assert!(s.as_bytes().len() == n, "POST as many bytes");
    }
}
