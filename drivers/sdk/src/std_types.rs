use svm_sdk_std::{DecDigit, HexDigit, String as SString, StringBuilder, ToString as SToString, Vec as SVec};
use svm_sdk_types::{Address, Amount, LayerId};
use vcommon::{check, panics, trace, Rng};

trait Item: Clone + PartialEq + std::fmt::Debug + 'static {
    fn gen(rng: &mut Rng) -> Self;
}
impl Item for u8 {
    fn gen(rng: &mut Rng) -> u8 { rng.u64() as u8 }
}
impl Item for u16 {
    fn gen(rng: &mut Rng) -> u16 { rng.u64() as u16 }
}
impl Item for u64 {
    fn gen(rng: &mut Rng) -> u64 { rng.edge() }
}
impl Item for [u8; 24] {
    fn gen(rng: &mut Rng) -> [u8; 24] { let mut a = [0; 24]; a.copy_from_slice(&rng.bytes(24)); a }
}
impl Item for (u8, u64) {
    fn gen(rng: &mut Rng) -> (u8, u64) { (rng.u64() as u8, rng.edge()) }
}

fn compare<T: Item>(list: &SVec<T>, model: &[T], cap: usize) -> Result<(), String> {
    check!(list.len() == model.len(), "length is {} instead of {}", list.len(), model.len());
    check!(list.capacity() == cap, "capacity is {} instead of {cap}", list.capacity());
    check!(list.is_empty() == model.is_empty(), "is_empty() is wrong");
    check!(list.as_slice() == model, "contents {:?} instead of {:?}", list.as_slice(), model);
    check!(&list[..] == model, "dereferenced contents {:?} instead of {:?}", &list[..], model);
    let it: Vec<T> = list.iter().cloned().collect();
    check!(it == model, "iteration gives {it:?} instead of {model:?}");
    Ok(())
}

fn run<T: Item>(rng: &mut Rng) -> Result<u64, String> {
    // several lists living side by side: nothing but the one operated on changes
    let n = 1 + rng.usize(3);
    let mut lists: Vec<(SVec<T>, Vec<T>, usize)> = vec![];
    for _ in 0..n {
        let cap = match rng.below(4) { 0 => rng.usize(3), 1 => 40 + rng.usize(300), _ => rng.usize(20) };
        lists.push((SVec::with_capacity(cap), vec![], cap));
        trace(format!("with_capacity({cap})"));
    }
    let steps = rng.usize(60);
    let mut checks = 0;
    for _ in 0..steps {
        let k = rng.usize(n);
        let (list, model, cap) = &mut lists[k];
        match rng.below(12) {
            0..=5 => {
                let reps = if rng.chance(1, 6) { *cap } else { 1 };
                for _ in 0..reps {
                    let v = T::gen(rng);
                    trace(format!("#{k} push {v:?}"));
                    let r = panics(|| list.push(v.clone()));
                    if model.len() < *cap {
                        check!(r.is_ok(), "push within capacity aborted");
                        model.push(v);
                    } else {
                        check!(r.is_err(), "push beyond the capacity {cap} didn't abort");
                    }
                }
            }
            6 | 7 => {
                trace(format!("#{k} pop"));
                let r = panics(|| list.pop());
                match model.pop() {
                    Some(v) => check!(r.as_ref().ok() == Some(&v), "pop gave {r:?} instead of {v:?}"),
                    None => check!(r.is_err(), "pop of an empty list gave {r:?}"),
                }
            }
            8 => {
                if rng.chance(1, 4) {
                    trace(format!("#{k} clear"));
                    list.clear();
                    model.clear();
                }
            }
            9 => {
                if !model.is_empty() {
                    let i = rng.usize(model.len());
                    let v = T::gen(rng);
                    trace(format!("#{k} [{i}] = {v:?}"));
                    if rng.chance(1, 2) { list.as_mut()[i] = v.clone(); } else { list[i] = v.clone(); }
                    model[i] = v;
                }
            }
            10 => {
                let i = model.len() + rng.usize(3);
                trace(format!("#{k} read [{i}]"));
                check!(panics(|| list[i].clone()).is_err(), "reading item {i} of {} didn't abort", model.len());
            }
            _ => {
                let mut it = list.iter();
                let taken = rng.usize(model.len() + 2);
                for j in 0..taken {
                    check!(it.next() == model.get(j), "iterator item {j} is wrong");
                }
            }
        }
        for (list, model, cap) in &lists {
            compare(list, model, *cap)?;
            checks += 1;
        }
    }
    if n >= 2 {
        check!((lists[0].0 == lists[1].0) == (lists[0].1 == lists[1].1), "comparing lists is wrong");
    }
    for (list, model, cap) in lists {
        compare(&list, &model, cap)?;
        if rng.chance(1, 2) {
            let mut out: Vec<T> = vec![];
            let mut it = list.into_iter();
            while let Some(x) = it.next() {
                out.push(x);
                check!(out.len() <= model.len(), "consuming iteration gives too many items");
            }
            check!(it.next().is_none(), "an exhausted iterator gave an item");
            check!(out == model, "consuming iteration gives {out:?} instead of {model:?}");
        } else {
            let s = list.leak();
            check!(s == &model[..], "leaked contents {s:?} instead of {model:?}");
        }
        checks += 1;
    }
    Ok(checks)
}

pub fn list(_i: u64, rng: &mut Rng) -> Result<u64, String> {
    run::<u8>(rng)
}

pub fn list_wide(i: u64, rng: &mut Rng) -> Result<u64, String> {
    match i % 4 {
        0 => run::<u64>(rng),
        1 => run::<u16>(rng),
        2 => run::<(u8, u64)>(rng),
        _ => run::<[u8; 24]>(rng),
    }
}

fn ts(x: &impl SToString) -> String {
    s(&SToString::to_string(x))
}

fn s(x: &SString) -> String {
    String::from_utf8_lossy(x.as_bytes()).into_owned()
}

pub fn ascii(rng: &mut Rng, n: usize) -> Vec<u8> {
    (0..n).map(|_| rng.below(128) as u8).collect()
}

fn mk(bytes: &[u8]) -> SString {
    let mut v = SVec::with_capacity(bytes.len());
    for b in bytes {
        v.push(*b);
    }
    unsafe { SString::new_unchecked(v) }
}

pub fn text(_i: u64, rng: &mut Rng) -> Result<u64, String> {
    let mut checks = 0;
    // short strings
    let n = rng.usize(9);
    let mut data = ascii(rng, n);
    let good = SString::new_short(&data);
    trace(format!("new_short({data:?})"));
    check!(good.as_bytes() == &data[..], "new_short({data:?}) holds {:?}", good.as_bytes());
    if n > 0 {
        let k = rng.usize(n);
        data[k] |= 0x80;
        check!(panics(|| SString::new_short(&data)).is_err(), "new_short accepted the non-ASCII {data:?}");
    }
    let b = rng.u64() as u8;
    let r = panics(|| SString::from_byte(b).as_bytes().to_vec());
    if b < 128 {
        check!(r == Ok(vec![b]), "from_byte({b}) gave {r:?}");
    } else {
        check!(r.is_err(), "from_byte({b}) gave {r:?}");
    }
    // unchecked strings of every length
    let n = if rng.chance(1, 2) { rng.usize(20) } else { rng.usize(300) };
    let raw = rng.bytes(n);
    check!(mk(&raw).as_bytes() == &raw[..], "new_unchecked of {} bytes alters them", raw.len());
    // builder
    let cap = match rng.below(3) { 0 => rng.usize(12), 1 => rng.usize(80), _ => 256 + rng.usize(1000) };
    let mut sb = StringBuilder::with_capacity(cap);
    trace(format!("StringBuilder::with_capacity({cap})"));
    let mut model: Vec<u8> = vec![];
    for _ in 0..rng.usize(8) {
        let n = match rng.below(4) { 0 => rng.usize(9), 1 => rng.usize(30), 2 => 250 + rng.usize(6), _ => rng.usize(256) };
        let piece = ascii(rng, n);
        if model.len() + n > cap {
            check!(panics(|| { let mut sb = sb; sb.push_str(&mk(&piece)); sb.build() }).is_err(),
                "pushing {n} bytes after {} didn't abort with capacity {cap}", model.len());
            return Ok(checks + 1);
        }
        trace(format!("push_str({n} bytes)"));
        sb.push_str(&mk(&piece));
        model.extend(&piece);
        checks += 1;
    }
    let built = sb.build();
    check!(built.as_bytes() == &model[..], "built {:?} instead of {:?}", built.as_bytes(), model);
    // too long, non-ascii
    let long = 256 + rng.usize(20);
    let long = ascii(rng, long);
    check!(panics(|| { let mut sb = StringBuilder::with_capacity(400); sb.push_str(&mk(&long)); s(&sb.build()) })
        .map_or(true, |x| x.as_bytes() == &long[..]), "a text of {} bytes was cut", long.len());
    let n = 1 + rng.usize(40);
    let mut bad = ascii(rng, n);
    bad[rng.usize(n)] |= 0x80;
    check!(panics(|| { let mut sb = StringBuilder::with_capacity(64); sb.push_str(&mk(&bad)); }).is_err(),
        "push_str accepted the non-ASCII {bad:?}");
    Ok(checks + 6)
}

pub fn numbers(_i: u64, rng: &mut Rng) -> Result<u64, String> {
    let v = match rng.below(3) {
        // around powers of ten
        0 => 10u64.pow(rng.below(20) as u32).wrapping_add(rng.below(3)).wrapping_sub(1),
        1 => rng.edge(),
        _ => rng.u64() / 10u64.pow(rng.below(20) as u32),
    };
    trace(format!("v = {v}"));
    macro_rules! same {
        ($($t:ty),*) => {$(
            let x = v as $t;
            let want = format!("{x}");
            check!(ts(&x) == want, "{} of {want} gives {:?}", stringify!($t), ts(&x));
        )*};
    }
    same!(u8, u16, u32, u64, i8, i16, i32, i64);
    let x = (v as i64).wrapping_neg();
    check!(ts(&x) == format!("{x}"), "i64 of {x} gives {:?}", ts(&x));
    check!(ts(&Amount(v)) == format!("{v} coins"), "Amount({v}) gives {:?}", ts(&Amount(v)));
    check!(ts(&LayerId(v)) == format!("[Layer {v}]"), "LayerId({v}) gives {:?}", ts(&LayerId(v)));
    let mut a = [0u8; 20];
    a.copy_from_slice(&rng.bytes(20));
    let want = format!("0x{}", a.iter().map(|b| format!("{b:02X}")).collect::<String>());
    let got = ts(&Address::from(a));
    check!(got == want, "address {want} gives {got:?}");
    check!(Address::from(a).as_slice() == &a[..], "address bytes differ");
    let mut b = a;
    b[rng.usize(20)] ^= 1 << rng.below(8);
    check!(Address::from(a) == Address::from(a) && Address::from(a) != Address::from(b), "comparing addresses is wrong");
    Ok(14)
}

pub fn small_numbers(i: u64, _rng: &mut Rng) -> Result<u64, String> {
    let v = i as u16;
    check!(ts(&v) == format!("{v}"), "u16 {v}");
    check!(ts(&(v as i16)) == format!("{}", v as i16), "i16 {}", v as i16);
    if v < 256 {
        check!(ts(&(v as u8)) == format!("{v}"), "u8 {v}");
        check!(ts(&(v as u8 as i8)) == format!("{}", v as u8 as i8), "i8 {}", v as u8 as i8);
        check!(ts(&Address::repeat(v as u8)) == format!("0x{}", format!("{v:02X}").repeat(20)), "address of {v}");
    }
    if v < 10 {
        check!(ts(&DecDigit(v as u8)) == format!("{v}"), "decimal digit {v}");
    }
    if v < 16 {
        check!(ts(&HexDigit(v as u8)) == format!("{v:X}"), "hex digit {v}");
    }
    Ok(2)
}
