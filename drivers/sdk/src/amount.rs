use svm_sdk_types::Amount;
use vcommon::{check, panics, trace, Rng};

pub fn arithmetic(_i: u64, rng: &mut Rng) -> Result<u64, String> {
    let a = rng.edge();
    let b = match rng.below(4) {
        0 => a.wrapping_add(rng.below(3)).wrapping_sub(1),
        1 => (u64::MAX - a).wrapping_add(rng.below(3)).wrapping_sub(1),
        2 if a > 0 => (u64::MAX / a).wrapping_add(rng.below(3)).wrapping_sub(1),
        _ => rng.edge(),
    };
    trace(format!("a = {a}, b = {b}"));
    let op = |name: &str, exact: Option<u64>, got: Result<Amount, String>| -> Result<(), String> {
        match (exact, &got) {
            (Some(x), Ok(y)) if x == y.0 => Ok(()),
            (None, Err(_)) => Ok(()),
            (Some(x), _) => Err(format!("Amount({a}) {name} {b}: expected {x}, got {:?}", got.map(|a| a.0))),
            (None, _) => Err(format!("Amount({a}) {name} {b} isn't representable but gave {:?}", got.map(|a| a.0))),
        }
    };
    op("+", a.checked_add(b), panics(|| Amount(a) + Amount(b)))?;
    op("+u64", a.checked_add(b), panics(|| Amount(a) + b))?;
    op("+=", a.checked_add(b), panics(|| { let mut x = Amount(a); x += Amount(b); x }))?;
    op("+=u64", a.checked_add(b), panics(|| { let mut x = Amount(a); x += b; x }))?;
    op("-", a.checked_sub(b), panics(|| Amount(a) - Amount(b)))?;
    op("-u64", a.checked_sub(b), panics(|| Amount(a) - b))?;
    op("-=", a.checked_sub(b), panics(|| { let mut x = Amount(a); x -= Amount(b); x }))?;
    op("-=u64", a.checked_sub(b), panics(|| { let mut x = Amount(a); x -= b; x }))?;
    op("*", a.checked_mul(b), panics(|| Amount(a) * Amount(b)))?;
    op("*u64", a.checked_mul(b), panics(|| Amount(a) * b))?;
    op("*=", a.checked_mul(b), panics(|| { let mut x = Amount(a); x *= Amount(b); x }))?;
    op("*=u64", a.checked_mul(b), panics(|| { let mut x = Amount(a); x *= b; x }))?;
    let (x, y) = (Amount(a), Amount(b));
    check!((x == y) == (a == b), "Amount({a}) == Amount({b}) is wrong");
    check!((x != y) == (a != b), "Amount({a}) != Amount({b}) is wrong");
    check!((x < y) == (a < b), "Amount({a}) < Amount({b}) is wrong");
    check!((x <= y) == (a <= b), "Amount({a}) <= Amount({b}) is wrong");
    check!((x > y) == (a > b), "Amount({a}) > Amount({b}) is wrong");
    check!((x >= y) == (a >= b), "Amount({a}) >= Amount({b}) is wrong");
    check!(x.partial_cmp(&y) == a.partial_cmp(&b), "comparing Amount({a}) with Amount({b}) is wrong");
    if a <= i64::MAX as u64 {
        check!(Amount::from(a as i64).0 == a, "Amount::from({a}) is {}", Amount::from(a as i64).0);
    }
    Ok(20)
}
