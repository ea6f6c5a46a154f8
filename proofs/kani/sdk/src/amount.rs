use svm_sdk_types::Amount;

// ensures, on return: result == a OP b over the integers (arithmetic overflow is a failure of its own)
macro_rules! exact {
    ($name:ident, $t:ty, $a:ident $b:ident => $call:expr, $want:expr) => {
        #[kani::proof]
        fn $name() {
            let $a: u64 = kani::any();
            let $b: u64 = kani::any();
            let r: Amount = $call;
            kani::cover!(true, "REACHED");
            assert!(Some(r.0) == $want, "POST the result is exact");
        }
    };
}
// requires: representable; ensures: returns (no abort)
macro_rules! total {
    ($name:ident, $a:ident $b:ident => $call:expr, $want:expr) => {
        #[kani::proof]
        fn $name() {
            let $a: u64 = kani::any();
            let $b: u64 = kani::any();
            kani::assume($want.is_some());
            let r: Amount = $call;
            kani::cover!(true, "REACHED");
            assert!(Some(r.0) == $want, "POST the result is exact");
        }
    };
}

exact!(add_exact, u64, a b => Amount(a) + Amount(b), a.checked_add(b));
exact!(add_u64_exact, u64, a b => Amount(a) + b, a.checked_add(b));
exact!(add_assign_exact, u64, a b => { let mut x = Amount(a); x += Amount(b); x }, a.checked_add(b));
exact!(add_assign_u64_exact, u64, a b => { let mut x = Amount(a); x += b; x }, a.checked_add(b));
exact!(sub_exact, u64, a b => Amount(a) - Amount(b), a.checked_sub(b));
exact!(sub_u64_exact, u64, a b => Amount(a) - b, a.checked_sub(b));
exact!(sub_assign_exact, u64, a b => { let mut x = Amount(a); x -= Amount(b); x }, a.checked_sub(b));
exact!(sub_assign_u64_exact, u64, a b => { let mut x = Amount(a); x -= b; x }, a.checked_sub(b));
total!(add_total, a b => Amount(a) + Amount(b), a.checked_add(b));
total!(add_u64_total, a b => Amount(a) + b, a.checked_add(b));
total!(add_assign_total, a b => { let mut x = Amount(a); x += Amount(b); x }, a.checked_add(b));
total!(add_assign_u64_total, a b => { let mut x = Amount(a); x += b; x }, a.checked_add(b));
total!(sub_total, a b => Amount(a) - Amount(b), a.checked_sub(b));
total!(sub_u64_total, a b => Amount(a) - b, a.checked_sub(b));
total!(sub_assign_total, a b => { let mut x = Amount(a); x -= Amount(b); x }, a.checked_sub(b));
total!(sub_assign_u64_total, a b => { let mut x = Amount(a); x -= b; x }, a.checked_sub(b));

#[kani::proof]
fn comparisons() {
    let a: u64 = kani::any();
    let b: u64 = kani::any();
    let (x, y) = (Amount(a), Amount(b));
    kani::cover!(a == b, "REACHED");
    assert!((x == y) == (a == b), "POST == agrees with the numbers");
    assert!((x != y) == (a != b), "POST != agrees with the numbers");
    assert!((x < y) == (a < b), "POST < agrees with the numbers");
    assert!((x <= y) == (a <= b), "POST <= agrees with the numbers");
    assert!((x > y) == (a > b), "POST > agrees with the numbers");
    assert!((x >= y) == (a >= b), "POST >= agrees with the numbers");
    assert!(x.partial_cmp(&y) == a.partial_cmp(&b), "POST partial_cmp agrees with the numbers");
}

macro_rules! mul_kani {
    ($name:ident, $a:ident $b:ident => $call:expr) => {
        #[kani::proof]
        fn $name() {
            let $a: u64 = kani::any();
            let $b: u64 = kani::any();
            let r: Amount = $call;
            kani::cover!(true, "REACHED");
            assert!(Some(r.0) == $a.checked_mul($b), "POST the result is exact");
        }
    };
}
total!(mul_total, a b => Amount(a) * Amount(b), a.checked_mul(b));
total!(mul_u64_total, a b => Amount(a) * b, a.checked_mul(b));
total!(mul_assign_total, a b => { let mut x = Amount(a); x *= Amount(b); x }, a.checked_mul(b));
total!(mul_assign_u64_total, a b => { let mut x = Amount(a); x *= b; x }, a.checked_mul(b));
mul_kani!(mul_exact, a b => Amount(a) * Amount(b));
mul_kani!(mul_u64_exact, a b => Amount(a) * b);
mul_kani!(mul_assign_exact, a b => { let mut x = Amount(a); x *= Amount(b); x });
mul_kani!(mul_assign_u64_exact, a b => { let mut x = Amount(a); x *= b; x });
