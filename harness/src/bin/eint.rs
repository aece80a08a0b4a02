//! ExtendedInt: exact multi-word integer arithmetic.
use boostvoronoi_ext::extended_int::ExtendedInt;
use num_traits::{One, Zero};
use vh::*;

const MAXL: usize = 8;
struct Big {
    l: [u32; MAXL],
    n: usize,
    neg: bool,
}
/// arbitrary normalised integer with exactly `n` limbs
fn any_big(n: usize) -> Big {
    let mut b = Big { l: [0; MAXL], n, neg: false };
    for i in 0..n {
        b.l[i] = if i + 1 == n { range_u32(1, u32::MAX) } else { any_u32() };
    }
    if n > 0 {
        b.neg = any_bool();
    }
    b
}
fn mk(b: &Big) -> ExtendedInt {
    ExtendedInt::verif_from_limbs(&b.l[..b.n], b.neg)
}
fn sg(neg: bool, v: u32) -> i64 {
    if neg { -(v as i64) } else { v as i64 }
}
/// the representation is normalised: no leading zero limb, limb count and sign field agree
fn check_norm(r: &ExtendedInt, id: u32) {
    let len = r.verif_len();
    check(r.verif_count().unsigned_abs() as usize == len, id);
    check(len == 0 || r.verif_limb(len - 1) != 0, id + 1);
    check(r.size() == len, id + 2);
}
/// r == sa*a + sb*b, limb by limb with a carry
fn check_sum(r: &ExtendedInt, a: &Big, an: bool, b: &Big, bn: bool, id: u32) {
    let rn = r.verif_count() < 0;
    let m = if a.n > b.n { a.n } else { b.n } + 2;
    check(r.verif_len() <= m, id);
    let mut acc: i64 = 0;
    for i in 0..m {
        let x = if i < a.n { sg(an, a.l[i]) } else { 0 };
        let y = if i < b.n { sg(bn, b.l[i]) } else { 0 };
        acc += x + y - sg(rn, r.verif_limb(i));
        check(acc & 0xffff_ffff == 0, id + 1);
        acc >>= 32;
    }
    check(acc == 0, id + 2);
}
/// r == a*b
fn check_mul(r: &ExtendedInt, a: &Big, b: &Big, id: u32) {
    let len = r.verif_len();
    let rn = r.verif_count() < 0;
    check(r.verif_count() == 0 || a.n == 0 || b.n == 0 || rn == (a.neg != b.neg), id);
    check((r.verif_count() == 0) == (a.n == 0 || b.n == 0), id + 1);
    let m = a.n + b.n + 1;
    check(len <= m, id + 2);
    let mut acc: i128 = 0;
    for k in 0..m {
        for i in 0..a.n {
            if k >= i && k - i < b.n {
                acc += ((a.l[i] as u64) * (b.l[k - i] as u64)) as i128;
            }
        }
        acc -= r.verif_limb(k) as i128;
        check(acc & 0xffff_ffff == 0, id + 3);
        acc >>= 32;
    }
    check(acc == 0, id + 4);
}

/// the operand forms the API offers: 0 = &a op &b, 1 = a op b, 2 = a op &b
macro_rules! op {
    ($x:expr, $o:tt, $y:expr) => {
        match param(2) {
            0 => &$x $o &$y,
            1 => $x $o $y,
            _ => $x $o &$y,
        }
    };
}
fn from_i128(v: i128) -> Big {
    let mut b = Big { l: [0; MAXL], n: 0, neg: v < 0 };
    let mut m = v.unsigned_abs();
    while m != 0 {
        b.l[b.n] = m as u32;
        b.n += 1;
        m >>= 32;
    }
    b
}
fn same(r: &ExtendedInt, b: &Big, id: u32) {
    check_norm(r, id);
    check(r.verif_len() == b.n, id + 3);
    check((r.verif_count() < 0) == (b.neg && b.n > 0), id + 4);
    for i in 0..b.n {
        check(r.verif_limb(i) == b.l[i], id + 5);
    }
}

harnesses! {
    fn h_add() {
        let a = any_big(param(0) as usize);
        let b = any_big(param(1) as usize);
        let (x, y) = (mk(&a), mk(&b));
        let r = op!(x, +, y);
        check_sum(&r, &a, a.neg, &b, b.neg, 10);
        check_norm(&r, 20);
        reach(1);
    }
    fn h_sub() {
        let a = any_big(param(0) as usize);
        let b = any_big(param(1) as usize);
        let (x, y) = (mk(&a), mk(&b));
        let r = op!(x, -, y);
        check_sum(&r, &a, a.neg, &b, !b.neg, 10);
        check_norm(&r, 20);
        reach(1);
    }
    fn h_mul() {
        let a = any_big(param(0) as usize);
        let b = any_big(param(1) as usize);
        let (x, y) = (mk(&a), mk(&b));
        let r = op!(x, *, y);
        check_mul(&r, &a, &b, 10);
        check_norm(&r, 20);
        reach(1);
    }
    fn h_muli() {
        let a = any_big(param(0) as usize);
        let k = any_i32();
        let b = from_i128(k as i128);
        let r = mk(&a) * k;
        check_mul(&r, &a, &b, 10);
        check_norm(&r, 20);
        reach(1);
    }
    fn h_from() {
        match param(0) {
            0 => { let v = any_i64(); same(&ExtendedInt::from(v), &from_i128(v as i128), 10); }
            1 => { let v = any_i32(); same(&ExtendedInt::from(v), &from_i128(v as i128), 10); }
            2 => { let v = any_u32(); same(&ExtendedInt::from(v), &from_i128(v as i128), 10); }
            3 => { let v = any_i32() as i8; same(&ExtendedInt::from(v), &from_i128(v as i128), 10); }
            _ => { let v = range_u64(0, i64::MAX as u64); same(&ExtendedInt::from(v), &from_i128(v as i128), 10); }
        }
        same(&ExtendedInt::zero(), &from_i128(0), 20);
        same(&ExtendedInt::default(), &from_i128(0), 30);
        same(&ExtendedInt::one(), &from_i128(1), 40);
        reach(1);
    }
    /// sign queries, negation and size of any normalised number
    fn h_sign() {
        let n = param(0) as usize;
        let a = any_big(n);
        let x = mk(&a);
        check(x.is_zero() == (n == 0), 10);
        check(Zero::is_zero(&x) == (n == 0), 11);
        check(x.is_neg() == a.neg, 12);
        check(x.is_pos() == (n != 0 && !a.neg), 13);
        check(x.size() == n, 14);
        let y = x.clone();
        same(&y, &a, 20);
        let z = -x;
        check(z.is_neg() == (n != 0 && !a.neg), 30);
        check(z.is_pos() == a.neg, 31);
        let m = Big { l: a.l, n: a.n, neg: n != 0 && !a.neg };
        same(&z, &m, 40);
        reach(1);
    }
    /// conversion to floating point
    fn h_p() {
        let n = param(0) as usize;
        let a = any_big(n);
        let x = mk(&a);
        let (v, e) = x.p();
        let m = if v < 0.0 { -v } else { v };
        check((v < 0.0) == a.neg, 10);
        check((v > 0.0) == (n != 0 && !a.neg), 11);
        check(v == v, 12);
        match n {
            0 => { check(v == 0.0 && e == 0, 20); }
            1 => { check(m == a.l[0] as f64 && e == 0, 21); }
            2 => {
                let u = (a.l[1] as u64) << 32 | a.l[0] as u64;
                check(e == 0, 22);
                // correctly rounded
                check(m == u as f64, 23);
            }
            _ => {
                // the three leading limbs, up to rounding
                check(e == 32 * (n as i32 - 3), 24);
                let u = (a.l[n - 1] as u64) << 32 | a.l[n - 2] as u64;
                let lo = u as f64 * 4294967296.0;
                check(m >= lo, 25);
                check(m <= 2.0 * lo, 26);
                // exact whenever they fit in 53 bits
                if param(1) == 1 {
                    assume(a.l[n - 1] < (1 << 21) && a.l[n - 3] == 0);
                    check(m == lo, 27);
                }
                if param(1) == 2 {
                    assume(a.l[n - 1] == 1 && a.l[n - 3] & 0xfff == 0);
                    let w = (a.l[n - 2] as u64) << 32 | a.l[n - 3] as u64;
                    check(m == 18446744073709551616.0 + w as f64, 28);
                }
                if param(1) == 3 {
                    assume(a.l[n - 1] < (1 << 20) && a.l[n - 3] == 1 << 31);
                    check(m == lo + 2147483648.0, 29);
                }
            }
        }
        reach(1);
    }
    /// d() is p() scaled
    fn h_d() {
        let n = param(0) as usize;
        let a = any_big(n);
        let x = mk(&a);
        let (v, e) = x.p();
        let d = x.d();
        let scale = f64::from_bits(((1023 + e) as u64) << 52);
        check(d == v * scale, 10);
        check((d < 0.0) == a.neg, 11);
        check((d > 0.0) == (n != 0 && !a.neg), 12);
        check(d - d == 0.0, 13);
        reach(1);
    }
}
