//! RobustFpt and RobustDif: doubles with an error estimate.
use boostvoronoi_ext::robust_fpt::{RobustDif as D, RobustFpt as R};
use vh::*;

/// a double +-[2^lo, 2^hi) with any mantissa, or zero when `zero`
fn val(lo: i32, hi: i32, zero: bool) -> f64 {
    let m = range_u64(((1023 + lo) as u64) << 52, (((1023 + hi) as u64) << 52) - 1);
    let s = any_bool() as u64;
    let z = zero && any_bool();
    f64::from_bits(if z { s << 63 } else { s << 63 | m })
}
/// a non-negative error estimate below 2^20
fn err() -> f64 {
    f64::from_bits(range_u64(0, ((1023 + 20) as u64) << 52))
}
fn any_r() -> R {
    let v = val(-100, 100, true);
    R::new(v, err())
}
fn bits_eq(a: f64, b: f64) -> bool { a.to_bits() == b.to_bits() || (a == 0.0 && b == 0.0) }
fn eq_r(r: R, fpv: f64, re: f64, id: u32) {
    check(bits_eq(r.fpv(), fpv), id);
    check(bits_eq(r.re(), re), id + 1);
}
fn max(a: f64, b: f64) -> f64 { if a < b { b } else { a } }
fn neg(v: f64) -> bool { v < 0.0 }
fn pos(v: f64) -> bool { v > 0.0 }
fn abs(v: f64) -> f64 { f64::from_bits(v.to_bits() & !(1 << 63)) }

fn same_sign(x: f64, y: f64) -> bool { (!neg(x) & !neg(y)) | (!pos(x) & !pos(y)) }
const VALUES: [f64; 16] = [0.0, 1.0, -1.0, 1.0000000000000002, -1.0000000000000002, 1.5, -1.5, 3.0, -3.0, 1e10, -1e10, 8.673617379884035e-19, -8.673617379884035e-19, 1.2379400392853803e27, -1.2379400392853803e27, 7.0];
const ERRORS: [f64; 4] = [0.0, 1.0, 2.5, 64.0];
fn table_r() -> R { R::new(VALUES[range_i32(0, 15) as usize], ERRORS[range_i32(0, 3) as usize]) }

fn add(a: R, b: R) -> R {
    match param(0) {
        0 => a + b,
        1 => { let mut t = a; t += b; t }
        2 => a - b,
        _ => { let mut t = a; t -= b; t }
    }
}

harnesses! {
    /// operands of one sign: the larger error plus one
    fn h_add() {
        let (a, b) = (any_r(), any_r());
        let minus = param(0) >= 2;
        let y = if minus { -b.fpv() } else { b.fpv() };
        assume(same_sign(a.fpv(), y));
        let r = add(a, b);
        eq_r(r, a.fpv() + y, max(a.re(), b.re()) + 1.0, 10);
        reach(1);
    }
    /// any operands of a table: errors are added in absolute terms and divided by the sum
    fn h_addt() {
        let (a, b) = (table_r(), table_r());
        let minus = param(0) >= 2;
        let y = if minus { -b.fpv() } else { b.fpv() };
        let x = a.fpv();
        let r = add(a, b);
        let s = x + y;
        check(bits_eq(r.fpv(), s), 10);
        check(bits_eq(r.ulp(), r.re()), 11);
        if same_sign(x, y) {
            check(r.re() == max(a.re(), b.re()) + 1.0, 12);
            reach(1);
        } else if s == 0.0 {
            // complete cancellation: no digit is right unless both were exact
            check(r.re() == f64::INFINITY, 13);
            reach(2);
        } else {
            let e = (abs(x) * a.re() + abs(y) * b.re()) / abs(s) + 1.0;
            check(r.re() == e, 14);
            reach(3);
        }
    }
    fn h_mul() {
        let a = any_r();
        let b = if param(0) & 1 == 0 { any_r() } else { R::from(val(-100, 100, true)) };
        let div = param(0) >= 4;
        if div { assume(b.fpv() != 0.0); }
        let r = match param(0) {
            0 => a * b,
            2 => { let mut t = a; t *= b; t }
            1 => a * b.fpv(),
            4 => a / b,
            6 => { let mut t = a; t /= b; t }
            _ => a / b.fpv(),
        };
        let v = if div { a.fpv() / b.fpv() } else { a.fpv() * b.fpv() };
        eq_r(r, v, a.re() + b.re() + 1.0, 10);
        reach(1);
    }
    fn h_sqrt() {
        let v = val(-100, 100, true);
        assume(!neg(v));
        let a = R::new(v, err());
        let r = a.sqrt();
        eq_r(r, v.sqrt(), a.re() * 0.5 + 1.0, 10);
        reach(1);
    }
    /// sign queries, negation, construction
    fn h_sign() {
        let a = any_r();
        let v = a.fpv();
        check(a.is_neg() == (v < 0.0), 10);
        check(a.is_pos() == (v > 0.0), 11);
        check(a.is_zero() == (v == 0.0), 12);
        eq_r(-a, -v, a.re(), 13);
        eq_r(R::from(v), v, 0.0, 15);
        eq_r(R::default(), 0.0, 0.0, 17);
        let mut t = R::default();
        let _ = t.assign_from(&a);
        eq_r(t, v, a.re(), 19);
        reach(1);
    }
    /// a difference keeps its two sums apart: every operation is the one on positive minus negative parts
    fn h_dif() {
        let (p, q) = (R::new(abs(val(-100, 100, true)), err()), R::new(abs(val(-100, 100, true)), err()));
        let (s, t) = (R::new(abs(val(-100, 100, true)), err()), R::new(abs(val(-100, 100, true)), err()));
        let (a, b) = (D::from((p, q)), D::from((s, t)));
        let (x, y) = match param(0) {
            0 => { let r = a + b; check_parts(r, p + s, q + t); return reach(1); }
            1 => { let mut r = a; r += b; (r, (p + s, q + t)) }
            2 => { let r = a - b; check_parts(r, p + t, q + s); return reach(1); }
            3 => { let mut r = a; r -= b; (r, (p + t, q + s)) }
            4 => (a * b, (p * s + q * t, p * t + q * s)),
            5 => { let mut r = a; r *= b; (r, (p * s + q * t, p * t + q * s)) }
            6 => (-a, (q, p)),
            _ => (a, (p, q)),
        };
        check_parts(x, y.0, y.1);
        reach(1);
    }
    /// dif() is the first sum minus the second, after any operation
    fn h_dift() {
        let part = || { let r = table_r(); R::new(abs(r.fpv()), r.re()) };
        let a = D::from((part(), part()));
        let d = a.dif();
        let e = a.positive() - a.negative();
        eq_r(d, e.fpv(), e.re(), 10);
        check(bits_eq(d.fpv(), a.positive().fpv() - a.negative().fpv()), 12);
        reach(1);
    }
    /// operands of either sign
    fn h_difr() {
        let (p, q) = (R::new(abs(val(-100, 100, true)), err()), R::new(abs(val(-100, 100, true)), err()));
        let a = D::from((p, q));
        let v = val(-100, 100, true);
        let r = R::new(v, err());
        let m = R::new(abs(v), r.re());
        let z = R::from(0.0);
        let n = neg(v);
        let (x, y) = match param(0) {
            0 => { let mut t = a; t += r; (t, if n { (p, q + m) } else { (p + m, q) }) }
            1 => { let mut t = a; t -= r; (t, if n { (p + m, q) } else { (p, q + m) }) }
            2 => (a - r, if n { (p + m, q + z) } else { (p + z, q + m) }),
            3 => (a * r, if n { (q * m, p * m) } else { (p * m, q * m) }),
            4 => { let mut t = a; t *= r; (t, if n { (q * m, p * m) } else { (p * m, q * m) }) }
            5 => { let w = R::from(abs(v)); (a * v, if n { (q * w, p * w) } else { (p * w, q * w) }) }
            6 => { let w = R::from(abs(v)); let mut t = a; t *= v; (t, if n { (q * w, p * w) } else { (p * w, q * w) }) }
            7 => { assume(v != 0.0); let mut t = a; t /= r; (t, if n { (q / m, p / m) } else { (p / m, q / m) }) }
            8 => (D::from(v), if n { (z, R::from(abs(v))) } else { (R::from(abs(v)), z) }),
            9 => (D::from(r), if n { (z, m) } else { (m, z) }),
            10 => { let w = abs(v); (D::new(w, p.fpv()), (R::from(w), R::from(p.fpv()))) }
            _ => (D::default(), (z, z)),
        };
        check_parts(x, y.0, y.1);
        reach(1);
    }
}
fn check_parts(d: D, p: R, q: R) {
    eq_r(d.positive(), p.fpv(), p.re(), 10);
    eq_r(d.negative(), q.fpv(), q.re(), 12);
}
