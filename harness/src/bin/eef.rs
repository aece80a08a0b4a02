//! ExtendedExponentFpt<f64>: doubles with a 32-bit exponent.
use boostvoronoi_ext::extended_exp_fpt::ExtendedExponentFpt as E;
use boostvoronoi_ext::extended_int::ExtendedInt;
use vh::*;

const MANT: u64 = (1 << 52) - 1;
const ELIM: i32 = 100_000;

/// the exponent field and the rest of a double
fn ef(v: f64) -> i32 { ((v.to_bits() >> 52) & 0x7ff) as i32 }
fn rest(v: f64) -> u64 { v.to_bits() & (MANT | 1 << 63) }

/// any double in +-[0.5, 1)
fn any_unit() -> f64 {
    let m = range_u64(0, MANT);
    let s = any_bool() as u64;
    f64::from_bits(s << 63 | 1022 << 52 | m)
}
/// 2^k for a concrete k
fn pow2(k: i32) -> f64 { f64::from_bits(((1023 + k) as u64) << 52) }

/// r is the normalised representation of v * 2^e, for a normal v
fn check_repr(r: E<f64>, v: f64, e: i32, id: u32) {
    check(ef(r.val()) == 1022, id);
    check(rest(r.val()) == rest(v), id + 1);
    check(r.exp() == e + ef(v) - 1022, id + 2);
}
fn same(a: E<f64>, b: E<f64>, id: u32) {
    check(a.val().to_bits() == b.val().to_bits(), id);
    check(a.exp() == b.exp(), id + 1);
}

harnesses! {
    /// construction normalises and keeps the value exactly, for every finite double
    fn h_new() {
        let v = any_f64_bits();
        let e = if param(1) == 0 { range_i32(-ELIM, ELIM) } else { 0 };
        match param(0) {
            0 => { assume(ef(v) > 0 && ef(v) < 2047); reach(2); }
            1 => { assume(ef(v) == 0 && v.to_bits() & MANT != 0); reach(3); }
            _ => { assume(ef(v) == 0 && v.to_bits() & MANT == 0); reach(4); }
        }
        let r = if param(1) == 0 { E::new(v, e) } else { E::from(v) };
        match param(0) {
            0 => check_repr(r, v, e, 10),
            1 => {
                let m = v.to_bits() & MANT;
                let lz = m.leading_zeros();
                check(ef(r.val()) == 1022, 20);
                check(r.val().to_bits() & MANT == (m << (lz - 11)) & MANT, 21);
                check(r.val().to_bits() >> 63 == v.to_bits() >> 63, 22);
                check(r.exp() == e - 1022 + 1 - (lz as i32 - 12) - 1, 23);
            }
            _ => check(r.val() == 0.0, 30),
        }
        check(r.is_zero() == (v == 0.0), 40);
        check(r.is_neg() == (v < 0.0), 41);
        check(r.is_pos() == (v > 0.0), 42);
        let n = -r;
        check(n.is_neg() == (v > 0.0) && n.is_pos() == (v < 0.0) && n.exp() == r.exp(), 43);
        check(n.val().to_bits() ^ r.val().to_bits() == 1 << 63, 44);
        reach(1);
    }
    /// d() of a number whose value is a normal double is that double
    fn h_d() {
        let v = any_unit();
        let k = param(0) as i32;
        let r = E::new(v, k);
        let d = r.d();
        check(rest(d) == rest(v) && ef(d) == 1022 + k, 10);
        let x: f64 = r.into();
        check(x.to_bits() == d.to_bits(), 11);
        let q = E::from(d);
        same(q, r, 12);
        reach(1);
    }
    /// overflow and underflow of d(), and zero with any exponent
    fn h_dlim() {
        let v = any_unit();
        let k = param(0) as i32;
        let d = E::new(v, k).d();
        if k > 0 {
            check(rest(d) & MANT == 0 && ef(d) == 2047, 10);
        } else {
            check(d == 0.0, 11);
        }
        check(d.to_bits() >> 63 == v.to_bits() >> 63, 12);
        check(E::new(0.0, 0).d() == 0.0, 13);
        reach(1);
    }
    fn h_mul() {
        let (a, b) = (any_unit(), any_unit());
        let (e, f) = (range_i32(-ELIM, ELIM), range_i32(-ELIM, ELIM));
        let (x, y) = (E::new(a, e), E::new(b, f));
        let r = match param(0) {
            0 => x * y,
            1 => { let mut t = x; t *= y; t }
            _ => { assume(f == 0); x * b }
        };
        check_repr(r, a * b, e + f, 10);
        check(r.is_neg() == ((a < 0.0) != (b < 0.0)), 20);
        reach(1);
    }
    fn h_div() {
        let (a, b) = (any_unit(), any_unit());
        let (e, f) = (range_i32(-ELIM, ELIM), range_i32(-ELIM, ELIM));
        let (x, y) = (E::new(a, e), E::new(b, f));
        let r = match param(0) {
            0 => x / y,
            1 => { let mut t = x; t /= y; t }
            _ => { assume(f == 0); x / b }
        };
        check_repr(r, a / b, e - f, 10);
        check(r.is_neg() == ((a < 0.0) != (b < 0.0)), 20);
        reach(1);
    }
    fn h_sqrt() {
        let m = range_u64(0, MANT);
        let a = f64::from_bits(1022 << 52 | m);
        let e = range_i32(-ELIM, ELIM);
        let r = E::new(a, e).sqrt();
        if e & 1 == 0 {
            check_repr(r, a.sqrt(), e / 2, 10);
            reach(2);
        } else {
            check_repr(r, (2.0 * a).sqrt(), (e - 1) / 2, 20);
            reach(3);
        }
        reach(1);
    }
    /// sum and difference are correctly rounded; the operands' exponents differ by param(0)
    fn h_add() {
        let d = param(0) as i32;
        let (a, b) = (any_unit(), any_unit());
        let e = range_i32(-ELIM, ELIM);
        let (x, y) = (E::new(a, e + d), E::new(b, e));
        // 0 x+y, 1 y+x, 2 x-y, 3 y-x, 4.. compound forms
        let (r, bs, neg) = match param(1) {
            0 => (x + y, b, false),
            1 => (y + x, b, false),
            2 => (x - y, -b, false),
            3 => (y - x, -b, true),
            4 => { let mut t = x; t += y; (t, b, false) }
            5 => { let mut t = y; t += x; (t, b, false) }
            6 => { let mut t = x; t -= y; (t, -b, false) }
            _ => { let mut t = y; t -= x; (t, -b, true) }
        };
        let mut v = a * pow2(d) + bs;
        if neg { v = -v; }
        if v == 0.0 {
            check(r.is_zero(), 10);
            reach(2);
        } else {
            check_repr(r, v, e, 20);
        }
        reach(1);
    }
    /// far operands: the small one cannot matter
    fn h_far() {
        let (a, b) = (any_unit(), any_unit());
        let e = range_i32(-ELIM, ELIM);
        let d = range_i32(55, ELIM);
        let (x, y) = (E::new(a, e + d), E::new(b, e));
        same(x + y, x, 10);
        same(y + x, x, 12);
        same(x - y, x, 14);
        same(y - x, -x, 16);
        reach(1);
    }
    /// zero is neutral whatever the exponents
    fn h_zero() {
        let a = any_unit();
        let e = range_i32(-ELIM, ELIM);
        let x = E::new(a, e);
        let z = E::from(0.0);
        same(x + z, x, 10);
        same(z + x, x, 12);
        same(x - z, x, 14);
        same(z - x, -x, 16);
        check((x * z).is_zero(), 18);
        check((z * x).is_zero(), 19);
        check((z / x).is_zero(), 20);
        check((z + z).is_zero() && (z - z).is_zero(), 21);
        check((x - x).is_zero(), 22);
        check(z.sqrt().is_zero(), 23);
        reach(1);
    }
    /// conversion from the exact integers
    fn h_int() {
        let k = range_i64(-i64::MAX, i64::MAX);
        let n = ExtendedInt::from(k);
        let r = if param(0) == 0 { E::from(&n) } else { E::from(n) };
        if k == 0 {
            check(r.is_zero(), 10);
        } else {
            check_repr(r, k as f64, 0, 20);
            check(r.is_neg() == (k < 0), 23);
        }
        reach(1);
    }
}
