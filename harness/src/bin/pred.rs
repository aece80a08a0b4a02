//! Geometric predicates and orderings on integer coordinates.
use boostvoronoi_core::geometry::Point;
use boostvoronoi_core::verif_hooks::{predicate as vp, site as vs, SiteEvent};
use std::cmp::Ordering;
use vh::*;

type P = Point<i32>;
type S = SiteEvent<i32, f64>;

/// any point with coordinates in +-2^bits, all of i32 for bits >= 31
fn pt(bits: i64) -> P {
    let (lo, hi) = if bits >= 31 { (i32::MIN, i32::MAX) } else { (-(1 << bits), 1 << bits) };
    Point { x: range_i32(lo, hi), y: range_i32(lo, hi) }
}
fn cross(a: P, b: P, c: P) -> i128 {
    let (ax, ay) = (a.x as i128 - b.x as i128, a.y as i128 - b.y as i128);
    let (bx, by) = (b.x as i128 - c.x as i128, b.y as i128 - c.y as i128);
    ax * by - ay * bx
}
fn sign(v: i128) -> i32 { if v > 0 { 1 } else if v < 0 { -1 } else { 0 } }
fn less(a: P, b: P) -> bool { a.x < b.x || (a.x == b.x && a.y < b.y) }

/// a point site (kind 0), a segment from lower to higher end (1) or an inverse segment (2)
fn site(kind: i64, bits: i64, idx: usize) -> S {
    if kind == 0 { return vs::point(pt(bits), idx, idx); }
    let (a, b) = (pt(bits), pt(bits));
    assume(less(a, b));
    let mut s = vs::segment(a, b, idx, idx);
    if kind == 2 { vs::inverse(&mut s); }
    s
}
fn ends(s: &S) -> (P, P) { (Point { x: s.x0(), y: s.y0() }, Point { x: s.x1(), y: s.y1() }) }

/// the documented order of site events: by the sweep position of the first end, points before segments there,
/// vertical segments between points and other segments, segments by height and then by direction
fn before(l: &S, r: &S) -> bool {
    let ((l0, l1), (r0, r1)) = (ends(l), ends(r));
    if l0.x != r0.x { return l0.x < r0.x; }
    let class = |s: &S| if !s.is_segment() || s.x0() == s.x1() { 0 } else { 1 };
    match (class(l), class(r)) {
        (0, 1) => true,
        (1, 0) => false,
        (0, 0) => {
            if l0.y != r0.y { return l0.y < r0.y; }
            // the point before the vertical segment starting there
            !l.is_segment() && r.is_segment()
        }
        _ => {
            if l0.y != r0.y { return l0.y < r0.y; }
            cross(l1, l0, r1) > 0
        }
    }
}

harnesses! {
    /// orientation is exact, antisymmetric, invariant under rotation of the arguments and translation
    fn h_orient() {
        let (a, b, c) = (pt(param(0)), pt(param(0)), pt(param(0)));
        let o = vp::orientation(a, b, c);
        let s = cross(a, b, c);
        check(o == sign(s), 10);
        if s > 0 { reach(2); } else if s < 0 { reach(3); } else { reach(4); }
        reach(1);
    }
    /// orientation where it is nearly zero; parameter: table
    fn h_orientt() {
        let m = i32::MAX;
        let t: [i32; 7] = match param(0) {
            0 => [i32::MIN, i32::MIN + 1, i32::MIN + 2, 0, m - 2, m - 1, m],
            1 => [-(1 << 30) - 1, -(1 << 30), -1, 0, (1 << 30) - 1, 1 << 30, (1 << 30) + 1],
            _ => [-715827883, -715827882, 357913941, 715827882, 715827883, 1431655765, 1431655766],
        };
        let mut p = || { let (i, j) = (range_i32(0, 6), range_i32(0, 6)); Point { x: t[i as usize], y: t[j as usize] } };
        let (a, b, c) = (p(), p(), p());
        let s = cross(a, b, c);
        check(vp::orientation(a, b, c) == sign(s), 10);
        if s > 0 { reach(2); } else if s < 0 { reach(3); } else { reach(4); }
        reach(1);
    }
    fn h_orient_i() {
        let m = 1i64 << param(0);
        let (a, b, c, d) = (range_i64(-m, m), range_i64(-m, m), range_i64(-m, m), range_i64(-m, m));
        let s = a as i128 * d as i128 - b as i128 * c as i128;
        check(vp::orientation_i(a, b, c, d) == sign(s), 10);
        reach(1);
    }
    fn h_point() {
        let (a, b, c) = (pt(31), pt(31), pt(31));
        let l = vp::point_less(a, b);
        check(l == less(a, b), 10);
        if l { check(!vp::point_less(b, a), 11); reach(2); }
        if l && vp::point_less(b, c) { check(vp::point_less(a, c), 12); reach(3); }
        if !l && !vp::point_less(b, a) { check(a == b, 13); reach(4); }
        // end points: a max-heap gives the smallest point first
        let e = vp::end_point_cmp(a, b);
        check(e == if less(a, b) { Ordering::Greater } else if a == b { Ordering::Equal } else { Ordering::Less }, 14);
        reach(1);
    }
    /// site events: the order they are swept in
    fn h_site2() {
        let (l, r) = (site(param(0), param(2), 1), site(param(1), param(2), 2));
        let c = l.cmp(&r);
        let d = r.cmp(&l);
        let (bl, br) = (before(&l, &r), before(&r, &l));
        check((c == Ordering::Less) == bl, 10);
        check((d == Ordering::Less) == br, 11);
        check(!(bl && br), 12);
        check(l.partial_cmp(&r) == Some(c), 13);
        // no order means the same place (and, for segments, the same direction)
        if !bl && !br {
            check(ends(&l).0 == ends(&r).0, 14);
            check(l.is_segment() == r.is_segment(), 15);
            reach(2);
        }
        // equality is equality of the geometry
        check((l == r) == (l.is_segment() == r.is_segment() && ends(&l) == ends(&r)), 16);
        reach(1);
    }
    /// ... and it is transitive
    fn h_site3() {
        let b = param(3);
        let (p, q, r) = (site(param(0), b, 1), site(param(1), b, 2), site(param(2), b, 3));
        assume(before(&p, &q) && before(&q, &r));
        check(before(&p, &r), 10);
        check(p.cmp(&r) == Ordering::Less, 11);
        reach(1);
    }
    /// inverse segments, indices and category bits
    fn h_site_ops() {
        let (a, b) = (pt(31), pt(31));
        let (i, j) = (range_usize(0, 1 << 40), range_usize(0, 1 << 40));
        let mut s: S = vs::segment(a, b, i, j);
        check(vs::initial_index(&s) == i && s.sorted_index() == j, 10);
        check(!vs::is_inverse(&s) && s.is_segment() && !s.is_point(), 11);
        check(ends(&s) == (a, b), 12);
        check(vs::is_vertical(&s) == (a.x == b.x), 13);
        let c = range_u32(0, 31);
        vs::or_category(&mut s, c);
        check(vs::category(&s) == c, 14);
        check(!vs::is_inverse(&s), 15);
        vs::inverse(&mut s);
        check(vs::is_inverse(&s) && ends(&s) == (b, a), 16);
        check(vs::category(&s) == c && vs::initial_index(&s) == i && s.sorted_index() == j, 17);
        vs::inverse(&mut s);
        check(!vs::is_inverse(&s) && ends(&s) == (a, b), 18);
        let p: S = vs::point(a, i, j);
        check(p.is_point() && !p.is_segment() && !vs::is_inverse(&p) && ends(&p) == (a, a), 19);
        if any_bool() { vs::inverse(&mut s); }
        // an edge between a segment and its own end point is secondary, every other one primary
        let q: S = vs::point(pt(31), i, j);
        let own = ends(&q).0 == a || ends(&q).0 == b;
        check(S::is_primary_edge(&s, &q) == !own && S::is_primary_edge(&q, &s) == !own, 20);
        check(S::is_linear_edge(&s, &q) == own && S::is_linear_edge(&q, &s) == own, 21);
        check(S::is_primary_edge(&p, &q) && S::is_linear_edge(&p, &q), 22);
        let mut t: S = vs::segment(pt(31), pt(31), i, j);
        if any_bool() { vs::inverse(&mut t); }
        check(S::is_primary_edge(&s, &t) && S::is_linear_edge(&s, &t), 23);
        reach(1);
    }
}
