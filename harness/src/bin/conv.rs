//! Conversions of points, lines and vertices from and to arrays, other integer types and the types of other crates.
use boostvoronoi_core::diagram::{Vertex, VertexIndex};
use boostvoronoi_core::geometry::{Line, Point};
use vh::*;
type P = Point<i32>;
type L = Line<i32>;
fn eq(p: P, x: i32, y: i32) -> bool { (p.x == x) & (p.y == y) }
fn eql(l: L, v: [i32; 4]) -> bool { eq(l.start, v[0], v[1]) & eq(l.end, v[2], v[3]) }
fn any() -> f64 { f64::from_bits(any_u64()) }
fn same(a: f64, b: f64) -> bool { a.to_bits() == b.to_bits() }

harnesses! {
    /// arrays
    fn h_array() {
        let (x, y, z, w) = (any_i32(), any_i32(), any_i32(), any_i32());
        let v = [x, y, z, w];
        check(eq(P::new(x, y), x, y) & eq(P::from([x, y]), x, y) & eq(P::from(&[x, y]), x, y), 10);
        let (p, q) = (P { x, y }, P { x: z, y: w });
        check(eq(P::from(&p), x, y), 11);
        let f = p.as_f64();
        check((f[0] == x as f64) & (f[1] == y as f64), 12);
        let f: [f64; 2] = p.into();
        check((f[0] == x as f64) & (f[1] == y as f64), 13);
        check(eql(L::new(p, q), v) & eql(L::from(v), v) & eql(L::from(&v), v), 14);
        check(eql(L::from([p, q]), v) & eql(L::from(&[p, q]), v) & eql(L::from([[x, y], [z, w]]), v) & eql(L::from(&[[x, y], [z, w]]), v), 15);
        let l = L { start: p, end: q };
        check(eql(L::from(&l), v), 16);
        let a: [i32; 4] = l.into();
        let b: [i32; 4] = (&l).into();
        check((a[0] == x) & (a[1] == y) & (a[2] == z) & (a[3] == w), 17);
        check((b[0] == x) & (b[1] == y) & (b[2] == z) & (b[3] == w), 18);
        check((p == q) == ((x == z) & (y == w)), 19);
        reach(1);
    }
    /// other integer types: same value
    fn h_cast() {
        let (x, y, z, w) = (any_i32(), any_i32(), any_i32(), any_i32());
        let (p, q) = (P { x, y }, P { x: z, y: w });
        let a = p.cast::<i64>();
        check((a.x == x as i64) & (a.y == y as i64), 10);
        check(eq(a.cast::<i32>(), x, y), 11);
        let l = L { start: p, end: q }.cast::<i64>();
        check((l.start.x == x as i64) & (l.start.y == y as i64) & (l.end.x == z as i64) & (l.end.y == w as i64), 12);
        check(eql(l.cast::<i32>(), [x, y, z, w]), 13);
        let n = any_i64();
        let r = boostvoronoi_core::try_cast::<i64, i32>(n);
        let fits = (n >= i32::MIN as i64) & (n <= i32::MAX as i64);
        if let Ok(r) = r { check(fits & (r as i64 == n), 14); reach(2); } else { check(!fits, 15); reach(3); }
        reach(1);
    }
    /// doubles to integers: the value rounded towards zero, or an error
    fn h_float() {
        let d = any();
        let r = boostvoronoi_core::try_cast::<f64, i32>(d);
        let fits = (d > -2147483649.0) & (d < 2147483648.0);
        match r {
            Ok(r) => {
                let e = d - r as f64;
                check(fits & (e > -1.0) & (e < 1.0) & ((e == 0.0) | ((e > 0.0) == (d > 0.0))), 10);
                reach(2);
            }
            Err(_) => { check(!fits, 11); reach(3); }
        }
        reach(1);
    }
    /// vertices as arrays
    fn h_vertex() {
        let (x, y) = (any(), any());
        let v = Vertex::<f64>::new_3(VertexIndex(param(0) as usize), x, y, param(0) == 1).get();
        check(same(v.x(), x) & same(v.y(), y) & (v.get_id().0 == param(0) as usize), 10);
        let a: [f64; 2] = (&v).into();
        check(same(a[0], x) & same(a[1], y), 11);
        check(v.is_site_point() == (param(0) == 1), 12);
        reach(1);
    }
    /// points and lines of other crates
    fn h_other() {
        #[cfg(feature = "conv")]
        {
            let (x, y, z, w) = (any_i32(), any_i32(), any_i32(), any_i32());
            let v = [x, y, z, w];
            let (p, q) = (P { x, y }, P { x: z, y: w });
            let l = L { start: p, end: q };
            // geo
            let c = geo::Coord::<i32>::from(p);
            check((c.x == x) & (c.y == y) & eq(P::from(c), x, y) & eq(P::from(&c), x, y), 20);
            let c = geo::Coord::<i32>::from(&p);
            check((c.x == x) & (c.y == y), 21);
            let c = geo::Point::<i32>::from(p);
            check((c.x() == x) & (c.y() == y) & eq(P::from(c), x, y) & eq(P::from(&c), x, y), 22);
            let c = geo::Line::<i32>::from(l);
            check((c.start.x == x) & (c.start.y == y) & (c.end.x == z) & (c.end.y == w) & eql(L::from(c), v) & eql(L::from(&c), v), 23);
            // cgmath
            let c = cgmath::Point2::<i32>::from(p);
            check((c.x == x) & (c.y == y) & eq(P::from(c), x, y) & eq(P::from(&c), x, y), 24);
            // mint
            let c = mint::Point2::<i32>::from(p);
            check((c.x == x) & (c.y == y) & eq(P::from(c), x, y) & eq(P::from(&c), x, y), 25);
            let c: [mint::Point2<i32>; 2] = l.into();
            check((c[0].x == x) & (c[0].y == y) & (c[1].x == z) & (c[1].y == w), 26);
            // glam
            let c = glam::IVec2::from(p);
            check((c.x == x) & (c.y == y) & eq(P::from(c), x, y) & eq(P::from(&c), x, y), 27);
            let c: [glam::IVec2; 2] = l.into();
            check((c[0].x == x) & (c[0].y == y) & (c[1].x == z) & (c[1].y == w), 28);
            // nalgebra
            let c = nalgebra::Point2::<i32>::from(p);
            check((c.x == x) & (c.y == y) & eq(P::from(c), x, y) & eq(P::from(&c), x, y), 29);
        }
        reach(1);
    }
    /// vertices as points of other crates
    fn h_vother() {
        #[cfg(feature = "conv")]
        {
            let (x, y) = (any(), any());
            let v = Vertex::<f64>::new_3(VertexIndex(0), x, y, false).get();
            let (a, b) = (geo::Coord::<f64>::from(&v), geo::Coord::<f64>::from(v));
            check(same(a.x, x) & same(a.y, y) & same(b.x, x) & same(b.y, y), 30);
            let (a, b) = (geo::Point::<f64>::from(&v), geo::Point::<f64>::from(v));
            check(same(a.x(), x) & same(a.y(), y) & same(b.x(), x) & same(b.y(), y), 31);
            let (a, b) = (cgmath::Point2::<f64>::from(&v), cgmath::Point2::<f64>::from(v));
            check(same(a.x, x) & same(a.y, y) & same(b.x, x) & same(b.y, y), 32);
            let (a, b) = (mint::Point2::<f64>::from(&v), mint::Point2::<f64>::from(v));
            check(same(a.x, x) & same(a.y, y) & same(b.x, x) & same(b.y, y), 33);
            let (a, b) = (glam::DVec2::from(&v), glam::DVec2::from(v));
            check(same(a.x, x) & same(a.y, y) & same(b.x, x) & same(b.y, y), 34);
            let (a, b) = (nalgebra::Point2::<f64>::from(&v), nalgebra::Point2::<f64>::from(v));
            check(same(a.x, x) & same(a.y, y) & same(b.x, x) & same(b.y, y), 35);
        }
        reach(1);
    }
}
