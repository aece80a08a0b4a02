//! Bounding boxes, transformations and the discretisation of parabolic edges.
use boostvoronoi_core::geometry::{Line, Point};
use boostvoronoi_core::visual_utils::{to_segments_offset, Aabb2, SimpleAffine, VoronoiVisualUtils as V};
use vh::*;

type B = Aabb2<f64>;
type A = SimpleAffine<f64>;
fn p(x: i32, y: i32) -> Point<i32> { Point { x, y } }
fn min(a: i64, b: i64) -> i64 { if a < b { a } else { b } }
fn max(a: i64, b: i64) -> i64 { if a > b { a } else { b } }
/// what a box around points has to be
struct M { lo: [f64; 2], hi: [f64; 2], n: usize }
fn fmin(a: f64, b: f64) -> f64 { if a < b { a } else { b } }
fn fmax(a: f64, b: f64) -> f64 { if a > b { a } else { b } }
fn finite() -> f64 {
    let v = f64::from_bits(any_u64());
    assume((v >= f64::MIN) & (v <= f64::MAX));
    v
}
impl M {
    fn add(&mut self, x: f64, y: f64) {
        if self.n == 0 { self.lo = [x, y]; self.hi = [x, y]; }
        self.lo = [fmin(self.lo[0], x), fmin(self.lo[1], y)];
        self.hi = [fmax(self.hi[0], x), fmax(self.hi[1], y)];
        self.n += 1;
    }
    fn same(&self, b: &B, id: u32) {
        let (l, h) = (b.get_low(), b.get_high());
        if self.n == 0 { check(l.is_none() && h.is_none(), id); return; }
        check(l.is_some() && h.is_some(), id);
        let (l, h) = (l.unwrap(), h.unwrap());
        check((l[0] == self.lo[0]) & (l[1] == self.lo[1]), id + 1);
        check((h[0] == self.hi[0]) & (h[1] == self.hi[1]), id + 2);
    }
}
fn near(a: f64, b: f64, tol: f64) -> bool { (a - b <= tol) & (b - a <= tol) }
fn pick<T: Copy>(t: &[T]) -> T { t[range_i32(0, t.len() as i32 - 1) as usize] }
fn affine() -> (A, f64) {
    let mut a = A::default();
    match param(0) {
        0 => {}
        1 => { a.scale = [4.0, 4.0]; a.to_offset = [16.0, -3.0]; }
        _ => {
            let s = B::new(&p(-8, -6), &p(24, 10));
            let d = B::new(&p(0, 0), &p(64, 64));
            a = A::new::<i32>(&s, &d).unwrap();
        }
    }
    let s = a.scale[0];
    (a, s)
}

harnesses! {
    /// the smallest box around any points; parameter: kinds of the updates, one digit each
    fn h_box() {
        let mut b = B::default();
        let mut m = M { lo: [0.0; 2], hi: [0.0; 2], n: 0 };
        let mut k = param(0);
        let q = p(any_i32(), any_i32());
        check(b.contains_point(&q).is_none(), 10);
        check(b.contains_line(&Line { start: q, end: q }).is_none(), 11);
        b.grow_percent::<i32>(10);
        m.same(&b, 12);
        if k >= 1000 {
            let (x, y, z, w) = (any_i32(), any_i32(), any_i32(), any_i32());
            b = if k >= 2000 { B::new_from_i32::<i32>(x, y, z, w) } else { B::new(&p(x, y), &p(z, w)) };
            m.add(x as f64, y as f64);
            m.add(z as f64, w as f64);
            k %= 1000;
        }
        while k > 0 {
            match k % 10 {
                n @ (1 | 2) => {
                    let (x, y) = (any_i32(), any_i32());
                    if n == 1 { b.update_point(&p(x, y)) } else { b.update_coordinate::<i32>(x, y) }
                    m.add(x as f64, y as f64);
                }
                n @ (3 | 5) => {
                    let (x, y) = (finite(), finite());
                    if n == 3 { b.update_vertex(x, y) } else { b.update_f64(x, y) }
                    m.add(x, y);
                }
                4 => {
                    let (x, y) = (any_i64(), any_i64());
                    b.update_i64(x, y);
                    m.add(x as f64, y as f64);
                }
                _ => {
                    let (x, y, z, w) = (any_i32(), any_i32(), any_i32(), any_i32());
                    b.update_line(&Line { start: p(x, y), end: p(z, w) });
                    m.add(x as f64, y as f64);
                    m.add(z as f64, w as f64);
                }
            }
            k /= 10;
        }
        m.same(&b, 15);
        let r = p(any_i32(), any_i32());
        let inside = |q: Point<i32>| (q.x as f64 >= m.lo[0]) & (q.x as f64 <= m.hi[0]) & (q.y as f64 >= m.lo[1]) & (q.y as f64 <= m.hi[1]);
        check(b.contains_point(&q) == Some(inside(q)), 20);
        check(b.contains_line(&Line { start: q, end: r }) == Some(inside(q) & inside(r)), 21);
        reach(1);
    }
    /// growing moves all four sides by the percentage of the longer side; never shrinks
    fn h_grow() {
        let t = [-2147483648, -1000, -1, 0, 7, 2147483647];
        let (x, y, z, w) = (pick(&t), pick(&t), pick(&t), pick(&t));
        let g = pick(&[0, 1, 10, 50, 100, 250]);
        let mut b = B::new(&p(x, y), &p(z, w));
        let (l, h) = (b.get_low().unwrap(), b.get_high().unwrap());
        b.grow_percent::<i32>(g);
        let (l2, h2) = (b.get_low().unwrap(), b.get_high().unwrap());
        let (sx, sy) = (h[0] - l[0], h[1] - l[1]);
        let d = (if sx > sy { sx } else { sy }) * (g as f64) / 100.0;
        for i in 0..2 {
            check((l2[i] <= l[i]) & (h2[i] >= h[i]), 10);
            check(near(l[i] - l2[i], d, 1e-6 * d + 1e-6) & near(h2[i] - h[i], d, 1e-6 * d + 1e-6), 11);
        }
        reach(1);
    }
    /// the transformation between two boxes: fits, keeps the centre, keeps proportions, and is undone by its reverse
    fn h_affine() {
        let t: &[i32] = if param(0) == 0 { &[-50, 0, 3, 1000] } else { &[-2000000000, -7, 12, 2000000000] };
        let u: &[i32] = if param(1) == 0 { &[0, 800] } else { &[-300, 5, 1200] };
        let (x0, y0, x1, y1) = (pick(t), pick(t), pick(t), pick(t));
        assume((x0 <= x1) & (y0 <= y1));
        let (u0, v0, u1, v1) = (pick(u), pick(u), pick(u), pick(u));
        assume((u0 < u1) & (v0 < v1));
        let (s, d) = (B::new(&p(x0, y0), &p(x1, y1)), B::new(&p(u0, v0), &p(u1, v1)));
        let a = A::new::<i32>(&s, &d);
        check(a.is_ok(), 10);
        let a = a.unwrap();
        check(a.scale[0] == a.scale[1] && a.scale[0] > 0.0, 11);
        let tol = 1e-9 * 2000.0;
        let c = a.transform((x0 as f64 + x1 as f64) / 2.0, (y0 as f64 + y1 as f64) / 2.0);
        check(near(c[0], (u0 as f64 + u1 as f64) / 2.0, tol) & near(c[1], (v0 as f64 + v1 as f64) / 2.0, tol), 12);
        let mut u = a.clone();
        u.scale = [a.scale[0] * 2.0, a.scale[1] * 0.5];
        for (x, y) in [(x0, y0), (x0, y1), (x1, y0), (x1, y1)] {
            let q = a.transform_p(&p(x, y));
            check((q[0] >= u0 as f64 - tol) & (q[0] <= u1 as f64 + tol) & (q[1] >= v0 as f64 - tol) & (q[1] <= v1 as f64 + tol), 13);
            let same = |r: [f64; 2]| (r[0].to_bits() == q[0].to_bits()) & (r[1].to_bits() == q[1].to_bits());
            check(same(a.transform_i([x, y])) && same([a.transform_ix(x), a.transform_iy(y)]), 14);
            let (fx, fy) = (x as f64, y as f64);
            check(same(a.transform(fx, fy)) && same(a.transform_f([fx, fy])) && same([a.transform_fx(fx), a.transform_fy(fy)]) && same([a.transform_x(fx), a.transform_y(fy)]), 15);
            let r = a.reverse_transform::<i32>(q[0], q[1]);
            check(r.is_ok(), 16);
            let r = r.unwrap();
            check((r[0] == x) & (r[1] == y), 17);
            check(a.reverse_transform_x::<i32>(q[0]).ok() == Some(x) && a.reverse_transform_y::<i32>(q[1]).ok() == Some(y), 18);
            // each axis has its own scale
            let w = [2.0 * (q[0] - a.to_offset[0]) + a.to_offset[0], 0.5 * (q[1] - a.to_offset[1]) + a.to_offset[1]];
            let g = |r: [f64; 2]| near(r[0], w[0], 2.0 * tol) & near(r[1], w[1], 2.0 * tol);
            check(g(u.transform_p(&p(x, y))) && g(u.transform_i([x, y])) && g([u.transform_ix(x), u.transform_iy(y)]), 22);
            check(g(u.transform(fx, fy)) && g(u.transform_f([fx, fy])) && g([u.transform_fx(fx), u.transform_fy(fy)]) && g([u.transform_x(fx), u.transform_y(fy)]), 23);
            check(u.reverse_transform::<i32>(w[0], w[1]).ok() == Some([x, y]), 24);
        }
        // the largest scale that fits for any proportions: the longer side of the source on the shorter of the destination
        let long = max(max(x1 as i64 - x0 as i64, y1 as i64 - y0 as i64), 10) as f64;
        let short = max(min(u1 as i64 - u0 as i64, v1 as i64 - v0 as i64), 10) as f64;
        check(near(a.scale[0] * long, short, 1e-9 * short), 19);
        // beyond the integers: an error, not another value
        check(a.reverse_transform::<i32>(a.transform_x(9e9), 0.0).is_err() && a.reverse_transform::<i32>(0.0, a.transform_y(-9e9)).is_err(), 20);
        let mut z = a.clone();
        z.zoom(2.0);
        check((z.scale[0] == a.scale[0] * 2.0) & (z.scale[1] == a.scale[1] * 2.0), 21);
        reach(1);
    }
    /// no box, no transformation; the default one changes nothing
    fn h_affine0() {
        let (x, y) = (any_i32(), any_i32());
        let b = B::new(&p(x, y), &p(x, y));
        check(A::new::<i32>(&B::default(), &b).is_err() && A::new::<i32>(&b, &B::default()).is_err(), 10);
        let a = A::default();
        let q = a.transform_p(&p(x, y));
        check((q[0] == x as f64) & (q[1] == y as f64), 11);
        reach(1);
    }
    /// rounding on the way back: the nearest integer
    fn h_reverse() {
        let a = A::default();
        let x = any_i32();
        let f = pick(&[0.0, 0.25, 0.499, -0.25, -0.499]);
        let r = a.reverse_transform_x::<i32>(x as f64 + f);
        let s = a.reverse_transform_y::<i32>(x as f64 + f);
        check(r.ok() == Some(x), 10);
        check(s.ok() == Some(x), 11);
        reach(1);
    }
    /// integer segments scaled and moved
    fn h_segs() {
        let (a, b, c, d) = (range_i32(-1 << 20, 1 << 20), range_i32(-1 << 20, 1 << 20), range_i32(-1 << 20, 1 << 20), range_i32(-1 << 20, 1 << 20));
        let (dx, dy) = (range_i32(-1 << 20, 1 << 20), range_i32(-1 << 20, 1 << 20));
        let k = param(0) as i32;
        let r = to_segments_offset::<i32, i32>(&[[a, b, c, d]], k as f64, (k + 1) as f64, dx as i64, dy as i64);
        check(r.len() == 1, 10);
        check((r[0].start.x == a * k + dx) & (r[0].end.x == c * k + dx), 11);
        check((r[0].start.y == b * (k + 1) + dy) & (r[0].end.y == d * (k + 1) + dy), 12);
        reach(1);
    }
    /// points on the parabola between the ends, close enough together
    fn h_disc() {
        let (a, scale) = affine();
        // segment from (2,-1) along (ux,uy), point a*u + b*n from its start
        let (ux, uy) = pick(&[(1, 0), (0, 1), (-1, 0), (2, 1), (1, -3), (3, 4)]);
        let (pa, pb) = (pick(&[-1, 0, 2]), pick(&[1, -1, 3, -2]));
        let seg = Line { start: p(2, -1), end: p(2 + 4 * ux, -1 + 4 * uy) };
        let pt = p(2 + pa * ux - pb * uy, -1 + pa * uy + pb * ux);
        let (t0, t1) = (pick(&[0.0f64, 0.5, 1.0, 3.0, 4.0]), pick(&[0.0f64, 0.5, 1.0, 3.0, 4.0]));
        let far = pick(&[0.03f64, 0.4, 50.0]);
        let height = |t: f64| ((t - pa as f64) * (t - pa as f64) + (pb * pb) as f64) / (2.0 * pb as f64);
        let at = |t: f64| {
            let h = height(t);
            a.transform(2.0 + t * ux as f64 - h * uy as f64, -1.0 + t * uy as f64 + h * ux as f64)
        };
        let ends = [at(t0), at(t1)];
        let mut d = vec![ends[0], ends[1]];
        V::discretize(&pt, &seg, far, &a, &mut d);
        let eq = |a: [f64; 2], b: [f64; 2]| (a[0].to_bits() == b[0].to_bits()) & (a[1].to_bits() == b[1].to_bits());
        check(d.len() >= 2, 10);
        check(eq(d[0], ends[0]) && eq(d[d.len() - 1], ends[1]), 11);
        if t0 == t1 { check(d.len() == 2, 12); reach(2); return; }
        let l2 = (ux * ux + uy * uy) as f64;
        let s = a.transform(2.0, -1.0);
        let mut last = t0;
        for i in 0..d.len() {
            let (x, y) = ((d[i][0] - s[0]) / scale, (d[i][1] - s[1]) / scale);
            let t = (x * ux as f64 + y * uy as f64) / l2;
            let h = (y * ux as f64 - x * uy as f64) / l2;
            check(near(h, height(t), 1e-9), 13);
            if i > 0 {
                check((t > last) == (t1 > t0), 14);
                // the arc is furthest from its chord in the middle
                let m = (t + last) / 2.0;
                let (h0, h1, hm) = (height(last), height(t), height(m));
                let gap = (hm - (h0 + h1) / 2.0) * (t - last);
                let chord2 = (t - last) * (t - last) + (h1 - h0) * (h1 - h0);
                check(gap * gap / chord2 * l2 * scale * scale <= far * far * 1.000001, 15);
            }
            last = t;
        }
        if d.len() > 2 { reach(3); }
        reach(1);
    }
}
