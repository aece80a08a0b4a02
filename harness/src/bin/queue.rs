//! Circle events: their order, the event queue, and the comparisons with a tolerance.
use boostvoronoi_core::geometry::Point;
use boostvoronoi_core::verif_hooks::{predicate as vp, queue as vq, site as vs, CircleEventIndex, SiteEvent};
use std::cmp::Ordering;
use vh::*;

/// any double but NaN
fn any_num() -> f64 {
    let m = range_u64(0, 0x7ff0_0000_0000_0000);
    let s = any_bool() as u64;
    f64::from_bits(s << 63 | m)
}
/// position of a double on the line of all doubles
fn k(v: f64) -> i64 {
    let b = v.to_bits();
    let m = (b & !(1 << 63)) as i64;
    if b >> 63 == 1 { -m } else { m }
}
fn val() -> f64 { if param(1) == 0 { any_i32() as f64 } else { any_num() } }

struct M { lx: f64, y: f64, id: usize, present: bool, active: bool }
/// a leaves the queue before b
fn first(a: &M, b: &M) -> bool {
    a.lx < b.lx || (a.lx == b.lx && (a.y < b.y || (a.y == b.y && a.id > b.id)))
}

harnesses! {
    /// equal within a number of representable doubles, otherwise ordered as the numbers
    fn h_ulp() {
        let (a, b) = (any_num(), any_num());
        let n = range_u64(0, 1 << 40);
        let c = vp::ulp_comparison(a, b, n);
        let d = k(a) as i128 - k(b) as i128;
        check((c == Ordering::Equal) == (d.unsigned_abs() <= n as u128), 10);
        check((c == Ordering::Less) == (d < 0 && d.unsigned_abs() > n as u128), 11);
        if c == Ordering::Less { check(a < b, 12); reach(2); }
        if c == Ordering::Greater { check(a > b, 13); reach(3); }
        check(vp::ulp_comparison(b, a, n) == c.reverse(), 14);
        reach(1);
    }
    /// a site comes before a circle only when it is left of the circle's end by more than 64 doubles
    fn h_site_circle() {
        let x = any_i32();
        let lx = any_num();
        let s: SiteEvent<i32, f64> = vs::point(Point { x, y: any_i32() }, 0, 0);
        let c = vq::event(any_num(), any_num(), lx);
        let r = vp::site_before_circle(&s, &c);
        check(r == ((k(lx) as i128 - k(x as f64) as i128) > 64), 10);
        if r { check((x as f64) < lx, 11); reach(2); }
        reach(1);
    }
    /// a circle belongs to a vertical segment only if its centre lies beside it
    fn h_vertical() {
        let (x, y0, y1) = (any_i32(), any_i32(), any_i32());
        assume(y0 < y1);
        let mut s: SiteEvent<i32, f64> = vs::segment(Point { x, y: y0 }, Point { x, y: y1 }, 0, 0);
        if any_bool() { vs::inverse(&mut s); }
        let y = any_num();
        let c = vq::event(any_num(), y, any_num());
        let r = vp::lies_outside_vertical_segment(&c, &s);
        let kd = |a: f64, b: f64| k(a) as i128 - k(b) as i128;
        check(r == (kd(y0 as f64, y) > 64 || kd(y, y1 as f64) > 64), 10);
        if r { reach(2); } else { reach(3); }
        let x2 = any_i32();
        assume(x2 != x);
        let t: SiteEvent<i32, f64> = vs::segment(Point { x, y: y0 }, Point { x: x2, y: any_i32() }, 0, 0);
        check(!vp::lies_outside_vertical_segment(&c, &t), 11);
        let p: SiteEvent<i32, f64> = vs::point(Point { x, y: y0 }, 0, 0);
        check(!vp::lies_outside_vertical_segment(&c, &p), 12);
        reach(1);
    }
    /// the order of circle events is total
    fn h_cmp() {
        let (a, b, c) = ((any_num(), any_num(), any_num()), (any_num(), any_num(), any_num()), (any_num(), any_num(), any_num()));
        let (i, j, k) = (any_u64() as usize, any_u64() as usize, any_u64() as usize);
        assume((i != j) & (j != k) & (i != k));
        let (p, q) = (vq::indexed(a.0, a.1, a.2, i), vq::indexed(b.0, b.1, b.2, j));
        let o = p.cmp(&q);
        let m = M { lx: a.2, y: a.1, id: i, present: true, active: true };
        let n = M { lx: b.2, y: b.1, id: j, present: true, active: true };
        check((o == Ordering::Less) == first(&m, &n), 10);
        check((o == Ordering::Greater) == first(&n, &m), 11);
        check(q.cmp(&p) == o.reverse(), 12);
        check(p.partial_cmp(&q) == Some(o), 13);
        check((p == q) == (a.0 == b.0 && a.1 == b.1 && a.2 == b.2), 14);
        if param(0) == 1 {
            let r = vq::indexed(c.0, c.1, c.2, k);
            if o == Ordering::Less && q.cmp(&r) == Ordering::Less { check(p.cmp(&r) == Ordering::Less, 15); reach(2); }
        }
        reach(1);
    }
    /// any history of insertions, deactivations and removals
    fn h_queue() {
        let steps = param(0);
        let mut q = vq::Queue::default();
        let mut m: Vec<M> = Vec::new();
        for _ in 0..steps {
            match range_u32(0, 2) {
                0 => {
                    let (x, y, lx) = (val(), val(), val());
                    let i = q.push(vq::event(x, y, lx));
                    for e in &m { check(e.id != i.0, 10); }
                    m.push(M { lx, y, id: i.0, present: true, active: true });
                    check(q.is_active(i), 11);
                    check(!q.is_empty(), 12);
                    let c = vq::parts(&vq::event(x, y, lx));
                    check(c.0 == x && c.1 == y && c.2 == lx, 13);
                }
                1 => {
                    if m.is_empty() {
                        q.deactivate(None);
                    } else {
                        let j = range_usize(0, m.len() - 1);
                        q.deactivate(Some(CircleEventIndex(m[j].id)));
                        m[j].active = false;
                        reach(2);
                    }
                }
                _ => {
                    check(q.pop_inactive_at_top().is_ok(), 20);
                    let mut best: Option<usize> = None;
                    for i in 0..m.len() {
                        if m[i].present && m[i].active && best.map_or(true, |b| first(&m[i], &m[b])) { best = Some(i); }
                    }
                    let t = q.top();
                    check(t.is_ok(), 21);
                    let t = t.unwrap_or(None);
                    match best {
                        None => check(t.is_none() && q.is_empty(), 22),
                        Some(b) => {
                            check(q.top_index() == Some(m[b].id), 23);
                            let p = vq::parts(&t.unwrap());
                            check(p.1 == m[b].y && p.2 == m[b].lx, 24);
                            check(q.pop().is_ok(), 25);
                            m[b].present = false;
                            m[b].active = false;
                            reach(3);
                        }
                    }
                }
            }
            for e in &m { check(q.is_active(CircleEventIndex(e.id)) == e.active, 30); }
        }
        reach(1);
    }
    /// the growing bit vector: unset bits read false, whatever the distance
    fn h_bits() {
        let mut b = vq::Bits::fill(param(0) as usize);
        let (i, j, n) = (range_usize(0, param(1) as usize), range_usize(0, param(1) as usize), range_usize(0, 1 << 20));
        let (v, w) = (any_bool(), any_bool());
        check(!b.get(n), 10);
        b.set(i, v);
        b.set(j, w);
        check(b.get(j) == w, 11);
        check(b.get(i) == if i == j { w } else { v }, 12);
        let g = b.get(n);
        check(g == if n == j { w } else if n == i { v } else { false }, 13);
        reach(1);
    }
}
