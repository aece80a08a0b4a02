// Shared by the demonstrations: builds diagrams and looks at them through the public interface only.
#![allow(dead_code)]
pub use boostvoronoi_core::{builder::Builder, diagram::*, geometry::{Line, Point}, sync_diagram::SyncDiagram, BvError};
pub type D = Diagram<f64>;
pub fn build(p: &[[i32; 2]], s: &[[i32; 4]]) -> Result<D, String> {
    let pts: Vec<Point<i32>> = p.iter().map(|a| Point { x: a[0], y: a[1] }).collect();
    let seg: Vec<Line<i32>> = s.iter().map(|a| Line::new(Point { x: a[0], y: a[1] }, Point { x: a[2], y: a[3] })).collect();
    let r = std::panic::catch_unwind(|| {
        Builder::<i32, f64>::default().with_vertices(pts.iter()).and_then(|b| b.with_segments(seg.iter())).and_then(|b| b.build()).map_err(|e| format!("{e:?}"))
    });
    r.unwrap_or_else(|_| Err("panic".into()))
}
/// every link of the diagram agrees with its counterpart
pub fn consistent(d: &D) -> Result<(), String> {
    let n = d.edges().len();
    let e = |s: String| Err::<(), String>(s);
    for c in d.edges() {
        let c = c.get();
        let id = c.id();
        let t = c.twin().map_err(|x| format!("{x:?}"))?;
        let tw = d.get_edge(t).map_err(|x| format!("{x:?}"))?.get();
        if tw.twin().ok() != Some(id) || t == id { return e(format!("twin of {}", id.0)); }
        let nx = c.next().map_err(|x| format!("{x:?}"))?;
        let pv = c.prev().map_err(|x| format!("{x:?}"))?;
        if nx.0 >= n || pv.0 >= n { return e(format!("edge {} links outside", id.0)); }
        let nxe = d.get_edge(nx).unwrap().get();
        let pve = d.get_edge(pv).unwrap().get();
        if nxe.prev().ok() != Some(id) || pve.next().ok() != Some(id) { return e(format!("next/prev of {}", id.0)); }
        if nxe.cell().ok() != c.cell().ok() { return e(format!("cell of next of {}", id.0)); }
        if tw.cell().ok() == c.cell().ok() { return e(format!("cell of twin of {}", id.0)); }
        if tw.vertex0().is_some() && nxe.vertex0() != tw.vertex0() { return e(format!("vertex after {}", id.0)); }
    }
    for v in d.vertices() {
        let v = v.get();
        let first = v.get_incident_edge().map_err(|x| format!("{x:?}"))?;
        let (mut cur, mut k) = (first, 0);
        loop {
            if d.get_edge(cur).map_err(|x| format!("{x:?}"))?.get().vertex0() != Some(v.get_id()) { return e(format!("vertex {} edge {}", v.get_id().0, cur.0)); }
            cur = d.edge_rot_next(cur).map_err(|x| format!("{x:?}"))?;
            k += 1;
            if cur == first { break; }
            if k > n { return e(format!("vertex {} has no ring", v.get_id().0)); }
        }
        if k < 3 { return e(format!("vertex {} has {} edges", v.get_id().0, k)); }
    }
    Ok(())
}
/// (x bits, y bits) of the vertices and (vertex, vertex, cell site) of the edges, sorted
pub fn dist_point(x: f64, y: f64, p: [i32; 2]) -> f64 { ((x - p[0] as f64).powi(2) + (y - p[1] as f64).powi(2)).sqrt() }
pub fn dist_seg(x: f64, y: f64, s: [i32; 4]) -> f64 {
    let (ax, ay, bx, by) = (s[0] as f64, s[1] as f64, s[2] as f64, s[3] as f64);
    let l = (bx - ax).powi(2) + (by - ay).powi(2);
    let t = (((x - ax) * (bx - ax) + (y - ay) * (by - ay)) / l).max(0.0).min(1.0);
    ((x - ax - t * (bx - ax)).powi(2) + (y - ay - t * (by - ay)).powi(2)).sqrt()
}
/// every vertex is equally far from the sites around it and no site is closer
pub fn equidistant(d: &D, p: &[[i32; 2]], s: &[[i32; 4]], tol: f64) -> Result<(), String> {
    for v in d.vertices() {
        let v = v.get();
        let (x, y) = (v.x(), v.y());
        let mut ds = Vec::new();
        for e in d.edge_rot_next_iterator(v.get_incident_edge().ok()) {
            let c = d.get_cell(d.edge_get_cell(e).unwrap()).unwrap().get();
            let (i, cat) = c.source_index_2();
            ds.push(match cat {
                SourceCategory::SinglePoint => if i < p.len() { dist_point(x, y, p[i]) } else { let q = s[i - p.len()]; dist_point(x, y, [q[0], q[1]]) },
                SourceCategory::SegmentStart => { let q = s[i - p.len()]; dist_point(x, y, [q[0], q[1]]) }
                SourceCategory::SegmentEnd => { let q = s[i - p.len()]; dist_point(x, y, [q[2], q[3]]) }
                _ => dist_seg(x, y, s[i - p.len()]),
            });
        }
        let min = p.iter().map(|q| dist_point(x, y, *q)).chain(s.iter().map(|q| dist_seg(x, y, *q))).fold(f64::MAX, f64::min);
        for w in &ds { if !((w - min).abs() <= tol + 1e-9 * (x.abs() + y.abs())) { return Err(format!("vertex ({x},{y}): {w} and {min}")); } }
    }
    Ok(())
}
pub fn cross(a: [i32; 2], b: [i32; 2], c: [i32; 2]) -> i128 {
    (b[0] as i128 - a[0] as i128) * (c[1] as i128 - a[1] as i128) - (b[1] as i128 - a[1] as i128) * (c[0] as i128 - a[0] as i128)
}
/// the segments share at most end points, and no point lies inside one
pub fn valid(p: &[[i32; 2]], s: &[[i32; 4]]) -> bool {
    let on = |q: [i32; 2], s: [i32; 4]| {
        let (a, b) = ([s[0], s[1]], [s[2], s[3]]);
        cross(a, b, q) == 0 && q != a && q != b && (q[0] - a[0]).signum() * (q[0] - b[0]).signum() <= 0 && (q[1] - a[1]).signum() * (q[1] - b[1]).signum() <= 0
    };
    for (i, u) in s.iter().enumerate() {
        if u[0] == u[2] && u[1] == u[3] { return false; }
        for q in p { if on(*q, *u) { return false; } }
        for w in &s[..i] {
            let (a, b, c, d) = ([u[0], u[1]], [u[2], u[3]], [w[0], w[1]], [w[2], w[3]]);
            if on(a, *w) || on(b, *w) || on(c, *u) || on(d, *u) { return false; }
            if (a == c && b == d) || (a == d && b == c) { return false; }
            if cross(a, b, c).signum() * cross(a, b, d).signum() < 0 && cross(c, d, a).signum() * cross(c, d, b).signum() < 0 { return false; }
        }
    }
    true
}
/// small repeatable generator
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self, n: i32) -> i32 {
        self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17;
        ((self.0 >> 11) % n as u64) as i32
    }
}
