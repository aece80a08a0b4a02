//! Whole pipeline on small inputs.
use boostvoronoi_core::builder::Builder;
use boostvoronoi_core::diagram::{Cell, CellIndex, Diagram, Edge, EdgeIndex, SourceCategory, Vertex, VertexIndex};
use boostvoronoi_core::sync_diagram::SyncDiagram;
use boostvoronoi_core::BvError;
use boostvoronoi_core::geometry::{Line, Point};
use vh::*;

type P = Point<i32>;

/// the doubly connected edge list is consistent
fn dcel(d: &Diagram<f64>) {
    let (nc, ne, nv) = (d.cells().len(), d.edges().len(), d.vertices().len());
    check(d.num_cells() == nc && d.num_edges() == ne && d.num_vertices() == nv, 20);
    check(ne % 2 == 0, 21);
    for i in 0..ne {
        let e = d.edges()[i].get();
        check(e.id() == EdgeIndex(i), 22);
        let t = match e.twin() { Ok(t) => t.0, Err(_) => ne };
        check(t < ne && t != i, 23);
        let te = d.edges()[t].get();
        check(te.twin().ok() == Some(EdgeIndex(i)), 24);
        check(te.is_primary() == e.is_primary() && te.is_linear() == e.is_linear(), 25);
        let c = match e.cell() { Ok(c) => c.0, Err(_) => nc };
        check(c < nc, 26);
        check(te.cell().ok() != Some(CellIndex(c)), 27);
        let n = match e.next() { Ok(n) => n.0, Err(_) => ne };
        let p = match e.prev() { Ok(n) => n.0, Err(_) => ne };
        check(n < ne && p < ne, 28);
        let (ee, pe) = (d.edges()[n].get(), d.edges()[p].get());
        check(ee.prev().ok() == Some(EdgeIndex(i)) && pe.next().ok() == Some(EdgeIndex(i)), 29);
        check(ee.cell().ok() == Some(CellIndex(c)), 30);
        if let Some(v) = e.vertex0() { check(v.0 < nv, 31); }
        check(ee.vertex0() == te.vertex0(), 32);
    }
    let mut inner = 0;
    for i in 0..nc {
        let c = d.cells()[i].get();
        check(c.id() == CellIndex(i), 40);
        let mut n = 0;
        for e in d.cell_edge_iterator(CellIndex(i)) {
            check(d.edges()[e.0].get().cell().ok() == Some(CellIndex(i)), 41);
            n += 1;
            if n > ne { break; }
        }
        let m = d.edges().iter().filter(|e| e.get().cell().ok() == Some(CellIndex(i))).count();
        check(n == m, 42);
        check(c.is_degenerate() == (m == 0), 43);
        inner += n;
    }
    check(inner == ne, 44);
    for i in 0..nv {
        let v = d.vertices()[i].get();
        check(v.get_id().0 == i, 50);
        let e = match v.get_incident_edge() { Ok(e) => e.0, Err(_) => ne };
        check(e < ne, 51);
        let mut n = 0;
        for e in d.edge_rot_next_iterator(Some(EdgeIndex(e))) {
            check(d.edges()[e.0].get().vertex0().map(|v| v.0) == Some(i), 52);
            n += 1;
            if n > ne { break; }
        }
        let m = d.edges().iter().filter(|e| e.get().vertex0().map(|v| v.0) == Some(i)).count();
        check(n == m, 53);
        check(n >= 3, 54);
    }
    // Euler's formula; a cell without edges shrank to a point
    let full = d.cells().iter().filter(|c| !c.get().is_degenerate()).count();
    if nv > 0 { check(nv + full == ne / 2 + 1, 60); }
}


// ---------------------------------------------------------------------------------------------------- input
struct Input { v: Vec<P>, s: Vec<Line<i32>> }

/// coordinates: a grid of `n` values per axis, mapped by `mode`
///  0: lo..; 1: 0,1,.. times 2^28 around 0; 2: close to i32::MIN; 3: close to i32::MAX; 4: alternating ends of the range; 5: 0,1,3,7,15,..;
///  6: steps of 1000003; 7: pairs 0,1,2^20,2^20+1,..; 8: pairs -2^30,-2^30+1,0,1,..; 9: 0,1,7,-50,353,-2401
///  10..: irregular, the axes differ
fn coord(n: i64, mode: i64, axis: usize) -> i32 { map(range_i32(0, n as i32 - 1) as i64, n, mode, axis) }
fn point(n: i64, mode: i64) -> P { let x = coord(n, mode, 0); Point { x, y: coord(n, mode, 1) } }
const IRREGULAR: [[[i64; 6]; 2]; 5] = [
    [[0, 4, 5, 6, 2, 9], [2, 3, 5, 7, 0, 4]],
    [[0, 3, 7, 12, 13, 5], [0, 5, 8, 9, 2, 14]],
    [[0, 1, 5, 40, -7, 13], [0, 2, 3, 29, -5, 17]],
    [[-3, 0, 2, 7, 4, 5], [1, 3, 4, 6, 5, 0]],
    [[0, 97, 101, -89, 1009, 3], [0, 83, 103, -61, 2003, 5]],
];
fn map(k: i64, n: i64, mode: i64, axis: usize) -> i32 {
    if mode >= 10 { return IRREGULAR[mode as usize - 10][axis][k as usize] as i32; }
    (match mode {
        0 => k - n / 2,
        1 => (k - n / 2) << 28,
        2 => i32::MIN as i64 + k,
        3 => i32::MAX as i64 - k,
        4 => ((k & 1) * (u32::MAX as i64) + i32::MIN as i64) + (k >> 1) * (1 - 2 * (k & 1)),
        5 => (1 << k) - 1,
        6 => k * 1000003 - 77777,
        7 => ((k >> 1) << 20) + (k & 1),
        8 => ((k >> 1) << 30) - (1 << 30) + (k & 1),
        9 => [0, 1, 7, -50, 353, -2401][k as usize],
        _ => k,
    }) as i32
}
fn key(p: P) -> i128 { ((p.x as i128) << 40) + p.y as i128 }
fn lless(a: &Line<i32>, b: &Line<i32>) -> bool {
    let (p, q) = (key(a.start), key(b.start));
    (p < q) | ((p == q) & (key(a.end) < key(b.end)))
}
fn eqp(a: P, b: P) -> bool { (a.x == b.x) & (a.y == b.y) }
fn orient(a: P, b: P, c: P) -> i64 {
    let v = (b.x as i128 - a.x as i128) * (c.y as i128 - a.y as i128) - (b.y as i128 - a.y as i128) * (c.x as i128 - a.x as i128);
    (v > 0) as i64 - (v < 0) as i64
}
/// c strictly inside the segment ab
fn inside(a: P, b: P, c: P) -> bool {
    let dot = (a.x as i128 - c.x as i128) * (b.x as i128 - c.x as i128) + (a.y as i128 - c.y as i128) * (b.y as i128 - c.y as i128);
    (orient(a, b, c) == 0) & (dot < 0)
}
/// the interiors cross
fn cross(a: P, b: P, c: P, d: P) -> bool {
    (orient(a, b, c) * orient(a, b, d) < 0) & (orient(c, d, a) * orient(c, d, b) < 0)
}
/// np points, ns segments on a grid of n x n values; sorted: one representative of all input orders and directions
fn input(np: usize, ns: usize, n: i64, mode: i64, sorted: bool) -> Input {
    let mut v: Vec<P> = Vec::new();
    let mut s: Vec<Line<i32>> = Vec::new();
    for _ in 0..np { v.push(point(n, mode)); }
    for _ in 0..ns {
        let a = point(n, mode);
        let b = point(n, mode);
        s.push(Line { start: a, end: b });
    }
    let mut ok = true;
    for i in 1..np { if sorted { ok &= key(v[i - 1]) < key(v[i]); } }
    for i in 0..ns { if sorted { ok &= key(s[i].start) < key(s[i].end); } }
    for i in 1..ns { if sorted { ok &= lless(&s[i - 1], &s[i]); } }
    assume(ok);
    let i = Input { v, s };
    assume(planar(&i));
    known_inputs(&i, n, mode);
    i
}
/// inputs listed in known_findings.json, one by one: number, points, segments, grid, mode, coordinates
const KNOWN: &[(u32, usize, usize, i64, i64, &[i64])] = &[
    (1, 2, 1, 3, 4, &[1, 0, 1, 2, 0, 2, 0, 1]),
    (2, 2, 1, 3, 4, &[1, 0, 1, 2, 0, 1, 2, 2]),
    (3, 2, 1, 3, 4, &[1, 0, 1, 2, 2, 2, 2, 1]),
    (4, 2, 1, 3, 4, &[1, 0, 1, 2, 2, 1, 1, 1]),
    (5, 0, 2, 3, 4, &[0, 2, 0, 1, 1, 0, 1, 2]),
    (6, 0, 2, 3, 4, &[0, 2, 0, 1, 1, 0, 1, 1]),
    (7, 0, 2, 3, 4, &[0, 2, 1, 0, 0, 1, 2, 2]),
    (8, 0, 2, 3, 4, &[0, 2, 1, 0, 2, 2, 2, 1]),
    (9, 0, 2, 3, 4, &[0, 2, 1, 0, 2, 2, 1, 1]),
    (10, 0, 2, 3, 4, &[0, 1, 2, 0, 2, 2, 1, 0]),
    (11, 0, 2, 3, 4, &[0, 1, 2, 0, 2, 2, 1, 2]),
    (12, 0, 2, 3, 4, &[0, 1, 2, 0, 2, 2, 1, 1]),
    (13, 0, 2, 3, 4, &[2, 2, 2, 1, 1, 0, 1, 2]),
    (14, 0, 2, 3, 4, &[2, 2, 2, 1, 1, 0, 1, 1]),
    (15, 2, 1, 4, 7, &[0, 2, 2, 2, 2, 3, 3, 0]),
    (16, 2, 1, 4, 7, &[0, 3, 2, 2, 2, 3, 3, 0]),
    (17, 2, 1, 4, 7, &[1, 2, 2, 2, 2, 3, 3, 0]),
    (18, 2, 1, 4, 7, &[1, 2, 2, 2, 2, 3, 3, 1]),
    (19, 2, 1, 4, 7, &[1, 3, 2, 2, 2, 3, 3, 0]),
    (20, 2, 1, 4, 7, &[1, 3, 2, 2, 2, 3, 3, 1]),
];
fn known_inputs(i: &Input, n: i64, mode: i64) {
    for (k, np, ns, kn, km, v) in KNOWN {
        if *np == i.v.len() && *ns == i.s.len() && *kn == n && *km == mode && known(*k) {
            let mut same = true;
            let at = |j: usize| Point { x: map(v[j], n, mode, 0), y: map(v[j + 1], n, mode, 1) };
            for j in 0..*np { same &= eqp(i.v[j], at(2 * j)); }
            for j in 0..*ns { same &= eqp(i.s[j].start, at(2 * np + 4 * j)) & eqp(i.s[j].end, at(2 * np + 4 * j + 2)); }
            assume(!same);
        }
    }
}
/// segments neither cross nor touch each other's or the points' inside
fn planar(i: &Input) -> bool {
    let s = &i.s;
    let mut ok = true;
    for a in 0..s.len() {
        for p in &i.v { ok &= !inside(s[a].start, s[a].end, *p); }
        for b in 0..s.len() {
            if a != b {
                ok &= !inside(s[a].start, s[a].end, s[b].start) & !inside(s[a].start, s[a].end, s[b].end);
            }
            if a < b {
                ok &= !cross(s[a].start, s[a].end, s[b].start, s[b].end);
            }
        }
    }
    ok
}
/// a chain of segments through n points, closed or not, or a star around the first; plus np points
fn chain(n: usize, np: usize, grid: i64, mode: i64, shape: i64) -> Input {
    let p: Vec<P> = (0..n).map(|_| point(grid, mode)).collect();
    let v: Vec<P> = (0..np).map(|_| point(grid, mode)).collect();
    let mut ok = true;
    // one representative of every rotation (closed) or order (star)
    for k in 1..n {
        for l in 0..k { ok &= !eqp(p[k], p[l]); }
        if shape == 1 { ok &= key(p[0]) < key(p[k]); }
        if shape == 2 && k > 1 { ok &= key(p[k - 1]) < key(p[k]); }
    }
    for k in 1..np { ok &= key(v[k - 1]) < key(v[k]); }
    assume(ok);
    let mut s = Vec::new();
    for k in 1..n { s.push(Line { start: if shape == 2 { p[0] } else { p[k - 1] }, end: p[k] }); }
    if shape == 1 && n > 2 { s.push(Line { start: p[n - 1], end: p[0] }); }
    let i = Input { v, s };
    assume(planar(&i));
    i
}
fn build(i: &Input) -> Option<Diagram<f64>> {
    let b = Builder::<i32, f64>::default().with_vertices(i.v.iter());
    check(b.is_ok(), 10);
    let b = b.ok()?.with_segments(i.s.iter());
    check(b.is_ok(), 11);
    let d = b.ok()?.build();
    check(d.is_ok(), 12);
    d.ok()
}

// ---------------------------------------------------------------------------------------------------- sites
/// the input geometry of a cell
#[derive(Copy, Clone)]
enum Site { P(P), S(P, P) }
fn site(d: &Diagram<f64>, i: &Input, c: usize) -> Site {
    let cell = d.cells()[c].get();
    let (k, cat) = cell.source_index_2();
    let np = i.v.len();
    check(k < np + i.s.len(), 80);
    check(cell.source_index() == k && cell.source_category() == cat, 81);
    check(cell.contains_point() == (cat != SourceCategory::Segment), 82);
    check(cell.contains_segment() == (cat == SourceCategory::Segment), 83);
    check(cell.contains_segment_startpoint() == (cat == SourceCategory::SegmentStart), 84);
    check(cell.contains_segment_endpoint() == (cat == SourceCategory::SegmentEnd), 85);
    if k < np {
        check(cat == SourceCategory::SinglePoint, 86);
        return Site::P(i.v[k]);
    }
    let l = i.s[k - np];
    match cat {
        SourceCategory::SinglePoint => { check(eqp(l.start, l.end), 87); Site::P(l.start) }
        SourceCategory::SegmentStart => Site::P(l.start),
        SourceCategory::SegmentEnd => Site::P(l.end),
        SourceCategory::Segment => { check(!eqp(l.start, l.end), 88); Site::S(l.start, l.end) }
    }
}
fn same(a: Site, b: Site) -> bool {
    match (a, b) {
        (Site::P(a), Site::P(b)) => eqp(a, b),
        (Site::S(a, b), Site::S(c, d)) => (eqp(a, c) & eqp(b, d)) | (eqp(a, d) & eqp(b, c)),
        _ => false,
    }
}
/// every site of the input has exactly one cell, and every cell belongs to a site of the input
fn cells(d: &Diagram<f64>, i: &Input) -> Vec<Site> {
    let mut all: Vec<(Site, bool)> = i.v.iter().map(|p| (Site::P(*p), true)).collect();
    for l in &i.s {
        let real = !eqp(l.start, l.end);
        all.push((Site::P(l.start), true));
        all.push((Site::P(l.end), true));
        all.push((Site::S(l.start, l.end), real));
    }
    let mut n = 0;
    for a in 0..all.len() {
        let mut dup = !all[a].1;
        for b in 0..a { dup |= all[b].1 & same(all[a].0, all[b].0); }
        n += !dup as usize;
    }
    check(n == d.cells().len(), 70);
    let s: Vec<Site> = (0..d.cells().len()).map(|c| site(d, i, c)).collect();
    for a in 0..s.len() {
        for b in 0..a { check(!same(s[a], s[b]), 71); }
    }
    s
}
fn hyp(x: f64, y: f64) -> f64 { (x * x + y * y).sqrt() }
fn dist(s: Site, x: f64, y: f64) -> f64 {
    match s {
        Site::P(p) => hyp(x - p.x as f64, y - p.y as f64),
        Site::S(a, b) => {
            let (ax, ay) = (a.x as f64, a.y as f64);
            let (dx, dy) = (b.x as f64 - ax, b.y as f64 - ay);
            let t = ((x - ax) * dx + (y - ay) * dy) / (dx * dx + dy * dy);
            let t = t.max(0.0).min(1.0);
            hyp(x - (ax + t * dx), y - (ay + t * dy))
        }
    }
}
fn own_end(s: Site, p: Site) -> bool {
    match (s, p) {
        (Site::S(a, b), Site::P(c)) => eqp(a, c) | eqp(b, c),
        _ => false,
    }
}
/// a vertex of three points: correct to a few last bits
fn circumcentre(p: &[P], x: f64, y: f64) {
    let (a, b, c) = (p[0], p[1], p[2]);
    let (bx, by) = (b.x as i128 - a.x as i128, b.y as i128 - a.y as i128);
    let (cx, cy) = (c.x as i128 - a.x as i128, c.y as i128 - a.y as i128);
    let det = 2 * (bx * cy - by * cx);
    if det == 0 { return; }
    let (b2, c2) = (bx * bx + by * by, cx * cx + cy * cy);
    let nx = cy * b2 - by * c2 + a.x as i128 * det;
    let ny = bx * c2 - cx * b2 + a.y as i128 * det;
    let (ex, ey) = (nx as f64 / det as f64, ny as f64 / det as f64);
    check((x - ex).abs() <= ex.abs() * 1e-13, 98);
    check((y - ey).abs() <= ey.abs() * 1e-13, 99);
}
/// vertices are centres of empty circles through the sites of the cells around them; edges separate nearest sites
fn geometry(d: &Diagram<f64>, s: &[Site], m: f64) {
    let nv = d.vertices().len();
    for i in 0..nv {
        let v = d.vertices()[i].get();
        let (x, y) = (v.x(), v.y());
        check(x.is_finite() & y.is_finite(), 90);
        let eps = 1e-9 * (1.0 + m + x.abs() + y.abs());
        let mut r = f64::INFINITY;
        let ds: Vec<f64> = s.iter().map(|s| dist(*s, x, y)).collect();
        for q in &ds { r = if *q < r { *q } else { r }; }
        for e in d.edges() {
            let e = e.get();
            if e.vertex0().map(|v| v.0) == Some(i) {
                if let Ok(c) = e.cell() { if c.0 < s.len() { check(ds[c.0] <= r + eps, 91); } }
            }
        }
        if v.is_site_point() { check(r <= eps, 92); }
        let mut p: Vec<P> = Vec::new();
        for e in d.edges() {
            let e = e.get();
            if e.vertex0().map(|v| v.0) == Some(i) {
                if let Some(Site::P(q)) = e.cell().ok().and_then(|c| s.get(c.0)) { p.push(*q); }
            }
        }
        if p.len() > 2 { circumcentre(&p, x, y); }
    }
    let ne = d.edges().len();
    for i in 0..ne {
        let e = d.edges()[i].get();
        let t = e.twin().map(|t| t.0).unwrap_or(0);
        let te = d.edges()[t].get();
        let (c0, c1) = (e.cell().map(|c| c.0).unwrap_or(0), te.cell().map(|c| c.0).unwrap_or(0));
        let own = own_end(s[c0], s[c1]) | own_end(s[c1], s[c0]);
        check(e.is_primary() == !own && e.is_secondary() == own, 93);
        let mixed = matches!((s[c0], s[c1]), (Site::P(_), Site::S(..)) | (Site::S(..), Site::P(_)));
        check(e.is_curved() == (mixed & !own) && e.is_linear() == !(mixed & !own), 94);
        if let (Some(a), Some(b)) = (e.vertex0(), te.vertex0()) {
            check(a != b, 95);
            let (a, b) = (d.vertices()[a.0].get(), d.vertices()[b.0].get());
            let eps = 1e-9 * (1.0 + m + a.x().abs() + a.y().abs() + b.x().abs() + b.y().abs());
            if e.is_linear() {
                // the middle of a straight edge is as close to its two sites as to any other
                let (x, y) = ((a.x() + b.x()) * 0.5, (a.y() + b.y()) * 0.5);
                let mut r = f64::INFINITY;
                for q in s { let q = dist(*q, x, y); r = if q < r { q } else { r }; }
                check(dist(s[c0], x, y) <= r + eps, 96);
            }
            // the site of the cell lies to the left of its edges (counter-clockwise cells)
            if let (Site::P(p), true) = (s[c0], e.is_linear()) {
                let (dx, dy) = (b.x() - a.x(), b.y() - a.y());
                let z = dx * (p.y as f64 - a.y()) - dy * (p.x as f64 - a.x());
                // the direction of an edge shorter than the accuracy of its ends means nothing
                check((dx.abs() + dy.abs() <= eps) | (z >= -eps * (dx.abs() + dy.abs())), 97);
            }
        }
    }
}


// ---------------------------------------------------------------------------------------------------- other views
/// accessors of the diagram and of its thread-safe copy agree with the records; ends with the copy
fn views(d: Diagram<f64>) {
    let (nc, ne, nv) = (d.cells().len(), d.edges().len(), d.vertices().len());
    let es: Vec<Edge> = d.edges().iter().map(|e| e.get()).collect();
    let cs: Vec<Cell> = d.cells().iter().map(|c| c.get()).collect();
    let vs: Vec<Vertex<f64>> = d.vertices().iter().map(|v| v.get()).collect();
    let mut rots: Vec<Vec<usize>> = Vec::new();
    for i in 0..ne {
        let k = EdgeIndex(i);
        let e = &es[i];
        let (t, n, p) = (e.twin().unwrap(), e.next().unwrap(), e.prev().unwrap());
        check(d.edge_get_twin(k).ok() == Some(t) && d.edge_get_next(k).ok() == Some(n), 100);
        check(d.edge_get_cell(k).ok() == e.cell().ok(), 101);
        check(d.edge_get_vertex0(k).ok() == Some(e.vertex0()) && d.edge_get_vertex1(k).ok() == Some(es[t.0].vertex0()), 102);
        let fin = e.vertex0().is_some() && es[t.0].vertex0().is_some();
        check(d.edge_is_finite(k).ok() == Some(fin) && d.edge_is_infinite(k).ok() == Some(!fin), 103);
        check(d.edge_rot_next(k).ok() == es[p.0].twin().ok() && d.edge_rot_prev(Some(k)) == es[t.0].next().ok(), 104);
        let l = d.edge_as_line(k);
        check(l.is_ok() == fin, 105);
        if let (Ok(l), Some(a), Some(b)) = (l, e.vertex0(), es[t.0].vertex0()) {
            let (a, b) = (&vs[a.0], &vs[b.0]);
            check(l == [a.x(), a.y(), b.x(), b.y()], 106);
        }
        check(d.get_edge(k).map(|x| x.get().id()).ok() == Some(k), 107);
        // around the start of the edge: forwards, backwards
        let mut f: Vec<usize> = Vec::new();
        let mut x = i;
        loop {
            f.push(x);
            x = es[es[x].prev().unwrap().0].twin().unwrap().0;
            if x == i || f.len() > ne { break; }
        }
        let a: Vec<usize> = d.edge_rot_next_iterator(Some(k)).take(ne + 1).map(|e| e.0).collect();
        check(a == f, 108);
        let mut b: Vec<usize> = d.edge_rot_prev_iterator(Some(k)).take(ne + 1).map(|e| e.0).collect();
        if b.len() > 1 { b[1..].reverse(); }
        check(b == f, 109);
        rots.push(f);
    }
    for i in 0..nc {
        let c = d.get_cell(CellIndex(i));
        check(c.is_ok(), 110);
        if let Ok(c) = c { check(c.get().id().0 == i && c.get().source_index() == cs[i].source_index(), 111); }
    }
    for i in 0..nv {
        let k = VertexIndex(i);
        check(d.vertex_get(k).map(|v| v.get().get_id()).ok() == Some(k), 112);
        check(d.vertex_get_incident_edge(Some(k)) == vs[i].get_incident_edge().ok(), 113);
        check(d.vertex_is_site_point(k).ok() == Some(vs[i].is_site_point()) && d.vertex_get_color(Some(k)) == Some(vs[i].get_color()), 114);
    }
    let s: SyncDiagram<f64> = SyncDiagram::from(d);
    check(s.cells().len() == nc && s.edges().len() == ne && s.vertices().len() == nv, 120);
    for i in 0..ne {
        let k = EdgeIndex(i);
        let e = &es[i];
        let g = &s.edges()[i];
        let t = e.twin().unwrap();
        check(g.id() == e.id() && g.cell().ok() == e.cell().ok() && g.vertex0() == e.vertex0() && g.twin().ok() == Some(t), 121);
        check(g.next().ok() == e.next().ok() && g.prev().ok() == e.prev().ok() && g.get_color() == e.get_color(), 122);
        check(g.is_primary() == e.is_primary() && g.is_linear() == e.is_linear(), 123);
        check(s.edge_get_next(k).ok() == e.next().ok() && s.edge_get_prev(k).ok() == e.prev().ok() && s.edge_get_twin(k).ok() == Some(t), 124);
        check(s.edge_get_vertex0(k).ok() == Some(e.vertex0()) && s.edge_get_vertex1(k).ok() == Some(es[t.0].vertex0()), 125);
        let fin = e.vertex0().is_some() && es[t.0].vertex0().is_some();
        check(s.edge_is_finite(k).ok() == Some(fin) && s.edge_is_infinite(k).ok() == Some(!fin), 126);
        check(s.edge_rot_next(k).ok() == es[e.prev().unwrap().0].twin().ok() && s.edge_rot_prev(k).ok() == es[t.0].next().ok(), 127);
        let f: Vec<usize> = s.edge_rot_next_iterator(k).take(ne + 1).map(|e| e.0).collect();
        check(f == rots[i], 128);
    }
    for i in 0..nc {
        let (a, b) = (&cs[i], s.cell_get(CellIndex(i)));
        check(b.map(|b| b.id() == a.id() && b.source_index_2() == a.source_index_2() && b.get_incident_edge() == a.get_incident_edge()).unwrap_or(false), 129);
    }
    for i in 0..nv {
        let (a, b) = (&vs[i], s.vertex_get(VertexIndex(i)));
        check(b.map(|b| b.x() == a.x() && b.y() == a.y() && b.get_id() == a.get_id() && b.get_color() == a.get_color()
            && b.is_site_point() == a.is_site_point() && b.get_incident_edge().ok() == a.get_incident_edge().ok()).unwrap_or(false), 130);
    }
}
/// the exterior: everything that infinite edges reach along primary edges, not through vertices at sites
fn exterior(d: &Diagram<f64>, color: u32) {
    let es: Vec<Edge> = d.edges().iter().map(|e| e.get()).collect();
    let vs: Vec<Vertex<f64>> = d.vertices().iter().map(|v| v.get()).collect();
    let ne = es.len();
    let tw = |i: usize| es[i].twin().unwrap().0;
    let mut seen = vec![false; ne];
    let mut vseen = vec![false; vs.len()];
    let mut todo: Vec<usize> = (0..ne).filter(|i| es[*i].vertex0().is_none() || es[tw(*i)].vertex0().is_none()).collect();
    while let Some(i) = todo.pop() {
        if seen[i] { continue; }
        seen[i] = true;
        if let Some(v) = es[tw(i)].vertex0() {
            if es[i].is_primary() && !vs[v.0].is_site_point() {
                vseen[v.0] = true;
                for j in 0..ne { if es[j].vertex0() == Some(v) { todo.push(j); } }
            }
        }
    }
    d.color_exterior_edges(color);
    for i in 0..ne {
        let e = d.edges()[i].get();
        let ext = seen[i] | seen[tw(i)];
        check(e.get_color() == if ext { color } else { 0 }, 140);
        check(d.edge_get_color(EdgeIndex(i)).ok() == Some(e.get_color()), 141);
        check(e.is_primary() == es[i].is_primary() && e.is_linear() == es[i].is_linear() && e.twin().ok() == es[i].twin().ok(), 142);
    }
    for i in 0..vs.len() {
        let v = d.vertices()[i].get();
        check(v.get_color() == if vseen[i] { color } else { 0 }, 143);
        check(v.is_site_point() == vs[i].is_site_point(), 144);
    }
}
/// the same sites in another order and with other directions
fn permuted(i: &Input, how: i64) -> Input {
    let mut v = i.v.clone();
    let mut s = i.s.clone();
    if how & 1 != 0 { v.reverse(); s.reverse(); }
    if how & 2 != 0 && v.len() > 1 { v.rotate_left(1); }
    if how & 2 != 0 && s.len() > 1 { s.rotate_left(1); }
    for (k, l) in s.iter_mut().enumerate() {
        if (how >> (2 + k)) & 1 != 0 { let t = l.start; l.start = l.end; l.end = t; }
    }
    Input { v, s }
}
fn equal(a: &Diagram<f64>, b: &Diagram<f64>, id: u32) {
    check(a.cells().len() == b.cells().len() && a.edges().len() == b.edges().len() && a.vertices().len() == b.vertices().len(), id);
    for (a, b) in a.vertices().iter().zip(b.vertices()) {
        let (a, b) = (a.get(), b.get());
        check(a.x() == b.x() && a.y() == b.y(), id + 1);
        check(a.is_site_point() == b.is_site_point() && a.get_incident_edge().ok() == b.get_incident_edge().ok(), id + 2);
    }
    for (a, b) in a.edges().iter().zip(b.edges()) {
        let (a, b) = (a.get(), b.get());
        check(a.cell().ok() == b.cell().ok() && a.vertex0() == b.vertex0() && a.twin().ok() == b.twin().ok(), id + 3);
        check(a.next().ok() == b.next().ok() && a.prev().ok() == b.prev().ok(), id + 4);
        check(a.is_primary() == b.is_primary() && a.is_linear() == b.is_linear(), id + 5);
    }
    for (a, b) in a.cells().iter().zip(b.cells()) { check(a.get().get_incident_edge() == b.get().get_incident_edge(), id + 6); }
}
fn scale(mode: i64, n: i64) -> f64 {
    match mode { 1..=4 | 8 => 2147483648.0, 7 => 1048576.0 * n as f64, 9 => 2401.0, 6 => 1e6 * n as f64, 5 => (1i64 << n) as f64, _ => n as f64 }
}

fn whole(i: &Input, what: i64, m: f64) {
    if let Some(d) = build(i) {
        note(1, d.cells().len() as u64); note(2, d.edges().len() as u64); note(3, d.vertices().len() as u64);
        if d.vertices().len() > 0 { reach(2); }
        if what & 1 != 0 { dcel(&d); }
        if what & 6 != 0 {
            let s = cells(&d, i);
            if what & 4 != 0 { geometry(&d, &s, m); }
        }
        if what & 16 != 0 {
            exterior(&d, 5);
            if d.edges().iter().any(|e| e.get().get_color() == 0) { reach(3); }
        }
        if what & 8 != 0 { views(d); }
        reach(1);
    }
}

harnesses! {
    /// params: points, segments, grid, mode of the grid, sorted, what to assert (1 records, 2 cells, 4 geometry, 8 accessors, 16 exterior)
    fn h_whole() {
        let i = input(param(0) as usize, param(1) as usize, param(2), param(3), param(4) == 1);
        whole(&i, param(5), scale(param(3), param(2)));
    }
    /// params: points of the chain, single points, grid, mode, shape (0 open, 1 closed, 2 star), what to assert
    fn h_chain() {
        let i = chain(param(0) as usize, param(1) as usize, param(2), param(3), param(4));
        whole(&i, param(5), scale(param(3), param(2)));
    }
    /// params: points, segments, grid, mode, sorted, permutation and reversal
    fn h_perm() {
        let i = input(param(0) as usize, param(1) as usize, param(2), param(3), param(4) == 1);
        let j = permuted(&i, param(5));
        if let (Some(a), Some(b)) = (build(&i), build(&j)) {
            equal(&a, &b, 150);
            let (s, t) = (cells(&a, &i), cells(&b, &j));
            for k in 0..s.len() { check(same(s[k], t[k]), 157); }
            if a.vertices().len() > 0 { reach(2); }
            reach(1);
        }
    }
    /// input given in several calls and in other types is the same input; params: points, segments, grid, mode, sorted
    fn h_calls() {
        let i = input(param(0) as usize, param(1) as usize, param(2), param(3), param(4) == 1);
        if let Some(a) = build(&i) {
            let (h, g) = (i.v.len() / 2, i.s.len() / 2);
            let b = Builder::<i32, f64>::default().with_vertices(i.v[..h].iter()).and_then(|b| b.with_vertices(i.v[h..].iter().map(|p| [p.x, p.y])));
            let b = b.and_then(|b| b.with_segments(i.s[..g].iter())).and_then(|b| b.with_segments(i.s[g..].iter().map(|l| [l.start.x, l.start.y, l.end.x, l.end.y])));
            let b = b.and_then(|b| b.build());
            check(b.is_ok(), 160);
            if let Ok(b) = b {
                equal(&a, &b, 161);
                for (x, y) in a.cells().iter().zip(b.cells()) { check(x.get().source_index_2() == y.get().source_index_2(), 168); }
            }
            let c = Builder::<i32, f64>::default().with_segments(i.s.iter()).and_then(|b| b.with_vertices(i.v.iter()));
            check(matches!(c, Err(BvError::VerticesGoesFirst(_))), 169);
            reach(1);
        }
    }
    /// accessors with ids that may not exist, on a fixed diagram
    fn h_ids() {
        let i = if param(0) == 0 { Input { v: vec![P { x: 0, y: 0 }, P { x: 4, y: 1 }, P { x: 1, y: 5 }], s: vec![] } }
            else { Input { v: vec![P { x: 9, y: 2 }], s: vec![Line { start: P { x: 0, y: 0 }, end: P { x: 3, y: 7 } }] } };
        let d = build(&i);
        if d.is_none() { return; }
        let mut d = d.unwrap();
        let (nc, ne, nv) = (d.cells().len(), d.edges().len(), d.vertices().len());
        let id = any_u64() as usize;
        let e = EdgeIndex(id);
        let ok = id < ne;
        check(d.get_edge(e).is_ok() == ok && d.edge_get_color(e).is_ok() == ok && d.edge_get_twin(e).is_ok() == ok, 170);
        check(d.edge_get_next(e).is_ok() == ok && d.edge_get_cell(e).is_ok() == ok && d.edge_rot_next(e).is_ok() == ok, 171);
        check(d.edge_get_vertex0(e).is_ok() == ok && d.edge_get_vertex1(e).is_ok() == ok, 172);
        check(d.edge_is_finite(e).is_ok() == ok && d.edge_is_infinite(e).is_ok() == ok, 173);
        check(d.edge_set_color(e, 1).is_ok() == ok && d.edge_or_color(e, 1).is_ok() == ok, 174);
        check(d.edge_rot_prev(Some(e)).is_some() == ok && d.edge_rot_prev(None).is_none(), 175);
        if !ok {
            check(d.edge_as_line(e).is_err(), 176);
            check(d.edges().iter().all(|e| e.get().get_color() == 0), 177);
            check(d.edge_rot_next_iterator(Some(e)).take(9).count() <= 1 && d.edge_rot_prev_iterator(Some(e)).take(9).count() <= 1, 178);
            reach(2);
        }
        check(d.edge_rot_next_iterator(None).next().is_none() && d.edge_rot_prev_iterator(None).next().is_none(), 179);
        let v = VertexIndex(id);
        let ok = id < nv;
        check(d.vertex_get(v).is_ok() == ok && d.vertex_is_site_point(v).is_ok() == ok && d.vertex_set_color(v, 3).is_ok() == ok, 180);
        check(d.vertex_get_color(Some(v)) == if ok { Some(3) } else { None }, 181);
        check(d.vertex_get_incident_edge(Some(v)).is_some() == ok && d.vertex_get_incident_edge(None).is_none(), 182);
        d.vertex_or_color(v, 4);
        check(d.vertex_get_color(Some(v)) == if ok { Some(7) } else { None }, 183);
        check(d.vertices().iter().all(|x| x.get().get_color() == if x.get().get_id() == v { 7 } else { 0 }), 184);
        let c = CellIndex(id);
        let ok = id < nc;
        check(d.get_cell(c).is_ok() == ok, 185);
        check((d.cell_edge_iterator(c).take(9).count() > 0) == ok, 186);
        let mut s = SyncDiagram::from({ let x = d; d = Diagram::default(); x });
        check(d.cells().is_empty(), 187);
        let ok = id < ne;
        check(s.edge_get(e).is_ok() == ok && s.edge_get_twin(e).is_ok() == ok && s.edge_get_next(e).is_ok() == ok && s.edge_get_prev(e).is_ok() == ok, 190);
        check(s.edge_get_vertex0(e).is_ok() == ok && s.edge_get_vertex1(e).is_ok() == ok && s.edge_rot_next(e).is_ok() == ok && s.edge_rot_prev(e).is_ok() == ok, 191);
        check(s.edge_is_finite(e).is_ok() == ok && s.edge_is_infinite(e).is_ok() == ok && s.edge_get_mut(e).is_ok() == ok, 192);
        if !ok { check(s.edge_rot_next_iterator(e).take(9).count() <= 1, 193); }
        check(s.vertex_get(v).is_ok() == (id < nv) && s.vertex_get_mut(v).is_ok() == (id < nv) && s.cell_get(c).is_ok() == (id < nc), 194);
        reach(1);
    }
    /// colours of edges and vertices: 27 bits, apart from the flags
    fn h_color() {
        let i = Input { v: vec![P { x: 9, y: 2 }], s: vec![Line { start: P { x: 0, y: 0 }, end: P { x: 3, y: 7 } }] };
        if let Some(d) = build(&i) {
            let (a, b) = (any_u32(), any_u32());
            const M: u32 = (1 << 27) - 1;
            for k in 0..d.edges().len() {
                let e0 = d.edges()[k].get();
                let mut e = e0;
                let _ = e.set_color(a);
                check(e.get_color() == a & M, 200);
                let _ = e.or_color(b);
                check(e.get_color() == (a | b) & M, 201);
                check(e.is_primary() == e0.is_primary() && e.is_secondary() == e0.is_secondary() && e.is_linear() == e0.is_linear() && e.is_curved() == e0.is_curved(), 202);
                let _ = e.set_color(b);
                check(e.get_color() == b & M, 203);
                check(d.edge_set_color(EdgeIndex(k), a).is_ok() && d.edge_get_color(EdgeIndex(k)).ok() == Some(a & M), 204);
                check(d.edge_or_color(EdgeIndex(k), b).is_ok() && d.edge_get_color(EdgeIndex(k)).ok() == Some((a | b) & M), 205);
                let e = d.edges()[k].get();
                check(e.is_primary() == e0.is_primary() && e.is_linear() == e0.is_linear() && e.vertex0() == e0.vertex0() && e.cell().ok() == e0.cell().ok(), 206);
            }
            for k in 0..d.vertices().len() {
                let v0 = d.vertices()[k].get();
                let mut v = v0;
                let _ = v.set_color(a);
                check(v.get_color() == a & M, 210);
                let _ = v.or_color(b);
                check(v.get_color() == (a | b) & M && v.is_site_point() == v0.is_site_point(), 211);
                check(d.vertex_set_color(VertexIndex(k), a).is_ok() && d.vertex_get_color(Some(VertexIndex(k))) == Some(a & M), 212);
                d.vertex_or_color(VertexIndex(k), b);
                check(d.vertex_get_color(Some(VertexIndex(k))) == Some((a | b) & M), 213);
                let v = d.vertices()[k].get();
                check(v.is_site_point() == v0.is_site_point() && v.x() == v0.x() && v.y() == v0.y(), 214);
            }
            let mut v = Vertex::<f64>::new_3(VertexIndex(5), 1.0, 2.0, a & 1 == 1).get();
            let _ = v.set_color(b);
            check(v.is_site_point() == (a & 1 == 1) && v.get_color() == b & M && v.x() == 1.0 && v.y() == 2.0 && v.get_id().0 == 5, 215);
            reach(1);
        }
    }
    /// sites on one axis-parallel line, any coordinates
    fn h_line() {
        let n = param(0) as usize;
        let mut v: Vec<P> = Vec::new();
        for _ in 0..n {
            let (a, b) = (any_i32(), any_i32());
            v.push(if param(1) == 0 { Point { x: 7, y: a } } else { Point { x: a, y: 7 } });
            let _ = b;
        }
        let i = Input { v, s: vec![] };
        if let Some(d) = build(&i) {
            dcel(&d);
            let _ = cells(&d, &i);
            check(d.vertices().len() == 0, 61);
            check(d.edges().len() + 2 == 2 * d.cells().len(), 62);
            reach(1);
        }
    }
    /// one segment anywhere, or two points anywhere
    fn h_one() {
        let mut i = Input { v: vec![], s: vec![] };
        let (a, b) = (Point { x: any_i32(), y: any_i32() }, Point { x: any_i32(), y: any_i32() });
        if param(0) == 0 { i.v.push(a); i.v.push(b); } else { i.s.push(Line { start: a, end: b }); }
        if let Some(d) = build(&i) {
            dcel(&d);
            let _ = cells(&d, &i);
            check(d.vertices().len() == 0, 61);
            check(d.edges().len() + 2 == 2 * d.cells().len(), 62);
            reach(1);
        }
    }
}
