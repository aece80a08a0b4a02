//! Reading the text format of the C++ examples.
use boostvoronoi_core::file_reader::read_boost_input_buffer;
use std::io::BufReader;
use vh::*;

/// a number written with sign and digits, and its value
fn number(t: &mut Vec<u8>, digits: i64) -> i32 {
    let neg = any_bool();
    if neg { t.push(b'-'); }
    let mut v = 0;
    for _ in 0..digits {
        let d = range_i32(0, 9);
        t.push(b'0' + d as u8);
        v = v * 10 + d;
    }
    if neg { -v } else { v }
}
harnesses! {
    /// params: points, segments, digits
    fn h_read() {
        let (np, ns, k) = (param(0), param(1), param(2));
        let mut t: Vec<u8> = Vec::with_capacity(256);
        let mut v: Vec<i32> = Vec::with_capacity(64);
        t.push(b'0' + np as u8);
        t.push(b'\n');
        for _ in 0..np {
            for j in 0..2 { v.push(number(&mut t, k)); t.push(if j == 1 { b'\n' } else { b' ' }); }
        }
        t.push(b'0' + ns as u8);
        t.push(b'\n');
        for _ in 0..ns {
            for j in 0..4 { v.push(number(&mut t, k)); t.push(if j == 3 { b'\n' } else { b' ' }); }
        }
        let r = read_boost_input_buffer::<i32, _>(BufReader::with_capacity(512, &t[..]));
        check(r.is_ok(), 10);
        let (p, s) = r.unwrap();
        check(p.len() == np as usize && s.len() == ns as usize, 11);
        let mut i = 0;
        for q in &p { check((q.x == v[i]) & (q.y == v[i + 1]), 12); i += 2; }
        for l in &s { check((l.start.x == v[i]) & (l.start.y == v[i + 1]) & (l.end.x == v[i + 2]) & (l.end.y == v[i + 3]), 13); i += 4; }
        reach(1);
    }
    /// any text over a small alphabet; params: length, number of letters, starts with a valid head (kind)
    fn h_text() {
        let (n, k) = (param(0) as usize, param(1) as i32);
        let abc: [u8; 12] = [b'\n', b' ', b'1', b'0', b'-', b'2', b'+', b'x', b'\r', b'9', b'.', b'\t'];
        let mut t: Vec<u8> = Vec::with_capacity(64);
        let head: &[u8] = match param(2) { 0 => b"", 1 => b"1\n", 2 => b"0\n1\n", 3 => b"1\n0 0\n", 4 => b"2\n7 8\n", _ => b"0\n2\n1 2 3 4\n" };
        t.extend_from_slice(head);
        for _ in 0..n { t.push(abc[range_i32(0, k - 1) as usize]); }
        let (mp, ms) = model(&t);
        let r = read_boost_input_buffer::<i32, _>(BufReader::with_capacity(64, &t[..]));
        check(r.is_ok(), 20);
        let (p, s) = r.unwrap();
        check(p.len() == mp.len() && s.len() == ms.len(), 21);
        for (q, m) in p.iter().zip(mp.iter()) { check((q.x as i64 == m[0]) & (q.y as i64 == m[1]), 22); }
        for (l, m) in s.iter().zip(ms.iter()) { check((l.start.x as i64 == m[0]) & (l.start.y as i64 == m[1]) & (l.end.x as i64 == m[2]) & (l.end.y as i64 == m[3]), 23); }
        reach(1);
    }
    /// numbers around the ends of the range; parameter: place of the number, 0-1 in a point, 2-5 in a segment
    fn h_range() {
        let place = param(0) as usize;
        let mut t: Vec<u8> = Vec::with_capacity(80);
        t.extend_from_slice(if place < 2 { b"2\n3 9\n" } else { b"0\n2\n6 7 8 9\n" });
        let first = if place < 2 { 0 } else { 2 };
        let count = if place < 2 { 2 } else { 4 };
        let neg = any_bool();
        let (d, e) = (range_i32(0, 9), range_i32(0, 9));
        for i in 0..count {
            if i > 0 { t.push(b' '); }
            if first + i == place {
                if neg { t.push(b'-'); }
                t.extend_from_slice(b"21474836");
                t.push(b'0' + d as u8);
                t.push(b'0' + e as u8);
            } else {
                t.push(b'1' + i as u8);
            }
        }
        t.push(b'\n');
        let v = 2147483600i64 + (d * 10 + e) as i64;
        let v = if neg { -v } else { v };
        let (p, s) = read_boost_input_buffer::<i32, _>(BufReader::with_capacity(96, &t[..])).unwrap();
        let fits = (v >= i32::MIN as i64) & (v <= i32::MAX as i64);
        let want = |i: usize| if first + i == place { v } else { i as i64 + 1 };
        if place < 2 {
            check(s.len() == 0 && (p[0].x == 3) & (p[0].y == 9), 30);
            check(p.len() == if fits { 2 } else { 1 }, 31);
            if fits { check((p[1].x as i64 == want(0)) & (p[1].y as i64 == want(1)), 32); }
        } else {
            check(p.len() == 0 && (s[0].start.x == 6) & (s[0].start.y == 7) & (s[0].end.x == 8) & (s[0].end.y == 9), 30);
            check(s.len() == if fits { 2 } else { 1 }, 31);
            if fits { check((s[1].start.x as i64 == want(0)) & (s[1].start.y as i64 == want(1)) & (s[1].end.x as i64 == want(2)) & (s[1].end.y as i64 == want(3)), 33); }
        }
        if fits { reach(2); } else { reach(3); }
        reach(1);
    }
}
/// the numbers of a line, if it has nothing else
fn numbers(l: &[u8]) -> Option<([i64; 4], usize, bool)> {
    let mut v = [0i64; 4];
    let (mut n, mut digits, mut neg, mut signed, mut any_neg) = (0, 0, false, false, false);
    let mut i = 0;
    while i <= l.len() {
        let c = if i < l.len() { l[i] } else { b' ' };
        if c == b' ' {
            if digits == 0 || n == 4 { return None; }
            if neg { v[n] = -v[n]; }
            n += 1;
            digits = 0; neg = false; signed = false;
            if i < l.len() && n == 4 { return None; }
        } else if (c == b'-' || c == b'+') && digits == 0 && !signed {
            signed = true;
            neg = c == b'-';
            any_neg |= neg;
        } else if c >= b'0' && c <= b'9' {
            if n == 4 { return None; }
            v[n] = v[n] * 10 + (c - b'0') as i64;
            digits += 1;
        } else {
            return None;
        }
        i += 1;
    }
    Some((v, n, any_neg))
}
/// what the format says: a count, that many points, a count, that many segments; anything else ends the input
fn model(t: &[u8]) -> (Vec<[i64; 2]>, Vec<[i64; 4]>) {
    let (mut p, mut s) = (Vec::new(), Vec::new());
    let (mut want_p, mut want_s) = (-1i64, -1i64);
    let mut i = 0;
    while i < t.len() {
        let mut j = i;
        while j < t.len() && t[j] != b'\n' { j += 1; }
        let mut e = j;
        if j < t.len() && e > i && t[e - 1] == b'\r' { e -= 1; }
        let l = match numbers(&t[i..e]) { Some(l) => l, None => break };
        if want_p < 0 {
            if l.1 != 1 || l.2 { break; }
            want_p = l.0[0];
        } else if (p.len() as i64) < want_p {
            if l.1 != 2 { break; }
            p.push([l.0[0], l.0[1]]);
        } else if want_s < 0 {
            if l.1 != 1 || l.2 { break; }
            want_s = l.0[0];
        } else if (s.len() as i64) < want_s {
            if l.1 != 4 { break; }
            s.push(l.0);
        } else {
            break;
        }
        i = j + 1;
    }
    (p, s)
}
