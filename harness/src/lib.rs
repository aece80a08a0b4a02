//! Interface between the harnesses and the symbolic executor (lsx), with a native implementation for replay.
#![allow(static_mut_refs)]

#[cfg(not(feature = "replay"))]
mod imp {
    extern "C" {
        /// fresh symbolic integer of width `w`, lo <= v <= hi
        pub fn sym_value(w: u32, lo: i64, hi: i64, signed: u32) -> i64;
        pub fn sym_assume(c: bool);
        pub fn sym_assert(c: bool, id: u32);
        pub fn sym_reach(id: u32);
        pub fn sym_note(id: u32, v: u64);
        pub fn sym_param(i: u32) -> i64;
        pub fn sym_known(i: u32) -> u32;
    }
}

#[cfg(feature = "replay")]
pub mod imp {
    use std::io::Write;
    pub struct Ctx {
        pub vals: Vec<i128>,
        pub pos: usize,
        pub params: std::collections::HashMap<u32, i64>,
        pub known: std::collections::HashSet<u32>,
    }
    pub static mut CTX: Option<Ctx> = None;
    fn ctx() -> &'static mut Ctx {
        unsafe { CTX.as_mut().unwrap() }
    }
    fn line(s: String) {
        let o = std::io::stdout();
        let mut l = o.lock();
        let _ = writeln!(l, "{}", s);
        let _ = l.flush();
    }
    pub unsafe fn sym_value(w: u32, lo: i64, hi: i64, signed: u32) -> i64 {
        let c = ctx();
        if c.pos >= c.vals.len() {
            line("NOVALUE".into());
            std::process::exit(5);
        }
        let v = c.vals[c.pos];
        c.pos += 1;
        let (l, h) = if signed != 0 { (lo as i128, hi as i128) } else { (lo as u64 as i128, hi as u64 as i128) };
        if v < l || v > h || w > 64 {
            line(format!("RANGE {} {} {}", v, l, h));
            std::process::exit(5);
        }
        v as i64
    }
    pub unsafe fn sym_assume(c: bool) {
        if !c {
            line("ASSUME".into());
            std::process::exit(4);
        }
    }
    pub unsafe fn sym_assert(c: bool, id: u32) {
        if !c {
            line(format!("ASSERT {}", id));
            std::process::exit(3);
        }
    }
    pub unsafe fn sym_reach(id: u32) {
        line(format!("REACH {}", id));
    }
    pub unsafe fn sym_note(id: u32, v: u64) {
        line(format!("NOTE {} {}", id, v));
    }
    pub unsafe fn sym_param(i: u32) -> i64 {
        *ctx().params.get(&i).unwrap_or(&0)
    }
    pub unsafe fn sym_known(i: u32) -> u32 {
        ctx().known.contains(&i) as u32
    }
    /// native entry: `<bin> <harness>` with the values on stdin, several cases separated by "run" lines are not supported
    pub fn main(table: &[(&str, fn())]) {
        let h = std::env::args().nth(1).unwrap_or_default();
        let f = std::env::args().nth(2).unwrap_or_default();
        let txt = if f.is_empty() { std::io::read_to_string(std::io::stdin()).unwrap() } else { std::fs::read_to_string(f).unwrap() };
        let mut c = Ctx { vals: vec![], pos: 0, params: Default::default(), known: Default::default() };
        for l in txt.lines() {
            let w: Vec<&str> = l.split_whitespace().collect();
            if w.is_empty() || w[0].starts_with('#') {
                continue;
            }
            match w[0] {
                "v" => c.vals.push(w[1].parse().unwrap()),
                "p" => {
                    let _ = c.params.insert(w[1].parse().unwrap(), w[2].parse().unwrap());
                }
                "k" => {
                    let _ = c.known.insert(w[1].parse().unwrap());
                }
                _ => {}
            }
        }
        unsafe { CTX = Some(c) };
        for (n, g) in table {
            if *n == h {
                g();
                line("OK".into());
                return;
            }
        }
        line(format!("NOHARNESS {}", h));
        std::process::exit(6);
    }
}

pub fn any_i32() -> i32 { unsafe { imp::sym_value(32, i32::MIN as i64, i32::MAX as i64, 1) as i32 } }
pub fn any_u32() -> u32 { unsafe { imp::sym_value(32, 0, u32::MAX as i64, 0) as u32 } }
pub fn any_i64() -> i64 { unsafe { imp::sym_value(64, i64::MIN, i64::MAX, 1) } }
pub fn any_u64() -> u64 { unsafe { imp::sym_value(64, 0, -1, 0) as u64 } }
pub fn any_u8() -> u8 { unsafe { imp::sym_value(8, 0, 255, 0) as u8 } }
pub fn any_bool() -> bool { unsafe { imp::sym_value(8, 0, 1, 0) != 0 } }
/// any bit pattern of a double
pub fn any_f64_bits() -> f64 { f64::from_bits(any_u64()) }
pub fn range_i32(lo: i32, hi: i32) -> i32 { unsafe { imp::sym_value(32, lo as i64, hi as i64, 1) as i32 } }
pub fn range_i64(lo: i64, hi: i64) -> i64 { unsafe { imp::sym_value(64, lo, hi, 1) } }
pub fn range_u64(lo: u64, hi: u64) -> u64 { unsafe { imp::sym_value(64, lo as i64, hi as i64, 0) as u64 } }
pub fn range_u32(lo: u32, hi: u32) -> u32 { unsafe { imp::sym_value(32, lo as i64, hi as i64, 0) as u32 } }
pub fn range_usize(lo: usize, hi: usize) -> usize { unsafe { imp::sym_value(64, lo as i64, hi as i64, 0) as usize } }
pub fn assume(c: bool) { unsafe { imp::sym_assume(c) } }
pub fn check(c: bool, id: u32) { unsafe { imp::sym_assert(c, id) } }
pub fn reach(id: u32) { unsafe { imp::sym_reach(id) } }
pub fn note(id: u32, v: u64) { unsafe { imp::sym_note(id, v) } }
pub fn param(i: u32) -> i64 { unsafe { imp::sym_param(i) } }
pub fn known(i: u32) -> bool { unsafe { imp::sym_known(i) != 0 } }

/// declares the harnesses of one binary
#[macro_export]
macro_rules! harnesses {
    ($($(#[$m:meta])* fn $name:ident() $body:block)*) => {
        $( $(#[$m])* #[no_mangle] #[inline(never)] pub extern "C" fn $name() $body )*
        #[cfg(feature = "replay")]
        fn main() {
            let t: &[(&str, fn())] = &[$((stringify!($name), || $name())),*];
            $crate::imp::main(t);
        }
        #[cfg(not(feature = "replay"))]
        fn main() { $( $name(); )* }
    };
}
