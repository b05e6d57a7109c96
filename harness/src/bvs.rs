//! The real bit-vector domain at several widths, plus an independent reference
//! semantics (plain modular arithmetic on u128).
use crate::term::*;
use std::collections::BTreeMap;

macro_rules! width {
    ($m:ident, $n:literal) => {
        #[allow(unused_imports, clippy::all)]
        pub mod $m {
            ruler::impl_bv!($n);
        }
    };
}
width!(bv1, 1);
width!(bv2, 2);
width!(bv3, 3);
width!(bv4, 4);
width!(bv5, 5);
width!(bv8, 8);
width!(bv16, 16);
width!(bv32, 32);
width!(bv64, 64);
width!(bv65, 65);
width!(bv127, 127);
width!(bv128, 128);

pub fn mask(n: u32) -> u128 {
    if n == 128 {
        u128::MAX
    } else {
        (1u128 << n) - 1
    }
}

/// 256-bit-safe modular multiplication by shift-and-add.
fn mulmod(x: u128, y: u128, n: u32) -> u128 {
    let mut acc = 0u128;
    let mut i = 0;
    while i < n {
        if (y >> i) & 1 == 1 {
            acc = acc.wrapping_add(x << i);
        }
        i += 1;
    }
    acc & mask(n)
}

pub const OPS2: [&str; 8] = ["+", "--", "*", "<<", ">>", "&", "|", "^"];
pub const OPS1: [&str; 2] = ["-", "~"];

pub fn bv_apply(op: &str, xs: &[u128], n: u32) -> u128 {
    let m = mask(n);
    match (op, xs) {
        ("-", [x]) => (m - x).wrapping_add(1) & m,
        ("~", [x]) => m - x,
        ("+", [x, y]) => x.wrapping_add(*y) & m,
        ("--", [x, y]) => x.wrapping_add(m - y).wrapping_add(1) & m,
        ("*", [x, y]) => mulmod(*x, *y, n),
        ("<<", [x, y]) => {
            if *y >= n as u128 {
                0
            } else {
                (x << (*y as u32)) & m
            }
        }
        (">>", [x, y]) => {
            if *y >= n as u128 {
                0
            } else {
                x >> (*y as u32)
            }
        }
        ("&", [x, y]) => x & y,
        ("|", [x, y]) => x | y,
        ("^", [x, y]) => (x | y) - (x & y),
        _ => panic!("bv_apply {} {:?}", op, xs),
    }
}

/// Literals are decimal or #b binary, reduced modulo 2^n.
pub fn bv_lit(s: &str, n: u32) -> Option<u128> {
    let v = if let Some(b) = s.strip_prefix("#b") {
        u128::from_str_radix(b, 2).ok()?
    } else {
        s.parse::<u128>().ok()?
    };
    Some(v & mask(n))
}

pub fn bv_eval(t: &S, env: &BTreeMap<String, u128>, n: u32) -> u128 {
    let (op, kids) = t.op();
    if kids.is_empty() {
        return match env.get(op) {
            Some(v) => *v,
            None => bv_lit(op, n).unwrap_or_else(|| panic!("unbound {}", op)),
        };
    }
    let xs: Vec<u128> = kids.iter().map(|k| bv_eval(k, env, n)).collect();
    bv_apply(op, &xs, n)
}
