//! E-graphs with large or oddly shaped classes and long partial vectors, over
//! the finite domain: terms and unions of terms denoting the same function.
use crate::term::*;

pub struct Shape {
    pub name: String,
    pub terms: Vec<S>,
    pub unions: Vec<(usize, usize)>,
}

fn op(o: &str, k: Vec<S>) -> S {
    S::mk(o, k)
}
fn tower(o: &str, n: usize, t: S) -> S {
    (0..n).fold(t, |t, _| op(o, vec![t]))
}
/// Balanced tree with `m` leaves.
fn tree(o: &str, m: usize, at: &dyn Fn(usize) -> S, k: &mut usize) -> S {
    if m <= 1 {
        *k += 1;
        return at(*k);
    }
    let h = m / 2;
    let x = tree(o, h, at, k);
    let y = tree(o, m - h, at, k);
    op(o, vec![x, y])
}
fn var(i: usize) -> S {
    a(["a", "b", "c", "d", "e", "f2", "k", "m", "n"][i])
}
/// Conjunction of literals selecting sample `p` of `n` variables.
fn minterm(n: usize, p: usize) -> S {
    let lit = |i: usize| if p >> i & 1 == 1 { var(i) } else { op("u10", vec![var(i)]) };
    (1..n).fold(lit(0), |t, i| op("b0001", vec![t, lit(i)]))
}
/// A total function with value 1 exactly on the given samples.
fn total(n: usize, ones: &[usize]) -> S {
    match ones {
        [] => op("b0001", vec![a("a"), op("u10", vec![a("a")])]),
        [p, rest @ ..] => rest.iter().fold(minterm(n, *p), |t, q| op("b0111", vec![t, minterm(n, *q)])),
    }
}
/// The partial function undefined exactly on `holes`.
fn partial(n: usize, holes: &[usize], ones: &[usize], tag: &str) -> S {
    op(&format!("b01__{}", tag), vec![total(n, holes), total(n, ones)])
}

pub fn shapes(quick: bool) -> Vec<Shape> {
    let mut out = vec![];
    // members whose size and depth disagree
    let top = if quick { 9 } else { 14 };
    for n in 0..top {
        for m in 2..top + 3 {
            for r in 0..2 {
                let deep = tower("u01", n, op("b0001", vec![var(0), var(1)]));
                let wide = tree("b0001", m, &|k| var((k + r) % 2), &mut 0);
                let third = op("b0001", vec![tower("u01", (n + m) % 5, var(1)), op("u01y", vec![var(0)])]);
                let mut terms = vec![deep, wide, third, op("b0001z", vec![var(1), var(0)])];
                if r == 1 {
                    terms.reverse();
                }
                let unions = match (n + m) % 3 {
                    0 => vec![(0, 1)],
                    1 => vec![(1, 2), (0, 1)],
                    _ => vec![(2, 3), (0, 1)],
                };
                out.push(Shape { name: format!("tower {} and tree {} in one class, {}", n, m, r), terms, unions });
            }
        }
    }
    // classes with many members, many classes with one vector
    for n in sizes().into_iter().filter(|n| *n <= if quick { 41 } else { 102 }) {
        for r in 0..4usize {
            let mut terms: Vec<S> = (0..n)
                .map(|i| match r {
                    0 => op(&format!("u01x{}", i), vec![var(0)]),
                    1 => op(&format!("u10x{}", i), vec![var(i % 2)]),
                    2 => op(&format!("b0001x{}", i), vec![var(i % 3), var((i + 1 + i / 3) % 3)]),
                    _ => op(&format!("u{}x{}", ["01", "10", "0_", "_1", "1_"][i % 5], i), vec![var(0)]),
                })
                .collect();
            terms.push(op("u10", vec![op("u10", vec![var(0)])]));
            terms.push(op("b0111", vec![var(1), var(0)]));
            let same = |i: usize, j: usize| match r {
                0 => true,
                1 => i % 2 == j % 2,
                2 => {
                    let s = |i: usize| (1 << (i % 3)) | (1 << ((i + 1 + i / 3) % 3));
                    s(i) == s(j)
                }
                _ => i % 5 == j % 5,
            };
            for keep in [n, n / 2, 3] {
                let mut unions = vec![];
                for i in keep..n {
                    if let Some(j) = (0..i).find(|j| same(i, *j)) {
                        unions.push((j, i));
                    }
                }
                if keep == n || !unions.is_empty() {
                    out.push(Shape { name: format!("{} members of kind {}, all but {} merged", n, r, keep), terms: terms.clone(), unions });
                }
            }
        }
    }
    // agreement, holes and conflicts at chosen samples of long vectors
    for n in 2..=if quick { 5usize } else { 6 } {
        let len = 1usize << n;
        let spots = [0, 1, len / 2 - 1, len / 2, len - 2, len - 1];
        for i in spots {
            for j in spots {
                for k in spots {
                    let terms = vec![
                        partial(n, &[i], &[], "p"),
                        partial(n, &[j], &[k], "q"),
                        partial(n, &[i, j], &[k], "r"),
                        // defined at one sample only
                        partial(n, &(0..len).filter(|x| *x != j).collect::<Vec<_>>(), &[k], "s"),
                    ];
                    if n > 4 && (i + j + k) % 3 != 0 {
                        continue;
                    }
                    out.push(Shape { name: format!("2^{} samples, holes {} {}, differing at {}", n, i, j, k), terms: terms[..if n > 3 { 2 + (i + k) % 3 } else { 4 }].to_vec(), unions: vec![] });
                }
            }
        }
    }
    // defined nowhere in a long stretch of samples
    for n in 6..=if quick { 7usize } else { 9 } {
        let len = 1usize << n;
        let every = |t: S| (0..n).fold(t, |t, i| op("b0011", vec![t, var(i)]));
        for i in 0..n {
            for (d, q) in [("u_1", "u_1q"), ("u1_", "u1_q"), ("u_0", "u_0q"), ("u0_", "u1_q")] {
                let other = var((i + 1) % n);
                let terms = vec![
                    every(op("b0101", vec![op("u10", vec![other.clone()]), other])),
                    op(d, vec![var(i)]),
                    op(q, vec![op("u01", vec![var(i)])]),
                    op(if d == "u_1" { "b__01" } else { "b01__" }, vec![var(i), var((i + 2) % n)]),
                    var((i + 2) % n),
                ];
                out.push(Shape { name: format!("2^{} samples, half of them undefined by {} of variable {}", n, d, i), terms, unions: vec![] });
            }
        }
        for p in [0, 1, 31, 32, 33, 63, 64, 65, len / 2 - 1, len / 2, len - 2, len - 1] {
            if p >= len {
                continue;
            }
            for q in [p, 0, len - 1, len / 2] {
                let terms = vec![
                    var(0),
                    op("b__01", vec![minterm(n, p), var(0)]),
                    op("b__10", vec![minterm(n, q), op("u10", vec![var(n - 1)])]),
                    op("u_1", vec![minterm(n, p)]),
                    op("b_1_1", vec![var(n - 1), minterm(n, q)]),
                ];
                out.push(Shape { name: format!("2^{} samples, defined at {} or {} only", n, p, q), terms, unions: vec![] });
            }
        }
    }
    // values that cannot be oriented
    let odd: Vec<S> = ["(b0000 a b)", "(u00 b)", "(b0000 b c)", "(u00 a)", "(b0000 c d)", "0", "(b0000 a a)", "(u11 e)", "1", "(b0_0_ a b)", "(b0_0_ b a)"]
        .iter()
        .map(|t| S::p(t))
        .collect();
    for c in combos(odd.len(), 2, if quick { 4 } else { 6 }) {
        let terms: Vec<S> = c.iter().map(|i| odd[*i].clone()).collect();
        out.push(Shape { name: format!("{:?}", strs(&terms)), terms, unions: vec![] });
    }
    out
}
