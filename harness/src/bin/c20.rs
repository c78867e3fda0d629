//! C20: vector arithmetic is exact and respects dimensions.
use mcheck::util::*;
use mcheck::*;
use moledyn::iterator::LinkedList;
use moledyn::prelude::{Numerics, Position};

type F = Position<f64>;
type I = Position<i32>;

fn same(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| rel(*x, *y, 1e-14))
}

/// The result of an operation on two positions: values or refused (error or panic).
enum Out<T> {
    Val(T),
    Refused,
}
fn out<T, E>(r: Result<Result<T, E>, String>) -> Out<T> {
    match r {
        Ok(Ok(v)) => Out::Val(v),
        _ => Out::Refused,
    }
}
fn plain<T>(r: Result<T, String>) -> Out<T> {
    match r {
        Ok(v) => Out::Val(v),
        Err(_) => Out::Refused,
    }
}

const REAL: [&str; 9] = ["&a + &b", "&a - &b", "&mut a + &mut b", "&mut a - &mut b", "mut_add", "mut_sub", "distance", "inner_product", "norm of the difference"];

/// All binary operations on real vectors: name, result (vector or scalar), operands afterwards
fn real_pair(op: usize, a: &mut F, b: &mut F) -> Out<Vec<f64>> {
    match op {
        0 => plain(catch(|| (&*a + &*b).coordinate)),
        1 => plain(catch(|| (&*a - &*b).coordinate)),
        2 => plain(catch(|| (&mut *a + &mut *b).coordinate)),
        3 => plain(catch(|| (&mut *a - &mut *b).coordinate)),
        4 => plain(catch(|| { a.mut_add(b); a.coordinate.clone() })),
        5 => plain(catch(|| { a.mut_sub(b); a.coordinate.clone() })),
        6 => out(catch(|| a.distance(b).map(|x| vec![x]))),
        7 => out(catch(|| a.inner_product(b).map(|x| vec![x]))),
        _ => plain(catch(|| vec![(&*a - &*b).norm()])),
    }
}

/// Every operation on two real vectors of one dimension.
fn reals(run: &mut Run, a: &[f64], b: &[f64]) {
    let diff: Vec<f64> = a.iter().zip(b).map(|(x, y)| x - y).collect();
    let sum: Vec<f64> = a.iter().zip(b).map(|(x, y)| x + y).collect();
    let dot: f64 = a.iter().zip(b).map(|(x, y)| x * y).sum();
    let dots: f64 = a.iter().zip(b).map(|(x, y)| (x * y).abs()).sum();
    let dist = mcheck::geo::norm(&diff);
    // the rounding of a sum of so many terms
    let tol = (a.len() as f64 * 1e-15).max(1e-12);
    for op in 0..REAL.len() {
        let (mut x, mut y) = (pos(a), pos(b));
        let r = real_pair(op, &mut x, &mut y);
        let v = match r {
            Out::Val(v) => v,
            Out::Refused => {
                run.fail("refused", format!("{} of {:?} and {:?} is refused", REAL[op], a, b));
                continue;
            }
        };
        let ok = match op {
            0 | 2 | 4 => same(&v, &sum),
            1 | 3 | 5 => same(&v, &diff),
            7 => (v[0] - dot).abs() <= tol * dots,
            _ => rel(v[0], dist, tol),
        };
        for z in &v {
            run.observe_f64(*z);
        }
        run.ensure(ok, "value", || format!("{} of {:?} and {:?} is {:?}", REAL[op], a, b, v));
        let keep = (op == 4 || op == 5 || same(&x.coordinate, a)) && same(&y.coordinate, b);
        run.ensure(keep, "operand", || format!("{} of {:?} and {:?} changed an operand to {:?} / {:?}", REAL[op], a, b, x, y));
    }
    let mut z = pos(a);
    z.clear();
    run.ensure(z.coordinate.len() == a.len() && z.coordinate.iter().all(|v| *v == 0.0), "clear", || format!("{:?} cleared is {:?}", a, z));
    let x = pos(a);
    run.ensure(rel(x.norm(), mcheck::geo::norm(a), tol), "value", || format!("norm of {:?} is {}", a, x.norm()));
    for s in [0.0, 1.0, -1.0, 2.5, -1e6, 1e-9] {
        let want: Vec<f64> = a.iter().map(|z| z * s).collect();
        let v = x.scalar_mul(s);
        run.ensure(same(&v.coordinate, &want) && same(&x.coordinate, a), "value", || format!("{:?} times {} is {:?}", a, s, v));
        let mut v = pos(a);
        v.mut_scalar_mul(s);
        run.ensure(same(&v.coordinate, &want), "value", || format!("{:?} times {} in place is {:?}", a, s, v));
    }
}

/// Every operation on two integer vectors of one dimension whose result is representable.
fn integers(run: &mut Run, a: &[i32], b: &[i32]) {
    let w = |f: &dyn Fn(i64, i64) -> i64| -> Option<Vec<i32>> {
        a.iter().zip(b).map(|(x, y)| f(*x as i64, *y as i64)).map(|v| if v >= i32::MIN as i64 && v <= i32::MAX as i64 { Some(v as i32) } else { None }).collect()
    };
    let (x, y) = (I::new(a.to_vec()), I::new(b.to_vec()));
    let mut z = x.clone();
    z.clear();
    run.ensure(z.coordinate == vec![0; a.len()], "clear", || format!("{:?} cleared is {:?}", a, z));
    let sq = |v: &mut dyn Iterator<Item = i128>| -> f64 { (v.map(|d| d * d).sum::<i128>() as f64).sqrt() };
    let tol = (a.len() as f64 * 1e-15).max(1e-12);
    let wd = sq(&mut a.iter().zip(b).map(|(p, q)| *p as i128 - *q as i128));
    let d = catch(|| x.distance(&y));
    run.ensure(matches!(&d, Ok(Ok(v)) if rel(*v, wd, tol)), "distance", || format!("distance of {:?} and {:?} is {:?}, expected {}", a, b, d, wd));
    let wn = sq(&mut a.iter().map(|p| *p as i128));
    let n = catch(|| x.norm());
    run.ensure(matches!(&n, Ok(v) if rel(*v, wn, tol)), "norm", || format!("norm of {:?} is {:?}, expected {}", a, n, wn));
    run.observe_f64(wd);
    let wt: i64 = a.iter().zip(b).map(|(p, q)| (*p as i64 - *q as i64).abs()).sum();
    if wt <= i32::MAX as i64 {
        let t = catch(|| x.taxi_distance(&y));
        run.ensure(matches!(&t, Ok(Ok(v)) if *v as i64 == wt), "taxi", || format!("taxi_distance of {:?} and {:?} is {:?}, expected {}", a, b, t, wt));
    }
    let ops: [(&str, Option<Vec<i32>>); 2] = [("sum", w(&|p, q| p + q)), ("difference", w(&|p, q| p - q))];
    for (i, (name, want)) in ops.iter().enumerate() {
        if let Some(want) = want {
            let g = [
                catch(|| if i == 0 { (&x + &y).coordinate } else { (&x - &y).coordinate }),
                catch(|| {
                    let (mut x, mut y) = (x.clone(), y.clone());
                    if i == 0 { (&mut x + &mut y).coordinate } else { (&mut x - &mut y).coordinate }
                }),
                catch(|| {
                    let mut x = x.clone();
                    if i == 0 { x.mut_add(&y) } else { x.mut_sub(&y) };
                    x.coordinate
                }),
            ];
            for (form, g) in g.iter().enumerate() {
                run.ensure(matches!(g, Ok(v) if v == want), "value", || format!("{} (form {}) of {:?} and {:?} is {:?}", name, form, a, b, g));
            }
        }
    }
    for s in [0i32, 1, -1, 3] {
        let want: Option<Vec<i32>> = a.iter().map(|p| { let v = *p as i64 * s as i64; if v >= i32::MIN as i64 && v <= i32::MAX as i64 { Some(v as i32) } else { None } }).collect();
        if let Some(want) = want {
            let v = catch(|| x.scalar_mul(s));
            run.ensure(matches!(&v, Ok(v) if v.coordinate == want), "value", || format!("{:?} times {} is {:?}", a, s, v));
            let v = catch(|| { let mut x = x.clone(); x.mut_scalar_mul(s); x });
            run.ensure(matches!(&v, Ok(v) if v.coordinate == want), "value", || format!("{:?} times {} in place is {:?}", a, s, v));
        }
    }
    run.ensure(x.coordinate == a && y.coordinate == b, "operand", || format!("an operation on {:?} and {:?} changed an operand", a, b));
}

fn main() {
    let mut c = Check::new("C20");
    c.assume("real coordinates whose squares overflow or underflow are left out; the bench-only mut_add_bench is left out");
    for dim in 0..=c.q(4usize, 4) {
        let al: Vec<f64> = match dim {
            0..=2 => vec![0.0, 1.0, -1.0, 0.1, -2.5, 1e8, -3e-7, 1e140, 7.0],
            3 => vec![0.0, 1.0, -2.5, 1e8, 0.3],
            _ => vec![0.0, -1.5, 1e3],
        };
        c.family(
            &format!("real-dim{}", dim),
            &format!("every pair of real vectors with coordinates from {:?}: sums, differences, distances, products, norms, multiples, all forms", al),
            move |run| {
                let a: Vec<f64> = (0..dim).map(|_| run.of(&al)).collect();
                let b: Vec<f64> = (0..dim).map(|_| run.of(&al)).collect();
                run.step();
                run.note(|| format!("{:?} {:?}", a, b));
                reals(run, &a, &b);
            },
        );
    }
    let dims: Vec<usize> = c.q(vec![4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 100, 129, 1000, 1025, 4097, 65_537], vec![4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1001, 1024, 1025, 2049, 4097, 10_001, 65_536, 65_537, 1_000_003]);
    c.family(
        "high-dimension",
        &format!("real and integer vectors of dimension {:?}: all different coordinates, all equal, or zero but for the first, middle, last or every third coordinate, each pattern against each other, two magnitudes", dims),
        move |run| {
            let dim = run.of(&dims);
            let p = run.pick(6);
            let q = if dim > 10_000 { (p + 4) % 6 } else { run.pick(6) };
            let big = run.flag();
            let int = run.flag();
            let make = |p: usize, s: i32| -> Vec<i32> {
                (0..dim)
                    .map(|i| {
                        let v = (s * (i as i32 + 1) * if i % 2 == 0 { 1 } else { -1 }) * if big { if dim > 10_000 { 101 } else { 10007 } } else { 1 };
                        let on = match p {
                            0 => true,
                            1 => return 5 * s,
                            2 => i == 0,
                            3 => i == dim / 2,
                            4 => i + 1 == dim,
                            _ => i % 3 == 2,
                        };
                        if on { v } else { 0 }
                    })
                    .collect()
            };
            let (a, b) = (make(p, 1), make(q, 3));
            run.step();
            run.note(|| format!("dimension {} patterns {} {}", dim, p, q));
            if int {
                integers(run, &a, &b);
            } else {
                let f = if big { 1e30 } else { 0.37 };
                let r = |v: &[i32]| -> Vec<f64> { v.iter().map(|x| *x as f64 * f).collect() };
                reals(run, &r(&a), &r(&b));
            }
        },
    );
    for dim in 0..=c.q(3usize, 3) {
        let al: Vec<i32> = if dim <= 2 { vec![0, 1, -1, 2, -7, 46341, -65536, 1 << 30, i32::MAX, i32::MIN] } else { vec![0, 1, -7, 65536, i32::MAX, i32::MIN] };
        c.family(
            &format!("integer-dim{}", dim),
            &format!("every pair of integer vectors with coordinates from {:?}: all operations whose result is representable", al),
            move |run| {
                let a: Vec<i32> = (0..dim).map(|_| run.of(&al)).collect();
                let b: Vec<i32> = (0..dim).map(|_| run.of(&al)).collect();
                run.step();
                run.note(|| format!("{:?} {:?}", a, b));
                integers(run, &a, &b);
            },
        );
    }
    c.family(
        "dimensions",
        "every operation on two vectors of different dimensions 0..6, real and integer: refused, operands unchanged",
        move |run| {
            let d1 = run.pick(7);
            let d2 = run.pick(7);
            if d1 == d2 {
                return;
            }
            let a: Vec<f64> = (0..d1).map(|i| 1.0 + i as f64).collect();
            let b: Vec<f64> = (0..d2).map(|i| -0.5 - i as f64).collect();
            let op = run.pick(REAL.len());
            run.step();
            run.note(|| format!("{} of dimensions {} and {}", REAL[op], d1, d2));
            let (mut x, mut y) = (pos(&a), pos(&b));
            let r = real_pair(op, &mut x, &mut y);
            run.observe(&matches!(r, Out::Refused));
            run.ensure(matches!(r, Out::Refused), "not-refused", || format!("{} of {:?} and {:?} is accepted", REAL[op], a, b));
            run.ensure(x.coordinate == a && y.coordinate == b, "operand", || format!("{} of {:?} and {:?} left {:?} and {:?}", REAL[op], a, b, x, y));
            let ai: Vec<i32> = a.iter().map(|v| *v as i32).collect();
            let bi: Vec<i32> = b.iter().map(|v| *v as i32).collect();
            let (x, y) = (I::new(ai), I::new(bi));
            let ok = match op {
                0 | 2 => catch(|| &x + &y).is_err(),
                1 | 3 | 8 => catch(|| &x - &y).is_err(),
                4 => catch(|| x.clone().mut_add(&y)).is_err(),
                5 => catch(|| x.clone().mut_sub(&y)).is_err(),
                6 => !matches!(catch(|| x.distance(&y)), Ok(Ok(_))),
                _ => !matches!(catch(|| x.taxi_distance(&y)), Ok(Ok(_))),
            };
            run.ensure(ok, "not-refused", || format!("integer operation {} on dimensions {} and {} is accepted", op, d1, d2));
        },
    );
    c.family(
        "lists-of-vectors",
        "lists of 0 to 5 real or integer vectors of dimension 0 to 3, every subset deleted, with or without a pass that has begun: clearing sets exactly the coordinates of the live vectors to zero",
        move |run| {
            let n = run.pick(6);
            let dim = run.pick(4);
            let int = run.flag();
            let dead: Vec<bool> = (0..n).map(|_| run.flag()).collect();
            let begun = run.pick(3);
            run.step();
            run.note(|| format!("{} vectors of dimension {}, deleted: {:?}", n, dim, dead));
            macro_rules! go {
                ($t:ty, $v:expr) => {{
                    let mut l = LinkedList::from((0..n).map(|i| Position::<$t>::new((0..dim).map(|k| $v(i, k)).collect())).collect::<Vec<_>>());
                    for i in 0..n {
                        if dead[i] && l.del(i).is_err() {
                            return run.fail("delete", format!("element {} of {} cannot be deleted", i, n));
                        }
                    }
                    match begun {
                        1 => { l.into_iter(); l.get(); }
                        2 => { l.into_double_iter(); l.get_double(); }
                        _ => (),
                    }
                    l.clear();
                    let mut seen = vec![];
                    l.into_iter();
                    while let Some((i, p)) = l.enumerate() {
                        seen.push(i);
                        run.ensure(p.coordinate == vec![0 as $t; dim], "list-clear", || format!("{} vectors, deleted {:?}: vector {} is {:?} after clear", n, dead, i, p));
                    }
                    let live: Vec<usize> = (0..n).filter(|i| !dead[*i]).collect();
                    run.ensure(seen == live, "list-clear", || format!("deleted {:?}: {:?} are alive after clear, expected {:?}", dead, seen, live));
                    run.state(&seen);
                }};
            }
            if int {
                go!(i32, |i: usize, k: usize| 7 + i as i32 * 3 - k as i32)
            } else {
                go!(f64, |i: usize, k: usize| 0.5 + i as f64 - 2.0 * k as f64)
            }
        },
    );
    let big: Vec<usize> = c.q(vec![7, 16, 33, 64, 257, 1025, 4097], vec![7, 8, 16, 17, 32, 33, 64, 65, 128, 257, 1025, 4096, 4097, 65537]);
    c.family("large-lists-of-vectors", &format!("lists of 3 vectors of dimension {:?}, or of that many vectors of dimension 2, real or integer, every subset of the first 3 deleted: clearing", big), move |run| {
        let m = run.of(&big);
        let (n, dim) = if run.flag() { (3, m) } else { (m, 2) };
        let int = run.flag();
        let dead: Vec<bool> = (0..n).map(|i| i < 3 && run.flag()).collect();
        run.step();
        run.note(|| format!("{} vectors of dimension {}, deleted: {:?}", n, dim, &dead[..3]));
        macro_rules! go {
            ($t:ty) => {{
                let mut l = LinkedList::from((0..n).map(|i| Position::<$t>::new((0..dim).map(|k| (1 + i + k) as $t).collect())).collect::<Vec<_>>());
                for i in 0..3 {
                    if dead[i] && l.del(i).is_err() {
                        return run.fail("delete", format!("element {} of {} cannot be deleted", i, n));
                    }
                }
                l.clear();
                let mut seen = 0;
                l.into_iter();
                while let Some((i, p)) = l.enumerate() {
                    seen += 1;
                    run.ensure(!dead[i] && p.coordinate.len() == dim && p.coordinate.iter().all(|x| *x == 0 as $t), "list-clear", || format!("{} vectors of dimension {}: vector {} after clear has {} coordinates that are not 0", n, dim, i, p.coordinate.iter().filter(|x| **x != 0 as $t).count()));
                }
                run.ensure(seen == dead.iter().filter(|d| !**d).count(), "list-clear", || format!("{} of {} vectors are alive after clear", seen, n));
            }};
        }
        if int { go!(i32) } else { go!(f64) }
        run.observe(&(n, dim, dead));
    });
    // histories on one vector (with a second, fixed one)
    let depth = c.q(7usize, 8);
    let states = c.q(400_000usize, 4_000_000);
    c.bfs(
        "history",
        &format!("all histories up to length {} of push, extend, write an element, write through iter_mut, clear, in-place sum, difference and multiple, on a vector of at most 4 coordinates; after each: dimension, elements, slices, iteration, by value", depth),
        11,
        depth,
        states,
        move |run, hist| {
            let mut p = F::new(vec![1.0, -2.0]);
            let mut m: Vec<f64> = vec![1.0, -2.0];
            for &op in hist {
                let n = m.len();
                match op {
                    0 | 1 => {
                        if n >= 4 { run.disabled(); return 0; }
                        let v = if op == 0 { 3.0 } else { -0.5 };
                        p.push(v);
                        m.push(v);
                    }
                    2 => {
                        if n >= 3 { run.disabled(); return 0; }
                        p.extend(vec![5.0, 6.0]);
                        m.extend(vec![5.0, 6.0]);
                    }
                    3 => {
                        p[n - 1] = 8.0;
                        m[n - 1] = 8.0;
                    }
                    4 => {
                        p[0] = p[n - 1] - 1.0;
                        m[0] = m[n - 1] - 1.0;
                    }
                    5 => {
                        for x in p.iter_mut() { *x = -*x; }
                        for x in m.iter_mut() { *x = -*x; }
                    }
                    6 => {
                        p.clear();
                        for x in m.iter_mut() { *x = 0.0; }
                    }
                    7 => {
                        let o: Vec<f64> = (0..n).map(|i| i as f64 + 0.25).collect();
                        p.mut_add(&pos(&o));
                        for i in 0..n { m[i] += o[i]; }
                    }
                    8 => {
                        let o: Vec<f64> = (0..n).map(|i| 2.0 * i as f64 + 1.0).collect();
                        p.mut_sub(&pos(&o));
                        for i in 0..n { m[i] -= o[i]; }
                    }
                    9 => {
                        p.mut_scalar_mul(-2.0);
                        for x in m.iter_mut() { *x *= -2.0; }
                    }
                    _ => {
                        let q = p.clone();
                        p.extend(if n <= 2 { q.into_iter().collect::<Vec<_>>() } else { vec![] });
                        if n <= 2 { let q = m.clone(); m.extend(q); }
                    }
                }
            }
            run.step();
            let n = m.len();
            run.note(|| format!("{:?} -> {:?}", hist, p));
            let ok = p.dim() == n
                && p.coordinate == m
                && (0..n).all(|i| p[i] == m[i])
                && p.iter().cloned().collect::<Vec<_>>() == m
                && p.clone().into_iter().collect::<Vec<_>>() == m
                && (0..=n).all(|i| p[i..] == m[i..] && p[..i] == m[..i] && (i..=n).all(|j| p[i..j] == m[i..j]));
            run.ensure(ok, "content", || format!("after {:?}: {:?}, expected {:?}", hist, p, m));
            run.ensure(catch(|| p[n]).is_err() && catch(|| p[..n + 1].len()).is_err(), "range", || format!("an element beyond the end of {:?} exists", p));
            use std::hash::{Hash, Hasher};
            let mut h = std::collections::hash_map::DefaultHasher::new();
            for x in &m { x.to_bits().hash(&mut h); }
            format!("{:?}", p).hash(&mut h);
            h.finish()
        },
    );
    c.finish()
}
