//! C01: a step across a wall is mirrored or wrapped back into the system.
use mcheck::geo::*;
use mcheck::util::*;
use mcheck::*;
use moledyn::system_mod::cont_circ::{check_bc_exact, check_bc_first_order, ContCircSystem};

/// Ends closer to a wall (relative) are not decided.
const NEAR: f64 = 2e-12;

/// A step from `start` that ends (before folding) at `end`.
fn step(run: &mut Run, sh: Shape, from_args: bool, start: &[f64], end: &[f64]) {
    let (want, margin) = sh.fold(end);
    if sh.depth(start) < NEAR || margin < NEAR {
        return; // on a wall: either answer is right
    }
    let sys = if from_args { sh.sys_from_args() } else { sh.sys() };
    let mut p = pos(start);
    let d: Vec<f64> = start.iter().zip(end).map(|(a, b)| b - a).collect();
    let mut dp = pos(&d);
    run.note(|| format!("{:?} from {:?} by {:?}", sh, start, d));
    let r = sys.dynamic().check_bc(&mut p, &mut dp);
    run.step();
    match want {
        Some(w) => {
            if !run.ensure(r.is_ok(), "refused", || format!("{:?}: {:?} + {:?} can be folded to {:?} but is refused: {:?}", sh, start, d, w, r)) {
                return;
            }
            let size = sh.size();
            let far = end.iter().chain(start).fold(0f64, |m, x| m.max(x.abs()));
            let same = p.coordinate.len() == w.len() && p.coordinate.iter().zip(&w).all(|(a, b)| (a - b).abs() <= 1e-13 * size * (1.0 + far / size));
            run.ensure(same, "position", || format!("{:?}: {:?} + {:?} ends at {:?}, expected {:?}", sh, start, d, p.coordinate, w));
            run.ensure(sh.depth(&p.coordinate) > -1e-13, "outside", || format!("{:?}: {:?} + {:?} ends outside at {:?}", sh, start, d, p.coordinate));
            for x in &p.coordinate {
                run.observe_f64((x / size * 1e6).round());
            }
        }
        None => {
            run.ensure(r.is_err(), "accepted-outside", || format!("{:?}: {:?} + {:?} cannot be folded inside but is accepted at {:?}", sh, start, d, p.coordinate));
            run.observe(&"refused");
        }
    }
}

fn main() {
    let mut c = Check::new("C01");
    c.assume("points within 2e-12 (relative) of a wall or of the limit of one fold are not decided");
    let sizes: Vec<f64> = c.q(vec![0.7, 1.0, 10.0, 2e-3, 3.7e4], vec![0.7, 1.0, 10.0, 2e-3, 3.7e4, 1e-9, 5e11]);
    // every coordinate chooses start and end independently
    for dim in 1..=3usize {
        let starts: Vec<f64> = if dim <= 2 { vec![-0.97, -0.4, 0.0, 0.31, 0.93] } else { c.q(vec![-0.57, -0.11, 0.0, 0.3, 0.55], vec![-0.57, -0.3, -0.11, 0.0, 0.1, 0.3, 0.44, 0.55]) };
        let ends: Vec<f64> = if dim <= 2 {
            vec![0.0, -0.2, 0.6, 1.02, -1.03, 1.7, -1.6, 2.1, -2.4, 2.97, -2.96, 3.05, -3.2, 5.3]
        } else {
            c.q(vec![0.0, 0.2, -0.6, 1.05, -1.02, -1.5, 1.6, 2.3, -2.9, 3.3], vec![0.0, 0.2, -0.6, 0.9, -0.99, 1.05, -1.02, 1.3, -1.5, 1.6, -2.2, 2.3, -2.9, 3.3])
        };
        let sh = shapes(&[dim], if dim <= 2 { &sizes } else { &sizes[..1] });
        c.family(
            &format!("fold-dim{}", dim),
            &format!("{} systems (ball, box with every boundary type, cylinder with every cross-section) of dimension {}; each coordinate starts at one of {:?} and ends at one of {:?} times its size", sh.len(), dim, starts, ends),
            move |run| {
                let sh = run.of(&sh);
                let (a, b) = match sh {
                    Shape::Cyl(r, l, _, _) => (r, l),
                    s => (s.size(), s.size()),
                };
                let k = match sh {
                    Shape::Cyl(_, _, k, _) => k,
                    _ => dim,
                };
                let mut s = vec![];
                let mut e = vec![];
                for i in 0..dim {
                    let f = if i < k { a } else { b };
                    s.push(run.of(&starts) * f);
                    e.push(run.of(&ends) * f);
                }
                step(run, sh, false, &s, &e);
            },
        );
    }
    // higher dimensions: every coordinate either stays, crosses on either side, or goes too far
    let dims: Vec<usize> = c.q(vec![4, 5, 6, 7, 8], vec![4, 5, 6, 7, 8, 9, 10]);
    let sh = shapes(&dims, &[1.3]);
    c.family(
        "fold-high-dim",
        &format!("{} systems of dimension {:?}; every coordinate stays (0.1), ends at 1.04, -1.3 or 3.2 times its size; built from arguments", sh.len(), dims),
        move |run| {
            let sh = run.of(&sh);
            let dim = sh.dim();
            let (a, b, k) = match sh {
                Shape::Cyl(r, l, k, _) => (r, l, k),
                Shape::Ball(r, _) => (r, r, dim),
                s => (s.size(), s.size(), dim),
            };
            let choices: &[f64] = if dim >= 7 { &[0.1, 1.04, -1.3] } else { &[0.1, 1.04, -1.3, 3.2] };
            let mut s = vec![];
            let mut e = vec![];
            for i in 0..dim {
                let f = if i < k { a } else { b };
                s.push(f * if i % 2 == 0 { 0.15 } else { -0.2 });
                e.push(run.of(choices) * f);
            }
            step(run, sh, true, &s, &e);
        },
    );
    let dims: Vec<usize> = c.q(vec![9, 10, 11, 12, 15, 16, 17, 32, 33, 64, 65], vec![9, 10, 11, 12, 13, 15, 16, 17, 31, 32, 33, 64, 65, 100, 128, 257]);
    c.family(
        "many-dimensions",
        &format!("balls, boxes of all boundary types and cylinders of 7 cross-sections, of dimension {:?}: the first, middle or last coordinate, all of them, two, or all but one, end at 0.4 to 40 times the size on either side, the others stay or move a little; both ways of building", dims),
        move |run| {
            let dim = run.of(&dims);
            let cuts = [0, 1, 2, dim / 2, dim - 2, dim - 1, dim];
            let r = 1.3;
            let sh = match run.pick(3) {
                0 => Shape::Ball(r, dim),
                1 => {
                    let how = run.pick(3);
                    Shape::boxed(r, dim, how, if how == 2 { run.of(&cuts) } else { 0 })
                }
                _ => Shape::Cyl(r, r * run.of(&[0.3, 1.0, 7.0]), run.of(&cuts), dim),
            };
            let (a, b, k) = match sh {
                Shape::Cyl(r, l, k, _) => (r, l, k),
                s => (s.size(), s.size(), dim),
            };
            let args = run.flag();
            let which = run.pick(6);
            let to = run.of(&[0.4, -0.9, 1.02, -1.05, 1.9, -2.95, 3.2, -40.0]);
            let drift = run.of(&[0.0, 0.01]);
            let moves = |i: usize| match which {
                0 => i == 0,
                1 => i == dim / 2,
                2 => i == dim - 1,
                3 => true,
                4 => i == 1 || i == dim - 2,
                _ => i != dim / 3,
            };
            let (mut s, mut e) = (vec![], vec![]);
            for i in 0..dim {
                let f = if i < k { a } else { b };
                let x = f * 0.3 / (dim as f64).sqrt() * if i % 3 == 0 { -1.0 } else { 1.0 };
                s.push(x);
                // as far from the axis of the round part as asked for
                let round = matches!(sh, Shape::Ball(..)) || i < k && matches!(sh, Shape::Cyl(..));
                let many = (0..if round { k } else { 1 }).filter(|j| moves(*j)).count().max(1) as f64;
                e.push(if moves(i) { to * f / if round { many.sqrt() } else { 1.0 } } else { x + drift * f / (dim as f64).sqrt() });
            }
            step(run, sh, args, &s, &e);
        },
    );
    // sizes over many magnitudes, all built both ways
    let sh = shapes(&[1, 2, 3], &[3e-100, 1e-17, 1e-9, 1e-4, 0.03, 1.0, 3.0, 47.0, 1e3, 1e8, 1e17, 2e100]);
    c.family(
        "fold-magnitudes",
        "systems of sizes from 3e-100 to 2e100, dimension 1..3, built directly and from arguments; displacements along one axis, a diagonal, or through the centre",
        move |run| {
            let sh = run.of(&sh);
            let args = run.flag();
            let dim = sh.dim();
            let way = run.pick(3);
            let at = run.of(&[0.05, -0.5]);
            let to = run.of(&[0.5, 1.0001, -1.4, 1.9, -2.3, 2.9, 3.1, -40.0]);
            let (a, b, k) = match sh {
                Shape::Cyl(r, l, k, _) => (r, l, k),
                s => (s.size(), s.size(), dim),
            };
            let mut s = vec![];
            let mut e = vec![];
            for i in 0..dim {
                let f = if i < k { a } else { b };
                s.push(at * f / (dim as f64));
                e.push(match way {
                    0 => if i == 0 { to * f } else { at * f / (dim as f64) },
                    1 => to * f / (dim as f64).sqrt() * if i == 1 { -1.0 } else { 1.0 },
                    _ => to * f * if i == dim - 1 { 1.0 } else { 0.01 },
                });
            }
            step(run, sh, args, &s, &e);
        },
    );
    // just across a wall, just inside, and just within or beyond the reach of one fold
    let sh = shapes(&[1, 2, 3], &[1.0, 0.37, 86.0]);
    c.family(
        "near-wall",
        "every shape of dimension 1..3; one coordinate (or the diagonal) ends a relative 1e-3 .. 5e-12 inside or outside a wall or the limit of one fold, started near the middle, near that wall, or near the opposite wall; the others stay",
        move |run| {
            let sh = run.of(&sh);
            let dim = sh.dim();
            let (a, b, k) = match sh {
                Shape::Cyl(r, l, k, _) => (r, l, k),
                s => (s.size(), s.size(), dim),
            };
            let way = run.pick(dim + 1);
            let eps = run.of(&[1e-3, 1e-5, 1e-7, 1e-9, 1e-11, 5e-12]) * if run.flag() { 1.0 } else { -1.0 };
            let at = run.of(&[1.0, -1.0, 3.0, -3.0]);
            let from = run.of(&[0.1, -0.3, 1.0 - 1e-3, 1.0 - 1e-6, 1.0 - 1e-9, -1.0 + 1e-5, -1.0 + 1e-10]);
            let to = at * (1.0 + eps);
            let mut s = vec![];
            let mut e = vec![];
            for i in 0..dim {
                let f = if i < k { a } else { b };
                if way == i {
                    s.push(from * f);
                    e.push(to * f);
                } else if way < dim {
                    s.push(0.0);
                    e.push(0.0);
                } else {
                    let g = if i < k && (k < dim || matches!(sh, Shape::Ball(..))) { 1.0 / (k as f64).sqrt() } else { 1.0 };
                    s.push(from * f * g);
                    e.push(to * f * g);
                }
            }
            step(run, sh, false, &s, &e);
        },
    );
    // no step at all, one coordinate far away, histories of steps with the same vectors
    let sh = shapes(&[1, 2, 3], &[1.0]);
    let walk = c.q(5, 7);
    c.family(
        "walk",
        &format!("walks of {} steps with reused vectors in every shape of dimension 1..3; each step moves every coordinate by one of 4 patterns; after every accepted step the walker is where the model puts it", walk),
        move |run| {
            let sh = run.of(&sh);
            let dim = sh.dim();
            let sys = sh.sys();
            let mut p = pos(&vec![0.013; dim]);
            let mut dp = pos(&vec![0.0; dim]);
            let mut model = p.coordinate.clone();
            let size = sh.size();
            for _ in 0..walk {
                let pat = run.pick(5);
                let d: Vec<f64> = (0..dim)
                    .map(|i| match pat {
                        0 => 0.0,
                        1 => 0.61 + 0.01 * i as f64,
                        2 => -0.83,
                        3 => if i == 0 { 0.97 } else { -0.07 },
                        _ => if i + 1 == dim { -1.31 } else { 0.02 },
                    })
                    .collect();
                let end: Vec<f64> = model.iter().zip(&d).map(|(a, b)| a + b).collect();
                let (want, margin) = sh.fold(&end);
                if margin < 1e-6 {
                    return;
                }
                for i in 0..dim {
                    dp[i] = d[i];
                }
                let r = sys.dynamic().check_bc(&mut p, &mut dp);
                run.step();
                run.note(|| format!("{:?} by {:?} -> {:?} {:?}", model, d, r.is_ok(), p.coordinate));
                match want {
                    None => {
                        run.ensure(r.is_err(), "accepted-outside", || format!("{:?} + {:?} is accepted at {:?}", model, d, p.coordinate));
                        return;
                    }
                    Some(w) => {
                        run.ensure(r.is_ok(), "refused", || format!("{:?} + {:?} refused", model, d));
                        let same = p.coordinate.iter().zip(&w).all(|(a, b)| (a - b).abs() < 1e-8 * size);
                        run.ensure(same, "position", || format!("{:?} + {:?} ends at {:?}, expected {:?}", model, d, p.coordinate, w));
                        if run.failed() {
                            return;
                        }
                        model = w;
                        run.observe_f64((model[0] * 1e6).round());
                    }
                }
            }
        },
    );
    c.family(
        "first-order",
        "check_bc_first_order of balls of dimension 1..4: steps of 1e-2 .. 1e-5 radii that cross the wall at 11 angles after a tenth to nine tenths of their way: within 10 squared steps of the mirrored point, and within a hundredth of the step for the smallest steps",
        |run| {
            let dim = 1 + run.pick(4);
            let r = run.of(&[0.4, 1.0, 25.0]);
            let b = run.of(&[1e-2, 1e-3, 1e-4, 1e-5]);
            let frac = run.of(&[0.1, 0.3, 0.5, 0.7, 0.9]);
            let ang = run.pick(if dim > 1 { 11 } else { 1 });
            let rot = run.pick(if dim > 1 { 6 } else { 2 });
            // the frame: a unit radial direction and a unit tangent
            let (mut u, mut w) = (vec![0.0; dim], vec![0.0; dim]);
            let ph = 0.3 + rot as f64 * std::f64::consts::PI / 3.0;
            if dim == 1 {
                u[0] = if rot == 0 { 1.0 } else { -1.0 };
            } else {
                u[0] = ph.cos();
                u[dim - 1] = ph.sin();
                w[0] = -ph.sin();
                w[dim - 1] = ph.cos();
            }
            let th = if dim > 1 { -1.0 + 0.2 * ang as f64 } else { 0.0 };
            let step = b * r;
            // the flat wall is crossed after `frac` of the step
            let gap = frac * step * th.cos();
            let s: Vec<f64> = u.iter().map(|x| x * (r - gap)).collect();
            let d: Vec<f64> = u.iter().zip(&w).map(|(x, y)| step * (th.cos() * x + th.sin() * y)).collect();
            let want: Vec<f64> = s.iter().zip(&d).zip(&u).map(|((x, y), n)| x + y - 2.0 * (step * th.cos() - gap) * n).collect();
            let mut p = pos(&s);
            let mut dp = pos(&d);
            run.note(|| format!("ball {} dim {} from {:?} by {:?}", r, dim, s, d));
            let got = check_bc_first_order(ContCircSystem::new(r, dim), &mut p, &mut dp);
            run.step();
            let tol = 10.0 * b * b * r + 1e-12 * r;
            let ok = got.is_ok() && p.coordinate.len() == dim && p.coordinate.iter().zip(&want).all(|(x, y)| (x - y).abs() <= tol);
            run.ensure(ok, "first-order", || format!("check_bc_first_order: ball {} from {:?} by {:?}: {:?} at {:?}, the mirrored point is {:?}", r, s, d, got, p.coordinate, want));
            run.observe(&(dim, ang, rot));
        },
    );
    // the exact variant
    let n = c.q(13, 27);
    c.family(
        "exact-reflection",
        &format!("check_bc_exact of balls of dimension 1..5: the segment from one of {0} points to one of {0} points, mirrored at the sphere where it leaves", n),
        move |run| {
            let dim = 1 + run.pick(5);
            let r = run.of(&[0.4, 1.0, 25.0]);
            let fr: Vec<f64> = (0..n).map(|i| -0.95 + 1.9 * (i as f64) / (n as f64 - 1.0)).collect();
            let a = run.of(&fr);
            let b = if dim > 1 { run.of(&fr) } else { 0.0 };
            let len = run.of(&[0.05, 0.3, 0.9, 1.6, 2.5]);
            let ang = run.pick(if dim > 1 { 8 } else { 2 });
            let mut s = vec![0.0; dim];
            let mut d = vec![0.0; dim];
            s[0] = a * r;
            if dim > 1 {
                s[dim - 1] += b * r;
                let th = 0.37 + ang as f64 * std::f64::consts::PI / 4.0;
                d[0] = len * r * th.cos() * 0.9;
                d[dim - 1] += len * r * th.sin();
                if dim > 2 {
                    d[1] = len * r * 0.3;
                }
            } else {
                d[0] = len * r * if ang == 0 { 1.0 } else { -1.0 };
            }
            let sh = Shape::Ball(r, dim);
            if sh.depth(&s) < 1e-6 {
                return;
            }
            let end: Vec<f64> = s.iter().zip(&d).map(|(x, y)| x + y).collect();
            let dep = sh.depth(&end);
            if dep.abs() < 1e-6 {
                return;
            }
            let want = if dep > 0.0 {
                Some(end.clone())
            } else {
                // bisection for the hit, then a mirror at the plane whose normal is the hit point
                let (mut lo, mut hi) = (0.0f64, 1.0f64);
                for _ in 0..200 {
                    let m = 0.5 * (lo + hi);
                    let x: Vec<f64> = s.iter().zip(&d).map(|(x, y)| x + m * y).collect();
                    if norm(&x) <= r { lo = m } else { hi = m }
                }
                let hit: Vec<f64> = s.iter().zip(&d).map(|(x, y)| x + lo * y).collect();
                let h = norm(&hit);
                let nrm: Vec<f64> = hit.iter().map(|x| x / h).collect();
                let over: f64 = end.iter().zip(&hit).zip(&nrm).map(|((e, h), n)| (e - h) * n).sum();
                let q: Vec<f64> = end.iter().zip(&nrm).map(|(e, n)| e - 2.0 * over * n).collect();
                let dq = sh.depth(&q);
                if dq.abs() < 1e-6 {
                    return;
                }
                if dq > 0.0 { Some(q) } else { None }
            };
            let sys = ContCircSystem::new(r, dim);
            let mut p = pos(&s);
            let mut dp = pos(&d);
            run.note(|| format!("ball {} dim {} from {:?} by {:?}", r, dim, s, d));
            let got = check_bc_exact(sys, &mut p, &mut dp);
            run.step();
            // the first-order variant: its accuracy has a family of its own
            let mut p1 = pos(&s);
            let mut dp1 = pos(&d);
            let first = check_bc_first_order(ContCircSystem::new(r, dim), &mut p1, &mut dp1);
            if first.is_ok() {
                run.ensure(p1.coordinate.len() == dim && sh.depth(&p1.coordinate) > -1e-13, "first-order-outside", || format!("check_bc_first_order: ball {} from {:?} by {:?} is accepted at {:?}", r, s, d, p1.coordinate));
            }
            if dep > 0.0 {
                let same = first.is_ok() && p1.coordinate.iter().zip(&end).all(|(a, b)| (a - b).abs() < 1e-12 * r);
                run.ensure(same, "first-order-plain", || format!("check_bc_first_order: ball {} from {:?} by {:?} stays inside, but the result is {:?} at {:?}", r, s, d, first, p1.coordinate));
            }
            match want {
                Some(w) => {
                    run.ensure(got.is_ok(), "exact-refused", || format!("ball {} from {:?} by {:?}: reflection {:?} is inside but refused", r, s, d, w));
                    let same = p.coordinate.iter().zip(&w).all(|(a, b)| (a - b).abs() < 1e-8 * r);
                    run.ensure(got.is_err() || same, "exact-position", || format!("ball {} from {:?} by {:?} ends at {:?}, expected {:?}", r, s, d, p.coordinate, w));
                    run.observe_f64((p[0] / r * 1e6).round());
                }
                None => {
                    run.ensure(got.is_err(), "exact-accepted-outside", || format!("ball {} from {:?} by {:?}: the reflection is outside but {:?} is accepted", r, s, d, p.coordinate));
                    run.observe(&"refused");
                }
            }
        },
    );
    // wrong dimensions
    let sh = shapes(&[1, 2, 3, 4], &[1.0]);
    c.family(
        "dimension",
        "every shape of dimension 1..4 with position and displacement of every combination of dimensions 0..6",
        move |run| {
            let sh = run.of(&sh);
            let (a, b) = (run.pick(7), run.pick(7));
            let far = run.flag();
            let sys = sh.sys();
            let s0 = vec![0.01; a];
            let mut p = pos(&s0);
            let mut dp = pos(&vec![if far { 1.2 } else { 0.02 }; b]);
            let good = a == sh.dim() && b == sh.dim();
            run.note(|| format!("{:?} position of dimension {}, displacement of dimension {}", sh, a, b));
            let r = sys.dynamic().check_bc(&mut p, &mut dp);
            run.step();
            if !good {
                run.ensure(r.is_err(), "dimension-accepted", || format!("{:?} accepts a position of dimension {} and a displacement of dimension {}", sh, a, b));
                run.ensure(p.coordinate == s0, "dimension-moved", || format!("{:?} refuses dimensions {} and {} but moves the walker to {:?}", sh, a, b, p.coordinate));
            }
            if let Sys::Ball(s) = sh.sys() {
                let mut p = pos(&s0);
                let mut dp = pos(&vec![0.02; b]);
                let r = check_bc_exact(s, &mut p, &mut dp);
                if !good {
                    run.ensure(r.is_err() && p.coordinate == s0, "dimension-exact", || format!("check_bc_exact accepts dimensions {} and {} in {:?}", a, b, sh));
                }
                let Sys::Ball(s) = sh.sys() else { return };
                let mut p = pos(&s0);
                let mut dp = pos(&vec![0.02; b]);
                let r = check_bc_first_order(s, &mut p, &mut dp);
                if !good {
                    run.ensure(r.is_err() && p.coordinate == s0, "dimension-first-order", || format!("check_bc_first_order accepts dimensions {} and {} in {:?}", a, b, sh));
                }
            }
            run.observe(&r.is_ok());
        },
    );
    c.finish()
}
