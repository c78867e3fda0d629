//! C10: pair interactions are symmetric, unit-directed and derive from the potential.
use mcheck::agents::*;
use mcheck::geo::norm;
use mcheck::util::*;
use mcheck::*;
use moledyn::prelude::*;

/// A particle that interacts: potential and force.
enum P {
    Exp(ContPassiveExpAgent),
    Lj(ContPassiveLJAgent),
}
impl P {
    fn potential(&self, r: f64) -> f64 {
        match self {
            P::Exp(a) => a.potential(r),
            P::Lj(a) => a.potential(r),
        }
    }
    fn force(&self, r: f64) -> f64 {
        match self {
            P::Exp(a) => a.force(r),
            P::Lj(a) => a.force(r),
        }
    }
}

/// `way`: 0 new, 1 new_uniform, 2 from arguments, 3 from arguments and renewed, 4 renewed in a
/// system of another dimension
fn make(kind: usize, way: usize, dim: usize, size: f64, strength: f64) -> P {
    let sys = ContCircSystem::new(5.0, dim);
    let other = ContCircSystem::new(5.0, if dim == 1 { 3 } else { dim - 1 });
    let target = ContBulkTarget::new(pos(&vec![4.0; dim]), 0.1);
    let t2 = ContBulkTarget::new(pos(&vec![4.0; if dim == 1 { 3 } else { dim - 1 }]), 0.1);
    let mut rng = rng_seed(5);
    let w = |v: &[&str]| -> Vec<String> { v.iter().map(|x| x.to_string()).collect() };
    let (sz, st, d) = (format!("{}", size), format!("{}", strength), format!("{}", dim));
    let m = MoveType::Brownian(1.0);
    if kind == 0 {
        let it = InteractType::Exponential(dim, size);
        let mut a = match way {
            0 | 4 => ContPassiveExpAgent::new(it, m, pos(&vec![0.5; dim]), strength),
            1 => ContPassiveExpAgent::new_uniform(&sys, &target, &mut rng, it, m, strength).expect("agent"),
            _ => ContPassiveExpAgent::convert_from(&ContPassiveExpAgent::read_args_from_vec(&w(&["1", "Uniform", &sz, &d, &st, "1"])).expect("arguments")).remove(0),
        };
        if way == 3 {
            a.renew_uniform(&sys, &target, &mut rng).expect("renew");
        } else if way == 4 {
            a.renew_uniform(&other, &t2, &mut rng).expect("renew");
        }
        P::Exp(a)
    } else {
        let it = InteractType::LennardJones(size);
        let mut a = match way {
            0 | 4 => ContPassiveLJAgent::new(it, m, pos(&vec![0.5; dim]), strength),
            1 => ContPassiveLJAgent::new_uniform(&sys, &target, &mut rng, it, m, strength).expect("agent"),
            _ => ContPassiveLJAgent::convert_from(&ContPassiveLJAgent::read_args_from_vec(&w(&["1", "Uniform", &sz, &st, "1"])).expect("arguments")).remove(0),
        };
        if way == 3 {
            a.renew_uniform(&sys, &target, &mut rng).expect("renew");
        } else if way == 4 {
            a.renew_uniform(&other, &t2, &mut rng).expect("renew");
        }
        P::Lj(a)
    }
}

fn main() {
    let mut c = Check::new("C10");
    c.assume("the direction between two agents at the same place is not defined");
    c.assume("numbers are compared up to 1e-9 of the scale of the terms, the derivative of the potential up to 1e-6");
    for dim in 1..=c.q(4usize, 5) {
        let al: Vec<f64> = match dim {
            1 => vec![0.0, 1.0, -1.0, 0.3, -2.5, 1e-5, 1e3, -7e4],
            2 => c.q(vec![0.0, 1.0, -0.3, 2.5, -40.0, 1e-5, -1e3], vec![0.0, 1.0, -0.3, 2.5, -40.0, 1e-5, -1e3, 7e-3, 1e4]),
            3 => c.q(vec![0.0, 1.0, -2.5, 40.0], vec![0.0, 1.0, -2.5, 40.0, 0.03]),
            _ => vec![0.0, 1.0, -2.5],
        };
        c.family(
            &format!("pairs-dim{}", dim),
            &format!("4 agent kinds, every pair of positions with coordinates from {:?}: both orders, both forms (the vector holding old values), positions set directly or after construction elsewhere", al),
            move |run| {
                let kind = run.pick(4);
                let p: Vec<f64> = (0..dim).map(|_| run.of(&al)).collect();
                let q: Vec<f64> = (0..dim).map(|_| run.of(&al)).collect();
                if p == q {
                    return;
                }
                let way = run.pick(2);
                let m = MoveType::Brownian(0.5);
                let mut a = Ag::at(kind, m, if way == 0 { &p } else { &q });
                let mut b = Ag::at(kind, m, if way == 0 { &q } else { &p });
                if way == 1 {
                    a.set_position(&p);
                    b.set_position(&q);
                }
                run.step();
                let d: Vec<f64> = q.iter().zip(&p).map(|(x, y)| x - y).collect();
                let r = norm(&d);
                let what = |f: &str| format!("{} of {} agents at {:?} and {:?}", f, KINDS[kind], p, q);
                run.note(|| what("distance"));
                let mut one = |run: &mut Run, x: &Ag, y: &Ag, sign: f64| {
                    let u: Vec<f64> = d.iter().map(|v| sign * v / r).collect();
                    let good = |v: &[f64]| v.len() == dim && v.iter().zip(&u).all(|(g, w)| (g - w).abs() <= 1e-9);
                    match x.disp(y) {
                        Ok((v, s)) => {
                            run.ensure(rel(s, r, 1e-9), "distance", || format!("{}: the distance is {}, expected {}", what("mutual_displacement"), s, r));
                            run.ensure(good(&v.coordinate), "direction", || format!("{}: the direction is {:?}, expected {:?}", what("mutual_displacement"), v.coordinate, u));
                        }
                        Err(e) => run.fail("error", format!("{} failed: {:?}", what("mutual_displacement"), e)),
                    }
                    let mut v = pos(&vec![13.0; dim]);
                    match x.disp_to(y, &mut v) {
                        Ok(s) => {
                            run.ensure(rel(s, r, 1e-9), "distance", || format!("{}: the distance is {}, expected {}", what("mutual_displacement_to_vec"), s, r));
                            run.ensure(good(&v.coordinate), "direction", || format!("{}: the direction is {:?}, expected {:?}", what("mutual_displacement_to_vec"), v.coordinate, u));
                        }
                        Err(e) => run.fail("error", format!("{} failed: {:?}", what("mutual_displacement_to_vec"), e)),
                    }
                    match x.dist(y) {
                        Ok(s) => {
                            run.ensure(rel(s, r, 1e-9), "distance", || format!("{}: it is {}, expected {}", what("mutual_distance"), s, r));
                        }
                        Err(e) => run.fail("error", format!("{} failed: {:?}", what("mutual_distance"), e)),
                    }
                };
                one(run, &a, &b, 1.0);
                one(run, &b, &a, -1.0);
                run.observe_f64(r);
                run.ensure(a.position() == &p[..] && b.position() == &q[..], "moved", || what("a query moved an agent"));
            },
        );
    }
    c.family("many-dimensions", "4 agent kinds, dimensions 1..12, 16, 17, 33 and 64: agents apart along one axis, two axes or all, by 1e-145 .. 1e145, around the origin or far away; both orders and forms", |run| {
        let kind = run.pick(4);
        let dim = run.of(&[1usize, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 17, 33, 64]);
        let axis = run.pick(dim);
        let how = run.pick(3);
        let len = run.of(&[1.0, 1e-9, 1e-4, 37.5, 1e9, 3e-13, 1e-17, 1e-40, 1e-145, 1e16, 1e39, 1e145]);
        let off = run.of(&[0.0, -2.0]) * len;
        let p: Vec<f64> = (0..dim).map(|i| off + len * 0.1 * (i % 3) as f64).collect();
        let mut q = p.clone();
        match how {
            0 => q[axis] -= len,
            1 => {
                q[axis] += 0.6 * len;
                q[(axis + 3) % dim] -= 0.8 * len;
            }
            _ => q.iter_mut().enumerate().for_each(|(i, x)| *x += len * if i % 2 == 0 { 0.3 } else { -0.7 }),
        }
        let d: Vec<f64> = q.iter().zip(&p).map(|(x, y)| x - y).collect();
        let r = norm(&d);
        let m = MoveType::Brownian(0.5);
        let (a, b) = (Ag::at(kind, m, &p), Ag::at(kind, m, &q));
        run.step();
        run.note(|| format!("{} agents in {} dimensions apart by {:?}", KINDS[kind], dim, d));
        for (x, y, sign) in [(&a, &b, 1.0), (&b, &a, -1.0)] {
            let mut v = pos(&vec![13.0; dim]);
            let s2 = x.disp_to(y, &mut v);
            let s3 = x.dist(y);
            let got = x.disp(y);
            let dir = |v: &[f64]| v.len() == dim && v.iter().zip(&d).all(|(g, w)| (g - sign * w / r).abs() <= 1e-9);
            let ok = matches!(&got, Ok((u, s)) if dir(&u.coordinate) && rel(*s, r, 1e-9)) && dir(&v.coordinate) && matches!(s2, Ok(s) if rel(s, r, 1e-9)) && matches!(s3, Ok(s) if rel(s, r, 1e-9));
            run.ensure(ok, "many-dimensions", || format!("{} agents in {} dimensions apart by {:?} (sign {}): {:?}, {:?} into {:?}, {:?}", KINDS[kind], dim, d, sign, got, s2, v, s3));
        }
        run.observe(&(dim, axis, how));
    });
    c.family(
        "dimensions",
        "4 agent kinds, dimensions 1..4 of both agents and 0..5 of the vector: everything that does not fit is refused and the vector stays",
        move |run| {
            let kind = run.pick(4);
            let d1 = 1 + run.pick(4);
            let d2 = 1 + run.pick(4);
            let dv = run.pick(6);
            let m = MoveType::Brownian(0.5);
            let a = Ag::at(kind, m, &vec![1.0; d1]);
            let b = Ag::at(kind, m, &vec![-0.5; d2]);
            run.step();
            let what = |f: &str| format!("{} of {} agents of dimension {} and {} (vector {})", f, KINDS[kind], d1, d2, dv);
            run.note(|| what("mutual_*"));
            let fits = d1 == d2;
            let r1 = catch(|| a.disp(&b));
            let r2 = catch(|| a.dist(&b));
            let mut v = pos(&vec![7.0; dv]);
            let r3 = catch(|| a.disp_to(&b, &mut v));
            run.observe(&(fits, dv == d1));
            let is = |ok: bool, refused: bool, want: bool| if want { ok } else { refused };
            run.ensure(is(matches!(r1, Ok(Ok(_))), matches!(r1, Ok(Err(_))), fits), "dimension", || format!("{}: {:?}", what("mutual_displacement"), r1));
            run.ensure(is(matches!(r2, Ok(Ok(_))), matches!(r2, Ok(Err(_))), fits), "dimension", || format!("{}: {:?}", what("mutual_distance"), r2));
            let f3 = fits && dv == d1;
            run.ensure(is(matches!(r3, Ok(Ok(_))), matches!(r3, Ok(Err(_))), f3), "dimension", || format!("{}: {:?}", what("mutual_displacement_to_vec"), r3));
            if !f3 {
                run.ensure(v.coordinate.iter().all(|x| *x == 7.0), "dimension", || format!("{} changed the vector to {:?}", what("refused mutual_displacement_to_vec"), v.coordinate));
            }
        },
    );
    let nr = c.q(400usize, 4000);
    c.family(
        "potential",
        &format!("both interacting kinds, built in 5 ways, dimensions 1..4, 9 sizes, 7 strengths (negative ones too), {} distances from 0.3 to 20 sizes: values, force as the negative derivative (central differences), sign", nr),
        move |run| {
            let kind = run.pick(2);
            let way = run.pick(5);
            let dim = 1 + run.pick(4);
            let size = run.of(&[1.0, 0.1, 0.5, 2.0, 7.3, 1e-3, 100.0, 0.9, 3.0]);
            let st = run.of(&[1.0, 0.5, 3.0, 1e-4, 1e5, -2.0, 12.5]);
            let a = make(kind, way, dim, size, st);
            run.step();
            let what = || format!("{} agent (way {}, dimension {}, size {}, strength {})", KINDS[kind + 2], way, dim, size, st);
            run.note(|| what());
            for i in 0..nr {
                let x = 0.3 * (20.0f64 / 0.3).powf(i as f64 / (nr - 1) as f64);
                let r = x * size;
                let v = a.potential(r);
                let f = a.force(r);
                let (wv, wf, sv, sf) = if kind == 0 {
                    let e = st * (-x).exp();
                    (e, e / size, e.abs(), (e / size).abs())
                } else {
                    let s6 = x.powi(-6);
                    (4.0 * st * (s6 * s6 - s6), 24.0 * st / r * (2.0 * s6 * s6 - s6), 4.0 * st.abs() * (s6 * s6 + s6), 24.0 * st.abs() / r * (2.0 * s6 * s6 + s6))
                };
                run.ensure((v - wv).abs() <= 1e-9 * sv, "potential", || format!("{}: the potential at {} is {}, expected {}", what(), r, v, wv));
                run.ensure((f - wf).abs() <= 1e-9 * sf, "force", || format!("{}: the force at {} is {}, expected {}", what(), r, f, wf));
                let h = 1e-4 * r;
                // fourth-order central difference of the reported potential
                let num = -(8.0 * (a.potential(r + h) - a.potential(r - h)) - (a.potential(r + 2.0 * h) - a.potential(r - 2.0 * h))) / (12.0 * h);
                run.ensure((f - num).abs() <= 1e-6 * sf + 1e-9 * sv / h * 1e-3, "derivative", || format!("{}: the force at {} is {}, minus the derivative of the potential is {}", what(), r, f, num));
                run.observe_f64(f);
            }
        },
    );
    c.family("far-and-near", "both interacting kinds, built in 5 ways, dimensions 1..9, sizes 1e-9..1e9, strengths down to 1e-12 and up to 1e12, none at all: distances of 1e-6 to 1e4 sizes", |run| {
        let kind = run.pick(2);
        let way = run.pick(5);
        let dim = 1 + run.pick(9);
        let size = run.of(&[1.0, 1e-9, 3.3e-5, 2e4, 1e9]);
        let st = run.of(&[1.0, 0.0, 1e-12, -1e12, 1e12]);
        let a = make(kind, way, dim, size, st);
        run.step();
        let what = || format!("{} agent (way {}, dimension {}, size {}, strength {})", KINDS[kind + 2], way, dim, size, st);
        run.note(|| what());
        for x in [1e-6, 1e-3, 0.05, 0.3, 0.9, 1.0, 1.1, 2.0, 2.4, 2.6, 3.1, 5.1, 10.5, 30.0, 101.0, 600.0, 1e4] {
            let r = x * size;
            let (v, f) = (a.potential(r), a.force(r));
            let (wv, wf) = if kind == 0 {
                (st * (-x as f64).exp(), st * (-x as f64).exp() / size)
            } else {
                let s6 = (x as f64).powi(-6);
                (4.0 * st * (s6 * s6 - s6), 24.0 * st / r * (2.0 * s6 * s6 - s6))
            };
            let s6 = (x as f64).powi(-6);
            let (sv, sf) = if kind == 0 { (wv.abs(), wf.abs()) } else { (4.0 * st.abs() * (s6 * s6 + s6), 24.0 * st.abs() / r * (2.0 * s6 * s6 + s6)) };
            run.ensure((v - wv).abs() <= 1e-9 * sv + 1e-300, "potential", || format!("{}: the potential at {} is {}, expected {}", what(), r, v, wv));
            run.ensure((f - wf).abs() <= 1e-9 * sf + 1e-300, "force", || format!("{}: the force at {} is {}, expected {}", what(), r, f, wf));
            run.observe_f64(f);
        }
    });
    c.finish()
}
