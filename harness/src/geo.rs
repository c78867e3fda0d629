//! Reference geometry, written independently of the code under test.
use moledyn::prelude::*;
use moledyn::system_mod::{cont_circ::ContCircSystem, cont_cubic::ContCubicSystem, cont_cyl::ContCylindricalSystem};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Shape {
    /// radius, dimension
    Ball(f64, usize),
    /// half length, dimension, number of leading reflecting coordinates
    /// (`how`: 0 Reflection, 1 Periodic, 2 Mixed)
    Box(f64, usize, usize, usize),
    /// radius, half length, number of coordinates of the cross-section, dimension
    Cyl(f64, f64, usize, usize),
}

pub enum Sys {
    Ball(ContCircSystem),
    Box(ContCubicSystem),
    Cyl(ContCylindricalSystem),
}

impl Sys {
    pub fn dynamic(&self) -> &dyn SystemCore<f64> {
        match self {
            Sys::Ball(s) => s,
            Sys::Box(s) => s,
            Sys::Cyl(s) => s,
        }
    }
}

pub fn norm(x: &[f64]) -> f64 {
    let m = x.iter().fold(0f64, |m, v| m.max(v.abs()));
    if m == 0.0 {
        return 0.0;
    }
    m * x.iter().map(|v| (v / m) * (v / m)).sum::<f64>().sqrt()
}

impl Shape {
    pub fn boxed(l: f64, dim: usize, how: usize, d: usize) -> Shape {
        Shape::Box(l, dim, if how == 0 { dim } else if how == 1 { 0 } else { d }, how)
    }
    pub fn dim(&self) -> usize {
        match *self {
            Shape::Ball(_, d) | Shape::Box(_, d, _, _) | Shape::Cyl(_, _, _, d) => d,
        }
    }
    pub fn size(&self) -> f64 {
        match *self {
            Shape::Ball(r, _) => r,
            Shape::Box(l, _, _, _) => l,
            Shape::Cyl(r, l, _, _) => r.max(l),
        }
    }
    /// Built directly.
    pub fn sys(&self) -> Sys {
        match *self {
            Shape::Ball(r, d) => Sys::Ball(ContCircSystem::new(r, d)),
            Shape::Box(l, d, k, how) => Sys::Box(ContCubicSystem::new(bc(k, how), l, d)),
            Shape::Cyl(r, l, k, d) => Sys::Cyl(ContCylindricalSystem::new(k, r, l, d)),
        }
    }
    /// Built from the words of a command line.
    pub fn sys_from_args(&self) -> Sys {
        let w = |v: Vec<String>| v;
        match *self {
            Shape::Ball(r, d) => {
                let a = ContCircSystem::read_args_from_vec(&w(vec![format!("{:e}", r), d.to_string()])).expect("arguments of a ball");
                Sys::Ball(ContCircSystem::convert_from(&a))
            }
            Shape::Box(l, d, k, how) => {
                let b = match how {
                    0 => "Reflective".to_string(),
                    1 => "Periodic".to_string(),
                    // a bare 0 is no short form
                    _ if k == 0 => format!("{}", BoundaryCond::Mixed(0)),
                    _ => k.to_string(),
                };
                let a = ContCubicSystem::read_args_from_vec(&w(vec![b, format!("{:e}", l), d.to_string()])).expect("arguments of a box");
                Sys::Box(ContCubicSystem::convert_from(&a))
            }
            Shape::Cyl(r, l, k, d) => {
                let a = ContCylindricalSystem::read_args_from_vec(&w(vec![
                    if k == 0 { format!("{}", SystemType::ContinuousCylindrical(0)) } else { k.to_string() },
                    if k == 0 { format!("{}", BoundaryCond::Mixed(0)) } else { k.to_string() },
                    format!("{:e}", r),
                    format!("{:e}", l),
                    d.to_string(),
                ]))
                .expect("arguments of a cylinder");
                Sys::Cyl(ContCylindricalSystem::convert_from(&a))
            }
        }
    }
    /// How far inside (positive) or outside (negative) a point is, relative to the size of the
    /// part of the system that is closest to being left.
    pub fn depth(&self, p: &[f64]) -> f64 {
        match *self {
            Shape::Ball(r, _) => 1.0 - norm(p) / r,
            Shape::Box(l, _, _, _) => p.iter().fold(f64::MAX, |m, x| m.min(1.0 - x.abs() / l)),
            Shape::Cyl(r, l, k, _) => {
                let mut m = f64::MAX;
                if k > 0 {
                    m = m.min(1.0 - norm(&p[..k]) / r);
                }
                p[k..].iter().fold(m, |m, x| m.min(1.0 - x.abs() / l))
            }
        }
    }
    /// One fold of an end point: `Some(point)` if it ends inside, `None` if one fold is not enough.
    /// The second value is the distance to the closest decision, relative to the size.
    pub fn fold(&self, end: &[f64]) -> (Option<Vec<f64>>, f64) {
        let mut margin = f64::MAX;
        let mut out = end.to_vec();
        let mut ok = true;
        let mut radial = |v: &mut [f64], r: f64| -> bool {
            let s = norm(v);
            margin = margin.min((s / r - 1.0).abs()).min((s / r - 3.0).abs());
            if s <= r {
                return true;
            }
            // through a direction of unit length, so that no cancellation is shared with the code
            let to = 2.0 * r - s;
            for x in v.iter_mut() {
                *x = *x / s * to;
            }
            s <= 3.0 * r
        };
        match *self {
            Shape::Ball(r, _) => ok &= radial(&mut out, r),
            Shape::Box(l, _, k, _) => {
                for i in 0..out.len() {
                    ok &= axis(&mut out[i], l, i < k, &mut margin);
                }
            }
            Shape::Cyl(r, l, k, _) => {
                if k > 0 {
                    ok &= radial(&mut out[..k], r);
                }
                for i in k..out.len() {
                    ok &= axis(&mut out[i], l, false, &mut margin);
                }
            }
        }
        (if ok { Some(out) } else { None }, margin)
    }
}

fn axis(x: &mut f64, l: f64, mirror: bool, margin: &mut f64) -> bool {
    let a = x.abs();
    *margin = margin.min((a / l - 1.0).abs()).min((a / l - 3.0).abs());
    if a <= l {
        return true;
    }
    let s = x.signum();
    *x = if mirror { s * (2.0 * l - a) } else { s * (a - 2.0 * l) };
    a <= 3.0 * l
}

pub fn bc(k: usize, how: usize) -> BoundaryCond {
    match how {
        0 => BoundaryCond::Reflection,
        1 => BoundaryCond::Periodic,
        _ => BoundaryCond::Mixed(k),
    }
}

/// A regular set of shapes of every dimension in `dims` and every size in `sizes`.
pub fn shapes(dims: &[usize], sizes: &[f64]) -> Vec<Shape> {
    let mut v = vec![];
    for &d in dims {
        for &s in sizes {
            v.push(Shape::Ball(s, d));
            v.push(Shape::boxed(s, d, 0, 0));
            v.push(Shape::boxed(s, d, 1, 0));
            for k in 0..=d {
                v.push(Shape::boxed(s, d, 2, k));
            }
            for k in 0..=d {
                for f in [0.3, 1.0, 7.0] {
                    v.push(Shape::Cyl(s, s * f, k, d));
                }
            }
        }
    }
    v
}
