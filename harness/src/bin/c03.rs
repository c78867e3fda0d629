//! C03: a searcher finds the target exactly when it is closer than the target's radius.
use mcheck::geo::norm;
use mcheck::util::*;
use mcheck::*;
use moledyn::prelude::{Argument, ContBulkTarget, TargetCore, TargetType};

fn build(way: usize, c: &[f64], r: f64) -> ContBulkTarget {
    if way == 0 {
        return ContBulkTarget::new(pos(c), r);
    }
    // the words of a command line, with both separators of coordinates
    let sep = if way == 1 { ":" } else { "," };
    let w: Vec<String> = c.iter().map(|x| if way == 1 { format!("{}", x) } else { format!("{:e}", x) }).collect();
    let a = ContBulkTarget::read_args_from_vec(&[w.join(sep), format!("{:e}", r)]).expect("arguments of a target");
    ContBulkTarget::convert_from(&a)
}

fn decide(run: &mut Run, way: usize, c: &[f64], r: f64, x: &[f64]) {
    let t = build(way, c, r);
    let d = norm(&c.iter().zip(x).map(|(a, b)| b - a).collect::<Vec<_>>());
    let scale = norm(c) + norm(x);
    if (d - r).abs() <= 1e-9 * r + 1e-14 * scale {
        return;
    }
    run.note(|| format!("target at {:?} radius {}, searcher at {:?}", c, r, x));
    let got = t.check_find(&pos(x));
    run.step();
    run.ensure(got == Ok(d < r), "find", || format!("target at {:?} with radius {}: check_find({:?}) = {:?}, the distance is {}", c, r, x, got, d));
    let got = t.distance(&pos(x));
    let ok = match &got { Ok(v) => close(*v, d, 1e-5 * scale), _ => false };
    run.ensure(ok, "distance", || format!("target at {:?}: distance to {:?} is {:?}, expected {}", c, x, got, d));
    run.ensure(t.target_type() == TargetType::ContinuousInBulk, "type", || format!("target type {:?}", t.target_type()));
    run.observe(&(d < r));
    run.observe_f64((d * 1e6).round());
}

fn main() {
    let mut c = Check::new("C03");
    c.assume("positions within 1e-9 (relative to the radius) of the target's surface are not decided, except those on an axis whose distance is computed without rounding");
    let max_dim = c.q(4usize, 5);
    for dim in 1..=max_dim {
        let centres: Vec<f64> = if dim < 3 { vec![0.0, 1.0, -2.5, 1e-3, 40.0] } else { vec![0.0, -2.5, 40.0] };
        let offs: Vec<f64> = if dim < 4 { vec![0.0, 0.3, -0.58, 0.9, -0.999, 1.001, -1.4, 3.0] } else { vec![0.0, 0.3, -0.52, 0.9, -1.001] };
        c.family(
            &format!("dim{}", dim),
            &format!("all centres over {:?}^{d}, radii 1e-3, 0.5, 7 and all offsets over {:?}^{d} radii, target built directly or from either argument form", centres, offs, d = dim),
            move |run| {
                let way = run.pick(3);
                let r = run.of(&[0.5, 1e-3, 7.0]);
                let mut ce = vec![];
                let mut x = vec![];
                for _ in 0..dim {
                    let a = run.of(&centres);
                    ce.push(a);
                    x.push(a + r * run.of(&offs));
                }
                decide(run, way, &ce, r, &x);
            },
        );
    }
    let dims = c.q(10usize, 13);
    c.family("high-dimension", "dimension 1..8 (10): the searcher just inside or just outside along each subset of axes", move |run| {
        let dim = 1 + run.pick(dims);
        let mask = 1 + run.pick((1 << dim) - 1);
        let sign = run.flag();
        let r = run.of(&[1e-6, 1.0, 2.5e4]);
        let f = run.of(&[0.9999, 1.0001, 1.3, 0.2]);
        let off = run.of(&[0.0, 3.0, -1e3]);
        let m = (mask as u32).count_ones() as f64;
        let ce: Vec<f64> = (0..dim).map(|i| off * r + i as f64 * 0.1 * r).collect();
        let x: Vec<f64> = (0..dim)
            .map(|i| ce[i] + if mask >> i & 1 == 1 { f * r / m.sqrt() * if sign && i % 2 == 0 { -1.0 } else { 1.0 } } else { 0.0 })
            .collect();
        decide(run, 0, &ce, r, &x);
    });
    c.family("magnitudes", "radii 1e-140 to 1e140 and centres at zero, at radii's own scale or far away: the searcher at 0.5, 0.999, 1.001 and 1.5 radii in each direction of dimension 1..3", |run| {
        let dim = 1 + run.pick(3);
        let r = run.of(&[1e-140, 1e-30, 3e-16, 1e-13, 1e-10, 1e-7, 1e-4, 1e3, 1e7, 1e10, 1e16, 1e60, 1e140]);
        let off = run.of(&[0.0, 1.0, -30.0, 1e4]) * r;
        let f = run.of(&[0.0, 0.5, 0.999, 1.001, 1.5, 1e3]);
        let mask = 1 + run.pick((1 << dim) - 1);
        let m = (mask as u32).count_ones() as f64;
        let way = run.pick(3);
        let ce = vec![off; dim];
        let x: Vec<f64> = (0..dim).map(|i| off + if mask >> i & 1 == 1 { f * r / m.sqrt() * if i == 1 { -1.0 } else { 1.0 } } else { 0.0 }).collect();
        decide(run, way, &ce, r, &x);
    });
    c.family("surface", "the searcher exactly on the surface, or one unit in the last place inside or outside, along each axis of dimension 1..8: centre at zero or at an exact binary fraction, radii powers of two or not", |run| {
        let dim = 1 + run.pick(8);
        let axis = run.pick(dim);
        let neg = run.flag();
        let way = run.pick(3);
        let r = run.of(&[1.0, 0.5, 3.0, 0.1, 1e-7, 1234.5, 1e12]);
        let side = run.pick(3);
        let shift = run.flag();
        let (r, c0): (f64, f64) = if shift { (run.of(&[1.0, 0.5, 4.0]), run.of(&[1.0, -2.5, 8.0])) } else { (r, 0.0) };
        let ce = vec![c0; dim];
        let mut x = ce.clone();
        // with a shifted centre only the surface itself is exact
        let d = if shift || side == 0 { r } else { f64::from_bits(if side == 1 { r.to_bits() - 1 } else { r.to_bits() + 1 }) };
        x[axis] += if neg { -d } else { d };
        let t = build(way, &ce, r);
        run.note(|| format!("target at {:?} radius {}, searcher at {:?}", ce, r, x));
        let got = t.check_find(&pos(&x));
        run.step();
        run.ensure(got == Ok(d < r), "surface", || format!("target at {:?} with radius {:e}: check_find({:?}) = {:?} at distance {:e}", ce, r, x, got, d));
        run.observe(&(axis, d < r));
    });
    c.family("no-extent", "radii of zero and below, down to -1e12, in dimension 1..4: no searcher is closer than that, neither at the centre nor around it nor far away", |run| {
        let dim = 1 + run.pick(4);
        let r: f64 = run.of(&[0.0, -0.0, -1e-9, -0.5, -3.0, -1e12]);
        let way = run.pick(3);
        let at = run.of(&[0.0, 2.0, -7.5]);
        let f = run.of(&[0.0, 1e-12, 0.1, -0.9, 1.0, 5.0]);
        let ce = vec![at; dim];
        let mut x = ce.clone();
        x[run.pick(dim)] += f * if r == 0.0 { 1.0 } else { r.abs() };
        run.step();
        run.note(|| format!("target at {:?} radius {}, searcher at {:?}", ce, r, x));
        // a target of no extent may be refused, but not be found
        if let Ok(t) = catch(|| build(way, &ce, r)) {
            let got = t.check_find(&pos(&x));
            run.ensure(got == Ok(false), "no-extent", || format!("target at {:?} with radius {}: check_find({:?}) = {:?}", ce, r, x, got));
            run.observe(&dim);
        }
    });
    c.family("dimension-mismatch", "centres of dimension 1..6 with positions of every other dimension 0..7, near and far", move |run| {
        let a = 1 + run.pick(6);
        let b = run.pick(8);
        let way = run.pick(3);
        let v = run.of(&[0.0, 0.01, 50.0]);
        if a == b {
            return;
        }
        let t = build(way, &vec![0.0; a], 1.0);
        let r = t.check_find(&pos(&vec![v; b]));
        run.step();
        run.ensure(r.is_err(), "dimension", || format!("a {}-dimensional target answers {:?} for a {}-dimensional position", a, r, b));
        let r = t.distance(&pos(&vec![v; b]));
        run.ensure(r.is_err(), "dimension", || format!("a {}-dimensional target has distance {:?} to a {}-dimensional position", a, r, b));
        run.observe(&(a, b));
    });
    c.finish()
}
