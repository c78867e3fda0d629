//! C02: random and initial positions lie inside the system and off the target.
use mcheck::agents::*;
use mcheck::geo::*;
use mcheck::util::*;
use mcheck::*;
use moledyn::prelude::{rng_seed, ContBulkTarget, MoveType};

const NEAR: f64 = 1e-9;

fn half(sh: Shape, i: usize) -> f64 {
    match sh {
        Shape::Cyl(r, l, k, _) => if i < k { r } else { l },
        s => s.size(),
    }
}

/// Splits the draws into proposals and checks that `got` is the last one and the only good one.
fn image(run: &mut Run, sh: Shape, target: Option<(&[f64], f64)>, draws: &[u64], got: &[f64], what: &str) {
    let dim = sh.dim();
    let size = sh.size();
    if !run.ensure(draws.len() >= dim && draws.len() % dim == 0, "draws", || format!("{}: {} draws for positions of dimension {}", what, draws.len(), dim)) {
        return;
    }
    let n = draws.len() / dim;
    for (j, g) in draws.chunks(dim).enumerate() {
        let p: Vec<f64> = g.iter().enumerate().map(|(i, &b)| (2.0 * open01(b) - 1.0) * half(sh, i)).collect();
        let dep = sh.depth(&p);
        let mut near = dep.abs() < NEAR;
        let mut good = dep > 0.0;
        if let Some((c, r)) = target {
            let d = norm(&p.iter().zip(c).map(|(a, b)| a - b).collect::<Vec<_>>());
            near |= (d - r).abs() < NEAR * size;
            good &= d >= r;
        }
        if j + 1 < n {
            run.ensure(near || !good, "good-proposal-dropped", || format!("{}: proposal {:?} lies inside {:?} (and off the target) but is dropped", what, p, sh));
        } else {
            run.ensure(near || good, "bad-proposal-taken", || format!("{}: proposal {:?} is not inside {:?} (or on the target) but is taken", what, p, sh));
            let same = got.len() == dim && got.iter().zip(&p).all(|(a, b)| (a - b).abs() <= 1e-9 * size);
            run.ensure(same, "image", || format!("{}: the position is {:?}, the draws stand for {:?} in {:?}", what, got, p, sh));
        }
    }
}

fn inside(run: &mut Run, sh: Shape, got: &[f64], what: &str) {
    run.ensure(got.len() == sh.dim(), "dimension", || format!("{}: {:?} has not the dimension of {:?}", what, got, sh));
    if got.len() == sh.dim() {
        run.ensure(sh.depth(got) > -NEAR, "outside", || format!("{}: {:?} lies outside {:?}", what, got, sh));
    }
    for x in got {
        run.observe_f64((x / sh.size() * 1e6).round());
    }
}

fn main() {
    let mut c = Check::new("C02");
    c.assume("positions within 1e-9 (relative) of a wall or of the target's surface are not decided, except those on an axis exactly on the wall");
    let us: Vec<f64> = c.q(vec![1e-12, 0.06, 0.2, 0.5, 0.64, 0.83, 1.0 - 1e-12], vec![1e-12, 0.06, 0.2, 0.33, 0.5, 0.64, 0.83, 0.95, 1.0 - 1e-12]);
    let alphabet: Vec<u64> = us.iter().map(|u| bits_for(*u)).collect();
    for dim in 1..=c.q(5usize, 6) {
        let sh = shapes(&[dim], if dim < 3 { &[1.0, 0.02, 300.0] } else { &[2.5] });
        let al = alphabet.clone();
        let horizon = match dim { 1 => 3, 2 => 4, 3 => 4, 4 => 4, _ => 5 };
        let al: Vec<u64> = if dim >= 5 { vec![al[0], al[3], al[al.len() - 1]] } else { al };
        c.family(
            &format!("random-pos-dim{}", dim),
            &format!("{} systems of dimension {}; the first {} uniform draws each from {} values, the rest from the real generator; returned and in-place form, the vector holding old values", sh.len(), dim, horizon, al.len()),
            move |run| {
                let sh = run.of(&sh);
                let form = run.pick(2);
                let args = run.flag();
                let sys = if args { sh.sys_from_args() } else { sh.sys() };
                run.script_rng(&al, horizon, 100_000);
                let mut rng = rng_seed(12345);
                let got = if form == 0 {
                    match sys.dynamic().random_pos(&mut rng) {
                        Ok(p) => p.coordinate,
                        Err(e) => return run.fail("error", format!("random_pos of {:?} failed: {:?}", sh, e)),
                    }
                } else {
                    let mut v = pos(&vec![17.0; dim]);
                    if let Err(e) = sys.dynamic().random_pos_to_vec(&mut rng, &mut v) {
                        return run.fail("error", format!("random_pos_to_vec of {:?} failed: {:?}", sh, e));
                    }
                    v.coordinate
                };
                run.step();
                let log = script::take_log();
                run.note(|| format!("{:?} form {} -> {:?} after {} draws", sh, form, got, log.len()));
                let what = if form == 0 { "random_pos" } else { "random_pos_to_vec" };
                inside(run, sh, &got, what);
                image(run, sh, None, &log, &got, what);
            },
        );
    }
    // geometry
    let sh = shapes(&[1, 2, 3, 4, 5], &[1.0, 0.013, 640.0, 3e17, 7e100, 2e-17, 4e-100]);
    c.family(
        "inclusion",
        "check_inclusion of every shape of dimension 1..5 and seven sizes between 4e-100 and 7e100, on grids of points around the walls, and with wrong dimensions; the point outside",
        move |run| {
            let sh = run.of(&sh);
            let dim = sh.dim();
            let args = run.flag();
            let sys = if args { sh.sys_from_args() } else { sh.sys() };
            let sys = sys.dynamic();
            let n = 5usize.pow(dim.min(4) as u32);
            // the point outside, both forms, repeatedly
            let out = sys.position_out_of_system();
            run.ensure(out.coordinate.len() == dim, "outside-dimension", || format!("the point outside {:?} is {:?}", sh, out));
            run.ensure(out.coordinate.len() != dim || sh.depth(&out.coordinate) < 0.0, "outside-inside", || format!("the point outside {:?} is {:?}: inside", sh, out));
            let mut v = pos(&vec![0.0; dim]);
            let r = sys.position_out_of_system_to_vec(&mut v);
            run.ensure(r.is_ok() && v.coordinate.len() == dim && sh.depth(&v.coordinate) < 0.0, "outside-inside", || format!("the point written as outside of {:?} is {:?}", sh, v));
            for i in 0..n {
                let mut k = i;
                let p: Vec<f64> = (0..dim)
                    .map(|j| {
                        let f = [0.0, 0.57, -0.72, 0.999, -1.001][k % 5];
                        k /= 5;
                        f * half(sh, j)
                    })
                    .collect();
                let d = sh.depth(&p);
                if d.abs() < 1e-6 {
                    continue;
                }
                let r = sys.check_inclusion(&pos(&p));
                run.ensure(r == Ok(d > 0.0), "inclusion", || format!("check_inclusion of {:?} in {:?} is {:?}", p, sh, r));
            }
            // the wall belongs to the system: on an axis its distance is free of rounding
            for j in 0..dim {
                for sg in [1.0, -1.0] {
                    let h = half(sh, j);
                    for (f, want) in [(h, true), (f64::from_bits(h.to_bits() + 4), false)] {
                        let mut p = vec![0.0; dim];
                        p[j] = sg * f;
                        let r = sys.check_inclusion(&pos(&p));
                        run.ensure(r == Ok(want), "wall", || format!("check_inclusion of {:?} in {:?} is {:?}", p, sh, r));
                    }
                }
            }
            for m in 0..=dim + 2 {
                if m == dim {
                    continue;
                }
                let p = pos(&vec![0.01; m]);
                let r = sys.check_inclusion(&p);
                run.ensure(r.is_err(), "inclusion-dimension", || format!("check_inclusion of a {}-dimensional point in {:?} is {:?}", m, sh, r));
                let mut v = pos(&vec![0.01; m]);
                let r = sys.position_out_of_system_to_vec(&mut v);
                run.ensure(r.is_err(), "outside-dimension", || format!("position_out_of_system_to_vec takes a {}-dimensional vector in {:?}", m, sh));
                let mut rng = rng_seed(1);
                let mut v = pos(&vec![0.01; m]);
                let r = sys.random_pos_to_vec(&mut rng, &mut v);
                run.ensure(r.is_err(), "random-dimension", || format!("random_pos_to_vec takes a {}-dimensional vector in {:?}", m, sh));
            }
            run.step();
            run.observe(&n);
        },
    );
    let dims: Vec<usize> = c.q(vec![1, 2, 3, 6, 9, 12, 16, 17, 33, 64, 129, 257, 3001, 65537], vec![1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1025, 3001, 32769, 65535, 65536, 65537]);
    c.family(
        "random-pos-wide",
        &format!("random positions, both forms, in balls, boxes and cylinders of {} dimensions up to 65537 and nine sizes between 4e-100 and 7e100, by constructor and by argument: 0, 1 or 3 proposals outside before the first good one; the point outside and the inclusion of both", dims.len()),
        move |run| {
            let dim = run.of(&dims);
            let size = run.of(&[1.0, 4e-100, 2e-17, 3e-9, 1e-4, 2e5, 5e7, 3e17, 7e100]);
            let kind = run.pick(6);
            let sh = match kind {
                0 => Shape::Ball(size, dim),
                1 => Shape::boxed(size, dim, 0, 0),
                2 if dim > 1 => Shape::Cyl(size, 0.7 * size, 1, dim),
                3 if dim > 2 => Shape::Cyl(size, 1.3 * size, dim / 2, dim),
                4 if dim > 1 => Shape::Cyl(0.3 * size, size, dim - 1, dim),
                5 if dim > 3 => Shape::Cyl(0.01 * size, 70.0 * size, 2, dim),
                _ => return,
            };
            let round = match sh { Shape::Ball(..) => dim, Shape::Cyl(_, _, k, _) => k, _ => 0 };
            let outs = if round > 1 { run.of(&[0usize, 1, 3]) } else { 0 };
            let form = run.pick(2);
            let args = run.flag();
            // proposals: every coordinate at the rim, or the corner of a cube well inside
            let f = if round > 1 { 0.9 / (round as f64).sqrt() } else { 0.9 };
            let good: Vec<u64> = (0..dim)
                .map(|i| {
                    let g = if i < round { f } else { 0.97 };
                    let g = g * [1.0, -0.8, 0.3, -0.99][(i + i / 4) % 4];
                    bits_for(0.5 + 0.5 * g)
                })
                .collect();
            let out = vec![bits_for(0.995); dim];
            let mut seq: Vec<u64> = vec![];
            (0..outs).for_each(|_| seq.extend(&out));
            seq.extend(&good);
            let sys = if args { sh.sys_from_args() } else { sh.sys() };
            let mut rng = rng_seed(6);
            run.fixed_rng(seq, 1_000_000);
            let got = if form == 0 {
                sys.dynamic().random_pos(&mut rng).map(|p| p.coordinate)
            } else {
                let mut v = pos(&vec![17.0; dim]);
                sys.dynamic().random_pos_to_vec(&mut rng, &mut v).map(|_| v.coordinate)
            };
            run.step();
            let log = script::take_log();
            run.ensure(log.len() == (outs + 1) * dim, "draws", || format!("form {} in {:?}: {} draws for {} proposals outside and a good one", form, sh, log.len(), outs));
            match got {
                Err(e) => run.fail("error", format!("form {} in {:?}: {:?}", form, sh, e)),
                Ok(p) => {
                    run.ensure(p.len() == dim, "dimension", || format!("form {} in {:?}: a position of {} coordinates", form, sh, p.len()));
                    if p.len() != dim {
                        return;
                    }
                    run.ensure(sh.depth(&p) > -NEAR, "outside", || format!("form {}: a position outside {:?}", form, sh));
                    if log.len() == (outs + 1) * dim {
                        for i in 0..dim {
                            let want = (2.0 * open01(log[outs * dim + i]) - 1.0) * half(sh, i);
                            run.ensure((p[i] - want).abs() <= 1e-9 * half(sh, i), "image", || format!("form {} in {:?}: coordinate {} is {:e}, its draw stands for {:e}", form, sh, i, p[i], want));
                        }
                    }
                    let r = sys.dynamic().check_inclusion(&pos(&p));
                    run.ensure(r == Ok(true), "inclusion", || format!("the random position is said not to be in {:?}: {:?}", sh, r));
                    run.observe_f64((p[dim - 1] / size * 1e6).round());
                }
            }
            let o = sys.dynamic().position_out_of_system().coordinate;
            let mut v = pos(&vec![0.0; dim]);
            let r = sys.dynamic().position_out_of_system_to_vec(&mut v);
            for (o, form) in [(&o, 0), (&v.coordinate, 1)] {
                run.ensure(o.len() == dim && sh.depth(o) < 0.0, "outside-inside", || format!("the point outside, form {}, is not outside {:?} ({} coordinates, {:?} {:?})", form, sh, o.len(), o.get(0), r));
                let r = sys.dynamic().check_inclusion(&pos(o));
                run.ensure(r == Ok(false), "outside-inside", || format!("the point outside, form {}, is said to be in {:?}: {:?}", form, sh, r));
            }
        },
    );
    // agents
    let us: Vec<f64> = c.q(vec![1e-9, 0.1, 0.35, 0.5, 0.77, 0.97], vec![1e-9, 0.02, 0.1, 0.35, 0.5, 0.66, 0.77, 0.9, 0.97]);
    let al: Vec<u64> = us.iter().map(|u| bits_for(*u)).collect();
    for dim in 1..=3usize {
        let sh = shapes(&[dim], if dim == 1 { &[1.0, 40.0] } else { &[1.5] });
        let al = al.clone();
        let horizon = c.q([4, 6, 6][dim - 1], [6, 6, 6][dim - 1]);
        let al: Vec<u64> = if dim == 3 { vec![al[0], al[al.len() / 2 - 1], al[al.len() / 2]] } else { al };
        c.family(
            &format!("agents-dim{}", dim),
            &format!("all agent kinds in {} systems of dimension {} with the target in the middle, at the side, or a small one; new_uniform, or renew_uniform of an agent placed elsewhere or of another dimension or still without a position; the first {} draws each from {} values", sh.len(), dim, horizon, al.len()),
            move |run| {
                let sh = run.of(&sh);
                let kind = run.pick(4);
                let how = run.pick(5);
                let tg = run.pick(3);
                let size = sh.size();
                let mut tc = vec![0.0; dim];
                let tr = match tg {
                    0 => 0.31 * half(sh, 0).min(half(sh, dim - 1)),
                    1 => {
                        tc[dim - 1] = 0.8 * half(sh, dim - 1);
                        0.7 * half(sh, dim - 1)
                    }
                    _ => {
                        tc[0] = -0.3 * half(sh, 0);
                        1e-3 * size
                    }
                };
                let target = ContBulkTarget::new(pos(&tc), tr);
                let sys = sh.sys();
                let mt = MoveType::Brownian(1.0);
                let mut rng = rng_seed(777);
                // the agent to be re-placed is prepared with the real generator
                let mut old = match how {
                    0 => None,
                    1 => Some(Ag::at(kind, mt, &vec![0.0; dim])),
                    2 => Some(Ag::at(kind, mt, &vec![0.3; dim + 1])),
                    3 => Some(Ag::at(kind, mt, &vec![5.0 * size; dim])),
                    _ => Ag::from_args(kind, "1.0", "Uniform", dim, 1).pop(),
                };
                run.script_rng(&al, horizon, 200_000);
                let r = match &mut old {
                    None => match Ag::uniform(kind, sys.dynamic(), &target, dim, &mut rng, mt) {
                        Ok(a) => {
                            old = Some(a);
                            Ok(())
                        }
                        Err(e) => Err(e),
                    },
                    Some(a) => a.renew(sys.dynamic(), &target, &mut rng),
                };
                run.step();
                let log = script::take_log();
                let what = format!("{} agent, {}", KINDS[kind], ["new_uniform", "renewed", "renewed from another dimension", "renewed from outside", "placed after an argument list"][how]);
                if let Err(e) = r {
                    return run.fail("agent-error", format!("{} in {:?}: {:?}", what, sh, e));
                }
                let a = old.unwrap();
                let got = a.position().to_vec();
                run.note(|| format!("{} in {:?} target {:?} {} -> {:?}", what, sh, tc, tr, got));
                run.ensure(a.dim() == dim, "agent-dim", || format!("{}: dimension {} in {:?}", what, a.dim(), sh));
                inside(run, sh, &got, &what);
                if got.len() == dim {
                    let d = norm(&got.iter().zip(&tc).map(|(a, b)| a - b).collect::<Vec<_>>());
                    run.ensure(d > tr - NEAR * size, "on-target", || format!("{}: starts at {:?}, inside the target at {:?} with radius {}", what, got, tc, tr));
                }
                image(run, sh, Some((&tc, tr)), &log, &got, &what);
                // an agent for the wrong dimension of the target is refused
            },
        );
    }
    // long runs of rejected proposals
    c.family(
        "rejections",
        "every shape of dimension 1..3 and every way to place (a random position in both forms; an agent of every kind, new or renewed), with n proposals outside the system (ball, cylinder) and m on the target, one sort after the other or in turn, before the first good one; n and m up to 300",
        move |run| {
            let sh = run.of(&shapes(&[1, 2, 3], &[1.5]));
            let dim = sh.dim();
            let way = run.pick(10);
            let counts = [0usize, 1, 2, 3, 9, 10, 11, 16, 33, 64, 99, 100, 128, 300];
            let outs = match sh {
                Shape::Ball(..) if dim > 1 => run.of(&counts),
                Shape::Cyl(_, _, k, _) if k > 1 => run.of(&counts),
                _ => 0,
            };
            let ons = if way < 2 { 0 } else { run.of(&counts) };
            let order = if outs > 0 && ons > 0 { run.pick(3) } else { 0 };
            let out_p: Vec<u64> = vec![bits_for(0.97); dim];
            let on_p: Vec<u64> = vec![bits_for(0.51); dim];
            let good_p: Vec<u64> = (0..dim).map(|i| bits_for(if i == 0 { 0.12 } else { 0.43 })).collect();
            let mut seq: Vec<u64> = vec![];
            match order {
                0 => {
                    (0..outs).for_each(|_| seq.extend(&out_p));
                    (0..ons).for_each(|_| seq.extend(&on_p));
                }
                1 => {
                    (0..ons).for_each(|_| seq.extend(&on_p));
                    (0..outs).for_each(|_| seq.extend(&out_p));
                }
                _ => {
                    for i in 0..outs.max(ons) {
                        if i < outs {
                            seq.extend(&out_p);
                        }
                        if i < ons {
                            seq.extend(&on_p);
                        }
                    }
                }
            }
            seq.extend(&good_p);
            let tr = 0.31 * half(sh, 0).min(half(sh, dim - 1));
            let tc = vec![0.0; dim];
            let target = ContBulkTarget::new(pos(&tc), tr);
            let sys = sh.sys();
            let mt = MoveType::Brownian(1.0);
            let mut rng = rng_seed(4);
            let mut ag = if way >= 6 { Some(Ag::at(way - 6, mt, &vec![0.0; dim])) } else { None };
            run.fixed_rng(seq, 200_000);
            let got = match way {
                0 => sys.dynamic().random_pos(&mut rng).map(|p| p.coordinate),
                1 => {
                    let mut v = pos(&vec![3.0; dim]);
                    sys.dynamic().random_pos_to_vec(&mut rng, &mut v).map(|_| v.coordinate)
                }
                w if w < 6 => Ag::uniform(w - 2, sys.dynamic(), &target, dim, &mut rng, mt).map(|a| a.position().to_vec()),
                _ => {
                    let a = ag.as_mut().unwrap();
                    a.renew(sys.dynamic(), &target, &mut rng).map(|_| a.position().to_vec())
                }
            };
            run.step();
            let log = script::take_log();
            let what = match way {
                0 => "random_pos".to_string(),
                1 => "random_pos_to_vec".to_string(),
                w if w < 6 => format!("{} agent, new_uniform", KINDS[w - 2]),
                w => format!("{} agent, renewed", KINDS[w - 6]),
            };
            let what = format!("{} after {} proposals outside and {} on the target", what, outs, ons);
            match got {
                Err(e) => run.fail("gives-up", format!("{} in {:?}: {:?}", what, sh, e)),
                Ok(p) => {
                    run.observe(&(log.len() / dim));
                    inside(run, sh, &p, &what);
                    image(run, sh, if way < 2 { None } else { Some((&tc, tr)) }, &log, &p, &what);
                }
            }
        },
    );
    c.family(
        "more-dimensions",
        "agents of the 4 kinds, new and renewed, in balls, boxes and cylinders of 4 to 12 dimensions: 0, 1, 2 or 7 proposals outside and on the target (at the centre or beside it) before the first good one",
        |run| {
            let dim = 4 + run.pick(9);
            let sh = run.of(&[Shape::Ball(1.5, dim), Shape::boxed(1.5, dim, 0, 0), Shape::Cyl(1.0, 2.0, dim - 1, dim), Shape::Cyl(1.0, 2.0, 2, dim)]);
            let way = run.pick(8);
            let round = match sh { Shape::Ball(..) | Shape::Cyl(..) => true, _ => false };
            let outs = if round { run.of(&[0usize, 1, 2, 7]) } else { 0 };
            let ons = run.of(&[0usize, 1, 2, 7]);
            let beside = run.flag();
            let swap = run.flag();
            let tr = 0.31 * half(sh, 0).min(half(sh, dim - 1));
            let mut tc = vec![0.0; dim];
            let mut on_p = vec![bits_for(0.51); dim];
            if beside {
                tc[dim - 1] = 0.5 * half(sh, dim - 1);
                on_p[dim - 1] = bits_for(0.76);
            }
            let good_p: Vec<u64> = (0..dim).map(|i| bits_for(if i == 0 { 0.12 } else { 0.43 })).collect();
            let out_p = vec![bits_for(0.97); dim];
            let mut seq: Vec<u64> = vec![];
            for i in 0..2 {
                let (n, p) = if (i == 0) != swap { (outs, &out_p) } else { (ons, &on_p) };
                (0..n).for_each(|_| seq.extend(p));
            }
            seq.extend(&good_p);
            let target = ContBulkTarget::new(pos(&tc), tr);
            let sys = sh.sys();
            let mt = MoveType::Brownian(1.0);
            let mut rng = rng_seed(4);
            run.fixed_rng(seq, 200_000);
            let kind = way % 4;
            let got = if way < 4 {
                Ag::uniform(kind, sys.dynamic(), &target, dim, &mut rng, mt).map(|a| a.position().to_vec())
            } else {
                let mut a = Ag::at(kind, mt, &vec![0.0; dim]);
                a.renew(sys.dynamic(), &target, &mut rng).map(|_| a.position().to_vec())
            };
            run.step();
            let log = script::take_log();
            let what = format!("{} agent in {} dimensions, {}, after {} proposals outside and {} on the target", KINDS[kind], dim, if way < 4 { "new_uniform" } else { "renewed" }, outs, ons);
            match got {
                Err(e) => run.fail("gives-up", format!("{} in {:?}: {:?}", what, sh, e)),
                Ok(p) => {
                    run.observe(&(log.len() / dim));
                    inside(run, sh, &p, &what);
                    image(run, sh, Some((&tc, tr)), &log, &p, &what);
                }
            }
        },
    );
    c.family("target-dimension", "placing an agent of every kind in every shape of dimension 1..3 with a target of another dimension is an error", move |run| {
        let sh = run.of(&shapes(&[1, 2, 3], &[1.0]));
        let kind = run.pick(4);
        let td = run.pick(5);
        let renew = run.flag();
        if td == sh.dim() {
            return;
        }
        let target = ContBulkTarget::new(pos(&vec![0.0; td]), 0.1);
        let sys = sh.sys();
        let mut rng = rng_seed(5);
        let mt = MoveType::Brownian(1.0);
        let r = if renew {
            Ag::at(kind, mt, &vec![0.0; sh.dim()]).renew(sys.dynamic(), &target, &mut rng)
        } else {
            Ag::uniform(kind, sys.dynamic(), &target, sh.dim(), &mut rng, mt).map(|_| ())
        };
        run.step();
        run.ensure(r.is_err(), "target-dimension", || format!("{} agent in {:?} with a {}-dimensional target is placed", KINDS[kind], sh, td));
        run.observe(&(kind, td, renew));
    });
    c.finish()
}
