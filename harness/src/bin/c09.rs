//! C09: random moves are reproducible and distributed by the generator's draws.
use mcheck::agents::*;
use mcheck::geo::*;
use mcheck::util::*;
use mcheck::*;
use moledyn::prelude::{rng_seed, ContBulkTarget, MoveType, Pcg64};
use moledyn::random_mod::*;
use rand::distributions::Open01;
use rand::Rng;
use rand_distr::StandardNormal;

const LIMIT: u64 = 100_000;

/// What the distributions of the rand crates make of these draws; `None` if they are not used up
/// exactly.
fn expected(run: &mut Run, log: &[u64], n: usize, gauss: bool) -> Option<Vec<f64>> {
    run.fixed_rng(log.to_vec(), LIMIT);
    let mut rng = rng_seed(99);
    let v: Vec<f64> = (0..n).map(|_| if gauss { rng.sample(StandardNormal) } else { rng.sample(Open01) }).collect();
    let used = script::take_log().len();
    run.free_rng();
    if used == log.len() {
        Some(v)
    } else {
        None
    }
}

/// One of the calls whose results a history repeats.
const OPS: usize = 16;
struct World {
    agents: Vec<Ag>,
    vec: Vec<f64>,
}
fn world() -> World {
    World {
        agents: (0..4).map(|k| Ag::at(k, MoveType::Brownian(0.8), &[0.3, -0.2])).collect(),
        vec: vec![0.25, -1.5, 3.0],
    }
}
fn call(w: &mut World, op: usize, rng: &mut Pcg64) -> Vec<u64> {
    let target = ContBulkTarget::new(pos(&[0.1, 0.1]), 0.3);
    let bits = |v: &[f64]| v.iter().map(|x| x.to_bits()).collect::<Vec<u64>>();
    match op {
        0 => bits(&[get_uniform(rng)]),
        1 => bits(&[get_gaussian(rng)]),
        2 => bits(&get_uniform_vec(rng, 3).coordinate),
        3 => bits(&get_gaussian_vec(rng, 3).coordinate),
        4..=7 => {
            let mut p = pos(&w.vec);
            match op {
                4 => get_uniform_to_vec(rng, &mut p),
                5 => get_gaussian_to_vec(rng, &mut p),
                6 => get_uniform_to_vec_nonstandard(rng, &mut p, -2.0, 5.0),
                _ => get_gaussian_to_vec_nonstandard(rng, &mut p, 1.0, 2.0),
            }
            w.vec = p.coordinate;
            bits(&w.vec)
        }
        8 => bits(&Shape::Ball(2.0, 2).sys().dynamic().random_pos(rng).expect("position").coordinate),
        9 => {
            let mut p = pos(&[0.0, 0.0, 0.0]);
            Shape::Cyl(1.0, 3.0, 2, 3).sys().dynamic().random_pos_to_vec(rng, &mut p).expect("position");
            bits(&p.coordinate)
        }
        10 | 11 => bits(&w.agents[op - 10].random_move(rng, 0.5).expect("move").coordinate),
        12 | 13 => {
            let mut p = pos(&[1.0, -1.0]);
            w.agents[op - 10].random_move_to_vec(rng, 0.5, &mut p).expect("move");
            bits(&p.coordinate)
        }
        14 => {
            let sys = Shape::boxed(1.5, 2, 0, 0).sys();
            let k = Ag::uniform(3, sys.dynamic(), &target, 2, rng, MoveType::Brownian(1.0)).expect("agent");
            bits(k.position())
        }
        _ => {
            let sys = Shape::Ball(1.5, 2).sys();
            w.agents[1].renew(sys.dynamic(), &target, rng).expect("renew");
            bits(w.agents[1].position())
        }
    }
}

fn main() {
    let mut c = Check::new("C09");
    c.assume("which values a seed produces across versions of the rand crates is not fixed by the property");
    c.assume("a position vector of dimension 0 holds no draws");
    let alphabet: Vec<u64> = vec![
        0,
        u64::MAX,
        bits_for(0.5) | 3,
        bits_for(0.03) | 1,
        bits_for(0.97) | 0xfd,
        // layer 0 of the Gaussian sampler with a large value: the tail; a wedge
        bits_for(0.999) & !0xff,
        bits_for(0.002) & !0xff,
        bits_for(0.985) | 0x02,
    ];
    let scale: Vec<u64> = alphabet.clone();
    let horizon = c.q(5usize, 6);
    let al = alphabet.clone();
    c.family(
        "vectors",
        &format!("the 8 random functions with vectors of dimension 0..4 and old contents: the first {} draws each from {} values (extremes, both sides, tail and wedges of the Gaussian sampler), the rest from the real generator", horizon, al.len()),
        move |run| {
            let form = run.pick(8);
            let dim = if form < 2 { 1 } else { run.pick(5) };
            let gauss = form % 2 == 1;
            let (a, b) = if form >= 6 { run.of(&[(0.0, 1.0), (-3.0, 0.5), (2.0, 7.0)]) } else { (0.0, 1.0) };
            let init: Vec<f64> = [0.5, -2.0, 1e3, 0.0, 9.0][..dim].to_vec();
            let h = horizon.min(dim + 2);
            run.script_rng(&al, h, LIMIT);
            let mut rng = rng_seed(7);
            let mut v = pos(&init);
            let what = ["get_uniform", "get_gaussian", "get_uniform_vec", "get_gaussian_vec", "get_uniform_to_vec", "get_gaussian_to_vec", "get_uniform_to_vec_nonstandard", "get_gaussian_to_vec_nonstandard"][form];
            match form {
                0 => v = pos(&[get_uniform(&mut rng)]),
                1 => v = pos(&[get_gaussian(&mut rng)]),
                2 => v = get_uniform_vec(&mut rng, dim),
                3 => v = get_gaussian_vec(&mut rng, dim),
                4 => get_uniform_to_vec(&mut rng, &mut v),
                5 => get_gaussian_to_vec(&mut rng, &mut v),
                6 => get_uniform_to_vec_nonstandard(&mut rng, &mut v, a, b),
                _ => get_gaussian_to_vec_nonstandard(&mut rng, &mut v, a, b),
            }
            run.step();
            let log = script::take_log();
            run.note(|| format!("{} dim {} ({}, {}) -> {:?} after {} draws", what, dim, a, b, v.coordinate, log.len()));
            if !run.ensure(v.coordinate.len() == dim, "length", || format!("{}: the result {:?} has not the dimension {}", what, v, dim)) {
                return;
            }
            let g = match expected(run, &log, dim, gauss) {
                Some(g) => g,
                None => return run.fail("draws", format!("{} made {} draws, which are not {} fresh numbers", what, log.len(), dim)),
            };
            for i in 0..dim {
                let got = v.coordinate[i];
                run.observe_f64(got);
                let want = match form {
                    6 => init[i] + a + g[i] * (b - a),
                    7 => init[i] + a + g[i] * b,
                    _ => g[i],
                };
                run.ensure(close(got, want, init[i].abs() + a.abs() + b.abs() + 1.0) && (form >= 4 || rel(got, want, 1e-12)), "value", || format!("{} ({}, {}): coordinate {} is {}, the draws stand for {}", what, a, b, i, got, want));
                if !gauss && form < 6 {
                    run.ensure(got > 0.0 && got < 1.0, "range", || format!("{} returned {}", what, got));
                }
                if form == 6 && init[i] == 0.0 {
                    run.ensure(got >= a && got <= b, "range", || format!("{} returned {} for ({}, {})", what, got, a, b));
                }
            }
        },
    );
    c.family("long-vectors", "the 6 random functions of vectors with dimensions 5..257, and the moves of 4 agent kinds with dimensions 5..33, under 4 seeds: every coordinate against its draw", |run| {
        let form = run.pick(8);
        let dim = run.of(&[5usize, 6, 7, 8, 9, 10, 12, 15, 16, 17, 31, 32, 33, 64, 65, 100, 128, 129, 257]);
        let seed = run.of(&[1u128, 7, 12345678901234567890, u128::MAX]);
        if form >= 6 && dim > 33 {
            return;
        }
        let init: Vec<f64> = (0..dim).map(|i| [0.5, -2.0, 1e3, 0.0, 9.0][i % 5]).collect();
        let (a, b) = (-3.0, 0.5);
        let kind = if form >= 6 { run.pick(4) } else { 0 };
        let ag = Ag::at(kind, MoveType::Brownian(0.37), &vec![0.5; dim]);
        run.script_rng(&[0], 0, LIMIT);
        let mut rng = rng_seed(seed);
        let mut v = pos(&init);
        match form {
            0 => v = get_uniform_vec(&mut rng, dim),
            1 => v = get_gaussian_vec(&mut rng, dim),
            2 => get_uniform_to_vec(&mut rng, &mut v),
            3 => get_gaussian_to_vec(&mut rng, &mut v),
            4 => get_uniform_to_vec_nonstandard(&mut rng, &mut v, a, b),
            5 => get_gaussian_to_vec_nonstandard(&mut rng, &mut v, a, b),
            6 => v = match ag.random_move(&mut rng, 0.02) { Ok(p) => p, Err(e) => return run.fail("error", format!("{}: random_move failed: {:?}", KINDS[kind], e)) },
            _ => if let Err(e) = ag.random_move_to_vec(&mut rng, 0.02, &mut v) { return run.fail("error", format!("{}: random_move_to_vec failed: {:?}", KINDS[kind], e)) },
        }
        run.step();
        let log = script::take_log();
        run.note(|| format!("function {} dim {} seed {}: {} draws", form, dim, seed, log.len()));
        if !run.ensure(v.coordinate.len() == dim, "length", || format!("function {}: {} coordinates instead of {}", form, v.coordinate.len(), dim)) {
            return;
        }
        let g = match expected(run, &log, dim, ![0, 2, 4].contains(&form)) {
            Some(g) => g,
            None => return run.fail("draws", format!("function {}: {} draws are not {} fresh numbers", form, log.len(), dim)),
        };
        let s = (2.0f64 * 0.37 * 0.02).sqrt();
        for i in 0..dim {
            let want = match form {
                4 => init[i] + a + g[i] * (b - a),
                5 => init[i] + a + g[i] * b,
                6 => s * g[i],
                7 => init[i] + s * g[i],
                _ => g[i],
            };
            let got = v.coordinate[i];
            run.observe_f64(got);
            run.ensure(close(got, want, init[i].abs() + 5.0), "value", || format!("function {} dim {}: coordinate {} is {}, the draws stand for {}", form, dim, i, got, want));
        }
    });
    c.family("ranges", "the two functions with given limits, or mean and deviation, from 1e-300 to 1e300, of either sign and order of magnitude, in 1 and 3 dimensions, under 40 seeds: every coordinate against its draw", |run| {
        let gauss = run.flag();
        let mag = [0.0, 1.0, -1.0, 1e-300, 3e-17, -2e-6, 4e5, 1e7, -1e9, 1e12, -3e17, 1e90, 1e300];
        let a = run.of(&mag);
        let b = run.of(&mag);
        let dim = run.of(&[1usize, 3]);
        let seed = run.pick(40) as u128;
        if !gauss && b < a || gauss && b < 0.0 {
            return;
        }
        run.script_rng(&[0], 0, LIMIT);
        let mut rng = rng_seed(seed);
        let mut v = pos(&vec![0.0; dim]);
        if gauss { get_gaussian_to_vec_nonstandard(&mut rng, &mut v, a, b) } else { get_uniform_to_vec_nonstandard(&mut rng, &mut v, a, b) }
        run.step();
        let log = script::take_log();
        run.note(|| format!("{} ({:e}, {:e}) seed {} -> {:?}", if gauss { "gaussian" } else { "uniform" }, a, b, seed, v));
        let g = match expected(run, &log, dim, gauss) {
            Some(g) if v.coordinate.len() == dim => g,
            _ => return run.fail("draws", format!("{} draws are not {} fresh numbers for {:?}", log.len(), dim, v)),
        };
        for i in 0..dim {
            let want = if gauss { a + g[i] * b } else { a + g[i] * (b - a) };
            let got = v.coordinate[i];
            run.observe_f64(got);
            run.ensure((got - want).abs() <= 1e-12 * a.abs().max(b.abs()), "range-value", || format!("{} ({:e}, {:e}): coordinate {} is {:e}, the draws stand for {:e}", if gauss { "gaussian" } else { "uniform" }, a, b, i, got, want));
        }
    });
    let n = c.q(20_000usize, 400_000);
    c.family("many-calls", &format!("the scalar random functions, vectors of 3 and the moves of 4 agents called {} times with one generator: each result against its draws, the sequence against a second generator of the same seed", n), move |run| {
        let form = run.pick(8);
        let seed = run.of(&[1u128, 2, 99]);
        let ag = Ag::at(form % 4, MoveType::Brownian(0.37), &[0.5, -0.5]);
        let one = |rng: &mut Pcg64| -> Vec<f64> {
            match form {
                0 => vec![get_uniform(rng)],
                1 => vec![get_gaussian(rng)],
                2 => get_uniform_vec(rng, 3).coordinate,
                3 => get_gaussian_vec(rng, 3).coordinate,
                _ => ag.random_move(rng, 0.02).map_or(vec![], |p| p.coordinate),
            }
        };
        let dim = [1, 1, 3, 3, 2, 2, 2, 2][form];
        let s = (2.0f64 * 0.37 * 0.02).sqrt();
        run.script_rng(&[0], 0, 100_000_000);
        let mut rng = rng_seed(seed);
        let mut all = vec![];
        for _ in 0..n {
            all.extend(one(&mut rng));
        }
        let log = script::take_log();
        run.step();
        run.note(|| format!("function {} seed {}: {} draws in {} calls", form, seed, log.len(), n));
        run.fixed_rng(log.clone(), 100_000_000);
        let mut r2 = rng_seed(99);
        let mut bad = None;
        for (i, x) in all.iter().enumerate() {
            let g: f64 = if form == 0 || form == 2 { r2.sample(Open01) } else { r2.sample(StandardNormal) };
            let want = if form >= 4 { s * g } else { g };
            if !rel(*x, want, 1e-11) && bad.is_none() {
                bad = Some((i, *x, want));
            }
        }
        let used = script::take_log().len();
        run.free_rng();
        run.ensure(all.len() == n * dim && used == log.len() && bad.is_none(), "value", || format!("function {} seed {}: {} values for {} calls, {} of {} draws used, first wrong value {:?}", form, seed, all.len(), n, used, log.len(), bad));
        run.observe_f64(all.last().copied().unwrap_or(0.0));
    });
    // displacement of the agents
    let al = scale.clone();
    let horizon = c.q(4usize, 5);
    c.family(
        "moves",
        &format!("4 agent kinds, built directly, uniformly or from arguments, dimension 1..4, 7 coefficients, 5 step sizes, returned and added to a vector holding old values: the first {} draws each from {} values", horizon, al.len()),
        move |run| {
            let kind = run.pick(4);
            let way = run.pick(3);
            let dim = 1 + run.pick(4);
            let d = run.of(&[1.0, 0.0, 0.37, 2.5, 1e-6, 1e6, 13.0]);
            let dt = run.of(&[1.0, 1e-3, 0.02, 1e-10, 1e4]);
            let form = run.pick(2);
            let at: Vec<f64> = [0.5, -2.0, 0.25, 0.1][..dim].to_vec();
            run.free_rng();
            let mut rng = rng_seed(11);
            let sys = Shape::Ball(9.0, dim).sys();
            let target = ContBulkTarget::new(pos(&vec![8.9; dim]), 0.1);
            let mut ag = match way {
                0 => Ag::at(kind, MoveType::Brownian(d), &at),
                1 => Ag::uniform(kind, sys.dynamic(), &target, dim, &mut rng, MoveType::Brownian(d)).expect("agent"),
                _ => Ag::from_args(kind, &format!("{}", d), "Uniform", dim, 2).remove(1),
            };
            if way == 2 {
                ag.renew(sys.dynamic(), &target, &mut rng).expect("renew");
            }
            let old: Vec<f64> = [3.0, -0.5, 0.0, 100.0][..dim].to_vec();
            run.script_rng(&al, horizon, LIMIT);
            let mut rng = rng_seed(12);
            let before = ag.position().to_vec();
            let got = if form == 0 {
                match ag.random_move(&mut rng, dt) {
                    Ok(p) => p.coordinate,
                    Err(e) => return run.fail("error", format!("{}: random_move failed: {:?}", KINDS[kind], e)),
                }
            } else {
                let mut v = pos(&old);
                if let Err(e) = ag.random_move_to_vec(&mut rng, dt, &mut v) {
                    return run.fail("error", format!("{}: random_move_to_vec failed: {:?}", KINDS[kind], e));
                }
                v.coordinate
            };
            run.step();
            let log = script::take_log();
            let what = || format!("{} agent, way {}, D={}, dt={}, {}", KINDS[kind], way, d, dt, if form == 0 { "random_move" } else { "random_move_to_vec" });
            run.note(|| format!("{} -> {:?}", what(), got));
            run.ensure(ag.position() == &before[..], "moved", || format!("{}: the agent itself moved", what()));
            if !run.ensure(got.len() == dim, "length", || format!("{}: {:?}", what(), got)) {
                return;
            }
            let g = match expected(run, &log, dim, true) {
                Some(g) => g,
                None => return run.fail("draws", format!("{}: {} draws are not {} fresh Gaussians", what(), log.len(), dim)),
            };
            let s = (2.0 * d * dt).sqrt();
            for i in 0..dim {
                run.observe_f64(got[i]);
                let base = if form == 1 { old[i] } else { 0.0 };
                let want = base + s * g[i];
                run.ensure((got[i] - want).abs() <= 1e-12 * (base.abs() + (s * g[i]).abs()), "value", || format!("{}: coordinate {} is {}, expected {}", what(), i, got[i], want));
            }
        },
    );
    c.family("scales", "4 agent kinds, built directly, uniformly or from arguments: 10 coefficients and 10 step sizes from 1e-100 to 1e100, in 1 and 3 dimensions, returned and added, under 3 seeds: every coordinate against its draw", |run| {
        let kind = run.pick(4);
        let way = run.pick(3);
        let dim = run.of(&[1usize, 3]);
        let d = run.of(&[0.37, 1e-100, 1e-17, 1e-12, 1e-7, 2e5, 1e9, 1e12, 3e17, 1e100]);
        let dt = run.of(&[0.02, 1e-100, 1e-15, 1e-13, 1e-8, 3e6, 1e8, 1e13, 3e17, 1e100]);
        let form = run.pick(2);
        let seed = run.of(&[1u128, 5, u128::MAX - 3]);
        let at: Vec<f64> = [0.5, -2.0, 0.25][..dim].to_vec();
        run.free_rng();
        let sys = Shape::Ball(9.0, dim).sys();
        let target = ContBulkTarget::new(pos(&vec![8.9; dim]), 0.1);
        let mut rng = rng_seed(11);
        let mut ag = match way {
            0 => Ag::at(kind, MoveType::Brownian(d), &at),
            1 => Ag::uniform(kind, sys.dynamic(), &target, dim, &mut rng, MoveType::Brownian(d)).expect("agent"),
            _ => Ag::from_args(kind, &format!("{}", d), "Uniform", dim, 2).remove(1),
        };
        if way == 2 {
            ag.renew(sys.dynamic(), &target, &mut rng).expect("renew");
        }
        let s = (2.0 * d * dt).sqrt();
        let old: Vec<f64> = [0.0, -0.5, 2.0 * s][..dim].to_vec();
        run.script_rng(&[0], 0, LIMIT);
        let mut rng = rng_seed(seed);
        let mut v = pos(&old);
        let r = if form == 0 { ag.random_move(&mut rng, dt).map(|p| v = p) } else { ag.random_move_to_vec(&mut rng, dt, &mut v) };
        run.step();
        let log = script::take_log();
        let what = || format!("{} agent, way {}, D={:e}, dt={:e}, {}", KINDS[kind], way, d, dt, if form == 0 { "random_move" } else { "random_move_to_vec" });
        run.note(|| format!("{} -> {:?} {:?}", what(), r, v));
        if let Err(e) = r {
            return run.fail("error", format!("{}: {:?}", what(), e));
        }
        let g = match expected(run, &log, dim, true) {
            Some(g) if v.coordinate.len() == dim => g,
            _ => return run.fail("draws", format!("{}: {} draws are not {} fresh Gaussians for {:?}", what(), log.len(), dim, v)),
        };
        for i in 0..dim {
            let base = if form == 1 { old[i] } else { 0.0 };
            let want = base + s * g[i];
            run.ensure((v.coordinate[i] - want).abs() <= 1e-12 * (base.abs() + (s * g[i]).abs()), "value", || format!("{}: coordinate {} is {:e}, expected {:e}", what(), i, v.coordinate[i], want));
            run.observe_f64(v.coordinate[i]);
        }
    });
    c.family("tails", "the Gaussian functions and the moves of 4 agents in both forms, dimension 1..4: one coordinate out of the tail of the distribution, 4 to 10 deviations away, of either sign, the others near or far", |run| {
        let form = run.pick(12);
        let dim = if form == 0 { 1 } else { 1 + run.pick(4) };
        let j = run.pick(dim);
        let up = run.flag();
        let far = run.of(&[0.2, 1e-2, 1e-3, 1e-4, 1e-6, 1e-9]);
        let other = run.of(&[bits_for(0.5) | 3, bits_for(0.9) | 0x21, bits_for(0.985) | 0x02]);
        let mut seq: Vec<u64> = vec![];
        (0..j).for_each(|_| seq.push(other));
        seq.extend([bits_for(if up { 0.99999 } else { 0.00001 }) & !0xff, bits_for(far), bits_for(1e-13)]);
        let ag = Ag::at(form % 4, MoveType::Brownian(0.37), &vec![0.5; dim]);
        let s = (2.0f64 * 0.37 * 0.02).sqrt();
        let init: Vec<f64> = [0.5, -2.0, 0.0, 9.0][..dim].to_vec();
        run.fixed_rng(seq, LIMIT);
        let mut rng = rng_seed(8);
        let mut v = pos(&init);
        let (base, scale, mean) = match form {
            0 => { v = pos(&[get_gaussian(&mut rng)]); (false, 1.0, 0.0) }
            1 => { v = get_gaussian_vec(&mut rng, dim); (false, 1.0, 0.0) }
            2 => { get_gaussian_to_vec(&mut rng, &mut v); (false, 1.0, 0.0) }
            3 => { get_gaussian_to_vec_nonstandard(&mut rng, &mut v, -1.5, 3.0); (true, 3.0, -1.5) }
            4..=7 => { v = ag.random_move(&mut rng, 0.02).unwrap_or(pos(&[])); (false, s, 0.0) }
            _ => { let _ = ag.random_move_to_vec(&mut rng, 0.02, &mut v); (true, s, 0.0) }
        };
        run.step();
        let log = script::take_log();
        run.note(|| format!("function {} dim {}: {:?} after {} draws", form, dim, v, log.len()));
        let g = match expected(run, &log, dim, true) {
            Some(g) if v.coordinate.len() == dim => g,
            _ => return run.fail("draws", format!("function {}: {} draws are not {} fresh Gaussians for {:?}", form, log.len(), dim, v)),
        };
        for i in 0..dim {
            let want = if base { init[i] } else { 0.0 } + mean + scale * g[i];
            run.ensure(close(v.coordinate[i], want, 5.0), "value", || format!("function {} dim {}: coordinate {} is {}, the draws stand for {}", form, dim, i, v.coordinate[i], want));
            run.observe_f64(v.coordinate[i]);
        }
    });
    c.family(
        "refused",
        "unsupported motion types and vectors of another dimension (0..5), 4 agent kinds, dimension 1..4",
        move |run| {
            let kind = run.pick(4);
            let dim = 1 + run.pick(4);
            let at = vec![0.1; dim];
            let mut rng = rng_seed(3);
            let levy = Ag::at(kind, MoveType::Levy, &at);
            run.step();
            run.ensure(matches!(catch(|| levy.random_move(&mut rng, 0.1)), Ok(Err(_))), "levy", || format!("{}: random_move of a Levy walk is not refused", KINDS[kind]));
            let mut v = pos(&vec![1.0; dim]);
            let r = catch(|| levy.random_move_to_vec(&mut rng, 0.1, &mut v));
            run.ensure(matches!(r, Ok(Err(_))) && v.coordinate == vec![1.0; dim], "levy", || format!("{}: random_move_to_vec of a Levy walk is not refused", KINDS[kind]));
            let ok = Ag::at(kind, MoveType::Brownian(1.0), &at);
            let other = run.pick(6);
            if other != dim {
                let mut v = pos(&vec![1.0; other]);
                let r = catch(|| ok.random_move_to_vec(&mut rng, 0.1, &mut v));
                run.observe(&r.is_ok());
                run.ensure(matches!(r, Ok(Err(_))) && v.coordinate == vec![1.0; other], "dimension", || format!("{} of dimension {}: a vector of dimension {} is not refused ({:?}, {:?})", KINDS[kind], dim, other, r.is_ok(), v));
            }
        },
    );
    // reproducibility
    let n = c.q(4usize, 5);
    c.family(
        "histories",
        &format!("all histories of {} calls out of {} (numbers, vectors, positions, moves, placements, renewal) from 2 seeds of the real generator: repeated from the same seed, with calls on a second generator in between, after a detour, with a cloned generator, and from another seed", n, OPS),
        move |run| {
            let seed = run.of(&[1u128, 0xdead_beef_0000_0001_0000_0000_0000_0007]);
            let ops: Vec<usize> = (0..n).map(|_| run.pick(OPS)).collect();
            run.free_rng();
            let go = |seed: u128| -> Vec<Vec<u64>> {
                let mut rng = rng_seed(seed);
                let mut w = world();
                ops.iter().map(|&o| call(&mut w, o, &mut rng)).collect()
            };
            let a = go(seed);
            run.step();
            run.observe(&a);
            run.note(|| format!("seed {} calls {:?}", seed, ops));
            let b = go(seed);
            run.ensure(a == b, "repeat", || format!("calls {:?} from seed {}: {:?} the first time, {:?} the second time", ops, seed, a, b));
            // a second generator in between, in both directions
            let mut r1 = rng_seed(seed);
            let mut r2 = rng_seed(seed + 5);
            let (mut w1, mut w2) = (world(), world());
            let mut c1 = vec![];
            let mut c2 = vec![];
            for (i, &o) in ops.iter().enumerate() {
                c1.push(call(&mut w1, o, &mut r1));
                c2.push(call(&mut w2, ops[n - 1 - i], &mut r2));
            }
            run.ensure(a == c1, "shared-state", || format!("calls {:?} from seed {} depend on another generator", ops, seed));
            let mut rev = ops.clone();
            rev.reverse();
            let mut r3 = rng_seed(seed + 5);
            let mut w3 = world();
            let c3: Vec<Vec<u64>> = rev.iter().map(|&o| call(&mut w3, o, &mut r3)).collect();
            run.ensure(c2 == c3, "shared-state", || format!("calls {:?} from seed {} depend on another generator", rev, seed + 5));
            // a clone of the generator continues identically
            let mut r4 = rng_seed(seed);
            let mut w4 = world();
            let mut ok = true;
            for (i, &o) in ops.iter().enumerate() {
                let mut twin = r4.clone();
                let mut wt = World { agents: w4.agents.clone(), vec: w4.vec.clone() };
                let x = call(&mut wt, o, &mut twin);
                ok &= x == a[i] && call(&mut w4, o, &mut r4) == x;
            }
            run.ensure(ok, "clone", || format!("calls {:?} from seed {}: a cloned generator gives other results", ops, seed));
            let d = go(seed + 1);
            for i in 0..n {
                run.ensure(a[i] != d[i], "same-for-other-seed", || format!("call {} of {:?} gives {:?} for the seeds {} and {}", i, ops, a[i], seed, seed + 1));
            }
            // fresh numbers at every call
            for i in 1..n {
                if ops[i] == ops[i - 1] {
                    run.ensure(a[i] != a[i - 1], "not-fresh", || format!("calls {:?} from seed {}: call {} repeats the result before", ops, seed, i));
                }
            }
        },
    );
    c.family(
        "seeds",
        "0..999, all 128 single-bit seeds, all 127 two-neighbour-bit seeds, all suffixes of ones: pairwise different numbers",
        move |run| {
            let mut seeds: Vec<u128> = (0..1000).collect();
            for b in 0..128 {
                seeds.push(1u128 << b);
                seeds.push(u128::MAX >> b);
                seeds.push(u128::MAX << b);
                if b < 127 {
                    seeds.push(3u128 << b);
                }
            }
            seeds.sort();
            seeds.dedup();
            let which = run.pick(2);
            run.free_rng();
            let mut seen = std::collections::HashMap::new();
            for s in seeds {
                let mut rng = rng_seed(s);
                let k: Vec<u64> = (0..3).map(|_| if which == 0 { get_uniform(&mut rng).to_bits() } else { get_gaussian(&mut rng).to_bits() }).collect();
                run.step();
                run.observe(&k);
                run.state(&k);
                let old = seen.insert(k, s);
                if !run.ensure(old.is_none(), "same-for-other-seed", || format!("the seeds {} and {} give the same numbers", s, old.unwrap())) {
                    return;
                }
            }
        },
    );
    c.finish()
}
