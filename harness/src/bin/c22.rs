//! C22: components are built as their parameters say, impossible ones are refused.
use mcheck::agents::*;
use mcheck::geo::*;
use mcheck::util::*;
use mcheck::*;
use moledyn::prelude::*;

fn words(v: &[&str]) -> Vec<String> {
    v.iter().map(|x| x.to_string()).collect()
}

/// What came of an attempt to build something: the thing, or a refusal (an error or a panic).
fn attempt<T>(f: impl FnOnce() -> Result<T, Error>) -> Result<T, String> {
    match catch(f) {
        Ok(Ok(t)) => Ok(t),
        Ok(Err(e)) => Err(format!("{:?}", e)),
        Err(p) => Err(p),
    }
}

const SIZES: [&str; 9] = ["NaN", "-1", "-1e-300", "-0", "0", "1e-300", "0.25", "3", "1e12"];

const BIG: [usize; 13] = [16, 20, 32, 64, 99, 100, 101, 128, 256, 1000, 65_536, u32::MAX as usize + 2, usize::MAX];

/// direct / from arguments: both must agree with `valid`; then `same` compares the two.
fn judge<T>(run: &mut Run, what: &str, valid: bool, direct: &Result<T, String>, args: &Result<T, String>) {
    for (how, r) in [("built directly", direct), ("built from arguments", args)] {
        match r {
            Ok(_) => {
                run.ensure(valid, "accepted", || format!("{}: an impossible configuration is accepted when {}", what, how));
            }
            Err(e) => {
                run.ensure(!valid, "refused", || format!("{}: a valid configuration is refused when {}: {}", what, how, e));
            }
        }
    }
}

fn main() {
    mute_stdout();
    let mut c = Check::new("C22");
    c.assume("whether a target of no extent, a negative diffusion coefficient or a step below 1e-15 is meaningful is not decided");
    c.family("balls", "9 sizes (no number, negative, zero, tiny, huge) x dimensions 0..=11, built directly and from arguments", |run| {
        let size = run.of(&SIZES);
        let dim = run.pick(12);
        let r: f64 = size.parse().unwrap();
        let what = format!("ball of radius {} in {} dimensions", size, dim);
        run.note(|| what.clone());
        run.step();
        let direct = attempt(|| Ok(ContCircSystem::new(r, dim)));
        let args = attempt(|| Ok(ContCircSystem::convert_from(&ContCircSystem::read_args_from_vec(&words(&[size, &dim.to_string()]))?)));
        judge(run, &what, r > 0.0 && dim > 0, &direct, &args);
        for s in [&direct, &args].into_iter().flatten() {
            run.state(&format!("{:?}", s));
            run.ensure(s.sys_size == r && s.dim == dim && s.sys_type == SystemType::ContinuousCircular && s.bctype == BoundaryCond::Reflection, "fields", || format!("{}: {:?}", what, s));
        }
    });
    c.family("boxes", "boundary conditions Reflection, Periodic, Mixed(0..=12 and 13 numbers from 16 to the largest) x 9 sizes x dimensions 0..=11, built directly and from arguments", |run| {
        let how = run.pick(28);
        let parts = if how < 15 { how.saturating_sub(2) } else { BIG[how - 15] };
        let bct = match how {
            0 => BoundaryCond::Reflection,
            1 => BoundaryCond::Periodic,
            _ => BoundaryCond::Mixed(parts),
        };
        let size = run.of(&SIZES);
        let dim = run.pick(12);
        let l: f64 = size.parse().unwrap();
        let what = format!("box of size {} in {} dimensions with {:?}", size, dim, bct);
        run.note(|| what.clone());
        run.step();
        let direct = attempt(|| Ok(ContCubicSystem::new(bct, l, dim)));
        let args = attempt(|| Ok(ContCubicSystem::convert_from(&ContCubicSystem::read_args_from_vec(&words(&[&format!("{}", bct), size, &dim.to_string()]))?)));
        let fits = how < 2 || parts <= dim;
        judge(run, &what, l > 0.0 && dim > 0 && fits, &direct, &args);
        for s in [&direct, &args].into_iter().flatten() {
            run.state(&format!("{:?}", s));
            run.ensure(s.sys_size == l && s.dim == dim && s.sys_type == SystemType::ContinuousRectangular && s.bctype == bct, "fields", || format!("{}: {:?}", what, s));
        }
    });
    c.family("cylinders", "cross-sections 1..=9 x boundary conditions Reflection, Periodic, Mixed(1..=9) x 8 x 9 sizes x dimensions 0..=11, built from arguments, and directly where the two parts agree", |run| {
        let k = 1 + run.pick(9);
        let how = run.pick(11);
        let bct = match how {
            0 => BoundaryCond::Reflection,
            1 => BoundaryCond::Periodic,
            k => BoundaryCond::Mixed(k - 1),
        };
        let (rad, len) = (run.of(&SIZES), run.of(&SIZES));
        let dim = run.pick(12);
        let (r, l): (f64, f64) = (rad.parse().unwrap(), len.parse().unwrap());
        let what = format!("cylinder with a cross-section of {} out of {} dimensions, radius {}, length {}, {:?}", k, dim, rad, len, bct);
        run.note(|| what.clone());
        run.step();
        let args = attempt(|| {
            Ok(ContCylindricalSystem::convert_from(&ContCylindricalSystem::read_args_from_vec(&words(&[
                &format!("{}", SystemType::ContinuousCylindrical(k)),
                &format!("{}", bct),
                rad,
                len,
                &dim.to_string(),
            ]))?))
        });
        let agree = bct == BoundaryCond::Mixed(k);
        let valid = r > 0.0 && l > 0.0 && dim > 0 && k <= dim;
        let direct = if agree { attempt(|| Ok(ContCylindricalSystem::new(k, r, l, dim))) } else { args.clone() };
        judge(run, &what, valid && agree, &direct, &args);
        for s in [&direct, &args].into_iter().flatten() {
            run.state(&format!("{:?}", s));
            run.ensure(
                s.sys_radius == r && s.sys_length == l && s.dim == dim && s.sys_type == SystemType::ContinuousCylindrical(k) && s.bctype == BoundaryCond::Mixed(k),
                "fields",
                || format!("{}: {:?}", what, s),
            );
        }
    });
    c.family("wide-cylinders", "cross-sections of 13 numbers from 16 to the largest, in 1, 2, 3, 11, 15, 16, 17, 64, 65, 100 and 1001 dimensions: accepted exactly if the cross-section is a part of the space", |run| {
        let k = run.of(&BIG);
        let dim = run.of(&[1usize, 2, 3, 11, 15, 16, 17, 64, 65, 100, 1001]);
        let what = format!("cylinder with a cross-section of {} out of {} dimensions", k, dim);
        run.note(|| what.clone());
        run.step();
        let direct = attempt(|| Ok(ContCylindricalSystem::new(k, 2.0, 3.0, dim)));
        let args = attempt(|| {
            Ok(ContCylindricalSystem::convert_from(&ContCylindricalSystem::read_args_from_vec(&words(&[
                &format!("{}", SystemType::ContinuousCylindrical(k)),
                &format!("{}", BoundaryCond::Mixed(k)),
                "2",
                "3",
                &dim.to_string(),
            ]))?))
        });
        judge(run, &what, k <= dim, &direct, &args);
        for s in [&direct, &args].into_iter().flatten() {
            run.state(&format!("{:?}", s));
            run.ensure(s.sys_type == SystemType::ContinuousCylindrical(k) && s.bctype == BoundaryCond::Mixed(k) && s.dim == dim, "fields", || format!("{}: {:?}", what, s));
        }
    });
    c.family("cylinders-of-another-kind", "system types that are no cylinder given as a cylinder's", |run| {
        let t = run.of(&[SystemType::ContinuousCircular, SystemType::ContinuousRectangular, SystemType::ContinuousRectangular]);
        let b = run.of(&[BoundaryCond::Mixed(1), BoundaryCond::Mixed(2), BoundaryCond::Periodic]);
        let dim = 1 + run.pick(3);
        run.step();
        let r = attempt(|| {
            Ok(ContCylindricalSystem::convert_from(&ContCylindricalSystem::read_args_from_vec(&words(&[&format!("{}", t), &format!("{}", b), "1", "1", &dim.to_string()]))?))
        });
        run.ensure(r.is_err(), "accepted", || format!("a cylinder of type {:?} is accepted: {:?}", t, r));
    });
    c.family("targets", "positions of 1 to 4 coordinates from 4 values, 5 radii, built directly and from arguments", |run| {
        let n = 1 + run.pick(4);
        let p: Vec<f64> = (0..n).map(|_| run.of(&[0.0, -1.5, 1e-7, 4e9])).collect();
        let r = run.of(&[1e-9, 0.1, 1.0, 2.5, 1e9]);
        run.step();
        let text: Vec<String> = p.iter().map(|x| format!("{:?}", x)).collect();
        let a = ContBulkTarget::new(pos(&p), r);
        let b = attempt(|| Ok(ContBulkTarget::convert_from(&ContBulkTarget::read_args_from_vec(&words(&[&text.join(","), &format!("{:?}", r)]))?)));
        match b {
            Ok(b) => {
                for t in [&a, &b] {
                    run.state(&format!("{:?}", t));
                    run.ensure(
                        t.target_pos.coordinate == p && t.target_size == r && t.target_type == TargetType::ContinuousInBulk && t.target_type() == TargetType::ContinuousInBulk,
                        "fields",
                        || format!("the target at {:?} of radius {:?} is {:?}", p, r, t),
                    );
                }
            }
            Err(e) => run.fail("refused", format!("the target at {:?} of radius {:?} is refused: {}", p, r, e)),
        }
    });
    let par = ["1e-6", "0.7", "1", "3e5"];
    c.family("agents", "4 kinds x 3 motion types x uniform or at a position of 1 to 3 coordinates x 4 values for each of 2 parameters x 0, 1, 2 or 5 agents", move |run| {
        let kind = run.pick(4);
        let mt = run.of(&[MoveType::Brownian(1.0), MoveType::Brownian(2.5e-7), MoveType::Levy]);
        let dim = 1 + run.pick(3);
        let here: Option<Vec<f64>> = if run.flag() { Some(vec![0.5, -2.0, 1e-9][..dim].to_vec()) } else { None };
        let (a, b) = (run.of(&par), run.of(&par));
        let n = run.of(&[0usize, 1, 2, 5]);
        let (x, y): (f64, f64) = (a.parse().unwrap(), b.parse().unwrap());
        let m = format!("{}", mt);
        let init = match &here {
            None => "Uniform".to_string(),
            Some(p) => p.iter().map(|x| format!("{:?}", x)).collect::<Vec<_>>().join(","),
        };
        let num = n.to_string();
        let d = dim.to_string();
        let what = format!("{} {} agents ({}, {}, parameters {} and {})", n, KINDS[kind], m, init, a, b);
        run.note(|| what.clone());
        run.step();
        let r = attempt(|| {
            Ok(match kind {
                0 => ContPassiveIndepAgent::convert_from(&ContPassiveIndepAgent::read_args_from_vec(&words(&[&m, &init, &num]))?).into_iter().map(Ag::Indep).collect::<Vec<_>>(),
                1 => ContPassiveMergeAgent::convert_from(&ContPassiveMergeAgent::read_args_from_vec(&words(&[&m, &init, a, b, &num]))?).into_iter().map(Ag::Merge).collect(),
                2 => ContPassiveExpAgent::convert_from(&ContPassiveExpAgent::read_args_from_vec(&words(&[&m, &init, a, &d, b, &num]))?).into_iter().map(Ag::Exp).collect(),
                _ => ContPassiveLJAgent::convert_from(&ContPassiveLJAgent::read_args_from_vec(&words(&[&m, &init, a, b, &num]))?).into_iter().map(Ag::Lj).collect(),
            })
        });
        let list = match r {
            Ok(l) => l,
            Err(e) => return run.fail("refused", format!("{} are refused: {}", what, e)),
        };
        run.ensure(list.len() == n, "number", || format!("{}: {} are built", what, list.len()));
        let want_init = match &here {
            None => InitType::Uniform,
            Some(p) => InitType::SpecificPosition(pos(p)),
        };
        for g in &list {
            run.state(&format!("{:?}", g));
            let common = match g {
                Ag::Indep(g) => g.mtype == mt && g.itype == want_init && g.agent_type == AgentType::ContinuousPassiveIndependent,
                Ag::Merge(g) => g.mtype == mt && g.itype == want_init && g.agent_type == AgentType::ContinuousPassiveInteracting && g.ptl_radius == x && g.alpha == y && g.size() == 1,
                Ag::Exp(g) => {
                    g.mtype == mt && g.itype == want_init && g.agent_type == AgentType::ContinuousPassiveInteracting && g.gamma == x && g.strength == y && g.exp_dim == dim
                        && g.int_type == InteractType::Exponential(dim, x)
                }
                Ag::Lj(g) => {
                    g.mtype == mt && g.itype == want_init && g.agent_type == AgentType::ContinuousPassiveInteracting && g.ptl_size == x && g.strength == y
                        && g.int_type == InteractType::LennardJones(x)
                }
            };
            run.ensure(common, "fields", || format!("{}: {:?}", what, g));
            match &here {
                None => run.ensure(g.position().is_empty(), "position", || format!("{}: not placed yet, but at {:?}", what, g.position())),
                Some(p) => run.ensure(g.position() == &p[..] && g.dim() == dim, "position", || format!("{}: at {:?}, dimension {}", what, g.position(), g.dim())),
            };
            // the same agent built directly
            if let Some(p) = &here {
                let q = pos(p);
                let same = attempt(|| {
                    Ok(match kind {
                        0 => Ag::Indep(ContPassiveIndepAgent::new(mt, q)),
                        1 => Ag::Merge(ContPassiveMergeAgent::new(mt, q, x, y)),
                        2 => Ag::Exp(ContPassiveExpAgent::new(InteractType::Exponential(dim, x), mt, q, y)),
                        _ => Ag::Lj(ContPassiveLJAgent::new(InteractType::LennardJones(x), mt, q, y)),
                    })
                });
                run.ensure(same.as_ref() == Ok(g), "same", || format!("{}: from arguments {:?}, directly {:?}", what, g, same));
            }
        }
    });
    let crowds: Vec<usize> = c.q(vec![31, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 513, 999, 1000, 1001, 1023, 1024, 1025, 4097, 10_001, 65_535, 65_536, 65_537], vec![31, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2049, 4095, 4096, 4097, 9_999, 10_000, 10_001, 65_535, 65_536, 65_537, 100_001, 1_000_001]);
    let ncrowds = crowds.len();
    c.family("many-agents", &format!("4 kinds, uniform or at a position, {} numbers of agents from 31 to {}: that many agents, all alike", ncrowds, crowds[ncrowds - 1]), move |run| {
        let kind = run.pick(4);
        let init = run.of(&["Uniform", "0.5,-2"]);
        let n = run.of(&crowds);
        run.note(|| format!("{} {} agents at {}", n, KINDS[kind], init));
        run.step();
        let one = attempt(|| Ok(Ag::from_args(kind, "0.5", init, 2, 1)));
        let all = attempt(|| Ok(Ag::from_args(kind, "0.5", init, 2, n)));
        match (one, all) {
            (Ok(one), Ok(all)) => {
                run.state(&(kind, init, all.len()));
                run.ensure(all.len() == n && one.len() == 1, "number", || format!("{} {} agents asked for, {} built", n, KINDS[kind], all.len()));
                let bad = all.iter().position(|g| *g != one[0]);
                run.ensure(bad.is_none(), "same", || format!("agent {:?} of {} {} agents differs from a single one", bad, n, KINDS[kind]));
            }
            (a, b) => run.fail("refused", format!("{} {} agents: {:?} {:?}", n, KINDS[kind], a.err(), b.err())),
        }
    });
    c.family("agents-of-another-dimension", "exponential agents whose dimension is not that of their position, and interactions of another kind, in all forms", |run| {
        let dim = 1 + run.pick(4);
        let n = 1 + run.pick(4);
        let p: Vec<f64> = (0..n).map(|i| 0.25 * i as f64).collect();
        let init = p.iter().map(|x| format!("{:?}", x)).collect::<Vec<_>>().join(",");
        let it = run.of(&[InteractType::Exponential(dim, 0.7), InteractType::LennardJones(0.7), InteractType::Exponential(dim, 2.0)]);
        run.step();
        let exponential = matches!(it, InteractType::Exponential(..));
        let m = MoveType::Brownian(1.0);
        let a = attempt(|| Ok(ContPassiveExpAgent::new(it, m, pos(&p), 1.0)));
        run.ensure(a.is_ok() == (exponential && n == dim), if a.is_ok() { "accepted" } else { "refused" }, || format!("ContPassiveExpAgent::new({:?}) at {:?}: {:?}", it, p, a));
        let b = attempt(|| Ok(ContPassiveLJAgent::new(it, m, pos(&p), 1.0)));
        run.ensure(b.is_ok() == !exponential, if b.is_ok() { "accepted" } else { "refused" }, || format!("ContPassiveLJAgent::new({:?}): {:?}", it, b));
        let r = attempt(|| Ok(ContPassiveExpAgent::convert_from(&ContPassiveExpAgent::read_args_from_vec(&words(&["1.0", &init, "0.7", &dim.to_string(), "1", "2"]))?)));
        run.ensure(r.is_ok() == (n == dim), if r.is_ok() { "accepted" } else { "refused" }, || format!("exponential agents of dimension {} at {:?}: {:?}", dim, p, r));
        // uniform placement in a system of dimension n
        run.fixed_rng(vec![], 10_000);
        let sys = Shape::boxed(1.0, n, 0, 0).sys();
        let t = ContBulkTarget::new(pos(&vec![0.0; n]), 0.1);
        let mut rng = rng_seed(3);
        let u = attempt(|| ContPassiveExpAgent::new_uniform(sys.dynamic(), &t, &mut rng, it, m, 1.0));
        run.ensure(u.is_ok() == (exponential && n == dim), if u.is_ok() { "accepted" } else { "refused" }, || format!("uniform exponential agent {:?} in {} dimensions: {:?}", it, n, u));
        let u = attempt(|| ContPassiveLJAgent::new_uniform(sys.dynamic(), &t, &mut rng, it, m, 1.0));
        run.ensure(u.is_ok() == !exponential, if u.is_ok() { "accepted" } else { "refused" }, || format!("uniform lennard-jones agent {:?}: {:?}", it, u));
    });
    // the three ways to an agent placed uniformly lead to the same agent
    let us: Vec<u64> = [0.02, 0.31, 0.5, 0.77, 0.98].iter().map(|u| bits_for(*u)).collect();
    let horizon = c.q(7usize, 9);
    c.family("placed", &format!("4 kinds in 6 systems of 1 to 3 dimensions: uniform placement (new, from arguments and placed, elsewhere and replaced) under the same draws, the first {} draws each from 5 values", horizon), move |run| {
        let kind = run.pick(4);
        let sh = run.of(&[
            Shape::Ball(1.5, 2),
            Shape::Ball(0.7, 1),
            Shape::boxed(2.0, 2, 1, 0),
            Shape::boxed(1.0, 1, 0, 0),
            Shape::Cyl(1.0, 3.0, 2, 3),
            Shape::Cyl(2.0, 0.5, 1, 2),
        ]);
        let dim = sh.dim();
        let before = run.pick(2);
        let sys = sh.sys();
        let mut centre = vec![0.0; dim];
        centre[0] = 0.1;
        let target = ContBulkTarget::new(pos(&centre), 0.3 * sh.size().min(1.0));
        let m = MoveType::Brownian(0.5);
        run.script_rng(&us, horizon, 100_000);
        let mut rng = rng_seed(11);
        let a = Ag::uniform(kind, sys.dynamic(), &target, dim, &mut rng, m);
        let draws = script::take_log();
        run.step();
        run.fixed_rng(draws.clone(), 100_000);
        let mut rng = rng_seed(11);
        let mut b = match attempt(|| Ok(Ag::from_args(kind, "0.5", "Uniform", dim, 1))) {
            Ok(mut v) if v.len() == 1 => v.remove(0),
            Ok(v) => return run.fail("number", format!("{} agents instead of 1", v.len())),
            Err(e) => return run.fail("refused", format!("a uniform {} agent is refused: {}", KINDS[kind], e)),
        };
        let r = b.renew(sys.dynamic(), &target, &mut rng);
        let second = script::take_log();
        run.fixed_rng(draws.clone(), 100_000);
        let mut rng = rng_seed(11);
        // an agent that was somewhere else, in a space of the same or another dimension
        let old = if before == 0 || kind == 2 { vec![0.4; dim] } else { vec![0.4; dim % 3 + 1] };
        let mut e = Ag::at(kind, m, &old);
        let r2 = e.renew(sys.dynamic(), &target, &mut rng);
        let third = script::take_log();
        match (a, r, r2) {
            (Ok(a), Ok(()), Ok(())) => {
                run.state(&format!("{:?}", a));
                run.ensure(draws == second && draws == third, "draws", || format!("{} agent in {:?}: draws {:?}, {:?} and {:?}", KINDS[kind], sh, draws, second, third));
                run.ensure(a == b, "placed", || format!("{} agent in {:?}: placed at once {:?}, from arguments and placed {:?}", KINDS[kind], sh, a, b));
                // only the way it was initialised differs
                each_agent!(&mut e, g => g.itype = InitType::Uniform);
                run.ensure(a == e, "placed", || format!("{} agent in {:?}: placed at once {:?}, elsewhere and placed again {:?}", KINDS[kind], sh, a, e));
            }
            (a, r, r2) => run.fail("error", format!("placing a {} agent in {:?} failed: {:?} {:?} {:?}", KINDS[kind], sh, a, r, r2)),
        }
    });
    c.family("simulations", "the 3 kinds of run: 5 numbers of ensembles, 4 indices or threads, 7 seeds up to the largest, 8 periods, 5 directories: every value is carried", |run| {
        let n = run.of(&["0", "1", "1000000", "4294967297", "18446744073709551615"]);
        let idx = run.of(&["0", "1", "65537", "18446744073709551615"]);
        let seed = run.of(&["0", "1", "123456789012345", "18446744073709551615", "18446744073709551616", "170141183460469231731687303715884105728", "340282366920938463463374607431768211455"]);
        let period = run.of(&["0", "-1", "1e-300", "-2.5e-7", "0.1", "1e300", "inf", "-inf"]);
        let dir = run.of(&["d", "./a/b c/", "/tmp/..", "결과", "x:y"]);
        run.step();
        run.note(|| format!("{} {} {} {} {:?}", n, idx, seed, period, dir));
        let (nn, ii, ss): (usize, usize, u128) = (n.parse().unwrap(), idx.parse().unwrap(), seed.parse().unwrap());
        let pp: f64 = period.parse().unwrap();
        let r = attempt(|| {
            let a = VariableSimulation::convert_from(&VariableSimulation::read_args_from_vec(&words(&[n, idx, seed, dir]))?);
            let b = ParVariableSimulation::convert_from(&ParVariableSimulation::read_args_from_vec(&words(&[n, seed, idx, dir]))?);
            let c = ProcessSimulation::convert_from(&ProcessSimulation::read_args_from_vec(&words(&[n, period, idx, seed, dir]))?);
            Ok((a, b, c))
        });
        match r {
            Err(e) => run.fail("refused", format!("runs of {:?} are refused: {}", (n, period, idx, seed, dir), e)),
            Ok((a, b, c)) => {
                run.state(&(a.num_ensemble, a.idx_set, a.seed, c.period.to_bits()));
                run.ensure(a.num_ensemble == nn && a.idx_set == ii && a.seed == ss && a.output_dir == dir, "variable", || format!("({}, {}, {}, {:?}) becomes ({}, {}, {}, {:?})", n, idx, seed, dir, a.num_ensemble, a.idx_set, a.seed, a.output_dir));
                run.ensure(b.num_ensemble == nn && b.n_thrd == ii && b.seed == ss && b.output_dir == dir, "parallel", || format!("({}, {}, {}, {:?}) becomes ({}, {}, {}, {:?})", n, seed, idx, dir, b.num_ensemble, b.seed, b.n_thrd, b.output_dir));
                run.ensure(c.num_ensemble == nn && c.idx_set == ii && c.seed == ss && c.output_dir == dir && c.period.to_bits() == pp.to_bits(), "process", || format!("({}, {}, {}, {}, {:?}) becomes ({}, {}, {}, {}, {:?})", n, period, idx, seed, dir, c.num_ensemble, c.period, c.idx_set, c.seed, c.output_dir));
            }
        }
    });
    let steps = ["NaN", "-1", "-0", "0", "1e-9", "0.1", "1", "250"];
    let limits = ["NaN", "-3", "-1e-9", "0", "1e-9", "0.05", "10", "1e9"];
    c.family("constant-clocks", "8 step sizes x 8 limits, built directly and from arguments", move |run| {
        let (a, b) = (run.of(&steps), run.of(&limits));
        let (dt, tmax): (f64, f64) = (a.parse().unwrap(), b.parse().unwrap());
        let what = format!("constant clock with step {} and limit {}", a, b);
        run.note(|| what.clone());
        run.step();
        let direct = attempt(|| {
            let mut t = ConstStep::new(dt)?;
            t.set_tmax(tmax)?;
            Ok(t)
        });
        let args = attempt(|| Ok(ConstStep::convert_from(&ConstStep::read_args_from_vec(&words(&[a, b]))?)));
        judge(run, &what, dt > 0.0 && tmax >= 0.0, &direct, &args);
        if let (Ok(x), Ok(y)) = (&direct, &args) {
            run.state(&format!("{:?}", x));
            run.ensure(x == y, "same", || format!("{}: directly {:?}, from arguments {:?}", what, x, y));
            run.ensure(x.dt() == dt && x.current_time() == 0.0 && x.titype == TimeType::Constant(dt), "fields", || format!("{}: {:?}", what, x));
        }
    });
    c.family("exponential-clocks", "8 x 8 step sizes, lengths 0, 10, 11 and 1000, 8 limits, built directly and from arguments", move |run| {
        let (a, b, n, l) = (run.of(&steps), run.of(&steps), run.of(&["0", "10", "11", "1000"]), run.of(&limits));
        let (lo, hi, tmax): (f64, f64, f64) = (a.parse().unwrap(), b.parse().unwrap(), l.parse().unwrap());
        let len: usize = n.parse().unwrap();
        let what = format!("exponential clock from {} to {}, {} ticks per step size, limit {}", a, b, n, l);
        run.note(|| what.clone());
        run.step();
        let direct = attempt(|| {
            let mut t = ExponentialStep::new(lo, hi, len)?;
            t.set_tmax(tmax)?;
            Ok(t)
        });
        let args = attempt(|| Ok(ExponentialStep::convert_from(&ExponentialStep::read_args_from_vec(&words(&[a, b, n, l]))?)));
        judge(run, &what, lo > 0.0 && lo <= hi && len > 0 && tmax >= 0.0, &direct, &args);
        if let (Ok(x), Ok(y)) = (&direct, &args) {
            run.state(&format!("{:?}", x));
            for t in [x, y] {
                run.ensure(
                    t.dt() == lo && t.current_time() == 0.0 && t.titype == TimeType::Exponential(lo, hi, len) && t.tmax == x.tmax && t.count == 0 && t.inc > 1.0,
                    "fields",
                    || format!("{}: {:?}", what, t),
                );
            }
        }
    });
    c.finish();
}
