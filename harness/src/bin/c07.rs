//! C07: a constant clock ticks at k*dt from 0 up to and including its limit.
use mcheck::util::*;
use mcheck::*;
use moledyn::prelude::{Argument, ConstStep, TimeIterator, TimeType};

fn make(dt: f64, tmax: f64, way: usize) -> Result<ConstStep, String> {
    match way {
        0 => {
            let mut c = ConstStep::new(dt).map_err(|e| format!("{:?}", e))?;
            c.set_tmax(tmax).map_err(|e| format!("{:?}", e))?;
            Ok(c)
        }
        w => {
            let s = |x: f64| if w == 1 { format!("{:e}", x) } else { format!("{}", x) };
            let a = ConstStep::read_args_from_vec(&[s(dt), s(tmax)]).map_err(|e| format!("{:?}", e))?;
            catch(|| ConstStep::convert_from(&a))
        }
    }
}

/// Whether the k-th tick is within the limit; `None` if rounding decides.
fn within(k: usize, dt: f64, tmax: f64, exact: bool) -> Option<bool> {
    if tmax == 0.0 {
        return Some(true);
    }
    let t = k as f64 * dt;
    if !exact && (t - tmax).abs() < 1e-9 * tmax {
        return None;
    }
    Some(t <= tmax)
}

fn main() {
    let mut c = Check::new("C07");
    c.assume("a limit that a tick reaches only up to rounding (step size not a power of two) is not decided");
    c.assume("limits below the smallest step size 1e-15 count as 0");
    // histories
    let depth = c.q(12, 24);
    for (i, dt) in [0.25f64, 0.1, 1e-9, 64.0, 2f64.powi(-40)].iter().enumerate() {
        let dt = *dt;
        let exact = dt.log2().fract() == 0.0;
        for way in 0..3 {
            c.bfs(
                &format!("history-{}-{}", i, ["direct", "args", "args-plain"][way]),
                &format!("step size {}: all histories up to length {} of next, 3 x next, renew, continue in the (time, step) form, and setting the limit to 0, negative, between and on ticks", dt, depth),
                11,
                depth,
                c.q(300_000, 3_000_000),
                move |run, hist| {
                    let mut tmax = if way == 0 { 0.0 } else { 4.5 * dt };
                    let mut clk = match make(dt, tmax, way) {
                        Ok(c) => c,
                        Err(e) => {
                            run.fail("refused", format!("ConstStep with step {} and limit {} is refused: {}", dt, tmax, e));
                            return 0;
                        }
                    };
                    let mut k = 0usize;
                    for &op in hist {
                        match op {
                            0 | 1 => {
                                for _ in 0..if op == 0 { 1 } else { 3 } {
                                    let w = match within(k, dt, tmax, exact) {
                                        Some(w) => w,
                                        None => {
                                            run.disabled();
                                            return 0;
                                        }
                                    };
                                    let got = clk.next();
                                    run.note(|| format!("next -> {:?}", got));
                                    let ok = match got {
                                        Some(t) => w && close(t, k as f64 * dt, 1e-3 * dt),
                                        None => !w,
                                    };
                                    run.ensure(ok, "tick", || format!("step {} limit {}: tick {} is {:?}", dt, tmax, k, got));
                                    if w {
                                        k += 1;
                                    }
                                }
                            }
                            2 => {
                                clk.renew();
                                run.note(|| "renew".into());
                                k = 0;
                            }
                            3 => {
                                // the (time, step) form continues from here and leaves the clock alone
                                let before = clk.clone();
                                let mut d = clk.into_diff();
                                for j in k..k + 6 {
                                    let w = match within(j, dt, tmax, exact) {
                                        Some(w) => w,
                                        None => break,
                                    };
                                    let got = d.next();
                                    let ok = match got {
                                        Some((t, s)) => w && close(t, j as f64 * dt, 1e-3 * dt) && s == dt,
                                        None => !w,
                                    };
                                    run.ensure(ok, "diff-tick", || format!("step {} limit {}: tick {} with its step is {:?}", dt, tmax, j, got));
                                }
                                run.ensure(clk == before, "diff-effect", || "the (time, step) form moved the clock itself".into());
                            }
                            4 => {
                                let r = clk.set_tmax(-dt);
                                run.ensure(r.is_err(), "negative-limit", || format!("limit {} is accepted", -dt));
                            }
                            o => {
                                tmax = [0.0, 2.0 * dt, 2.5 * dt, 5.0 * dt, 6.75 * dt, 0.5 * dt][o as usize - 5];
                                let r = clk.set_tmax(tmax);
                                run.note(|| format!("limit {} -> {:?}", tmax, r.is_ok()));
                                run.ensure(r.is_ok(), "limit-refused", || format!("limit {} is refused", tmax));
                            }
                        }
                        run.step();
                        run.ensure(clk.dt() == dt, "dt", || format!("dt() = {}, expected {}", clk.dt(), dt));
                        run.ensure(close(clk.current_time(), k as f64 * dt, 1e-3 * dt), "current", || format!("current_time() = {} before tick {} of step {}", clk.current_time(), k, dt));
                        run.ensure(clk.titype == TimeType::Constant(dt), "type", || format!("{:?}", clk.titype));
                        if run.failed() {
                            return 0;
                        }
                    }
                    if k > 14 {
                        run.disabled();
                    }
                    run.observe(&k);
                    run.observe_f64(tmax);
                    hash_of(&(k, tmax.to_bits(), format!("{:?}", clk)))
                },
            );
        }
    }
    // complete runs
    let n = c.q(70_000usize, 2_000_000);
    c.family("complete", &format!("complete runs of up to {} ticks for all step sizes and limits of a grid, as clock, as for-loop, and in the (time, step) form; afterwards finished for good; rewound and repeated", n), move |run| {
        let dt = run.of(&[1.0, 0.25, 0.1, 3.7e-3, 1e-7, 1e-12, 2e-15, 512.0, 1e6, 2f64.powi(-30)]);
        let ticks = run.of(&[0.0, 0.4, 1.0, 1.5, 2.0, 7.0, 99.5, 1000.0, 1024.5, 2400.3, 65_536.5]);
        let way = run.pick(3);
        let form = run.pick(2);
        let exact = (dt as f64).log2().fract() == 0.0;
        let tmax = ticks * dt;
        if tmax != 0.0 && tmax < 1e-15 {
            return;
        }
        if !exact && ticks.fract() == 0.0 && ticks != 0.0 {
            return;
        }
        let mut clk = match make(dt, tmax, way) {
            Ok(c) => c,
            Err(e) => return run.fail("refused", format!("step {} limit {} is refused: {}", dt, tmax, e)),
        };
        run.note(|| format!("step {} limit {}", dt, tmax));
        for round in 0..2 {
            let mut k = 0usize;
            let mut diff = clk.into_diff();
            loop {
                if k > n {
                    break;
                }
                let got = if form == 0 { clk.next().map(|t| (t, dt)) } else { diff.next() };
                let w = within(k, dt, tmax, exact).unwrap();
                let ok = match got {
                    Some((t, s)) => w && (t - k as f64 * dt).abs() <= 1e-9 * (1.0 + k as f64) * dt && s == dt,
                    None => !w,
                };
                run.step();
                if !run.ensure(ok, "tick", || format!("step {} limit {} round {}: tick {} is {:?}", dt, tmax, round, k, got)) {
                    return;
                }
                if got.is_none() {
                    for _ in 0..3 {
                        let more = if form == 0 { clk.next().map(|t| (t, dt)) } else { diff.next() };
                        run.ensure(more.is_none(), "after-end", || format!("step {} limit {}: {:?} after the end", dt, tmax, more));
                    }
                    break;
                }
                k += 1;
            }
            run.observe(&k);
            clk.renew();
        }
    });
    c.family("exact-limits", "6 step sizes, exact binary fractions or not: the limit equal to each of the clock's own first 200 times, the next number below or the next above it, as clock and in the (time, step) form, set before or in the middle of the run or given as arguments", |run| {
        let dt = run.of(&[0.25, 0.1, 3e-7, 0.7, 1e-9, 123.4]);
        let k = 1 + run.pick(200);
        let side = run.pick(3);
        let form = run.pick(2);
        let way = run.pick(4);
        let mut free = match make(dt, 0.0, 0) {
            Ok(c) => c,
            Err(e) => return run.fail("refused", format!("step {} is refused: {}", dt, e)),
        };
        let times: Vec<f64> = (0..k + 3).filter_map(|_| free.next()).collect();
        if !run.ensure(times.len() == k + 3 && times.windows(2).all(|w| w[0] < w[1]), "tick", || format!("step {}: the times of a clock without limit are {:?}", dt, times)) {
            return;
        }
        let lim = match side { 0 => times[k], 1 => f64::from_bits(times[k].to_bits() - 1), _ => f64::from_bits(times[k].to_bits() + 1) };
        let mut got = vec![];
        let mut e = match make(dt, if way == 0 { 0.0 } else { lim }, way % 3) {
            Ok(c) => c,
            Err(e) => return run.fail("refused", format!("step {} limit {:e} is refused: {}", dt, lim, e)),
        };
        if way == 0 {
            (0..k / 2).for_each(|_| got.extend(e.next()));
            run.ensure(e.set_tmax(lim).is_ok(), "limit-refused", || format!("step {}: limit {:e} is refused", dt, lim));
        }
        let mut d = e.into_diff();
        for _ in 0..k + 9 {
            run.step();
            match if form == 0 { e.next() } else { d.next().map(|x| x.0) } { Some(t) => got.push(t), None => break }
        }
        let want = &times[..if side == 1 { k } else { k + 1 }];
        run.note(|| format!("step {} limit {:e} ({} time {})", dt, lim, ["at", "just below", "just above"][side], k));
        run.ensure(got == want, "exact-limit", || format!("step {} limit {:e}: {} ticks up to {:?}, expected {} up to {:?}", dt, lim, got.len(), got.last(), want.len(), want.last()));
        run.observe(&got.len());
    });
    c.family("smallest", "the smallest step size 1e-15 is valid, a limit of 1e-15 is a limit, anything below is none", |run| {
        let way = run.pick(3);
        let lim = run.of(&[1e-15, 0.99e-15, 1e-16, 1e-300]);
        match make(1e-15, lim, way) {
            Ok(mut e) => {
                let n = (0..40).take_while(|_| e.next().is_some()).count();
                run.step();
                run.ensure(if lim == 1e-15 { n == 2 } else { n == 40 }, "smallest", || format!("step 1e-15 limit {:e} way {}: {} ticks", lim, way, n));
                run.observe(&n);
            }
            Err(m) => run.fail("refused", format!("step 1e-15 limit {:e} is refused: {}", lim, m)),
        }
    });
    c.family("invalid", "zero, negative, too small and infinite step sizes, negative limits, and both no number, directly and from arguments", move |run| {
        let dt = run.of(&[0.0, -0.0, -1.0, -1e-9, 1e-16, -1e20, 1.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
        let tmax = run.of(&[0.0, 1.0, -1.0, -1e-14, -1e-3, -1e12, f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
        let way = run.pick(3);
        let bad = !(dt >= 1e-15 && dt < f64::INFINITY && tmax >= 0.0);
        let r = make(dt, tmax, way);
        run.step();
        run.note(|| format!("step {} limit {} way {}", dt, tmax, way));
        run.ensure(r.is_err() == bad, "invalid", || format!("step {} limit {}: {:?}", dt, tmax, r));
        run.observe(&(bad, way));
    });
    c.finish()
}
