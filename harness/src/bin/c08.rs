//! C08: the exponential clock keeps its step-size schedule.
use mcheck::util::*;
use mcheck::*;
use moledyn::prelude::{Argument, ExponentialStep, TimeIterator};

#[derive(Clone, Copy, Debug)]
struct Cfg {
    min: f64,
    max: f64,
    len: usize,
    /// 0 direct, 1 from arguments
    way: usize,
    tmax: f64,
    inc: Option<f64>,
}

fn make(c: &Cfg) -> Result<ExponentialStep, String> {
    let mut e = if c.way == 0 {
        let mut e = ExponentialStep::new(c.min, c.max, c.len).map_err(|e| format!("{:?}", e))?;
        e.set_tmax(c.tmax).map_err(|e| format!("{:?}", e))?;
        e
    } else {
        let w = [format!("{:e}", c.min), format!("{:e}", c.max), format!("{}", c.len), format!("{:e}", c.tmax)];
        let a = ExponentialStep::read_args_from_vec(&w).map_err(|e| format!("{:?}", e))?;
        catch(|| ExponentialStep::convert_from(&a))?
    };
    if let Some(i) = c.inc {
        e.set_inc(i).map_err(|e| format!("{:?}", e))?;
    }
    Ok(e)
}

/// The factor the statement promises.
fn factor(c: &Cfg) -> f64 {
    let half = if c.len <= 2 { 1.2 } else { c.len as f64 / 2.0 };
    match (c.inc, c.way) {
        (Some(f), _) => f.min(half),
        (None, 0) => if c.len < 10 { half } else { 10.0 },
        _ => 1.2,
    }
}

/// The schedule as the statement describes it.
#[derive(Clone, Debug)]
struct Sched {
    min: f64,
    max: f64,
    len: usize,
    factor: f64,
    dt: f64,
    used: usize,
    t: f64,
}

impl Sched {
    fn new(c: &Cfg) -> Self {
        Sched { min: c.min, max: c.max, len: c.len, factor: factor(c), dt: c.min, used: 0, t: 0.0 }
    }
    fn renew(&mut self) {
        self.dt = self.min;
        self.used = 0;
        self.t = 0.0;
    }
    /// Accepts the tick `(t, dt)`; `Err` says what is wrong.
    fn tick(&mut self, t: f64, dt: f64) -> Result<(), (&'static str, String)> {
        if !rel(t, self.t, 1e-9) {
            return Err(("time", format!("the time is {}, expected {}", t, self.t)));
        }
        if self.used == self.len && self.dt < self.max {
            // a new group begins
            let want = (self.dt * self.factor).min(self.max);
            if !rel(dt, want, 1e-9) {
                return Err(("factor", format!("the step is {} after {} ticks of {}, expected {}", dt, self.len, self.dt, want)));
            }
            self.dt = dt.min(self.max);
            self.used = 0;
        } else if !rel(dt, self.dt, 1e-9) {
            return Err(("changed-early", format!("the step is {} at tick {} of {} of a group with step {} (maximum {})", dt, self.used, self.len, self.dt, self.max)));
        }
        if dt > self.max * (1.0 + 1e-9) || dt < self.min * (1.0 - 1e-9) {
            return Err(("range", format!("the step {} is not between {} and {}", dt, self.min, self.max)));
        }
        self.used += 1;
        self.t = t + dt;
        Ok(())
    }
}

fn main() {
    let mut c = Check::new("C08");
    c.assume("a limit that a tick reaches only up to rounding is not decided");
    c.assume("limits below the smallest step size 1e-15 count as 0");
    // complete schedules
    let n = c.q(20_000usize, 300_000);
    c.family(
        "schedule",
        &format!("for a grid of (min, max, length, factor, limit), direct and from arguments, as clock or in the (time, step) form: up to {} ticks against the schedule; the maximum is reached; rewound after any of 5 numbers of ticks and repeated", n),
        move |run| {
            let min = run.of(&[1e-3, 1.0, 1e-10, 2e-15, 0.25]);
            let ratio = run.of(&[1.0, 1.5, 2.0, 10.0, 1e4, 1.2, 1e6, 100.00001, 99.99999, 2.250000225, 1.4400001]);
            let len = run.of(&[1usize, 2, 3, 4, 5, 9, 10, 11, 20, 64]);
            let way = run.pick(2);
            let inc = run.of(&[None, Some(1.05), Some(1.5), Some(10.0), Some(1e3)]);
            let limit = run.of(&[0.0, 3.3, 250.7]);
            let form = run.pick(2);
            let cut = run.of(&[0usize, 1, 3, 10, 40]);
            let cfg = Cfg { min, max: min * ratio, len, way, tmax: limit * min, inc };
            if way == 1 && len < 10 {
                return; // the arguments of a program need at least 10 ticks per step size
            }
            if cfg.tmax != 0.0 && cfg.tmax < 1e-14 {
                return;
            }
            run.note(|| format!("{:?}", cfg));
            let mut e = match make(&cfg) {
                Ok(e) => e,
                Err(m) => return run.fail("refused", format!("{:?} is refused: {}", cfg, m)),
            };
            let mut s = Sched::new(&cfg);
            for round in 0..3 {
                let todo = if round == 0 { cut } else if round == 1 { n } else { 3 * len + 2 };
                let mut diff = e.into_diff();
                for k in 0..todo {
                    let got = if form == 0 {
                        let before = e.current_time();
                        let t = e.next();
                        if t.is_some() && !run.ensure(Some(before) == t, "current", || format!("{:?}: current_time() was {} before tick {:?}", cfg, before, t)) {
                            return;
                        }
                        t.map(|t| (t, e.dt()))
                    } else {
                        diff.next()
                    };
                    run.step();
                    let near = cfg.tmax != 0.0 && rel(s.t, cfg.tmax, 1e-9);
                    let within = cfg.tmax == 0.0 || s.t <= cfg.tmax;
                    if near {
                        return;
                    }
                    match got {
                        None => {
                            run.ensure(!within, "stopped", || format!("{:?}: stopped before time {} at tick {}", cfg, s.t, k));
                            for _ in 0..3 {
                                let more = if form == 0 { e.next().map(|t| (t, 0.0)) } else { diff.next() };
                                run.ensure(more.is_none(), "after-end", || format!("{:?}: {:?} after the end", cfg, more));
                            }
                            break;
                        }
                        Some((t, dt)) => {
                            if !run.ensure(within, "beyond-limit", || format!("{:?}: tick {} at {} is beyond the limit", cfg, k, t)) {
                                return;
                            }
                            if let Err((key, m)) = s.tick(t, dt) {
                                return run.fail(key, format!("{:?} round {} tick {}: {}", cfg, round, k, m));
                            }
                        }
                    }
                }
                if round == 1 && cfg.tmax == 0.0 && n > 600 {
                    let groups = (ratio.ln() / factor(&cfg).ln()).ceil() as usize + 1;
                    if groups * len < n {
                        run.ensure(rel(s.dt, cfg.max, 1e-9), "maximum", || format!("{:?}: the step is {} after {} ticks, the maximum is never reached", cfg, s.dt, n));
                    }
                }
                e.renew();
                s.renew();
                run.observe_f64((s.factor * 1e9).round());
                run.ensure(rel(e.dt(), cfg.min, 1e-12) && e.current_time() == 0.0, "rewind", || format!("{:?}: after rewinding the step is {} and the time {}", cfg, e.dt(), e.current_time()));
            }
        },
    );
    c.family("long", "groups of 1000 to a million ticks and runs of 200000 ticks and more: every tick against the schedule, rewound and repeated", |run| {
        let len = run.of(&[1000usize, 4096, 65_535, 65_537, 100_000, 131_073, 1_000_003]);
        let ratio = run.of(&[1.0, 3.0, 1e9]);
        let inc = run.of(&[None, Some(1.5), Some(400.0)]);
        let way = run.pick(2);
        let cfg = Cfg { min: 1e-6, max: 1e-6 * ratio, len, way, tmax: 0.0, inc };
        run.note(|| format!("{:?}", cfg));
        let mut e = match make(&cfg) {
            Ok(e) => e,
            Err(m) => return run.fail("refused", format!("{:?} is refused: {}", cfg, m)),
        };
        let mut s = Sched::new(&cfg);
        for round in 0..2 {
            for k in 0..(if round == 0 { 200_000.max(2 * len + 3) } else { len + 3 }) {
                run.step();
                let got = e.next().map(|t| (t, e.dt()));
                match got {
                    None => return run.fail("stopped", format!("{:?}: stopped at tick {} without a limit", cfg, k)),
                    Some((t, dt)) => {
                        if let Err((key, m)) = s.tick(t, dt) {
                            return run.fail(key, format!("{:?} round {} tick {}: {}", cfg, round, k, m));
                        }
                    }
                }
            }
            run.observe_f64((s.dt * 1e15).round());
            e.renew();
            s.renew();
        }
    });
    c.family("factor-later", "the factor set once or twice after 0 ticks, in the middle, at either end of a group or later, after a refused one or not, rewound before or afterwards or not, continued in the (time, step) form or not: the schedule goes on with the new factor", |run| {
        let ratio = run.of(&[1.0, 50.0, 1e6]);
        let len = run.of(&[1usize, 2, 3, 4, 9, 10, 20, 40]);
        let way = if len >= 10 { run.pick(2) } else { 0 };
        let first = run.of(&[None, Some(1.5)]);
        let mut cfg = Cfg { min: 0.5, max: 0.5 * ratio, len, way, tmax: 0.0, inc: first };
        let mut e = match make(&cfg) {
            Ok(e) => e,
            Err(m) => return run.fail("refused", format!("{:?} is refused: {}", cfg, m)),
        };
        let mut s = Sched::new(&cfg);
        for _ in 0..1 + run.pick(2) {
            let before = run.of(&[0, 1, len - 1, len, len + 1, 3 * len + 1]);
            for k in 0..before {
                run.step();
                match e.next().map(|t| (t, e.dt())) {
                    None => return run.fail("stopped", format!("{:?}: stopped at tick {} without a limit", cfg, k)),
                    Some((t, dt)) => if let Err((key, m)) = s.tick(t, dt) {
                        return run.fail(key, format!("{:?} tick {}: {}", cfg, k, m));
                    },
                }
            }
            let rewind = run.pick(3);
            if rewind == 1 {
                e.renew();
                s.renew();
            }
            if run.flag() {
                let (t, dt) = (e.current_time(), e.dt());
                run.ensure(e.set_inc(1.0).is_err() && e.set_inc(f64::NAN).is_err() && e.current_time() == t && e.dt() == dt, "refused-factor", || format!("{:?}: factors of 1 or no number are accepted or change the clock", cfg));
            }
            let inc = run.of(&[1.05, 4.0, 1e3]);
            run.note(|| format!("{:?}: {} ticks, rewind {}, factor {}", cfg, before, rewind, inc));
            if let Err(m) = e.set_inc(inc) {
                return run.fail("refused", format!("{:?}: the factor {} is refused: {:?}", cfg, inc, m));
            }
            cfg.inc = Some(inc);
            s.factor = factor(&cfg);
            if rewind == 2 {
                e.renew();
                s.renew();
            }
        }
        let mut diff = if run.flag() { Some(e.into_diff()) } else { None };
        for k in 0..4 * len + 2 {
            run.step();
            let got = match &mut diff {
                None => e.next().map(|t| (t, e.dt())),
                Some(d) => d.next(),
            };
            match got {
                None => return run.fail("stopped", format!("{:?}: stopped at tick {} without a limit", cfg, k)),
                Some((t, dt)) => if let Err((key, m)) = s.tick(t, dt) {
                    return run.fail(key, format!("{:?} tick {} after the factor was set: {}", cfg, k, m));
                },
            }
        }
        run.observe_f64((s.factor * 1e9).round());
    });
    // histories
    let depth = c.q(14, 24);
    for (i, (min, max, len, way)) in [(0.5f64, 3.0f64, 3usize, 0usize), (1.0, 1.0, 2, 0), (0.125, 0.2, 1, 0), (1e-3, 1.0, 10, 1), (1e-9, 1e-3, 4, 0), (1.0, 2.0, 12, 1)].iter().enumerate() {
        let (min, max, len, way) = (*min, *max, *len, *way);
        c.bfs(
            &format!("history-{}", i),
            &format!("min {}, max {}, length {}: all histories up to length {} of next, next until the group is full, rewind, continue in the (time, step) form, set the limit (0, negative, small, large)", min, max, len, depth),
            9,
            depth,
            c.q(200_000, 2_000_000),
            move |run, hist| {
                let cfg = Cfg { min, max, len, way, tmax: 0.0, inc: None };
                let mut e = match make(&cfg) {
                    Ok(e) => e,
                    Err(m) => {
                        run.fail("refused", format!("{:?} is refused: {}", cfg, m));
                        return 0;
                    }
                };
                let mut s = Sched::new(&cfg);
                let mut tmax = 0.0f64;
                let mut total = 0;
                for &op in hist {
                    match op {
                        0 | 1 => {
                            let todo = if op == 0 { 1 } else { len };
                            for _ in 0..todo {
                                if tmax != 0.0 && rel(s.t, tmax, 1e-9) {
                                    run.disabled();
                                    return 0;
                                }
                                let within = tmax == 0.0 || s.t <= tmax;
                                let got = e.next();
                                run.note(|| format!("next -> {:?} step {}", got, e.dt()));
                                total += 1;
                                match got {
                                    None => {
                                        run.ensure(!within, "stopped", || format!("{:?}: stopped before {} (limit {})", cfg, s.t, tmax));
                                    }
                                    Some(t) => {
                                        run.ensure(within, "beyond-limit", || format!("{:?}: tick at {} beyond the limit {}", cfg, t, tmax));
                                        if let Err((k, m)) = s.tick(t, e.dt()) {
                                            run.fail(k, m);
                                        }
                                    }
                                }
                                if run.failed() {
                                    return 0;
                                }
                            }
                        }
                        2 => {
                            e.renew();
                            s.renew();
                            run.note(|| "rewind".into());
                        }
                        3 => {
                            let before = e.clone();
                            let mut d = e.into_diff();
                            let mut s2 = s.clone();
                            for _ in 0..len + 2 {
                                if tmax != 0.0 && rel(s2.t, tmax, 1e-9) {
                                    break;
                                }
                                let within = tmax == 0.0 || s2.t <= tmax;
                                match d.next() {
                                    None => {
                                        run.ensure(!within, "diff-stopped", || format!("{:?}: (time, step) form stopped before {}", cfg, s2.t));
                                        break;
                                    }
                                    Some((t, dt)) => {
                                        run.ensure(within, "diff-beyond", || format!("{:?}: (time, step) tick at {} beyond the limit {}", cfg, t, tmax));
                                        if let Err((k, m)) = s2.tick(t, dt) {
                                            run.fail(k, format!("(time, step) form: {}", m));
                                        }
                                    }
                                }
                            }
                            run.ensure(e == before, "diff-effect", || "the (time, step) form moved the clock itself".into());
                        }
                        4 => {
                            run.ensure(e.set_tmax(-1.0).is_err(), "negative-limit", || "a negative limit is accepted".into());
                        }
                        o => {
                            tmax = [0.0, 2.5 * min, 1.3 * min * len as f64, 3.7 * max][o as usize - 5];
                            let r = e.set_tmax(tmax);
                            run.note(|| format!("limit {}", tmax));
                            run.ensure(r.is_ok(), "limit-refused", || format!("limit {} is refused", tmax));
                        }
                    }
                    run.step();
                    if run.failed() {
                        return 0;
                    }
                }
                if total > 40 {
                    run.disabled();
                }
                run.observe(&s.used);
                run.observe_f64(s.t);
                hash_of(&(format!("{:?}", e), tmax.to_bits()))
            },
        );
    }
    c.family("exact-limits", "settings whose times are exact binary fractions: the limit equal to each of the first 60 times, the next number below or the next above it, as clock and in the (time, step) form, set before or in the middle of the run", |run| {
        let (min, max, len, inc) = run.of(&[(0.25, 8.0, 4usize, None), (0.5, 0.5, 1, None), (1.0, 64.0, 8, Some(4.0)), (0.125, 1.0, 3, None), (0.25, 3.0, 20, Some(2.0)), (2f64.powi(-45), 1.0, 6, Some(2.0))]);
        let k = run.pick(60);
        let side = run.pick(3);
        let form = run.pick(2);
        let late = run.flag();
        let cfg = Cfg { min, max, len, way: 0, tmax: 0.0, inc };
        let mut s = Sched::new(&cfg);
        let mut times = vec![];
        let (mut t, mut dt, mut used) = (0.0f64, min, 0);
        for _ in 0..62 {
            times.push(t);
            if used == len && dt < max {
                dt = (dt * s.factor).min(max);
                used = 0;
            }
            t += dt;
            used += 1;
        }
        let tk = times[k];
        let lim = match side { 0 => tk, 1 => f64::from_bits(tk.to_bits().wrapping_sub(1)), _ => f64::from_bits(tk.to_bits() + 1) };
        if k == 0 {
            return; // a limit of 0 is none
        }
        let mut e = make(&cfg).expect("HARNESS: valid clock");
        let mut got = vec![];
        let early = if late { k / 2 } else { 0 };
        for _ in 0..early {
            let t = e.next().unwrap_or(f64::NAN);
            let _ = s.tick(t, e.dt());
            got.push(t);
        }
        run.ensure(e.set_tmax(lim).is_ok(), "limit-refused", || format!("{:?}: limit {} is refused", cfg, lim));
        let mut d = e.into_diff();
        for _ in 0..80 {
            let x = if form == 0 { e.next() } else { d.next().map(|x| x.0) };
            run.step();
            match x { Some(t) => got.push(t), None => break }
        }
        let want: Vec<f64> = times.iter().cloned().take(if side == 1 { k } else { k + 1 }).collect();
        run.note(|| format!("{:?} limit {:e} ({} of time {})", cfg, lim, ["at", "just below", "just above"][side], k));
        run.ensure(got == want, "exact-limit", || format!("{:?} with limit {:e}: {} ticks up to {:?}, expected {} up to {:?}", cfg, lim, got.len(), got.last(), want.len(), want.last()));
        run.observe(&got.len());
    });
    c.family("smallest", "the smallest step size 1e-15 is valid, a limit of 1e-15 is a limit, anything below is none", |run| {
        let way = run.pick(2);
        let lim = run.of(&[1e-15, 0.99e-15, 1e-16, 1e-300]);
        let cfg = Cfg { min: 1e-15, max: run.of(&[1e-15, 1.0]), len: 12, way, tmax: lim, inc: None };
        match make(&cfg) {
            Ok(mut e) => {
                let n = (0..40).take_while(|_| e.next().is_some()).count();
                run.step();
                run.ensure(if lim == 1e-15 { n == 2 } else { n == 40 }, "smallest", || format!("{:?}: {} ticks", cfg, n));
                run.observe(&n);
            }
            Err(m) => run.fail("refused", format!("{:?} is refused: {}", cfg, m)),
        }
    });
    c.family("invalid", "all combinations of valid and invalid step sizes, lengths, limits and factors, directly and from arguments", move |run| {
        let min = run.of(&[1.0, 0.0, -1.0, 1e-17, -1e-9, f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
        let max = run.of(&[2.0, 1.0, 0.5, 0.0, -3.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
        let len = run.of(&[10usize, 0, 12]);
        let tmax = run.of(&[0.0, 5.0, -1.0, -1e-12, f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
        let way = run.pick(2);
        let cfg = Cfg { min, max, len, way, tmax, inc: None };
        let bad = !(min >= 1e-15 && min < f64::INFINITY && max >= min && len > 0 && tmax >= 0.0);
        let r = make(&cfg);
        run.step();
        run.note(|| format!("{:?} -> {}", cfg, r.is_ok()));
        run.ensure(r.is_err() == bad, "invalid", || format!("{:?}: {:?}", cfg, r));
        if let Ok(mut e) = r {
            let before = e.clone();
            for f in [1.0, 0.999, 0.0, -2.0, f64::NAN, f64::NEG_INFINITY] {
                let r = e.set_inc(f);
                run.ensure(r.is_err() && e == before, "factor", || format!("factor {} is accepted ({:?})", f, e));
            }
            run.ensure(e.set_inc(1.3).is_ok(), "factor-refused", || "factor 1.3 is refused".into());
        }
        run.observe(&bad);
    });
    c.finish()
}
