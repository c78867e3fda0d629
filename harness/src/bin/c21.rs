//! C21: first-passage runs end at the first crossing and depend on parameters and draws only.
//!
//! The loops of the repository's examples and integration tests are run on the real components;
//! a reference model follows them draw by draw.
use mcheck::geo::*;
use mcheck::util::*;
use mcheck::*;
use moledyn::agent_mod::{
    cont_passive_exp::ContPassiveExpAgent, cont_passive_indep::ContPassiveIndepAgent, cont_passive_lj::ContPassiveLJAgent, cont_passive_merge::ContPassiveMergeAgent,
};
use moledyn::prelude::*;
use rand::{Error as RngError, Rng, RngCore};
use rand_distr::StandardNormal;

const NEAR: f64 = 1e-9;
const LIMIT: u64 = 100_000;

/// The draws of one call, decoded independently.
struct Tape<'a> {
    log: &'a [u64],
    at: usize,
}

impl RngCore for Tape<'_> {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        let v = self.log.get(self.at).copied().unwrap_or(0);
        self.at += 1;
        v
    }
    fn fill_bytes(&mut self, _: &mut [u8]) {
        unimplemented!()
    }
    fn try_fill_bytes(&mut self, _: &mut [u8]) -> Result<(), RngError> {
        unimplemented!()
    }
}

fn gaussians(log: &[u64], n: usize) -> Option<Vec<f64>> {
    let mut t = Tape { log, at: 0 };
    let v = (0..n).map(|_| t.sample(StandardNormal)).collect();
    if t.at == log.len() {
        Some(v)
    } else {
        None
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Clock {
    Const(f64),
    Exp(f64, f64, usize),
}

/// The k-th tick: its time and the step that follows it.
fn ticks(c: Clock, inc: f64, n: usize) -> Vec<(f64, f64)> {
    let mut t = 0.0;
    let mut v = vec![];
    for k in 0..n {
        let d = match c {
            Clock::Const(d) => d,
            Clock::Exp(lo, hi, len) => (lo * inc.powi((k / len) as i32)).min(hi),
        };
        v.push((t, d));
        t += d;
    }
    v
}

#[derive(Clone, Debug)]
struct Cfg {
    sh: Shape,
    centre: Vec<f64>,
    radius: f64,
    clock: Clock,
    /// ticks within the limit
    n_ticks: usize,
    n_agents: usize,
    d: f64,
    /// kind specific: particle radius and exponent, range and strength
    a: f64,
    b: f64,
    /// components from the words of a command line
    args: bool,
    /// loops over the diff iterator without the first tick, or over a renewed clock from tick 0
    skip: bool,
    ensembles: usize,
}

#[derive(Clone, Debug)]
struct Walker {
    x: Vec<f64>,
    alive: bool,
    size: usize,
}

trait Part: Sized + std::fmt::Debug {
    const NAME: &'static str;
    const FORCE: bool = false;
    const MERGE: bool = false;
    fn direct(c: &Cfg, sys: &dyn SystemCore<f64>, t: &ContBulkTarget, rng: &mut Pcg64) -> Result<Self, Error>;
    fn words(c: &Cfg) -> Vec<String>;
    fn from_words(w: &[String]) -> Result<Vec<Self>, Error>;
    fn renew(&mut self, sys: &dyn SystemCore<f64>, t: &ContBulkTarget, rng: &mut Pcg64) -> Result<(), Error>;
    fn place(&mut self) -> &mut Position<f64>;
    fn at(&self) -> &[f64];
    fn go(&self, rng: &mut Pcg64, dt: f64, v: &mut Position<f64>) -> Result<(), Error>;
    /// displacements by the forces of one step
    fn push(_l: &mut LinkedList<Self>, _m: &mut LinkedList<Position<f64>>, _dt: f64, _disp: &mut Position<f64>) -> Result<(), Error> {
        Ok(())
    }
    /// minus the derivative of the potential
    fn pull(_c: &Cfg, _r: f64) -> f64 {
        0.0
    }
    fn meet(_l: &mut LinkedList<Self>, _radius: f64) -> Result<(), Error> {
        Ok(())
    }
    fn cluster(&self) -> usize {
        1
    }
}

fn real(x: f64) -> String {
    format!("{:?}", x)
}

macro_rules! common {
    () => {
        fn from_words(w: &[String]) -> Result<Vec<Self>, Error> {
            Ok(Self::convert_from(&Self::read_args_from_vec(w)?))
        }
        fn renew(&mut self, sys: &dyn SystemCore<f64>, t: &ContBulkTarget, rng: &mut Pcg64) -> Result<(), Error> {
            self.renew_uniform(sys, t, rng)
        }
        fn place(&mut self) -> &mut Position<f64> {
            &mut self.pos
        }
        fn at(&self) -> &[f64] {
            &self.pos.coordinate
        }
        fn go(&self, rng: &mut Pcg64, dt: f64, v: &mut Position<f64>) -> Result<(), Error> {
            self.random_move_to_vec(rng, dt, v)
        }
    };
}

macro_rules! forces {
    () => {
        const FORCE: bool = true;
        fn push(l: &mut LinkedList<Self>, m: &mut LinkedList<Position<f64>>, dt: f64, disp: &mut Position<f64>) -> Result<(), Error> {
            l.into_double_iter();
            while let Some((i, s, j, t)) = l.enumerate_double() {
                let r = s.mutual_displacement_to_vec(t, disp)?;
                let f = s.force(r) * dt;
                disp.mut_scalar_mul(f);
                m.contents[i].mut_sub(disp);
                m.contents[j].mut_add(disp);
            }
            Ok(())
        }
    };
}

impl Part for ContPassiveIndepAgent {
    const NAME: &'static str = "independent";
    common!();
    fn direct(c: &Cfg, sys: &dyn SystemCore<f64>, t: &ContBulkTarget, rng: &mut Pcg64) -> Result<Self, Error> {
        Self::new_uniform(sys, t, rng, MoveType::Brownian(c.d))
    }
    fn words(c: &Cfg) -> Vec<String> {
        vec![real(c.d), "Uniform".into(), c.n_agents.to_string()]
    }
}

impl Part for ContPassiveMergeAgent {
    const NAME: &'static str = "merging";
    const MERGE: bool = true;
    common!();
    fn direct(c: &Cfg, sys: &dyn SystemCore<f64>, t: &ContBulkTarget, rng: &mut Pcg64) -> Result<Self, Error> {
        Self::new_uniform(sys, t, rng, MoveType::Brownian(c.d), c.a, c.b)
    }
    fn words(c: &Cfg) -> Vec<String> {
        vec![real(c.d), "Uniform".into(), real(c.a), real(c.b), c.n_agents.to_string()]
    }
    fn meet(l: &mut LinkedList<Self>, radius: f64) -> Result<(), Error> {
        l.into_double_iter();
        while let Some((i, s, j, t)) = l.enumerate_double() {
            let d = s.pos().distance(t.pos())?;
            if d < 2.0 * radius {
                l.merge(i, j)?;
            }
        }
        Ok(())
    }
    fn cluster(&self) -> usize {
        self.size()
    }
}

impl Part for ContPassiveExpAgent {
    const NAME: &'static str = "exponential";
    common!();
    forces!();
    fn direct(c: &Cfg, sys: &dyn SystemCore<f64>, t: &ContBulkTarget, rng: &mut Pcg64) -> Result<Self, Error> {
        Self::new_uniform(sys, t, rng, InteractType::Exponential(c.sh.dim(), c.a), MoveType::Brownian(c.d), c.b)
    }
    fn words(c: &Cfg) -> Vec<String> {
        vec![real(c.d), "Uniform".into(), real(c.a), c.sh.dim().to_string(), real(c.b), c.n_agents.to_string()]
    }
    fn pull(c: &Cfg, r: f64) -> f64 {
        c.b / c.a * (-r / c.a).exp()
    }
}

impl Part for ContPassiveLJAgent {
    const NAME: &'static str = "lennard-jones";
    common!();
    forces!();
    fn direct(c: &Cfg, sys: &dyn SystemCore<f64>, t: &ContBulkTarget, rng: &mut Pcg64) -> Result<Self, Error> {
        Self::new_uniform(sys, t, rng, InteractType::LennardJones(c.a), MoveType::Brownian(c.d), c.b)
    }
    fn words(c: &Cfg) -> Vec<String> {
        vec![real(c.d), "Uniform".into(), real(c.a), real(c.b), c.n_agents.to_string()]
    }
    fn pull(c: &Cfg, r: f64) -> f64 {
        4.0 * c.b * (12.0 * (c.a / r).powi(12) - 6.0 * (c.a / r).powi(6)) / r
    }
}

fn dist(a: &[f64], b: &[f64]) -> f64 {
    norm(&a.iter().zip(b).map(|(x, y)| x - y).collect::<Vec<_>>())
}

fn same(a: &[f64], b: &[f64], size: f64) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| (x - y).abs() <= 1e-7 * size)
}

/// `Undecided`: the model came too close to a decision, the rest is not compared.
enum Stop {
    Undecided,
    Failed,
}

/// The accepted proposal among the draws, if they are one placement.
fn placement(cfg: &Cfg, log: &[u64]) -> Result<Vec<f64>, String> {
    let dim = cfg.sh.dim();
    if log.is_empty() || log.len() % dim != 0 {
        return Err(format!("{} draws for a position of dimension {}", log.len(), dim));
    }
    let n = log.len() / dim;
    for (k, g) in log.chunks(dim).enumerate() {
        let x: Vec<f64> = g
            .iter()
            .enumerate()
            .map(|(i, &b)| {
                let half = match cfg.sh {
                    Shape::Cyl(r, l, k, _) => if i < k { r } else { l },
                    s => s.size(),
                };
                (2.0 * open01(b) - 1.0) * half
            })
            .collect();
        let depth = cfg.sh.depth(&x);
        let d = dist(&x, &cfg.centre);
        let good = depth > 0.0 && d >= cfg.radius;
        let near = depth.abs() < NEAR || (d - cfg.radius).abs() < NEAR;
        if k + 1 == n {
            if good || near {
                return Ok(x);
            }
            return Err(format!("the proposal {:?} outside the system or on the target is taken", x));
        }
        if good && !near {
            return Err(format!("the proposal {:?} is dropped", x));
        }
    }
    unreachable!()
}

/// Runs all ensembles; `script` installs the draws of the last one.
fn simulate<P: Part>(run: &mut Run, cfg: &Cfg, mut script: impl FnMut(&mut Run, usize)) {
    let bad = |run: &mut Run, key: &str, m: String| {
        run.fail(key, format!("{} agents, {:?}: {}", P::NAME, cfg, m));
        Stop::Failed
    };
    let r = (|| -> Result<(), Stop> {
        let sh = cfg.sh;
        let (dim, size) = (sh.dim(), sh.size());
        let held = if cfg.args { sh.sys_from_args() } else { sh.sys() };
        let sys = held.dynamic();
        let target = ContBulkTarget::new(pos(&cfg.centre), cfg.radius);
        macro_rules! lib {
            ($e:expr, $what:expr) => {
                match catch(|| $e) {
                    Ok(Ok(x)) => x,
                    Ok(Err(e)) => return Err(bad(run, "error", format!("{} failed: {:?}", $what, e))),
                    Err(e) => return Err(bad(run, "panic", format!("{} panicked: {}", $what, e))),
                }
            };
        }
        // the limit lies half a step behind the last tick
        let (mut con, mut exp) = (None, None);
        let list = match cfg.clock {
            Clock::Const(dt) => {
                let t = ticks(cfg.clock, 1.0, cfg.n_ticks + 1);
                let max = (t[cfg.n_ticks - 1].0 + t[cfg.n_ticks].0) / 2.0;
                con = Some(if cfg.args {
                    lib!(ConstStep::read_args_from_vec(&[real(dt), real(max)]).map(|a| ConstStep::convert_from(&a)), "the clock")
                } else {
                    lib!(ConstStep::new(dt).and_then(|mut c| c.set_tmax(max).map(|_| c)), "the clock")
                });
                t
            }
            Clock::Exp(lo, hi, len) => {
                let mut c = lib!(
                    if cfg.args {
                        ExponentialStep::read_args_from_vec(&[real(lo), real(hi), len.to_string(), "0".into()]).map(|a| ExponentialStep::convert_from(&a))
                    } else {
                        ExponentialStep::new(lo, hi, len)
                    },
                    "the clock"
                );
                let t = ticks(cfg.clock, c.inc, cfg.n_ticks + 1);
                let max = (t[cfg.n_ticks - 1].0 + t[cfg.n_ticks].0) / 2.0;
                lib!(c.set_tmax(max), "the clock");
                exp = Some(c);
                t
            }
        };
        let mut rng = rng_seed(4711);
        run.fixed_rng(vec![], LIMIT);
        let mut vec: Vec<P> = vec![];
        if cfg.args {
            vec = lib!(P::from_words(&P::words(cfg)), "the agents");
        } else {
            for _ in 0..cfg.n_agents {
                vec.push(lib!(P::direct(cfg, sys, &target, &mut rng), "a uniform agent"));
            }
        }
        if vec.len() != cfg.n_agents {
            return Err(bad(run, "number", format!("{} agents instead of {}", vec.len(), cfg.n_agents)));
        }
        let mut agents = LinkedList::from(vec);
        let mut moves = LinkedList::from(vec![pos(&vec![0.0; dim]); cfg.n_agents]);
        let mut disp = pos(&vec![0.0; dim]);
        let cap = 0.25 * size;
        let mut fpts: Vec<Option<f64>> = vec![];
        for ens in 0..cfg.ensembles {
            // -------- begin
            script(run, ens);
            script::take_log();
            lib!(agents.connect_all(), "connect_all");
            let mut model: Vec<Walker> = vec![];
            for i in 0..cfg.n_agents {
                lib!(agents.contents[i].renew(sys, &target, &mut rng), "renew_uniform");
                let x = match placement(cfg, &script::take_log()) {
                    Ok(x) => x,
                    Err(e) => return Err(bad(run, "placement", format!("agent {} of ensemble {}: {}", i, ens, e))),
                };
                let got = agents.contents[i].at();
                if !run.ensure(same(got, &x, size), "placement", || format!("{} agents, {:?}: agent {} of ensemble {} is placed at {:?}, its draws stand for {:?}", P::NAME, cfg, i, ens, got, x)) {
                    return Err(Stop::Failed);
                }
                // the model goes on from the real value: errors do not add up
                model.push(Walker { x: got.to_vec(), alive: true, size: 1 });
            }
            // -------- walk
            let mut fpt: Option<f64> = None;
            let mut real_fpt: Option<f64> = None;
            let first = if cfg.skip { 1 } else { 0 };
            let mut k = first;
            if let Some(c) = con.as_mut() {
                c.renew();
            }
            if let Some(c) = exp.as_mut() {
                c.renew();
            }
            let mut iter_con = con.map(|c| c.into_diff().skip(first));
            let mut iter_exp = exp.map(|c| c.into_diff().skip(first));
            'outer: loop {
                let next: Option<(f64, f64)> = if cfg.skip {
                    match (&mut iter_con, &mut iter_exp) {
                        (Some(c), _) => c.next(),
                        (_, Some(c)) => c.next(),
                        _ => unreachable!(),
                    }
                } else {
                    match (&mut con, &mut exp) {
                        (Some(c), _) => c.next().map(|t| (t, c.dt())),
                        (_, Some(c)) => c.next().map(|t| (t, c.dt())),
                        _ => unreachable!(),
                    }
                };
                let want = if k < cfg.n_ticks { Some(list[k]) } else { None };
                let (time, dt) = match (next, want) {
                    (None, None) => break,
                    (Some(a), Some(b)) if rel(a.0, b.0, 1e-9) && rel(a.1, b.1, 1e-9) => a,
                    (a, b) => return Err(bad(run, "clock", format!("tick {} of ensemble {} is {:?}, expected {:?}", k, ens, a, b))),
                };
                k += 1;
                moves.clear();
                if P::FORCE {
                    lib!(P::push(&mut agents, &mut moves, dt, &mut disp), "the forces");
                }
                let mut expect: Vec<Vec<f64>> = vec![vec![0.0; dim]; cfg.n_agents];
                if P::FORCE {
                    for i in 0..cfg.n_agents {
                        for j in i + 1..cfg.n_agents {
                            if !(model[i].alive && model[j].alive) {
                                continue;
                            }
                            let r = dist(&model[i].x, &model[j].x);
                            if r < 1e-6 * size {
                                return Err(Stop::Undecided);
                            }
                            let f = P::pull(cfg, r) * dt;
                            for c in 0..dim {
                                let u = (model[j].x[c] - model[i].x[c]) / r;
                                expect[i][c] -= u * f;
                                expect[j][c] += u * f;
                            }
                        }
                    }
                }
                let order: Vec<usize> = (0..cfg.n_agents).filter(|i| model[*i].alive).collect();
                let mut at = 0;
                agents.into_iter();
                while let Some((idx, agent)) = agents.enumerate_mut() {
                    if order.get(at) != Some(&idx) {
                        return Err(bad(run, "order", format!("tick {} of ensemble {}: agent {} is visited, expected {:?}", k - 1, ens, idx, order.get(at))));
                    }
                    at += 1;
                    run.step();
                    script::take_log();
                    let mv = &mut moves.contents[idx];
                    lib!(agent.go(&mut rng, dt, mv), "random_move_to_vec");
                    let log = script::take_log();
                    let g = match gaussians(&log, dim) {
                        Some(g) => g,
                        None => return Err(bad(run, "draws", format!("a move in {} dimensions took {} draws", dim, log.len()))),
                    };
                    let w = &mut model[idx];
                    let d = if P::MERGE { cfg.d * (w.size as f64).powf(-cfg.b) } else { cfg.d };
                    for c in 0..dim {
                        expect[idx][c] += (2.0 * d * dt).sqrt() * g[c];
                    }
                    // as in examples/mfpt_exp.rs
                    if P::FORCE {
                        let n = mv.norm() / cap;
                        if n > 1.0 {
                            mv.mut_scalar_mul(1.0 / n);
                        }
                        let n = norm(&expect[idx]) / cap;
                        if n > 1.0 {
                            for x in &mut expect[idx] {
                                *x /= n;
                            }
                        }
                    }
                    let scale = norm(&expect[idx]).max(size);
                    if !run.ensure(same(&mv.coordinate, &expect[idx], scale), "move", || {
                        format!("{} agents, {:?}: tick {} of ensemble {}: agent {} of size {} moves by {:?}, expected {:?}", P::NAME, cfg, k - 1, ens, idx, w.size, mv.coordinate, expect[idx])
                    }) {
                        return Err(Stop::Failed);
                    }
                    let end: Vec<f64> = w.x.iter().zip(&mv.coordinate).map(|(a, b)| a + b).collect();
                    let (fold, margin) = sh.fold(&end);
                    let r = catch(|| sys.check_bc(agent.place(), mv));
                    match (r, fold) {
                        (Err(e), _) => return Err(bad(run, "panic", format!("check_bc panicked: {}", e))),
                        (Ok(Err(_)), None) => return Err(Stop::Undecided),
                        _ if margin < NEAR => return Err(Stop::Undecided),
                        (Ok(Err(e)), Some(x)) => return Err(bad(run, "refused", format!("check_bc refuses a move from {:?} to {:?}, inside at {:?}: {:?}", w.x, end, x, e))),
                        (Ok(Ok(_)), None) => return Err(bad(run, "accepted", format!("check_bc accepts a move from {:?} to {:?}", w.x, end))),
                        (Ok(Ok(_)), Some(x)) => {
                            let got = agent.at().to_vec();
                            run.ensure(sh.depth(&got) > -NEAR, "outside", || format!("{} agents, {:?}: the walker is at {:?}, outside", P::NAME, cfg, got));
                            if !run.ensure(same(&got, &x, size), "path", || format!("{} agents, {:?}: a move from {:?} to {:?} ends at {:?}, expected {:?}", P::NAME, cfg, w.x, end, got, x)) {
                                return Err(Stop::Failed);
                            }
                            w.x = got;
                        }
                    }
                    let gap = dist(&w.x, &cfg.centre) - cfg.radius;
                    if gap.abs() < NEAR * size {
                        return Err(Stop::Undecided);
                    }
                    let found = lib!(target.check_find(agent.place()), "check_find");
                    if gap < 0.0 {
                        fpt = Some(list[k - 1].0);
                    }
                    if found {
                        real_fpt = Some(time);
                    }
                    if found || gap < 0.0 {
                        break 'outer;
                    }
                }
                if at != order.len() {
                    return Err(bad(run, "order", format!("tick {} of ensemble {}: only {} of {} live agents are visited", k - 1, ens, at, order.len())));
                }
                if P::MERGE {
                    lib!(P::meet(&mut agents, cfg.a), "the merging");
                    for i in 0..cfg.n_agents {
                        for j in i + 1..cfg.n_agents {
                            if !(model[i].alive && model[j].alive) {
                                continue;
                            }
                            let d = dist(&model[i].x, &model[j].x);
                            if (d - 2.0 * cfg.a).abs() < NEAR * size {
                                return Err(Stop::Undecided);
                            }
                            if d < 2.0 * cfg.a {
                                let s = model[j].size;
                                model[i].size += s;
                                model[j].alive = false;
                            }
                        }
                    }
                    for (i, w) in model.iter().enumerate() {
                        let s = agents.contents[i].cluster();
                        run.ensure(!w.alive || s == w.size, "size", || format!("{:?}: tick {} of ensemble {}: cluster {} has size {}, expected {}", cfg, k - 1, ens, i, s, w.size));
                        run.ensure(!w.alive || agents.contents[i].at() == &w.x[..], "merged-position", || format!("{:?}: cluster {} moved when it merged", cfg, i));
                    }
                }
                if run.failed() {
                    return Err(Stop::Failed);
                }
                run.state(&model.iter().map(|w| (w.alive, w.size, w.x.iter().map(|x| (x * 1e6) as i64).collect::<Vec<_>>())).collect::<Vec<_>>());
            }
            let ok = match (real_fpt, fpt) {
                (None, None) => true,
                (Some(a), Some(b)) => rel(a, b, 1e-9),
                _ => false,
            };
            run.ensure(ok, "fpt", || format!("{} agents, {:?}: ensemble {}: the first passage is at {:?}, expected {:?}", P::NAME, cfg, ens, real_fpt, fpt));
            fpts.push(real_fpt);
        }
        run.observe(&format!("{:?}", fpts));
        Ok(())
    })();
    match r {
        Ok(()) | Err(Stop::Failed) => (),
        Err(Stop::Undecided) => run.note(|| "too close to a decision: not followed further".to_string()),
    }
}

fn by_kind(run: &mut Run, kind: usize, cfg: &Cfg, script: impl FnMut(&mut Run, usize)) {
    match kind {
        0 => simulate::<ContPassiveIndepAgent>(run, cfg, script),
        1 => simulate::<ContPassiveMergeAgent>(run, cfg, script),
        2 => simulate::<ContPassiveExpAgent>(run, cfg, script),
        _ => simulate::<ContPassiveLJAgent>(run, cfg, script),
    }
}

fn layer(u: f64, l: u64) -> u64 {
    bits_for(u) & !0xff | l
}

fn systems() -> Vec<(Shape, Vec<f64>, f64)> {
    vec![
        (Shape::Ball(1.0, 2), vec![0.0, 0.0], 0.25),
        (Shape::Ball(0.8, 1), vec![0.3], 0.1),
        (Shape::boxed(1.0, 2, 1, 0), vec![0.5, 0.5], 0.3),
        (Shape::boxed(1.0, 2, 0, 0), vec![-0.2, 0.6], 0.3),
        (Shape::boxed(1.2, 2, 2, 1), vec![0.0, 1.0], 0.4),
        (Shape::Cyl(0.9, 1.3, 1, 2), vec![0.1, -0.9], 0.3),
        (Shape::Ball(1.1, 3), vec![0.0, 0.4, 0.0], 0.5),
        (Shape::Cyl(0.8, 1.0, 2, 3), vec![0.0, 0.0, 0.8], 0.45),
    ]
}

fn clock(i: usize, d: f64) -> (Clock, bool) {
    match i {
        0 => (Clock::Const(0.02 / d), false),
        1 => (Clock::Exp(0.01 / d, 0.05 / d, 2), false),
        2 => (Clock::Const(0.03 / d), true),
        _ => (Clock::Exp(0.02 / d, 0.025 / d, 10), true),
    }
}

fn main() {
    mute_stdout();
    let mut c = Check::new("C21");
    c.assume("a run is followed until a walker comes within 1e-9 (relative) of a decision (wall, fold limit, target, merging distance) or check_bc rightly refuses a displacement");
    c.assume("the loops are those of examples/mfpt_exp.rs, tests/merge_fpt.rs and tests/large_n_simulation.rs, written in the check");
    // uniform: where in the system; Gaussian: a layer near 1 standard deviation
    let al: Vec<u64> = vec![layer(0.13, 128), layer(0.42, 100), layer(0.61, 60), layer(0.93, 128)];
    let h = c.q(7usize, 9);
    let a1 = al.clone();
    c.family("one-walker", &format!("4 kinds x 8 systems x 4 clocks (direct and from arguments) x 2 loops, one walker, 8 ticks: the first {} draws (placement and moves) each from 4 values", h), move |run| {
        let kind = run.pick(4);
        let (sh, centre, radius) = run.of(&systems());
        let (ck, args) = clock(run.pick(4), 0.7);
        let skip = run.flag();
        let cfg = Cfg { sh, centre, radius, clock: ck, n_ticks: 8, n_agents: 1, d: 0.7, a: 0.2, b: 0.5, args, skip, ensembles: 1 };
        let a1 = a1.clone();
        by_kind(run, kind, &cfg, |run, _| run.script_rng(&a1, h, LIMIT));
    });
    let h = c.q(7usize, 9);
    let a2 = al.clone();
    c.family("ensembles", &format!("4 kinds x 4 systems x 4 clocks x 2 loops, 3 agents, 3 ensembles of up to 6 ticks: first ensemble one of 3 histories, second one of 3, the first {} draws of the third each from 3 values", h), move |run| {
        let kind = run.pick(4);
        let all = systems();
        let (sh, centre, radius) = all[[0, 2, 4, 5][run.pick(4)]].clone();
        let (ck, args) = clock(run.pick(4), 0.5);
        let skip = run.flag();
        let cfg = Cfg { sh, centre, radius, clock: ck, n_ticks: 6, n_agents: 3, d: 0.5, a: 0.25, b: 0.8, args, skip, ensembles: 3 };
        let a2 = a2[..3].to_vec();
        by_kind(run, kind, &cfg, |run, e| {
            if e < 2 {
                let s = run.pick(3);
                // three histories that place the agents apart, close together, and as they come
                let seq: Vec<u64> = match s {
                    0 => (0..40).map(|i| a2[i % 3]).collect(),
                    1 => (0..40).map(|i| a2[(i / 2) % 2 * 2] + ((i as u64 * 37) << 44)).collect(),
                    _ => vec![],
                };
                run.fixed_rng(seq, LIMIT)
            } else {
                run.script_rng(&a2, h, LIMIT)
            }
        });
    });
    let h = c.q(9usize, 11);
    let a3 = al.clone();
    c.family("merging", &format!("2 to 4 merging agents with exponents 0, 1 and 0.5 and 2 radii in 4 systems of 1 and 2 dimensions, 5 ticks: the first {} draws each from 3 values", h), move |run| {
        let n = 2 + run.pick(3);
        let (sh, centre, radius) = run.of(&[
            (Shape::Ball(0.8, 1), vec![0.7], 0.05),
            (Shape::boxed(1.0, 1, 1, 0), vec![0.0], 0.02),
            (Shape::Ball(1.0, 2), vec![0.0, 0.9], 0.1),
            (Shape::Cyl(0.9, 1.3, 1, 2), vec![0.1, -1.2], 0.1),
        ]);
        let b = run.of(&[0.0, 1.0, 0.5]);
        let reach = run.of(&[0.15, 0.45]);
        let cfg = Cfg { sh, centre, radius, clock: Clock::Const(0.01), n_ticks: 5, n_agents: n, d: 1.0, a: reach, b, args: false, skip: true, ensembles: 1 };
        let a3 = vec![a3[0], a3[2], a3[3]];
        simulate::<ContPassiveMergeAgent>(run, &cfg, |run, _| run.script_rng(&a3, h, LIMIT));
    });
    let h = c.q(8usize, 10);
    let a4 = al.clone();
    c.family("interacting", &format!("2 and 3 exponential or lennard-jones agents of 2 ranges and 2 strengths in 4 systems, 5 ticks: the first {} draws each from 3 values", h), move |run| {
        let kind = 2 + run.pick(2);
        let n = 2 + run.pick(2);
        let (sh, centre, radius) = run.of(&[
            (Shape::Ball(0.8, 1), vec![0.7], 0.05),
            (Shape::boxed(1.0, 2, 1, 0), vec![0.0, 0.0], 0.1),
            (Shape::Ball(1.0, 2), vec![0.0, 0.9], 0.1),
            (Shape::Cyl(0.8, 1.0, 2, 3), vec![0.0, 0.0, 0.8], 0.2),
        ]);
        let (a, b) = (run.of(&[0.3, 1.1]), run.of(&[0.05, 3.0]));
        let cfg = Cfg { sh, centre, radius, clock: Clock::Exp(0.004, 0.02, 2), n_ticks: 5, n_agents: n, d: 1.0, a, b, args: false, skip: true, ensembles: 1 };
        let a4 = vec![a4[0], a4[1], a4[3]];
        by_kind(run, kind, &cfg, |run, _| run.script_rng(&a4, h, LIMIT));
    });
    let len = c.q(4usize, 6);
    let a5 = al.clone();
    c.family("long", &format!("4 kinds x 8 systems x 4 clocks x 2 loops, 5 agents, 2 ensembles of up to 60 ticks: the draws repeat a word (all words of 1 to {} letters over 4 values, 1500 draws per ensemble, then the real generator)", len), move |run| {
        let kind = run.pick(4);
        let (sh, centre, radius) = run.of(&systems());
        let (ck, args) = clock(run.pick(4), 2.0);
        let skip = run.flag();
        let n = 1 + run.pick(len);
        let word: Vec<u64> = (0..n).map(|_| run.of(&a5)).collect();
        let cfg = Cfg { sh, centre, radius: radius * 0.5, clock: ck, n_ticks: 60, n_agents: 5, d: 2.0, a: 0.1, b: 1.0, args, skip, ensembles: 2 };
        by_kind(run, kind, &cfg, |run, e| run.fixed_rng((0..1500).map(|i| word[(i + e) % n]).collect(), LIMIT));
    });
    let ticks = c.q(3000usize, 30_000);
    c.family("very-long", &format!("4 kinds x 8 systems x 4 clocks x 2 loops, 1 to 3 agents, a small target, up to {} ticks with the real generator's draws", ticks), move |run| {
        let kind = run.pick(4);
        let (sh, centre, radius) = run.of(&systems());
        let (ck, args) = clock(run.pick(4), 0.9);
        let skip = run.flag();
        let n = 1 + run.pick(3);
        if kind == 1 && n > 1 {
            return; // merged to one cluster soon
        }
        let cfg = Cfg { sh, centre, radius: radius * 0.02, clock: ck, n_ticks: ticks, n_agents: n, d: 0.9, a: 0.05, b: 0.1, args, skip, ensembles: 1 };
        by_kind(run, kind, &cfg, |run, _| run.script_rng(&[0], 0, 100_000_000));
    });
    let crowd = c.q(vec![9usize, 17, 40, 130, 260], vec![9, 12, 17, 33, 40, 65, 130, 260, 520]);
    c.family("crowd", &format!("4 kinds x 8 systems x 2 loops, {:?} agents, 25 ticks, 2 ensembles with the real generator's draws", crowd), move |run| {
        let kind = run.pick(4);
        let (sh, centre, radius) = run.of(&systems());
        let (ck, args) = clock(run.pick(2), 1.5);
        let skip = run.flag();
        let n = run.of(&crowd);
        let cfg = Cfg { sh, centre, radius: radius * 0.3, clock: ck, n_ticks: 25, n_agents: n, d: 1.5, a: 0.02, b: 0.3, args, skip, ensembles: 2 };
        by_kind(run, kind, &cfg, |run, _| run.script_rng(&[0], 0, 100_000_000));
    });
    c.finish();
}
