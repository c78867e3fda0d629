//! Every parameter set of the library behind one interface: names, types, texts.
use moledyn::prelude::*;
use std::fmt::Debug;

/// The type of a parameter.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ty {
    /// positive real, as a short decimal
    Real,
    Count,
    Seed,
    Bc,
    Cyl,
    Pos,
    Move,
    Init,
    Dir,
}

pub trait Args {
    /// the parameters in documented order, as Debug texts
    fn fields(&self) -> Vec<String>;
    fn all(&self) -> String;
    fn print(&self, width: usize) -> String;
}

pub struct Kind {
    pub name: &'static str,
    pub names: Vec<&'static str>,
    pub types: Vec<Ty>,
    pub num_args: usize,
    pub pub_num_args: usize,
    pub read_vec: fn(&[String]) -> Result<Box<dyn Args>, Error>,
    pub read_lines: fn(&mut Lines<BufReader<File>>) -> Result<Box<dyn Args>, Error>,
    pub info: fn(usize) -> String,
    pub brief: fn() -> String,
}

macro_rules! kinds {
    ($($st:ty, $at:ident, [$($f:ident : $t:ident),*]);* $(;)?) => {
        $(
            impl Args for $at {
                fn fields(&self) -> Vec<String> {
                    vec![$(format!("{:?}", self.$f)),*]
                }
                fn all(&self) -> String {
                    format!("{:?}", self)
                }
                fn print(&self, width: usize) -> String {
                    self.print_configuration(width)
                }
            }
        )*
        pub fn kinds() -> Vec<Kind> {
            vec![$(
                Kind {
                    name: stringify!($st),
                    names: vec![$(stringify!($f)),*],
                    types: vec![$(Ty::$t),*],
                    num_args: <$st as Argument<$at>>::NUM_ARGS,
                    pub_num_args: $at::NUM_ARGS,
                    read_vec: |a| <$st>::read_args_from_vec(a).map(|x| Box::new(x) as Box<dyn Args>),
                    read_lines: |l| <$st>::read_args_from_lines(l).map(|x| Box::new(x) as Box<dyn Args>),
                    info: |w| <$st as Argument<$at>>::info(w),
                    brief: || <$st as Argument<$at>>::brief_info(),
                }
            ),*]
        }
    };
}

kinds! {
    ContCircSystem, ContCircSystemArguments, [sys_size: Real, dim: Count];
    ContCubicSystem, ContCubicSystemArguments, [bctype: Bc, sys_size: Real, dim: Count];
    ContCylindricalSystem, ContCylindricalSystemArguments, [sys_type: Cyl, bctype: Bc, sys_radius: Real, sys_length: Real, dim: Count];
    ContBulkTarget, ContBulkTargetArguments, [target_pos: Pos, target_size: Real];
    ContPassiveIndepAgent, ContPassiveIndepAgentArguments, [mtype: Move, itype: Init, num_agent: Count];
    ContPassiveMergeAgent, ContPassiveMergeAgentArguments, [mtype: Move, itype: Init, ptl_radius: Real, alpha: Real, num_agent: Count];
    ContPassiveExpAgent, ContPassiveExpAgentArguments, [mtype: Move, itype: Init, gamma: Real, exp_dim: Count, strength: Real, num_agent: Count];
    ContPassiveLJAgent, ContPassiveLJAgentArguments, [mtype: Move, itype: Init, ptl_size: Real, strength: Real, num_agent: Count];
    ConstStep, ConstStepArguments, [dt: Real, tmax: Real];
    ExponentialStep, ExponentialStepArguments, [dt_min: Real, dt_max: Real, length: Count, tmax: Real];
    VariableSimulation, VariableSimulationArguments, [num_ensemble: Count, idx_set: Count, seed: Seed, output_dir: Dir];
    ParVariableSimulation, ParVariableSimulationArguments, [num_ensemble: Count, seed: Seed, n_thrd: Count, output_dir: Dir];
    ProcessSimulation, ProcessSimulationArguments, [num_ensemble: Count, period: Real, idx_set: Count, seed: Seed, output_dir: Dir];
}

fn d<T: Debug>(x: T) -> String {
    format!("{:?}", x)
}

/// Texts of a command line and the value each stands for (as its Debug text).
pub fn values(t: Ty) -> Vec<(String, String)> {
    let s = |x: &str| x.to_string();
    match t {
        Ty::Real => [1.0, 0.25, 1e-10, 12345.678, 3e20, 7e-300, 0.1 + 0.2, 1.0 / 3.0]
            .iter()
            .map(|x: &f64| (format!("{}", x), d(x)))
            .chain(vec![(s("1e-5"), d(1e-5)), (s("2.5E3"), d(2500.0)), (s("-4"), d(-4.0)), (s("0"), d(0.0)), (s("+.5"), d(0.5))])
            .collect(),
        Ty::Count => [0usize, 1, 2, 10, 1_000_000_007].iter().map(|x| (format!("{}", x), d(x))).collect(),
        Ty::Seed => [0u128, 1, 12345, u64::MAX as u128 + 1, u128::MAX].iter().map(|x| (format!("{}", x), d(x))).collect(),
        Ty::Bc => vec![
            (s("Reflective"), d(BoundaryCond::Reflection)),
            (s("Periodic"), d(BoundaryCond::Periodic)),
            (s("1"), d(BoundaryCond::Mixed(1))),
            (s("12"), d(BoundaryCond::Mixed(12))),
            (format!("{}", BoundaryCond::Mixed(3)), d(BoundaryCond::Mixed(3))),
        ],
        Ty::Cyl => vec![
            (s("1"), d(SystemType::ContinuousCylindrical(1))),
            (s("2"), d(SystemType::ContinuousCylindrical(2))),
            (s("11"), d(SystemType::ContinuousCylindrical(11))),
            (format!("{}", SystemType::ContinuousCylindrical(4)), d(SystemType::ContinuousCylindrical(4))),
        ],
        Ty::Pos => vec![
            (s("0,0"), d(Position::<f64>::new(vec![0.0, 0.0]))),
            (s("1.0:2.0"), d(Position::<f64>::new(vec![1.0, 2.0]))),
            (s("(-0.5,1e-7,300)"), d(Position::<f64>::new(vec![-0.5, 1e-7, 300.0]))),
            (s("4"), d(Position::<f64>::new(vec![4.0]))),
            (s("0.1,-2:3,-4,5"), d(Position::<f64>::new(vec![0.1, -2.0, 3.0, -4.0, 5.0]))),
        ],
        Ty::Move => vec![
            (s("1.0"), d(MoveType::Brownian(1.0))),
            (s("0.37"), d(MoveType::Brownian(0.37))),
            (s("1e-6"), d(MoveType::Brownian(1e-6))),
            (s("Levy"), d(MoveType::Levy)),
            (format!("{}", MoveType::Brownian(12.5)), d(MoveType::Brownian(12.5))),
        ],
        Ty::Init => vec![
            (s("Uniform"), d(InitType::<f64>::Uniform)),
            (s("0,0"), d(InitType::SpecificPosition(Position::<f64>::new(vec![0.0, 0.0])))),
            (s("0.5:-1:2"), d(InitType::SpecificPosition(Position::<f64>::new(vec![0.5, -1.0, 2.0])))),
            (s("3"), d(InitType::SpecificPosition(Position::<f64>::new(vec![3.0])))),
        ],
        Ty::Dir => vec![(s("out"), d("out")), (s("/tmp/a/b.c"), d("/tmp/a/b.c")), (s("with space"), d("with space")), (s("x:y: z"), d("x:y: z")), (s("."), d("."))],
    }
}

/// Texts that are no value of the type.
pub fn malformed(t: Ty) -> Vec<&'static str> {
    match t {
        Ty::Real => vec!["", "abc", "1e", "--1", "1.2.3", "0x10", "1,5", "1 2", "one"],
        Ty::Count | Ty::Seed => vec!["", "abc", "-1", "1.5", "1e3", "0x10", "1 2", "340282366920938463463374607431768211456"],
        Ty::Bc => vec!["", "abc", "-1", "1.5", "Mixed", "Mixed Boundary Condition. 0..x : Reflection, x.. : Periodic", "Mixed Boundary Condition."],
        Ty::Cyl => vec!["", "abc", "-1", "1.5", "Continuous", "Continuous Cylindrical", "Continuous Cylindrical system. 0..x : Circular, x.. : Rectangular"],
        Ty::Pos => vec!["", "abc", "1,", ",1", "1,,2", "1,x", "1;2", "()", "1:2:", "1,2.3.4"],
        Ty::Move => vec!["", "abc", "1.2.3", "Brownian", "Brownian with diffusion coefficient", "Brownian with diffusion coefficient x", "Brown 1 2 3 4"],
        Ty::Init => vec!["", "abc", "1,x", "1,", "Initialize all agents at", "Initialize all agents at 1,x", "Initialize"],
        Ty::Dir => vec![],
    }
}

/// The (name, value) pairs of a file name: a name is what stands between two numbers.
pub fn pairs(body: &str) -> Vec<(String, f64)> {
    let mut v = vec![];
    let mut name: Vec<&str> = vec![];
    for t in body.split('_') {
        match t.parse::<f64>() {
            Ok(x) => {
                v.push((name.join("_"), x));
                name.clear();
            }
            Err(_) => name.push(t),
        }
    }
    if !name.is_empty() {
        v.push((name.join("_"), f64::NAN));
    }
    v
}
