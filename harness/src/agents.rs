//! The four agent kinds behind one interface.
use moledyn::agent_mod::cont_passive_exp::ContPassiveExpAgent;
use moledyn::agent_mod::cont_passive_indep::ContPassiveIndepAgent;
use moledyn::agent_mod::cont_passive_lj::ContPassiveLJAgent;
use moledyn::agent_mod::cont_passive_merge::ContPassiveMergeAgent;
use moledyn::prelude::*;
use rand_pcg::Pcg64;

#[derive(Clone, Debug, PartialEq)]
pub enum Ag {
    Indep(ContPassiveIndepAgent),
    Merge(ContPassiveMergeAgent),
    Exp(ContPassiveExpAgent),
    Lj(ContPassiveLJAgent),
}

pub const KINDS: [&str; 4] = ["independent", "merging", "exponential", "lennard-jones"];

#[macro_export]
macro_rules! each_agent {
    ($a:expr, $x:ident => $e:expr) => {
        match $a {
            $crate::agents::Ag::Indep($x) => $e,
            $crate::agents::Ag::Merge($x) => $e,
            $crate::agents::Ag::Exp($x) => $e,
            $crate::agents::Ag::Lj($x) => $e,
        }
    };
}

impl Ag {
    /// Placed at `p`.
    pub fn at(kind: usize, mtype: MoveType, p: &[f64]) -> Ag {
        let q = Position::<f64>::new(p.to_vec());
        match kind {
            0 => Ag::Indep(ContPassiveIndepAgent::new(mtype, q)),
            1 => Ag::Merge(ContPassiveMergeAgent::new(mtype, q, 0.1, 1.0)),
            2 => Ag::Exp(ContPassiveExpAgent::new(InteractType::Exponential(p.len(), 0.7), mtype, q, 1.3)),
            _ => Ag::Lj(ContPassiveLJAgent::new(InteractType::LennardJones(0.9), mtype, q, 1.3)),
        }
    }
    pub fn uniform(kind: usize, sys: &dyn SystemCore<f64>, target: &dyn TargetCore<f64>, dim: usize, rng: &mut Pcg64, mtype: MoveType) -> Result<Ag, Error> {
        Ok(match kind {
            0 => Ag::Indep(ContPassiveIndepAgent::new_uniform(sys, target, rng, mtype)?),
            1 => Ag::Merge(ContPassiveMergeAgent::new_uniform(sys, target, rng, mtype, 0.1, 1.0)?),
            2 => Ag::Exp(ContPassiveExpAgent::new_uniform(sys, target, rng, InteractType::Exponential(dim, 0.7), mtype, 1.3)?),
            _ => Ag::Lj(ContPassiveLJAgent::new_uniform(sys, target, rng, InteractType::LennardJones(0.9), mtype, 1.3)?),
        })
    }
    /// From the words of a command line; `init` is "Uniform" or a coordinate list.
    pub fn from_args(kind: usize, mtype: &str, init: &str, dim: usize, n: usize) -> Vec<Ag> {
        let w = |v: &[&str]| -> Vec<String> { v.iter().map(|x| x.to_string()).collect() };
        let n = n.to_string();
        let d = dim.to_string();
        match kind {
            0 => ContPassiveIndepAgent::convert_from(&ContPassiveIndepAgent::read_args_from_vec(&w(&[mtype, init, &n])).expect("arguments"))
                .into_iter().map(Ag::Indep).collect(),
            1 => ContPassiveMergeAgent::convert_from(&ContPassiveMergeAgent::read_args_from_vec(&w(&[mtype, init, "0.1", "1.0", &n])).expect("arguments"))
                .into_iter().map(Ag::Merge).collect(),
            2 => ContPassiveExpAgent::convert_from(&ContPassiveExpAgent::read_args_from_vec(&w(&[mtype, init, "0.7", &d, "1.3", &n])).expect("arguments"))
                .into_iter().map(Ag::Exp).collect(),
            _ => ContPassiveLJAgent::convert_from(&ContPassiveLJAgent::read_args_from_vec(&w(&[mtype, init, "0.9", "1.3", &n])).expect("arguments"))
                .into_iter().map(Ag::Lj).collect(),
        }
    }
    pub fn renew(&mut self, sys: &dyn SystemCore<f64>, target: &dyn TargetCore<f64>, rng: &mut Pcg64) -> Result<(), Error> {
        each_agent!(self, a => a.renew_uniform(sys, target, rng))
    }
    pub fn position(&self) -> &[f64] {
        each_agent!(self, a => &a.pos.coordinate)
    }
    pub fn set_position(&mut self, p: &[f64]) {
        let q = Position::<f64>::new(p.to_vec());
        each_agent!(self, a => a.pos = q)
    }
    pub fn dim(&self) -> usize {
        match self {
            Ag::Indep(a) => a.dim,
            Ag::Merge(a) => a.dim,
            Ag::Exp(a) => a.exp_dim,
            Ag::Lj(a) => a.dim,
        }
    }
    pub fn random_move(&self, rng: &mut Pcg64, dt: f64) -> Result<Position<f64>, Error> {
        each_agent!(self, a => a.random_move(rng, dt))
    }
    pub fn random_move_to_vec(&self, rng: &mut Pcg64, dt: f64, v: &mut Position<f64>) -> Result<(), Error> {
        each_agent!(self, a => a.random_move_to_vec(rng, dt, v))
    }
    pub fn disp(&self, o: &Ag) -> Result<(Position<f64>, f64), Error> {
        match (self, o) {
            (Ag::Indep(a), Ag::Indep(b)) => a.mutual_displacement(b),
            (Ag::Merge(a), Ag::Merge(b)) => a.mutual_displacement(b),
            (Ag::Exp(a), Ag::Exp(b)) => a.mutual_displacement(b),
            (Ag::Lj(a), Ag::Lj(b)) => a.mutual_displacement(b),
            _ => unreachable!(),
        }
    }
    pub fn disp_to(&self, o: &Ag, v: &mut Position<f64>) -> Result<f64, Error> {
        match (self, o) {
            (Ag::Indep(a), Ag::Indep(b)) => a.mutual_displacement_to_vec(b, v),
            (Ag::Merge(a), Ag::Merge(b)) => a.mutual_displacement_to_vec(b, v),
            (Ag::Exp(a), Ag::Exp(b)) => a.mutual_displacement_to_vec(b, v),
            (Ag::Lj(a), Ag::Lj(b)) => a.mutual_displacement_to_vec(b, v),
            _ => unreachable!(),
        }
    }
    pub fn dist(&self, o: &Ag) -> Result<f64, Error> {
        match (self, o) {
            (Ag::Indep(a), Ag::Indep(b)) => a.mutual_distance(b),
            (Ag::Merge(a), Ag::Merge(b)) => a.mutual_distance(b),
            (Ag::Exp(a), Ag::Exp(b)) => a.mutual_distance(b),
            (Ag::Lj(a), Ag::Lj(b)) => a.mutual_distance(b),
            _ => unreachable!(),
        }
    }
}
