// Generated by tools/progs.py: a simulation program for every combination of components.
#![allow(unused_variables, unused_imports, unused_mut, dead_code)]
mod out;

mod p00000 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, VariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(args: Vec<String>) -> Result<(), Error> {
        construct_dataset!(SimulationData, ContCircSystem, sys_arg, ContCircSystemArguments, [sys_size, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveIndepAgent, agent_arg, ContPassiveIndepAgentArguments, [num_agent, usize]; ConstStep, time_arg, ConstStepArguments, [dt, f64, tmax, f64];{VariableSimulation, sim_arg, VariableSimulationArguments, [idx_set, usize]});
        let args: Vec<String> = std::iter::repeat("skipped".to_string()).take(crate::out::lead(0)).chain(args).collect();
        setup_simulation_fixed!(args, 8, 0, TimeAnalysis, "PRE", dataset, SimulationData, sys_arg, ContCircSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveIndepAgent, time_arg, ConstStep, sim_arg, VariableSimulation);
        let dir = sim_arg.output_dir.clone();
        export_simulation_info!(dataset, dir, writer, WIDTH, "PRE", ContCircSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveIndepAgent, vec_agents, agent_arg, ConstStep, timeiter, time_arg, VariableSimulation, simulation, sim_arg);
        crate::out::report(&[("sys_size", format!("{:?}", sys_arg.sys_size)), ("dim", format!("{:?}", sys_arg.dim)), ("target_pos", format!("{:?}", target_arg.target_pos)), ("target_size", format!("{:?}", target_arg.target_size)), ("mtype", format!("{:?}", agent_arg.mtype)), ("itype", format!("{:?}", agent_arg.itype)), ("num_agent", format!("{:?}", agent_arg.num_agent)), ("dt", format!("{:?}", time_arg.dt)), ("tmax", format!("{:?}", time_arg.tmax)), ("num_ensemble", format!("{:?}", sim_arg.num_ensemble)), ("idx_set", format!("{:?}", sim_arg.idx_set)), ("seed", format!("{:?}", sim_arg.seed)), ("output_dir", format!("{:?}", sim_arg.output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
}
mod p00001 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeVecAnalysis, ContCircSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, VariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p00002 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", ProcessAnalysis, ContCircSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, VariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p00010 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, ParVariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(args: Vec<String>) -> Result<(), Error> {
        construct_dataset!(SimulationData, ContCircSystem, sys_arg, ContCircSystemArguments, [sys_size, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveIndepAgent, agent_arg, ContPassiveIndepAgentArguments, [num_agent, usize]; ConstStep, time_arg, ConstStepArguments, [dt, f64, tmax, f64];{ParVariableSimulation, sim_arg, ParVariableSimulationArguments, [n_thrd, usize]});
        let args: Vec<String> = std::iter::repeat("skipped".to_string()).take(crate::out::lead(0)).chain(args).collect();
        setup_simulation_fixed!(args, 8, 0, TimeAnalysis, "PRE", dataset, SimulationData, sys_arg, ContCircSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveIndepAgent, time_arg, ConstStep, sim_arg, ParVariableSimulation);
        let dir = sim_arg.output_dir.clone();
        export_simulation_info!(dataset, dir, writer, WIDTH, "PRE", ContCircSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveIndepAgent, vec_agents, agent_arg, ConstStep, timeiter, time_arg, ParVariableSimulation, simulation, sim_arg);
        crate::out::report(&[("sys_size", format!("{:?}", sys_arg.sys_size)), ("dim", format!("{:?}", sys_arg.dim)), ("target_pos", format!("{:?}", target_arg.target_pos)), ("target_size", format!("{:?}", target_arg.target_size)), ("mtype", format!("{:?}", agent_arg.mtype)), ("itype", format!("{:?}", agent_arg.itype)), ("num_agent", format!("{:?}", agent_arg.num_agent)), ("dt", format!("{:?}", time_arg.dt)), ("tmax", format!("{:?}", time_arg.tmax)), ("num_ensemble", format!("{:?}", sim_arg.num_ensemble)), ("seed", format!("{:?}", sim_arg.seed)), ("n_thrd", format!("{:?}", sim_arg.n_thrd)), ("output_dir", format!("{:?}", sim_arg.output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
}
mod p00011 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeVecAnalysis, ContCircSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, ParVariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p00012 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", ProcessAnalysis, ContCircSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, ParVariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p00020 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, ProcessSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p00021 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeVecAnalysis, ContCircSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, ProcessSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p00022 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", ProcessAnalysis, ContCircSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, ProcessSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(args: Vec<String>) -> Result<(), Error> {
        construct_dataset!(SimulationData, ContCircSystem, sys_arg, ContCircSystemArguments, [sys_size, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveIndepAgent, agent_arg, ContPassiveIndepAgentArguments, [num_agent, usize]; ConstStep, time_arg, ConstStepArguments, [dt, f64, tmax, f64];{ProcessSimulation, sim_arg, ProcessSimulationArguments, [period, f64, idx_set, usize]});
        let args: Vec<String> = std::iter::repeat("skipped".to_string()).take(crate::out::lead(0)).chain(args).collect();
        setup_simulation_fixed!(args, 8, 0, ProcessAnalysis, "PRE", dataset, SimulationData, sys_arg, ContCircSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveIndepAgent, time_arg, ConstStep, sim_arg, ProcessSimulation);
        let dir = sim_arg.output_dir.clone();
        export_simulation_info!(dataset, dir, writer, WIDTH, "PRE", ContCircSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveIndepAgent, vec_agents, agent_arg, ConstStep, timeiter, time_arg, ProcessSimulation, simulation, sim_arg);
        crate::out::report(&[("sys_size", format!("{:?}", sys_arg.sys_size)), ("dim", format!("{:?}", sys_arg.dim)), ("target_pos", format!("{:?}", target_arg.target_pos)), ("target_size", format!("{:?}", target_arg.target_size)), ("mtype", format!("{:?}", agent_arg.mtype)), ("itype", format!("{:?}", agent_arg.itype)), ("num_agent", format!("{:?}", agent_arg.num_agent)), ("dt", format!("{:?}", time_arg.dt)), ("tmax", format!("{:?}", time_arg.tmax)), ("num_ensemble", format!("{:?}", sim_arg.num_ensemble)), ("period", format!("{:?}", sim_arg.period)), ("idx_set", format!("{:?}", sim_arg.idx_set)), ("seed", format!("{:?}", sim_arg.seed)), ("output_dir", format!("{:?}", sim_arg.output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
}
mod p00100 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, VariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p00101 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeVecAnalysis, ContCircSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, VariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(args: Vec<String>) -> Result<(), Error> {
        construct_dataset!(SimulationData, ContCircSystem, sys_arg, ContCircSystemArguments, [sys_size, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveIndepAgent, agent_arg, ContPassiveIndepAgentArguments, [num_agent, usize]; ExponentialStep, time_arg, ExponentialStepArguments, [dt_min, f64, dt_max, f64, length, usize, tmax, f64];{VariableSimulation, sim_arg, VariableSimulationArguments, [idx_set, usize]});
        let args: Vec<String> = std::iter::repeat("skipped".to_string()).take(crate::out::lead(0)).chain(args).collect();
        setup_simulation_fixed!(args, 8, 0, TimeVecAnalysis, "PRE", dataset, SimulationData, sys_arg, ContCircSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveIndepAgent, time_arg, ExponentialStep, sim_arg, VariableSimulation);
        let dir = sim_arg.output_dir.clone();
        export_simulation_info!(dataset, dir, writer, WIDTH, "PRE", ContCircSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveIndepAgent, vec_agents, agent_arg, ExponentialStep, timeiter, time_arg, VariableSimulation, simulation, sim_arg);
        crate::out::report(&[("sys_size", format!("{:?}", sys_arg.sys_size)), ("dim", format!("{:?}", sys_arg.dim)), ("target_pos", format!("{:?}", target_arg.target_pos)), ("target_size", format!("{:?}", target_arg.target_size)), ("mtype", format!("{:?}", agent_arg.mtype)), ("itype", format!("{:?}", agent_arg.itype)), ("num_agent", format!("{:?}", agent_arg.num_agent)), ("dt_min", format!("{:?}", time_arg.dt_min)), ("dt_max", format!("{:?}", time_arg.dt_max)), ("length", format!("{:?}", time_arg.length)), ("tmax", format!("{:?}", time_arg.tmax)), ("num_ensemble", format!("{:?}", sim_arg.num_ensemble)), ("idx_set", format!("{:?}", sim_arg.idx_set)), ("seed", format!("{:?}", sim_arg.seed)), ("output_dir", format!("{:?}", sim_arg.output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
}
mod p00102 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", ProcessAnalysis, ContCircSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, VariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p00110 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, ParVariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p00111 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeVecAnalysis, ContCircSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, ParVariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(args: Vec<String>) -> Result<(), Error> {
        construct_dataset!(SimulationData, ContCircSystem, sys_arg, ContCircSystemArguments, [sys_size, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveIndepAgent, agent_arg, ContPassiveIndepAgentArguments, [num_agent, usize]; ExponentialStep, time_arg, ExponentialStepArguments, [dt_min, f64, dt_max, f64, length, usize, tmax, f64];{ParVariableSimulation, sim_arg, ParVariableSimulationArguments, [n_thrd, usize]});
        let args: Vec<String> = std::iter::repeat("skipped".to_string()).take(crate::out::lead(0)).chain(args).collect();
        setup_simulation_fixed!(args, 8, 0, TimeVecAnalysis, "PRE", dataset, SimulationData, sys_arg, ContCircSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveIndepAgent, time_arg, ExponentialStep, sim_arg, ParVariableSimulation);
        let dir = sim_arg.output_dir.clone();
        export_simulation_info!(dataset, dir, writer, WIDTH, "PRE", ContCircSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveIndepAgent, vec_agents, agent_arg, ExponentialStep, timeiter, time_arg, ParVariableSimulation, simulation, sim_arg);
        crate::out::report(&[("sys_size", format!("{:?}", sys_arg.sys_size)), ("dim", format!("{:?}", sys_arg.dim)), ("target_pos", format!("{:?}", target_arg.target_pos)), ("target_size", format!("{:?}", target_arg.target_size)), ("mtype", format!("{:?}", agent_arg.mtype)), ("itype", format!("{:?}", agent_arg.itype)), ("num_agent", format!("{:?}", agent_arg.num_agent)), ("dt_min", format!("{:?}", time_arg.dt_min)), ("dt_max", format!("{:?}", time_arg.dt_max)), ("length", format!("{:?}", time_arg.length)), ("tmax", format!("{:?}", time_arg.tmax)), ("num_ensemble", format!("{:?}", sim_arg.num_ensemble)), ("seed", format!("{:?}", sim_arg.seed)), ("n_thrd", format!("{:?}", sim_arg.n_thrd)), ("output_dir", format!("{:?}", sim_arg.output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
}
mod p00112 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", ProcessAnalysis, ContCircSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, ParVariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p00120 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, ProcessSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p00121 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeVecAnalysis, ContCircSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, ProcessSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p00122 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", ProcessAnalysis, ContCircSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, ProcessSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(args: Vec<String>) -> Result<(), Error> {
        construct_dataset!(SimulationData, ContCircSystem, sys_arg, ContCircSystemArguments, [sys_size, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveIndepAgent, agent_arg, ContPassiveIndepAgentArguments, [num_agent, usize]; ExponentialStep, time_arg, ExponentialStepArguments, [dt_min, f64, dt_max, f64, length, usize, tmax, f64];{ProcessSimulation, sim_arg, ProcessSimulationArguments, [period, f64, idx_set, usize]});
        let args: Vec<String> = std::iter::repeat("skipped".to_string()).take(crate::out::lead(0)).chain(args).collect();
        setup_simulation_fixed!(args, 8, 0, ProcessAnalysis, "PRE", dataset, SimulationData, sys_arg, ContCircSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveIndepAgent, time_arg, ExponentialStep, sim_arg, ProcessSimulation);
        let dir = sim_arg.output_dir.clone();
        export_simulation_info!(dataset, dir, writer, WIDTH, "PRE", ContCircSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveIndepAgent, vec_agents, agent_arg, ExponentialStep, timeiter, time_arg, ProcessSimulation, simulation, sim_arg);
        crate::out::report(&[("sys_size", format!("{:?}", sys_arg.sys_size)), ("dim", format!("{:?}", sys_arg.dim)), ("target_pos", format!("{:?}", target_arg.target_pos)), ("target_size", format!("{:?}", target_arg.target_size)), ("mtype", format!("{:?}", agent_arg.mtype)), ("itype", format!("{:?}", agent_arg.itype)), ("num_agent", format!("{:?}", agent_arg.num_agent)), ("dt_min", format!("{:?}", time_arg.dt_min)), ("dt_max", format!("{:?}", time_arg.dt_max)), ("length", format!("{:?}", time_arg.length)), ("tmax", format!("{:?}", time_arg.tmax)), ("num_ensemble", format!("{:?}", sim_arg.num_ensemble)), ("period", format!("{:?}", sim_arg.period)), ("idx_set", format!("{:?}", sim_arg.idx_set)), ("seed", format!("{:?}", sim_arg.seed)), ("output_dir", format!("{:?}", sim_arg.output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
}
mod p01000 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, VariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_radius", format!("{:?}", ptl_radius)), ("alpha", format!("{:?}", alpha)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p01001 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeVecAnalysis, ContCircSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, VariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_radius", format!("{:?}", ptl_radius)), ("alpha", format!("{:?}", alpha)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(args: Vec<String>) -> Result<(), Error> {
        construct_dataset!(SimulationData, ContCircSystem, sys_arg, ContCircSystemArguments, [sys_size, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveMergeAgent, agent_arg, ContPassiveMergeAgentArguments, [ptl_radius, f64, alpha, f64, num_agent, usize]; ConstStep, time_arg, ConstStepArguments, [dt, f64, tmax, f64];{VariableSimulation, sim_arg, VariableSimulationArguments, [idx_set, usize]});
        let args: Vec<String> = std::iter::repeat("skipped".to_string()).take(crate::out::lead(1)).chain(args).collect();
        setup_simulation_fixed!(args, 12, 1, TimeVecAnalysis, "PRE", dataset, SimulationData, sys_arg, ContCircSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveMergeAgent, time_arg, ConstStep, sim_arg, VariableSimulation);
        let dir = sim_arg.output_dir.clone();
        export_simulation_info!(dataset, dir, writer, WIDTH, "PRE", ContCircSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveMergeAgent, vec_agents, agent_arg, ConstStep, timeiter, time_arg, VariableSimulation, simulation, sim_arg);
        crate::out::report(&[("sys_size", format!("{:?}", sys_arg.sys_size)), ("dim", format!("{:?}", sys_arg.dim)), ("target_pos", format!("{:?}", target_arg.target_pos)), ("target_size", format!("{:?}", target_arg.target_size)), ("mtype", format!("{:?}", agent_arg.mtype)), ("itype", format!("{:?}", agent_arg.itype)), ("ptl_radius", format!("{:?}", agent_arg.ptl_radius)), ("alpha", format!("{:?}", agent_arg.alpha)), ("num_agent", format!("{:?}", agent_arg.num_agent)), ("dt", format!("{:?}", time_arg.dt)), ("tmax", format!("{:?}", time_arg.tmax)), ("num_ensemble", format!("{:?}", sim_arg.num_ensemble)), ("idx_set", format!("{:?}", sim_arg.idx_set)), ("seed", format!("{:?}", sim_arg.seed)), ("output_dir", format!("{:?}", sim_arg.output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
}
mod p01002 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", ProcessAnalysis, ContCircSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, VariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_radius", format!("{:?}", ptl_radius)), ("alpha", format!("{:?}", alpha)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p01010 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, ParVariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_radius", format!("{:?}", ptl_radius)), ("alpha", format!("{:?}", alpha)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p01011 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeVecAnalysis, ContCircSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, ParVariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_radius", format!("{:?}", ptl_radius)), ("alpha", format!("{:?}", alpha)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(args: Vec<String>) -> Result<(), Error> {
        construct_dataset!(SimulationData, ContCircSystem, sys_arg, ContCircSystemArguments, [sys_size, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveMergeAgent, agent_arg, ContPassiveMergeAgentArguments, [ptl_radius, f64, alpha, f64, num_agent, usize]; ConstStep, time_arg, ConstStepArguments, [dt, f64, tmax, f64];{ParVariableSimulation, sim_arg, ParVariableSimulationArguments, [n_thrd, usize]});
        let args: Vec<String> = std::iter::repeat("skipped".to_string()).take(crate::out::lead(1)).chain(args).collect();
        setup_simulation_fixed!(args, 12, 1, TimeVecAnalysis, "PRE", dataset, SimulationData, sys_arg, ContCircSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveMergeAgent, time_arg, ConstStep, sim_arg, ParVariableSimulation);
        let dir = sim_arg.output_dir.clone();
        export_simulation_info!(dataset, dir, writer, WIDTH, "PRE", ContCircSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveMergeAgent, vec_agents, agent_arg, ConstStep, timeiter, time_arg, ParVariableSimulation, simulation, sim_arg);
        crate::out::report(&[("sys_size", format!("{:?}", sys_arg.sys_size)), ("dim", format!("{:?}", sys_arg.dim)), ("target_pos", format!("{:?}", target_arg.target_pos)), ("target_size", format!("{:?}", target_arg.target_size)), ("mtype", format!("{:?}", agent_arg.mtype)), ("itype", format!("{:?}", agent_arg.itype)), ("ptl_radius", format!("{:?}", agent_arg.ptl_radius)), ("alpha", format!("{:?}", agent_arg.alpha)), ("num_agent", format!("{:?}", agent_arg.num_agent)), ("dt", format!("{:?}", time_arg.dt)), ("tmax", format!("{:?}", time_arg.tmax)), ("num_ensemble", format!("{:?}", sim_arg.num_ensemble)), ("seed", format!("{:?}", sim_arg.seed)), ("n_thrd", format!("{:?}", sim_arg.n_thrd)), ("output_dir", format!("{:?}", sim_arg.output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
}
mod p01012 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", ProcessAnalysis, ContCircSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, ParVariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_radius", format!("{:?}", ptl_radius)), ("alpha", format!("{:?}", alpha)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p01020 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, ProcessSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_radius", format!("{:?}", ptl_radius)), ("alpha", format!("{:?}", alpha)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p01021 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeVecAnalysis, ContCircSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, ProcessSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_radius", format!("{:?}", ptl_radius)), ("alpha", format!("{:?}", alpha)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p01022 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", ProcessAnalysis, ContCircSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, ProcessSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_radius", format!("{:?}", ptl_radius)), ("alpha", format!("{:?}", alpha)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(args: Vec<String>) -> Result<(), Error> {
        construct_dataset!(SimulationData, ContCircSystem, sys_arg, ContCircSystemArguments, [sys_size, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveMergeAgent, agent_arg, ContPassiveMergeAgentArguments, [ptl_radius, f64, alpha, f64, num_agent, usize]; ConstStep, time_arg, ConstStepArguments, [dt, f64, tmax, f64];{ProcessSimulation, sim_arg, ProcessSimulationArguments, [period, f64, idx_set, usize]});
        let args: Vec<String> = std::iter::repeat("skipped".to_string()).take(crate::out::lead(1)).chain(args).collect();
        setup_simulation_fixed!(args, 12, 1, ProcessAnalysis, "PRE", dataset, SimulationData, sys_arg, ContCircSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveMergeAgent, time_arg, ConstStep, sim_arg, ProcessSimulation);
        let dir = sim_arg.output_dir.clone();
        export_simulation_info!(dataset, dir, writer, WIDTH, "PRE", ContCircSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveMergeAgent, vec_agents, agent_arg, ConstStep, timeiter, time_arg, ProcessSimulation, simulation, sim_arg);
        crate::out::report(&[("sys_size", format!("{:?}", sys_arg.sys_size)), ("dim", format!("{:?}", sys_arg.dim)), ("target_pos", format!("{:?}", target_arg.target_pos)), ("target_size", format!("{:?}", target_arg.target_size)), ("mtype", format!("{:?}", agent_arg.mtype)), ("itype", format!("{:?}", agent_arg.itype)), ("ptl_radius", format!("{:?}", agent_arg.ptl_radius)), ("alpha", format!("{:?}", agent_arg.alpha)), ("num_agent", format!("{:?}", agent_arg.num_agent)), ("dt", format!("{:?}", time_arg.dt)), ("tmax", format!("{:?}", time_arg.tmax)), ("num_ensemble", format!("{:?}", sim_arg.num_ensemble)), ("period", format!("{:?}", sim_arg.period)), ("idx_set", format!("{:?}", sim_arg.idx_set)), ("seed", format!("{:?}", sim_arg.seed)), ("output_dir", format!("{:?}", sim_arg.output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
}
mod p01100 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, VariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_radius", format!("{:?}", ptl_radius)), ("alpha", format!("{:?}", alpha)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(args: Vec<String>) -> Result<(), Error> {
        construct_dataset!(SimulationData, ContCircSystem, sys_arg, ContCircSystemArguments, [sys_size, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveMergeAgent, agent_arg, ContPassiveMergeAgentArguments, [ptl_radius, f64, alpha, f64, num_agent, usize]; ExponentialStep, time_arg, ExponentialStepArguments, [dt_min, f64, dt_max, f64, length, usize, tmax, f64];{VariableSimulation, sim_arg, VariableSimulationArguments, [idx_set, usize]});
        let args: Vec<String> = std::iter::repeat("skipped".to_string()).take(crate::out::lead(1)).chain(args).collect();
        setup_simulation_fixed!(args, 12, 1, TimeAnalysis, "PRE", dataset, SimulationData, sys_arg, ContCircSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveMergeAgent, time_arg, ExponentialStep, sim_arg, VariableSimulation);
        let dir = sim_arg.output_dir.clone();
        export_simulation_info!(dataset, dir, writer, WIDTH, "PRE", ContCircSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveMergeAgent, vec_agents, agent_arg, ExponentialStep, timeiter, time_arg, VariableSimulation, simulation, sim_arg);
        crate::out::report(&[("sys_size", format!("{:?}", sys_arg.sys_size)), ("dim", format!("{:?}", sys_arg.dim)), ("target_pos", format!("{:?}", target_arg.target_pos)), ("target_size", format!("{:?}", target_arg.target_size)), ("mtype", format!("{:?}", agent_arg.mtype)), ("itype", format!("{:?}", agent_arg.itype)), ("ptl_radius", format!("{:?}", agent_arg.ptl_radius)), ("alpha", format!("{:?}", agent_arg.alpha)), ("num_agent", format!("{:?}", agent_arg.num_agent)), ("dt_min", format!("{:?}", time_arg.dt_min)), ("dt_max", format!("{:?}", time_arg.dt_max)), ("length", format!("{:?}", time_arg.length)), ("tmax", format!("{:?}", time_arg.tmax)), ("num_ensemble", format!("{:?}", sim_arg.num_ensemble)), ("idx_set", format!("{:?}", sim_arg.idx_set)), ("seed", format!("{:?}", sim_arg.seed)), ("output_dir", format!("{:?}", sim_arg.output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
}
mod p01101 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeVecAnalysis, ContCircSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, VariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_radius", format!("{:?}", ptl_radius)), ("alpha", format!("{:?}", alpha)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p01102 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", ProcessAnalysis, ContCircSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, VariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_radius", format!("{:?}", ptl_radius)), ("alpha", format!("{:?}", alpha)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p01110 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, ParVariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_radius", format!("{:?}", ptl_radius)), ("alpha", format!("{:?}", alpha)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(args: Vec<String>) -> Result<(), Error> {
        construct_dataset!(SimulationData, ContCircSystem, sys_arg, ContCircSystemArguments, [sys_size, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveMergeAgent, agent_arg, ContPassiveMergeAgentArguments, [ptl_radius, f64, alpha, f64, num_agent, usize]; ExponentialStep, time_arg, ExponentialStepArguments, [dt_min, f64, dt_max, f64, length, usize, tmax, f64];{ParVariableSimulation, sim_arg, ParVariableSimulationArguments, [n_thrd, usize]});
        let args: Vec<String> = std::iter::repeat("skipped".to_string()).take(crate::out::lead(1)).chain(args).collect();
        setup_simulation_fixed!(args, 12, 1, TimeAnalysis, "PRE", dataset, SimulationData, sys_arg, ContCircSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveMergeAgent, time_arg, ExponentialStep, sim_arg, ParVariableSimulation);
        let dir = sim_arg.output_dir.clone();
        export_simulation_info!(dataset, dir, writer, WIDTH, "PRE", ContCircSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveMergeAgent, vec_agents, agent_arg, ExponentialStep, timeiter, time_arg, ParVariableSimulation, simulation, sim_arg);
        crate::out::report(&[("sys_size", format!("{:?}", sys_arg.sys_size)), ("dim", format!("{:?}", sys_arg.dim)), ("target_pos", format!("{:?}", target_arg.target_pos)), ("target_size", format!("{:?}", target_arg.target_size)), ("mtype", format!("{:?}", agent_arg.mtype)), ("itype", format!("{:?}", agent_arg.itype)), ("ptl_radius", format!("{:?}", agent_arg.ptl_radius)), ("alpha", format!("{:?}", agent_arg.alpha)), ("num_agent", format!("{:?}", agent_arg.num_agent)), ("dt_min", format!("{:?}", time_arg.dt_min)), ("dt_max", format!("{:?}", time_arg.dt_max)), ("length", format!("{:?}", time_arg.length)), ("tmax", format!("{:?}", time_arg.tmax)), ("num_ensemble", format!("{:?}", sim_arg.num_ensemble)), ("seed", format!("{:?}", sim_arg.seed)), ("n_thrd", format!("{:?}", sim_arg.n_thrd)), ("output_dir", format!("{:?}", sim_arg.output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
}
mod p01111 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeVecAnalysis, ContCircSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, ParVariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_radius", format!("{:?}", ptl_radius)), ("alpha", format!("{:?}", alpha)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p01112 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", ProcessAnalysis, ContCircSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, ParVariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_radius", format!("{:?}", ptl_radius)), ("alpha", format!("{:?}", alpha)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p01120 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, ProcessSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_radius", format!("{:?}", ptl_radius)), ("alpha", format!("{:?}", alpha)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p01121 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeVecAnalysis, ContCircSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, ProcessSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_radius", format!("{:?}", ptl_radius)), ("alpha", format!("{:?}", alpha)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p01122 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", ProcessAnalysis, ContCircSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, ProcessSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_radius", format!("{:?}", ptl_radius)), ("alpha", format!("{:?}", alpha)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(args: Vec<String>) -> Result<(), Error> {
        construct_dataset!(SimulationData, ContCircSystem, sys_arg, ContCircSystemArguments, [sys_size, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveMergeAgent, agent_arg, ContPassiveMergeAgentArguments, [ptl_radius, f64, alpha, f64, num_agent, usize]; ExponentialStep, time_arg, ExponentialStepArguments, [dt_min, f64, dt_max, f64, length, usize, tmax, f64];{ProcessSimulation, sim_arg, ProcessSimulationArguments, [period, f64, idx_set, usize]});
        let args: Vec<String> = std::iter::repeat("skipped".to_string()).take(crate::out::lead(1)).chain(args).collect();
        setup_simulation_fixed!(args, 12, 1, ProcessAnalysis, "PRE", dataset, SimulationData, sys_arg, ContCircSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveMergeAgent, time_arg, ExponentialStep, sim_arg, ProcessSimulation);
        let dir = sim_arg.output_dir.clone();
        export_simulation_info!(dataset, dir, writer, WIDTH, "PRE", ContCircSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveMergeAgent, vec_agents, agent_arg, ExponentialStep, timeiter, time_arg, ProcessSimulation, simulation, sim_arg);
        crate::out::report(&[("sys_size", format!("{:?}", sys_arg.sys_size)), ("dim", format!("{:?}", sys_arg.dim)), ("target_pos", format!("{:?}", target_arg.target_pos)), ("target_size", format!("{:?}", target_arg.target_size)), ("mtype", format!("{:?}", agent_arg.mtype)), ("itype", format!("{:?}", agent_arg.itype)), ("ptl_radius", format!("{:?}", agent_arg.ptl_radius)), ("alpha", format!("{:?}", agent_arg.alpha)), ("num_agent", format!("{:?}", agent_arg.num_agent)), ("dt_min", format!("{:?}", time_arg.dt_min)), ("dt_max", format!("{:?}", time_arg.dt_max)), ("length", format!("{:?}", time_arg.length)), ("tmax", format!("{:?}", time_arg.tmax)), ("num_ensemble", format!("{:?}", sim_arg.num_ensemble)), ("period", format!("{:?}", sim_arg.period)), ("idx_set", format!("{:?}", sim_arg.idx_set)), ("seed", format!("{:?}", sim_arg.seed)), ("output_dir", format!("{:?}", sim_arg.output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
}
mod p02000 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, VariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("gamma", format!("{:?}", gamma)), ("exp_dim", format!("{:?}", exp_dim)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(args: Vec<String>) -> Result<(), Error> {
        construct_dataset!(SimulationData, ContCircSystem, sys_arg, ContCircSystemArguments, [sys_size, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveExpAgent, agent_arg, ContPassiveExpAgentArguments, [gamma, f64, strength, f64, num_agent, usize]; ConstStep, time_arg, ConstStepArguments, [dt, f64, tmax, f64];{VariableSimulation, sim_arg, VariableSimulationArguments, [idx_set, usize]});
        let args: Vec<String> = std::iter::repeat("skipped".to_string()).take(crate::out::lead(2)).chain(args).collect();
        setup_simulation_fixed!(args, 16, 2, TimeAnalysis, "PRE", dataset, SimulationData, sys_arg, ContCircSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveExpAgent, time_arg, ConstStep, sim_arg, VariableSimulation);
        let dir = sim_arg.output_dir.clone();
        export_simulation_info!(dataset, dir, writer, WIDTH, "PRE", ContCircSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveExpAgent, vec_agents, agent_arg, ConstStep, timeiter, time_arg, VariableSimulation, simulation, sim_arg);
        crate::out::report(&[("sys_size", format!("{:?}", sys_arg.sys_size)), ("dim", format!("{:?}", sys_arg.dim)), ("target_pos", format!("{:?}", target_arg.target_pos)), ("target_size", format!("{:?}", target_arg.target_size)), ("mtype", format!("{:?}", agent_arg.mtype)), ("itype", format!("{:?}", agent_arg.itype)), ("gamma", format!("{:?}", agent_arg.gamma)), ("exp_dim", format!("{:?}", agent_arg.exp_dim)), ("strength", format!("{:?}", agent_arg.strength)), ("num_agent", format!("{:?}", agent_arg.num_agent)), ("dt", format!("{:?}", time_arg.dt)), ("tmax", format!("{:?}", time_arg.tmax)), ("num_ensemble", format!("{:?}", sim_arg.num_ensemble)), ("idx_set", format!("{:?}", sim_arg.idx_set)), ("seed", format!("{:?}", sim_arg.seed)), ("output_dir", format!("{:?}", sim_arg.output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
}
mod p02001 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeVecAnalysis, ContCircSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, VariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("gamma", format!("{:?}", gamma)), ("exp_dim", format!("{:?}", exp_dim)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p02002 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", ProcessAnalysis, ContCircSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, VariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("gamma", format!("{:?}", gamma)), ("exp_dim", format!("{:?}", exp_dim)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p02010 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, ParVariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("gamma", format!("{:?}", gamma)), ("exp_dim", format!("{:?}", exp_dim)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(args: Vec<String>) -> Result<(), Error> {
        construct_dataset!(SimulationData, ContCircSystem, sys_arg, ContCircSystemArguments, [sys_size, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveExpAgent, agent_arg, ContPassiveExpAgentArguments, [gamma, f64, strength, f64, num_agent, usize]; ConstStep, time_arg, ConstStepArguments, [dt, f64, tmax, f64];{ParVariableSimulation, sim_arg, ParVariableSimulationArguments, [n_thrd, usize]});
        let args: Vec<String> = std::iter::repeat("skipped".to_string()).take(crate::out::lead(2)).chain(args).collect();
        setup_simulation_fixed!(args, 16, 2, TimeAnalysis, "PRE", dataset, SimulationData, sys_arg, ContCircSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveExpAgent, time_arg, ConstStep, sim_arg, ParVariableSimulation);
        let dir = sim_arg.output_dir.clone();
        export_simulation_info!(dataset, dir, writer, WIDTH, "PRE", ContCircSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveExpAgent, vec_agents, agent_arg, ConstStep, timeiter, time_arg, ParVariableSimulation, simulation, sim_arg);
        crate::out::report(&[("sys_size", format!("{:?}", sys_arg.sys_size)), ("dim", format!("{:?}", sys_arg.dim)), ("target_pos", format!("{:?}", target_arg.target_pos)), ("target_size", format!("{:?}", target_arg.target_size)), ("mtype", format!("{:?}", agent_arg.mtype)), ("itype", format!("{:?}", agent_arg.itype)), ("gamma", format!("{:?}", agent_arg.gamma)), ("exp_dim", format!("{:?}", agent_arg.exp_dim)), ("strength", format!("{:?}", agent_arg.strength)), ("num_agent", format!("{:?}", agent_arg.num_agent)), ("dt", format!("{:?}", time_arg.dt)), ("tmax", format!("{:?}", time_arg.tmax)), ("num_ensemble", format!("{:?}", sim_arg.num_ensemble)), ("seed", format!("{:?}", sim_arg.seed)), ("n_thrd", format!("{:?}", sim_arg.n_thrd)), ("output_dir", format!("{:?}", sim_arg.output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
}
mod p02011 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeVecAnalysis, ContCircSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, ParVariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("gamma", format!("{:?}", gamma)), ("exp_dim", format!("{:?}", exp_dim)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p02012 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", ProcessAnalysis, ContCircSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, ParVariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("gamma", format!("{:?}", gamma)), ("exp_dim", format!("{:?}", exp_dim)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p02020 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, ProcessSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("gamma", format!("{:?}", gamma)), ("exp_dim", format!("{:?}", exp_dim)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p02021 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeVecAnalysis, ContCircSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, ProcessSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("gamma", format!("{:?}", gamma)), ("exp_dim", format!("{:?}", exp_dim)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p02022 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", ProcessAnalysis, ContCircSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, ProcessSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("gamma", format!("{:?}", gamma)), ("exp_dim", format!("{:?}", exp_dim)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(args: Vec<String>) -> Result<(), Error> {
        construct_dataset!(SimulationData, ContCircSystem, sys_arg, ContCircSystemArguments, [sys_size, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveExpAgent, agent_arg, ContPassiveExpAgentArguments, [gamma, f64, strength, f64, num_agent, usize]; ConstStep, time_arg, ConstStepArguments, [dt, f64, tmax, f64];{ProcessSimulation, sim_arg, ProcessSimulationArguments, [period, f64, idx_set, usize]});
        let args: Vec<String> = std::iter::repeat("skipped".to_string()).take(crate::out::lead(2)).chain(args).collect();
        setup_simulation_fixed!(args, 16, 2, ProcessAnalysis, "PRE", dataset, SimulationData, sys_arg, ContCircSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveExpAgent, time_arg, ConstStep, sim_arg, ProcessSimulation);
        let dir = sim_arg.output_dir.clone();
        export_simulation_info!(dataset, dir, writer, WIDTH, "PRE", ContCircSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveExpAgent, vec_agents, agent_arg, ConstStep, timeiter, time_arg, ProcessSimulation, simulation, sim_arg);
        crate::out::report(&[("sys_size", format!("{:?}", sys_arg.sys_size)), ("dim", format!("{:?}", sys_arg.dim)), ("target_pos", format!("{:?}", target_arg.target_pos)), ("target_size", format!("{:?}", target_arg.target_size)), ("mtype", format!("{:?}", agent_arg.mtype)), ("itype", format!("{:?}", agent_arg.itype)), ("gamma", format!("{:?}", agent_arg.gamma)), ("exp_dim", format!("{:?}", agent_arg.exp_dim)), ("strength", format!("{:?}", agent_arg.strength)), ("num_agent", format!("{:?}", agent_arg.num_agent)), ("dt", format!("{:?}", time_arg.dt)), ("tmax", format!("{:?}", time_arg.tmax)), ("num_ensemble", format!("{:?}", sim_arg.num_ensemble)), ("period", format!("{:?}", sim_arg.period)), ("idx_set", format!("{:?}", sim_arg.idx_set)), ("seed", format!("{:?}", sim_arg.seed)), ("output_dir", format!("{:?}", sim_arg.output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
}
mod p02100 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, VariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("gamma", format!("{:?}", gamma)), ("exp_dim", format!("{:?}", exp_dim)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p02101 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeVecAnalysis, ContCircSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, VariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("gamma", format!("{:?}", gamma)), ("exp_dim", format!("{:?}", exp_dim)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(args: Vec<String>) -> Result<(), Error> {
        construct_dataset!(SimulationData, ContCircSystem, sys_arg, ContCircSystemArguments, [sys_size, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveExpAgent, agent_arg, ContPassiveExpAgentArguments, [gamma, f64, strength, f64, num_agent, usize]; ExponentialStep, time_arg, ExponentialStepArguments, [dt_min, f64, dt_max, f64, length, usize, tmax, f64];{VariableSimulation, sim_arg, VariableSimulationArguments, [idx_set, usize]});
        let args: Vec<String> = std::iter::repeat("skipped".to_string()).take(crate::out::lead(2)).chain(args).collect();
        setup_simulation_fixed!(args, 16, 2, TimeVecAnalysis, "PRE", dataset, SimulationData, sys_arg, ContCircSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveExpAgent, time_arg, ExponentialStep, sim_arg, VariableSimulation);
        let dir = sim_arg.output_dir.clone();
        export_simulation_info!(dataset, dir, writer, WIDTH, "PRE", ContCircSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveExpAgent, vec_agents, agent_arg, ExponentialStep, timeiter, time_arg, VariableSimulation, simulation, sim_arg);
        crate::out::report(&[("sys_size", format!("{:?}", sys_arg.sys_size)), ("dim", format!("{:?}", sys_arg.dim)), ("target_pos", format!("{:?}", target_arg.target_pos)), ("target_size", format!("{:?}", target_arg.target_size)), ("mtype", format!("{:?}", agent_arg.mtype)), ("itype", format!("{:?}", agent_arg.itype)), ("gamma", format!("{:?}", agent_arg.gamma)), ("exp_dim", format!("{:?}", agent_arg.exp_dim)), ("strength", format!("{:?}", agent_arg.strength)), ("num_agent", format!("{:?}", agent_arg.num_agent)), ("dt_min", format!("{:?}", time_arg.dt_min)), ("dt_max", format!("{:?}", time_arg.dt_max)), ("length", format!("{:?}", time_arg.length)), ("tmax", format!("{:?}", time_arg.tmax)), ("num_ensemble", format!("{:?}", sim_arg.num_ensemble)), ("idx_set", format!("{:?}", sim_arg.idx_set)), ("seed", format!("{:?}", sim_arg.seed)), ("output_dir", format!("{:?}", sim_arg.output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
}
mod p02102 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", ProcessAnalysis, ContCircSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, VariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("gamma", format!("{:?}", gamma)), ("exp_dim", format!("{:?}", exp_dim)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p02110 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, ParVariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("gamma", format!("{:?}", gamma)), ("exp_dim", format!("{:?}", exp_dim)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p02111 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeVecAnalysis, ContCircSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, ParVariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("gamma", format!("{:?}", gamma)), ("exp_dim", format!("{:?}", exp_dim)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(args: Vec<String>) -> Result<(), Error> {
        construct_dataset!(SimulationData, ContCircSystem, sys_arg, ContCircSystemArguments, [sys_size, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveExpAgent, agent_arg, ContPassiveExpAgentArguments, [gamma, f64, strength, f64, num_agent, usize]; ExponentialStep, time_arg, ExponentialStepArguments, [dt_min, f64, dt_max, f64, length, usize, tmax, f64];{ParVariableSimulation, sim_arg, ParVariableSimulationArguments, [n_thrd, usize]});
        let args: Vec<String> = std::iter::repeat("skipped".to_string()).take(crate::out::lead(2)).chain(args).collect();
        setup_simulation_fixed!(args, 16, 2, TimeVecAnalysis, "PRE", dataset, SimulationData, sys_arg, ContCircSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveExpAgent, time_arg, ExponentialStep, sim_arg, ParVariableSimulation);
        let dir = sim_arg.output_dir.clone();
        export_simulation_info!(dataset, dir, writer, WIDTH, "PRE", ContCircSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveExpAgent, vec_agents, agent_arg, ExponentialStep, timeiter, time_arg, ParVariableSimulation, simulation, sim_arg);
        crate::out::report(&[("sys_size", format!("{:?}", sys_arg.sys_size)), ("dim", format!("{:?}", sys_arg.dim)), ("target_pos", format!("{:?}", target_arg.target_pos)), ("target_size", format!("{:?}", target_arg.target_size)), ("mtype", format!("{:?}", agent_arg.mtype)), ("itype", format!("{:?}", agent_arg.itype)), ("gamma", format!("{:?}", agent_arg.gamma)), ("exp_dim", format!("{:?}", agent_arg.exp_dim)), ("strength", format!("{:?}", agent_arg.strength)), ("num_agent", format!("{:?}", agent_arg.num_agent)), ("dt_min", format!("{:?}", time_arg.dt_min)), ("dt_max", format!("{:?}", time_arg.dt_max)), ("length", format!("{:?}", time_arg.length)), ("tmax", format!("{:?}", time_arg.tmax)), ("num_ensemble", format!("{:?}", sim_arg.num_ensemble)), ("seed", format!("{:?}", sim_arg.seed)), ("n_thrd", format!("{:?}", sim_arg.n_thrd)), ("output_dir", format!("{:?}", sim_arg.output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
}
mod p02112 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", ProcessAnalysis, ContCircSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, ParVariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("gamma", format!("{:?}", gamma)), ("exp_dim", format!("{:?}", exp_dim)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p02120 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, ProcessSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("gamma", format!("{:?}", gamma)), ("exp_dim", format!("{:?}", exp_dim)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p02121 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeVecAnalysis, ContCircSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, ProcessSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("gamma", format!("{:?}", gamma)), ("exp_dim", format!("{:?}", exp_dim)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p02122 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", ProcessAnalysis, ContCircSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, ProcessSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("gamma", format!("{:?}", gamma)), ("exp_dim", format!("{:?}", exp_dim)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(args: Vec<String>) -> Result<(), Error> {
        construct_dataset!(SimulationData, ContCircSystem, sys_arg, ContCircSystemArguments, [sys_size, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveExpAgent, agent_arg, ContPassiveExpAgentArguments, [gamma, f64, strength, f64, num_agent, usize]; ExponentialStep, time_arg, ExponentialStepArguments, [dt_min, f64, dt_max, f64, length, usize, tmax, f64];{ProcessSimulation, sim_arg, ProcessSimulationArguments, [period, f64, idx_set, usize]});
        let args: Vec<String> = std::iter::repeat("skipped".to_string()).take(crate::out::lead(2)).chain(args).collect();
        setup_simulation_fixed!(args, 16, 2, ProcessAnalysis, "PRE", dataset, SimulationData, sys_arg, ContCircSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveExpAgent, time_arg, ExponentialStep, sim_arg, ProcessSimulation);
        let dir = sim_arg.output_dir.clone();
        export_simulation_info!(dataset, dir, writer, WIDTH, "PRE", ContCircSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveExpAgent, vec_agents, agent_arg, ExponentialStep, timeiter, time_arg, ProcessSimulation, simulation, sim_arg);
        crate::out::report(&[("sys_size", format!("{:?}", sys_arg.sys_size)), ("dim", format!("{:?}", sys_arg.dim)), ("target_pos", format!("{:?}", target_arg.target_pos)), ("target_size", format!("{:?}", target_arg.target_size)), ("mtype", format!("{:?}", agent_arg.mtype)), ("itype", format!("{:?}", agent_arg.itype)), ("gamma", format!("{:?}", agent_arg.gamma)), ("exp_dim", format!("{:?}", agent_arg.exp_dim)), ("strength", format!("{:?}", agent_arg.strength)), ("num_agent", format!("{:?}", agent_arg.num_agent)), ("dt_min", format!("{:?}", time_arg.dt_min)), ("dt_max", format!("{:?}", time_arg.dt_max)), ("length", format!("{:?}", time_arg.length)), ("tmax", format!("{:?}", time_arg.tmax)), ("num_ensemble", format!("{:?}", sim_arg.num_ensemble)), ("period", format!("{:?}", sim_arg.period)), ("idx_set", format!("{:?}", sim_arg.idx_set)), ("seed", format!("{:?}", sim_arg.seed)), ("output_dir", format!("{:?}", sim_arg.output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
}
mod p03000 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, VariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_size", format!("{:?}", ptl_size)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p03001 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeVecAnalysis, ContCircSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, VariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_size", format!("{:?}", ptl_size)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(args: Vec<String>) -> Result<(), Error> {
        construct_dataset!(SimulationData, ContCircSystem, sys_arg, ContCircSystemArguments, [sys_size, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveLJAgent, agent_arg, ContPassiveLJAgentArguments, [ptl_size, f64, strength, f64, num_agent, usize]; ConstStep, time_arg, ConstStepArguments, [dt, f64, tmax, f64];{VariableSimulation, sim_arg, VariableSimulationArguments, [idx_set, usize]});
        let args: Vec<String> = std::iter::repeat("skipped".to_string()).take(crate::out::lead(0)).chain(args).collect();
        setup_simulation_fixed!(args, 8, 0, TimeVecAnalysis, "PRE", dataset, SimulationData, sys_arg, ContCircSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveLJAgent, time_arg, ConstStep, sim_arg, VariableSimulation);
        let dir = sim_arg.output_dir.clone();
        export_simulation_info!(dataset, dir, writer, WIDTH, "PRE", ContCircSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveLJAgent, vec_agents, agent_arg, ConstStep, timeiter, time_arg, VariableSimulation, simulation, sim_arg);
        crate::out::report(&[("sys_size", format!("{:?}", sys_arg.sys_size)), ("dim", format!("{:?}", sys_arg.dim)), ("target_pos", format!("{:?}", target_arg.target_pos)), ("target_size", format!("{:?}", target_arg.target_size)), ("mtype", format!("{:?}", agent_arg.mtype)), ("itype", format!("{:?}", agent_arg.itype)), ("ptl_size", format!("{:?}", agent_arg.ptl_size)), ("strength", format!("{:?}", agent_arg.strength)), ("num_agent", format!("{:?}", agent_arg.num_agent)), ("dt", format!("{:?}", time_arg.dt)), ("tmax", format!("{:?}", time_arg.tmax)), ("num_ensemble", format!("{:?}", sim_arg.num_ensemble)), ("idx_set", format!("{:?}", sim_arg.idx_set)), ("seed", format!("{:?}", sim_arg.seed)), ("output_dir", format!("{:?}", sim_arg.output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
}
mod p03002 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", ProcessAnalysis, ContCircSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, VariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_size", format!("{:?}", ptl_size)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p03010 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, ParVariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_size", format!("{:?}", ptl_size)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p03011 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeVecAnalysis, ContCircSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, ParVariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_size", format!("{:?}", ptl_size)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(args: Vec<String>) -> Result<(), Error> {
        construct_dataset!(SimulationData, ContCircSystem, sys_arg, ContCircSystemArguments, [sys_size, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveLJAgent, agent_arg, ContPassiveLJAgentArguments, [ptl_size, f64, strength, f64, num_agent, usize]; ConstStep, time_arg, ConstStepArguments, [dt, f64, tmax, f64];{ParVariableSimulation, sim_arg, ParVariableSimulationArguments, [n_thrd, usize]});
        let args: Vec<String> = std::iter::repeat("skipped".to_string()).take(crate::out::lead(0)).chain(args).collect();
        setup_simulation_fixed!(args, 8, 0, TimeVecAnalysis, "PRE", dataset, SimulationData, sys_arg, ContCircSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveLJAgent, time_arg, ConstStep, sim_arg, ParVariableSimulation);
        let dir = sim_arg.output_dir.clone();
        export_simulation_info!(dataset, dir, writer, WIDTH, "PRE", ContCircSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveLJAgent, vec_agents, agent_arg, ConstStep, timeiter, time_arg, ParVariableSimulation, simulation, sim_arg);
        crate::out::report(&[("sys_size", format!("{:?}", sys_arg.sys_size)), ("dim", format!("{:?}", sys_arg.dim)), ("target_pos", format!("{:?}", target_arg.target_pos)), ("target_size", format!("{:?}", target_arg.target_size)), ("mtype", format!("{:?}", agent_arg.mtype)), ("itype", format!("{:?}", agent_arg.itype)), ("ptl_size", format!("{:?}", agent_arg.ptl_size)), ("strength", format!("{:?}", agent_arg.strength)), ("num_agent", format!("{:?}", agent_arg.num_agent)), ("dt", format!("{:?}", time_arg.dt)), ("tmax", format!("{:?}", time_arg.tmax)), ("num_ensemble", format!("{:?}", sim_arg.num_ensemble)), ("seed", format!("{:?}", sim_arg.seed)), ("n_thrd", format!("{:?}", sim_arg.n_thrd)), ("output_dir", format!("{:?}", sim_arg.output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
}
mod p03012 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", ProcessAnalysis, ContCircSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, ParVariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_size", format!("{:?}", ptl_size)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p03020 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, ProcessSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_size", format!("{:?}", ptl_size)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p03021 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeVecAnalysis, ContCircSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, ProcessSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_size", format!("{:?}", ptl_size)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p03022 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", ProcessAnalysis, ContCircSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, ProcessSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_size", format!("{:?}", ptl_size)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(args: Vec<String>) -> Result<(), Error> {
        construct_dataset!(SimulationData, ContCircSystem, sys_arg, ContCircSystemArguments, [sys_size, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveLJAgent, agent_arg, ContPassiveLJAgentArguments, [ptl_size, f64, strength, f64, num_agent, usize]; ConstStep, time_arg, ConstStepArguments, [dt, f64, tmax, f64];{ProcessSimulation, sim_arg, ProcessSimulationArguments, [period, f64, idx_set, usize]});
        let args: Vec<String> = std::iter::repeat("skipped".to_string()).take(crate::out::lead(0)).chain(args).collect();
        setup_simulation_fixed!(args, 8, 0, ProcessAnalysis, "PRE", dataset, SimulationData, sys_arg, ContCircSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveLJAgent, time_arg, ConstStep, sim_arg, ProcessSimulation);
        let dir = sim_arg.output_dir.clone();
        export_simulation_info!(dataset, dir, writer, WIDTH, "PRE", ContCircSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveLJAgent, vec_agents, agent_arg, ConstStep, timeiter, time_arg, ProcessSimulation, simulation, sim_arg);
        crate::out::report(&[("sys_size", format!("{:?}", sys_arg.sys_size)), ("dim", format!("{:?}", sys_arg.dim)), ("target_pos", format!("{:?}", target_arg.target_pos)), ("target_size", format!("{:?}", target_arg.target_size)), ("mtype", format!("{:?}", agent_arg.mtype)), ("itype", format!("{:?}", agent_arg.itype)), ("ptl_size", format!("{:?}", agent_arg.ptl_size)), ("strength", format!("{:?}", agent_arg.strength)), ("num_agent", format!("{:?}", agent_arg.num_agent)), ("dt", format!("{:?}", time_arg.dt)), ("tmax", format!("{:?}", time_arg.tmax)), ("num_ensemble", format!("{:?}", sim_arg.num_ensemble)), ("period", format!("{:?}", sim_arg.period)), ("idx_set", format!("{:?}", sim_arg.idx_set)), ("seed", format!("{:?}", sim_arg.seed)), ("output_dir", format!("{:?}", sim_arg.output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
}
mod p03100 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, VariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_size", format!("{:?}", ptl_size)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(args: Vec<String>) -> Result<(), Error> {
        construct_dataset!(SimulationData, ContCircSystem, sys_arg, ContCircSystemArguments, [sys_size, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveLJAgent, agent_arg, ContPassiveLJAgentArguments, [ptl_size, f64, strength, f64, num_agent, usize]; ExponentialStep, time_arg, ExponentialStepArguments, [dt_min, f64, dt_max, f64, length, usize, tmax, f64];{VariableSimulation, sim_arg, VariableSimulationArguments, [idx_set, usize]});
        let args: Vec<String> = std::iter::repeat("skipped".to_string()).take(crate::out::lead(0)).chain(args).collect();
        setup_simulation_fixed!(args, 8, 0, TimeAnalysis, "PRE", dataset, SimulationData, sys_arg, ContCircSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveLJAgent, time_arg, ExponentialStep, sim_arg, VariableSimulation);
        let dir = sim_arg.output_dir.clone();
        export_simulation_info!(dataset, dir, writer, WIDTH, "PRE", ContCircSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveLJAgent, vec_agents, agent_arg, ExponentialStep, timeiter, time_arg, VariableSimulation, simulation, sim_arg);
        crate::out::report(&[("sys_size", format!("{:?}", sys_arg.sys_size)), ("dim", format!("{:?}", sys_arg.dim)), ("target_pos", format!("{:?}", target_arg.target_pos)), ("target_size", format!("{:?}", target_arg.target_size)), ("mtype", format!("{:?}", agent_arg.mtype)), ("itype", format!("{:?}", agent_arg.itype)), ("ptl_size", format!("{:?}", agent_arg.ptl_size)), ("strength", format!("{:?}", agent_arg.strength)), ("num_agent", format!("{:?}", agent_arg.num_agent)), ("dt_min", format!("{:?}", time_arg.dt_min)), ("dt_max", format!("{:?}", time_arg.dt_max)), ("length", format!("{:?}", time_arg.length)), ("tmax", format!("{:?}", time_arg.tmax)), ("num_ensemble", format!("{:?}", sim_arg.num_ensemble)), ("idx_set", format!("{:?}", sim_arg.idx_set)), ("seed", format!("{:?}", sim_arg.seed)), ("output_dir", format!("{:?}", sim_arg.output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
}
mod p03101 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeVecAnalysis, ContCircSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, VariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_size", format!("{:?}", ptl_size)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p03102 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", ProcessAnalysis, ContCircSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, VariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_size", format!("{:?}", ptl_size)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p03110 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, ParVariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_size", format!("{:?}", ptl_size)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(args: Vec<String>) -> Result<(), Error> {
        construct_dataset!(SimulationData, ContCircSystem, sys_arg, ContCircSystemArguments, [sys_size, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveLJAgent, agent_arg, ContPassiveLJAgentArguments, [ptl_size, f64, strength, f64, num_agent, usize]; ExponentialStep, time_arg, ExponentialStepArguments, [dt_min, f64, dt_max, f64, length, usize, tmax, f64];{ParVariableSimulation, sim_arg, ParVariableSimulationArguments, [n_thrd, usize]});
        let args: Vec<String> = std::iter::repeat("skipped".to_string()).take(crate::out::lead(0)).chain(args).collect();
        setup_simulation_fixed!(args, 8, 0, TimeAnalysis, "PRE", dataset, SimulationData, sys_arg, ContCircSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveLJAgent, time_arg, ExponentialStep, sim_arg, ParVariableSimulation);
        let dir = sim_arg.output_dir.clone();
        export_simulation_info!(dataset, dir, writer, WIDTH, "PRE", ContCircSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveLJAgent, vec_agents, agent_arg, ExponentialStep, timeiter, time_arg, ParVariableSimulation, simulation, sim_arg);
        crate::out::report(&[("sys_size", format!("{:?}", sys_arg.sys_size)), ("dim", format!("{:?}", sys_arg.dim)), ("target_pos", format!("{:?}", target_arg.target_pos)), ("target_size", format!("{:?}", target_arg.target_size)), ("mtype", format!("{:?}", agent_arg.mtype)), ("itype", format!("{:?}", agent_arg.itype)), ("ptl_size", format!("{:?}", agent_arg.ptl_size)), ("strength", format!("{:?}", agent_arg.strength)), ("num_agent", format!("{:?}", agent_arg.num_agent)), ("dt_min", format!("{:?}", time_arg.dt_min)), ("dt_max", format!("{:?}", time_arg.dt_max)), ("length", format!("{:?}", time_arg.length)), ("tmax", format!("{:?}", time_arg.tmax)), ("num_ensemble", format!("{:?}", sim_arg.num_ensemble)), ("seed", format!("{:?}", sim_arg.seed)), ("n_thrd", format!("{:?}", sim_arg.n_thrd)), ("output_dir", format!("{:?}", sim_arg.output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
}
mod p03111 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeVecAnalysis, ContCircSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, ParVariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_size", format!("{:?}", ptl_size)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p03112 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", ProcessAnalysis, ContCircSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, ParVariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_size", format!("{:?}", ptl_size)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p03120 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, ProcessSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_size", format!("{:?}", ptl_size)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p03121 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeVecAnalysis, ContCircSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, ProcessSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_size", format!("{:?}", ptl_size)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p03122 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", ProcessAnalysis, ContCircSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, ProcessSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_size", format!("{:?}", ptl_size)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(args: Vec<String>) -> Result<(), Error> {
        construct_dataset!(SimulationData, ContCircSystem, sys_arg, ContCircSystemArguments, [sys_size, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveLJAgent, agent_arg, ContPassiveLJAgentArguments, [ptl_size, f64, strength, f64, num_agent, usize]; ExponentialStep, time_arg, ExponentialStepArguments, [dt_min, f64, dt_max, f64, length, usize, tmax, f64];{ProcessSimulation, sim_arg, ProcessSimulationArguments, [period, f64, idx_set, usize]});
        let args: Vec<String> = std::iter::repeat("skipped".to_string()).take(crate::out::lead(0)).chain(args).collect();
        setup_simulation_fixed!(args, 8, 0, ProcessAnalysis, "PRE", dataset, SimulationData, sys_arg, ContCircSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveLJAgent, time_arg, ExponentialStep, sim_arg, ProcessSimulation);
        let dir = sim_arg.output_dir.clone();
        export_simulation_info!(dataset, dir, writer, WIDTH, "PRE", ContCircSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveLJAgent, vec_agents, agent_arg, ExponentialStep, timeiter, time_arg, ProcessSimulation, simulation, sim_arg);
        crate::out::report(&[("sys_size", format!("{:?}", sys_arg.sys_size)), ("dim", format!("{:?}", sys_arg.dim)), ("target_pos", format!("{:?}", target_arg.target_pos)), ("target_size", format!("{:?}", target_arg.target_size)), ("mtype", format!("{:?}", agent_arg.mtype)), ("itype", format!("{:?}", agent_arg.itype)), ("ptl_size", format!("{:?}", agent_arg.ptl_size)), ("strength", format!("{:?}", agent_arg.strength)), ("num_agent", format!("{:?}", agent_arg.num_agent)), ("dt_min", format!("{:?}", time_arg.dt_min)), ("dt_max", format!("{:?}", time_arg.dt_max)), ("length", format!("{:?}", time_arg.length)), ("tmax", format!("{:?}", time_arg.tmax)), ("num_ensemble", format!("{:?}", sim_arg.num_ensemble)), ("period", format!("{:?}", sim_arg.period)), ("idx_set", format!("{:?}", sim_arg.idx_set)), ("seed", format!("{:?}", sim_arg.seed)), ("output_dir", format!("{:?}", sim_arg.output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
}
mod p10000 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, VariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p10001 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeVecAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, VariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(args: Vec<String>) -> Result<(), Error> {
        construct_dataset!(SimulationData, ContCubicSystem, sys_arg, ContCubicSystemArguments, [sys_size, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveIndepAgent, agent_arg, ContPassiveIndepAgentArguments, [num_agent, usize]; ConstStep, time_arg, ConstStepArguments, [dt, f64, tmax, f64];{VariableSimulation, sim_arg, VariableSimulationArguments, [idx_set, usize]});
        let args: Vec<String> = std::iter::repeat("skipped".to_string()).take(crate::out::lead(1)).chain(args).collect();
        setup_simulation_fixed!(args, 8, 1, TimeVecAnalysis, "PRE", dataset, SimulationData, sys_arg, ContCubicSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveIndepAgent, time_arg, ConstStep, sim_arg, VariableSimulation);
        let dir = sim_arg.output_dir.clone();
        export_simulation_info!(dataset, dir, writer, WIDTH, "PRE", ContCubicSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveIndepAgent, vec_agents, agent_arg, ConstStep, timeiter, time_arg, VariableSimulation, simulation, sim_arg);
        crate::out::report(&[("bctype", format!("{:?}", sys_arg.bctype)), ("sys_size", format!("{:?}", sys_arg.sys_size)), ("dim", format!("{:?}", sys_arg.dim)), ("target_pos", format!("{:?}", target_arg.target_pos)), ("target_size", format!("{:?}", target_arg.target_size)), ("mtype", format!("{:?}", agent_arg.mtype)), ("itype", format!("{:?}", agent_arg.itype)), ("num_agent", format!("{:?}", agent_arg.num_agent)), ("dt", format!("{:?}", time_arg.dt)), ("tmax", format!("{:?}", time_arg.tmax)), ("num_ensemble", format!("{:?}", sim_arg.num_ensemble)), ("idx_set", format!("{:?}", sim_arg.idx_set)), ("seed", format!("{:?}", sim_arg.seed)), ("output_dir", format!("{:?}", sim_arg.output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
}
mod p10002 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", ProcessAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, VariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p10010 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, ParVariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p10011 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeVecAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, ParVariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(args: Vec<String>) -> Result<(), Error> {
        construct_dataset!(SimulationData, ContCubicSystem, sys_arg, ContCubicSystemArguments, [sys_size, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveIndepAgent, agent_arg, ContPassiveIndepAgentArguments, [num_agent, usize]; ConstStep, time_arg, ConstStepArguments, [dt, f64, tmax, f64];{ParVariableSimulation, sim_arg, ParVariableSimulationArguments, [n_thrd, usize]});
        let args: Vec<String> = std::iter::repeat("skipped".to_string()).take(crate::out::lead(1)).chain(args).collect();
        setup_simulation_fixed!(args, 8, 1, TimeVecAnalysis, "PRE", dataset, SimulationData, sys_arg, ContCubicSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveIndepAgent, time_arg, ConstStep, sim_arg, ParVariableSimulation);
        let dir = sim_arg.output_dir.clone();
        export_simulation_info!(dataset, dir, writer, WIDTH, "PRE", ContCubicSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveIndepAgent, vec_agents, agent_arg, ConstStep, timeiter, time_arg, ParVariableSimulation, simulation, sim_arg);
        crate::out::report(&[("bctype", format!("{:?}", sys_arg.bctype)), ("sys_size", format!("{:?}", sys_arg.sys_size)), ("dim", format!("{:?}", sys_arg.dim)), ("target_pos", format!("{:?}", target_arg.target_pos)), ("target_size", format!("{:?}", target_arg.target_size)), ("mtype", format!("{:?}", agent_arg.mtype)), ("itype", format!("{:?}", agent_arg.itype)), ("num_agent", format!("{:?}", agent_arg.num_agent)), ("dt", format!("{:?}", time_arg.dt)), ("tmax", format!("{:?}", time_arg.tmax)), ("num_ensemble", format!("{:?}", sim_arg.num_ensemble)), ("seed", format!("{:?}", sim_arg.seed)), ("n_thrd", format!("{:?}", sim_arg.n_thrd)), ("output_dir", format!("{:?}", sim_arg.output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
}
mod p10012 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", ProcessAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, ParVariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p10020 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, ProcessSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p10021 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeVecAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, ProcessSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p10022 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", ProcessAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, ProcessSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(args: Vec<String>) -> Result<(), Error> {
        construct_dataset!(SimulationData, ContCubicSystem, sys_arg, ContCubicSystemArguments, [sys_size, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveIndepAgent, agent_arg, ContPassiveIndepAgentArguments, [num_agent, usize]; ConstStep, time_arg, ConstStepArguments, [dt, f64, tmax, f64];{ProcessSimulation, sim_arg, ProcessSimulationArguments, [period, f64, idx_set, usize]});
        let args: Vec<String> = std::iter::repeat("skipped".to_string()).take(crate::out::lead(1)).chain(args).collect();
        setup_simulation_fixed!(args, 8, 1, ProcessAnalysis, "PRE", dataset, SimulationData, sys_arg, ContCubicSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveIndepAgent, time_arg, ConstStep, sim_arg, ProcessSimulation);
        let dir = sim_arg.output_dir.clone();
        export_simulation_info!(dataset, dir, writer, WIDTH, "PRE", ContCubicSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveIndepAgent, vec_agents, agent_arg, ConstStep, timeiter, time_arg, ProcessSimulation, simulation, sim_arg);
        crate::out::report(&[("bctype", format!("{:?}", sys_arg.bctype)), ("sys_size", format!("{:?}", sys_arg.sys_size)), ("dim", format!("{:?}", sys_arg.dim)), ("target_pos", format!("{:?}", target_arg.target_pos)), ("target_size", format!("{:?}", target_arg.target_size)), ("mtype", format!("{:?}", agent_arg.mtype)), ("itype", format!("{:?}", agent_arg.itype)), ("num_agent", format!("{:?}", agent_arg.num_agent)), ("dt", format!("{:?}", time_arg.dt)), ("tmax", format!("{:?}", time_arg.tmax)), ("num_ensemble", format!("{:?}", sim_arg.num_ensemble)), ("period", format!("{:?}", sim_arg.period)), ("idx_set", format!("{:?}", sim_arg.idx_set)), ("seed", format!("{:?}", sim_arg.seed)), ("output_dir", format!("{:?}", sim_arg.output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
}
mod p10100 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, VariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(args: Vec<String>) -> Result<(), Error> {
        construct_dataset!(SimulationData, ContCubicSystem, sys_arg, ContCubicSystemArguments, [sys_size, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveIndepAgent, agent_arg, ContPassiveIndepAgentArguments, [num_agent, usize]; ExponentialStep, time_arg, ExponentialStepArguments, [dt_min, f64, dt_max, f64, length, usize, tmax, f64];{VariableSimulation, sim_arg, VariableSimulationArguments, [idx_set, usize]});
        let args: Vec<String> = std::iter::repeat("skipped".to_string()).take(crate::out::lead(1)).chain(args).collect();
        setup_simulation_fixed!(args, 8, 1, TimeAnalysis, "PRE", dataset, SimulationData, sys_arg, ContCubicSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveIndepAgent, time_arg, ExponentialStep, sim_arg, VariableSimulation);
        let dir = sim_arg.output_dir.clone();
        export_simulation_info!(dataset, dir, writer, WIDTH, "PRE", ContCubicSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveIndepAgent, vec_agents, agent_arg, ExponentialStep, timeiter, time_arg, VariableSimulation, simulation, sim_arg);
        crate::out::report(&[("bctype", format!("{:?}", sys_arg.bctype)), ("sys_size", format!("{:?}", sys_arg.sys_size)), ("dim", format!("{:?}", sys_arg.dim)), ("target_pos", format!("{:?}", target_arg.target_pos)), ("target_size", format!("{:?}", target_arg.target_size)), ("mtype", format!("{:?}", agent_arg.mtype)), ("itype", format!("{:?}", agent_arg.itype)), ("num_agent", format!("{:?}", agent_arg.num_agent)), ("dt_min", format!("{:?}", time_arg.dt_min)), ("dt_max", format!("{:?}", time_arg.dt_max)), ("length", format!("{:?}", time_arg.length)), ("tmax", format!("{:?}", time_arg.tmax)), ("num_ensemble", format!("{:?}", sim_arg.num_ensemble)), ("idx_set", format!("{:?}", sim_arg.idx_set)), ("seed", format!("{:?}", sim_arg.seed)), ("output_dir", format!("{:?}", sim_arg.output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
}
mod p10101 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeVecAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, VariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p10102 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", ProcessAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, VariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p10110 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, ParVariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(args: Vec<String>) -> Result<(), Error> {
        construct_dataset!(SimulationData, ContCubicSystem, sys_arg, ContCubicSystemArguments, [sys_size, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveIndepAgent, agent_arg, ContPassiveIndepAgentArguments, [num_agent, usize]; ExponentialStep, time_arg, ExponentialStepArguments, [dt_min, f64, dt_max, f64, length, usize, tmax, f64];{ParVariableSimulation, sim_arg, ParVariableSimulationArguments, [n_thrd, usize]});
        let args: Vec<String> = std::iter::repeat("skipped".to_string()).take(crate::out::lead(1)).chain(args).collect();
        setup_simulation_fixed!(args, 8, 1, TimeAnalysis, "PRE", dataset, SimulationData, sys_arg, ContCubicSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveIndepAgent, time_arg, ExponentialStep, sim_arg, ParVariableSimulation);
        let dir = sim_arg.output_dir.clone();
        export_simulation_info!(dataset, dir, writer, WIDTH, "PRE", ContCubicSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveIndepAgent, vec_agents, agent_arg, ExponentialStep, timeiter, time_arg, ParVariableSimulation, simulation, sim_arg);
        crate::out::report(&[("bctype", format!("{:?}", sys_arg.bctype)), ("sys_size", format!("{:?}", sys_arg.sys_size)), ("dim", format!("{:?}", sys_arg.dim)), ("target_pos", format!("{:?}", target_arg.target_pos)), ("target_size", format!("{:?}", target_arg.target_size)), ("mtype", format!("{:?}", agent_arg.mtype)), ("itype", format!("{:?}", agent_arg.itype)), ("num_agent", format!("{:?}", agent_arg.num_agent)), ("dt_min", format!("{:?}", time_arg.dt_min)), ("dt_max", format!("{:?}", time_arg.dt_max)), ("length", format!("{:?}", time_arg.length)), ("tmax", format!("{:?}", time_arg.tmax)), ("num_ensemble", format!("{:?}", sim_arg.num_ensemble)), ("seed", format!("{:?}", sim_arg.seed)), ("n_thrd", format!("{:?}", sim_arg.n_thrd)), ("output_dir", format!("{:?}", sim_arg.output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
}
mod p10111 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeVecAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, ParVariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p10112 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", ProcessAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, ParVariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p10120 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, ProcessSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p10121 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeVecAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, ProcessSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p10122 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", ProcessAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, ProcessSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(args: Vec<String>) -> Result<(), Error> {
        construct_dataset!(SimulationData, ContCubicSystem, sys_arg, ContCubicSystemArguments, [sys_size, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveIndepAgent, agent_arg, ContPassiveIndepAgentArguments, [num_agent, usize]; ExponentialStep, time_arg, ExponentialStepArguments, [dt_min, f64, dt_max, f64, length, usize, tmax, f64];{ProcessSimulation, sim_arg, ProcessSimulationArguments, [period, f64, idx_set, usize]});
        let args: Vec<String> = std::iter::repeat("skipped".to_string()).take(crate::out::lead(1)).chain(args).collect();
        setup_simulation_fixed!(args, 8, 1, ProcessAnalysis, "PRE", dataset, SimulationData, sys_arg, ContCubicSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveIndepAgent, time_arg, ExponentialStep, sim_arg, ProcessSimulation);
        let dir = sim_arg.output_dir.clone();
        export_simulation_info!(dataset, dir, writer, WIDTH, "PRE", ContCubicSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveIndepAgent, vec_agents, agent_arg, ExponentialStep, timeiter, time_arg, ProcessSimulation, simulation, sim_arg);
        crate::out::report(&[("bctype", format!("{:?}", sys_arg.bctype)), ("sys_size", format!("{:?}", sys_arg.sys_size)), ("dim", format!("{:?}", sys_arg.dim)), ("target_pos", format!("{:?}", target_arg.target_pos)), ("target_size", format!("{:?}", target_arg.target_size)), ("mtype", format!("{:?}", agent_arg.mtype)), ("itype", format!("{:?}", agent_arg.itype)), ("num_agent", format!("{:?}", agent_arg.num_agent)), ("dt_min", format!("{:?}", time_arg.dt_min)), ("dt_max", format!("{:?}", time_arg.dt_max)), ("length", format!("{:?}", time_arg.length)), ("tmax", format!("{:?}", time_arg.tmax)), ("num_ensemble", format!("{:?}", sim_arg.num_ensemble)), ("period", format!("{:?}", sim_arg.period)), ("idx_set", format!("{:?}", sim_arg.idx_set)), ("seed", format!("{:?}", sim_arg.seed)), ("output_dir", format!("{:?}", sim_arg.output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
}
mod p11000 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, VariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_radius", format!("{:?}", ptl_radius)), ("alpha", format!("{:?}", alpha)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(args: Vec<String>) -> Result<(), Error> {
        construct_dataset!(SimulationData, ContCubicSystem, sys_arg, ContCubicSystemArguments, [sys_size, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveMergeAgent, agent_arg, ContPassiveMergeAgentArguments, [ptl_radius, f64, alpha, f64, num_agent, usize]; ConstStep, time_arg, ConstStepArguments, [dt, f64, tmax, f64];{VariableSimulation, sim_arg, VariableSimulationArguments, [idx_set, usize]});
        let args: Vec<String> = std::iter::repeat("skipped".to_string()).take(crate::out::lead(2)).chain(args).collect();
        setup_simulation_fixed!(args, 12, 2, TimeAnalysis, "PRE", dataset, SimulationData, sys_arg, ContCubicSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveMergeAgent, time_arg, ConstStep, sim_arg, VariableSimulation);
        let dir = sim_arg.output_dir.clone();
        export_simulation_info!(dataset, dir, writer, WIDTH, "PRE", ContCubicSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveMergeAgent, vec_agents, agent_arg, ConstStep, timeiter, time_arg, VariableSimulation, simulation, sim_arg);
        crate::out::report(&[("bctype", format!("{:?}", sys_arg.bctype)), ("sys_size", format!("{:?}", sys_arg.sys_size)), ("dim", format!("{:?}", sys_arg.dim)), ("target_pos", format!("{:?}", target_arg.target_pos)), ("target_size", format!("{:?}", target_arg.target_size)), ("mtype", format!("{:?}", agent_arg.mtype)), ("itype", format!("{:?}", agent_arg.itype)), ("ptl_radius", format!("{:?}", agent_arg.ptl_radius)), ("alpha", format!("{:?}", agent_arg.alpha)), ("num_agent", format!("{:?}", agent_arg.num_agent)), ("dt", format!("{:?}", time_arg.dt)), ("tmax", format!("{:?}", time_arg.tmax)), ("num_ensemble", format!("{:?}", sim_arg.num_ensemble)), ("idx_set", format!("{:?}", sim_arg.idx_set)), ("seed", format!("{:?}", sim_arg.seed)), ("output_dir", format!("{:?}", sim_arg.output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
}
mod p11001 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeVecAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, VariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_radius", format!("{:?}", ptl_radius)), ("alpha", format!("{:?}", alpha)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p11002 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", ProcessAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, VariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_radius", format!("{:?}", ptl_radius)), ("alpha", format!("{:?}", alpha)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p11010 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, ParVariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_radius", format!("{:?}", ptl_radius)), ("alpha", format!("{:?}", alpha)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(args: Vec<String>) -> Result<(), Error> {
        construct_dataset!(SimulationData, ContCubicSystem, sys_arg, ContCubicSystemArguments, [sys_size, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveMergeAgent, agent_arg, ContPassiveMergeAgentArguments, [ptl_radius, f64, alpha, f64, num_agent, usize]; ConstStep, time_arg, ConstStepArguments, [dt, f64, tmax, f64];{ParVariableSimulation, sim_arg, ParVariableSimulationArguments, [n_thrd, usize]});
        let args: Vec<String> = std::iter::repeat("skipped".to_string()).take(crate::out::lead(2)).chain(args).collect();
        setup_simulation_fixed!(args, 12, 2, TimeAnalysis, "PRE", dataset, SimulationData, sys_arg, ContCubicSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveMergeAgent, time_arg, ConstStep, sim_arg, ParVariableSimulation);
        let dir = sim_arg.output_dir.clone();
        export_simulation_info!(dataset, dir, writer, WIDTH, "PRE", ContCubicSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveMergeAgent, vec_agents, agent_arg, ConstStep, timeiter, time_arg, ParVariableSimulation, simulation, sim_arg);
        crate::out::report(&[("bctype", format!("{:?}", sys_arg.bctype)), ("sys_size", format!("{:?}", sys_arg.sys_size)), ("dim", format!("{:?}", sys_arg.dim)), ("target_pos", format!("{:?}", target_arg.target_pos)), ("target_size", format!("{:?}", target_arg.target_size)), ("mtype", format!("{:?}", agent_arg.mtype)), ("itype", format!("{:?}", agent_arg.itype)), ("ptl_radius", format!("{:?}", agent_arg.ptl_radius)), ("alpha", format!("{:?}", agent_arg.alpha)), ("num_agent", format!("{:?}", agent_arg.num_agent)), ("dt", format!("{:?}", time_arg.dt)), ("tmax", format!("{:?}", time_arg.tmax)), ("num_ensemble", format!("{:?}", sim_arg.num_ensemble)), ("seed", format!("{:?}", sim_arg.seed)), ("n_thrd", format!("{:?}", sim_arg.n_thrd)), ("output_dir", format!("{:?}", sim_arg.output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
}
mod p11011 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeVecAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, ParVariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_radius", format!("{:?}", ptl_radius)), ("alpha", format!("{:?}", alpha)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p11012 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", ProcessAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, ParVariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_radius", format!("{:?}", ptl_radius)), ("alpha", format!("{:?}", alpha)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p11020 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, ProcessSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_radius", format!("{:?}", ptl_radius)), ("alpha", format!("{:?}", alpha)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p11021 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeVecAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, ProcessSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_radius", format!("{:?}", ptl_radius)), ("alpha", format!("{:?}", alpha)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p11022 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", ProcessAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, ProcessSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_radius", format!("{:?}", ptl_radius)), ("alpha", format!("{:?}", alpha)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(args: Vec<String>) -> Result<(), Error> {
        construct_dataset!(SimulationData, ContCubicSystem, sys_arg, ContCubicSystemArguments, [sys_size, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveMergeAgent, agent_arg, ContPassiveMergeAgentArguments, [ptl_radius, f64, alpha, f64, num_agent, usize]; ConstStep, time_arg, ConstStepArguments, [dt, f64, tmax, f64];{ProcessSimulation, sim_arg, ProcessSimulationArguments, [period, f64, idx_set, usize]});
        let args: Vec<String> = std::iter::repeat("skipped".to_string()).take(crate::out::lead(2)).chain(args).collect();
        setup_simulation_fixed!(args, 12, 2, ProcessAnalysis, "PRE", dataset, SimulationData, sys_arg, ContCubicSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveMergeAgent, time_arg, ConstStep, sim_arg, ProcessSimulation);
        let dir = sim_arg.output_dir.clone();
        export_simulation_info!(dataset, dir, writer, WIDTH, "PRE", ContCubicSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveMergeAgent, vec_agents, agent_arg, ConstStep, timeiter, time_arg, ProcessSimulation, simulation, sim_arg);
        crate::out::report(&[("bctype", format!("{:?}", sys_arg.bctype)), ("sys_size", format!("{:?}", sys_arg.sys_size)), ("dim", format!("{:?}", sys_arg.dim)), ("target_pos", format!("{:?}", target_arg.target_pos)), ("target_size", format!("{:?}", target_arg.target_size)), ("mtype", format!("{:?}", agent_arg.mtype)), ("itype", format!("{:?}", agent_arg.itype)), ("ptl_radius", format!("{:?}", agent_arg.ptl_radius)), ("alpha", format!("{:?}", agent_arg.alpha)), ("num_agent", format!("{:?}", agent_arg.num_agent)), ("dt", format!("{:?}", time_arg.dt)), ("tmax", format!("{:?}", time_arg.tmax)), ("num_ensemble", format!("{:?}", sim_arg.num_ensemble)), ("period", format!("{:?}", sim_arg.period)), ("idx_set", format!("{:?}", sim_arg.idx_set)), ("seed", format!("{:?}", sim_arg.seed)), ("output_dir", format!("{:?}", sim_arg.output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
}
mod p11100 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, VariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_radius", format!("{:?}", ptl_radius)), ("alpha", format!("{:?}", alpha)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p11101 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeVecAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, VariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_radius", format!("{:?}", ptl_radius)), ("alpha", format!("{:?}", alpha)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(args: Vec<String>) -> Result<(), Error> {
        construct_dataset!(SimulationData, ContCubicSystem, sys_arg, ContCubicSystemArguments, [sys_size, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveMergeAgent, agent_arg, ContPassiveMergeAgentArguments, [ptl_radius, f64, alpha, f64, num_agent, usize]; ExponentialStep, time_arg, ExponentialStepArguments, [dt_min, f64, dt_max, f64, length, usize, tmax, f64];{VariableSimulation, sim_arg, VariableSimulationArguments, [idx_set, usize]});
        let args: Vec<String> = std::iter::repeat("skipped".to_string()).take(crate::out::lead(2)).chain(args).collect();
        setup_simulation_fixed!(args, 12, 2, TimeVecAnalysis, "PRE", dataset, SimulationData, sys_arg, ContCubicSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveMergeAgent, time_arg, ExponentialStep, sim_arg, VariableSimulation);
        let dir = sim_arg.output_dir.clone();
        export_simulation_info!(dataset, dir, writer, WIDTH, "PRE", ContCubicSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveMergeAgent, vec_agents, agent_arg, ExponentialStep, timeiter, time_arg, VariableSimulation, simulation, sim_arg);
        crate::out::report(&[("bctype", format!("{:?}", sys_arg.bctype)), ("sys_size", format!("{:?}", sys_arg.sys_size)), ("dim", format!("{:?}", sys_arg.dim)), ("target_pos", format!("{:?}", target_arg.target_pos)), ("target_size", format!("{:?}", target_arg.target_size)), ("mtype", format!("{:?}", agent_arg.mtype)), ("itype", format!("{:?}", agent_arg.itype)), ("ptl_radius", format!("{:?}", agent_arg.ptl_radius)), ("alpha", format!("{:?}", agent_arg.alpha)), ("num_agent", format!("{:?}", agent_arg.num_agent)), ("dt_min", format!("{:?}", time_arg.dt_min)), ("dt_max", format!("{:?}", time_arg.dt_max)), ("length", format!("{:?}", time_arg.length)), ("tmax", format!("{:?}", time_arg.tmax)), ("num_ensemble", format!("{:?}", sim_arg.num_ensemble)), ("idx_set", format!("{:?}", sim_arg.idx_set)), ("seed", format!("{:?}", sim_arg.seed)), ("output_dir", format!("{:?}", sim_arg.output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
}
mod p11102 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", ProcessAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, VariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_radius", format!("{:?}", ptl_radius)), ("alpha", format!("{:?}", alpha)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p11110 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, ParVariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_radius", format!("{:?}", ptl_radius)), ("alpha", format!("{:?}", alpha)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p11111 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeVecAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, ParVariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_radius", format!("{:?}", ptl_radius)), ("alpha", format!("{:?}", alpha)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(args: Vec<String>) -> Result<(), Error> {
        construct_dataset!(SimulationData, ContCubicSystem, sys_arg, ContCubicSystemArguments, [sys_size, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveMergeAgent, agent_arg, ContPassiveMergeAgentArguments, [ptl_radius, f64, alpha, f64, num_agent, usize]; ExponentialStep, time_arg, ExponentialStepArguments, [dt_min, f64, dt_max, f64, length, usize, tmax, f64];{ParVariableSimulation, sim_arg, ParVariableSimulationArguments, [n_thrd, usize]});
        let args: Vec<String> = std::iter::repeat("skipped".to_string()).take(crate::out::lead(2)).chain(args).collect();
        setup_simulation_fixed!(args, 12, 2, TimeVecAnalysis, "PRE", dataset, SimulationData, sys_arg, ContCubicSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveMergeAgent, time_arg, ExponentialStep, sim_arg, ParVariableSimulation);
        let dir = sim_arg.output_dir.clone();
        export_simulation_info!(dataset, dir, writer, WIDTH, "PRE", ContCubicSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveMergeAgent, vec_agents, agent_arg, ExponentialStep, timeiter, time_arg, ParVariableSimulation, simulation, sim_arg);
        crate::out::report(&[("bctype", format!("{:?}", sys_arg.bctype)), ("sys_size", format!("{:?}", sys_arg.sys_size)), ("dim", format!("{:?}", sys_arg.dim)), ("target_pos", format!("{:?}", target_arg.target_pos)), ("target_size", format!("{:?}", target_arg.target_size)), ("mtype", format!("{:?}", agent_arg.mtype)), ("itype", format!("{:?}", agent_arg.itype)), ("ptl_radius", format!("{:?}", agent_arg.ptl_radius)), ("alpha", format!("{:?}", agent_arg.alpha)), ("num_agent", format!("{:?}", agent_arg.num_agent)), ("dt_min", format!("{:?}", time_arg.dt_min)), ("dt_max", format!("{:?}", time_arg.dt_max)), ("length", format!("{:?}", time_arg.length)), ("tmax", format!("{:?}", time_arg.tmax)), ("num_ensemble", format!("{:?}", sim_arg.num_ensemble)), ("seed", format!("{:?}", sim_arg.seed)), ("n_thrd", format!("{:?}", sim_arg.n_thrd)), ("output_dir", format!("{:?}", sim_arg.output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
}
mod p11112 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", ProcessAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, ParVariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_radius", format!("{:?}", ptl_radius)), ("alpha", format!("{:?}", alpha)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p11120 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, ProcessSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_radius", format!("{:?}", ptl_radius)), ("alpha", format!("{:?}", alpha)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p11121 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeVecAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, ProcessSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_radius", format!("{:?}", ptl_radius)), ("alpha", format!("{:?}", alpha)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p11122 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", ProcessAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, ProcessSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_radius", format!("{:?}", ptl_radius)), ("alpha", format!("{:?}", alpha)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(args: Vec<String>) -> Result<(), Error> {
        construct_dataset!(SimulationData, ContCubicSystem, sys_arg, ContCubicSystemArguments, [sys_size, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveMergeAgent, agent_arg, ContPassiveMergeAgentArguments, [ptl_radius, f64, alpha, f64, num_agent, usize]; ExponentialStep, time_arg, ExponentialStepArguments, [dt_min, f64, dt_max, f64, length, usize, tmax, f64];{ProcessSimulation, sim_arg, ProcessSimulationArguments, [period, f64, idx_set, usize]});
        let args: Vec<String> = std::iter::repeat("skipped".to_string()).take(crate::out::lead(2)).chain(args).collect();
        setup_simulation_fixed!(args, 12, 2, ProcessAnalysis, "PRE", dataset, SimulationData, sys_arg, ContCubicSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveMergeAgent, time_arg, ExponentialStep, sim_arg, ProcessSimulation);
        let dir = sim_arg.output_dir.clone();
        export_simulation_info!(dataset, dir, writer, WIDTH, "PRE", ContCubicSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveMergeAgent, vec_agents, agent_arg, ExponentialStep, timeiter, time_arg, ProcessSimulation, simulation, sim_arg);
        crate::out::report(&[("bctype", format!("{:?}", sys_arg.bctype)), ("sys_size", format!("{:?}", sys_arg.sys_size)), ("dim", format!("{:?}", sys_arg.dim)), ("target_pos", format!("{:?}", target_arg.target_pos)), ("target_size", format!("{:?}", target_arg.target_size)), ("mtype", format!("{:?}", agent_arg.mtype)), ("itype", format!("{:?}", agent_arg.itype)), ("ptl_radius", format!("{:?}", agent_arg.ptl_radius)), ("alpha", format!("{:?}", agent_arg.alpha)), ("num_agent", format!("{:?}", agent_arg.num_agent)), ("dt_min", format!("{:?}", time_arg.dt_min)), ("dt_max", format!("{:?}", time_arg.dt_max)), ("length", format!("{:?}", time_arg.length)), ("tmax", format!("{:?}", time_arg.tmax)), ("num_ensemble", format!("{:?}", sim_arg.num_ensemble)), ("period", format!("{:?}", sim_arg.period)), ("idx_set", format!("{:?}", sim_arg.idx_set)), ("seed", format!("{:?}", sim_arg.seed)), ("output_dir", format!("{:?}", sim_arg.output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
}
mod p12000 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, VariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("gamma", format!("{:?}", gamma)), ("exp_dim", format!("{:?}", exp_dim)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p12001 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeVecAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, VariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("gamma", format!("{:?}", gamma)), ("exp_dim", format!("{:?}", exp_dim)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(args: Vec<String>) -> Result<(), Error> {
        construct_dataset!(SimulationData, ContCubicSystem, sys_arg, ContCubicSystemArguments, [sys_size, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveExpAgent, agent_arg, ContPassiveExpAgentArguments, [gamma, f64, strength, f64, num_agent, usize]; ConstStep, time_arg, ConstStepArguments, [dt, f64, tmax, f64];{VariableSimulation, sim_arg, VariableSimulationArguments, [idx_set, usize]});
        let args: Vec<String> = std::iter::repeat("skipped".to_string()).take(crate::out::lead(0)).chain(args).collect();
        setup_simulation_fixed!(args, 16, 0, TimeVecAnalysis, "PRE", dataset, SimulationData, sys_arg, ContCubicSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveExpAgent, time_arg, ConstStep, sim_arg, VariableSimulation);
        let dir = sim_arg.output_dir.clone();
        export_simulation_info!(dataset, dir, writer, WIDTH, "PRE", ContCubicSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveExpAgent, vec_agents, agent_arg, ConstStep, timeiter, time_arg, VariableSimulation, simulation, sim_arg);
        crate::out::report(&[("bctype", format!("{:?}", sys_arg.bctype)), ("sys_size", format!("{:?}", sys_arg.sys_size)), ("dim", format!("{:?}", sys_arg.dim)), ("target_pos", format!("{:?}", target_arg.target_pos)), ("target_size", format!("{:?}", target_arg.target_size)), ("mtype", format!("{:?}", agent_arg.mtype)), ("itype", format!("{:?}", agent_arg.itype)), ("gamma", format!("{:?}", agent_arg.gamma)), ("exp_dim", format!("{:?}", agent_arg.exp_dim)), ("strength", format!("{:?}", agent_arg.strength)), ("num_agent", format!("{:?}", agent_arg.num_agent)), ("dt", format!("{:?}", time_arg.dt)), ("tmax", format!("{:?}", time_arg.tmax)), ("num_ensemble", format!("{:?}", sim_arg.num_ensemble)), ("idx_set", format!("{:?}", sim_arg.idx_set)), ("seed", format!("{:?}", sim_arg.seed)), ("output_dir", format!("{:?}", sim_arg.output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
}
mod p12002 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", ProcessAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, VariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("gamma", format!("{:?}", gamma)), ("exp_dim", format!("{:?}", exp_dim)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p12010 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, ParVariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("gamma", format!("{:?}", gamma)), ("exp_dim", format!("{:?}", exp_dim)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p12011 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeVecAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, ParVariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("gamma", format!("{:?}", gamma)), ("exp_dim", format!("{:?}", exp_dim)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(args: Vec<String>) -> Result<(), Error> {
        construct_dataset!(SimulationData, ContCubicSystem, sys_arg, ContCubicSystemArguments, [sys_size, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveExpAgent, agent_arg, ContPassiveExpAgentArguments, [gamma, f64, strength, f64, num_agent, usize]; ConstStep, time_arg, ConstStepArguments, [dt, f64, tmax, f64];{ParVariableSimulation, sim_arg, ParVariableSimulationArguments, [n_thrd, usize]});
        let args: Vec<String> = std::iter::repeat("skipped".to_string()).take(crate::out::lead(0)).chain(args).collect();
        setup_simulation_fixed!(args, 16, 0, TimeVecAnalysis, "PRE", dataset, SimulationData, sys_arg, ContCubicSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveExpAgent, time_arg, ConstStep, sim_arg, ParVariableSimulation);
        let dir = sim_arg.output_dir.clone();
        export_simulation_info!(dataset, dir, writer, WIDTH, "PRE", ContCubicSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveExpAgent, vec_agents, agent_arg, ConstStep, timeiter, time_arg, ParVariableSimulation, simulation, sim_arg);
        crate::out::report(&[("bctype", format!("{:?}", sys_arg.bctype)), ("sys_size", format!("{:?}", sys_arg.sys_size)), ("dim", format!("{:?}", sys_arg.dim)), ("target_pos", format!("{:?}", target_arg.target_pos)), ("target_size", format!("{:?}", target_arg.target_size)), ("mtype", format!("{:?}", agent_arg.mtype)), ("itype", format!("{:?}", agent_arg.itype)), ("gamma", format!("{:?}", agent_arg.gamma)), ("exp_dim", format!("{:?}", agent_arg.exp_dim)), ("strength", format!("{:?}", agent_arg.strength)), ("num_agent", format!("{:?}", agent_arg.num_agent)), ("dt", format!("{:?}", time_arg.dt)), ("tmax", format!("{:?}", time_arg.tmax)), ("num_ensemble", format!("{:?}", sim_arg.num_ensemble)), ("seed", format!("{:?}", sim_arg.seed)), ("n_thrd", format!("{:?}", sim_arg.n_thrd)), ("output_dir", format!("{:?}", sim_arg.output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
}
mod p12012 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", ProcessAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, ParVariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("gamma", format!("{:?}", gamma)), ("exp_dim", format!("{:?}", exp_dim)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p12020 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, ProcessSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("gamma", format!("{:?}", gamma)), ("exp_dim", format!("{:?}", exp_dim)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p12021 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeVecAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, ProcessSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("gamma", format!("{:?}", gamma)), ("exp_dim", format!("{:?}", exp_dim)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p12022 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", ProcessAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, ProcessSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("gamma", format!("{:?}", gamma)), ("exp_dim", format!("{:?}", exp_dim)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(args: Vec<String>) -> Result<(), Error> {
        construct_dataset!(SimulationData, ContCubicSystem, sys_arg, ContCubicSystemArguments, [sys_size, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveExpAgent, agent_arg, ContPassiveExpAgentArguments, [gamma, f64, strength, f64, num_agent, usize]; ConstStep, time_arg, ConstStepArguments, [dt, f64, tmax, f64];{ProcessSimulation, sim_arg, ProcessSimulationArguments, [period, f64, idx_set, usize]});
        let args: Vec<String> = std::iter::repeat("skipped".to_string()).take(crate::out::lead(0)).chain(args).collect();
        setup_simulation_fixed!(args, 16, 0, ProcessAnalysis, "PRE", dataset, SimulationData, sys_arg, ContCubicSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveExpAgent, time_arg, ConstStep, sim_arg, ProcessSimulation);
        let dir = sim_arg.output_dir.clone();
        export_simulation_info!(dataset, dir, writer, WIDTH, "PRE", ContCubicSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveExpAgent, vec_agents, agent_arg, ConstStep, timeiter, time_arg, ProcessSimulation, simulation, sim_arg);
        crate::out::report(&[("bctype", format!("{:?}", sys_arg.bctype)), ("sys_size", format!("{:?}", sys_arg.sys_size)), ("dim", format!("{:?}", sys_arg.dim)), ("target_pos", format!("{:?}", target_arg.target_pos)), ("target_size", format!("{:?}", target_arg.target_size)), ("mtype", format!("{:?}", agent_arg.mtype)), ("itype", format!("{:?}", agent_arg.itype)), ("gamma", format!("{:?}", agent_arg.gamma)), ("exp_dim", format!("{:?}", agent_arg.exp_dim)), ("strength", format!("{:?}", agent_arg.strength)), ("num_agent", format!("{:?}", agent_arg.num_agent)), ("dt", format!("{:?}", time_arg.dt)), ("tmax", format!("{:?}", time_arg.tmax)), ("num_ensemble", format!("{:?}", sim_arg.num_ensemble)), ("period", format!("{:?}", sim_arg.period)), ("idx_set", format!("{:?}", sim_arg.idx_set)), ("seed", format!("{:?}", sim_arg.seed)), ("output_dir", format!("{:?}", sim_arg.output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
}
mod p12100 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, VariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("gamma", format!("{:?}", gamma)), ("exp_dim", format!("{:?}", exp_dim)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(args: Vec<String>) -> Result<(), Error> {
        construct_dataset!(SimulationData, ContCubicSystem, sys_arg, ContCubicSystemArguments, [sys_size, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveExpAgent, agent_arg, ContPassiveExpAgentArguments, [gamma, f64, strength, f64, num_agent, usize]; ExponentialStep, time_arg, ExponentialStepArguments, [dt_min, f64, dt_max, f64, length, usize, tmax, f64];{VariableSimulation, sim_arg, VariableSimulationArguments, [idx_set, usize]});
        let args: Vec<String> = std::iter::repeat("skipped".to_string()).take(crate::out::lead(0)).chain(args).collect();
        setup_simulation_fixed!(args, 16, 0, TimeAnalysis, "PRE", dataset, SimulationData, sys_arg, ContCubicSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveExpAgent, time_arg, ExponentialStep, sim_arg, VariableSimulation);
        let dir = sim_arg.output_dir.clone();
        export_simulation_info!(dataset, dir, writer, WIDTH, "PRE", ContCubicSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveExpAgent, vec_agents, agent_arg, ExponentialStep, timeiter, time_arg, VariableSimulation, simulation, sim_arg);
        crate::out::report(&[("bctype", format!("{:?}", sys_arg.bctype)), ("sys_size", format!("{:?}", sys_arg.sys_size)), ("dim", format!("{:?}", sys_arg.dim)), ("target_pos", format!("{:?}", target_arg.target_pos)), ("target_size", format!("{:?}", target_arg.target_size)), ("mtype", format!("{:?}", agent_arg.mtype)), ("itype", format!("{:?}", agent_arg.itype)), ("gamma", format!("{:?}", agent_arg.gamma)), ("exp_dim", format!("{:?}", agent_arg.exp_dim)), ("strength", format!("{:?}", agent_arg.strength)), ("num_agent", format!("{:?}", agent_arg.num_agent)), ("dt_min", format!("{:?}", time_arg.dt_min)), ("dt_max", format!("{:?}", time_arg.dt_max)), ("length", format!("{:?}", time_arg.length)), ("tmax", format!("{:?}", time_arg.tmax)), ("num_ensemble", format!("{:?}", sim_arg.num_ensemble)), ("idx_set", format!("{:?}", sim_arg.idx_set)), ("seed", format!("{:?}", sim_arg.seed)), ("output_dir", format!("{:?}", sim_arg.output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
}
mod p12101 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeVecAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, VariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("gamma", format!("{:?}", gamma)), ("exp_dim", format!("{:?}", exp_dim)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p12102 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", ProcessAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, VariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("gamma", format!("{:?}", gamma)), ("exp_dim", format!("{:?}", exp_dim)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p12110 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, ParVariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("gamma", format!("{:?}", gamma)), ("exp_dim", format!("{:?}", exp_dim)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(args: Vec<String>) -> Result<(), Error> {
        construct_dataset!(SimulationData, ContCubicSystem, sys_arg, ContCubicSystemArguments, [sys_size, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveExpAgent, agent_arg, ContPassiveExpAgentArguments, [gamma, f64, strength, f64, num_agent, usize]; ExponentialStep, time_arg, ExponentialStepArguments, [dt_min, f64, dt_max, f64, length, usize, tmax, f64];{ParVariableSimulation, sim_arg, ParVariableSimulationArguments, [n_thrd, usize]});
        let args: Vec<String> = std::iter::repeat("skipped".to_string()).take(crate::out::lead(0)).chain(args).collect();
        setup_simulation_fixed!(args, 16, 0, TimeAnalysis, "PRE", dataset, SimulationData, sys_arg, ContCubicSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveExpAgent, time_arg, ExponentialStep, sim_arg, ParVariableSimulation);
        let dir = sim_arg.output_dir.clone();
        export_simulation_info!(dataset, dir, writer, WIDTH, "PRE", ContCubicSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveExpAgent, vec_agents, agent_arg, ExponentialStep, timeiter, time_arg, ParVariableSimulation, simulation, sim_arg);
        crate::out::report(&[("bctype", format!("{:?}", sys_arg.bctype)), ("sys_size", format!("{:?}", sys_arg.sys_size)), ("dim", format!("{:?}", sys_arg.dim)), ("target_pos", format!("{:?}", target_arg.target_pos)), ("target_size", format!("{:?}", target_arg.target_size)), ("mtype", format!("{:?}", agent_arg.mtype)), ("itype", format!("{:?}", agent_arg.itype)), ("gamma", format!("{:?}", agent_arg.gamma)), ("exp_dim", format!("{:?}", agent_arg.exp_dim)), ("strength", format!("{:?}", agent_arg.strength)), ("num_agent", format!("{:?}", agent_arg.num_agent)), ("dt_min", format!("{:?}", time_arg.dt_min)), ("dt_max", format!("{:?}", time_arg.dt_max)), ("length", format!("{:?}", time_arg.length)), ("tmax", format!("{:?}", time_arg.tmax)), ("num_ensemble", format!("{:?}", sim_arg.num_ensemble)), ("seed", format!("{:?}", sim_arg.seed)), ("n_thrd", format!("{:?}", sim_arg.n_thrd)), ("output_dir", format!("{:?}", sim_arg.output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
}
mod p12111 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeVecAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, ParVariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("gamma", format!("{:?}", gamma)), ("exp_dim", format!("{:?}", exp_dim)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p12112 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", ProcessAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, ParVariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("gamma", format!("{:?}", gamma)), ("exp_dim", format!("{:?}", exp_dim)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p12120 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, ProcessSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("gamma", format!("{:?}", gamma)), ("exp_dim", format!("{:?}", exp_dim)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p12121 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeVecAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, ProcessSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("gamma", format!("{:?}", gamma)), ("exp_dim", format!("{:?}", exp_dim)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p12122 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", ProcessAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, ProcessSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("gamma", format!("{:?}", gamma)), ("exp_dim", format!("{:?}", exp_dim)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(args: Vec<String>) -> Result<(), Error> {
        construct_dataset!(SimulationData, ContCubicSystem, sys_arg, ContCubicSystemArguments, [sys_size, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveExpAgent, agent_arg, ContPassiveExpAgentArguments, [gamma, f64, strength, f64, num_agent, usize]; ExponentialStep, time_arg, ExponentialStepArguments, [dt_min, f64, dt_max, f64, length, usize, tmax, f64];{ProcessSimulation, sim_arg, ProcessSimulationArguments, [period, f64, idx_set, usize]});
        let args: Vec<String> = std::iter::repeat("skipped".to_string()).take(crate::out::lead(0)).chain(args).collect();
        setup_simulation_fixed!(args, 16, 0, ProcessAnalysis, "PRE", dataset, SimulationData, sys_arg, ContCubicSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveExpAgent, time_arg, ExponentialStep, sim_arg, ProcessSimulation);
        let dir = sim_arg.output_dir.clone();
        export_simulation_info!(dataset, dir, writer, WIDTH, "PRE", ContCubicSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveExpAgent, vec_agents, agent_arg, ExponentialStep, timeiter, time_arg, ProcessSimulation, simulation, sim_arg);
        crate::out::report(&[("bctype", format!("{:?}", sys_arg.bctype)), ("sys_size", format!("{:?}", sys_arg.sys_size)), ("dim", format!("{:?}", sys_arg.dim)), ("target_pos", format!("{:?}", target_arg.target_pos)), ("target_size", format!("{:?}", target_arg.target_size)), ("mtype", format!("{:?}", agent_arg.mtype)), ("itype", format!("{:?}", agent_arg.itype)), ("gamma", format!("{:?}", agent_arg.gamma)), ("exp_dim", format!("{:?}", agent_arg.exp_dim)), ("strength", format!("{:?}", agent_arg.strength)), ("num_agent", format!("{:?}", agent_arg.num_agent)), ("dt_min", format!("{:?}", time_arg.dt_min)), ("dt_max", format!("{:?}", time_arg.dt_max)), ("length", format!("{:?}", time_arg.length)), ("tmax", format!("{:?}", time_arg.tmax)), ("num_ensemble", format!("{:?}", sim_arg.num_ensemble)), ("period", format!("{:?}", sim_arg.period)), ("idx_set", format!("{:?}", sim_arg.idx_set)), ("seed", format!("{:?}", sim_arg.seed)), ("output_dir", format!("{:?}", sim_arg.output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
}
mod p13000 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, VariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_size", format!("{:?}", ptl_size)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(args: Vec<String>) -> Result<(), Error> {
        construct_dataset!(SimulationData, ContCubicSystem, sys_arg, ContCubicSystemArguments, [sys_size, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveLJAgent, agent_arg, ContPassiveLJAgentArguments, [ptl_size, f64, strength, f64, num_agent, usize]; ConstStep, time_arg, ConstStepArguments, [dt, f64, tmax, f64];{VariableSimulation, sim_arg, VariableSimulationArguments, [idx_set, usize]});
        let args: Vec<String> = std::iter::repeat("skipped".to_string()).take(crate::out::lead(1)).chain(args).collect();
        setup_simulation_fixed!(args, 8, 1, TimeAnalysis, "PRE", dataset, SimulationData, sys_arg, ContCubicSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveLJAgent, time_arg, ConstStep, sim_arg, VariableSimulation);
        let dir = sim_arg.output_dir.clone();
        export_simulation_info!(dataset, dir, writer, WIDTH, "PRE", ContCubicSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveLJAgent, vec_agents, agent_arg, ConstStep, timeiter, time_arg, VariableSimulation, simulation, sim_arg);
        crate::out::report(&[("bctype", format!("{:?}", sys_arg.bctype)), ("sys_size", format!("{:?}", sys_arg.sys_size)), ("dim", format!("{:?}", sys_arg.dim)), ("target_pos", format!("{:?}", target_arg.target_pos)), ("target_size", format!("{:?}", target_arg.target_size)), ("mtype", format!("{:?}", agent_arg.mtype)), ("itype", format!("{:?}", agent_arg.itype)), ("ptl_size", format!("{:?}", agent_arg.ptl_size)), ("strength", format!("{:?}", agent_arg.strength)), ("num_agent", format!("{:?}", agent_arg.num_agent)), ("dt", format!("{:?}", time_arg.dt)), ("tmax", format!("{:?}", time_arg.tmax)), ("num_ensemble", format!("{:?}", sim_arg.num_ensemble)), ("idx_set", format!("{:?}", sim_arg.idx_set)), ("seed", format!("{:?}", sim_arg.seed)), ("output_dir", format!("{:?}", sim_arg.output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
}
mod p13001 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeVecAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, VariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_size", format!("{:?}", ptl_size)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p13002 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", ProcessAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, VariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_size", format!("{:?}", ptl_size)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p13010 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, ParVariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_size", format!("{:?}", ptl_size)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(args: Vec<String>) -> Result<(), Error> {
        construct_dataset!(SimulationData, ContCubicSystem, sys_arg, ContCubicSystemArguments, [sys_size, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveLJAgent, agent_arg, ContPassiveLJAgentArguments, [ptl_size, f64, strength, f64, num_agent, usize]; ConstStep, time_arg, ConstStepArguments, [dt, f64, tmax, f64];{ParVariableSimulation, sim_arg, ParVariableSimulationArguments, [n_thrd, usize]});
        let args: Vec<String> = std::iter::repeat("skipped".to_string()).take(crate::out::lead(1)).chain(args).collect();
        setup_simulation_fixed!(args, 8, 1, TimeAnalysis, "PRE", dataset, SimulationData, sys_arg, ContCubicSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveLJAgent, time_arg, ConstStep, sim_arg, ParVariableSimulation);
        let dir = sim_arg.output_dir.clone();
        export_simulation_info!(dataset, dir, writer, WIDTH, "PRE", ContCubicSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveLJAgent, vec_agents, agent_arg, ConstStep, timeiter, time_arg, ParVariableSimulation, simulation, sim_arg);
        crate::out::report(&[("bctype", format!("{:?}", sys_arg.bctype)), ("sys_size", format!("{:?}", sys_arg.sys_size)), ("dim", format!("{:?}", sys_arg.dim)), ("target_pos", format!("{:?}", target_arg.target_pos)), ("target_size", format!("{:?}", target_arg.target_size)), ("mtype", format!("{:?}", agent_arg.mtype)), ("itype", format!("{:?}", agent_arg.itype)), ("ptl_size", format!("{:?}", agent_arg.ptl_size)), ("strength", format!("{:?}", agent_arg.strength)), ("num_agent", format!("{:?}", agent_arg.num_agent)), ("dt", format!("{:?}", time_arg.dt)), ("tmax", format!("{:?}", time_arg.tmax)), ("num_ensemble", format!("{:?}", sim_arg.num_ensemble)), ("seed", format!("{:?}", sim_arg.seed)), ("n_thrd", format!("{:?}", sim_arg.n_thrd)), ("output_dir", format!("{:?}", sim_arg.output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
}
mod p13011 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeVecAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, ParVariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_size", format!("{:?}", ptl_size)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p13012 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", ProcessAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, ParVariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_size", format!("{:?}", ptl_size)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p13020 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, ProcessSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_size", format!("{:?}", ptl_size)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p13021 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeVecAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, ProcessSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_size", format!("{:?}", ptl_size)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p13022 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", ProcessAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, ProcessSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_size", format!("{:?}", ptl_size)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(args: Vec<String>) -> Result<(), Error> {
        construct_dataset!(SimulationData, ContCubicSystem, sys_arg, ContCubicSystemArguments, [sys_size, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveLJAgent, agent_arg, ContPassiveLJAgentArguments, [ptl_size, f64, strength, f64, num_agent, usize]; ConstStep, time_arg, ConstStepArguments, [dt, f64, tmax, f64];{ProcessSimulation, sim_arg, ProcessSimulationArguments, [period, f64, idx_set, usize]});
        let args: Vec<String> = std::iter::repeat("skipped".to_string()).take(crate::out::lead(1)).chain(args).collect();
        setup_simulation_fixed!(args, 8, 1, ProcessAnalysis, "PRE", dataset, SimulationData, sys_arg, ContCubicSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveLJAgent, time_arg, ConstStep, sim_arg, ProcessSimulation);
        let dir = sim_arg.output_dir.clone();
        export_simulation_info!(dataset, dir, writer, WIDTH, "PRE", ContCubicSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveLJAgent, vec_agents, agent_arg, ConstStep, timeiter, time_arg, ProcessSimulation, simulation, sim_arg);
        crate::out::report(&[("bctype", format!("{:?}", sys_arg.bctype)), ("sys_size", format!("{:?}", sys_arg.sys_size)), ("dim", format!("{:?}", sys_arg.dim)), ("target_pos", format!("{:?}", target_arg.target_pos)), ("target_size", format!("{:?}", target_arg.target_size)), ("mtype", format!("{:?}", agent_arg.mtype)), ("itype", format!("{:?}", agent_arg.itype)), ("ptl_size", format!("{:?}", agent_arg.ptl_size)), ("strength", format!("{:?}", agent_arg.strength)), ("num_agent", format!("{:?}", agent_arg.num_agent)), ("dt", format!("{:?}", time_arg.dt)), ("tmax", format!("{:?}", time_arg.tmax)), ("num_ensemble", format!("{:?}", sim_arg.num_ensemble)), ("period", format!("{:?}", sim_arg.period)), ("idx_set", format!("{:?}", sim_arg.idx_set)), ("seed", format!("{:?}", sim_arg.seed)), ("output_dir", format!("{:?}", sim_arg.output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
}
mod p13100 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, VariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_size", format!("{:?}", ptl_size)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p13101 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeVecAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, VariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_size", format!("{:?}", ptl_size)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(args: Vec<String>) -> Result<(), Error> {
        construct_dataset!(SimulationData, ContCubicSystem, sys_arg, ContCubicSystemArguments, [sys_size, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveLJAgent, agent_arg, ContPassiveLJAgentArguments, [ptl_size, f64, strength, f64, num_agent, usize]; ExponentialStep, time_arg, ExponentialStepArguments, [dt_min, f64, dt_max, f64, length, usize, tmax, f64];{VariableSimulation, sim_arg, VariableSimulationArguments, [idx_set, usize]});
        let args: Vec<String> = std::iter::repeat("skipped".to_string()).take(crate::out::lead(1)).chain(args).collect();
        setup_simulation_fixed!(args, 8, 1, TimeVecAnalysis, "PRE", dataset, SimulationData, sys_arg, ContCubicSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveLJAgent, time_arg, ExponentialStep, sim_arg, VariableSimulation);
        let dir = sim_arg.output_dir.clone();
        export_simulation_info!(dataset, dir, writer, WIDTH, "PRE", ContCubicSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveLJAgent, vec_agents, agent_arg, ExponentialStep, timeiter, time_arg, VariableSimulation, simulation, sim_arg);
        crate::out::report(&[("bctype", format!("{:?}", sys_arg.bctype)), ("sys_size", format!("{:?}", sys_arg.sys_size)), ("dim", format!("{:?}", sys_arg.dim)), ("target_pos", format!("{:?}", target_arg.target_pos)), ("target_size", format!("{:?}", target_arg.target_size)), ("mtype", format!("{:?}", agent_arg.mtype)), ("itype", format!("{:?}", agent_arg.itype)), ("ptl_size", format!("{:?}", agent_arg.ptl_size)), ("strength", format!("{:?}", agent_arg.strength)), ("num_agent", format!("{:?}", agent_arg.num_agent)), ("dt_min", format!("{:?}", time_arg.dt_min)), ("dt_max", format!("{:?}", time_arg.dt_max)), ("length", format!("{:?}", time_arg.length)), ("tmax", format!("{:?}", time_arg.tmax)), ("num_ensemble", format!("{:?}", sim_arg.num_ensemble)), ("idx_set", format!("{:?}", sim_arg.idx_set)), ("seed", format!("{:?}", sim_arg.seed)), ("output_dir", format!("{:?}", sim_arg.output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
}
mod p13102 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", ProcessAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, VariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_size", format!("{:?}", ptl_size)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p13110 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, ParVariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_size", format!("{:?}", ptl_size)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p13111 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeVecAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, ParVariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_size", format!("{:?}", ptl_size)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(args: Vec<String>) -> Result<(), Error> {
        construct_dataset!(SimulationData, ContCubicSystem, sys_arg, ContCubicSystemArguments, [sys_size, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveLJAgent, agent_arg, ContPassiveLJAgentArguments, [ptl_size, f64, strength, f64, num_agent, usize]; ExponentialStep, time_arg, ExponentialStepArguments, [dt_min, f64, dt_max, f64, length, usize, tmax, f64];{ParVariableSimulation, sim_arg, ParVariableSimulationArguments, [n_thrd, usize]});
        let args: Vec<String> = std::iter::repeat("skipped".to_string()).take(crate::out::lead(1)).chain(args).collect();
        setup_simulation_fixed!(args, 8, 1, TimeVecAnalysis, "PRE", dataset, SimulationData, sys_arg, ContCubicSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveLJAgent, time_arg, ExponentialStep, sim_arg, ParVariableSimulation);
        let dir = sim_arg.output_dir.clone();
        export_simulation_info!(dataset, dir, writer, WIDTH, "PRE", ContCubicSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveLJAgent, vec_agents, agent_arg, ExponentialStep, timeiter, time_arg, ParVariableSimulation, simulation, sim_arg);
        crate::out::report(&[("bctype", format!("{:?}", sys_arg.bctype)), ("sys_size", format!("{:?}", sys_arg.sys_size)), ("dim", format!("{:?}", sys_arg.dim)), ("target_pos", format!("{:?}", target_arg.target_pos)), ("target_size", format!("{:?}", target_arg.target_size)), ("mtype", format!("{:?}", agent_arg.mtype)), ("itype", format!("{:?}", agent_arg.itype)), ("ptl_size", format!("{:?}", agent_arg.ptl_size)), ("strength", format!("{:?}", agent_arg.strength)), ("num_agent", format!("{:?}", agent_arg.num_agent)), ("dt_min", format!("{:?}", time_arg.dt_min)), ("dt_max", format!("{:?}", time_arg.dt_max)), ("length", format!("{:?}", time_arg.length)), ("tmax", format!("{:?}", time_arg.tmax)), ("num_ensemble", format!("{:?}", sim_arg.num_ensemble)), ("seed", format!("{:?}", sim_arg.seed)), ("n_thrd", format!("{:?}", sim_arg.n_thrd)), ("output_dir", format!("{:?}", sim_arg.output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
}
mod p13112 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", ProcessAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, ParVariableSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_size", format!("{:?}", ptl_size)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p13120 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, ProcessSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_size", format!("{:?}", ptl_size)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p13121 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeVecAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, ProcessSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_size", format!("{:?}", ptl_size)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p13122 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", ProcessAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, ProcessSimulation);
        crate::out::report(&[("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_size", format!("{:?}", ptl_size)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(args: Vec<String>) -> Result<(), Error> {
        construct_dataset!(SimulationData, ContCubicSystem, sys_arg, ContCubicSystemArguments, [sys_size, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveLJAgent, agent_arg, ContPassiveLJAgentArguments, [ptl_size, f64, strength, f64, num_agent, usize]; ExponentialStep, time_arg, ExponentialStepArguments, [dt_min, f64, dt_max, f64, length, usize, tmax, f64];{ProcessSimulation, sim_arg, ProcessSimulationArguments, [period, f64, idx_set, usize]});
        let args: Vec<String> = std::iter::repeat("skipped".to_string()).take(crate::out::lead(1)).chain(args).collect();
        setup_simulation_fixed!(args, 8, 1, ProcessAnalysis, "PRE", dataset, SimulationData, sys_arg, ContCubicSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveLJAgent, time_arg, ExponentialStep, sim_arg, ProcessSimulation);
        let dir = sim_arg.output_dir.clone();
        export_simulation_info!(dataset, dir, writer, WIDTH, "PRE", ContCubicSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveLJAgent, vec_agents, agent_arg, ExponentialStep, timeiter, time_arg, ProcessSimulation, simulation, sim_arg);
        crate::out::report(&[("bctype", format!("{:?}", sys_arg.bctype)), ("sys_size", format!("{:?}", sys_arg.sys_size)), ("dim", format!("{:?}", sys_arg.dim)), ("target_pos", format!("{:?}", target_arg.target_pos)), ("target_size", format!("{:?}", target_arg.target_size)), ("mtype", format!("{:?}", agent_arg.mtype)), ("itype", format!("{:?}", agent_arg.itype)), ("ptl_size", format!("{:?}", agent_arg.ptl_size)), ("strength", format!("{:?}", agent_arg.strength)), ("num_agent", format!("{:?}", agent_arg.num_agent)), ("dt_min", format!("{:?}", time_arg.dt_min)), ("dt_max", format!("{:?}", time_arg.dt_max)), ("length", format!("{:?}", time_arg.length)), ("tmax", format!("{:?}", time_arg.tmax)), ("num_ensemble", format!("{:?}", sim_arg.num_ensemble)), ("period", format!("{:?}", sim_arg.period)), ("idx_set", format!("{:?}", sim_arg.idx_set)), ("seed", format!("{:?}", sim_arg.seed)), ("output_dir", format!("{:?}", sim_arg.output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
}
mod p20000 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, VariableSimulation);
        crate::out::report(&[("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(args: Vec<String>) -> Result<(), Error> {
        construct_dataset!(SimulationData, ContCylindricalSystem, sys_arg, ContCylindricalSystemArguments, [sys_radius, f64, sys_length, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveIndepAgent, agent_arg, ContPassiveIndepAgentArguments, [num_agent, usize]; ConstStep, time_arg, ConstStepArguments, [dt, f64, tmax, f64];{VariableSimulation, sim_arg, VariableSimulationArguments, [idx_set, usize]});
        let args: Vec<String> = std::iter::repeat("skipped".to_string()).take(crate::out::lead(2)).chain(args).collect();
        setup_simulation_fixed!(args, 8, 2, TimeAnalysis, "PRE", dataset, SimulationData, sys_arg, ContCylindricalSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveIndepAgent, time_arg, ConstStep, sim_arg, VariableSimulation);
        let dir = sim_arg.output_dir.clone();
        export_simulation_info!(dataset, dir, writer, WIDTH, "PRE", ContCylindricalSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveIndepAgent, vec_agents, agent_arg, ConstStep, timeiter, time_arg, VariableSimulation, simulation, sim_arg);
        crate::out::report(&[("sys_type", format!("{:?}", sys_arg.sys_type)), ("bctype", format!("{:?}", sys_arg.bctype)), ("sys_radius", format!("{:?}", sys_arg.sys_radius)), ("sys_length", format!("{:?}", sys_arg.sys_length)), ("dim", format!("{:?}", sys_arg.dim)), ("target_pos", format!("{:?}", target_arg.target_pos)), ("target_size", format!("{:?}", target_arg.target_size)), ("mtype", format!("{:?}", agent_arg.mtype)), ("itype", format!("{:?}", agent_arg.itype)), ("num_agent", format!("{:?}", agent_arg.num_agent)), ("dt", format!("{:?}", time_arg.dt)), ("tmax", format!("{:?}", time_arg.tmax)), ("num_ensemble", format!("{:?}", sim_arg.num_ensemble)), ("idx_set", format!("{:?}", sim_arg.idx_set)), ("seed", format!("{:?}", sim_arg.seed)), ("output_dir", format!("{:?}", sim_arg.output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
}
mod p20001 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeVecAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, VariableSimulation);
        crate::out::report(&[("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p20002 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", ProcessAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, VariableSimulation);
        crate::out::report(&[("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p20010 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, ParVariableSimulation);
        crate::out::report(&[("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(args: Vec<String>) -> Result<(), Error> {
        construct_dataset!(SimulationData, ContCylindricalSystem, sys_arg, ContCylindricalSystemArguments, [sys_radius, f64, sys_length, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveIndepAgent, agent_arg, ContPassiveIndepAgentArguments, [num_agent, usize]; ConstStep, time_arg, ConstStepArguments, [dt, f64, tmax, f64];{ParVariableSimulation, sim_arg, ParVariableSimulationArguments, [n_thrd, usize]});
        let args: Vec<String> = std::iter::repeat("skipped".to_string()).take(crate::out::lead(2)).chain(args).collect();
        setup_simulation_fixed!(args, 8, 2, TimeAnalysis, "PRE", dataset, SimulationData, sys_arg, ContCylindricalSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveIndepAgent, time_arg, ConstStep, sim_arg, ParVariableSimulation);
        let dir = sim_arg.output_dir.clone();
        export_simulation_info!(dataset, dir, writer, WIDTH, "PRE", ContCylindricalSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveIndepAgent, vec_agents, agent_arg, ConstStep, timeiter, time_arg, ParVariableSimulation, simulation, sim_arg);
        crate::out::report(&[("sys_type", format!("{:?}", sys_arg.sys_type)), ("bctype", format!("{:?}", sys_arg.bctype)), ("sys_radius", format!("{:?}", sys_arg.sys_radius)), ("sys_length", format!("{:?}", sys_arg.sys_length)), ("dim", format!("{:?}", sys_arg.dim)), ("target_pos", format!("{:?}", target_arg.target_pos)), ("target_size", format!("{:?}", target_arg.target_size)), ("mtype", format!("{:?}", agent_arg.mtype)), ("itype", format!("{:?}", agent_arg.itype)), ("num_agent", format!("{:?}", agent_arg.num_agent)), ("dt", format!("{:?}", time_arg.dt)), ("tmax", format!("{:?}", time_arg.tmax)), ("num_ensemble", format!("{:?}", sim_arg.num_ensemble)), ("seed", format!("{:?}", sim_arg.seed)), ("n_thrd", format!("{:?}", sim_arg.n_thrd)), ("output_dir", format!("{:?}", sim_arg.output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
}
mod p20011 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeVecAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, ParVariableSimulation);
        crate::out::report(&[("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p20012 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", ProcessAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, ParVariableSimulation);
        crate::out::report(&[("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p20020 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, ProcessSimulation);
        crate::out::report(&[("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p20021 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeVecAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, ProcessSimulation);
        crate::out::report(&[("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p20022 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", ProcessAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, ProcessSimulation);
        crate::out::report(&[("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(args: Vec<String>) -> Result<(), Error> {
        construct_dataset!(SimulationData, ContCylindricalSystem, sys_arg, ContCylindricalSystemArguments, [sys_radius, f64, sys_length, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveIndepAgent, agent_arg, ContPassiveIndepAgentArguments, [num_agent, usize]; ConstStep, time_arg, ConstStepArguments, [dt, f64, tmax, f64];{ProcessSimulation, sim_arg, ProcessSimulationArguments, [period, f64, idx_set, usize]});
        let args: Vec<String> = std::iter::repeat("skipped".to_string()).take(crate::out::lead(2)).chain(args).collect();
        setup_simulation_fixed!(args, 8, 2, ProcessAnalysis, "PRE", dataset, SimulationData, sys_arg, ContCylindricalSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveIndepAgent, time_arg, ConstStep, sim_arg, ProcessSimulation);
        let dir = sim_arg.output_dir.clone();
        export_simulation_info!(dataset, dir, writer, WIDTH, "PRE", ContCylindricalSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveIndepAgent, vec_agents, agent_arg, ConstStep, timeiter, time_arg, ProcessSimulation, simulation, sim_arg);
        crate::out::report(&[("sys_type", format!("{:?}", sys_arg.sys_type)), ("bctype", format!("{:?}", sys_arg.bctype)), ("sys_radius", format!("{:?}", sys_arg.sys_radius)), ("sys_length", format!("{:?}", sys_arg.sys_length)), ("dim", format!("{:?}", sys_arg.dim)), ("target_pos", format!("{:?}", target_arg.target_pos)), ("target_size", format!("{:?}", target_arg.target_size)), ("mtype", format!("{:?}", agent_arg.mtype)), ("itype", format!("{:?}", agent_arg.itype)), ("num_agent", format!("{:?}", agent_arg.num_agent)), ("dt", format!("{:?}", time_arg.dt)), ("tmax", format!("{:?}", time_arg.tmax)), ("num_ensemble", format!("{:?}", sim_arg.num_ensemble)), ("period", format!("{:?}", sim_arg.period)), ("idx_set", format!("{:?}", sim_arg.idx_set)), ("seed", format!("{:?}", sim_arg.seed)), ("output_dir", format!("{:?}", sim_arg.output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
}
mod p20100 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, VariableSimulation);
        crate::out::report(&[("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p20101 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeVecAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, VariableSimulation);
        crate::out::report(&[("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(args: Vec<String>) -> Result<(), Error> {
        construct_dataset!(SimulationData, ContCylindricalSystem, sys_arg, ContCylindricalSystemArguments, [sys_radius, f64, sys_length, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveIndepAgent, agent_arg, ContPassiveIndepAgentArguments, [num_agent, usize]; ExponentialStep, time_arg, ExponentialStepArguments, [dt_min, f64, dt_max, f64, length, usize, tmax, f64];{VariableSimulation, sim_arg, VariableSimulationArguments, [idx_set, usize]});
        let args: Vec<String> = std::iter::repeat("skipped".to_string()).take(crate::out::lead(2)).chain(args).collect();
        setup_simulation_fixed!(args, 8, 2, TimeVecAnalysis, "PRE", dataset, SimulationData, sys_arg, ContCylindricalSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveIndepAgent, time_arg, ExponentialStep, sim_arg, VariableSimulation);
        let dir = sim_arg.output_dir.clone();
        export_simulation_info!(dataset, dir, writer, WIDTH, "PRE", ContCylindricalSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveIndepAgent, vec_agents, agent_arg, ExponentialStep, timeiter, time_arg, VariableSimulation, simulation, sim_arg);
        crate::out::report(&[("sys_type", format!("{:?}", sys_arg.sys_type)), ("bctype", format!("{:?}", sys_arg.bctype)), ("sys_radius", format!("{:?}", sys_arg.sys_radius)), ("sys_length", format!("{:?}", sys_arg.sys_length)), ("dim", format!("{:?}", sys_arg.dim)), ("target_pos", format!("{:?}", target_arg.target_pos)), ("target_size", format!("{:?}", target_arg.target_size)), ("mtype", format!("{:?}", agent_arg.mtype)), ("itype", format!("{:?}", agent_arg.itype)), ("num_agent", format!("{:?}", agent_arg.num_agent)), ("dt_min", format!("{:?}", time_arg.dt_min)), ("dt_max", format!("{:?}", time_arg.dt_max)), ("length", format!("{:?}", time_arg.length)), ("tmax", format!("{:?}", time_arg.tmax)), ("num_ensemble", format!("{:?}", sim_arg.num_ensemble)), ("idx_set", format!("{:?}", sim_arg.idx_set)), ("seed", format!("{:?}", sim_arg.seed)), ("output_dir", format!("{:?}", sim_arg.output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
}
mod p20102 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", ProcessAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, VariableSimulation);
        crate::out::report(&[("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p20110 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, ParVariableSimulation);
        crate::out::report(&[("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p20111 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeVecAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, ParVariableSimulation);
        crate::out::report(&[("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(args: Vec<String>) -> Result<(), Error> {
        construct_dataset!(SimulationData, ContCylindricalSystem, sys_arg, ContCylindricalSystemArguments, [sys_radius, f64, sys_length, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveIndepAgent, agent_arg, ContPassiveIndepAgentArguments, [num_agent, usize]; ExponentialStep, time_arg, ExponentialStepArguments, [dt_min, f64, dt_max, f64, length, usize, tmax, f64];{ParVariableSimulation, sim_arg, ParVariableSimulationArguments, [n_thrd, usize]});
        let args: Vec<String> = std::iter::repeat("skipped".to_string()).take(crate::out::lead(2)).chain(args).collect();
        setup_simulation_fixed!(args, 8, 2, TimeVecAnalysis, "PRE", dataset, SimulationData, sys_arg, ContCylindricalSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveIndepAgent, time_arg, ExponentialStep, sim_arg, ParVariableSimulation);
        let dir = sim_arg.output_dir.clone();
        export_simulation_info!(dataset, dir, writer, WIDTH, "PRE", ContCylindricalSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveIndepAgent, vec_agents, agent_arg, ExponentialStep, timeiter, time_arg, ParVariableSimulation, simulation, sim_arg);
        crate::out::report(&[("sys_type", format!("{:?}", sys_arg.sys_type)), ("bctype", format!("{:?}", sys_arg.bctype)), ("sys_radius", format!("{:?}", sys_arg.sys_radius)), ("sys_length", format!("{:?}", sys_arg.sys_length)), ("dim", format!("{:?}", sys_arg.dim)), ("target_pos", format!("{:?}", target_arg.target_pos)), ("target_size", format!("{:?}", target_arg.target_size)), ("mtype", format!("{:?}", agent_arg.mtype)), ("itype", format!("{:?}", agent_arg.itype)), ("num_agent", format!("{:?}", agent_arg.num_agent)), ("dt_min", format!("{:?}", time_arg.dt_min)), ("dt_max", format!("{:?}", time_arg.dt_max)), ("length", format!("{:?}", time_arg.length)), ("tmax", format!("{:?}", time_arg.tmax)), ("num_ensemble", format!("{:?}", sim_arg.num_ensemble)), ("seed", format!("{:?}", sim_arg.seed)), ("n_thrd", format!("{:?}", sim_arg.n_thrd)), ("output_dir", format!("{:?}", sim_arg.output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
}
mod p20112 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", ProcessAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, ParVariableSimulation);
        crate::out::report(&[("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p20120 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, ProcessSimulation);
        crate::out::report(&[("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p20121 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeVecAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, ProcessSimulation);
        crate::out::report(&[("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p20122 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", ProcessAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, ProcessSimulation);
        crate::out::report(&[("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(args: Vec<String>) -> Result<(), Error> {
        construct_dataset!(SimulationData, ContCylindricalSystem, sys_arg, ContCylindricalSystemArguments, [sys_radius, f64, sys_length, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveIndepAgent, agent_arg, ContPassiveIndepAgentArguments, [num_agent, usize]; ExponentialStep, time_arg, ExponentialStepArguments, [dt_min, f64, dt_max, f64, length, usize, tmax, f64];{ProcessSimulation, sim_arg, ProcessSimulationArguments, [period, f64, idx_set, usize]});
        let args: Vec<String> = std::iter::repeat("skipped".to_string()).take(crate::out::lead(2)).chain(args).collect();
        setup_simulation_fixed!(args, 8, 2, ProcessAnalysis, "PRE", dataset, SimulationData, sys_arg, ContCylindricalSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveIndepAgent, time_arg, ExponentialStep, sim_arg, ProcessSimulation);
        let dir = sim_arg.output_dir.clone();
        export_simulation_info!(dataset, dir, writer, WIDTH, "PRE", ContCylindricalSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveIndepAgent, vec_agents, agent_arg, ExponentialStep, timeiter, time_arg, ProcessSimulation, simulation, sim_arg);
        crate::out::report(&[("sys_type", format!("{:?}", sys_arg.sys_type)), ("bctype", format!("{:?}", sys_arg.bctype)), ("sys_radius", format!("{:?}", sys_arg.sys_radius)), ("sys_length", format!("{:?}", sys_arg.sys_length)), ("dim", format!("{:?}", sys_arg.dim)), ("target_pos", format!("{:?}", target_arg.target_pos)), ("target_size", format!("{:?}", target_arg.target_size)), ("mtype", format!("{:?}", agent_arg.mtype)), ("itype", format!("{:?}", agent_arg.itype)), ("num_agent", format!("{:?}", agent_arg.num_agent)), ("dt_min", format!("{:?}", time_arg.dt_min)), ("dt_max", format!("{:?}", time_arg.dt_max)), ("length", format!("{:?}", time_arg.length)), ("tmax", format!("{:?}", time_arg.tmax)), ("num_ensemble", format!("{:?}", sim_arg.num_ensemble)), ("period", format!("{:?}", sim_arg.period)), ("idx_set", format!("{:?}", sim_arg.idx_set)), ("seed", format!("{:?}", sim_arg.seed)), ("output_dir", format!("{:?}", sim_arg.output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
}
mod p21000 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, VariableSimulation);
        crate::out::report(&[("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_radius", format!("{:?}", ptl_radius)), ("alpha", format!("{:?}", alpha)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p21001 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeVecAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, VariableSimulation);
        crate::out::report(&[("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_radius", format!("{:?}", ptl_radius)), ("alpha", format!("{:?}", alpha)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(args: Vec<String>) -> Result<(), Error> {
        construct_dataset!(SimulationData, ContCylindricalSystem, sys_arg, ContCylindricalSystemArguments, [sys_radius, f64, sys_length, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveMergeAgent, agent_arg, ContPassiveMergeAgentArguments, [ptl_radius, f64, alpha, f64, num_agent, usize]; ConstStep, time_arg, ConstStepArguments, [dt, f64, tmax, f64];{VariableSimulation, sim_arg, VariableSimulationArguments, [idx_set, usize]});
        let args: Vec<String> = std::iter::repeat("skipped".to_string()).take(crate::out::lead(0)).chain(args).collect();
        setup_simulation_fixed!(args, 12, 0, TimeVecAnalysis, "PRE", dataset, SimulationData, sys_arg, ContCylindricalSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveMergeAgent, time_arg, ConstStep, sim_arg, VariableSimulation);
        let dir = sim_arg.output_dir.clone();
        export_simulation_info!(dataset, dir, writer, WIDTH, "PRE", ContCylindricalSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveMergeAgent, vec_agents, agent_arg, ConstStep, timeiter, time_arg, VariableSimulation, simulation, sim_arg);
        crate::out::report(&[("sys_type", format!("{:?}", sys_arg.sys_type)), ("bctype", format!("{:?}", sys_arg.bctype)), ("sys_radius", format!("{:?}", sys_arg.sys_radius)), ("sys_length", format!("{:?}", sys_arg.sys_length)), ("dim", format!("{:?}", sys_arg.dim)), ("target_pos", format!("{:?}", target_arg.target_pos)), ("target_size", format!("{:?}", target_arg.target_size)), ("mtype", format!("{:?}", agent_arg.mtype)), ("itype", format!("{:?}", agent_arg.itype)), ("ptl_radius", format!("{:?}", agent_arg.ptl_radius)), ("alpha", format!("{:?}", agent_arg.alpha)), ("num_agent", format!("{:?}", agent_arg.num_agent)), ("dt", format!("{:?}", time_arg.dt)), ("tmax", format!("{:?}", time_arg.tmax)), ("num_ensemble", format!("{:?}", sim_arg.num_ensemble)), ("idx_set", format!("{:?}", sim_arg.idx_set)), ("seed", format!("{:?}", sim_arg.seed)), ("output_dir", format!("{:?}", sim_arg.output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
}
mod p21002 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", ProcessAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, VariableSimulation);
        crate::out::report(&[("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_radius", format!("{:?}", ptl_radius)), ("alpha", format!("{:?}", alpha)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p21010 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, ParVariableSimulation);
        crate::out::report(&[("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_radius", format!("{:?}", ptl_radius)), ("alpha", format!("{:?}", alpha)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p21011 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeVecAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, ParVariableSimulation);
        crate::out::report(&[("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_radius", format!("{:?}", ptl_radius)), ("alpha", format!("{:?}", alpha)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(args: Vec<String>) -> Result<(), Error> {
        construct_dataset!(SimulationData, ContCylindricalSystem, sys_arg, ContCylindricalSystemArguments, [sys_radius, f64, sys_length, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveMergeAgent, agent_arg, ContPassiveMergeAgentArguments, [ptl_radius, f64, alpha, f64, num_agent, usize]; ConstStep, time_arg, ConstStepArguments, [dt, f64, tmax, f64];{ParVariableSimulation, sim_arg, ParVariableSimulationArguments, [n_thrd, usize]});
        let args: Vec<String> = std::iter::repeat("skipped".to_string()).take(crate::out::lead(0)).chain(args).collect();
        setup_simulation_fixed!(args, 12, 0, TimeVecAnalysis, "PRE", dataset, SimulationData, sys_arg, ContCylindricalSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveMergeAgent, time_arg, ConstStep, sim_arg, ParVariableSimulation);
        let dir = sim_arg.output_dir.clone();
        export_simulation_info!(dataset, dir, writer, WIDTH, "PRE", ContCylindricalSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveMergeAgent, vec_agents, agent_arg, ConstStep, timeiter, time_arg, ParVariableSimulation, simulation, sim_arg);
        crate::out::report(&[("sys_type", format!("{:?}", sys_arg.sys_type)), ("bctype", format!("{:?}", sys_arg.bctype)), ("sys_radius", format!("{:?}", sys_arg.sys_radius)), ("sys_length", format!("{:?}", sys_arg.sys_length)), ("dim", format!("{:?}", sys_arg.dim)), ("target_pos", format!("{:?}", target_arg.target_pos)), ("target_size", format!("{:?}", target_arg.target_size)), ("mtype", format!("{:?}", agent_arg.mtype)), ("itype", format!("{:?}", agent_arg.itype)), ("ptl_radius", format!("{:?}", agent_arg.ptl_radius)), ("alpha", format!("{:?}", agent_arg.alpha)), ("num_agent", format!("{:?}", agent_arg.num_agent)), ("dt", format!("{:?}", time_arg.dt)), ("tmax", format!("{:?}", time_arg.tmax)), ("num_ensemble", format!("{:?}", sim_arg.num_ensemble)), ("seed", format!("{:?}", sim_arg.seed)), ("n_thrd", format!("{:?}", sim_arg.n_thrd)), ("output_dir", format!("{:?}", sim_arg.output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
}
mod p21012 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", ProcessAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, ParVariableSimulation);
        crate::out::report(&[("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_radius", format!("{:?}", ptl_radius)), ("alpha", format!("{:?}", alpha)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p21020 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, ProcessSimulation);
        crate::out::report(&[("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_radius", format!("{:?}", ptl_radius)), ("alpha", format!("{:?}", alpha)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p21021 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeVecAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, ProcessSimulation);
        crate::out::report(&[("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_radius", format!("{:?}", ptl_radius)), ("alpha", format!("{:?}", alpha)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p21022 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", ProcessAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, ProcessSimulation);
        crate::out::report(&[("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_radius", format!("{:?}", ptl_radius)), ("alpha", format!("{:?}", alpha)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(args: Vec<String>) -> Result<(), Error> {
        construct_dataset!(SimulationData, ContCylindricalSystem, sys_arg, ContCylindricalSystemArguments, [sys_radius, f64, sys_length, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveMergeAgent, agent_arg, ContPassiveMergeAgentArguments, [ptl_radius, f64, alpha, f64, num_agent, usize]; ConstStep, time_arg, ConstStepArguments, [dt, f64, tmax, f64];{ProcessSimulation, sim_arg, ProcessSimulationArguments, [period, f64, idx_set, usize]});
        let args: Vec<String> = std::iter::repeat("skipped".to_string()).take(crate::out::lead(0)).chain(args).collect();
        setup_simulation_fixed!(args, 12, 0, ProcessAnalysis, "PRE", dataset, SimulationData, sys_arg, ContCylindricalSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveMergeAgent, time_arg, ConstStep, sim_arg, ProcessSimulation);
        let dir = sim_arg.output_dir.clone();
        export_simulation_info!(dataset, dir, writer, WIDTH, "PRE", ContCylindricalSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveMergeAgent, vec_agents, agent_arg, ConstStep, timeiter, time_arg, ProcessSimulation, simulation, sim_arg);
        crate::out::report(&[("sys_type", format!("{:?}", sys_arg.sys_type)), ("bctype", format!("{:?}", sys_arg.bctype)), ("sys_radius", format!("{:?}", sys_arg.sys_radius)), ("sys_length", format!("{:?}", sys_arg.sys_length)), ("dim", format!("{:?}", sys_arg.dim)), ("target_pos", format!("{:?}", target_arg.target_pos)), ("target_size", format!("{:?}", target_arg.target_size)), ("mtype", format!("{:?}", agent_arg.mtype)), ("itype", format!("{:?}", agent_arg.itype)), ("ptl_radius", format!("{:?}", agent_arg.ptl_radius)), ("alpha", format!("{:?}", agent_arg.alpha)), ("num_agent", format!("{:?}", agent_arg.num_agent)), ("dt", format!("{:?}", time_arg.dt)), ("tmax", format!("{:?}", time_arg.tmax)), ("num_ensemble", format!("{:?}", sim_arg.num_ensemble)), ("period", format!("{:?}", sim_arg.period)), ("idx_set", format!("{:?}", sim_arg.idx_set)), ("seed", format!("{:?}", sim_arg.seed)), ("output_dir", format!("{:?}", sim_arg.output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
}
mod p21100 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, VariableSimulation);
        crate::out::report(&[("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_radius", format!("{:?}", ptl_radius)), ("alpha", format!("{:?}", alpha)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(args: Vec<String>) -> Result<(), Error> {
        construct_dataset!(SimulationData, ContCylindricalSystem, sys_arg, ContCylindricalSystemArguments, [sys_radius, f64, sys_length, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveMergeAgent, agent_arg, ContPassiveMergeAgentArguments, [ptl_radius, f64, alpha, f64, num_agent, usize]; ExponentialStep, time_arg, ExponentialStepArguments, [dt_min, f64, dt_max, f64, length, usize, tmax, f64];{VariableSimulation, sim_arg, VariableSimulationArguments, [idx_set, usize]});
        let args: Vec<String> = std::iter::repeat("skipped".to_string()).take(crate::out::lead(0)).chain(args).collect();
        setup_simulation_fixed!(args, 12, 0, TimeAnalysis, "PRE", dataset, SimulationData, sys_arg, ContCylindricalSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveMergeAgent, time_arg, ExponentialStep, sim_arg, VariableSimulation);
        let dir = sim_arg.output_dir.clone();
        export_simulation_info!(dataset, dir, writer, WIDTH, "PRE", ContCylindricalSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveMergeAgent, vec_agents, agent_arg, ExponentialStep, timeiter, time_arg, VariableSimulation, simulation, sim_arg);
        crate::out::report(&[("sys_type", format!("{:?}", sys_arg.sys_type)), ("bctype", format!("{:?}", sys_arg.bctype)), ("sys_radius", format!("{:?}", sys_arg.sys_radius)), ("sys_length", format!("{:?}", sys_arg.sys_length)), ("dim", format!("{:?}", sys_arg.dim)), ("target_pos", format!("{:?}", target_arg.target_pos)), ("target_size", format!("{:?}", target_arg.target_size)), ("mtype", format!("{:?}", agent_arg.mtype)), ("itype", format!("{:?}", agent_arg.itype)), ("ptl_radius", format!("{:?}", agent_arg.ptl_radius)), ("alpha", format!("{:?}", agent_arg.alpha)), ("num_agent", format!("{:?}", agent_arg.num_agent)), ("dt_min", format!("{:?}", time_arg.dt_min)), ("dt_max", format!("{:?}", time_arg.dt_max)), ("length", format!("{:?}", time_arg.length)), ("tmax", format!("{:?}", time_arg.tmax)), ("num_ensemble", format!("{:?}", sim_arg.num_ensemble)), ("idx_set", format!("{:?}", sim_arg.idx_set)), ("seed", format!("{:?}", sim_arg.seed)), ("output_dir", format!("{:?}", sim_arg.output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
}
mod p21101 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeVecAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, VariableSimulation);
        crate::out::report(&[("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_radius", format!("{:?}", ptl_radius)), ("alpha", format!("{:?}", alpha)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p21102 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", ProcessAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, VariableSimulation);
        crate::out::report(&[("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_radius", format!("{:?}", ptl_radius)), ("alpha", format!("{:?}", alpha)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p21110 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, ParVariableSimulation);
        crate::out::report(&[("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_radius", format!("{:?}", ptl_radius)), ("alpha", format!("{:?}", alpha)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(args: Vec<String>) -> Result<(), Error> {
        construct_dataset!(SimulationData, ContCylindricalSystem, sys_arg, ContCylindricalSystemArguments, [sys_radius, f64, sys_length, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveMergeAgent, agent_arg, ContPassiveMergeAgentArguments, [ptl_radius, f64, alpha, f64, num_agent, usize]; ExponentialStep, time_arg, ExponentialStepArguments, [dt_min, f64, dt_max, f64, length, usize, tmax, f64];{ParVariableSimulation, sim_arg, ParVariableSimulationArguments, [n_thrd, usize]});
        let args: Vec<String> = std::iter::repeat("skipped".to_string()).take(crate::out::lead(0)).chain(args).collect();
        setup_simulation_fixed!(args, 12, 0, TimeAnalysis, "PRE", dataset, SimulationData, sys_arg, ContCylindricalSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveMergeAgent, time_arg, ExponentialStep, sim_arg, ParVariableSimulation);
        let dir = sim_arg.output_dir.clone();
        export_simulation_info!(dataset, dir, writer, WIDTH, "PRE", ContCylindricalSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveMergeAgent, vec_agents, agent_arg, ExponentialStep, timeiter, time_arg, ParVariableSimulation, simulation, sim_arg);
        crate::out::report(&[("sys_type", format!("{:?}", sys_arg.sys_type)), ("bctype", format!("{:?}", sys_arg.bctype)), ("sys_radius", format!("{:?}", sys_arg.sys_radius)), ("sys_length", format!("{:?}", sys_arg.sys_length)), ("dim", format!("{:?}", sys_arg.dim)), ("target_pos", format!("{:?}", target_arg.target_pos)), ("target_size", format!("{:?}", target_arg.target_size)), ("mtype", format!("{:?}", agent_arg.mtype)), ("itype", format!("{:?}", agent_arg.itype)), ("ptl_radius", format!("{:?}", agent_arg.ptl_radius)), ("alpha", format!("{:?}", agent_arg.alpha)), ("num_agent", format!("{:?}", agent_arg.num_agent)), ("dt_min", format!("{:?}", time_arg.dt_min)), ("dt_max", format!("{:?}", time_arg.dt_max)), ("length", format!("{:?}", time_arg.length)), ("tmax", format!("{:?}", time_arg.tmax)), ("num_ensemble", format!("{:?}", sim_arg.num_ensemble)), ("seed", format!("{:?}", sim_arg.seed)), ("n_thrd", format!("{:?}", sim_arg.n_thrd)), ("output_dir", format!("{:?}", sim_arg.output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
}
mod p21111 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeVecAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, ParVariableSimulation);
        crate::out::report(&[("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_radius", format!("{:?}", ptl_radius)), ("alpha", format!("{:?}", alpha)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p21112 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", ProcessAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, ParVariableSimulation);
        crate::out::report(&[("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_radius", format!("{:?}", ptl_radius)), ("alpha", format!("{:?}", alpha)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p21120 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, ProcessSimulation);
        crate::out::report(&[("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_radius", format!("{:?}", ptl_radius)), ("alpha", format!("{:?}", alpha)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p21121 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeVecAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, ProcessSimulation);
        crate::out::report(&[("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_radius", format!("{:?}", ptl_radius)), ("alpha", format!("{:?}", alpha)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p21122 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", ProcessAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, ProcessSimulation);
        crate::out::report(&[("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_radius", format!("{:?}", ptl_radius)), ("alpha", format!("{:?}", alpha)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(args: Vec<String>) -> Result<(), Error> {
        construct_dataset!(SimulationData, ContCylindricalSystem, sys_arg, ContCylindricalSystemArguments, [sys_radius, f64, sys_length, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveMergeAgent, agent_arg, ContPassiveMergeAgentArguments, [ptl_radius, f64, alpha, f64, num_agent, usize]; ExponentialStep, time_arg, ExponentialStepArguments, [dt_min, f64, dt_max, f64, length, usize, tmax, f64];{ProcessSimulation, sim_arg, ProcessSimulationArguments, [period, f64, idx_set, usize]});
        let args: Vec<String> = std::iter::repeat("skipped".to_string()).take(crate::out::lead(0)).chain(args).collect();
        setup_simulation_fixed!(args, 12, 0, ProcessAnalysis, "PRE", dataset, SimulationData, sys_arg, ContCylindricalSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveMergeAgent, time_arg, ExponentialStep, sim_arg, ProcessSimulation);
        let dir = sim_arg.output_dir.clone();
        export_simulation_info!(dataset, dir, writer, WIDTH, "PRE", ContCylindricalSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveMergeAgent, vec_agents, agent_arg, ExponentialStep, timeiter, time_arg, ProcessSimulation, simulation, sim_arg);
        crate::out::report(&[("sys_type", format!("{:?}", sys_arg.sys_type)), ("bctype", format!("{:?}", sys_arg.bctype)), ("sys_radius", format!("{:?}", sys_arg.sys_radius)), ("sys_length", format!("{:?}", sys_arg.sys_length)), ("dim", format!("{:?}", sys_arg.dim)), ("target_pos", format!("{:?}", target_arg.target_pos)), ("target_size", format!("{:?}", target_arg.target_size)), ("mtype", format!("{:?}", agent_arg.mtype)), ("itype", format!("{:?}", agent_arg.itype)), ("ptl_radius", format!("{:?}", agent_arg.ptl_radius)), ("alpha", format!("{:?}", agent_arg.alpha)), ("num_agent", format!("{:?}", agent_arg.num_agent)), ("dt_min", format!("{:?}", time_arg.dt_min)), ("dt_max", format!("{:?}", time_arg.dt_max)), ("length", format!("{:?}", time_arg.length)), ("tmax", format!("{:?}", time_arg.tmax)), ("num_ensemble", format!("{:?}", sim_arg.num_ensemble)), ("period", format!("{:?}", sim_arg.period)), ("idx_set", format!("{:?}", sim_arg.idx_set)), ("seed", format!("{:?}", sim_arg.seed)), ("output_dir", format!("{:?}", sim_arg.output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
}
mod p22000 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, VariableSimulation);
        crate::out::report(&[("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("gamma", format!("{:?}", gamma)), ("exp_dim", format!("{:?}", exp_dim)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(args: Vec<String>) -> Result<(), Error> {
        construct_dataset!(SimulationData, ContCylindricalSystem, sys_arg, ContCylindricalSystemArguments, [sys_radius, f64, sys_length, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveExpAgent, agent_arg, ContPassiveExpAgentArguments, [gamma, f64, strength, f64, num_agent, usize]; ConstStep, time_arg, ConstStepArguments, [dt, f64, tmax, f64];{VariableSimulation, sim_arg, VariableSimulationArguments, [idx_set, usize]});
        let args: Vec<String> = std::iter::repeat("skipped".to_string()).take(crate::out::lead(1)).chain(args).collect();
        setup_simulation_fixed!(args, 16, 1, TimeAnalysis, "PRE", dataset, SimulationData, sys_arg, ContCylindricalSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveExpAgent, time_arg, ConstStep, sim_arg, VariableSimulation);
        let dir = sim_arg.output_dir.clone();
        export_simulation_info!(dataset, dir, writer, WIDTH, "PRE", ContCylindricalSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveExpAgent, vec_agents, agent_arg, ConstStep, timeiter, time_arg, VariableSimulation, simulation, sim_arg);
        crate::out::report(&[("sys_type", format!("{:?}", sys_arg.sys_type)), ("bctype", format!("{:?}", sys_arg.bctype)), ("sys_radius", format!("{:?}", sys_arg.sys_radius)), ("sys_length", format!("{:?}", sys_arg.sys_length)), ("dim", format!("{:?}", sys_arg.dim)), ("target_pos", format!("{:?}", target_arg.target_pos)), ("target_size", format!("{:?}", target_arg.target_size)), ("mtype", format!("{:?}", agent_arg.mtype)), ("itype", format!("{:?}", agent_arg.itype)), ("gamma", format!("{:?}", agent_arg.gamma)), ("exp_dim", format!("{:?}", agent_arg.exp_dim)), ("strength", format!("{:?}", agent_arg.strength)), ("num_agent", format!("{:?}", agent_arg.num_agent)), ("dt", format!("{:?}", time_arg.dt)), ("tmax", format!("{:?}", time_arg.tmax)), ("num_ensemble", format!("{:?}", sim_arg.num_ensemble)), ("idx_set", format!("{:?}", sim_arg.idx_set)), ("seed", format!("{:?}", sim_arg.seed)), ("output_dir", format!("{:?}", sim_arg.output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
}
mod p22001 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeVecAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, VariableSimulation);
        crate::out::report(&[("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("gamma", format!("{:?}", gamma)), ("exp_dim", format!("{:?}", exp_dim)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p22002 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", ProcessAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, VariableSimulation);
        crate::out::report(&[("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("gamma", format!("{:?}", gamma)), ("exp_dim", format!("{:?}", exp_dim)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p22010 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, ParVariableSimulation);
        crate::out::report(&[("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("gamma", format!("{:?}", gamma)), ("exp_dim", format!("{:?}", exp_dim)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(args: Vec<String>) -> Result<(), Error> {
        construct_dataset!(SimulationData, ContCylindricalSystem, sys_arg, ContCylindricalSystemArguments, [sys_radius, f64, sys_length, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveExpAgent, agent_arg, ContPassiveExpAgentArguments, [gamma, f64, strength, f64, num_agent, usize]; ConstStep, time_arg, ConstStepArguments, [dt, f64, tmax, f64];{ParVariableSimulation, sim_arg, ParVariableSimulationArguments, [n_thrd, usize]});
        let args: Vec<String> = std::iter::repeat("skipped".to_string()).take(crate::out::lead(1)).chain(args).collect();
        setup_simulation_fixed!(args, 16, 1, TimeAnalysis, "PRE", dataset, SimulationData, sys_arg, ContCylindricalSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveExpAgent, time_arg, ConstStep, sim_arg, ParVariableSimulation);
        let dir = sim_arg.output_dir.clone();
        export_simulation_info!(dataset, dir, writer, WIDTH, "PRE", ContCylindricalSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveExpAgent, vec_agents, agent_arg, ConstStep, timeiter, time_arg, ParVariableSimulation, simulation, sim_arg);
        crate::out::report(&[("sys_type", format!("{:?}", sys_arg.sys_type)), ("bctype", format!("{:?}", sys_arg.bctype)), ("sys_radius", format!("{:?}", sys_arg.sys_radius)), ("sys_length", format!("{:?}", sys_arg.sys_length)), ("dim", format!("{:?}", sys_arg.dim)), ("target_pos", format!("{:?}", target_arg.target_pos)), ("target_size", format!("{:?}", target_arg.target_size)), ("mtype", format!("{:?}", agent_arg.mtype)), ("itype", format!("{:?}", agent_arg.itype)), ("gamma", format!("{:?}", agent_arg.gamma)), ("exp_dim", format!("{:?}", agent_arg.exp_dim)), ("strength", format!("{:?}", agent_arg.strength)), ("num_agent", format!("{:?}", agent_arg.num_agent)), ("dt", format!("{:?}", time_arg.dt)), ("tmax", format!("{:?}", time_arg.tmax)), ("num_ensemble", format!("{:?}", sim_arg.num_ensemble)), ("seed", format!("{:?}", sim_arg.seed)), ("n_thrd", format!("{:?}", sim_arg.n_thrd)), ("output_dir", format!("{:?}", sim_arg.output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
}
mod p22011 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeVecAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, ParVariableSimulation);
        crate::out::report(&[("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("gamma", format!("{:?}", gamma)), ("exp_dim", format!("{:?}", exp_dim)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p22012 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", ProcessAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, ParVariableSimulation);
        crate::out::report(&[("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("gamma", format!("{:?}", gamma)), ("exp_dim", format!("{:?}", exp_dim)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p22020 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, ProcessSimulation);
        crate::out::report(&[("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("gamma", format!("{:?}", gamma)), ("exp_dim", format!("{:?}", exp_dim)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p22021 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeVecAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, ProcessSimulation);
        crate::out::report(&[("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("gamma", format!("{:?}", gamma)), ("exp_dim", format!("{:?}", exp_dim)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p22022 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", ProcessAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, ProcessSimulation);
        crate::out::report(&[("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("gamma", format!("{:?}", gamma)), ("exp_dim", format!("{:?}", exp_dim)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(args: Vec<String>) -> Result<(), Error> {
        construct_dataset!(SimulationData, ContCylindricalSystem, sys_arg, ContCylindricalSystemArguments, [sys_radius, f64, sys_length, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveExpAgent, agent_arg, ContPassiveExpAgentArguments, [gamma, f64, strength, f64, num_agent, usize]; ConstStep, time_arg, ConstStepArguments, [dt, f64, tmax, f64];{ProcessSimulation, sim_arg, ProcessSimulationArguments, [period, f64, idx_set, usize]});
        let args: Vec<String> = std::iter::repeat("skipped".to_string()).take(crate::out::lead(1)).chain(args).collect();
        setup_simulation_fixed!(args, 16, 1, ProcessAnalysis, "PRE", dataset, SimulationData, sys_arg, ContCylindricalSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveExpAgent, time_arg, ConstStep, sim_arg, ProcessSimulation);
        let dir = sim_arg.output_dir.clone();
        export_simulation_info!(dataset, dir, writer, WIDTH, "PRE", ContCylindricalSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveExpAgent, vec_agents, agent_arg, ConstStep, timeiter, time_arg, ProcessSimulation, simulation, sim_arg);
        crate::out::report(&[("sys_type", format!("{:?}", sys_arg.sys_type)), ("bctype", format!("{:?}", sys_arg.bctype)), ("sys_radius", format!("{:?}", sys_arg.sys_radius)), ("sys_length", format!("{:?}", sys_arg.sys_length)), ("dim", format!("{:?}", sys_arg.dim)), ("target_pos", format!("{:?}", target_arg.target_pos)), ("target_size", format!("{:?}", target_arg.target_size)), ("mtype", format!("{:?}", agent_arg.mtype)), ("itype", format!("{:?}", agent_arg.itype)), ("gamma", format!("{:?}", agent_arg.gamma)), ("exp_dim", format!("{:?}", agent_arg.exp_dim)), ("strength", format!("{:?}", agent_arg.strength)), ("num_agent", format!("{:?}", agent_arg.num_agent)), ("dt", format!("{:?}", time_arg.dt)), ("tmax", format!("{:?}", time_arg.tmax)), ("num_ensemble", format!("{:?}", sim_arg.num_ensemble)), ("period", format!("{:?}", sim_arg.period)), ("idx_set", format!("{:?}", sim_arg.idx_set)), ("seed", format!("{:?}", sim_arg.seed)), ("output_dir", format!("{:?}", sim_arg.output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
}
mod p22100 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, VariableSimulation);
        crate::out::report(&[("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("gamma", format!("{:?}", gamma)), ("exp_dim", format!("{:?}", exp_dim)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p22101 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeVecAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, VariableSimulation);
        crate::out::report(&[("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("gamma", format!("{:?}", gamma)), ("exp_dim", format!("{:?}", exp_dim)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(args: Vec<String>) -> Result<(), Error> {
        construct_dataset!(SimulationData, ContCylindricalSystem, sys_arg, ContCylindricalSystemArguments, [sys_radius, f64, sys_length, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveExpAgent, agent_arg, ContPassiveExpAgentArguments, [gamma, f64, strength, f64, num_agent, usize]; ExponentialStep, time_arg, ExponentialStepArguments, [dt_min, f64, dt_max, f64, length, usize, tmax, f64];{VariableSimulation, sim_arg, VariableSimulationArguments, [idx_set, usize]});
        let args: Vec<String> = std::iter::repeat("skipped".to_string()).take(crate::out::lead(1)).chain(args).collect();
        setup_simulation_fixed!(args, 16, 1, TimeVecAnalysis, "PRE", dataset, SimulationData, sys_arg, ContCylindricalSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveExpAgent, time_arg, ExponentialStep, sim_arg, VariableSimulation);
        let dir = sim_arg.output_dir.clone();
        export_simulation_info!(dataset, dir, writer, WIDTH, "PRE", ContCylindricalSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveExpAgent, vec_agents, agent_arg, ExponentialStep, timeiter, time_arg, VariableSimulation, simulation, sim_arg);
        crate::out::report(&[("sys_type", format!("{:?}", sys_arg.sys_type)), ("bctype", format!("{:?}", sys_arg.bctype)), ("sys_radius", format!("{:?}", sys_arg.sys_radius)), ("sys_length", format!("{:?}", sys_arg.sys_length)), ("dim", format!("{:?}", sys_arg.dim)), ("target_pos", format!("{:?}", target_arg.target_pos)), ("target_size", format!("{:?}", target_arg.target_size)), ("mtype", format!("{:?}", agent_arg.mtype)), ("itype", format!("{:?}", agent_arg.itype)), ("gamma", format!("{:?}", agent_arg.gamma)), ("exp_dim", format!("{:?}", agent_arg.exp_dim)), ("strength", format!("{:?}", agent_arg.strength)), ("num_agent", format!("{:?}", agent_arg.num_agent)), ("dt_min", format!("{:?}", time_arg.dt_min)), ("dt_max", format!("{:?}", time_arg.dt_max)), ("length", format!("{:?}", time_arg.length)), ("tmax", format!("{:?}", time_arg.tmax)), ("num_ensemble", format!("{:?}", sim_arg.num_ensemble)), ("idx_set", format!("{:?}", sim_arg.idx_set)), ("seed", format!("{:?}", sim_arg.seed)), ("output_dir", format!("{:?}", sim_arg.output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
}
mod p22102 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", ProcessAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, VariableSimulation);
        crate::out::report(&[("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("gamma", format!("{:?}", gamma)), ("exp_dim", format!("{:?}", exp_dim)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p22110 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, ParVariableSimulation);
        crate::out::report(&[("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("gamma", format!("{:?}", gamma)), ("exp_dim", format!("{:?}", exp_dim)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p22111 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeVecAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, ParVariableSimulation);
        crate::out::report(&[("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("gamma", format!("{:?}", gamma)), ("exp_dim", format!("{:?}", exp_dim)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(args: Vec<String>) -> Result<(), Error> {
        construct_dataset!(SimulationData, ContCylindricalSystem, sys_arg, ContCylindricalSystemArguments, [sys_radius, f64, sys_length, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveExpAgent, agent_arg, ContPassiveExpAgentArguments, [gamma, f64, strength, f64, num_agent, usize]; ExponentialStep, time_arg, ExponentialStepArguments, [dt_min, f64, dt_max, f64, length, usize, tmax, f64];{ParVariableSimulation, sim_arg, ParVariableSimulationArguments, [n_thrd, usize]});
        let args: Vec<String> = std::iter::repeat("skipped".to_string()).take(crate::out::lead(1)).chain(args).collect();
        setup_simulation_fixed!(args, 16, 1, TimeVecAnalysis, "PRE", dataset, SimulationData, sys_arg, ContCylindricalSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveExpAgent, time_arg, ExponentialStep, sim_arg, ParVariableSimulation);
        let dir = sim_arg.output_dir.clone();
        export_simulation_info!(dataset, dir, writer, WIDTH, "PRE", ContCylindricalSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveExpAgent, vec_agents, agent_arg, ExponentialStep, timeiter, time_arg, ParVariableSimulation, simulation, sim_arg);
        crate::out::report(&[("sys_type", format!("{:?}", sys_arg.sys_type)), ("bctype", format!("{:?}", sys_arg.bctype)), ("sys_radius", format!("{:?}", sys_arg.sys_radius)), ("sys_length", format!("{:?}", sys_arg.sys_length)), ("dim", format!("{:?}", sys_arg.dim)), ("target_pos", format!("{:?}", target_arg.target_pos)), ("target_size", format!("{:?}", target_arg.target_size)), ("mtype", format!("{:?}", agent_arg.mtype)), ("itype", format!("{:?}", agent_arg.itype)), ("gamma", format!("{:?}", agent_arg.gamma)), ("exp_dim", format!("{:?}", agent_arg.exp_dim)), ("strength", format!("{:?}", agent_arg.strength)), ("num_agent", format!("{:?}", agent_arg.num_agent)), ("dt_min", format!("{:?}", time_arg.dt_min)), ("dt_max", format!("{:?}", time_arg.dt_max)), ("length", format!("{:?}", time_arg.length)), ("tmax", format!("{:?}", time_arg.tmax)), ("num_ensemble", format!("{:?}", sim_arg.num_ensemble)), ("seed", format!("{:?}", sim_arg.seed)), ("n_thrd", format!("{:?}", sim_arg.n_thrd)), ("output_dir", format!("{:?}", sim_arg.output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
}
mod p22112 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", ProcessAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, ParVariableSimulation);
        crate::out::report(&[("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("gamma", format!("{:?}", gamma)), ("exp_dim", format!("{:?}", exp_dim)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p22120 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, ProcessSimulation);
        crate::out::report(&[("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("gamma", format!("{:?}", gamma)), ("exp_dim", format!("{:?}", exp_dim)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p22121 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeVecAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, ProcessSimulation);
        crate::out::report(&[("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("gamma", format!("{:?}", gamma)), ("exp_dim", format!("{:?}", exp_dim)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p22122 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", ProcessAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, ProcessSimulation);
        crate::out::report(&[("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("gamma", format!("{:?}", gamma)), ("exp_dim", format!("{:?}", exp_dim)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(args: Vec<String>) -> Result<(), Error> {
        construct_dataset!(SimulationData, ContCylindricalSystem, sys_arg, ContCylindricalSystemArguments, [sys_radius, f64, sys_length, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveExpAgent, agent_arg, ContPassiveExpAgentArguments, [gamma, f64, strength, f64, num_agent, usize]; ExponentialStep, time_arg, ExponentialStepArguments, [dt_min, f64, dt_max, f64, length, usize, tmax, f64];{ProcessSimulation, sim_arg, ProcessSimulationArguments, [period, f64, idx_set, usize]});
        let args: Vec<String> = std::iter::repeat("skipped".to_string()).take(crate::out::lead(1)).chain(args).collect();
        setup_simulation_fixed!(args, 16, 1, ProcessAnalysis, "PRE", dataset, SimulationData, sys_arg, ContCylindricalSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveExpAgent, time_arg, ExponentialStep, sim_arg, ProcessSimulation);
        let dir = sim_arg.output_dir.clone();
        export_simulation_info!(dataset, dir, writer, WIDTH, "PRE", ContCylindricalSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveExpAgent, vec_agents, agent_arg, ExponentialStep, timeiter, time_arg, ProcessSimulation, simulation, sim_arg);
        crate::out::report(&[("sys_type", format!("{:?}", sys_arg.sys_type)), ("bctype", format!("{:?}", sys_arg.bctype)), ("sys_radius", format!("{:?}", sys_arg.sys_radius)), ("sys_length", format!("{:?}", sys_arg.sys_length)), ("dim", format!("{:?}", sys_arg.dim)), ("target_pos", format!("{:?}", target_arg.target_pos)), ("target_size", format!("{:?}", target_arg.target_size)), ("mtype", format!("{:?}", agent_arg.mtype)), ("itype", format!("{:?}", agent_arg.itype)), ("gamma", format!("{:?}", agent_arg.gamma)), ("exp_dim", format!("{:?}", agent_arg.exp_dim)), ("strength", format!("{:?}", agent_arg.strength)), ("num_agent", format!("{:?}", agent_arg.num_agent)), ("dt_min", format!("{:?}", time_arg.dt_min)), ("dt_max", format!("{:?}", time_arg.dt_max)), ("length", format!("{:?}", time_arg.length)), ("tmax", format!("{:?}", time_arg.tmax)), ("num_ensemble", format!("{:?}", sim_arg.num_ensemble)), ("period", format!("{:?}", sim_arg.period)), ("idx_set", format!("{:?}", sim_arg.idx_set)), ("seed", format!("{:?}", sim_arg.seed)), ("output_dir", format!("{:?}", sim_arg.output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
}
mod p23000 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, VariableSimulation);
        crate::out::report(&[("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_size", format!("{:?}", ptl_size)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p23001 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeVecAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, VariableSimulation);
        crate::out::report(&[("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_size", format!("{:?}", ptl_size)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(args: Vec<String>) -> Result<(), Error> {
        construct_dataset!(SimulationData, ContCylindricalSystem, sys_arg, ContCylindricalSystemArguments, [sys_radius, f64, sys_length, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveLJAgent, agent_arg, ContPassiveLJAgentArguments, [ptl_size, f64, strength, f64, num_agent, usize]; ConstStep, time_arg, ConstStepArguments, [dt, f64, tmax, f64];{VariableSimulation, sim_arg, VariableSimulationArguments, [idx_set, usize]});
        let args: Vec<String> = std::iter::repeat("skipped".to_string()).take(crate::out::lead(2)).chain(args).collect();
        setup_simulation_fixed!(args, 8, 2, TimeVecAnalysis, "PRE", dataset, SimulationData, sys_arg, ContCylindricalSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveLJAgent, time_arg, ConstStep, sim_arg, VariableSimulation);
        let dir = sim_arg.output_dir.clone();
        export_simulation_info!(dataset, dir, writer, WIDTH, "PRE", ContCylindricalSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveLJAgent, vec_agents, agent_arg, ConstStep, timeiter, time_arg, VariableSimulation, simulation, sim_arg);
        crate::out::report(&[("sys_type", format!("{:?}", sys_arg.sys_type)), ("bctype", format!("{:?}", sys_arg.bctype)), ("sys_radius", format!("{:?}", sys_arg.sys_radius)), ("sys_length", format!("{:?}", sys_arg.sys_length)), ("dim", format!("{:?}", sys_arg.dim)), ("target_pos", format!("{:?}", target_arg.target_pos)), ("target_size", format!("{:?}", target_arg.target_size)), ("mtype", format!("{:?}", agent_arg.mtype)), ("itype", format!("{:?}", agent_arg.itype)), ("ptl_size", format!("{:?}", agent_arg.ptl_size)), ("strength", format!("{:?}", agent_arg.strength)), ("num_agent", format!("{:?}", agent_arg.num_agent)), ("dt", format!("{:?}", time_arg.dt)), ("tmax", format!("{:?}", time_arg.tmax)), ("num_ensemble", format!("{:?}", sim_arg.num_ensemble)), ("idx_set", format!("{:?}", sim_arg.idx_set)), ("seed", format!("{:?}", sim_arg.seed)), ("output_dir", format!("{:?}", sim_arg.output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
}
mod p23002 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", ProcessAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, VariableSimulation);
        crate::out::report(&[("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_size", format!("{:?}", ptl_size)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p23010 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, ParVariableSimulation);
        crate::out::report(&[("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_size", format!("{:?}", ptl_size)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p23011 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeVecAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, ParVariableSimulation);
        crate::out::report(&[("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_size", format!("{:?}", ptl_size)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(args: Vec<String>) -> Result<(), Error> {
        construct_dataset!(SimulationData, ContCylindricalSystem, sys_arg, ContCylindricalSystemArguments, [sys_radius, f64, sys_length, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveLJAgent, agent_arg, ContPassiveLJAgentArguments, [ptl_size, f64, strength, f64, num_agent, usize]; ConstStep, time_arg, ConstStepArguments, [dt, f64, tmax, f64];{ParVariableSimulation, sim_arg, ParVariableSimulationArguments, [n_thrd, usize]});
        let args: Vec<String> = std::iter::repeat("skipped".to_string()).take(crate::out::lead(2)).chain(args).collect();
        setup_simulation_fixed!(args, 8, 2, TimeVecAnalysis, "PRE", dataset, SimulationData, sys_arg, ContCylindricalSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveLJAgent, time_arg, ConstStep, sim_arg, ParVariableSimulation);
        let dir = sim_arg.output_dir.clone();
        export_simulation_info!(dataset, dir, writer, WIDTH, "PRE", ContCylindricalSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveLJAgent, vec_agents, agent_arg, ConstStep, timeiter, time_arg, ParVariableSimulation, simulation, sim_arg);
        crate::out::report(&[("sys_type", format!("{:?}", sys_arg.sys_type)), ("bctype", format!("{:?}", sys_arg.bctype)), ("sys_radius", format!("{:?}", sys_arg.sys_radius)), ("sys_length", format!("{:?}", sys_arg.sys_length)), ("dim", format!("{:?}", sys_arg.dim)), ("target_pos", format!("{:?}", target_arg.target_pos)), ("target_size", format!("{:?}", target_arg.target_size)), ("mtype", format!("{:?}", agent_arg.mtype)), ("itype", format!("{:?}", agent_arg.itype)), ("ptl_size", format!("{:?}", agent_arg.ptl_size)), ("strength", format!("{:?}", agent_arg.strength)), ("num_agent", format!("{:?}", agent_arg.num_agent)), ("dt", format!("{:?}", time_arg.dt)), ("tmax", format!("{:?}", time_arg.tmax)), ("num_ensemble", format!("{:?}", sim_arg.num_ensemble)), ("seed", format!("{:?}", sim_arg.seed)), ("n_thrd", format!("{:?}", sim_arg.n_thrd)), ("output_dir", format!("{:?}", sim_arg.output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
}
mod p23012 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", ProcessAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, ParVariableSimulation);
        crate::out::report(&[("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_size", format!("{:?}", ptl_size)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p23020 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, ProcessSimulation);
        crate::out::report(&[("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_size", format!("{:?}", ptl_size)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p23021 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeVecAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, ProcessSimulation);
        crate::out::report(&[("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_size", format!("{:?}", ptl_size)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p23022 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", ProcessAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, ProcessSimulation);
        crate::out::report(&[("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_size", format!("{:?}", ptl_size)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(args: Vec<String>) -> Result<(), Error> {
        construct_dataset!(SimulationData, ContCylindricalSystem, sys_arg, ContCylindricalSystemArguments, [sys_radius, f64, sys_length, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveLJAgent, agent_arg, ContPassiveLJAgentArguments, [ptl_size, f64, strength, f64, num_agent, usize]; ConstStep, time_arg, ConstStepArguments, [dt, f64, tmax, f64];{ProcessSimulation, sim_arg, ProcessSimulationArguments, [period, f64, idx_set, usize]});
        let args: Vec<String> = std::iter::repeat("skipped".to_string()).take(crate::out::lead(2)).chain(args).collect();
        setup_simulation_fixed!(args, 8, 2, ProcessAnalysis, "PRE", dataset, SimulationData, sys_arg, ContCylindricalSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveLJAgent, time_arg, ConstStep, sim_arg, ProcessSimulation);
        let dir = sim_arg.output_dir.clone();
        export_simulation_info!(dataset, dir, writer, WIDTH, "PRE", ContCylindricalSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveLJAgent, vec_agents, agent_arg, ConstStep, timeiter, time_arg, ProcessSimulation, simulation, sim_arg);
        crate::out::report(&[("sys_type", format!("{:?}", sys_arg.sys_type)), ("bctype", format!("{:?}", sys_arg.bctype)), ("sys_radius", format!("{:?}", sys_arg.sys_radius)), ("sys_length", format!("{:?}", sys_arg.sys_length)), ("dim", format!("{:?}", sys_arg.dim)), ("target_pos", format!("{:?}", target_arg.target_pos)), ("target_size", format!("{:?}", target_arg.target_size)), ("mtype", format!("{:?}", agent_arg.mtype)), ("itype", format!("{:?}", agent_arg.itype)), ("ptl_size", format!("{:?}", agent_arg.ptl_size)), ("strength", format!("{:?}", agent_arg.strength)), ("num_agent", format!("{:?}", agent_arg.num_agent)), ("dt", format!("{:?}", time_arg.dt)), ("tmax", format!("{:?}", time_arg.tmax)), ("num_ensemble", format!("{:?}", sim_arg.num_ensemble)), ("period", format!("{:?}", sim_arg.period)), ("idx_set", format!("{:?}", sim_arg.idx_set)), ("seed", format!("{:?}", sim_arg.seed)), ("output_dir", format!("{:?}", sim_arg.output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
}
mod p23100 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, VariableSimulation);
        crate::out::report(&[("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_size", format!("{:?}", ptl_size)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(args: Vec<String>) -> Result<(), Error> {
        construct_dataset!(SimulationData, ContCylindricalSystem, sys_arg, ContCylindricalSystemArguments, [sys_radius, f64, sys_length, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveLJAgent, agent_arg, ContPassiveLJAgentArguments, [ptl_size, f64, strength, f64, num_agent, usize]; ExponentialStep, time_arg, ExponentialStepArguments, [dt_min, f64, dt_max, f64, length, usize, tmax, f64];{VariableSimulation, sim_arg, VariableSimulationArguments, [idx_set, usize]});
        let args: Vec<String> = std::iter::repeat("skipped".to_string()).take(crate::out::lead(2)).chain(args).collect();
        setup_simulation_fixed!(args, 8, 2, TimeAnalysis, "PRE", dataset, SimulationData, sys_arg, ContCylindricalSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveLJAgent, time_arg, ExponentialStep, sim_arg, VariableSimulation);
        let dir = sim_arg.output_dir.clone();
        export_simulation_info!(dataset, dir, writer, WIDTH, "PRE", ContCylindricalSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveLJAgent, vec_agents, agent_arg, ExponentialStep, timeiter, time_arg, VariableSimulation, simulation, sim_arg);
        crate::out::report(&[("sys_type", format!("{:?}", sys_arg.sys_type)), ("bctype", format!("{:?}", sys_arg.bctype)), ("sys_radius", format!("{:?}", sys_arg.sys_radius)), ("sys_length", format!("{:?}", sys_arg.sys_length)), ("dim", format!("{:?}", sys_arg.dim)), ("target_pos", format!("{:?}", target_arg.target_pos)), ("target_size", format!("{:?}", target_arg.target_size)), ("mtype", format!("{:?}", agent_arg.mtype)), ("itype", format!("{:?}", agent_arg.itype)), ("ptl_size", format!("{:?}", agent_arg.ptl_size)), ("strength", format!("{:?}", agent_arg.strength)), ("num_agent", format!("{:?}", agent_arg.num_agent)), ("dt_min", format!("{:?}", time_arg.dt_min)), ("dt_max", format!("{:?}", time_arg.dt_max)), ("length", format!("{:?}", time_arg.length)), ("tmax", format!("{:?}", time_arg.tmax)), ("num_ensemble", format!("{:?}", sim_arg.num_ensemble)), ("idx_set", format!("{:?}", sim_arg.idx_set)), ("seed", format!("{:?}", sim_arg.seed)), ("output_dir", format!("{:?}", sim_arg.output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
}
mod p23101 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeVecAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, VariableSimulation);
        crate::out::report(&[("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_size", format!("{:?}", ptl_size)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p23102 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", ProcessAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, VariableSimulation);
        crate::out::report(&[("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_size", format!("{:?}", ptl_size)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p23110 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, ParVariableSimulation);
        crate::out::report(&[("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_size", format!("{:?}", ptl_size)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(args: Vec<String>) -> Result<(), Error> {
        construct_dataset!(SimulationData, ContCylindricalSystem, sys_arg, ContCylindricalSystemArguments, [sys_radius, f64, sys_length, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveLJAgent, agent_arg, ContPassiveLJAgentArguments, [ptl_size, f64, strength, f64, num_agent, usize]; ExponentialStep, time_arg, ExponentialStepArguments, [dt_min, f64, dt_max, f64, length, usize, tmax, f64];{ParVariableSimulation, sim_arg, ParVariableSimulationArguments, [n_thrd, usize]});
        let args: Vec<String> = std::iter::repeat("skipped".to_string()).take(crate::out::lead(2)).chain(args).collect();
        setup_simulation_fixed!(args, 8, 2, TimeAnalysis, "PRE", dataset, SimulationData, sys_arg, ContCylindricalSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveLJAgent, time_arg, ExponentialStep, sim_arg, ParVariableSimulation);
        let dir = sim_arg.output_dir.clone();
        export_simulation_info!(dataset, dir, writer, WIDTH, "PRE", ContCylindricalSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveLJAgent, vec_agents, agent_arg, ExponentialStep, timeiter, time_arg, ParVariableSimulation, simulation, sim_arg);
        crate::out::report(&[("sys_type", format!("{:?}", sys_arg.sys_type)), ("bctype", format!("{:?}", sys_arg.bctype)), ("sys_radius", format!("{:?}", sys_arg.sys_radius)), ("sys_length", format!("{:?}", sys_arg.sys_length)), ("dim", format!("{:?}", sys_arg.dim)), ("target_pos", format!("{:?}", target_arg.target_pos)), ("target_size", format!("{:?}", target_arg.target_size)), ("mtype", format!("{:?}", agent_arg.mtype)), ("itype", format!("{:?}", agent_arg.itype)), ("ptl_size", format!("{:?}", agent_arg.ptl_size)), ("strength", format!("{:?}", agent_arg.strength)), ("num_agent", format!("{:?}", agent_arg.num_agent)), ("dt_min", format!("{:?}", time_arg.dt_min)), ("dt_max", format!("{:?}", time_arg.dt_max)), ("length", format!("{:?}", time_arg.length)), ("tmax", format!("{:?}", time_arg.tmax)), ("num_ensemble", format!("{:?}", sim_arg.num_ensemble)), ("seed", format!("{:?}", sim_arg.seed)), ("n_thrd", format!("{:?}", sim_arg.n_thrd)), ("output_dir", format!("{:?}", sim_arg.output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
}
mod p23111 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeVecAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, ParVariableSimulation);
        crate::out::report(&[("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_size", format!("{:?}", ptl_size)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p23112 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", ProcessAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, ParVariableSimulation);
        crate::out::report(&[("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_size", format!("{:?}", ptl_size)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p23120 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, ProcessSimulation);
        crate::out::report(&[("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_size", format!("{:?}", ptl_size)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p23121 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", TimeVecAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, ProcessSimulation);
        crate::out::report(&[("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_size", format!("{:?}", ptl_size)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(_: Vec<String>) -> Result<(), Error> {
        std::process::exit(99)
    }
}
mod p23122 {
    use moledyn::prelude::*;
    pub fn main() -> Result<(), Error> {
        simulation!("PRE", ProcessAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, ProcessSimulation);
        crate::out::report(&[("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_size", format!("{:?}", ptl_size)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
    pub fn fixed(args: Vec<String>) -> Result<(), Error> {
        construct_dataset!(SimulationData, ContCylindricalSystem, sys_arg, ContCylindricalSystemArguments, [sys_radius, f64, sys_length, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveLJAgent, agent_arg, ContPassiveLJAgentArguments, [ptl_size, f64, strength, f64, num_agent, usize]; ExponentialStep, time_arg, ExponentialStepArguments, [dt_min, f64, dt_max, f64, length, usize, tmax, f64];{ProcessSimulation, sim_arg, ProcessSimulationArguments, [period, f64, idx_set, usize]});
        let args: Vec<String> = std::iter::repeat("skipped".to_string()).take(crate::out::lead(2)).chain(args).collect();
        setup_simulation_fixed!(args, 8, 2, ProcessAnalysis, "PRE", dataset, SimulationData, sys_arg, ContCylindricalSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveLJAgent, time_arg, ExponentialStep, sim_arg, ProcessSimulation);
        let dir = sim_arg.output_dir.clone();
        export_simulation_info!(dataset, dir, writer, WIDTH, "PRE", ContCylindricalSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveLJAgent, vec_agents, agent_arg, ExponentialStep, timeiter, time_arg, ProcessSimulation, simulation, sim_arg);
        crate::out::report(&[("sys_type", format!("{:?}", sys_arg.sys_type)), ("bctype", format!("{:?}", sys_arg.bctype)), ("sys_radius", format!("{:?}", sys_arg.sys_radius)), ("sys_length", format!("{:?}", sys_arg.sys_length)), ("dim", format!("{:?}", sys_arg.dim)), ("target_pos", format!("{:?}", target_arg.target_pos)), ("target_size", format!("{:?}", target_arg.target_size)), ("mtype", format!("{:?}", agent_arg.mtype)), ("itype", format!("{:?}", agent_arg.itype)), ("ptl_size", format!("{:?}", agent_arg.ptl_size)), ("strength", format!("{:?}", agent_arg.strength)), ("num_agent", format!("{:?}", agent_arg.num_agent)), ("dt_min", format!("{:?}", time_arg.dt_min)), ("dt_max", format!("{:?}", time_arg.dt_max)), ("length", format!("{:?}", time_arg.length)), ("tmax", format!("{:?}", time_arg.tmax)), ("num_ensemble", format!("{:?}", sim_arg.num_ensemble)), ("period", format!("{:?}", sim_arg.period)), ("idx_set", format!("{:?}", sim_arg.idx_set)), ("seed", format!("{:?}", sim_arg.seed)), ("output_dir", format!("{:?}", sim_arg.output_dir))], vec_agents.len());
        crate::out::data(&mut writer);
        writer.flush().map_err(Error::make_error_io)
    }
}
fn main() -> Result<(), moledyn::prelude::Error> {
    let (p, fixed) = out::which();
    let f: (fn() -> Result<(), moledyn::prelude::Error>, fn(Vec<String>) -> Result<(), moledyn::prelude::Error>) = match p.as_str() {
        "p00000" => (p00000::main, p00000::fixed),
        "p00001" => (p00001::main, p00001::fixed),
        "p00002" => (p00002::main, p00002::fixed),
        "p00010" => (p00010::main, p00010::fixed),
        "p00011" => (p00011::main, p00011::fixed),
        "p00012" => (p00012::main, p00012::fixed),
        "p00020" => (p00020::main, p00020::fixed),
        "p00021" => (p00021::main, p00021::fixed),
        "p00022" => (p00022::main, p00022::fixed),
        "p00100" => (p00100::main, p00100::fixed),
        "p00101" => (p00101::main, p00101::fixed),
        "p00102" => (p00102::main, p00102::fixed),
        "p00110" => (p00110::main, p00110::fixed),
        "p00111" => (p00111::main, p00111::fixed),
        "p00112" => (p00112::main, p00112::fixed),
        "p00120" => (p00120::main, p00120::fixed),
        "p00121" => (p00121::main, p00121::fixed),
        "p00122" => (p00122::main, p00122::fixed),
        "p01000" => (p01000::main, p01000::fixed),
        "p01001" => (p01001::main, p01001::fixed),
        "p01002" => (p01002::main, p01002::fixed),
        "p01010" => (p01010::main, p01010::fixed),
        "p01011" => (p01011::main, p01011::fixed),
        "p01012" => (p01012::main, p01012::fixed),
        "p01020" => (p01020::main, p01020::fixed),
        "p01021" => (p01021::main, p01021::fixed),
        "p01022" => (p01022::main, p01022::fixed),
        "p01100" => (p01100::main, p01100::fixed),
        "p01101" => (p01101::main, p01101::fixed),
        "p01102" => (p01102::main, p01102::fixed),
        "p01110" => (p01110::main, p01110::fixed),
        "p01111" => (p01111::main, p01111::fixed),
        "p01112" => (p01112::main, p01112::fixed),
        "p01120" => (p01120::main, p01120::fixed),
        "p01121" => (p01121::main, p01121::fixed),
        "p01122" => (p01122::main, p01122::fixed),
        "p02000" => (p02000::main, p02000::fixed),
        "p02001" => (p02001::main, p02001::fixed),
        "p02002" => (p02002::main, p02002::fixed),
        "p02010" => (p02010::main, p02010::fixed),
        "p02011" => (p02011::main, p02011::fixed),
        "p02012" => (p02012::main, p02012::fixed),
        "p02020" => (p02020::main, p02020::fixed),
        "p02021" => (p02021::main, p02021::fixed),
        "p02022" => (p02022::main, p02022::fixed),
        "p02100" => (p02100::main, p02100::fixed),
        "p02101" => (p02101::main, p02101::fixed),
        "p02102" => (p02102::main, p02102::fixed),
        "p02110" => (p02110::main, p02110::fixed),
        "p02111" => (p02111::main, p02111::fixed),
        "p02112" => (p02112::main, p02112::fixed),
        "p02120" => (p02120::main, p02120::fixed),
        "p02121" => (p02121::main, p02121::fixed),
        "p02122" => (p02122::main, p02122::fixed),
        "p03000" => (p03000::main, p03000::fixed),
        "p03001" => (p03001::main, p03001::fixed),
        "p03002" => (p03002::main, p03002::fixed),
        "p03010" => (p03010::main, p03010::fixed),
        "p03011" => (p03011::main, p03011::fixed),
        "p03012" => (p03012::main, p03012::fixed),
        "p03020" => (p03020::main, p03020::fixed),
        "p03021" => (p03021::main, p03021::fixed),
        "p03022" => (p03022::main, p03022::fixed),
        "p03100" => (p03100::main, p03100::fixed),
        "p03101" => (p03101::main, p03101::fixed),
        "p03102" => (p03102::main, p03102::fixed),
        "p03110" => (p03110::main, p03110::fixed),
        "p03111" => (p03111::main, p03111::fixed),
        "p03112" => (p03112::main, p03112::fixed),
        "p03120" => (p03120::main, p03120::fixed),
        "p03121" => (p03121::main, p03121::fixed),
        "p03122" => (p03122::main, p03122::fixed),
        "p10000" => (p10000::main, p10000::fixed),
        "p10001" => (p10001::main, p10001::fixed),
        "p10002" => (p10002::main, p10002::fixed),
        "p10010" => (p10010::main, p10010::fixed),
        "p10011" => (p10011::main, p10011::fixed),
        "p10012" => (p10012::main, p10012::fixed),
        "p10020" => (p10020::main, p10020::fixed),
        "p10021" => (p10021::main, p10021::fixed),
        "p10022" => (p10022::main, p10022::fixed),
        "p10100" => (p10100::main, p10100::fixed),
        "p10101" => (p10101::main, p10101::fixed),
        "p10102" => (p10102::main, p10102::fixed),
        "p10110" => (p10110::main, p10110::fixed),
        "p10111" => (p10111::main, p10111::fixed),
        "p10112" => (p10112::main, p10112::fixed),
        "p10120" => (p10120::main, p10120::fixed),
        "p10121" => (p10121::main, p10121::fixed),
        "p10122" => (p10122::main, p10122::fixed),
        "p11000" => (p11000::main, p11000::fixed),
        "p11001" => (p11001::main, p11001::fixed),
        "p11002" => (p11002::main, p11002::fixed),
        "p11010" => (p11010::main, p11010::fixed),
        "p11011" => (p11011::main, p11011::fixed),
        "p11012" => (p11012::main, p11012::fixed),
        "p11020" => (p11020::main, p11020::fixed),
        "p11021" => (p11021::main, p11021::fixed),
        "p11022" => (p11022::main, p11022::fixed),
        "p11100" => (p11100::main, p11100::fixed),
        "p11101" => (p11101::main, p11101::fixed),
        "p11102" => (p11102::main, p11102::fixed),
        "p11110" => (p11110::main, p11110::fixed),
        "p11111" => (p11111::main, p11111::fixed),
        "p11112" => (p11112::main, p11112::fixed),
        "p11120" => (p11120::main, p11120::fixed),
        "p11121" => (p11121::main, p11121::fixed),
        "p11122" => (p11122::main, p11122::fixed),
        "p12000" => (p12000::main, p12000::fixed),
        "p12001" => (p12001::main, p12001::fixed),
        "p12002" => (p12002::main, p12002::fixed),
        "p12010" => (p12010::main, p12010::fixed),
        "p12011" => (p12011::main, p12011::fixed),
        "p12012" => (p12012::main, p12012::fixed),
        "p12020" => (p12020::main, p12020::fixed),
        "p12021" => (p12021::main, p12021::fixed),
        "p12022" => (p12022::main, p12022::fixed),
        "p12100" => (p12100::main, p12100::fixed),
        "p12101" => (p12101::main, p12101::fixed),
        "p12102" => (p12102::main, p12102::fixed),
        "p12110" => (p12110::main, p12110::fixed),
        "p12111" => (p12111::main, p12111::fixed),
        "p12112" => (p12112::main, p12112::fixed),
        "p12120" => (p12120::main, p12120::fixed),
        "p12121" => (p12121::main, p12121::fixed),
        "p12122" => (p12122::main, p12122::fixed),
        "p13000" => (p13000::main, p13000::fixed),
        "p13001" => (p13001::main, p13001::fixed),
        "p13002" => (p13002::main, p13002::fixed),
        "p13010" => (p13010::main, p13010::fixed),
        "p13011" => (p13011::main, p13011::fixed),
        "p13012" => (p13012::main, p13012::fixed),
        "p13020" => (p13020::main, p13020::fixed),
        "p13021" => (p13021::main, p13021::fixed),
        "p13022" => (p13022::main, p13022::fixed),
        "p13100" => (p13100::main, p13100::fixed),
        "p13101" => (p13101::main, p13101::fixed),
        "p13102" => (p13102::main, p13102::fixed),
        "p13110" => (p13110::main, p13110::fixed),
        "p13111" => (p13111::main, p13111::fixed),
        "p13112" => (p13112::main, p13112::fixed),
        "p13120" => (p13120::main, p13120::fixed),
        "p13121" => (p13121::main, p13121::fixed),
        "p13122" => (p13122::main, p13122::fixed),
        "p20000" => (p20000::main, p20000::fixed),
        "p20001" => (p20001::main, p20001::fixed),
        "p20002" => (p20002::main, p20002::fixed),
        "p20010" => (p20010::main, p20010::fixed),
        "p20011" => (p20011::main, p20011::fixed),
        "p20012" => (p20012::main, p20012::fixed),
        "p20020" => (p20020::main, p20020::fixed),
        "p20021" => (p20021::main, p20021::fixed),
        "p20022" => (p20022::main, p20022::fixed),
        "p20100" => (p20100::main, p20100::fixed),
        "p20101" => (p20101::main, p20101::fixed),
        "p20102" => (p20102::main, p20102::fixed),
        "p20110" => (p20110::main, p20110::fixed),
        "p20111" => (p20111::main, p20111::fixed),
        "p20112" => (p20112::main, p20112::fixed),
        "p20120" => (p20120::main, p20120::fixed),
        "p20121" => (p20121::main, p20121::fixed),
        "p20122" => (p20122::main, p20122::fixed),
        "p21000" => (p21000::main, p21000::fixed),
        "p21001" => (p21001::main, p21001::fixed),
        "p21002" => (p21002::main, p21002::fixed),
        "p21010" => (p21010::main, p21010::fixed),
        "p21011" => (p21011::main, p21011::fixed),
        "p21012" => (p21012::main, p21012::fixed),
        "p21020" => (p21020::main, p21020::fixed),
        "p21021" => (p21021::main, p21021::fixed),
        "p21022" => (p21022::main, p21022::fixed),
        "p21100" => (p21100::main, p21100::fixed),
        "p21101" => (p21101::main, p21101::fixed),
        "p21102" => (p21102::main, p21102::fixed),
        "p21110" => (p21110::main, p21110::fixed),
        "p21111" => (p21111::main, p21111::fixed),
        "p21112" => (p21112::main, p21112::fixed),
        "p21120" => (p21120::main, p21120::fixed),
        "p21121" => (p21121::main, p21121::fixed),
        "p21122" => (p21122::main, p21122::fixed),
        "p22000" => (p22000::main, p22000::fixed),
        "p22001" => (p22001::main, p22001::fixed),
        "p22002" => (p22002::main, p22002::fixed),
        "p22010" => (p22010::main, p22010::fixed),
        "p22011" => (p22011::main, p22011::fixed),
        "p22012" => (p22012::main, p22012::fixed),
        "p22020" => (p22020::main, p22020::fixed),
        "p22021" => (p22021::main, p22021::fixed),
        "p22022" => (p22022::main, p22022::fixed),
        "p22100" => (p22100::main, p22100::fixed),
        "p22101" => (p22101::main, p22101::fixed),
        "p22102" => (p22102::main, p22102::fixed),
        "p22110" => (p22110::main, p22110::fixed),
        "p22111" => (p22111::main, p22111::fixed),
        "p22112" => (p22112::main, p22112::fixed),
        "p22120" => (p22120::main, p22120::fixed),
        "p22121" => (p22121::main, p22121::fixed),
        "p22122" => (p22122::main, p22122::fixed),
        "p23000" => (p23000::main, p23000::fixed),
        "p23001" => (p23001::main, p23001::fixed),
        "p23002" => (p23002::main, p23002::fixed),
        "p23010" => (p23010::main, p23010::fixed),
        "p23011" => (p23011::main, p23011::fixed),
        "p23012" => (p23012::main, p23012::fixed),
        "p23020" => (p23020::main, p23020::fixed),
        "p23021" => (p23021::main, p23021::fixed),
        "p23022" => (p23022::main, p23022::fixed),
        "p23100" => (p23100::main, p23100::fixed),
        "p23101" => (p23101::main, p23101::fixed),
        "p23102" => (p23102::main, p23102::fixed),
        "p23110" => (p23110::main, p23110::fixed),
        "p23111" => (p23111::main, p23111::fixed),
        "p23112" => (p23112::main, p23112::fixed),
        "p23120" => (p23120::main, p23120::fixed),
        "p23121" => (p23121::main, p23121::fixed),
        "p23122" => (p23122::main, p23122::fixed),
        _ => std::process::exit(98),
    };
    if fixed { (f.1)(std::env::args().skip(1).collect()) } else { (f.0)() }
}
