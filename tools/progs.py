#!/usr/bin/env python3
"""Writes harness/progs/src/main.rs: one simulation program for every combination of components.

The programs have to be written out: simulation! declares local variables, which a macro_rules
wrapper could not name."""
import os
K = {
    "ContCircSystem": "sys_size dim",
    "ContCubicSystem": "sys_size dim",
    "ContCylindricalSystem": "sys_radius sys_length dim",
    "ContBulkTarget": "target_pos target_size",
    "ContPassiveIndepAgent": "mtype itype num_agent",
    "ContPassiveMergeAgent": "mtype itype ptl_radius alpha num_agent",
    "ContPassiveExpAgent": "mtype itype gamma exp_dim strength num_agent",
    "ContPassiveLJAgent": "mtype itype ptl_size strength num_agent",
    "ConstStep": "dt tmax",
    "ExponentialStep": "dt_min dt_max length tmax",
    "VariableSimulation": "num_ensemble idx_set seed output_dir",
    "ParVariableSimulation": "num_ensemble seed n_thrd output_dir",
    "ProcessSimulation": "num_ensemble period idx_set seed output_dir",
}
# arguments without a variable of their own
X = {"ContCubicSystem": "bctype", "ContCylindricalSystem": "sys_type bctype"}
AN = ["TimeAnalysis", "TimeVecAnalysis", "ProcessAnalysis"]
SY = ["ContCircSystem", "ContCubicSystem", "ContCylindricalSystem"]
AG = ["ContPassiveIndepAgent", "ContPassiveMergeAgent", "ContPassiveExpAgent", "ContPassiveLJAgent"]
TI = ["ConstStep", "ExponentialStep"]
RU = ["VariableSimulation", "ParVariableSimulation", "ProcessSimulation"]

out = ["// Generated by tools/progs.py: a simulation program for every combination of components.",
       "#![allow(unused_variables, unused_imports, unused_mut, dead_code)]",
       "mod out;", ""]
names = []
for i, s in enumerate(SY):
    for j, a in enumerate(AG):
        for k, t in enumerate(TI):
            for l, r in enumerate(RU):
                for m, an in enumerate(AN):
                    f = "p%d%d%d%d%d" % (i, j, k, l, m)
                    names.append(f)
                    vs = " ".join(K[x] for x in (s, "ContBulkTarget", a, t, r)).split()
                    out.append("mod %s {" % f)
                    out.append("    use moledyn::prelude::*;")
                    out.append("    pub fn main() -> Result<(), Error> {")
                    out.append('        simulation!("PRE", %s, %s, ContBulkTarget, %s, %s, %s);' % (an, s, a, t, r))
                    out.append("        crate::out::report(&[%s], vec_agents.len());" % ", ".join('("%s", format!("{:?}", %s))' % (v, v) for v in vs))
                    out.append("        crate::out::data(&mut writer);")
                    out.append("        writer.flush().map_err(Error::make_error_io)")
                    out.append("    }")
                    # setup_simulation_fixed! with another number of leading arguments and width
                    if m == (2 if l == 2 else (i + j + k) % 2):
                        comps = (s, "ContBulkTarget", a, t, r)
                        argn = ("sys_arg", "target_arg", "agent_arg", "time_arg", "sim_arg")
                        fields = {"ContCircSystem": "sys_size, f64, dim, usize", "ContCubicSystem": "sys_size, f64, dim, usize",
                                  "ContCylindricalSystem": "sys_radius, f64, sys_length, f64, dim, usize",
                                  "ContBulkTarget": "target_size, f64", "ContPassiveIndepAgent": "num_agent, usize",
                                  "ContPassiveMergeAgent": "ptl_radius, f64, alpha, f64, num_agent, usize",
                                  "ContPassiveExpAgent": "gamma, f64, strength, f64, num_agent, usize",
                                  "ContPassiveLJAgent": "ptl_size, f64, strength, f64, num_agent, usize",
                                  "ConstStep": "dt, f64, tmax, f64", "ExponentialStep": "dt_min, f64, dt_max, f64, length, usize, tmax, f64",
                                  "VariableSimulation": "idx_set, usize", "ParVariableSimulation": "n_thrd, usize", "ProcessSimulation": "period, f64, idx_set, usize"}
                        skip = (i + j) % 3
                        out.append("    pub fn fixed(args: Vec<String>) -> Result<(), Error> {")
                        out.append("        construct_dataset!(SimulationData, %s;{%s});" % (
                            "; ".join("%s, %s, %sArguments, [%s]" % (c, n, c, fields[c]) for c, n in list(zip(comps, argn))[:4]),
                            "%s, %s, %sArguments, [%s]" % (r, "sim_arg", r, fields[r])))
                        out.append("        let args: Vec<String> = std::iter::repeat(\"skipped\".to_string()).take(crate::out::lead(%d)).chain(args).collect();" % skip)
                        out.append("        setup_simulation_fixed!(args, %d, %d, %s, \"PRE\", dataset, SimulationData, %s);" % (
                            8 + 4 * (j % 3), skip, an, ", ".join("%s, %s" % (n, c) for c, n in zip(comps, argn))))
                        out.append("        let dir = sim_arg.output_dir.clone();")
                        out.append("        export_simulation_info!(dataset, dir, writer, WIDTH, \"PRE\", %s);" % ", ".join(
                            "%s, %s, %s" % (c, v, n) for c, v, n in zip(comps, ("sys", "target", "vec_agents", "timeiter", "simulation"), argn)))
                        rep = []
                        for c, n in zip(comps, argn):
                            rep += ['("%s", format!("{:?}", %s.%s))' % (v, n, v) for v in X.get(c, "").split() + K[c].split()]
                        out.append("        crate::out::report(&[%s], vec_agents.len());" % ", ".join(rep))
                        out.append("        crate::out::data(&mut writer);")
                        out.append("        writer.flush().map_err(Error::make_error_io)")
                        out.append("    }")
                    else:
                        out.append("    pub fn fixed(_: Vec<String>) -> Result<(), Error> {")
                        out.append("        std::process::exit(99)")
                        out.append("    }")
                    out.append("}")
out.append("fn main() -> Result<(), moledyn::prelude::Error> {")
out.append('    let (p, fixed) = out::which();')
out.append("    let f: (fn() -> Result<(), moledyn::prelude::Error>, fn(Vec<String>) -> Result<(), moledyn::prelude::Error>) = match p.as_str() {")
for n in names:
    out.append('        "%s" => (%s::main, %s::fixed),' % (n, n, n))
out.append('        _ => std::process::exit(98),')
out.append("    };")
out.append("    if fixed { (f.1)(std::env::args().skip(1).collect()) } else { (f.0)() }")
out.append("}")
here = os.path.dirname(os.path.abspath(__file__))
open(os.path.join(here, "../harness/progs/src/main.rs"), "w").write("\n".join(out) + "\n")
