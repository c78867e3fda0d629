// Shared by c14 and c18 (include!): the data sets of all 72 combinations of components.
use std::any::Any;

/// A data set of one combination of components, behind one interface.
trait Ds {
    fn any(&self) -> &dyn Any;
    fn same(&self, o: &dyn Ds) -> bool;
    fn hash(&self) -> u64;
    fn file(&self, prefix: &str) -> String;
    fn file_removed(&self, prefix: &str) -> String;
    fn row(&self, prec: usize) -> Result<String, String>;
    /// replaces the value in a map that holds `self` if `o` is the same data set
    fn pooled(&self, o: &dyn Ds) -> usize;
}

struct Combo {
    kinds: [usize; 5],
    make: fn(&[Vec<String>; 5]) -> Result<(Box<dyn Ds>, String), String>,
    read: fn(&std::path::Path) -> Result<(Box<dyn Ds>, Vec<String>), String>,
    form: fn(usize) -> String,
}

macro_rules! combos {
    ($($m:ident : $s:ident $g:ident $a:ident $t:ident $r:ident, [$($k:expr),*];)*) => {
        $(
            mod $m {
                use moledyn::prelude::*;
                use moledyn_proc::test_proc_macros;
                test_proc_macros!("P", TimeAnalysis, $s, $g, $a, $t, $r);
                impl super::Ds for SimulationData {
                    fn any(&self) -> &dyn std::any::Any {
                        self
                    }
                    fn same(&self, o: &dyn super::Ds) -> bool {
                        *self == *o.any().downcast_ref::<SimulationData>().expect("HARNESS: kinds")
                    }
                    fn hash(&self) -> u64 {
                        let mut s = std::collections::hash_map::DefaultHasher::new();
                        Hash::hash(self, &mut s);
                        s.finish()
                    }
                    fn file(&self, prefix: &str) -> String {
                        DataSet::export_file(self, prefix)
                    }
                    fn file_removed(&self, prefix: &str) -> String {
                        DataSet::export_file_removed_idx(self, prefix)
                    }
                    fn row(&self, prec: usize) -> Result<String, String> {
                        DataSet::export_data(self, prec).map_err(|e| format!("{:?}", e))
                    }
                    fn pooled(&self, o: &dyn super::Ds) -> usize {
                        let mut m: HashMap<SimulationData, u8> = HashMap::new();
                        m.insert(*self, 0);
                        m.insert(*o.any().downcast_ref::<SimulationData>().expect("HARNESS: kinds"), 1);
                        m.len()
                    }
                }
                pub fn make(w: &[Vec<String>; 5]) -> Result<(Box<dyn super::Ds>, String), String> {
                    let e = |x: Error| format!("{:?}", x);
                    let s = <$s>::read_args_from_vec(&w[0]).map_err(e)?;
                    let g = <$g>::read_args_from_vec(&w[1]).map_err(e)?;
                    let a = <$a>::read_args_from_vec(&w[2]).map_err(e)?;
                    let t = <$t>::read_args_from_vec(&w[3]).map_err(e)?;
                    let r = <$r>::read_args_from_vec(&w[4]).map_err(e)?;
                    let head = format!(
                        "first line\n{}{}{}{}{}",
                        s.print_configuration(15), g.print_configuration(15), a.print_configuration(15), t.print_configuration(15), r.print_configuration(15)
                    );
                    Ok((Box::new(SimulationData::new(&s, &g, &a, &t, &r)), head))
                }
                pub fn read(p: &std::path::Path) -> Result<(Box<dyn super::Ds>, Vec<String>), String> {
                    let (d, l) = <SimulationData as DataSet>::from_file(p).map_err(|e| format!("{:?}", e))?;
                    Ok((Box::new(d), l.map(|x| x.unwrap_or_else(|e| format!("{:?}", e))).collect()))
                }
                pub fn analyze(w: mcheck::ana::Which, args: &[String], prefix: &str) -> Result<(), Error> {
                    use mcheck::ana::Which;
                    match w {
                        Which::Time => TimeAnalysis::analyze::<SimulationData>(args, 15, prefix),
                        Which::Vec(_) => TimeVecAnalysis::analyze::<SimulationData>(args, 15, prefix),
                        Which::Process => ProcessAnalysis::analyze::<SimulationData>(args, 15, prefix),
                    }
                }
                pub fn form(w: usize) -> String {
                    <SimulationData as DataSet>::export_form(w)
                }
            }
        )*
        fn combos() -> Vec<Combo> {
            vec![$(Combo { kinds: [$($k),*], make: $m::make, read: $m::read, form: $m::form }),*]
        }
    };
}

combos! {
    m0000: ContCircSystem ContBulkTarget ContPassiveIndepAgent ConstStep VariableSimulation, [0, 3, 4, 8, 10];
    m0001: ContCircSystem ContBulkTarget ContPassiveIndepAgent ConstStep ParVariableSimulation, [0, 3, 4, 8, 11];
    m0002: ContCircSystem ContBulkTarget ContPassiveIndepAgent ConstStep ProcessSimulation, [0, 3, 4, 8, 12];
    m0010: ContCircSystem ContBulkTarget ContPassiveIndepAgent ExponentialStep VariableSimulation, [0, 3, 4, 9, 10];
    m0011: ContCircSystem ContBulkTarget ContPassiveIndepAgent ExponentialStep ParVariableSimulation, [0, 3, 4, 9, 11];
    m0012: ContCircSystem ContBulkTarget ContPassiveIndepAgent ExponentialStep ProcessSimulation, [0, 3, 4, 9, 12];
    m0100: ContCircSystem ContBulkTarget ContPassiveMergeAgent ConstStep VariableSimulation, [0, 3, 5, 8, 10];
    m0101: ContCircSystem ContBulkTarget ContPassiveMergeAgent ConstStep ParVariableSimulation, [0, 3, 5, 8, 11];
    m0102: ContCircSystem ContBulkTarget ContPassiveMergeAgent ConstStep ProcessSimulation, [0, 3, 5, 8, 12];
    m0110: ContCircSystem ContBulkTarget ContPassiveMergeAgent ExponentialStep VariableSimulation, [0, 3, 5, 9, 10];
    m0111: ContCircSystem ContBulkTarget ContPassiveMergeAgent ExponentialStep ParVariableSimulation, [0, 3, 5, 9, 11];
    m0112: ContCircSystem ContBulkTarget ContPassiveMergeAgent ExponentialStep ProcessSimulation, [0, 3, 5, 9, 12];
    m0200: ContCircSystem ContBulkTarget ContPassiveExpAgent ConstStep VariableSimulation, [0, 3, 6, 8, 10];
    m0201: ContCircSystem ContBulkTarget ContPassiveExpAgent ConstStep ParVariableSimulation, [0, 3, 6, 8, 11];
    m0202: ContCircSystem ContBulkTarget ContPassiveExpAgent ConstStep ProcessSimulation, [0, 3, 6, 8, 12];
    m0210: ContCircSystem ContBulkTarget ContPassiveExpAgent ExponentialStep VariableSimulation, [0, 3, 6, 9, 10];
    m0211: ContCircSystem ContBulkTarget ContPassiveExpAgent ExponentialStep ParVariableSimulation, [0, 3, 6, 9, 11];
    m0212: ContCircSystem ContBulkTarget ContPassiveExpAgent ExponentialStep ProcessSimulation, [0, 3, 6, 9, 12];
    m0300: ContCircSystem ContBulkTarget ContPassiveLJAgent ConstStep VariableSimulation, [0, 3, 7, 8, 10];
    m0301: ContCircSystem ContBulkTarget ContPassiveLJAgent ConstStep ParVariableSimulation, [0, 3, 7, 8, 11];
    m0302: ContCircSystem ContBulkTarget ContPassiveLJAgent ConstStep ProcessSimulation, [0, 3, 7, 8, 12];
    m0310: ContCircSystem ContBulkTarget ContPassiveLJAgent ExponentialStep VariableSimulation, [0, 3, 7, 9, 10];
    m0311: ContCircSystem ContBulkTarget ContPassiveLJAgent ExponentialStep ParVariableSimulation, [0, 3, 7, 9, 11];
    m0312: ContCircSystem ContBulkTarget ContPassiveLJAgent ExponentialStep ProcessSimulation, [0, 3, 7, 9, 12];
    m1000: ContCubicSystem ContBulkTarget ContPassiveIndepAgent ConstStep VariableSimulation, [1, 3, 4, 8, 10];
    m1001: ContCubicSystem ContBulkTarget ContPassiveIndepAgent ConstStep ParVariableSimulation, [1, 3, 4, 8, 11];
    m1002: ContCubicSystem ContBulkTarget ContPassiveIndepAgent ConstStep ProcessSimulation, [1, 3, 4, 8, 12];
    m1010: ContCubicSystem ContBulkTarget ContPassiveIndepAgent ExponentialStep VariableSimulation, [1, 3, 4, 9, 10];
    m1011: ContCubicSystem ContBulkTarget ContPassiveIndepAgent ExponentialStep ParVariableSimulation, [1, 3, 4, 9, 11];
    m1012: ContCubicSystem ContBulkTarget ContPassiveIndepAgent ExponentialStep ProcessSimulation, [1, 3, 4, 9, 12];
    m1100: ContCubicSystem ContBulkTarget ContPassiveMergeAgent ConstStep VariableSimulation, [1, 3, 5, 8, 10];
    m1101: ContCubicSystem ContBulkTarget ContPassiveMergeAgent ConstStep ParVariableSimulation, [1, 3, 5, 8, 11];
    m1102: ContCubicSystem ContBulkTarget ContPassiveMergeAgent ConstStep ProcessSimulation, [1, 3, 5, 8, 12];
    m1110: ContCubicSystem ContBulkTarget ContPassiveMergeAgent ExponentialStep VariableSimulation, [1, 3, 5, 9, 10];
    m1111: ContCubicSystem ContBulkTarget ContPassiveMergeAgent ExponentialStep ParVariableSimulation, [1, 3, 5, 9, 11];
    m1112: ContCubicSystem ContBulkTarget ContPassiveMergeAgent ExponentialStep ProcessSimulation, [1, 3, 5, 9, 12];
    m1200: ContCubicSystem ContBulkTarget ContPassiveExpAgent ConstStep VariableSimulation, [1, 3, 6, 8, 10];
    m1201: ContCubicSystem ContBulkTarget ContPassiveExpAgent ConstStep ParVariableSimulation, [1, 3, 6, 8, 11];
    m1202: ContCubicSystem ContBulkTarget ContPassiveExpAgent ConstStep ProcessSimulation, [1, 3, 6, 8, 12];
    m1210: ContCubicSystem ContBulkTarget ContPassiveExpAgent ExponentialStep VariableSimulation, [1, 3, 6, 9, 10];
    m1211: ContCubicSystem ContBulkTarget ContPassiveExpAgent ExponentialStep ParVariableSimulation, [1, 3, 6, 9, 11];
    m1212: ContCubicSystem ContBulkTarget ContPassiveExpAgent ExponentialStep ProcessSimulation, [1, 3, 6, 9, 12];
    m1300: ContCubicSystem ContBulkTarget ContPassiveLJAgent ConstStep VariableSimulation, [1, 3, 7, 8, 10];
    m1301: ContCubicSystem ContBulkTarget ContPassiveLJAgent ConstStep ParVariableSimulation, [1, 3, 7, 8, 11];
    m1302: ContCubicSystem ContBulkTarget ContPassiveLJAgent ConstStep ProcessSimulation, [1, 3, 7, 8, 12];
    m1310: ContCubicSystem ContBulkTarget ContPassiveLJAgent ExponentialStep VariableSimulation, [1, 3, 7, 9, 10];
    m1311: ContCubicSystem ContBulkTarget ContPassiveLJAgent ExponentialStep ParVariableSimulation, [1, 3, 7, 9, 11];
    m1312: ContCubicSystem ContBulkTarget ContPassiveLJAgent ExponentialStep ProcessSimulation, [1, 3, 7, 9, 12];
    m2000: ContCylindricalSystem ContBulkTarget ContPassiveIndepAgent ConstStep VariableSimulation, [2, 3, 4, 8, 10];
    m2001: ContCylindricalSystem ContBulkTarget ContPassiveIndepAgent ConstStep ParVariableSimulation, [2, 3, 4, 8, 11];
    m2002: ContCylindricalSystem ContBulkTarget ContPassiveIndepAgent ConstStep ProcessSimulation, [2, 3, 4, 8, 12];
    m2010: ContCylindricalSystem ContBulkTarget ContPassiveIndepAgent ExponentialStep VariableSimulation, [2, 3, 4, 9, 10];
    m2011: ContCylindricalSystem ContBulkTarget ContPassiveIndepAgent ExponentialStep ParVariableSimulation, [2, 3, 4, 9, 11];
    m2012: ContCylindricalSystem ContBulkTarget ContPassiveIndepAgent ExponentialStep ProcessSimulation, [2, 3, 4, 9, 12];
    m2100: ContCylindricalSystem ContBulkTarget ContPassiveMergeAgent ConstStep VariableSimulation, [2, 3, 5, 8, 10];
    m2101: ContCylindricalSystem ContBulkTarget ContPassiveMergeAgent ConstStep ParVariableSimulation, [2, 3, 5, 8, 11];
    m2102: ContCylindricalSystem ContBulkTarget ContPassiveMergeAgent ConstStep ProcessSimulation, [2, 3, 5, 8, 12];
    m2110: ContCylindricalSystem ContBulkTarget ContPassiveMergeAgent ExponentialStep VariableSimulation, [2, 3, 5, 9, 10];
    m2111: ContCylindricalSystem ContBulkTarget ContPassiveMergeAgent ExponentialStep ParVariableSimulation, [2, 3, 5, 9, 11];
    m2112: ContCylindricalSystem ContBulkTarget ContPassiveMergeAgent ExponentialStep ProcessSimulation, [2, 3, 5, 9, 12];
    m2200: ContCylindricalSystem ContBulkTarget ContPassiveExpAgent ConstStep VariableSimulation, [2, 3, 6, 8, 10];
    m2201: ContCylindricalSystem ContBulkTarget ContPassiveExpAgent ConstStep ParVariableSimulation, [2, 3, 6, 8, 11];
    m2202: ContCylindricalSystem ContBulkTarget ContPassiveExpAgent ConstStep ProcessSimulation, [2, 3, 6, 8, 12];
    m2210: ContCylindricalSystem ContBulkTarget ContPassiveExpAgent ExponentialStep VariableSimulation, [2, 3, 6, 9, 10];
    m2211: ContCylindricalSystem ContBulkTarget ContPassiveExpAgent ExponentialStep ParVariableSimulation, [2, 3, 6, 9, 11];
    m2212: ContCylindricalSystem ContBulkTarget ContPassiveExpAgent ExponentialStep ProcessSimulation, [2, 3, 6, 9, 12];
    m2300: ContCylindricalSystem ContBulkTarget ContPassiveLJAgent ConstStep VariableSimulation, [2, 3, 7, 8, 10];
    m2301: ContCylindricalSystem ContBulkTarget ContPassiveLJAgent ConstStep ParVariableSimulation, [2, 3, 7, 8, 11];
    m2302: ContCylindricalSystem ContBulkTarget ContPassiveLJAgent ConstStep ProcessSimulation, [2, 3, 7, 8, 12];
    m2310: ContCylindricalSystem ContBulkTarget ContPassiveLJAgent ExponentialStep VariableSimulation, [2, 3, 7, 9, 10];
    m2311: ContCylindricalSystem ContBulkTarget ContPassiveLJAgent ExponentialStep ParVariableSimulation, [2, 3, 7, 9, 11];
    m2312: ContCylindricalSystem ContBulkTarget ContPassiveLJAgent ExponentialStep ProcessSimulation, [2, 3, 7, 9, 12];
}

