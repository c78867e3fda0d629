//! C11: every value printed by the library reads back as the same value.
use mcheck::util::*;
use mcheck::*;
use moledyn::prelude::*;
use std::fmt::Debug;

fn numbers(thorough: bool) -> Vec<f64> {
    let mut v = vec![0.0];
    let mant: Vec<f64> = if thorough { (1..1000).map(|k| k as f64 / 100.0).chain(vec![1.0 / 3.0, 2f64.sqrt(), 0.1 + 0.2]).collect() } else { vec![1.0, 1.5, 2.25, 9.99, 1.0 / 3.0, 0.1 + 0.2, 123456.789, 1.000001] };
    let exps: Vec<i32> = if thorough { (-300..=300).step_by(12).collect() } else { vec![0, 1, -1, 3, 6, -3, -10, -15, 17, 22, 120, -120, 300, -300] };
    for m in mant {
        for &e in &exps {
            let x = m * 10f64.powi(e);
            if x.is_finite() && x != 0.0 {
                v.push(x);
                v.push(-x);
            }
        }
    }
    v.extend(vec![f64::MAX, -f64::MAX, f64::MIN_POSITIVE, 5e-324, 9007199254740993.0, 1e15, 1e16, 4e-7]);
    v
}

fn back<T: FromStr + Debug + PartialEq>(run: &mut Run, text: &str, want: &T)
where
    T::Err: Debug,
{
    run.step();
    run.observe(text);
    run.note(|| format!("{:?} <-> {:?}", want, text));
    let got = catch(|| text.parse::<T>());
    run.ensure(matches!(&got, Ok(Ok(v)) if v == want), "read-back", || format!("the text {:?} of {:?} reads as {:?}", text, want, got));
}

fn main() {
    let mut c = Check::new("C11");
    c.assume("infinities and NaN are no values of the formats; numbers inside a short form are written with Rust's usual number syntax");
    let thorough = c.thorough;
    let num = std::sync::Arc::new(numbers(thorough));
    c.family("types", "all agent types, target types, system types, boundary conditions and motion types without numbers; dimension parameters 0..40 and huge", |run| {
        use AgentType::*;
        let agents = [
            ContinuousPassiveIndependent, ContinuousPassiveInteracting, ContinuousActiveIndependent, ContinuousActiveInteracting,
            LatticePassiveIndependent, LatticePassiveInteracting, LatticeActiveIndependent, LatticeActiveInteracting,
            NetworkPassiveIndependent, NetworkPassiveInteracting, NetworkActiveIndependent, NetworkActiveInteracting,
        ];
        let targets = [TargetType::ContinuousInBulk, TargetType::ContinuousAtBoundary, TargetType::LatticeInBulk, TargetType::LatticeAtBoundary, TargetType::NetworkSingleNode];
        let dims: Vec<usize> = (0..=40).chain(vec![100, 1234567, usize::MAX]).collect();
        match run.pick(6) {
            0 => {
                let a = run.of(&agents);
                back(run, &format!("{}", a), &a)
            }
            1 => {
                let t = run.of(&targets);
                back(run, &format!("{}", t), &t)
            }
            2 => {
                let s = run.of(&[SystemType::ContinuousCircular, SystemType::ContinuousRectangular, SystemType::Lattice, SystemType::Network]);
                back(run, &format!("{}", s), &s)
            }
            3 => {
                let s = SystemType::ContinuousCylindrical(run.of(&dims));
                back(run, &format!("{}", s), &s)
            }
            4 => {
                let b = run.of(&[BoundaryCond::Periodic, BoundaryCond::Reflection]);
                back(run, &format!("{}", b), &b)
            }
            _ => {
                let b = BoundaryCond::Mixed(run.of(&dims));
                back(run, &format!("{}", b), &b)
            }
        }
    });
    let n1 = num.clone();
    c.family("numbers", &format!("motion types, interaction types and clock types with {} numbers of every magnitude and sign, dimensions and lengths 0..1e9", num.len()), move |run| {
        let x = run.of(&n1);
        match run.pick(6) {
            0 => {
                let m = MoveType::Brownian(x);
                back(run, &format!("{}", m), &m);
                back(run, "Levy walk", &MoveType::Levy);
                back(run, &format!("{}", MoveType::Levy), &MoveType::Levy)
            }
            1 => {
                let i = InteractType::Exponential(run.of(&[0usize, 1, 2, 3, 10, 1_000_000_000]), x);
                back(run, &format!("{}", i), &i)
            }
            2 => {
                let i = InteractType::LennardJones(x);
                back(run, &format!("{}", i), &i)
            }
            3 => {
                let i = run.of(&[InteractType::Coulomb2D, InteractType::Coulomb3D]);
                back(run, &format!("{}", i), &i)
            }
            4 => {
                let t = TimeType::Constant(x);
                let s = format!("{}", t);
                run.step();
                let g = catch(|| s.parse::<TimeType>());
                run.note(|| format!("{:?} <-> {:?}", t, s));
                run.ensure(matches!(g, Ok(Ok(TimeType::Constant(y))) if rel(x, y, 1e-5) || (x.abs() < 1e-300 && (x - y).abs() < 1e-305)), "read-back", || format!("the text {:?} of {:?} reads as {:?}", s, t, g));
            }
            _ => {
                let y = x * 7.0;
                let n = run.of(&[0usize, 1, 10, 777, 1_000_000_000]);
                let t = TimeType::Exponential(x, y, n);
                let s = format!("{}", t);
                run.step();
                let g = catch(|| s.parse::<TimeType>());
                run.note(|| format!("{:?} <-> {:?}", t, s));
                if x.abs() > 1e-290 && y.is_finite() {
                    run.ensure(matches!(g, Ok(Ok(TimeType::Exponential(a, b, m))) if rel(x, a, 1e-5) && rel(y, b, 1e-5) && m == n), "read-back", || format!("the text {:?} of {:?} reads as {:?}", s, t, g));
                }
            }
        }
    });
    c.family("long-positions", "positions of dimension 7..257 with coordinates of 4 patterns, as text, in exponent form and inside an initialisation", |run| {
        let dim = run.of(&[7usize, 8, 9, 10, 11, 12, 15, 16, 17, 31, 32, 33, 64, 65, 100, 128, 129, 257]);
        let pat = run.pick(4);
        let v: Vec<f64> = (0..dim).map(|i| match pat { 0 => i as f64, 1 => -1.0 / (i + 3) as f64, 2 => if i % 2 == 0 { 1e-10 } else { -2.5e22 }, _ => 0.0 }).collect();
        let p = pos(&v);
        match run.pick(3) {
            0 => back(run, &format!("{}", p), &p),
            1 => back(run, &format!("{:e}", p), &p),
            _ => {
                let i = InitType::SpecificPosition(p);
                back(run, &format!("{}", i), &i);
            }
        }
    });
    let some: Vec<f64> = vec![0.0, 1.0, -1.0, 0.1, -2.5, 1e-10, 1e22, -3e-7, 1.0 / 3.0, 1e300];
    let few: Vec<f64> = vec![0.0, -2.5, 1e-10, 1.0 / 3.0, 1e22];
    let n2 = num.clone();
    let maxd = c.q(5usize, 6);
    c.family("positions", &format!("positions of dimension 1..{} over alphabets of up to {} numbers, as text, in exponent form with 5, 10 and 17 digits, inside an initialisation; integer positions", maxd, num.len()), move |run| {
        let dim = 1 + run.pick(maxd);
        let v: Vec<f64> = (0..dim).map(|_| if dim == 1 { run.of(&n2) } else if dim <= 3 { run.of(&some) } else { run.of(&few) }).collect();
        let p = pos(&v);
        match run.pick(4) {
            0 => back(run, &format!("{}", p), &p),
            1 => {
                let i = InitType::SpecificPosition(p);
                back(run, &format!("{}", i), &i);
                back(run, &format!("{}", InitType::<f64>::Uniform), &InitType::<f64>::Uniform);
            }
            2 => {
                let digits = run.of(&[5usize, 10, 17]);
                let s = format!("{:.*e}", digits, p);
                run.step();
                let g = catch(|| s.parse::<Position<f64>>());
                let tol = 10f64.powi(-(digits as i32)) * 1.01;
                run.note(|| format!("{:?} <-> {:?}", p, s));
                run.ensure(matches!(&g, Ok(Ok(q)) if q.coordinate.len() == dim && q.coordinate.iter().zip(&v).all(|(a, b)| rel(*a, *b, tol.max(1e-16)) || (b.abs() < 1e-300 && (a - b).abs() < 1e-300) || (b.abs() > 1.79e308 && a.is_infinite()))), "read-back", || format!("the text {:?} of {:?} reads as {:?}", s, v, g));
                let s = format!("{:e}", p);
                back(run, &s, &p);
            }
            _ => {
                let w: Vec<i32> = v.iter().map(|x| if x.abs() < 1e9 { (x * 100.0) as i32 } else { i32::MIN }).collect();
                let q = Position::<i32>::new(w);
                back(run, &format!("{}", q), &q);
                let i = InitType::SpecificPosition(q);
                back(run, &format!("{}", i), &i);
            }
        }
    });
    let n3 = num.clone();
    c.family("pairs", "(time, value) pairs of numbers in several notations; the number pair and the short input forms of every type", move |run| {
        let x = run.of(&n3);
        match run.pick(5) {
            0 => {
                let y = run.of(&[0.0, -1.5, 1e-9, 123456789.0]);
                for s in [format!("({:e},{:e})", x, y), format!("({},{})", x, y), format!("{:e},{:e}", x, y)] {
                    run.step();
                    let g = catch(|| s.parse::<moledyn::analysis::Pair<f64>>().map(|p| format!("{:?}", p)));
                    let v: Option<Vec<f64>> = match &g {
                        Ok(Ok(t)) => t.trim_start_matches("Pair").trim_matches(|c| c == '(' || c == ')').split(',').map(|z| z.trim().parse().ok()).collect(),
                        _ => None,
                    };
                    run.note(|| format!("({}, {}) <-> {:?}", x, y, s));
                    run.ensure(v == Some(vec![x, y]), "pair", || format!("the text {:?} reads as {:?}", s, g));
                }
            }
            1 => {
                for s in [format!("{}", x), format!("{:e}", x)] {
                    back(run, &s, &MoveType::Brownian(x));
                    back(run, &s, &TimeType::Constant(x));
                    back(run, &s, &pos(&[x]));
                    back(run, &s, &InitType::SpecificPosition(pos(&[x])));
                }
                back(run, "Levy", &MoveType::Levy);
            }
            2 => {
                let y = run.of(&[0.0, -1.5, 1e-9]);
                let want = pos(&[x, y, 3.0]);
                for s in [format!("{},{},3", x, y), format!("{}:{}:3", x, y), format!("({},{},3)", x, y), format!("({}:{},3)", x, y)] {
                    back(run, &s, &want);
                    back(run, &s, &InitType::SpecificPosition(want.clone()));
                }
                back(run, &format!("({}, {}, 3)", x, y), &want);
                back(run, "Uniform", &InitType::<f64>::Uniform);
            }
            3 => {
                let k = run.of(&[1usize, 2, 3, 17, 99, 100, 127, 128, 255, 256, 1000, 1001, 65_535, 65_536, u32::MAX as usize, 1 << 32, usize::MAX]);
                back(run, &format!("{}", k), &BoundaryCond::Mixed(k));
                back(run, "Periodic", &BoundaryCond::Periodic);
                back(run, "Reflective", &BoundaryCond::Reflection);
                back(run, &format!("{}", k), &SystemType::ContinuousCylindrical(k));
                back(run, "Circular", &SystemType::ContinuousCircular);
                back(run, "Rectangular", &SystemType::ContinuousRectangular);
                back(run, "Lattice", &SystemType::Lattice);
                back(run, "Network", &SystemType::Network);
                back(run, &format!("Exponential({},{})", k, x), &InteractType::Exponential(k, x));
                back(run, &format!("LennardJones({})", x), &InteractType::LennardJones(x));
                back(run, "Coulomb2D", &InteractType::Coulomb2D);
                back(run, "Coulomb3D", &InteractType::Coulomb3D);
            }
            _ => {
                let n = run.of(&[1usize, 10, 64]);
                back(run, &format!("{} {} {}", x, x, n), &TimeType::Exponential(x, x, n));
                back(run, &format!("{:e} {} {}", x, 2.5, n), &TimeType::Exponential(x, 2.5, n));
            }
        }
    });
    c.finish()
}
