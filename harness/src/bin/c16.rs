//! C16: statistics equal the sample statistics, in any order.
use mcheck::ana::*;
use mcheck::*;

fn alphabet(w: Which, big: bool) -> Vec<Ens> {
    let vals: Vec<f64> = if big { vec![1e6, 1e6 + 1.0, 123456.789, 1e-9, 3e7] } else { vec![0.5, 2.0, 0.0, 1e-3, 7.25, 1e13] };
    match w {
        Which::Time => vals.iter().map(|x| vec![(*x, *x)]).collect(),
        Which::Vec(n) => (0..vals.len()).map(|i| (0..n).map(|k| vals[(i + k * (1 + i % 2)) % vals.len()]).map(|x| (x, x)).collect()).collect(),
        Which::Process => {
            let mut v: Vec<Ens> = vals.iter().enumerate().map(|(i, x)| vec![(0.5 + i as f64 % 3.0, *x)]).collect();
            v.push(vec![(1.0, -2.0), (2.0, 5.0)]);
            v.push(vec![(1.0, 3.0), (1.0, -1.5), (1e9, 4.0)]);
            v.push(vec![]);
            v
        }
    }
}

fn text(a: &Ana) -> Result<String, String> {
    Ok(format!("{}|{}|{}", a.summary(15)?, a.dist_text(false, 15)?, a.dist_text(true, 15)?))
}

fn check(run: &mut Run, w: Which, a: &Ana, samples: &[Ens]) {
    if samples.iter().all(|e| e.is_empty()) {
        return;
    }
    let mut b = a.clone();
    match catch(|| {
        b.draw();
        b.summary(15)
    }) {
        Err(p) => run.fail("panic", format!("{:?} {:?}: {}", w, samples, p)),
        Ok(Err(e)) => run.fail("error", format!("{:?} {:?}: {}", w, samples, e)),
        Ok(Ok(line)) => {
            run.ensure(!line.contains("NaN"), "nan", || format!("{:?} {:?}: {}", w, samples, line));
            run.observe(&line);
            let r = check_summary(w, samples, &line);
            run.ensure(r.is_ok(), "statistics", || format!("{:?} {:?}: {}", w, samples, r.clone().unwrap_err()));
        }
    }
}

fn fresh(w: Which) -> Ana {
    let mut a = Ana::new(w);
    a.update(&Binning::Num(0.0, 10.0, 20)).expect("HARNESS: binning");
    a.allocate();
    a
}

fn main() {
    mute_stdout();
    let mut c = Check::new("C16");
    c.assume("deviations are compared up to the rounding of a sum of squares; statistics of no samples are not defined");
    for (wi, w) in [Which::Time, Which::Vec(10), Which::Process].into_iter().enumerate() {
        for big in [false, true] {
            let al = alphabet(w, big);
            let name = format!("{}-{}", ["time", "vector", "process"][wi], if big { "large" } else { "small" });
            let depth = c.q(7usize, 8);
            let n = al.len();
            c.family(&format!("{}-samples", name), &format!("all sequences of 1 to {} ensembles out of {} (values of different magnitude, equal values, values outside the range), the statistics after each of them", depth, n), move |run| {
                let mut a = fresh(w);
                let mut samples: Vec<Ens> = vec![];
                let len = 1 + run.pick(depth);
                for _ in 0..len {
                    let e = run.of(&al);
                    run.step();
                    a.add(&e);
                    samples.push(e);
                }
                run.note(|| format!("{:?}", samples));
                check(run, w, &a, &samples);
            });
            let al = alphabet(w, big);
            let depth = c.q(5usize, 6);
            c.family(&format!("{}-clear", name), &format!("all histories of up to {} operations (add one of {} ensembles, clear, draw then clear), compared with a fresh analysis filled with what was added since the last clear", depth, n), move |run| {
                let mut a = fresh(w);
                let mut samples: Vec<Ens> = vec![];
                let len = 1 + run.pick(depth);
                for _ in 0..len {
                    let op = run.pick(al.len() + 2);
                    run.step();
                    if op < al.len() {
                        a.add(&al[op]);
                        samples.push(al[op].clone());
                        run.note(|| format!("add {:?}", al[op]));
                    } else {
                        if op == al.len() + 1 && !samples.is_empty() {
                            a.draw();
                        }
                        run.note(|| if op == al.len() { "clear".to_string() } else { "draw, clear".to_string() });
                        a.clear();
                        samples.clear();
                    }
                }
                if samples.is_empty() {
                    return;
                }
                let mut b = fresh(w);
                for e in &samples {
                    b.add(e);
                }
                check(run, w, &a, &samples);
                a.draw();
                b.draw();
                let (x, y) = (text(&a), text(&b));
                run.observe(&x);
                run.ensure(x == y && x.is_ok(), "clear", || format!("cleared and filled: {:?}, fresh: {:?}", x, y));
            });
        }
    }
    let counts: Vec<usize> = c.q(vec![7, 9, 10, 16, 17, 33, 64, 65, 100, 129, 257, 1000, 5000], vec![7, 9, 10, 16, 17, 33, 64, 65, 100, 129, 257, 513, 1000, 1025, 5000, 20_000]);
    c.family("many", &format!("3 analyses, {:?} ensembles in one of 6 orders (in turn, blocks, one repeated, one outlier first, in the middle or last) over each alphabet; the statistics after all of them, and after clearing and a second filling", counts), move |run| {
        let w = run.of(&[Which::Time, Which::Vec(10), Which::Process]);
        let al = alphabet(w, run.flag());
        let n = run.of(&counts);
        let order = run.pick(6);
        let x = run.pick(al.len());
        let y = (x + 1) % al.len();
        let samples: Vec<Ens> = (0..n)
            .map(|i| match order {
                0 => al[(i + x) % al.len()].clone(),
                1 => al[(i * al.len() / n + x) % al.len()].clone(),
                2 => al[x].clone(),
                3 => al[if i == 0 { y } else { x }].clone(),
                4 => al[if i == n / 2 { y } else { x }].clone(),
                _ => al[if i + 1 == n { y } else { x }].clone(),
            })
            .collect();
        run.step();
        run.note(|| format!("{:?} {} ensembles, order {}, first {:?}", w, n, order, samples[0]));
        let mut a = fresh(w);
        samples.iter().for_each(|e| a.add(e));
        check(run, w, &a, &samples);
        a.clear();
        samples.iter().rev().take(n / 2 + 1).for_each(|e| a.add(e));
        let half: Vec<Ens> = samples.iter().rev().take(n / 2 + 1).cloned().collect();
        check(run, w, &a, &half);
    });
    let counts: Vec<usize> = c.q(vec![32_769, 65_537, 70_000], vec![32_769, 65_535, 65_537, 131_073, 300_000]);
    c.family("very-many", &format!("3 analyses, {:?} ensembles, in turn, one repeated, or an outlier in the middle; statistics and the number of counted samples, and again after clearing", counts), move |run| {
        let w = run.of(&[Which::Time, Which::Vec(10), Which::Process]);
        let al = alphabet(w, run.flag());
        let n = run.of(&counts);
        let order = run.pick(3);
        let (x, y) = (1, 2);
        let samples: Vec<Ens> = (0..n)
            .map(|i| al[match order { 0 => i % al.len(), 1 => x, _ => if i == n / 2 { y } else { x } }].clone())
            .collect();
        run.step();
        run.note(|| format!("{:?} {} ensembles, order {}", w, n, order));
        let mut a = fresh(w);
        samples.iter().for_each(|e| a.add(e));
        check(run, w, &a, &samples);
        a.clear();
        let few: Vec<Ens> = samples.iter().take(9).cloned().collect();
        few.iter().for_each(|e| a.add(e));
        check(run, w, &a, &few);
    });
    let sizes: Vec<usize> = c.q(vec![64, 129, 1001, 2000, 5000], vec![64, 129, 1001, 2000, 5000, 20_000, 70_000]);
    c.family("many-bins", &format!("3 analyses with {:?} bins: values in the first, middle and last bins of both scales recorded, cleared (drawn before or not) and others recorded, compared with a fresh analysis", sizes), move |run| {
        let w = run.of(&[Which::Time, Which::Vec(10), Which::Process]);
        let n = run.of(&sizes);
        let drawn = run.flag();
        let rounds = 1 + run.pick(3);
        let new = || {
            let mut a = Ana::new(w);
            a.update(&Binning::Num(0.0, 10.0, n)).expect("HARNESS: binning");
            a.allocate();
            a
        };
        let places = [9.9999, 9.7, 5.0, 2.5, 0.37, 1e-3, 1e-6, 1e-9, 3e-13, 2e-15];
        let ens = |i: usize| -> Ens { (0..num_var(w)).map(|k| places[(i + k) % places.len()]).map(|x| (x, x)).collect() };
        run.note(|| format!("{:?} {} bins, {} rounds", w, n, rounds));
        let mut a = new();
        for r in 0..rounds {
            for i in 0..places.len() {
                if i % (r + 1) == 0 {
                    a.add(&ens(i));
                }
            }
            run.step();
            if drawn {
                a.draw();
            }
            a.clear();
        }
        let mut b = new();
        let mut samples = vec![];
        for i in [3usize, 0, 7] {
            a.add(&ens(i));
            b.add(&ens(i));
            samples.push(ens(i));
        }
        check(run, w, &a, &samples);
        a.draw();
        b.draw();
        let (x, y) = (text(&a), text(&b));
        run.observe(&x);
        run.ensure(x == y && x.is_ok(), "clear", || format!("cleared and filled: {:?}, fresh: {:?}", x, y));
    });
    c.family("columns", "3 analyses, widths 0 to 40, 3 numbers of samples: the headings and the number of columns, the printed width changes no value", move |run| {
        let w = run.of(&[Which::Time, Which::Vec(10), Which::Process]);
        let width = run.pick(41);
        let n = 1 + run.pick(3);
        run.step();
        run.note(|| format!("{:?} width {}", w, width));
        let f = form(w, width.max(20));
        let heads: Vec<&str> = f.split_whitespace().collect();
        run.ensure(heads.len() == 3 && heads[0].contains("ensemble") && heads[1].contains("mean") && heads[2].contains("std"), "headings", || format!("{:?} has the headings {:?}", w, f));
        let mut a = fresh(w);
        let al = alphabet(w, false);
        let samples: Vec<Ens> = (0..n).map(|i| al[(i + 1) % al.len()].clone()).collect();
        for e in &samples {
            a.add(e);
        }
        a.draw();
        match a.summary(width) {
            Err(e) => run.fail("error", e),
            Ok(line) => {
                let r = check_summary(w, &samples, &line);
                run.ensure(r.is_ok(), "statistics", || format!("{:?} width {} {:?}: {}", w, width, samples, r.clone().unwrap_err()));
            }
        }
    });
    c.family("wrong-length", "vectors of 0 to 12 values recorded in an analysis of 10: accepted exactly when there are 10", move |run| {
        let n = run.pick(13);
        let before = run.pick(2);
        let mut a = fresh(Which::Vec(10));
        let good: Ens = (0..10).map(|i| (i as f64, i as f64)).collect();
        run.step();
        for _ in 0..before {
            a.add(&good);
        }
        let e: Ens = (0..n).map(|i| (1.0 + i as f64, 1.0)).collect();
        run.note(|| format!("{} values", n));
        let r = catch(|| a.add(&e));
        run.ensure(r.is_ok() == (n == 10), "accepted", || format!("{} values in an analysis of 10: {:?}", n, r));
    });
    c.finish()
}
