//! C15: every recorded value is counted in the bin that contains it.
use mcheck::ana::*;
use mcheck::*;

const KINDS: [Which; 4] = [Which::Time, Which::Vec(10), Which::Process, Which::Vec(10)];

fn binnings(thorough: bool) -> Vec<Binning> {
    let mut v = vec![
        Binning::Num(1.0, 17.0, 16),
        Binning::Num(1.0, 1024.0, 10),
        Binning::Num(0.0, 1.0, 10),
        Binning::Num(0.0, 10.0, 37),
        Binning::Num(0.3, 7.1, 11),
        Binning::Num(1e-15, 1e13, 100),
        Binning::Num(1e-3, 1e3, 60),
        Binning::Size(1.0, 17.0, 1.0, 2.0),
        Binning::Size(1.0, 17.0, 0.5, 4.0),
        Binning::Size(0.25, 5.0, 0.25, 2.0),
        Binning::Size(2.0, 3.0, 8.0, 16.0),
        Binning::Size(0.0, 10.0, 0.1, 1.2),
        Binning::Size(0.0, 10.0, 3.0, 10.0),
        Binning::Size(0.3, 7.1, 0.7, 1.3),
        Binning::Size(0.3, 7.1, 0.61, 1.001),
        Binning::Size(5.0, 5.5, 100.0, 50.0),
        Binning::Size(1e-15, 1e13, 1e10, 1.2),
        Binning::Size(100.0, 101.0, 0.01, 1.0001),
    ];
    if thorough {
        for min in [0.0, 0.125, 1.0, 0.3, 1e-7] {
            for max in [1.0 + min, 2.0, 10.0, 33.3] {
                for n in [10, 13, 64] {
                    v.push(Binning::Num(min, max, n));
                }
                for s in [0.125, 0.3, 1.0, 7.0] {
                    for r in [1.1, 2.0, 4.0, 30.0] {
                        v.push(Binning::Size(min, max, s, r));
                    }
                }
            }
        }
    }
    v
}

/// Values on all borders, around them and between them.
fn grid(b: &Binning) -> Vec<f64> {
    let (min, max) = (b.min(), b.max());
    let ulp = |x: f64, k: i64| f64::from_bits((x.to_bits() as i64 + k) as u64);
    let mut v = vec![0.0, -1.0, -0.0, f64::NEG_INFINITY, f64::INFINITY, f64::NAN, -f64::NAN, min / 2.0, min * 0.999, max * 1.001, max * 10.0, 1e300, 1e-300];
    let nl = ((max - min) / b.size()).ceil().min(130.0) as usize;
    for k in 0..=nl {
        for f in [0.0, 1e-7, 0.25, 0.5, 0.75, 1.0 - 1e-7] {
            v.push(min + (k as f64 + f) * b.size());
        }
    }
    let nr = ((max / min).ln() / b.ratio().ln()).ceil().min(130.0) as usize;
    for k in 0..=nr {
        for f in [0.0, 1e-7, 0.25, 0.5, 0.75, 1.0 - 1e-7] {
            v.push(min * b.ratio().powf(k as f64 + f));
        }
    }
    let mut w = vec![];
    for x in v {
        w.push(x);
        if x > 0.0 && x.is_finite() {
            w.push(ulp(x, 1));
            w.push(ulp(x, -1));
        }
    }
    for k in [-1, 0, 1] {
        w.push(ulp(min, k));
        w.push(ulp(max, k));
    }
    w
}

fn prepared(w: Which, b: &Binning) -> Result<Ana, String> {
    let mut a = Ana::new(w);
    a.update(b)?;
    a.allocate();
    Ok(a)
}

/// The numbers of samples in the bins of both distributions, as exported.
fn counts(w: Which, a: &Ana) -> Result<Vec<(f64, Vec<f64>)>, String> {
    let per = if w == Which::Process { 3 } else { 2 };
    let mut v = vec![];
    for log in [false, true] {
        for r in parse_rows(&a.dist_text(log, 12)?)? {
            v.push((r.centre, r.cells.iter().step_by(per).cloned().collect()));
        }
    }
    Ok(v)
}

fn main() {
    mute_stdout();
    let mut c = Check::new("C15");
    c.assume("a minimum below 1e-15 counts as 1e-15; a value within rounding (about 1e-12) of a border may be counted on either side, unless all numbers are short binary fractions and powers of two");
    let list = std::sync::Arc::new(binnings(c.q(false, true)));
    let n = list.len();
    let l = std::sync::Arc::new(binnings(true));
    let n_all = l.len();
    c.family("positions", &format!("3 analyses, {} binnings; every border of up to 131 bins of both scales, one ulp and 1e-7 around it, quarter points, values outside, zero, negative, infinite, no number: bin_pos and lbin_pos", n_all), move |run| {
        let w = run.of(&[Which::Time, Which::Vec(10), Which::Process]);
        let b = run.of(&l);
        let a = match prepared(w, &b) {
            Ok(a) => a,
            Err(e) => return run.fail("refused", format!("{:?} is refused: {}", b, e)),
        };
        run.note(|| format!("{:?} {:?}", w, b));
        for v in grid(&b) {
            run.step();
            let (p, q) = (a.bin_pos(v), a.lbin_pos(v));
            run.state(&(p, q));
            let (cp, cq) = (b.lin(v), b.log(v));
            run.ensure(p.map_or(cp.is_empty(), |p| cp.contains(&p)), "linear", || format!("{:?} {:?}: {:?} is in linear bin {:?}, containing it: {:?}", w, b, v, p, cp));
            run.ensure(q.map_or(cq.is_empty(), |q| cq.contains(&q)), "logarithmic", || format!("{:?} {:?}: {:?} is in logarithmic bin {:?}, containing it: {:?}", w, b, v, q, cq));
        }
    });
    let l = list.clone();
    c.family("recorded", &format!("3 analyses, {} binnings; values of that grid (every 23rd, thorough: every 3rd) recorded alone (as each of the 10 variables), the exported histograms count it exactly once where it belongs", n), move |run| {
        let ki = run.pick(4);
        let w = KINDS[ki];
        let b = run.of(&l);
        run.note(|| format!("{:?} {:?}", w, b));
        let empty = match prepared(w, &b) {
            Ok(a) => a,
            Err(e) => return run.fail("refused", format!("{:?} is refused: {}", b, e)),
        };
        let g: Vec<f64> = grid(&b).into_iter().filter(|v| v.is_finite()).collect();
        let stride = if run.thorough { 3 } else { 23 };
        let idx: Vec<usize> = (0..g.len()).step_by(stride).collect();
        let blocks: Vec<&[usize]> = idx.chunks(16).collect();
        for &i in run.of(&blocks) {
            run.step();
            // the tenth variable first in one variant, distinct values for the others in the other one
            let e: Ens = match w {
                Which::Time => vec![(g[i], g[i])],
                Which::Process => vec![(g[i], 2.5)],
                Which::Vec(n) => (0..n).map(|k| if ki == 1 { g[(i + 3 * k) % g.len()] } else { g[(i + g.len() - 5 * k) % g.len()] }).map(|x| (x, x)).collect(),
            };
            let mut a = empty.clone();
            let r = catch(|| {
                a.add(&e);
                a.draw();
                (a.dist_text(false, 12), a.dist_text(true, 12))
            });
            match r {
                Err(p) => run.fail("panic", format!("{:?} {:?}: recording {:?} panicked: {}", w, b, e, p)),
                Ok((lin, log)) => {
                    for (t, is_log) in [(lin, false), (log, true)] {
                        let r = t.and_then(|t| check_dist(w, &b, std::slice::from_ref(&e), is_log, &t));
                        run.ensure(r.is_ok(), if is_log { "logarithmic" } else { "linear" }, || format!("{:?} {:?} after recording {:?}: {}", w, b, e, r.clone().unwrap_err()));
                    }
                }
            }
            if run.failed() {
                return;
            }
        }
    });
    let l = list.clone();
    c.family("defaults", "3 analyses without a binning: the default range 1e-15 to 1e13, and binnings replaced by other binnings", move |run| {
        let w = run.of(&[Which::Time, Which::Vec(10), Which::Process]);
        let again = run.flag();
        let b = if again { run.of(&l) } else { Binning::Size(1e-15, 1e13, 1e10, 1.2) };
        run.note(|| format!("{:?} {:?}", w, b));
        run.step();
        let mut a = Ana::new(w);
        if again {
            let first = run.of(&l);
            let ok = a.update(&first).is_ok();
            a.allocate();
            let ok = ok && a.update(&b).is_ok();
            a.allocate();
            if !ok {
                return run.fail("refused", format!("{:?}, then {:?} is refused", first, b));
            }
        }
        let g: Vec<f64> = grid(&b).into_iter().filter(|v| v.is_finite()).collect();
        let nv = num_var(w);
        let samples: Vec<Ens> = g.chunks(nv).filter(|c| c.len() == nv).take(20).map(|c| c.iter().map(|x| (*x, *x)).collect()).collect();
        let r = catch(|| {
            for e in &samples {
                a.add(e);
            }
            a.draw();
            (a.dist_text(false, 12), a.dist_text(true, 12))
        });
        match r {
            Err(p) => run.fail("panic", format!("{:?} {:?}: recording {:?} panicked: {}", w, b, samples, p)),
            Ok((lin, log)) => {
                for (t, is_log) in [(lin, false), (log, true)] {
                    let r = t.and_then(|t| check_dist(w, &b, &samples, is_log, &t));
                    run.ensure(r.is_ok(), if is_log { "logarithmic" } else { "linear" }, || format!("{:?} {:?} after recording {:?}: {}", w, b, samples, r.clone().unwrap_err()));
                }
            }
        }
    });
    let l = list.clone();
    c.family("rebinned", &format!("3 analyses, every one of {} binnings after every third of them with 1 to 3 samples recorded, drawn or not: the new bins count what is recorded from then on, and nothing else", n), move |run| {
        let w = run.of(&[Which::Time, Which::Vec(10), Which::Process]);
        let first: Vec<Binning> = l.iter().step_by(3).cloned().collect();
        let b0 = run.of(&first);
        let b = run.of(&l);
        let (drawn, cleared) = (run.flag(), run.flag());
        run.note(|| format!("{:?} {:?}, then {:?}, drawn: {}, cleared: {}", w, b0, b, drawn, cleared));
        run.step();
        let ens = |b: &Binning, f: f64| -> Ens { (0..num_var(w)).map(|k| b.min() + (b.max() - b.min()) * (f + 0.031 * k as f64)).map(|x| (x, x)).collect() };
        let r = catch(|| {
            let mut a = Ana::new(w);
            a.update(&b0)?;
            a.allocate();
            for i in 0..3 {
                a.add(&ens(&b0, 0.01 + 0.3 * i as f64));
                a.add(&ens(&b, 0.02 + 0.3 * i as f64));
            }
            if drawn {
                a.draw();
            }
            a.update(&b)?;
            if cleared {
                a.clear();
            }
            a.allocate();
            let mut x = prepared(w, &b)?;
            for i in 0..3 {
                a.add(&ens(&b, 0.11 + 0.2 * i as f64));
                x.add(&ens(&b, 0.11 + 0.2 * i as f64));
            }
            a.draw();
            x.draw();
            Ok::<_, String>((counts(w, &a)?, counts(w, &x)?))
        });
        run.observe(&format!("{:?}", r));
        run.ensure(matches!(&r, Ok(Ok((p, q))) if p == q), "rebinned", || format!("{:?} {:?} after {:?}: counts and those of a new analysis: {:?}", w, b, b0, r));
    });
    c.family("many-bins", "3 analyses, 2 x 8 binnings of 100 to 1000000 bins: the bins around every power of two and of ten, the first and the last, at 5 places inside the bin and on its borders: bin_pos and lbin_pos", move |run| {
        let w = run.of(&[Which::Time, Which::Vec(10), Which::Process]);
        let n = run.of(&[100usize, 128, 1000, 1024, 5000, 65_537, 100_000, 1_000_000]);
        let (lo, hi) = run.of(&[(1.0, 2.0), (0.0, 1024.0), (1e-3, 1e5)]);
        let form = run.pick(2);
        let b = if form == 0 { Binning::Num(lo, hi, n) } else { Binning::Size(lo, hi, (hi - lo) / n as f64, (hi / f64::max(lo, 1e-15)).powf(1.0 / n as f64)) };
        run.note(|| format!("{:?} {:?}", w, b));
        let mut a = Ana::new(w);
        if let Err(e) = a.update(&b) {
            return run.fail("refused", format!("{:?} is refused: {}", b, e));
        }
        let mut ks: Vec<usize> = vec![0, 1, 2, 3, n / 2, n / 3, n - 2, n - 1];
        let mut p = 1usize;
        while p < n {
            ks.extend([p - 1, p, p + 1]);
            p *= 2;
        }
        p = 10;
        while p < n {
            ks.extend([p - 1, p, p + 1]);
            p *= 10;
        }
        ks.retain(|k| *k < n);
        ks.sort();
        ks.dedup();
        for k in ks {
            for f in [0.0, 1e-3, 0.25, 0.5, 0.75, 0.999] {
                run.step();
                let (v, u) = (b.min() + (k as f64 + f) * b.size(), b.min() * b.ratio().powf(k as f64 + f));
                for v in [v, u] {
                    let (p, q) = (a.bin_pos(v), a.lbin_pos(v));
                    run.state(&(p, q));
                    let (cp, cq) = (b.lin(v), b.log(v));
                    run.ensure(p.map_or(cp.is_empty(), |p| cp.contains(&p)), "linear", || format!("{:?} {:?}: {:?} is in linear bin {:?}, containing it: {:?}", w, b, v, p, cp));
                    run.ensure(q.map_or(cq.is_empty(), |q| cq.contains(&q)), "logarithmic", || format!("{:?} {:?}: {:?} is in logarithmic bin {:?}, containing it: {:?}", w, b, v, q, cq));
                }
            }
        }
    });
    let l = list.clone();
    c.family("no-number", "3 analyses, all binnings: one value that is no number or infinite, recorded before, between or after values in the range: it is counted in no bin, the others where they belong", move |run| {
        let w = run.of(&[Which::Time, Which::Vec(10), Which::Process]);
        let b = run.of(&l);
        let v = run.of(&[f64::NAN, -f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
        let at = run.pick(3);
        let mut a = match prepared(w, &b) {
            Ok(a) => a,
            Err(e) => return run.fail("refused", format!("{:?} is refused: {}", b, e)),
        };
        let inner = [b.min() + 0.3 * (b.max() - b.min()), b.min() + 0.8 * (b.max() - b.min())];
        let mut xs = vec![inner[0], inner[1]];
        xs.insert(at, v);
        run.step();
        run.note(|| format!("{:?} {:?} {:?}", w, b, xs));
        let samples: Vec<Ens> = match w {
            Which::Time => xs.iter().map(|x| vec![(*x, *x)]).collect(),
            Which::Process => vec![xs.iter().map(|x| (*x, 2.5)).collect()],
            Which::Vec(n) => vec![(0..n).map(|k| xs[k % 3]).map(|x| (x, x)).collect()],
        };
        let r = catch(|| {
            for e in &samples {
                a.add(e);
            }
            a.draw();
            (a.dist_text(false, 12), a.dist_text(true, 12))
        });
        match r {
            Err(p) => run.fail("panic", format!("{:?} {:?}: recording {:?} panicked: {}", w, b, samples, p)),
            Ok((lin, log)) => {
                for (t, is_log) in [(lin, false), (log, true)] {
                    let r = t.and_then(|t| check_dist(w, &b, &samples, is_log, &t));
                    run.ensure(r.is_ok(), if is_log { "logarithmic" } else { "linear" }, || format!("{:?} {:?} after recording {:?}: {}", w, b, samples, r.clone().unwrap_err()));
                }
            }
        }
    });
    c.family("refused", "3 analyses: all combinations of 11 minima, 12 maxima and 6 numbers of bins, or 9 bin sizes and 10 ratios, infinite and meaningless ones among them; a refusal changes nothing", move |run| {
        let w = run.of(&[Which::Time, Which::Vec(10), Which::Process]);
        let min = run.of(&[0.0, 1.0, 0.5, -1.0, -1e-300, 1e-15, 1e-20, 3.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
        let max = run.of(&[2.0, 1.0, 0.0, -1.0, 1e-15, 1e-16, 10.0, 3.0, 3.0000001, f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
        let b = if run.flag() {
            Binning::Num(min, max, run.of(&[0usize, 1, 9, 10, 11, 1000]))
        } else {
            Binning::Size(min, max, run.of(&[0.0, -1.0, 1e-3, 0.25, 5.0, -0.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY]), run.of(&[1.0, 0.5, 0.0, -2.0, 1.01, 2.0, 100.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY]))
        };
        run.step();
        run.note(|| format!("{:?} {:?}", w, b));
        let mut a = Ana::new(w);
        let before = (a.bin_pos(5e12), a.lbin_pos(5e12));
        let r = match catch(|| a.update(&b)) {
            Err(p) => return run.fail("panic", format!("{:?} with {:?} panicked: {}", w, b, p)),
            Ok(r) => r,
        };
        run.observe(&r.is_ok());
        run.ensure(r.is_ok() == b.meaningful(), "refused", || format!("{:?} with {:?}: {:?}", w, b, r));
        if r.is_err() {
            run.ensure(before == (a.bin_pos(5e12), a.lbin_pos(5e12)), "changed", || format!("{:?}: the refused {:?} changes the binning", w, b));
        }
        if let Binning::Num(x, y, n) = b {
            match catch(|| Ana::convert(w, x, y, n)) {
                Err(p) => run.fail("panic", format!("{:?} with {:?} panicked: {}", w, b, p)),
                Ok(Err(_)) => {
                    run.ensure(!b.meaningful(), "convert", || format!("{:?}: sizes of {:?} are refused", w, b));
                }
                Ok(Ok((s, r))) => {
                    let good = b.meaningful() && util::rel(s, b.size(), 1e-9) && util::rel(r.ln(), b.ratio().ln(), 1e-9);
                    run.ensure(good, "convert", || format!("{:?}: {:?} has bin size {} and ratio {}, expected {} and {}", w, b, s, r, b.size(), b.ratio()));
                }
            }
        }
    });
    c.finish()
}
