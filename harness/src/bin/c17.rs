//! C17: exported distributions list every occupied bin once and are normalised.
use mcheck::ana::*;
use mcheck::*;
use std::io::{self, Write};

fn binnings() -> Vec<Binning> {
    vec![
        Binning::Num(1.0, 17.0, 16),
        Binning::Size(1.0, 17.0, 4.0, 4.0),
        Binning::Num(0.0, 10.0, 10),
        Binning::Size(0.3, 7.1, 0.7, 1.3),
        Binning::Size(0.0, 10.0, 3.0, 1e4),
        Binning::Num(1e-3, 1e3, 60),
    ]
}

/// Positions: minimum, maximum, two bins next to each other, far ones, outside on both sides.
fn positions(b: &Binning) -> Vec<f64> {
    vec![b.lin_centre(0), b.lin_centre(1), b.log_centre(1), b.max(), b.min(), b.max() * 2.0, b.min() / 2.0, b.min() + 0.37 * (b.max() - b.min())]
}

fn ensembles(w: Which, b: &Binning) -> Vec<Ens> {
    let p = positions(b);
    match w {
        Which::Time => p.iter().map(|x| vec![(*x, *x)]).collect(),
        Which::Vec(n) => (0..p.len()).map(|i| (0..n).map(|k| p[(i + k / 4) % p.len()]).map(|x| (x, x)).collect()).collect(),
        Which::Process => p
            .iter()
            .enumerate()
            .map(|(i, x)| if i % 3 == 2 { vec![(*x, 1.5), (p[(i + 1) % p.len()], -2.0)] } else { vec![(*x, (i as f64 - 2.0) * 0.75)] })
            .collect(),
    }
}

fn filled(w: Which, b: &Binning, samples: &[Ens]) -> Ana {
    let mut a = Ana::new(w);
    a.update(b).expect("HARNESS: binning");
    a.allocate();
    for e in samples {
        a.add(e);
    }
    a.draw();
    a
}

/// What the writer does at one of its calls.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault {
    One,
    Half,
    Interrupted,
    Zero,
    Full,
}

struct Faulty {
    got: Vec<u8>,
    calls: usize,
    at: Vec<(usize, Fault)>,
    failed: bool,
}

impl Write for Faulty {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let i = self.calls;
        self.calls += 1;
        let n = match self.at.iter().find(|f| f.0 == i).map(|f| f.1) {
            None => buf.len(),
            Some(Fault::One) => 1.min(buf.len()),
            Some(Fault::Half) => (buf.len() + 1) / 2,
            Some(Fault::Interrupted) => return Err(io::Error::from(io::ErrorKind::Interrupted)),
            Some(Fault::Zero) => {
                if buf.is_empty() {
                    return Ok(0);
                }
                self.failed = true;
                return Ok(0);
            }
            Some(Fault::Full) => {
                self.failed = true;
                return Err(io::Error::new(io::ErrorKind::Other, "device full"));
            }
        };
        self.got.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

const W3: [Which; 3] = [Which::Time, Which::Vec(10), Which::Process];
const FAULTS: [Fault; 5] = [Fault::One, Fault::Half, Fault::Interrupted, Fault::Zero, Fault::Full];

fn main() {
    mute_stdout();
    let mut c = Check::new("C17");
    c.assume("a sample within rounding of a border may be in either bin; printed numbers are complete (Rust's shortest form), compared to 1e-9");
    let n = c.q(6usize, 7);
    c.family("fillings", &format!("3 analyses, 6 binnings, all sequences of 1 to {} ensembles out of 8 positions (first, second and last bins, borders, outside): both distributions against the samples", n), move |run| {
        let w = run.of(&W3);
        let b = run.of(&binnings());
        let al = ensembles(w, &b);
        // the vector and fine histograms are larger: one ensemble less
        let len = 1 + run.pick(if w == Which::Vec(10) { n - 1 } else { n });
        let samples: Vec<Ens> = (0..len).map(|_| run.of(&al)).collect();
        run.step();
        run.note(|| format!("{:?} {:?} {:?}", w, b, samples));
        let a = match catch(|| filled(w, &b, &samples)) {
            Ok(a) => a,
            Err(p) => return run.fail("panic", format!("{:?} {:?} {:?}: {}", w, b, samples, p)),
        };
        for log in [false, true] {
            let r = a.dist_text(log, 15).and_then(|t| {
                run.observe(&t);
                check_dist(w, &b, &samples, log, &t)?;
                if w != Which::Process {
                    // normalisation: the fraction of samples in range
                    let rows = parse_rows(&t)?;
                    for k in 0..num_var(w) {
                        let sum: f64 = rows.iter().map(|r| {
                            let width = if log { r.centre / b.ratio().sqrt() * (b.ratio() - 1.0) } else { b.size() };
                            r.cells[2 * k + 1] * width
                        }).sum();
                        let frac = samples.iter().filter(|e| b.inside(e[k].0)).count() as f64 / samples.len() as f64;
                        if (sum - frac).abs() > 1e-9 {
                            return Err(format!("variable {}: the density integrates to {} instead of {}", k, sum, frac));
                        }
                    }
                }
                Ok(())
            });
            run.ensure(r.is_ok(), if log { "logarithmic" } else { "linear" }, || format!("{:?} {:?} {:?}: {}", w, b, samples, r.clone().unwrap_err()));
        }
    });
    let counts: Vec<usize> = c.q(vec![8, 10, 16, 17, 33, 100, 129, 257, 1000, 5000], vec![8, 10, 16, 17, 33, 100, 129, 257, 1000, 1025, 5000]);
    c.family("many", &format!("3 analyses, 6 binnings, {:?} ensembles in one of 4 orders over the 8 positions: both distributions against the samples", counts), move |run| {
        let w = run.of(&W3);
        let b = run.of(&binnings());
        let n = run.of(&counts);
        let al = ensembles(w, &b);
        let order = run.pick(4);
        let x = run.pick(al.len());
        let samples: Vec<Ens> = (0..n)
            .map(|i| match order {
                0 => al[(i + x) % al.len()].clone(),
                1 => al[(i * al.len() / n + x) % al.len()].clone(),
                2 => al[x].clone(),
                _ => al[if i + 1 == n { (x + 3) % al.len() } else { x }].clone(),
            })
            .collect();
        run.step();
        run.note(|| format!("{:?} {:?} {} ensembles, order {}", w, b, n, order));
        let a = match catch(|| filled(w, &b, &samples)) {
            Ok(a) => a,
            Err(p) => return run.fail("panic", format!("{:?} {:?} {} ensembles: {}", w, b, n, p)),
        };
        for log in [false, true] {
            let r = a.dist_text(log, 15).and_then(|t| {
                run.observe(&t);
                check_dist(w, &b, &samples, log, &t)
            });
            run.ensure(r.is_ok(), if log { "logarithmic" } else { "linear" }, || format!("{:?} {:?} {} ensembles: {}", w, b, n, r.clone().unwrap_err()));
        }
    });
    c.family("wide", "3 analyses, 10 binnings of 100 to 100000 bins, 9 samples in bins around powers of two, the first and the last ones, and 66000 samples in one of them: both distributions against the samples", move |run| {
        let w = run.of(&W3);
        let many = run.of(&[100usize, 257, 1000, 4097, 65_537]);
        let b = if run.flag() { Binning::Num(1.0, 1.0 + many as f64 / 8.0, many) } else { Binning::Size(0.5, 0.5 + many as f64 / 4.0, 0.25, 1.0 + 8.0 / many as f64) };
        let heavy = run.flag();
        let shift = run.of(&[0.5, 0.25]);
        let mut at: Vec<usize> = vec![0, 1, 2, 63, 64, 65, 98, 127, 128, 129, 255, 256, 257, 999, 1023, 1024, 4095, 4096, 65_535, 65_536, many - 1, many / 2];
        at.retain(|k| *k < many);
        at.sort();
        at.dedup();
        let skip = run.pick(3);
        let pos: Vec<f64> = at.iter().skip(skip).step_by(1 + skip).map(|k| b.min() + (*k as f64 + shift) * b.size()).collect();
        let nv = num_var(w);
        let one = |i: usize| -> Ens { (0..nv).map(|k| { let x = pos[(i + k) % pos.len()]; (x, if w == Which::Process { 1.0 + i as f64 } else { x }) }).collect() };
        let mut samples: Vec<Ens> = (0..pos.len()).map(one).collect();
        if heavy && many <= 257 {
            samples.extend((0..66_000).map(|_| one(1)));
        }
        run.step();
        run.note(|| format!("{:?} {:?} samples at {:?}", w, b, pos));
        let a = match catch(|| filled(w, &b, &samples)) {
            Ok(a) => a,
            Err(p) => return run.fail("panic", format!("{:?} {:?} {:?}: {}", w, b, pos, p)),
        };
        for log in [false, true] {
            let r = a.dist_text(log, 15).and_then(|t| {
                run.observe(&t);
                check_dist(w, &b, &samples, log, &t)
            });
            run.ensure(r.is_ok(), if log { "logarithmic" } else { "linear" }, || format!("{:?} {:?} samples at {:?} (heavy {}): {}", w, b, pos, heavy, r.clone().unwrap_err()));
        }
    });
    c.family("alone", "vectors of 10 variables, 4 binnings: each variable (and each two) alone in a bin, first, in the middle or last, all the others in another bin or outside", move |run| {
        let n = 10;
        let b = run.of(&[Binning::Num(1.0, 17.0, 16), Binning::Size(1.0, 17.0, 4.0, 4.0), Binning::Size(0.3, 7.1, 0.7, 1.3), Binning::Num(1e-3, 1e3, 60)]);
        let i = run.pick(n);
        let j = i + run.pick(n - i);
        let apart = [b.lin_centre(0), b.lin_centre(1), b.max() * 0.999][run.pick(3)];
        let rest = [b.lin_centre(2), b.max() * 2.0, b.min() / 2.0][run.pick(3)];
        let e: Ens = (0..n).map(|k| if k == i || k == j { (apart, apart) } else { (rest, rest) }).collect();
        let other: Ens = (0..n).map(|_| (rest, rest)).collect();
        let samples = if run.flag() { vec![e] } else { vec![other.clone(), e, other] };
        run.step();
        let w = Which::Vec(n);
        run.note(|| format!("{:?} {:?} {:?}", w, b, samples));
        let a = match catch(|| filled(w, &b, &samples)) {
            Ok(a) => a,
            Err(p) => return run.fail("panic", format!("{:?} {:?} {:?}: {}", w, b, samples, p)),
        };
        for log in [false, true] {
            let r = a.dist_text(log, 15).and_then(|t| {
                run.observe(&t);
                check_dist(w, &b, &samples, log, &t)
            });
            run.ensure(r.is_ok(), if log { "logarithmic" } else { "linear" }, || format!("{:?} {:?} {:?}: {}", w, b, samples, r.clone().unwrap_err()));
        }
    });
    c.family("width", "3 analyses, 6 binnings, 40 widths: the printed width changes no value", move |run| {
        let w = run.of(&W3);
        let b = run.of(&binnings());
        let width = run.pick(40);
        let samples = ensembles(w, &b);
        run.step();
        run.note(|| format!("{:?} {:?} width {}", w, b, width));
        let a = filled(w, &b, &samples);
        for log in [false, true] {
            let r = a.dist_text(log, width).and_then(|t| check_dist(w, &b, &samples, log, &t));
            run.ensure(r.is_ok(), if log { "logarithmic" } else { "linear" }, || format!("{:?} {:?} width {}: {}", w, b, width, r.clone().unwrap_err()));
        }
    });
    let many = c.q(120usize, 400);
    c.family("faults", &format!("3 analyses, both distributions and the summary line of export: at every one of the first {} writes (and every two of the first 16) the writer accepts one byte, half, is interrupted, accepts nothing, or fails", many), move |run| {
        let w = run.of(&W3);
        let part = run.pick(3);
        let b = Binning::Size(1.0, 17.0, 4.0, 4.0);
        let samples = ensembles(w, &b);
        let a = filled(w, &b, &samples);
        let dir = thread_scratch("faults");
        for d in ["linear_distribution", "logarithmic_distribution"] {
            std::fs::create_dir_all(dir.join(d)).expect("HARNESS: scratch");
        }
        let dirs = dir.to_str().expect("HARNESS: scratch").to_string();
        let write = |f: &mut Faulty| match part {
            2 => a.export(15, f, &dirs, "x"),
            p => a.dist(p == 1, 15, f),
        };
        let mut clean = Faulty { got: vec![], calls: 0, at: vec![], failed: false };
        if let Err(e) = write(&mut clean) {
            return run.fail("clean", format!("export to a perfect writer fails: {}", e));
        }
        let calls = clean.calls;
        if calls == 0 {
            return run.fail("nothing", format!("{:?} part {} writes nothing", w, part));
        }
        let two = run.flag();
        let at = if two {
            let m = calls.min(16);
            let x = run.pick(m);
            let y = run.pick(m);
            vec![(x, run.of(&FAULTS)), (y + 1, run.of(&FAULTS))]
        } else {
            vec![(run.pick(calls.min(many)), run.of(&FAULTS))]
        };
        run.step();
        run.note(|| format!("{:?} part {} faults {:?} of {} writes", w, part, at, calls));
        let mut f = Faulty { got: vec![], calls: 0, at: at.clone(), failed: false };
        let r = match catch(|| write(&mut f)) {
            Err(p) => return run.fail("panic", format!("{:?} part {} with {:?} panicked: {}", w, part, at, p)),
            Ok(r) => r,
        };
        run.observe(&(f.calls, f.got.len(), r.is_ok()));
        if f.failed {
            run.ensure(r.is_err(), "unreported", || format!("{:?} part {} with {:?}: the failed write is not reported", w, part, at));
            run.ensure(clean.got.starts_with(&f.got), "order", || format!("{:?} part {} with {:?}: something else was written before the failure", w, part, at));
        } else {
            run.ensure(r.is_ok(), "refused", || format!("{:?} part {} with {:?}: {:?}", w, part, at, r));
            run.ensure(clean.got == f.got, "lost", || format!("{:?} part {} with {:?}: {} bytes arrive instead of {}", w, part, at, f.got.len(), clean.got.len()));
        }
    });
    c.family("files", "3 analyses, 8 fillings: export writes the two distributions and one summary line; a missing directory or a full device for either file is reported", move |run| {
        let w = run.of(&W3);
        let b = run.of(&binnings());
        let al = ensembles(w, &b);
        let k = run.pick(al.len());
        let samples: Vec<Ens> = (0..=k).map(|i| al[(i * 3 + k) % al.len()].clone()).collect();
        let a = filled(w, &b, &samples);
        let how = run.pick(5);
        run.step();
        run.note(|| format!("{:?} {:?} {:?} variant {}", w, b, samples, how));
        let dir = thread_scratch("files");
        let _ = std::fs::remove_dir_all(&dir);
        let sub = ["linear_distribution", "logarithmic_distribution"];
        for (i, d) in sub.iter().enumerate() {
            if how != 1 + i {
                std::fs::create_dir_all(dir.join(d)).expect("HARNESS: scratch");
            }
            if how == 3 + i {
                std::os::unix::fs::symlink("/dev/full", dir.join(d).join("out.dat")).expect("HARNESS: link");
            }
        }
        // a file of an earlier run is replaced completely
        if how == 0 {
            for d in sub {
                std::fs::write(dir.join(d).join("out.dat"), "old\n".repeat(1000)).expect("HARNESS: scratch");
            }
        }
        let mut line: Vec<u8> = vec![];
        let r = match catch(|| a.export(15, &mut line, dir.to_str().unwrap_or(""), "out.dat")) {
            Err(p) => return run.fail("panic", format!("export panicked: {}", p)),
            Ok(r) => r,
        };
        let writes = |log: bool| !a.dist_text(log, 15).unwrap_or_default().is_empty();
        let broken = match how {
            0 => false,
            1 | 2 => true,
            3 => writes(false),
            _ => writes(true),
        };
        run.ensure(r.is_err() == broken, "reported", || format!("{:?} {:?} variant {}: {:?}", w, samples, how, r));
        if how == 0 && r.is_ok() {
            for (i, d) in sub.iter().enumerate() {
                let t = std::fs::read_to_string(dir.join(d).join("out.dat")).unwrap_or_else(|e| format!("{}", e));
                let r = check_dist(w, &b, &samples, i == 1, &t);
                run.ensure(r.is_ok(), "file", || format!("{:?} {:?} {}: {}", w, samples, d, r.clone().unwrap_err()));
            }
            let l = String::from_utf8_lossy(&line).to_string();
            run.ensure(l.ends_with('\n') && l.lines().count() == 1, "line", || format!("the summary line is {:?}", l));
            let r = check_summary(w, &samples, &l);
            run.ensure(r.is_ok(), "line", || format!("{:?} {:?}: {}", w, samples, r.clone().unwrap_err()));
        }
    });
    c.finish()
}
