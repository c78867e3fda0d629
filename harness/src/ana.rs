//! The three analyses behind one interface, and a reference model of what they export.
use crate::util::rel;
use moledyn::analysis::{Pair, VarN, VarTime};
use moledyn::prelude::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Which {
    Time,
    /// number of variables of the TimeVec analysis
    Vec(usize),
    Process,
}

pub enum Ana {
    Time(TimeAnalysis),
    Vec(TimeVecAnalysis),
    Process(ProcessAnalysis),
}

/// One ensemble: (position in the histogram, recorded value); the value is the position except for processes.
pub type Ens = Vec<(f64, f64)>;

impl Clone for Ana {
    fn clone(&self) -> Self {
        match self {
            Ana::Time(a) => Ana::Time(a.clone()),
            Ana::Vec(a) => Ana::Vec(a.clone()),
            Ana::Process(a) => Ana::Process(a.clone()),
        }
    }
}

macro_rules! each {
    ($s:expr, $a:ident => $e:expr) => {
        match $s {
            Ana::Time($a) => $e,
            Ana::Vec($a) => $e,
            Ana::Process($a) => $e,
        }
    };
}

#[derive(Clone, Copy, Debug)]
pub enum Binning {
    Num(f64, f64, usize),
    Size(f64, f64, f64, f64),
}

impl Binning {
    pub fn min(&self) -> f64 {
        match self {
            Binning::Num(a, ..) | Binning::Size(a, ..) => a.max(1e-15),
        }
    }
    pub fn max(&self) -> f64 {
        match self {
            Binning::Num(_, b, _) | Binning::Size(_, b, _, _) => *b,
        }
    }
    pub fn size(&self) -> f64 {
        match self {
            Binning::Num(_, b, n) => (b - self.min()) / *n as f64,
            Binning::Size(_, _, s, _) => *s,
        }
    }
    pub fn ratio(&self) -> f64 {
        match self {
            Binning::Num(_, b, n) => (b / self.min()).powf(1.0 / *n as f64),
            Binning::Size(_, _, _, r) => *r,
        }
    }
    pub fn meaningful(&self) -> bool {
        match *self {
            Binning::Num(a, b, n) => a >= 0.0 && b > a.max(1e-15) && b < f64::INFINITY && n >= 10,
            Binning::Size(a, b, s, r) => a >= 0.0 && b > a.max(1e-15) && b < f64::INFINITY && s > 0.0 && s < f64::INFINITY && r > 1.0 && r < f64::INFINITY,
        }
    }
    pub fn inside(&self, v: f64) -> bool {
        v >= self.min() && v <= self.max()
    }
    /// All linear bins whose interval contains `v`, up to rounding at the borders.
    pub fn lin(&self, v: f64) -> Vec<usize> {
        if !self.inside(v) {
            return vec![];
        }
        let x = (v - self.min()) / self.size();
        // short binary fractions and a size that is a power of two: everything is exact, the borders too
        let short = |y: f64| (y * 1024.0).fract() == 0.0 && y.abs() < 1e9;
        let exact = short(v) && short(self.min()) && power_of_two(self.size());
        let tol = if exact { 0.0 } else { 1e-12 * (v.abs().max(self.min()) / self.size()).max(1.0) * 4.0 };
        let n = n_max(self);
        near(x, tol, n)
    }
    pub fn log(&self, v: f64) -> Vec<usize> {
        if !self.inside(v) {
            return vec![];
        }
        if power_of_two(v) && power_of_two(self.min()) && power_of_two(self.ratio()) {
            return vec![(((v / self.min()).log2().round() as usize) / (self.ratio().log2().round() as usize)).min(n_max(self) - 1)];
        }
        let x = (v / self.min()).ln() / self.ratio().ln();
        // the logarithm of a ratio close to one is only as good as the ratio itself
        let tol = 1e-13 * (1.0 + x) + 4e-16 * x / self.ratio().ln();
        let n = n_max(self);
        near(x, tol, n)
    }
    pub fn lin_centre(&self, k: usize) -> f64 {
        self.min() + (k as f64 + 0.5) * self.size()
    }
    pub fn log_centre(&self, k: usize) -> f64 {
        self.min() * self.ratio().powf(k as f64 + 0.5)
    }
    pub fn log_width(&self, k: usize) -> f64 {
        self.min() * self.ratio().powi(k as i32) * (self.ratio() - 1.0)
    }
}

fn power_of_two(x: f64) -> bool {
    x > 0.0 && x.to_bits() & ((1u64 << 52) - 1) == 0 && x.is_normal()
}

/// The number of bins, where it is given: the last one contains the maximum.
fn n_max(b: &Binning) -> usize {
    match b {
        Binning::Num(_, _, n) => *n,
        _ => usize::MAX,
    }
}

fn near(x: f64, tol: f64, n: usize) -> Vec<usize> {
    let f = |y: f64| (y.floor().max(0.0) as usize).min(n - 1);
    let mut v = vec![f(x - tol), f(x), f(x + tol)];
    v.dedup();
    v
}

/// One row of an exported distribution: centre, then for every variable count and density (processes: count, mean, deviation).
#[derive(Clone, Debug)]
pub struct Row {
    pub centre: f64,
    pub cells: Vec<f64>,
}

pub fn parse_rows(text: &str) -> Result<Vec<Row>, String> {
    let mut v = vec![];
    if !text.is_empty() && !text.ends_with('\n') {
        return Err(format!("the last row is not complete: {:?}", text));
    }
    for l in text.lines() {
        let c: Result<Vec<f64>, _> = l.split_whitespace().map(|x| x.parse::<f64>()).collect();
        match c {
            Ok(c) if c.len() >= 3 => v.push(Row { centre: c[0], cells: c[1..].to_vec() }),
            _ => return Err(format!("not a row: {:?}", l)),
        }
    }
    Ok(v)
}

impl Ana {
    pub fn new(w: Which) -> Ana {
        match w {
            Which::Time => Ana::Time(Default::default()),
            Which::Vec(_) => Ana::Vec(Default::default()),
            Which::Process => Ana::Process(Default::default()),
        }
    }
    pub fn update(&mut self, b: &Binning) -> Result<(), String> {
        let r = match *b {
            Binning::Num(x, y, n) => each!(self, a => a.update_from_num_bin(x, y, n)),
            Binning::Size(x, y, s, r) => each!(self, a => a.update_from_bin_size(x, y, s, r)),
        };
        r.map_err(|e| format!("{:?}", e))
    }
    pub fn convert(w: Which, x: f64, y: f64, n: usize) -> Result<(f64, f64), String> {
        match w {
            Which::Time => TimeAnalysis::convert_num_bin_to_bin_size(x, y, n),
            Which::Vec(_) => TimeVecAnalysis::convert_num_bin_to_bin_size(x, y, n),
            Which::Process => ProcessAnalysis::convert_num_bin_to_bin_size(x, y, n),
        }
        .map_err(|e| format!("{:?}", e))
    }
    pub fn allocate(&mut self) {
        each!(self, a => a.allocate_vectors())
    }
    pub fn bin_pos(&self, v: f64) -> Option<usize> {
        each!(self, a => a.bin_pos(v))
    }
    pub fn lbin_pos(&self, v: f64) -> Option<usize> {
        each!(self, a => a.lbin_pos(v))
    }
    pub fn add(&mut self, e: &Ens) {
        match self {
            Ana::Time(a) => a.add_ensemble(e[0].0),
            Ana::Vec(a) => a.add_ensemble(e.iter().map(|x| x.0).collect()),
            Ana::Process(a) => {
                for (t, x) in e {
                    let p: Pair<f64> = format!("({:?},{:?})", t, x).parse().expect("HARNESS: pair");
                    a.add_pair(p);
                }
                a.add_ensemble();
            }
        }
    }
    pub fn clear(&mut self) {
        each!(self, a => a.clear())
    }
    pub fn draw(&mut self) {
        each!(self, a => a.draw())
    }
    pub fn dist<W: Write>(&self, log: bool, prec: usize, w: &mut W) -> Result<(), String> {
        let r = if log { each!(self, a => a.export_log_scaled_distribution(prec, w)) } else { each!(self, a => a.export_distribution(prec, w)) };
        r.map_err(|e| format!("{:?}", e))
    }
    pub fn dist_text(&self, log: bool, prec: usize) -> Result<String, String> {
        let mut v: Vec<u8> = vec![];
        self.dist(log, prec, &mut v)?;
        String::from_utf8(v).map_err(|e| format!("{:?}", e))
    }
    pub fn summary(&self, prec: usize) -> Result<String, String> {
        each!(self, a => a.export_mean_stddev(prec)).map_err(|e| format!("{:?}", e))
    }
    pub fn export<W: Write>(&self, prec: usize, w: &mut W, dir: &str, file: &str) -> Result<(), String> {
        let (d, f) = (dir.to_string(), file.to_string());
        each!(self, a => a.export(prec, w, &d, &f)).map_err(|e| format!("{:?}", e))
    }
}

pub fn form(w: Which, width: usize) -> String {
    match w {
        Which::Time => TimeAnalysis::export_form(width),
        Which::Vec(_) => TimeVecAnalysis::export_form(width),
        Which::Process => ProcessAnalysis::export_form(width),
    }
}

/// Mean and standard deviation (of the population), computed in two passes.
pub fn stats(v: &[f64]) -> (f64, f64) {
    let n = v.len() as f64;
    let m = v.iter().sum::<f64>() / n;
    (m, (v.iter().map(|x| (x - m) * (x - m)).sum::<f64>() / n).sqrt())
}

pub fn num_var(w: Which) -> usize {
    match w {
        Which::Vec(n) => n,
        _ => 1,
    }
}

/// Is `got` the standard deviation `want` of `n` samples of this magnitude, up to the rounding of a sum of squares?
pub fn dev_close(got: f64, want: f64, biggest: f64, n: usize) -> bool {
    rel(got, want, 1e-9) || (got * got - want * want).abs() <= 8e-16 * (n as f64 + 4.0) * biggest * biggest
}

/// Checks the summary line against the samples.
pub fn check_summary(w: Which, samples: &[Ens], line: &str) -> Result<(), String> {
    let cells: Vec<f64> = match line.split_whitespace().map(|x| x.parse::<f64>()).collect() {
        Ok(c) => c,
        Err(_) => return Err(format!("not numbers: {:?}", line)),
    };
    let nv = num_var(w);
    if cells.len() != 1 + 2 * nv {
        return Err(format!("{} columns instead of {}: {:?}", cells.len(), 1 + 2 * nv, line));
    }
    if cells[0] != samples.len() as f64 {
        return Err(format!("{} ensembles were added: {:?}", samples.len(), line));
    }
    for k in 0..nv {
        let v: Vec<f64> = match w {
            Which::Process => samples.iter().flatten().map(|x| x.1).collect(),
            _ => samples.iter().map(|e| e[k].0).collect(),
        };
        if v.is_empty() {
            continue;
        }
        let (m, s) = stats(&v);
        let big = v.iter().fold(0f64, |a, x| a.max(x.abs()));
        let (gm, gs) = (cells[1 + 2 * k], cells[2 + 2 * k]);
        if !(rel(gm, m, 1e-9) || (gm - m).abs() <= 1e-12 * big) || !dev_close(gs, s, big, v.len()) {
            return Err(format!("variable {}: mean {} and deviation {} instead of {} and {}", k, gm, gs, m, s));
        }
    }
    Ok(())
}

/// Checks an exported distribution against the samples.
pub fn check_dist(w: Which, b: &Binning, samples: &[Ens], log: bool, text: &str) -> Result<(), String> {
    let rows = parse_rows(text)?;
    let nv = num_var(w);
    let per = if w == Which::Process { 3 } else { 2 };
    let centre = |k: usize| if log { b.log_centre(k) } else { b.lin_centre(k) };
    // the bin of a row
    let mut bins: Vec<usize> = vec![];
    for r in &rows {
        if r.cells.len() != nv * per {
            return Err(format!("row {:?} has {} columns", r, r.cells.len() + 1));
        }
        let x = if log { (r.centre / b.min()).ln() / b.ratio().ln() - 0.5 } else { (r.centre - b.min()) / b.size() - 0.5 };
        let k = x.round();
        let tol = 1e-9 * centre(k.max(0.0) as usize).abs();
        if k < 0.0 || (r.centre - centre(k as usize)).abs() > tol {
            return Err(format!("no bin has its centre at {} (nearest {})", r.centre, centre(k.max(0.0) as usize)));
        }
        if bins.last().map_or(false, |p| *p >= k as usize) {
            return Err(format!("bin {} at {} comes after bin {:?}", k, r.centre, bins.last()));
        }
        bins.push(k as usize);
    }
    let all: Vec<(usize, f64, f64)> = samples.iter().flat_map(|e| e.iter().enumerate().map(|(i, x)| (if w == Which::Process { 0 } else { i }, x.0, x.1))).collect();
    let en = samples.len() as f64;
    for k in 0..nv {
        // every sample goes to one of the bins that contain it (two at a border, by rounding)
        let mut must: std::collections::BTreeMap<usize, Vec<f64>> = Default::default();
        let mut may: Vec<(Vec<usize>, f64)> = vec![];
        for (_, t, x) in all.iter().filter(|a| a.0 == k) {
            let c = if log { b.log(*t) } else { b.lin(*t) };
            match c.len() {
                0 => {}
                1 => must.entry(c[0]).or_default().push(*x),
                _ => may.push((c, *x)),
            }
        }
        let mut got: std::collections::BTreeMap<usize, &[f64]> = Default::default();
        for (r, bin) in rows.iter().zip(&bins) {
            got.insert(*bin, &r.cells[k * per..(k + 1) * per]);
        }
        // distribute border samples so that the counts fit: each can only go to the left or to the right,
        // so filling the bins from the left finds a distribution that fits if there is one
        may.sort_by_key(|m| m.0[0]);
        for (c, x) in &may {
            let n = |i: usize, must: &std::collections::BTreeMap<usize, Vec<f64>>| (got.get(&i).map_or(0.0, |c| c[0]), must.get(&i).map_or(0, |v| v.len()) as f64);
            let pick = c.iter().copied().find(|i| {
                let (have, need) = n(*i, &must);
                have > need
            });
            must.entry(pick.unwrap_or(c[0])).or_default().push(*x);
        }
        for (bin, v) in &must {
            let cells = match got.get(bin) {
                None => return Err(format!("bin {} (centre {}) with {} samples of variable {} is missing", bin, centre(*bin), v.len(), k)),
                Some(c) => *c,
            };
            if cells[0] != v.len() as f64 {
                return Err(format!("bin {} (centre {}) counts {} instead of {} samples of variable {}", bin, centre(*bin), cells[0], v.len(), k));
            }
            if w == Which::Process {
                let (m, s) = stats(v);
                let big = v.iter().fold(0f64, |a, x| a.max(x.abs()));
                if !(rel(cells[1], m, 1e-9) || (cells[1] - m).abs() <= 1e-12 * big) || !dev_close(cells[2], s, big, v.len()) {
                    return Err(format!("bin {}: mean {} and deviation {} instead of {} and {}", bin, cells[1], cells[2], m, s));
                }
            } else {
                let width = if log { b.log_width(*bin) } else { b.size() };
                let want = v.len() as f64 / (en * width);
                if !rel(cells[1], want, 1e-9) {
                    return Err(format!("bin {} (centre {}): density {} instead of {}", bin, centre(*bin), cells[1], want));
                }
            }
        }
        for (bin, cells) in &got {
            if !must.contains_key(bin) && (cells[0] != 0.0 || (w != Which::Process && cells[1] != 0.0)) {
                return Err(format!("bin {} (centre {}) holds no sample of variable {} but is exported as {:?}", bin, centre(*bin), k, cells));
            }
        }
    }
    // rows only for bins with samples
    for (r, bin) in rows.iter().zip(&bins) {
        if (0..nv).all(|k| r.cells[k * per] == 0.0) {
            return Err(format!("bin {} at {} holds no sample but is exported", bin, r.centre));
        }
    }
    Ok(())
}
