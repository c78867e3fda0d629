//! C18: analysing a directory pools all and only matching results, losing nothing.
use mcheck::ana::*;
use mcheck::kinds::{kinds, values, Kind};
use mcheck::util::rel;
use mcheck::*;
use moledyn::prelude::Error;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::sync::Mutex;

include!("../combos.inc.rs");
include!("../shim.inc.rs");
use shim::{Fault, Gate, Plan};

type Analyze = fn(Which, &[String], &str) -> Result<(), Error>;

/// The programs whose analyses are run, each with the number of its combination.
fn programs() -> Vec<(usize, Analyze)> {
    let at = |name: [usize; 5]| combos().iter().position(|c| c.kinds == name).expect("HARNESS: combination");
    vec![
        (at([0, 3, 4, 8, 10]), m0000::analyze as Analyze),
        (at([2, 3, 5, 9, 11]), m2111::analyze as Analyze),
        (at([1, 3, 7, 8, 12]), m1302::analyze as Analyze),
        (at([2, 3, 6, 9, 12]), m2212::analyze as Analyze),
    ]
}

const NAMED: [&str; 16] = ["sys_size", "dim", "sys_radius", "sys_length", "target_size", "num_agent", "ptl_radius", "alpha", "gamma", "strength", "ptl_size", "dt", "tmax", "dt_min", "dt_max", "length"];
const IS_COUNT: [&str; 6] = ["dim", "num_agent", "length", "idx_set", "n_thrd", "num_ensemble"];

/// Parameters of set number `set` (0, 1, ...), of run number `idx`.
fn words(kinds_of: &[usize; 5], ks: &[Kind], set: usize, idx: usize) -> [Vec<String>; 5] {
    let mut w: [Vec<String>; 5] = Default::default();
    let (mut real, mut count, mut named) = (0, 0, 0);
    for (i, &k) in kinds_of.iter().enumerate() {
        for (n, t) in ks[k].names.iter().zip(&ks[k].types) {
            let x = if *n == "idx_set" || *n == "n_thrd" {
                format!("{}", idx)
            } else if *n == "period" {
                "0.25".to_string()
            } else if IS_COUNT.contains(n) {
                count += 1;
                format!("{}", 1 + count)
            } else if NAMED.contains(n) {
                real += 1;
                format!("{}", real as f64 * 0.5)
            } else {
                values(*t)[0].0.clone()
            };
            let x = if NAMED.contains(n) {
                named += 1;
                // the sets differ in one parameter each: slightly, or by exchanging digits
                match (set, named) {
                    (1, 2) if !IS_COUNT.contains(n) => format!("{}", x.parse::<f64>().unwrap() + 1e-9),
                    (1, 3) if !IS_COUNT.contains(n) => format!("{}", x.parse::<f64>().unwrap() + 1e-9),
                    (2, 1) => format!("{}1", x),
                    (3.., 1) => format!("{}", x.parse::<f64>().expect("HARNESS: number") + set as f64),
                    _ => x,
                }
            } else {
                x
            };
            w[i].push(x);
        }
    }
    w
}

/// Values of the parameters that appear in a summary row.
fn key(kinds_of: &[usize; 5], ks: &[Kind], w: &[Vec<String>; 5]) -> Vec<f64> {
    let mut v = vec![];
    for (i, &k) in kinds_of.iter().enumerate() {
        for (j, n) in ks[k].names.iter().enumerate() {
            if NAMED.contains(n) {
                v.push(w[i][j].parse::<f64>().expect("HARNESS: number"));
            }
        }
    }
    v
}

const DATA: &str = "========================     DATA STARTS    ==========================\n";

fn head(c: &Combo, w: &[Vec<String>; 5]) -> String {
    let h = (c.make)(w).expect("HARNESS: parameters").1;
    let h = h.strip_prefix("first line\n").expect("HARNESS: header").to_string();
    format!("========================    DESCRIPTIONS    ==========================\n{}{}", h, DATA)
}

fn line(w: Which, e: &Ens) -> String {
    match w {
        Which::Time => format!("{:e}\n", e[0].0),
        Which::Vec(_) => format!("{}\n", e.iter().map(|x| format!("{:.5e}", x.0)).collect::<Vec<_>>().join("\t")),
        Which::Process => format!("{}\n", e.iter().map(|x| format!("({:.5e},{:.5e})", x.0, x.1)).collect::<Vec<_>>().join(" ")),
    }
}

/// The samples of content number `n`.
fn content(w: Which, n: usize) -> Vec<Ens> {
    let base: Vec<Vec<f64>> = vec![vec![], vec![2.25], vec![8.75, 1.5], vec![2.25, 2.25, 3.5], vec![100.0, 1.0, 10.5, 0.5, 7.0]];
    // numbers of 10 and more are themselves the number of samples
    let many: Vec<f64> = (0..n).map(|i| 0.5 + (i * 37 % 97) as f64 * 0.21).collect();
    let b = if n < base.len() { &base[n] } else { &many };
    match w {
        Which::Time => b.iter().map(|x| vec![(*x, *x)]).collect(),
        Which::Vec(k) => b.iter().map(|x| (0..k).map(|i| (x + i as f64 * 1.25, x + i as f64 * 1.25)).collect()).collect(),
        Which::Process => b.iter().enumerate().map(|(i, x)| (0..2 + i % 2).map(|j| (x + j as f64 * 0.5, 3.0 - x * (j as f64 + 0.5))).collect()).collect(),
    }
}

fn binnings() -> Vec<Binning> {
    vec![Binning::Num(1.0, 11.0, 10), Binning::Size(0.5, 20.0, 0.75, 1.5), Binning::Num(0.0, 4.0, 10)]
}

fn arguments(w: Which, b: &Binning, dir: &Path) -> Vec<String> {
    let mut a: Vec<String> = match w {
        Which::Vec(n) => vec![format!("{}", n)],
        _ => vec![],
    };
    match *b {
        Binning::Num(x, y, n) => a.extend([format!("{}", x), format!("{}", y), format!("{}", n)]),
        Binning::Size(x, y, s, r) => a.extend([format!("{}", x), format!("{}", y), format!("{}", s), format!("{}", r)]),
    }
    a.push(dir.to_string_lossy().into_owned());
    a
}

/// All files (with content) and directories below `dir`.
fn tree(dir: &Path) -> BTreeMap<String, Option<Vec<u8>>> {
    fn go(d: &Path, rel: &str, m: &mut BTreeMap<String, Option<Vec<u8>>>) {
        for e in std::fs::read_dir(d).expect("HARNESS: list") {
            let e = e.expect("HARNESS: list");
            let name = format!("{}{}", rel, e.file_name().to_string_lossy());
            let p = e.path();
            let t = e.file_type().expect("HARNESS: list");
            if t.is_dir() {
                m.insert(name.clone(), None);
                go(&p, &format!("{}/", name), m);
            } else if t.is_file() {
                m.insert(name, Some(std::fs::read(&p).expect("HARNESS: read")));
            } else {
                m.insert(name, Some(b"link".to_vec()));
            }
        }
    }
    let mut m = BTreeMap::new();
    go(dir, "", &mut m);
    m
}

fn analysis_name(s: &str) -> bool {
    let mut p = s.splitn(3, '_');
    p.next() == Some("analysis") && p.next().map_or(false, |d| d.len() == 8 && d.bytes().all(|c| c.is_ascii_digit())) && p.next().map_or(true, |n| n.parse::<usize>().is_ok())
}

/// What changed between two trees: the analysis directories that are new, or a complaint.
fn fresh(before: &BTreeMap<String, Option<Vec<u8>>>, after: &BTreeMap<String, Option<Vec<u8>>>) -> Result<Vec<String>, String> {
    for (k, v) in before {
        match after.get(k) {
            None => return Err(format!("{} is gone", k)),
            Some(w) if w != v => return Err(format!("{} was changed: {:?} instead of {:?}", k, w.as_ref().map(|x| String::from_utf8_lossy(x).into_owned()), v.as_ref().map(|x| String::from_utf8_lossy(x).into_owned()))),
            _ => {}
        }
    }
    let new: Vec<&String> = after.keys().filter(|k| !before.contains_key(*k)).collect();
    let mut dirs: BTreeSet<String> = BTreeSet::new();
    for k in &new {
        let top = k.split('/').next().unwrap().to_string();
        if before.contains_key(&top) || !analysis_name(&top) {
            return Err(format!("{} appeared", k));
        }
        dirs.insert(top);
    }
    Ok(dirs.into_iter().collect())
}

/// A parameter set and its pooled samples.
struct Group {
    file: String,
    key: Vec<f64>,
    samples: Vec<Ens>,
}

/// Compares the output of an analysis with what it has to be; (key, message) of the difference.
fn check_output(w: Which, b: &Binning, form_ds: &str, groups: &[Group], dir: &Path) -> Result<(), (String, String)> {
    let e = |k: &str, m: String| Err((k.to_string(), m));
    // an analysis turns the number of bins into widths: the maximum may open a bin of its own
    let b = &Binning::Size(b.min(), b.max(), b.size(), b.ratio());
    let t = tree(dir);
    let brief = if w == Which::Process { "brief_data.dat" } else { "brief_result.dat" };
    let groups: Vec<&Group> = groups.iter().filter(|g| g.samples.iter().any(|e| !e.is_empty())).collect();
    let mut want: BTreeSet<String> = BTreeSet::new();
    want.insert(brief.to_string());
    for d in ["linear_distribution", "logarithmic_distribution"] {
        want.insert(d.to_string());
        for g in &groups {
            want.insert(format!("{}/{}", d, g.file));
        }
    }
    let got: BTreeSet<String> = t.keys().cloned().collect();
    if got != want {
        return e("files", format!("the analysis wrote {:?} instead of {:?}", got, want));
    }
    let text = |k: &str| String::from_utf8_lossy(t[k].as_ref().expect("HARNESS: file")).into_owned();
    let sum = text(brief);
    let mut lines = sum.lines();
    let first = lines.next().unwrap_or("");
    let expect = format!("{}{}", form_ds, form(w, 15));
    if first != expect.trim_end_matches('\n') && format!("{}\n", first) != format!("{}\n", expect) {
        return e("heading", format!("heading {:?} instead of {:?}", first, expect));
    }
    if !sum.ends_with('\n') {
        return e("rows", format!("the summary is cut: {:?}", sum));
    }
    let rows: Vec<&str> = lines.collect();
    if rows.len() != groups.len() {
        return e("rows", format!("{} rows for {} parameter sets: {:?}", rows.len(), groups.len(), sum));
    }
    let mut used = vec![false; rows.len()];
    for g in &groups {
        // the row of this parameter set: the one with its file's parameters (nearly equal sets differ in their files only)
        let mut why = format!("no row of {:?} in {:?}", g.key, sum);
        let mut found = false;
        for (i, r) in rows.iter().enumerate() {
            let cells: Vec<&str> = r.split_whitespace().collect();
            if used[i] || cells.len() < g.key.len() {
                continue;
            }
            let k: Vec<f64> = cells[..g.key.len()].iter().filter_map(|x| x.parse().ok()).collect();
            if k.len() != g.key.len() || !k.iter().zip(&g.key).all(|(a, b)| rel(*a, *b, 1e-12)) {
                continue;
            }
            match check_summary(w, &g.samples, &cells[g.key.len()..].join(" ")) {
                Ok(()) => {
                    used[i] = true;
                    found = true;
                    break;
                }
                Err(m) => why = format!("row {:?}: {}", r, m),
            }
        }
        if !found {
            return e("row", why);
        }
        for (log, d) in [(false, "linear_distribution"), (true, "logarithmic_distribution")] {
            let f = format!("{}/{}", d, g.file);
            if let Err(m) = check_dist(w, b, &g.samples, log, &text(&f)) {
                return e("distribution", format!("{}: {}\n{}", f, m, text(&f)));
            }
        }
    }
    Ok(())
}

struct Case {
    dir: PathBuf,
    w: Which,
    prog: usize,
    groups: Vec<Group>,
    n: usize,
}

impl Case {
    fn new(prog: usize, w: Which, name: &str) -> Case {
        let dir = thread_scratch(name);
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(&dir).expect("HARNESS: directory");
        Case { dir, w, prog, groups: vec![], n: 0 }
    }
    fn put(&self, name: &str, bytes: &[u8]) {
        std::fs::write(self.dir.join(name), bytes).expect("HARNESS: write");
    }
    /// A result file with these samples of this parameter set.
    fn result(&mut self, list: &[Combo], ks: &[Kind], set: usize, cont: usize) -> String {
        let c = &list[programs()[self.prog].0];
        self.n += 1;
        let w = words(&c.kinds, ks, set, self.n);
        let (ds, _) = (c.make)(&w).expect("HARNESS: parameters");
        let samples = content(self.w, cont);
        let text = format!("{}{}", head(c, &w), samples.iter().map(|e| line(self.w, e)).collect::<String>());
        // file names in an order that differs from the order of creation
        let name = match self.n {
            2 => format!("a{}", ds.file("RTS")),
            3 => "0.txt".to_string(),
            n => format!("{}{}", n, ds.file("RTS")),
        };
        self.put(&name, text.as_bytes());
        self.add(c, ks, &w, &samples);
        name
    }
    fn add(&mut self, c: &Combo, ks: &[Kind], w: &[Vec<String>; 5], samples: &[Ens]) {
        let (ds, _) = (c.make)(w).expect("HARNESS: parameters");
        let file = ds.file_removed("PRE_");
        match self.groups.iter_mut().find(|g| g.file == file) {
            Some(g) => g.samples.extend(samples.iter().cloned()),
            None => self.groups.push(Group { file, key: key(&c.kinds, ks, w), samples: samples.to_vec() }),
        }
    }
    fn job(&self, b: &Binning) -> impl FnOnce() -> Result<(), String> + Send + 'static {
        let args = arguments(self.w, b, &self.dir);
        let f = programs()[self.prog].1;
        let w = self.w;
        move || f(w, &args, "PRE_").map_err(|e| format!("{:?}", e))
    }
    fn root(&self) -> String {
        self.dir.to_string_lossy().into_owned()
    }
    /// The output in the new directory, as it has to be?
    fn output(&self, list: &[Combo], b: &Binning, name: &str) -> Result<(), (String, String)> {
        check_output(self.w, b, &(list[programs()[self.prog].0].form)(15), &self.groups, &self.dir.join(name))
    }
}

const JUNK: usize = 11;

/// A file (or directory) that is not a result of this program.
fn junk(c: &mut Case, list: &[Combo], ks: &[Kind], kind: usize) -> String {
    let prog = programs()[c.prog].0;
    let combo = &list[prog];
    let good = format!("{}{}", head(combo, &words(&combo.kinds, ks, 0, 9)), content(c.w, 2).iter().map(|e| line(c.w, e)).collect::<String>());
    c.n += 1;
    let name = format!("{}{}.dat", ["5", "Z", "_junk"][kind % 3], c.n);
    let lines: Vec<&str> = good.lines().collect();
    let bytes: Vec<u8> = match kind {
        0 => b"notes\nof the user\n1.5\n2.5\n".to_vec(),
        1 => vec![],
        2 => (0..4000u32).map(|i| (i * 7919 % 256) as u8).collect(),
        3 => {
            std::fs::create_dir_all(c.dir.join(&name)).expect("HARNESS: directory");
            std::fs::write(c.dir.join(&name).join("inner.dat"), &good).expect("HARNESS: write");
            return format!("directory {} with a result", name);
        }
        // header of another program: another run kind, another clock
        4 => {
            let mut k = combo.kinds;
            k[4] = if k[4] == 10 { 12 } else { 10 };
            let o = list.iter().find(|x| x.kinds == k).expect("HARNESS: combination");
            format!("{}3\n", head(o, &words(&o.kinds, ks, 0, 1))).into_bytes()
        }
        5 => {
            let mut k = combo.kinds;
            k[0] = (k[0] + 1) % 3;
            let o = list.iter().find(|x| x.kinds == k).expect("HARNESS: combination");
            format!("{}3\n", head(o, &words(&o.kinds, ks, 0, 1))).into_bytes()
        }
        // the header without one of its lines
        6 => lines.iter().enumerate().filter(|(i, _)| *i != 3).map(|x| format!("{}\n", x.1)).collect::<String>().into_bytes(),
        // cut in the header, at a line
        7 => lines[..6].iter().map(|x| format!("{}\n", x)).collect::<String>().into_bytes(),
        // a malformed value
        8 => good.replacen(": ", ": x", 3).into_bytes(),
        // empty lines in front
        9 => format!("\n\n{}", good).into_bytes(),
        // a single very long line
        _ => vec![b'1'; 100_000],
    };
    c.put(&name, &bytes);
    format!("{} ({} bytes, kind {})", name, bytes.len(), kind)
}

fn verdict(run: &mut Run, c: &Case, list: &[Combo], b: &Binning, before: &BTreeMap<String, Option<Vec<u8>>>, r: &Result<Result<(), String>, String>) -> Option<String> {
    let after = tree(&c.dir);
    let dirs = match fresh(before, &after) {
        Ok(d) => d,
        Err(m) => {
            run.fail("changed", m);
            return None;
        }
    };
    match r {
        Err(p) => run.fail("panic", format!("the analysis panicked: {}", p)),
        Ok(Err(e)) => run.fail("refused", format!("the analysis of {:?} failed: {}", before.keys().collect::<Vec<_>>(), e)),
        Ok(Ok(())) => {
            if run.ensure(dirs.len() == 1, "directory", || format!("new directories {:?}", dirs)) {
                match c.output(list, b, &dirs[0]) {
                    Ok(()) => {}
                    Err((k, m)) => run.fail(&k, m),
                }
                return Some(dirs[0].clone());
            }
        }
    }
    None
}

fn which(i: usize) -> Which {
    [Which::Time, Which::Vec(2), Which::Process, Which::Vec(1), Which::Vec(3)][i]
}

fn main() {
    mute_stdout();
    let mut c = Check::new("C18");
    c.assume("the file system behaves as the faults and short operations enumerated; files that change while they are read, and concurrent deletion of the directory, are out of scope");
    c.assume("fault injection and scheduling at the C library's open, mkdir, read, write, opendir, readdir, rename, unlink, rmdir, link, truncate");

    let menu: Vec<(usize, usize)> = c.q(vec![(0, 2), (0, 3), (1, 2), (2, 4), (0, 0)], vec![(0, 1), (0, 2), (0, 3), (1, 1), (1, 2), (2, 4), (2, 2), (0, 0)]);
    let orders_all = |n: usize| -> Vec<Vec<usize>> {
        let mut v: Vec<Vec<usize>> = vec![vec![]];
        for k in 0..n {
            v = v.into_iter().flat_map(|p| (0..n - k).map(move |i| { let mut q = p.clone(); q.push(i); q })).collect();
        }
        v
    };
    let maxf = c.q(3usize, 4);
    let m1 = menu.clone();
    c.family(
        "pool",
        &format!("all lists of up to {} result files over {} (parameter set, content) pairs, an optional foreign object, all orders of the directory entries (3 of them for 4 files), 3 analyses (Vec with 1, 2, 3 variables), 3 binnings, 2 keys of the hash map", maxf, menu.len()),
        move |run| {
            let (ks, list) = (kinds(), combos());
            let prog = run.pick(run.q(2, 4));
            let w = which(run.pick(run.q(3, 5)));
            let mut c = Case::new(prog, w, "pool");
            let n = run.pick(maxf + 1);
            let mut names = vec![];
            let mut last = 0;
            for _ in 0..n {
                // files are interchangeable up to their place in the directory, which is enumerated below
                let i = last + run.pick(m1.len() - last);
                last = i;
                names.push(c.result(&list, &ks, m1[i].0, m1[i].1));
            }
            let entries = n + 1;
            if n < 2 || run.flag() {
                let k = if n == 0 { 1 + run.pick(JUNK) } else { n * 3 % JUNK + 1 };
                names.push(junk(&mut c, &list, &ks, k % JUNK));
            }
            let o = if n >= 4 { vec![vec![], vec![4, 3, 2, 1], vec![2, 0, 1]] } else { orders_all(entries) };
            let order = run.of(&o);
            let b = binnings()[(n + order.iter().sum::<usize>() + prog) % 3];
            let key = (last % 2) as u8 + 1;
            let before = tree(&c.dir);
            run.note(|| format!("{:?} {:?} {:?} order {:?}: {:?}", w, b, prog, order, names));
            run.step();
            let (r, ops) = shim::under(&c.root(), Plan { order, key, ..Default::default() }, c.job(&b));
            let d = verdict(run, &c, &list, &b, &before, &r);
            run.ensure(!ops.iter().any(|o| o.kind == shim::Kind::Destroy), "destroy", || format!("{:?}", ops));
            if let Some(d) = d {
                run.observe(&tree(&c.dir.join(d)));
            }
        },
    );

    c.family(
        "names",
        "one of two result files has an unusual name (hidden, no extension, several dots, blanks, quotes, other alphabets, bytes that are no text, 255 bytes, the name of an analysis or of its summary) or is a symbolic link, a hard link, or not writable; a link to a directory with a result lies beside; the directory is given plainly, with a slash, with dots, through a link",
        |run| {
            use std::os::unix::ffi::OsStrExt;
            use std::os::unix::fs::PermissionsExt;
            let (ks, list) = (kinds(), combos());
            let w = which(run.pick(3));
            let mut c = Case::new(0, w, "names");
            let long = "n".repeat(255);
            let names: [&[u8]; 17] = [b".hidden", b"result", b"a.b.c.dat", b"with blank.dat", b" lead", b"'quoted\".dat", "\u{c785}\u{c790}.dat".as_bytes(), b"not\xfftext.dat", long.as_bytes(), b"analysis_20200101", b"analysis_20200101_2", b"brief_result.dat", b"x.dat~", b"x.bak", b"-n", b"line\nbreak", b"linear_distribution"];
            let name = names[run.pick(names.len())];
            let form = run.pick(5);
            let how = run.pick(5);
            c.result(&list, &ks, 0, 2);
            let f = c.result(&list, &ks, 0, 3);
            let store = thread_scratch("store");
            let _ = std::fs::remove_dir_all(&store);
            std::fs::create_dir_all(&store).expect("HARNESS: directory");
            let to = c.dir.join(std::ffi::OsStr::from_bytes(name));
            let from = c.dir.join(&f);
            match form {
                0 | 4 => std::fs::rename(&from, &to).expect("HARNESS: rename"),
                1 => {
                    std::fs::rename(&from, store.join("f")).expect("HARNESS: rename");
                    std::os::unix::fs::symlink(store.join("f"), &to).expect("HARNESS: link");
                }
                2 => {
                    std::fs::hard_link(&from, store.join("g")).expect("HARNESS: link");
                    std::fs::rename(&from, &to).expect("HARNESS: rename");
                }
                _ => {
                    std::fs::rename(&from, &to).expect("HARNESS: rename");
                    std::fs::set_permissions(&to, std::fs::Permissions::from_mode(0o444)).expect("HARNESS: permissions");
                }
            }
            if form == 4 {
                // a directory elsewhere, with a result in it
                let combo = &list[programs()[0].0];
                let text = format!("{}{}", head(combo, &words(&combo.kinds, &ks, 0, 7)), content(w, 2).iter().map(|e| line(w, e)).collect::<String>());
                std::fs::write(store.join("inner.dat"), text).expect("HARNESS: write");
                std::os::unix::fs::symlink(&store, c.dir.join("elsewhere")).expect("HARNESS: link");
            }
            let b = binnings()[how % 2];
            let mut args = arguments(w, &b, &c.dir);
            let d = c.root();
            let last = args.last_mut().unwrap();
            match how {
                0 => {}
                1 => *last = format!("{}/", d),
                2 => *last = format!("{}/.", d),
                3 => *last = format!("{}/../{}", d, c.dir.file_name().unwrap().to_string_lossy()),
                _ => {
                    let l = store.join("way");
                    std::os::unix::fs::symlink(&c.dir, &l).expect("HARNESS: link");
                    *last = l.to_string_lossy().into_owned();
                }
            }
            let before = tree(&c.dir);
            run.note(|| format!("{:?} {:?} form {} {:?}", w, String::from_utf8_lossy(name), form, args));
            run.step();
            let r = catch(|| programs()[0].1(w, &args, "PRE_").map_err(|e| format!("{:?}", e)));
            if let Some(d) = verdict(run, &c, &list, &b, &before, &r) {
                run.observe(&tree(&c.dir.join(d)));
            }
            if form == 3 {
                std::fs::set_permissions(&to, std::fs::Permissions::from_mode(0o644)).expect("HARNESS: permissions");
            }
        },
    );

    let counts: Vec<usize> = c.q(vec![5, 9, 11, 17, 40, 130], vec![5, 6, 8, 9, 10, 11, 16, 17, 33, 40, 65, 101, 130, 260]);
    c.family(
        "many-files",
        &format!("directories of {:?} result files of 1, 2 or 4 parameter sets (in turn or in blocks), with 2 or 20 samples each or a hundred in the first or last one, the entries in order or in reverse; 3 analyses, 2 programs", counts),
        move |run| {
            let (ks, list) = (kinds(), combos());
            let prog = run.pick(2);
            let w = which(run.pick(3));
            let n = run.of(&counts);
            let sets = run.of(&[1usize, 2, 4]);
            let blocks = sets > 1 && run.flag();
            let fill = run.pick(4);
            let back = run.flag();
            let mut c = Case::new(prog, w, "many");
            for i in 0..n {
                let set = if blocks { i * sets / n } else { i % sets };
                let cont = match fill {
                    0 => 2 + i % 2,
                    1 => 20 + i % 3,
                    2 => if i == 0 { 100 } else { 3 },
                    _ => if i + 1 == n { 100 } else { 3 },
                };
                c.result(&list, &ks, set, cont);
            }
            let b = binnings()[n % 2];
            let before = tree(&c.dir);
            run.note(|| format!("{:?} {:?} {} files of {} sets, filling {}", w, b, n, sets, fill));
            run.step();
            let order = if back { (0..n).map(|i| n - 1 - i).collect() } else { vec![] };
            let (r, _) = shim::under(&c.root(), Plan { order, key: 1 + (n % 2) as u8, ..Default::default() }, c.job(&b));
            if let Some(d) = verdict(run, &c, &list, &b, &before, &r) {
                run.observe(&tree(&c.dir.join(d)).len());
            }
        },
    );
    let lines: Vec<usize> = c.q(vec![300, 1030, 3000], vec![100, 255, 256, 257, 300, 511, 513, 1023, 1025, 1030, 2049, 3000, 4097, 10_000, 70_000]);
    c.family(
        "large-files",
        &format!("1 or 2 result files of {:?} samples (beyond every read buffer) next to a small one, of the same or of another set; 3 analyses, 2 programs", lines),
        move |run| {
            let (ks, list) = (kinds(), combos());
            let prog = run.pick(2);
            let w = which(run.pick(3));
            let n = run.of(&lines);
            let shape = run.pick(4);
            let mut c = Case::new(prog, w, "large");
            match shape {
                0 => { c.result(&list, &ks, 0, n); }
                1 => { c.result(&list, &ks, 0, n); c.result(&list, &ks, 0, 2); }
                2 => { c.result(&list, &ks, 0, 3); c.result(&list, &ks, 1, n); }
                _ => { c.result(&list, &ks, 1, n); c.result(&list, &ks, 1, n + 1); c.result(&list, &ks, 0, 2); }
            }
            let b = binnings()[1];
            let before = tree(&c.dir);
            run.note(|| format!("{:?} {} samples, arrangement {}", w, n, shape));
            run.step();
            let (r, _) = shim::under(&c.root(), Plan { key: 1, ..Default::default() }, c.job(&b));
            if let Some(d) = verdict(run, &c, &list, &b, &before, &r) {
                run.observe(&tree(&c.dir.join(d)).len());
            }
        },
    );

    c.family("foreign", "4 programs; one result file and one foreign object: 11 kinds of junk, and a file of each of the 71 other combinations (2 parameter sets), before and after the result file; 3 analyses", move |run| {
        let (ks, list) = (kinds(), combos());
        let prog = run.pick(4);
        let w = which(run.pick(3));
        let mut c = Case::new(prog, w, "foreign");
        let mine = programs()[prog].0;
        let k = run.pick(JUNK + 71 * 2);
        c.result(&list, &ks, 0, 2);
        let what = if k < JUNK {
            junk(&mut c, &list, &ks, k)
        } else {
            let (o, set) = ((k - JUNK) / 2, (k - JUNK) % 2);
            let o = if o >= mine { o + 1 } else { o };
            let text = format!("{}{}", head(&list[o], &words(&list[o].kinds, &ks, set, 1)), content(w, 2).iter().map(|e| line(w, e)).collect::<String>());
            c.put("Foreign.dat", text.as_bytes());
            format!("a file of combination {:?}", list[o].kinds)
        };
        let order = if run.flag() { vec![1] } else { vec![0] };
        let b = binnings()[0];
        let before = tree(&c.dir);
        run.note(|| format!("program {:?}, {:?}: {}", list[mine].kinds, w, what));
        run.step();
        let (r, _) = shim::under(&c.root(), Plan { order, key: 1, ..Default::default() }, c.job(&b));
        verdict(run, &c, &list, &b, &before, &r);
    });
    c.family("headers", "72 combinations: the reader of each refuses the header of each of the 71 others (2 parameter sets), and reads its own", move |run| {
        let (ks, list) = (kinds(), combos());
        let i = run.pick(72);
        let j = run.pick(72);
        let set = run.pick(2);
        let w = words(&list[j].kinds, &ks, set, 3);
        let text = format!("{}1.5\n", head(&list[j], &w));
        let p = thread_scratch("header.dat");
        std::fs::write(&p, &text).expect("HARNESS: write");
        run.step();
        run.note(|| format!("reader {:?}, header {:?}", list[i].kinds, list[j].kinds));
        match catch(|| (list[i].read)(&p).is_ok()) {
            Ok(ok) => {
                run.ensure(ok == (i == j), "header", || format!("reader of {:?} {} the header of {:?}:\n{}", list[i].kinds, if ok { "accepts" } else { "refuses" }, list[j].kinds, text));
            }
            Err(e) => run.fail("panic", e),
        }
    });

    c.family("truncated", "3 analyses, 2 programs: a result file cut at every byte, next to a complete one; the result is the pool of the complete lines (and of the cut number, if it is one), or an error, never a panic", move |run| {
        let (ks, list) = (kinds(), combos());
        let prog = run.pick(2);
        let w = which(run.pick(3));
        let mut c = Case::new(prog, w, "cut");
        c.result(&list, &ks, 0, 3);
        let combo = &list[programs()[prog].0];
        let ws = words(&combo.kinds, &ks, 0, 9);
        let h = head(combo, &ws);
        let samples = content(w, 4);
        let text = format!("{}{}", h, samples.iter().map(|e| line(w, e)).collect::<String>());
        let cut = run.pick(text.len() + 1);
        c.put("cut.dat", text[..cut].as_bytes());
        let b = binnings()[0];
        let before = tree(&c.dir);
        run.note(|| format!("{:?}, cut at {} of {}", w, cut, text.len()));
        run.step();
        let (r, _) = shim::under(&c.root(), Plan { key: 1, order: vec![run.pick(2)], ..Default::default() }, c.job(&b));
        if cut > h.len() {
            let body = &text[h.len()..cut];
            let whole = body.matches('\n').count();
            let tail = body.rsplit('\n').next().unwrap_or("");
            if !tail.is_empty() && tail.trim() != line(w, &samples[whole]).trim() {
                // the last line is cut: a number that is still one is a sample, otherwise the file is refused
                let after = tree(&c.dir);
                if let Err(m) = fresh(&before, &after) {
                    run.fail("changed", m);
                }
                if let Err(p) = &r {
                    run.fail("panic", p.clone());
                }
                let parsed: Option<Ens> = match w {
                    Which::Time => tail.parse().ok().map(|x: f64| vec![(x, x)]),
                    Which::Vec(n) => tail.split_whitespace().map(|x| x.parse().ok().map(|x: f64| (x, x))).collect::<Option<Ens>>().filter(|v| v.len() == n),
                    // a cut pair may lack its closing parenthesis
                    Which::Process => tail.split_whitespace().map(|p| {
                        let v: Vec<f64> = p.replace(['(', ')'], "").split(',').filter_map(|x| x.parse().ok()).collect();
                        if v.len() == 2 && p.matches(',').count() == 1 { Some((v[0], v[1])) } else { None }
                    }).collect(),
                };
                match (parsed, &r) {
                    (None, Ok(Ok(()))) => run.fail("malformed", format!("the malformed line {:?} was accepted", tail)),
                    (Some(e), Ok(Ok(()))) => {
                        let mut s = samples[..whole].to_vec();
                        s.push(e);
                        c.add(combo, &ks, &ws, &s);
                        verdict(run, &c, &list, &b, &before, &r);
                    }
                    _ => {}
                }
                return;
            }
            let n = whole + if tail.is_empty() { 0 } else { 1 };
            c.add(combo, &ks, &ws, &samples[..n]);
        }
        verdict(run, &c, &list, &b, &before, &r);
    });

    c.family("malformed", "3 analyses, each with one data line replaced by each of 8 malformed ones: an error, no panic, and no summary that leaves the line out", move |run| {
        let (ks, list) = (kinds(), combos());
        let w = which(run.pick(3));
        let mut c = Case::new(0, w, "malformed");
        c.result(&list, &ks, 0, 3);
        let combo = &list[programs()[0].0];
        let bad: Vec<&[u8]> = match w {
            Which::Time => vec![b"abc", b"", b"1.5 2.5", b"1,5", b"\xff\xfe", b"1e", b"(1,2)", b"--"],
            Which::Vec(_) => vec![b"abc", b"", b"1.5", b"1 2 3", b"1 x", b"\xff 2", b"1,2", b"- 1"],
            Which::Process => vec![b"abc", b"(1)", b"(1,2,3)", b"(1,x)", b"(1 2)", b"\xff", b"1", b"(,)"],
        };
        let at = run.pick(3);
        let x = run.of(&bad);
        let samples = content(w, 3);
        let mut text = head(combo, &words(&combo.kinds, &ks, 0, 9)).into_bytes();
        for (i, e) in samples.iter().enumerate() {
            if i == at {
                text.extend(x);
                text.push(b'\n');
            } else {
                text.extend(line(w, e).bytes());
            }
        }
        c.put("9.dat", &text);
        let before = tree(&c.dir);
        run.note(|| format!("{:?}, line {} is {:?}", w, at, String::from_utf8_lossy(x)));
        run.step();
        let (r, _) = shim::under(&c.root(), Plan { key: 1, ..Default::default() }, c.job(&binnings()[0]));
        match r {
            Err(p) => run.fail("panic", p),
            Ok(Ok(())) => run.fail("malformed", format!("accepted a result file with the data line {:?}", String::from_utf8_lossy(x))),
            Ok(Err(_)) => {
                if let Err(m) = fresh(&before, &tree(&c.dir)) {
                    run.fail("changed", m);
                }
            }
        }
    });

    c.family("unopenable", "3 analyses, 2 programs: between the result files lies an entry that cannot be opened (a link to nothing, into a missing directory, to itself, to a link to nothing, a socket): an error, no panic, nothing changed; and links that can be opened (to a result, to a directory, to foreign text) are what they lead to", move |run| {
        let (ks, list) = (kinds(), combos());
        let prog = run.pick(2);
        let w = which(run.pick(3));
        let mut c = Case::new(prog, w, "unopenable");
        c.result(&list, &ks, 0, 3);
        if run.flag() {
            c.result(&list, &ks, 1, 2);
        }
        let name = run.of(&["0link.dat", "zz", "RTS_link.dat", ".hidden"]);
        let p = c.dir.join(name);
        let away = thread_scratch("elsewhere");
        let _ = std::fs::remove_dir_all(&away);
        std::fs::create_dir_all(&away).expect("HARNESS: directory");
        let link = |to: &Path| std::os::unix::fs::symlink(to, &p).expect("HARNESS: link");
        let combo = &list[programs()[prog].0];
        let ws = words(&combo.kinds, &ks, 0, 9);
        let kind = run.pick(8);
        match kind {
            0 => link(&away.join("nothing.dat")),
            1 => link(&away.join("missing").join("x.dat")),
            2 => link(&p),
            3 => {
                std::os::unix::fs::symlink(away.join("nothing.dat"), away.join("l")).expect("HARNESS: link");
                link(&away.join("l"));
            }
            4 => {
                // the path of a socket is short: bind by a short name and move it here
                let s = std::path::PathBuf::from(format!("/tmp/mcheck-{}-{:?}.s", std::process::id(), std::thread::current().id()).replace(['(', ')'], ""));
                let _ = std::fs::remove_file(&s);
                let l = std::os::unix::net::UnixListener::bind(&s).expect("HARNESS: socket");
                drop(l);
                if std::fs::rename(&s, &p).is_err() {
                    // another file system
                    let _ = std::fs::remove_file(&s);
                    return;
                }
            }
            5 => {
                let samples = content(w, 2);
                std::fs::write(away.join("r.dat"), format!("{}{}", head(combo, &ws), samples.iter().map(|e| line(w, e)).collect::<String>())).expect("HARNESS: write");
                link(&away.join("r.dat"));
                c.add(combo, &ks, &ws, &samples);
            }
            6 => {
                std::fs::create_dir_all(away.join("sub")).expect("HARNESS: directory");
                std::fs::write(away.join("sub").join("r.dat"), head(combo, &ws)).expect("HARNESS: write");
                link(&away.join("sub"));
            }
            _ => {
                std::fs::write(away.join("notes"), b"notes\n1.5\n").expect("HARNESS: write");
                link(&away.join("notes"));
            }
        }
        let n = 2 + c.groups.len().min(2) - 1;
        let order = vec![run.pick(n)];
        let before = tree(&c.dir);
        let elsewhere = tree(&away);
        let b = binnings()[0];
        run.note(|| format!("{:?}, entry {} of kind {}", w, name, kind));
        run.step();
        let (r, _) = shim::under(&c.root(), Plan { order, key: 1, ..Default::default() }, c.job(&b));
        run.ensure(tree(&away) == elsewhere, "changed", || format!("what {} leads to was changed: {:?}", name, tree(&away).keys()));
        if kind >= 5 {
            verdict(run, &c, &list, &b, &before, &r);
            return;
        }
        match r {
            Err(p) => run.fail("panic", p),
            Ok(Ok(())) => run.fail("left-out", format!("the entry {} (kind {}) cannot be opened, and the analysis does not say so", name, kind)),
            Ok(Err(_)) => {
                if let Err(m) = fresh(&before, &tree(&c.dir)) {
                    run.fail("changed", m);
                }
            }
        }
    });
    let nvar = c.q(vec![1usize, 2, 3, 5, 9, 10, 11, 12, 17, 33], vec![1usize, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 17, 32, 33, 65, 129]);
    c.family("vectors", &format!("vectors of {:?} variables, 2 binnings: one variable, or it and the last one, alone in a bin in the first, middle or last file, the others in another bin or outside", nvar), move |run| {
        let (ks, list) = (kinds(), combos());
        let n = run.of(&nvar);
        let w = Which::Vec(n);
        let mut c = Case::new(0, w, "vectors");
        let i = run.pick(n);
        let j = if run.flag() { n - 1 } else { i };
        let b = binnings()[run.pick(2)];
        let apart = [b.min() + 0.4 * b.size(), b.max() - 0.4 * b.size()][run.pick(2)];
        let rest = [b.min() + 3.4 * b.size(), b.max() * 2.0][run.pick(2)];
        let e: Ens = (0..n).map(|k| if k == i || k == j { (apart, apart) } else { (rest, rest) }).collect();
        let other: Ens = (0..n).map(|_| (rest, rest)).collect();
        let at = run.pick(3);
        let combo = &list[programs()[0].0];
        for f in 0..3 {
            let ws = words(&combo.kinds, &ks, 0, f + 1);
            let samples = if f == at { vec![e.clone()] } else { vec![other.clone(), other.clone()] };
            c.put(&format!("r{}.dat", f), format!("{}{}", head(combo, &ws), samples.iter().map(|e| format!("{}\n", e.iter().map(|x| format!("{:?}", x.0)).collect::<Vec<_>>().join(" "))).collect::<String>()).as_bytes());
            c.add(combo, &ks, &ws, &samples);
        }
        let before = tree(&c.dir);
        run.note(|| format!("{:?} {:?} variables {} and {} at {}, the others at {}", w, b, i, j, apart, rest));
        run.step();
        let (r, _) = shim::under(&c.root(), Plan { key: 1, ..Default::default() }, c.job(&b));
        verdict(run, &c, &list, &b, &before, &r);
    });
    let earlier: Vec<usize> = c.q(vec![1, 2, 3, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 31, 32, 33, 63, 64, 65, 98, 99, 100, 101, 127, 128, 129, 254, 255, 256, 257, 300], vec![1, 2, 3, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 31, 32, 33, 63, 64, 65, 98, 99, 100, 101, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513, 998, 999, 1000, 1001, 1023, 1024, 1025, 2000]);
    c.family("many-analyses", &format!("3 analyses: {:?} earlier analyses of the day (all of them, or all but the third, or files in their place): a new directory, complete and right, the earlier ones as they were", earlier), move |run| {
        let (ks, list) = (kinds(), combos());
        let w = which(run.pick(3));
        let n = run.of(&earlier);
        let gap = run.pick(3);
        let mut c = Case::new(0, w, "earlier");
        c.result(&list, &ks, 0, 3);
        c.result(&list, &ks, 1, 2);
        let d = today();
        for k in 1..=n {
            let name = if k == 1 { d.clone() } else { format!("{}_{}", d, k) };
            match gap {
                1 if k == 3 => {}
                2 => c.put(&name, b"occupied"),
                _ => {
                    std::fs::create_dir_all(c.dir.join(&name).join("linear_distribution")).expect("HARNESS: directory");
                    std::fs::write(c.dir.join(&name).join("brief_result.dat"), b"older").expect("HARNESS: write");
                }
            }
        }
        let b = binnings()[1];
        let before = tree(&c.dir);
        run.note(|| format!("{:?} {} earlier analyses, arrangement {}", w, n, gap));
        run.step();
        let (r, _) = shim::under(&c.root(), Plan { key: 1, ..Default::default() }, c.job(&b));
        if today() == d {
            verdict(run, &c, &list, &b, &before, &r);
        }
    });

    let big: Vec<(usize, usize)> = c.q(
        vec![(0, 1001), (0, 5000), (0, 70_001), (1, 5000), (1, 70_001), (2, 20_001), (2, 70_001), (3, 1001), (3, 20_001), (4, 301), (4, 1030), (5, 101), (5, 300), (6, 257), (6, 1001), (6, 3100)],
        vec![(0, 1001), (0, 5000), (0, 70_001), (0, 500_000), (1, 5000), (1, 70_001), (2, 20_001), (2, 70_001), (2, 200_000), (3, 1001), (3, 20_001), (3, 150_000), (4, 301), (4, 1030), (4, 5000), (5, 101), (5, 300), (5, 1100), (6, 257), (6, 1001), (6, 4100)],
    );
    c.family("large", &format!("3 analyses; (what, how many) of {:?}: 0 bins by number, 1 bins by size, 2 lines of one file, 3 entries of one line (processes), 4 files, 5 parameter sets, 6 variables (vectors)", big), move |run| {
        let (ks, list) = (kinds(), combos());
        let (what, n) = run.of(&big);
        let w = match what {
            3 => Which::Process,
            6 => Which::Vec(n),
            _ => which(run.pick(3)),
        };
        let mut c = Case::new(0, w, "large");
        let combo = &list[programs()[0].0];
        let b = match what {
            0 => Binning::Num(1.0, 11.0, n),
            1 => Binning::Size(1.0, 11.0, 10.0 / n as f64, 11f64.powf(1.0 / n as f64)),
            _ => binnings()[run.pick(2)],
        };
        // places inside bins only
        let at = |i: usize| b.min() + ((i * 37 % 12) as f64 + 0.37) * b.size() * if what < 2 { (n / 13) as f64 } else { 1.0 };
        let mut put = |c: &mut Case, name: String, set: usize, samples: &[Ens]| {
            let ws = words(&combo.kinds, &ks, set, c.n);
            c.n += 1;
            let cell = |x: &(f64, f64)| if w == Which::Process { format!("({:?},{:?})", x.0, x.1) } else { format!("{:?}", x.0) };
            let lines: String = samples.iter().map(|e| format!("{}\n", e.iter().map(cell).collect::<Vec<_>>().join(" "))).collect();
            c.put(&name, format!("{}{}", head(combo, &ws), lines).as_bytes());
            c.add(combo, &ks, &ws, samples);
        };
        let ens = |i: usize| -> Ens {
            match w {
                Which::Process => vec![(at(i), 0.5 + (i % 7) as f64), (at(i + 5), -1.0)],
                _ => (0..num_var(w)).map(|k| at(i + 3 * k + k / 12)).map(|x| (x, x)).collect(),
            }
        };
        match what {
            2 => put(&mut c, "all.dat".into(), 0, &(0..n).map(ens).collect::<Vec<_>>()),
            3 => put(&mut c, "all.dat".into(), 0, &[(0..n).map(|i| (at(i), (i % 5) as f64)).collect::<Ens>(), ens(1)]),
            4 => (0..n).for_each(|i| put(&mut c, format!("{}.dat", i), i % 2, &[ens(i)])),
            5 => (0..n).for_each(|i| put(&mut c, format!("{}.dat", i), 3 + i, &[ens(i), ens(i + 1)])),
            _ => (0..3).for_each(|i| put(&mut c, format!("{}.dat", i), 0, &(0..6).map(|j| ens(6 * i + j)).collect::<Vec<_>>())),
        }
        let before = tree(&c.dir);
        run.note(|| format!("{:?} {:?} {} of kind {}", w, b, n, what));
        run.step();
        let (r, _) = shim::under(&c.root(), Plan { key: 1, ..Default::default() }, c.job(&b));
        verdict(run, &c, &list, &b, &before, &r);
    });
    let most = c.q(3usize, 4);
    c.family(
        "lines",
        &format!("one or two result files of one or two parameter sets with all sequences of up to {} (first) and 2 (second) lines: complete, without a number, with an entry less or more; the number of components given or left open (0); both orders of the entries", most),
        move |run| {
            let (ks, list) = (kinds(), combos());
            let w = run.of(&[Which::Time, Which::Vec(2), Which::Process]);
            let open = w == Which::Vec(2) && run.flag();
            let two = run.flag();
            let apart = two && run.flag();
            let order = if two { run.pick(2) } else { 0 };
            let combo = &list[programs()[0].0];
            let mut c = Case::new(0, w, "lines");
            // numbers of entries of the lines of each set
            let mut lens: [Vec<usize>; 2] = Default::default();
            let mut k = 0usize;
            for i in 0..1 + two as usize {
                let n = 1 + run.pick(if i == 0 { most } else { 2 });
                let set = if apart { i } else { 0 };
                let mut samples = vec![];
                for _ in 0..n {
                    let len = match w {
                        Which::Time => run.of(&[1usize, 0, 2]),
                        Which::Vec(_) => run.of(&[2usize, 0, 1, 3]),
                        Which::Process => run.of(&[2usize, 0, 1]),
                    };
                    k += 1;
                    lens[set].push(len);
                    samples.push((0..len).map(|j| (1.37 + ((3 * k + 2 * j) % 9) as f64, if w == Which::Process { 0.5 * k as f64 - j as f64 } else { 1.37 + ((3 * k + 2 * j) % 9) as f64 })).collect::<Ens>());
                }
                let ws = words(&combo.kinds, &ks, set, i);
                let cell = |x: &(f64, f64)| if w == Which::Process { format!("({:?},{:?})", x.0, x.1) } else { format!("{:?}", x.0) };
                let lines: String = samples.iter().map(|e| format!("{}\n", e.iter().map(cell).collect::<Vec<_>>().join(" "))).collect();
                c.put(&format!("{}.dat", i), format!("{}{}", head(combo, &ws), lines).as_bytes());
                c.add(combo, &ks, &ws, &samples);
            }
            let used: Vec<&Vec<usize>> = lens.iter().filter(|l| !l.is_empty()).collect();
            let even = |n: usize| used.iter().all(|l| l.iter().all(|&x| x == n));
            let alike = used.iter().all(|l| l.iter().all(|&x| x == l[0]));
            // lines without numbers only, with an open number of components: not decided
            let undecided = open && used.iter().any(|l| l.iter().all(|&x| x == 0));
            let good = match w {
                Which::Time => even(1),
                Which::Vec(n) => if open { alike } else { even(n) },
                Which::Process => true,
            };
            let b = binnings()[0];
            let mut args = arguments(w, &b, &c.dir);
            if open {
                args[0] = "0".to_string();
            }
            let before = tree(&c.dir);
            run.note(|| format!("{:?} open {} lines of {:?} entries, order {}", w, open, lens, order));
            run.step();
            let f = programs()[0].1;
            let (r, _) = shim::under(&c.root(), Plan { key: 1, order: vec![order], ..Default::default() }, move || f(w, &args, "PRE_").map_err(|e| format!("{:?}", e)));
            run.observe(&(good, undecided, r.is_ok(), &lens));
            if !good {
                run.ensure(matches!(r, Ok(Err(_))), "malformed-line", || format!("{:?} open {}: result files with lines of {:?} entries are analysed: {:?}", w, open, lens, r));
                let diff = fresh(&before, &tree(&c.dir));
                run.ensure(diff.is_ok(), "changed", || format!("{:?}", diff));
            } else if !undecided {
                if open {
                    c.w = Which::Vec(used[0][0]);
                }
                if open && used.iter().any(|l| l[0] != used[0][0]) {
                    run.ensure(matches!(r, Ok(Ok(()))), "refused", || format!("parameter sets with {:?} components are not analysed: {:?}", lens, r));
                } else {
                    verdict(run, &c, &list, &b, &before, &r);
                }
            }
        },
    );
    let depth = c.q(4usize, 5);
    c.family(
        "history",
        &format!("all sequences of {} steps, each one of: write a result of set 0, of set 1, write a foreign object, occupy the next analysis name with a file, with a directory, analyse (3 analyses, 2 binnings)", depth),
        move |run| {
            let (ks, list) = (kinds(), combos());
            let prog = run.pick(run.q(1, 2));
            let mut c = Case::new(prog, Which::Time, "history");
            let mut hist = vec![];
            let mut date: Option<String> = None;
            for s in 0..depth {
                let op = if s + 1 == depth { 5 + run.pick(4) } else { run.pick(9) };
                match op {
                    0 | 1 => hist.push(c.result(&list, &ks, op, 2 + op)),
                    2 => hist.push(junk(&mut c, &list, &ks, s * 3 % JUNK)),
                    3 | 4 => {
                        // the name of today's directory, learnt from an analysis elsewhere
                        let d = date.get_or_insert_with(today).clone();
                        let mut k = 1;
                        let name = loop {
                            let n = if k == 1 { d.clone() } else { format!("{}_{}", d, k) };
                            if !c.dir.join(&n).exists() {
                                break n;
                            }
                            k += 1;
                        };
                        if op == 3 {
                            c.put(&name, b"occupied");
                        } else {
                            std::fs::create_dir_all(c.dir.join(&name).join("linear_distribution")).expect("HARNESS: directory");
                            let brief = if c.w == Which::Process { "brief_data.dat" } else { "brief_result.dat" };
                            std::fs::write(c.dir.join(&name).join(brief), b"older").expect("HARNESS: write");
                        }
                        hist.push(format!("occupy {}", name));
                    }
                    _ => {
                        // the same data under another analysis is another matter: processes and times differ in format
                        let b = binnings()[(op - 5) % 2];
                        let before = tree(&c.dir);
                        hist.push(format!("analyse {:?}", b));
                        run.step();
                        let (r, ops) = shim::under(&c.root(), Plan { key: op as u8, order: vec![(op - 5) / 2], ..Default::default() }, c.job(&b));
                        verdict(run, &c, &list, &b, &before, &r);
                        run.ensure(!ops.iter().any(|o| o.kind == shim::Kind::Destroy), "destroy", || format!("{:?}", ops));
                    }
                }
                run.state(&tree(&c.dir).keys().map(|k| if analysis_name(k) { "A".to_string() } else { k.clone() }).collect::<Vec<_>>());
                if run.failed() {
                    run.note(|| format!("{:?}", hist));
                    return;
                }
            }
            run.note(|| format!("{:?}", hist));
        },
    );

    // faults
    fn loaded(prog: usize, w: Which, list: &[Combo], ks: &[Kind]) -> Case {
        let mut c = Case::new(prog, w, "fault");
        c.result(list, ks, 0, 2);
        c.result(list, ks, 1, 3);
        c.result(list, ks, 0, 1);
        junk(&mut c, list, ks, 0);
        // an earlier analysis
        let d = c.dir.join(today());
        std::fs::create_dir_all(&d).expect("HARNESS: directory");
        std::fs::write(d.join("brief_result.dat"), b"older").expect("HARNESS: write");
        c
    }
    fn count(prog: usize, w: Which, b: &Binning, list: &[Combo], ks: &[Kind]) -> Vec<shim::Op> {
        static MEMO: Mutex<BTreeMap<(usize, String), Vec<shim::Op>>> = Mutex::new(BTreeMap::new());
        let key = (prog, format!("{:?}{:?}", w, b));
        if let Some(v) = MEMO.lock().unwrap().get(&key) {
            return v.clone();
        }
        let c = loaded(prog, w, list, ks);
        let (_, ops) = shim::under(&c.root(), Plan { key: 1, ..Default::default() }, c.job(b));
        MEMO.lock().unwrap().insert(key, ops.clone());
        ops
    }
    fn inside(ops: &[shim::Op], c: &Case) -> Result<(), String> {
        // every change is made below a directory that this run created (so it holds at every point of a crash)
        let mut made: Vec<String> = vec![];
        for o in ops {
            match o.kind {
                shim::Kind::Mkdir if o.fault.is_none() => {
                    let rel = o.path.strip_prefix(&c.root()).unwrap_or("").trim_start_matches('/').to_string();
                    if !rel.is_empty() && !rel.contains('/') && !analysis_name(&rel) {
                        return Err(format!("created {}", o.path));
                    }
                    made.push(o.path.clone());
                }
                shim::Kind::OpenWrite | shim::Kind::Write => {
                    let rel = o.path.strip_prefix(&c.root()).unwrap_or("").trim_start_matches('/').to_string();
                    let top = rel.split('/').next().unwrap_or("");
                    if !rel.contains('/') || !analysis_name(top) || !made.iter().any(|m| m.ends_with(top)) || c.dir.join(top).join("brief_result.dat").metadata().map_or(false, |m| m.len() == 5) && top == today() {
                        return Err(format!("{:?} {}", o.kind, o.path));
                    }
                }
                shim::Kind::Destroy => return Err(o.path.clone()),
                _ => {}
            }
        }
        Ok(())
    }
    let nprog = c.q(1, 4);
    let nwhich = 3;
    c.family(
        "fault",
        &format!("{} programs, 3 analyses, {} binnings: every operation on a file or directory fails with each of its errors or is cut short or interrupted; a success means a complete and right result, interruptions and short operations are survived", nprog, c.q(1, 2)),
        move |run| {
            let (ks, list) = (kinds(), combos());
            let prog = run.pick(nprog);
            let w = which(run.pick(nwhich));
            let b = binnings()[run.pick(run.q(1, 2))];
            let ops = count(prog, w, &b, &list, &ks);
            let k = run.pick(ops.len());
            let f = run.of(ops[k].kind.faults());
            let c = loaded(prog, w, &list, &ks);
            let before = tree(&c.dir);
            run.step();
            let (r, log) = shim::under(&c.root(), Plan { key: 1, at: Some((k, f)), ..Default::default() }, c.job(&b));
            run.note(|| format!("{:?}, operation {} of {}: {:?} meets {:?} -> {:?}", w, k, ops.len(), ops[k], f, r));
            judge(run, &c, &list, &b, &before, &r, log.get(k).map_or(true, |o| o.fault.is_none()) || f.transparent());
            if let Err(m) = inside(&log, &c) {
                run.fail("changed", m);
            }
            run.observe(&matches!(r, Ok(Ok(()))));
        },
    );
    /// After a run under faults: an `Ok` has to be right, an error is acceptable unless `must`.
    fn judge(run: &mut Run, c: &Case, list: &[Combo], b: &Binning, before: &BTreeMap<String, Option<Vec<u8>>>, r: &Result<Result<(), String>, String>, must: bool) {
        if must || matches!(r, Ok(Ok(()))) || r.is_err() {
            verdict(run, c, list, b, before, r);
        } else {
            match fresh(before, &tree(&c.dir)) {
                Err(m) => run.fail("changed", m),
                Ok(d) => {
                    run.ensure(d.len() <= 1, "directory", || format!("{:?}", d));
                }
            }
        }
    }
    c.family(
        "two-faults",
        "the Time analysis: two operations are cut short or interrupted (all pairs of operations, steps of 4 in quick)",
        move |run| {
            let (ks, list) = (kinds(), combos());
            let w = Which::Time;
            let b = binnings()[0];
            let ops = count(0, w, &b, &list, &ks);
            let step = run.q(4, 1);
            let k = run.pick((ops.len() + step - 1) / step) * step;
            let fs: Vec<Fault> = ops[k].kind.faults().iter().copied().filter(|f| f.transparent()).collect();
            if fs.is_empty() {
                return;
            }
            let f = run.of(&fs);
            // everything after the second point fails: the program was killed there
            let d = k + 1 + run.pick((ops.len() - k + step - 1) / step) * step;
            let c = loaded(0, w, &list, &ks);
            let before = tree(&c.dir);
            run.step();
            let (r, log) = shim::under(&c.root(), Plan { key: 1, at: Some((k, f)), dead: Some(d), ..Default::default() }, c.job(&b));
            run.note(|| format!("operation {} meets {:?}, dead from {}: {:?}", k, f, d, r));
            judge(run, &c, &list, &b, &before, &r, log.len() <= d);
        },
    );
    c.family(
        "crash",
        &format!("{} programs, 3 analyses: the run is cut off before every operation (all later ones fail); the results and earlier analyses are unchanged, the cut run reports an error, and the next run is complete and right in a fresh directory", nprog),
        move |run| {
            let (ks, list) = (kinds(), combos());
            let prog = run.pick(nprog);
            let w = which(run.pick(nwhich));
            let b = binnings()[0];
            let ops = count(prog, w, &b, &list, &ks);
            let d = run.pick(ops.len() + 1);
            let c = loaded(prog, w, &list, &ks);
            let before = tree(&c.dir);
            run.step();
            let (r, log) = shim::under(&c.root(), Plan { key: 1, dead: Some(d), ..Default::default() }, c.job(&b));
            run.note(|| format!("{:?}, cut before operation {} of {}", w, d, ops.len()));
            judge(run, &c, &list, &b, &before, &r, log.len() <= d);
            if let Err(m) = inside(&log, &c) {
                run.fail("changed", m);
            }
            let between = tree(&c.dir);
            let (r, _) = shim::under(&c.root(), Plan { key: 2, ..Default::default() }, c.job(&b));
            verdict(run, &c, &list, &b, &between, &r);
        },
    );

    // schedules
    for (name, kinds_of, threads) in [
        ("two-at-once", vec![shim::Kind::Mkdir, shim::Kind::OpenWrite], 2usize),
        ("three-at-once", vec![shim::Kind::Mkdir], 3),
    ] {
        if threads == 3 && !c.thorough {
            continue;
        }
        let kinds_of2 = kinds_of.clone();
        c.family(name, &format!("{} analyses of one directory at the same time, all interleavings of their operations {:?} (first 9 scheduling decisions of three threads), with and without an earlier analysis", threads, kinds_of), move |run| {
            let (ks, list) = (kinds(), combos());
            let b = [binnings()[0], binnings()[1], binnings()[0]];
            let w = if threads == 2 { which(run.pick(run.q(1, 3))) } else { Which::Time };
            let mut c = Case::new(0, w, "sched");
            c.result(&list, &ks, 0, 2);
            if run.flag() {
                std::fs::create_dir_all(c.dir.join(today())).expect("HARNESS: directory");
            }
            let before = tree(&c.dir);
            let gate = Gate::new(threads);
            let handles: Vec<_> = (0..threads).map(|i| shim::start(&c.root(), Plan { key: 1, gate: Some((gate.clone(), i, kinds_of2.clone())), ..Default::default() }, c.job(&b[i]))).collect();
            let mut order = vec![];
            loop {
                let ready = gate.settled();
                if ready.is_empty() {
                    break;
                }
                let i = if threads == 3 && order.len() >= 9 { ready[0] } else { run.of(&ready) };
                order.push(i);
                run.step();
                gate.release(i);
            }
            let rs: Vec<_> = handles.into_iter().map(|h| h.join().expect("HARNESS: thread")).collect();
            run.note(|| format!("{:?}: schedule {:?}", w, order));
            let after = tree(&c.dir);
            let dirs = match fresh(&before, &after) {
                Ok(d) => d,
                Err(m) => return run.fail("changed", m),
            };
            for (r, _) in &rs {
                match r {
                    Ok(Ok(())) => {}
                    Ok(Err(e)) => run.fail("refused", format!("an analysis failed: {}", e)),
                    Err(p) => run.fail("panic", p.clone()),
                }
            }
            if run.ensure(dirs.len() == threads, "shared", || format!("{} analyses made the directories {:?} (schedule {:?})", threads, dirs, order)) && !run.failed() {
                // each directory holds the complete result of one of them
                let mut left: Vec<&Binning> = b[..threads].iter().collect();
                for d in &dirs {
                    let hit = left.iter().position(|b| c.output(&list, b, d).is_ok());
                    match hit {
                        Some(i) => {
                            left.remove(i);
                        }
                        None => {
                            let m = c.output(&list, left[0], d).err();
                            run.fail("mixed", format!("{}: {:?} (schedule {:?})", d, m, order));
                        }
                    }
                }
            }
            run.observe(&dirs.len());
        });
    }
    c.finish()
}

/// The name of an analysis directory of today (learnt from an analysis).
fn today() -> String {
    static NAME: std::sync::OnceLock<String> = std::sync::OnceLock::new();
    NAME.get_or_init(|| {
        let c = Case::new(0, Which::Time, "today");
        let _ = catch(|| (c.job(&binnings()[0]))());
        tree(&c.dir).keys().find(|k| analysis_name(k)).cloned().unwrap_or("analysis_20000101".to_string())
    })
    .clone()
}
