//! C19: a simulation program accepts its arguments and files for every combination.
use mcheck::kinds::{kinds, malformed, pairs, values, Kind, Ty};
use mcheck::*;
use moledyn::prelude::{BufRead, BufReader};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::{Command, Output};
use std::sync::OnceLock;

static PROGS: OnceLock<Result<PathBuf, String>> = OnceLock::new();

/// Builds the programs (a crate of its own) against the working tree.
fn build() -> Result<PathBuf, String> {
    let root = root();
    let target = std::env::var("CARGO_TARGET_DIR").unwrap_or_else(|_| format!("{}/target", root));
    let o = Command::new("cargo")
        .args(["build", "--offline", "--locked"])
        .current_dir(format!("{}/harness/progs", root))
        .env("CARGO_TARGET_DIR", &target)
        .output();
    match o {
        Ok(o) if o.status.success() => Ok(PathBuf::from(format!("{}/debug/progs", target))),
        Ok(o) => Err(String::from_utf8_lossy(&o.stderr).into_owned()),
        Err(e) => {
            eprintln!("cargo: {}", e);
            std::process::exit(2)
        }
    }
}

#[derive(Clone, Copy, Debug)]
struct Prog {
    sys: usize,
    agent: usize,
    time: usize,
    run: usize,
    ana: usize,
}

impl Prog {
    fn name(&self) -> String {
        format!("p{}{}{}{}{}", self.sys, self.agent, self.time, self.run, self.ana)
    }
    /// indices into kinds()
    fn kinds(&self) -> [usize; 5] {
        [self.sys, 3, 4 + self.agent, 8 + self.time, 10 + self.run]
    }
    fn ana_args(&self) -> usize {
        if self.ana == 1 {
            5
        } else {
            4
        }
    }
    fn ana_names(&self) -> Vec<&'static str> {
        let mut v = vec!["min_time", "max_time", "bin_size", "lbin_size"];
        if self.ana == 1 {
            v.push("num_var");
        }
        v
    }
    fn has_fixed(&self) -> bool {
        self.ana == if self.run == 2 { 2 } else { (self.sys + self.agent + self.time) % 2 }
    }
}

fn all() -> Vec<Prog> {
    let mut v = vec![];
    for sys in 0..3 {
        for agent in 0..4 {
            for time in 0..2 {
                for run in 0..3 {
                    for ana in 0..3 {
                        v.push(Prog { sys, agent, time, run, ana });
                    }
                }
            }
        }
    }
    v
}

struct Given {
    words: Vec<String>,
    /// name, value as Debug text
    want: Vec<(&'static str, String)>,
}

/// A complete argument list: `shift` selects the values, `set` makes parameter sets different.
fn arguments(p: &Prog, ks: &[Kind], shift: usize, set: usize, idx: usize, dir: &Path) -> Given {
    let mut g = Given { words: vec![], want: vec![] };
    let mut n = 0usize;
    let dim = 3usize;
    for k in p.kinds() {
        for (name, t) in ks[k].names.iter().zip(&ks[k].types) {
            n += 1;
            // values with which the components can be built
            let real = |x: f64| (format!("{}", x), format!("{:?}", x));
            let int = |x: usize| (format!("{}", x), format!("{:?}", x));
            let of = |t: Ty, i: usize| {
                let v = values(t);
                v[i % v.len()].clone()
            };
            let (w, d) = match *name {
                "dim" | "exp_dim" => int(dim),
                "sys_type" => of(Ty::Cyl, shift % 2),
                "bctype" if p.sys == 2 => {
                    // one of Mixed(1), Mixed(2): where the circular part ends
                    let v = of(Ty::Cyl, shift % 2).0;
                    let b = moledyn::prelude::BoundaryCond::Mixed(v.parse().expect("HARNESS: number"));
                    (v, format!("{:?}", b))
                }
                "bctype" => of(Ty::Bc, shift % 3),
                "target_pos" => {
                    let v = values(Ty::Pos);
                    let three: Vec<_> = v.iter().filter(|x| x.0.matches([',', ':']).count() == 2).collect();
                    three[shift % three.len()].clone()
                }
                "itype" => {
                    let v = values(Ty::Init);
                    let fit: Vec<_> = v.iter().filter(|x| x.0 == "Uniform" || x.0.matches([',', ':']).count() == 2).collect();
                    fit[shift % fit.len()].clone()
                }
                "mtype" => of(Ty::Move, shift % 3),
                "num_agent" => int(1 + (shift + set) % 4),
                "length" => int(10 + shift),
                "dt_min" => real([1e-3, 0.25][shift % 2]),
                "dt_max" => real([0.5, 7.5][shift % 2]),
                "idx_set" => int(idx),
                "n_thrd" => int(idx),
                "num_ensemble" => int(10 + shift),
                "seed" => of(Ty::Seed, n + shift),
                "output_dir" => (dir.to_string_lossy().into_owned(), format!("{:?}", dir.to_string_lossy())),
                "sys_size" | "sys_radius" => real([10.0, 0.75, 123456.5, 1e-7][shift % 4] + set as f64 * 0.125),
                "period" => real([0.5, 1e-9][shift % 2]),
                _ => real([1.0, 0.1 + 0.2, 1e-10, 30.0, 1.0 / 3.0][(n + shift) % 5]),
            };
            g.words.push(w);
            g.want.push((name, d));
        }
    }
    g
}

fn call(p: &Prog, fixed: bool, args: &[String], cwd: &Path, data: &str) -> Output {
    call_led(p, fixed, args, cwd, data, None)
}

/// The same with fewer leading words than the program skips.
fn call_led(p: &Prog, fixed: bool, args: &[String], cwd: &Path, data: &str, lead: Option<usize>) -> Output {
    let exe = PROGS.get().and_then(|r| r.as_ref().ok()).expect("HARNESS: programs");
    let mut c = Command::new(exe);
    c.args(args).current_dir(cwd).env("MCHECK_PROG", p.name()).env("MCHECK_DATA", data).env("RUST_BACKTRACE", "0");
    if fixed {
        c.env("MCHECK_FIXED", "1");
    } else {
        c.env_remove("MCHECK_FIXED");
    }
    match lead {
        Some(l) => c.env("MCHECK_LEAD", l.to_string()),
        None => c.env_remove("MCHECK_LEAD"),
    };
    c.output().expect("HARNESS: start of a program")
}

fn fresh(name: &str) -> PathBuf {
    let d = thread_scratch(name);
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).expect("HARNESS: directory");
    d
}

fn files(d: &Path) -> BTreeMap<String, Vec<u8>> {
    let mut m = BTreeMap::new();
    fn go(d: &Path, rel: &str, m: &mut BTreeMap<String, Vec<u8>>) {
        for e in std::fs::read_dir(d).into_iter().flatten() {
            let e = e.expect("HARNESS: list");
            let n = format!("{}{}", rel, e.file_name().to_string_lossy());
            if e.path().is_dir() {
                go(&e.path(), &format!("{}/", n), m);
            } else {
                m.insert(n, std::fs::read(e.path()).expect("HARNESS: read"));
            }
        }
    }
    go(d, "", &mut m);
    m
}

/// Parameters that are part of a file name.
const NAMED: [&str; 16] = ["sys_size", "dim", "sys_radius", "sys_length", "target_size", "num_agent", "ptl_radius", "alpha", "gamma", "strength", "ptl_size", "dt", "tmax", "dt_min", "dt_max", "length"];

/// A complete run: the program reports the given values and writes a file that denotes them.
fn check_run(run: &mut Run, p: &Prog, fixed: bool, ks: &[Kind], g: &Given, cwd: &Path, out: &Path, data: &str) -> Option<String> {
    let before = files(cwd);
    let o = call(p, fixed, &g.words, cwd, data);
    run.step();
    let (so, se) = (String::from_utf8_lossy(&o.stdout).into_owned(), String::from_utf8_lossy(&o.stderr).into_owned());
    if !run.ensure(o.status.success(), "refused", || format!("{} {:?} ended with {:?}: {}", p.name(), g.words, o.status, se)) {
        return None;
    }
    for (n, d) in &g.want {
        if !fixed && (*n == "bctype" || *n == "sys_type") {
            // not among the variables that simulation! declares
            continue;
        }
        let l = format!("VAR {} = {}", n, d);
        run.ensure(so.lines().any(|x| x == l), "variable", || format!("{} {:?}: {} is not {} but\n{}", p.name(), g.words, n, d, so));
    }
    let agents = &g.want.iter().find(|x| x.0 == "num_agent").expect("HARNESS: agents").1;
    run.ensure(so.lines().any(|x| x == format!("AGENTS {}", agents)), "agents", || format!("{} {:?}: {}", p.name(), g.words, so));
    let after = files(cwd);
    for (k, v) in &before {
        run.ensure(after.get(k) == Some(v), "changed", || format!("{} {:?} changed the file {}", p.name(), g.words, k));
    }
    let new: Vec<&String> = after.keys().filter(|k| !before.contains_key(*k)).collect();
    if !run.ensure(new.len() == 1, "one-file", || format!("{} {:?} wrote {:?}", p.name(), g.words, new)) {
        return None;
    }
    let path = cwd.join(new[0]);
    run.ensure(path.parent() == Some(out), "place", || format!("{} {:?} wrote {:?}", p.name(), g.words, path));
    // name
    let name = path.file_name().unwrap().to_string_lossy().into_owned();
    let body = name.strip_prefix("PRE_").and_then(|x| x.strip_suffix(".dat")).unwrap_or("");
    let mut got = pairs(body);
    let mut want: Vec<(String, f64)> = g
        .want
        .iter()
        .filter(|x| NAMED.contains(&x.0) || ["idx_set", "n_thrd", "period"].contains(&x.0))
        .map(|x| (x.0.to_string(), x.1.parse().expect("HARNESS: number")))
        .collect();
    got.sort_by(|a, b| a.0.cmp(&b.0));
    want.sort_by(|a, b| a.0.cmp(&b.0));
    run.ensure(got == want, "name", || format!("the name {:?} of the file of {:?} denotes {:?}", name, g.words, got));
    // header
    let f = std::fs::File::open(&path).expect("HARNESS: open");
    let mut lines = BufReader::new(f).lines();
    lines.next();
    let mut at = 0;
    for k in p.kinds() {
        match catch(|| (ks[k].read_lines)(&mut lines)) {
            Ok(Ok(a)) => {
                let have = a.fields();
                let want: Vec<String> = g.want[at..at + have.len()].iter().map(|x| x.1.clone()).collect();
                run.ensure(have == want, "header", || format!("the header of {:?} gives {:?} instead of {:?} for {}", name, have, want, ks[k].name));
            }
            e => return {
                run.fail("header", format!("the header of {:?} cannot be read as {}: {:?}", name, ks[k].name, e.map(|x| x.err())));
                None
            },
        }
        at += ks[k].names.len();
    }
    let rest: Vec<String> = lines.map(|l| l.unwrap_or_default()).collect();
    let want: Vec<&str> = data.lines().collect();
    run.ensure(rest.len() == want.len() + 1 && rest[1..].iter().zip(&want).all(|(a, b)| a == b), "data", || format!("behind the header of {:?} stands {:?}", name, rest));
    Some(new[0].clone())
}

fn ana_arguments(p: &Prog, widths: bool, dir: &Path) -> Vec<String> {
    let mut a: Vec<String> = if p.ana == 1 { vec!["1".into()] } else { vec![] };
    a.extend(if widths { vec!["0.5".to_string(), "20".into(), "0.75".into(), "1.5".into()] } else { vec!["1".to_string(), "11".into(), "10".into()] });
    a.push(dir.to_string_lossy().into_owned());
    a
}

fn check_help(run: &mut Run, p: &Prog, ks: &[Kind], args: &[String], o: &Output) {
    let se = String::from_utf8_lossy(&o.stderr).into_owned();
    run.ensure(o.status.code() == Some(1), "help-status", || format!("{} with {} arguments ended with {:?}", p.name(), args.len(), o.status));
    for k in p.kinds() {
        for n in &ks[k].names {
            run.ensure(se.contains(&format!("({})", n)), "help-overview", || format!("the help of {} does not announce ({}): {}", p.name(), n, se));
            run.ensure(se.lines().any(|l| l.split(':').next().map_or(false, |x| x.trim() == *n)), "help-description", || format!("the help of {} does not describe {}: {}", p.name(), n, se));
        }
    }
    for n in p.ana_names() {
        run.ensure(se.contains(n), "help-analysis", || format!("the help of {} does not mention the analysis argument {}: {}", p.name(), n, se));
    }
    let total: usize = p.kinds().iter().map(|k| ks[*k].names.len()).sum();
    run.ensure(se.contains(&format!("{} arguments", total)), "help-count", || format!("the help of {} does not announce {} arguments: {}", p.name(), total, se));
}

fn main() {
    mute_stdout();
    let mut c = Check::new("C19");
    let _ = PROGS.set(build());
    c.assume("the programs are built with the toolchain of the sandbox in the development profile; arguments are valid UTF-8");
    c.family("compile", "one program for every combination of 3 systems, 1 target, 4 agents, 2 clocks, 3 runs and 3 analyses (216), 72 of them also with setup_simulation_fixed", |run| {
        run.step();
        if let Err(e) = PROGS.get().unwrap() {
            let short: String = e.lines().filter(|l| l.starts_with("error") || l.contains("-->")).take(12).collect::<Vec<_>>().join("\n");
            run.fail("compile", format!("the programs do not compile:\n{}", short));
        }
    });
    if PROGS.get().unwrap().is_err() {
        c.finish();
    }
    let selected = |run: &mut Run| -> Prog { run.of(&all()) };
    c.family("count", "216 programs × every number of arguments from 0 to complete + 2: help and error for every wrong number, nothing written; the first words valid, and with an empty word", move |run| {
        let ks = kinds();
        let p = selected(run);
        let d = fresh("count");
        let g = arguments(&p, &ks, 0, 0, 1, &d.join("out"));
        let total = g.words.len();
        let n = run.pick(total + 3);
        let fixed = p.has_fixed() && run.flag();
        if n == total || n == p.ana_args() || n == p.ana_args() + 1 {
            return;
        }
        let mut w = g.words.clone();
        w.extend(["1".to_string(), "2".to_string()]);
        w.truncate(n);
        if n > 2 && run.flag() {
            w[1] = String::new();
        }
        run.note(|| format!("{:?} {:?}", p, w));
        let o = call(&p, fixed, &w, &d, "");
        run.step();
        check_help(run, &p, &ks, &w, &o);
        run.ensure(files(&d).is_empty(), "written", || format!("{:?} with {:?} wrote {:?}", p, w, files(&d).keys()));
        run.observe(&n);
    });
    let shifts = c.q(5usize, 20);
    c.family("leading", "72 programs with setup_simulation_fixed, given a list shorter than the words they skip (0 or 1 of up to 2): help and error, nothing written", move |run| {
        let ks = kinds();
        let p = selected(run);
        if !p.has_fixed() {
            return;
        }
        let lead = run.pick(2);
        let d = fresh("leading");
        run.note(|| format!("{:?} with at most {} leading words", p, lead));
        let o = call_led(&p, true, &[], &d, "", Some(lead));
        run.step();
        check_help(run, &p, &ks, &[], &o);
        run.ensure(files(&d).is_empty(), "written", || format!("{:?} without arguments wrote {:?}", p, files(&d).keys()));
        run.observe(&lead);
    });
    c.family("run", &format!("216 programs × {} complete argument lists: variables, file name, header and data are those given; a second run with another index and a third one with another parameter add files; the analysis (both forms) pools the first two", shifts), move |run| {
        let ks = kinds();
        let p = selected(run);
        let shift = run.pick(shifts);
        let fixed = p.has_fixed() && run.flag();
        let widths = run.flag();
        let d = fresh("run");
        let out = d.join(["out", "deep/er", "with space"][shift % 3]);
        run.note(|| format!("{:?} shift {}", p, shift));
        let line = |a: f64, b: f64| match p.ana {
            2 => format!("({:e},{:e}) ({:e},{:e})\n", a, b, a + 0.5, b),
            _ => format!("{:e}\n{:e}\n", a, b),
        };
        // the first program runs twice: a repeated run replaces its result, whether the new one is shorter or longer
        let longer = shift % 2 == 1;
        let datas = [line(2.25, 3.0), line(8.5, 1.0), line(4.0, 4.5)];
        let mut names = vec![];
        for (set, idx, data) in [(0, 1, &datas[0]), (0, 2, &datas[1]), (1, 1, &datas[2])] {
            let g = arguments(&p, &ks, shift, set, idx, &out);
            match check_run(run, &p, fixed, &ks, &g, &d, &out, data) {
                Some(n) => names.push(n),
                None => return,
            }
        }
        let g = arguments(&p, &ks, shift, 0, 1, &out);
        for data in [if longer { "".to_string() } else { format!("{}{}{}", datas[0], datas[1], datas[2]) }, datas[0].clone()] {
            let o = call(&p, fixed, &g.words, &d, &data);
            run.step();
            let text = files(&d).remove(&names[0]).unwrap_or_default();
            let text = String::from_utf8_lossy(&text).into_owned();
            let rest: Vec<&str> = text.lines().skip_while(|l| !l.contains("DATA STARTS")).skip(1).collect();
            run.ensure(o.status.success() && rest == data.lines().collect::<Vec<_>>(), "repeated", || {
                format!("{:?} {:?} run again ended with {:?}, its result holds {:?} instead of {:?}", p, g.words, o.status, rest, data)
            });
        }
        let before = files(&d);
        let a = ana_arguments(&p, widths, &out);
        let o = call(&p, fixed, &a, &d, "");
        run.step();
        let se = String::from_utf8_lossy(&o.stderr).into_owned();
        if !run.ensure(o.status.success(), "analysis", || format!("the analysis {:?} of {:?} ended with {:?}: {}", a, p, o.status, se)) {
            return;
        }
        let after = files(&d);
        for (k, v) in &before {
            run.ensure(after.get(k) == Some(v), "changed", || format!("the analysis of {:?} changed {}", p, k));
        }
        let brief: Vec<&String> = after.keys().filter(|k| k.ends_with(if p.ana == 2 { "/brief_data.dat" } else { "/brief_result.dat" })).collect();
        if !run.ensure(brief.len() == 1, "summary", || format!("after the analysis of {:?} there is {:?}", p, after.keys())) {
            return;
        }
        let text = String::from_utf8_lossy(&after[brief[0]]).into_owned();
        let rows: Vec<Vec<f64>> = text.lines().skip(1).map(|l| l.split_whitespace().filter_map(|x| x.parse().ok()).collect()).collect();
        let cols: usize = p.kinds().iter().map(|k| ks[*k].names.iter().filter(|n| NAMED.contains(n)).count()).sum();
        // ensembles per row: the first two runs are pooled
        let mut counts: Vec<f64> = rows.iter().map(|r| r.get(cols).copied().unwrap_or(-1.0)).collect();
        counts.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let want = if p.ana == 2 { vec![1.0, 2.0] } else { vec![2.0, 4.0] };
        run.ensure(counts == want, "pooled", || format!("the analysis of {:?} counts {:?} in {:?} (files {:?})", p, counts, text, names));
        run.ensure(rows.iter().all(|r| r.len() == cols + 3), "columns", || format!("the analysis of {:?}: {:?}", p, text));
        let dist = after.keys().filter(|k| k.contains("_distribution/") && k.contains("PRE")).count();
        run.ensure(dist == 4, "distributions", || format!("after the analysis of {:?} there is {:?}", p, after.keys()));
        run.observe(&counts.len());
    });
    c.family("killed", "216 programs, ended as soon as the simulation starts (before any data, nothing flushed): the result file is there with the header of a complete run", move |run| {
        let ks = kinds();
        let p = selected(run);
        let fixed = p.has_fixed() && run.flag();
        let d = fresh("killed");
        let out = d.join("out");
        let g = arguments(&p, &ks, 0, 0, 1, &out);
        run.note(|| format!("{:?} {:?}", p, g.words));
        let o = call(&p, fixed, &g.words, &d, "KILLED");
        run.step();
        if o.status.code() != Some(77) {
            return run.fail("start", format!("{:?} with {:?} does not reach its simulation: {:?} {}", p, g.words, o.status, String::from_utf8_lossy(&o.stderr)));
        }
        let killed = files(&d);
        let o = call(&p, fixed, &g.words, &d, "");
        let whole = files(&d);
        run.ensure(o.status.success() && killed == whole && whole.len() == 1, "header-lost", || {
            format!("{:?} ended at the start of the simulation leaves {:?} (name, bytes), a complete run without data {:?}", p, killed.iter().map(|x| (x.0, x.1.len())).collect::<Vec<_>>(), whole.iter().map(|x| (x.0, x.1.len())).collect::<Vec<_>>())
        });
        run.observe(&fixed);
    });
    c.family("malformed", "216 programs × every argument position × every malformed text of its type: an error, nothing written", move |run| {
        let ks = kinds();
        let p = selected(run);
        let d = fresh("malformed");
        let mut g = arguments(&p, &ks, 0, 0, 1, &d.join("out"));
        let types: Vec<Ty> = p.kinds().iter().flat_map(|k| ks[*k].types.clone()).collect();
        let i = run.pick(types.len());
        let bad = malformed(types[i]);
        if bad.is_empty() {
            return;
        }
        let x = run.pick(bad.len());
        g.words[i] = bad[x].to_string();
        if run.thorough {
            // a second one, anywhere behind
            let j = i + run.pick(types.len() - i);
            let b = malformed(types[j]);
            if j != i && !b.is_empty() {
                g.words[j] = b[(x + j) % b.len()].to_string();
            }
        }
        run.note(|| format!("{:?} {:?}", p, g.words));
        let o = call(&p, false, &g.words, &d, "");
        run.step();
        let se = String::from_utf8_lossy(&o.stderr).into_owned();
        run.ensure(o.status.code() == Some(1) && !se.contains("panicked"), "accepted", || format!("{} {:?} ended with {:?}: {}", p.name(), g.words, o.status, se));
        run.ensure(files(&d).is_empty(), "written", || format!("{:?} with {:?} wrote {:?}", p, g.words, files(&d).keys()));
        run.observe(&x);
    });
    c.family("unwritable", "216 programs: the output directory is a file, lies below a file, or the result file cannot be written (a full device): an error, no panic", move |run| {
        let ks = kinds();
        let p = selected(run);
        let d = fresh("unwritable");
        let kind = run.pick(3);
        let fixed = p.has_fixed() && run.flag();
        std::fs::write(d.join("file"), "x").expect("HARNESS: write");
        let out = [d.join("file"), d.join("file").join("out"), d.join("out")][kind].clone();
        let g = arguments(&p, &ks, 0, 0, 1, &out);
        if kind == 2 {
            // where the result goes is learnt from a first run
            let o = call(&p, fixed, &g.words, &d, "");
            let f = files(&out);
            if !o.status.success() || f.len() != 1 {
                return run.fail("refused", format!("{:?} {:?} wrote {:?}", p, g.words, f.keys()));
            }
            let f = out.join(f.keys().next().unwrap());
            std::fs::remove_file(&f).expect("HARNESS: remove");
            std::os::unix::fs::symlink("/dev/full", &f).expect("HARNESS: link");
        }
        run.note(|| format!("{:?} {:?}", p, g.words));
        let o = call(&p, fixed, &g.words, &d, "");
        run.step();
        let se = String::from_utf8_lossy(&o.stderr).into_owned();
        run.ensure(o.status.code() == Some(1) && !se.contains("panicked"), "unwritable", || format!("{} {:?} (output {}) ended with {:?}: {}", p.name(), g.words, kind, o.status, se));
        run.ensure(kind == 2 || files(&d).len() == 1, "written", || format!("{:?}", files(&d).keys()));
    });
    c.family("announced", "216 programs: the analysis starts with exactly the announced numbers of arguments", move |run| {
        let ks = kinds();
        let p = run.of(&all());
        let _ = &ks;
        let d = fresh("announced");
        let w = run.flag();
        let a = ana_arguments(&p, w, &d);
        run.note(|| format!("{:?} {:?}", p, a));
        let o = call(&p, false, &a, &d, "");
        run.step();
        let se = String::from_utf8_lossy(&o.stderr).into_owned();
        run.ensure(o.status.success(), "analysis", || format!("the analysis {:?} of {:?} ended with {:?}: {}", a, p, o.status, se));
        let f = files(&d);
        run.ensure(f.len() == 1, "summary", || format!("the analysis {:?} of {:?} wrote {:?}", a, p, f.keys()));
        run.observe(&a.len());
    });
    c.finish()
}
