//! C14: results are pooled exactly when their parameters are the same.
use mcheck::kinds::{kinds, pairs, values, Kind};
use mcheck::*;

include!("../combos.inc.rs");

/// The parameters that are part of a file name.
const NAMED: [&str; 19] = [
    "sys_size", "dim", "sys_radius", "sys_length", "target_size", "num_agent", "ptl_radius", "alpha", "gamma", "strength", "ptl_size", "dt", "tmax", "dt_min", "dt_max", "length", "idx_set", "n_thrd", "period",
];
const IS_COUNT: [&str; 5] = ["dim", "num_agent", "length", "idx_set", "n_thrd"];

/// (component, field, name) of the named parameters of a combination, run parameters last.
fn named(c: &Combo, ks: &[Kind]) -> Vec<(usize, usize, &'static str)> {
    let mut v = vec![];
    for (i, &k) in c.kinds.iter().enumerate() {
        for (j, n) in ks[k].names.iter().enumerate() {
            if NAMED.contains(n) {
                v.push((i, j, *n));
            }
        }
    }
    v
}

fn base(c: &Combo, ks: &[Kind], shift: usize) -> [Vec<String>; 5] {
    let mut w: [Vec<String>; 5] = Default::default();
    let (mut real, mut count) = (0, 0);
    for (i, &k) in c.kinds.iter().enumerate() {
        for (n, t) in ks[k].names.iter().zip(&ks[k].types) {
            let x = if IS_COUNT.contains(n) {
                count += 1;
                format!("{}", if shift == 0 { 1 + count } else if shift == 1 { 7 } else { 12 + 100 * count })
            } else if NAMED.contains(n) {
                real += 1;
                format!("{}", if shift == 0 { real as f64 } else if shift == 1 { 0.7 } else { 0.1 * real as f64 + 3e-9 })
            } else {
                let v = values(*t);
                v[shift % v.len()].0.clone()
            };
            w[i].push(x);
        }
    }
    w
}

fn ulp(x: f64, k: i64) -> f64 {
    f64::from_bits((x.to_bits() as i64 + k) as u64)
}

/// All other values tried for a parameter whose value is `x`.
fn changes(x: &str, count: bool) -> Vec<String> {
    if count {
        let n: u64 = x.parse().expect("HARNESS: count");
        let mut v: Vec<u64> = vec![0, 1, 10, n + 1, n * 10, n * 10 + 1, n + (1 << 32), (1 << 53) - 1, u32::MAX as u64];
        v.retain(|y| *y != n);
        v.dedup();
        v.iter().map(|y| format!("{}", y)).collect()
    } else {
        let r: f64 = x.parse().expect("HARNESS: real");
        let mut v = vec![ulp(r, 1), ulp(r, -1), r * (1.0 + 1e-12), r * (1.0 + 1e-7), r + 0.0004, r + 0.4, -r, 0.0, r * 1e-200, 1e300, r * 10.0, r + 1e6, 1e-320];
        v.retain(|y| *y != r);
        v.iter().map(|y| format!("{}", y)).collect()
    }
}

const PREFIX: [&str; 3] = ["RTS_", "a-b", ""];

fn compare(run: &mut Run, a: &dyn Ds, b: &dyn Ds, same: bool, same_file: bool, what: &dyn Fn() -> String) {
    run.ensure(a.same(b) == same && b.same(a) == same, "equality", || format!("{}: the data sets are {}", what(), if same { "different" } else { "equal" }));
    if same {
        run.ensure(a.hash() == b.hash(), "hash", || format!("{}: equal data sets have different hashes", what()));
    }
    run.ensure((a.pooled(b) == 1) == same, "pooled", || format!("{}: a map {} the data sets", what(), if same { "separates" } else { "merges" }));
    for p in PREFIX {
        run.ensure((a.file_removed(p) == b.file_removed(p)) == same, "name", || format!("{}: names {:?} and {:?}", what(), a.file_removed(p), b.file_removed(p)));
        run.ensure((a.file(p) == b.file(p)) == same_file, "name-idx", || format!("{}: names {:?} and {:?}", what(), a.file(p), b.file(p)));
    }
}

fn main() {
    mute_stdout();
    let mut c = Check::new("C14");
    c.assume("counts below 2^53; parameters are numbers (not NaN); hash values of different parameters of one enumeration do not collide by chance (2^-64)");
    let list = combos();
    assert_eq!(list.len(), 72, "HARNESS: combinations");
    let shifts = c.q(1usize, 3);
    c.family("pairs", &format!("72 combinations of system, agent, clock and run; {} base sets; every one and every two of the named parameters changed to each of 9 to 13 values (1 ulp, tiny differences, zero, huge, appended digit)", shifts), move |run| {
        let (ks, list) = (kinds(), combos());
        let i = run.pick(list.len());
        let shift = run.pick(shifts);
        let combo = &list[i];
        let w = base(combo, &ks, shift);
        let n = named(combo, &ks);
        let x = run.pick(n.len());
        let y = x + run.pick(n.len() - x);
        let mut v = w.clone();
        let (xi, xj, xn) = n[x];
        let ch = changes(&w[xi][xj], IS_COUNT.contains(&xn));
        v[xi][xj] = run.of(&ch);
        if y != x {
            let (yi, yj, yn) = n[y];
            let ch = changes(&w[yi][yj], IS_COUNT.contains(&yn));
            v[yi][yj] = run.of(&ch);
        }
        run.step();
        run.note(|| format!("{:?} against {:?}", w, v));
        let (a, b) = match ((combo.make)(&w), (combo.make)(&v)) {
            (Ok(a), Ok(b)) => (a.0, b.0),
            (a, b) => return run.fail("refused", format!("{:?} / {:?}: {:?} {:?}", w, v, a.err(), b.err())),
        };
        let only_run = xi == 4;
        compare(run, &*a, &*b, only_run, false, &|| format!("parameters {:?} and {:?}", w, v));
        run.observe(&b.file("P"));
    });
    c.family("zeros", "72 combinations; each named real parameter 0 in one data set and -0 in the other: equal sets, so equal hashes and one entry in a map", move |run| {
        let (ks, list) = (kinds(), combos());
        let i = run.pick(list.len());
        let combo = &list[i];
        let n = named(combo, &ks);
        let (xi, xj, xn) = n[run.pick(n.len())];
        if IS_COUNT.contains(&xn) {
            return;
        }
        let (mut w, mut v) = (base(combo, &ks, 0), base(combo, &ks, 0));
        w[xi][xj] = "0".into();
        v[xi][xj] = "-0".into();
        run.step();
        run.note(|| format!("{} 0 against -0", xn));
        if let (Ok(a), Ok(b)) = ((combo.make)(&w), (combo.make)(&v)) {
            let (a, b) = (a.0, b.0);
            let same = a.same(&*b);
            run.ensure(!same || a.hash() == b.hash(), "hash", || format!("{:?} and {:?}: equal data sets have different hashes", w, v));
            run.ensure((a.pooled(&*b) == 1) == same, "pooled", || format!("{:?} and {:?}: equal is {}, a map holds {}", w, v, same, a.pooled(&*b)));
            run.observe(&(same, xn));
        }
    });
    c.family("permuted", "72 combinations; all permutations of the values of the named parameters that exchange two or rotate three of them, reals and counts (real values that are whole numbers included), none, one or two of the exchanged values zero, or all the others", move |run| {
        let (ks, list) = (kinds(), combos());
        let i = run.pick(list.len());
        let combo = &list[i];
        let mut w = base(combo, &ks, 0);
        let n = named(combo, &ks);
        // distinct whole numbers everywhere
        for (k, (i, j, _)) in n.iter().enumerate() {
            w[*i][*j] = format!("{}", k + 2);
        }
        let m = n.iter().filter(|x| x.0 != 4).count();
        let three = run.flag();
        let x = run.pick(m);
        let y = run.pick(m);
        let z = if three { run.pick(m) } else { x };
        let at = |k: usize| (n[k].0, n[k].1);
        match run.pick(if three { 4 } else { 3 }) {
            0 => {}
            1 => w[at(x).0][at(x).1] = "0".into(),
            2 => {
                // all the others
                for k in (0..m).filter(|k| *k != x && *k != y && *k != z) {
                    w[at(k).0][at(k).1] = "0".into();
                }
            }
            _ => {
                w[at(x).0][at(x).1] = "0".into();
                w[at(y).0][at(y).1] = "0".into();
            }
        }
        let mut v = w.clone();
        if three {
            if x == y || y == z || x == z {
                return;
            }
            let t = v[at(x).0][at(x).1].clone();
            v[at(x).0][at(x).1] = v[at(y).0][at(y).1].clone();
            v[at(y).0][at(y).1] = v[at(z).0][at(z).1].clone();
            v[at(z).0][at(z).1] = t;
        } else {
            let t = v[at(x).0][at(x).1].clone();
            v[at(x).0][at(x).1] = v[at(y).0][at(y).1].clone();
            v[at(y).0][at(y).1] = t;
        }
        run.step();
        run.note(|| format!("{:?} against {:?}", w, v));
        let same = w == v;
        match ((combo.make)(&w), (combo.make)(&v)) {
            (Ok(a), Ok(b)) => compare(run, &*a.0, &*b.0, same, same, &|| format!("parameters {:?} and {:?}", w, v)),
            (a, b) => run.fail("refused", format!("{:?} / {:?}: {:?} {:?}", w, v, a.err(), b.err())),
        }
    });
    c.family("excluded", "72 combinations; every parameter that is not part of the name, and every run parameter, set to each of its values (up to 13), alone and together with another one", move |run| {
        let (ks, list) = (kinds(), combos());
        let i = run.pick(list.len());
        let combo = &list[i];
        let w = base(combo, &ks, 0);
        let mut free = vec![];
        for (i, &k) in combo.kinds.iter().enumerate() {
            for (j, n) in ks[k].names.iter().enumerate() {
                if !NAMED.contains(n) || i == 4 {
                    free.push((i, j, *n));
                }
            }
        }
        let x = run.pick(free.len());
        let y = x + run.pick(free.len() - x);
        let mut v = w.clone();
        for k in [x, y] {
            let (i, j, _) = free[k];
            let vals = values(ks[combo.kinds[i]].types[j]);
            v[i][j] = run.of(&vals).0;
            if x == y {
                break;
            }
        }
        run.step();
        run.note(|| format!("{:?} against {:?}", w, v));
        let num = |s: &str| s.parse::<f64>().ok();
        let same_file = (0..v[4].len()).all(|j| !NAMED.contains(&ks[combo.kinds[4]].names[j]) || num(&v[4][j]) == num(&w[4][j]));
        match ((combo.make)(&w), (combo.make)(&v)) {
            (Ok(a), Ok(b)) => compare(run, &*a.0, &*b.0, true, same_file, &|| format!("parameters {:?} and {:?}", w, v)),
            (a, b) => run.fail("refused", format!("{:?} / {:?}: {:?} {:?}", w, v, a.err(), b.err())),
        }
    });
    c.family("content", "72 combinations, 3 base sets, each named parameter at each of its 9 to 13 values: the name contains every named parameter with its value and no other, the summary row has them under their headings", move |run| {
        let (ks, list) = (kinds(), combos());
        let i = run.pick(list.len());
        let combo = &list[i];
        let shift = run.pick(3);
        let mut w = base(combo, &ks, shift);
        let n = named(combo, &ks);
        let (xi, xj, xn) = run.of(&n);
        let ch = changes(&w[xi][xj], IS_COUNT.contains(&xn));
        w[xi][xj] = run.of(&ch);
        run.step();
        run.note(|| format!("{:?}", w));
        let a = match (combo.make)(&w) {
            Ok(a) => a.0,
            Err(e) => return run.fail("refused", format!("{:?}: {}", w, e)),
        };
        let b = (combo.make)(&w).expect("HARNESS: again").0;
        compare(run, &*a, &*b, true, true, &|| format!("parameters {:?} twice", w));
        for (file, with_run) in [(a.file("X"), true), (a.file_removed("X"), false)] {
            let body = file.strip_prefix("X_").and_then(|s| s.strip_suffix(".dat")).unwrap_or("").to_string();
            let mut got = pairs(&body);
            let mut want: Vec<(String, f64)> = n.iter().filter(|x| x.0 != 4 || with_run).map(|(i, j, name)| (name.to_string(), w[*i][*j].parse().expect("HARNESS: number"))).collect();
            got.sort_by(|a, b| a.0.cmp(&b.0));
            want.sort_by(|a, b| a.0.cmp(&b.0));
            run.ensure(got == want, "content", || format!("the file name {:?} of {:?} denotes {:?}", file, w, got));
        }
        // columns of the summary
        let form = (combo.form)(15);
        let heads: Vec<&str> = form.split_whitespace().collect();
        let row = match a.row(15) {
            Ok(r) => r,
            Err(e) => return run.fail("row", format!("no summary row of {:?}: {}", w, e)),
        };
        let cells: Vec<f64> = row.split_whitespace().filter_map(|x| x.parse().ok()).collect();
        let want: Vec<(&str, f64)> = n.iter().filter(|x| x.0 != 4).map(|x| (x.2, w[x.0][x.1].parse().expect("HARNESS: number"))).collect();
        run.ensure(heads.len() == want.len() && cells.len() == want.len(), "columns", || format!("headings {:?}, row {:?} of {:?}", form, row, w));
        for (name, val) in want {
            let col = heads.iter().position(|h| *h == name);
            let ok = col.map_or(false, |k| k < cells.len() && (cells[k] - val).abs() <= 1e-9 * val.abs());
            run.ensure(ok, "row", || format!("headings {:?}, row {:?}: {} should be {}", form, row, name, val));
        }
    });
    c.family("header", "72 combinations; each parameter set to each of its values: the data set read from the header equals the one written, and the reader stands behind the header", move |run| {
        let (ks, list) = (kinds(), combos());
        let i = run.pick(list.len());
        let combo = &list[i];
        let mut w = base(combo, &ks, run.q(0, 2));
        let comp = run.pick(5);
        let k = &ks[combo.kinds[comp]];
        let j = run.pick(k.names.len());
        if NAMED.contains(&k.names[j]) {
            let ch = changes(&w[comp][j], IS_COUNT.contains(&k.names[j]));
            w[comp][j] = run.of(&ch);
        } else {
            let vals = values(k.types[j]);
            w[comp][j] = run.of(&vals).0;
        }
        run.step();
        run.note(|| format!("{:?}", w));
        let (a, head) = match (combo.make)(&w) {
            Ok(x) => x,
            Err(e) => return run.fail("refused", format!("{:?}: {}", w, e)),
        };
        let p = thread_scratch("set.dat");
        std::fs::write(&p, format!("{}DATA\n1.5\nlast\n", head)).expect("HARNESS: write");
        match catch(|| (combo.read)(&p)) {
            Ok(Ok((b, rest))) => {
                compare(run, &*a, &*b, true, true, &|| format!("written and read back {:?}", w));
                run.ensure(rest == ["DATA", "1.5", "last"], "position", || format!("behind the header of {:?} the reader finds {:?}", w, rest));
            }
            Ok(Err(e)) => run.fail("header", format!("the header of {:?} is refused: {}\n{}", w, e, head)),
            Err(e) => run.fail("panic", format!("the header of {:?} panicked: {}", w, e)),
        }
    });
    c.finish()
}
