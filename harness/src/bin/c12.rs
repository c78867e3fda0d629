//! C12: malformed text and arguments are refused with an error.
use mcheck::kinds::*;
use mcheck::*;
use moledyn::prelude::*;
use std::fmt::Debug;
use std::io::Write as _;

/// Numbers that a text contains: maximal pieces between separators that read as a number.
fn reals(s: &str) -> Vec<f64> {
    s.split(|c: char| c.is_whitespace() || "(),:".contains(c)).filter_map(|t| t.parse::<f64>().ok()).collect()
}
fn counts(s: &str) -> Vec<usize> {
    // "0..3" contains 0 and 3
    s.split(|c: char| c.is_whitespace() || "(),:".contains(c)).flat_map(|t| t.split("..")).filter_map(|t| t.parse::<usize>().ok()).collect()
}
fn has_real(s: &str, x: f64) -> bool {
    reals(s).iter().any(|y| *y == x || (x.is_nan() && y.is_nan()))
}
fn has_count(s: &str, x: usize) -> bool {
    counts(s).contains(&x)
}

/// Is the value one that the text names?  (every number of the value is in the text, its keyword too)
trait Named {
    fn named_by(&self, s: &str) -> bool;
}
impl Named for SystemType {
    fn named_by(&self, s: &str) -> bool {
        match self {
            SystemType::ContinuousCircular => s.contains("Circular"),
            SystemType::ContinuousRectangular => s.contains("Rectangular"),
            SystemType::ContinuousCylindrical(d) => has_count(s, *d),
            SystemType::Lattice => s.contains("Lattice"),
            SystemType::Network => s.contains("Network"),
        }
    }
}
impl Named for BoundaryCond {
    fn named_by(&self, s: &str) -> bool {
        match self {
            BoundaryCond::Periodic => s.contains("Periodic"),
            BoundaryCond::Reflection => s.contains("Refle"),
            BoundaryCond::Mixed(d) => has_count(s, *d),
        }
    }
}
impl Named for MoveType {
    fn named_by(&self, s: &str) -> bool {
        match self {
            MoveType::Brownian(x) => has_real(s, *x),
            MoveType::Levy => s.contains("Levy"),
        }
    }
}
impl Named for Position<f64> {
    fn named_by(&self, s: &str) -> bool {
        self.coordinate.len() == s.matches(|c| c == ',' || c == ':').count() + 1 && self.coordinate.iter().all(|x| has_real(s, *x))
    }
}
impl Named for Position<i32> {
    fn named_by(&self, s: &str) -> bool {
        self.coordinate.len() == s.matches(|c| c == ',' || c == ':').count() + 1 && self.coordinate.iter().all(|x| has_real(s, *x as f64))
    }
}
impl Named for InitType<f64> {
    fn named_by(&self, s: &str) -> bool {
        match self {
            InitType::Uniform => s.to_lowercase().contains("uniform") || s.contains("agents"),
            InitType::SpecificPosition(p) => p.coordinate.len() > 0 && p.coordinate.iter().all(|x| has_real(s, *x)),
        }
    }
}
impl Named for InteractType {
    fn named_by(&self, s: &str) -> bool {
        match self {
            InteractType::Exponential(d, g) => s.contains("Exponential") && has_count(s, *d) && has_real(s, *g),
            InteractType::Coulomb2D => s.contains("Coulomb") && s.contains('2'),
            InteractType::Coulomb3D => s.contains("Coulomb") && s.contains('3'),
            InteractType::LennardJones(x) => s.contains("Lennard") && has_real(s, *x),
        }
    }
}
impl Named for TimeType {
    fn named_by(&self, s: &str) -> bool {
        match self {
            TimeType::Constant(x) => has_real(s, *x),
            TimeType::Exponential(a, b, n) => has_real(s, *a) && has_real(s, *b) && has_count(s, *n),
        }
    }
}
impl Named for AgentType {
    fn named_by(&self, s: &str) -> bool {
        s == format!("{}", self)
    }
}
impl Named for TargetType {
    fn named_by(&self, s: &str) -> bool {
        s == format!("{}", self)
    }
}

fn parse<T: FromStr + Debug + Named>(run: &mut Run, s: &str, what: &str) -> bool
where
    T::Err: Debug,
{
    run.step();
    let r = catch(|| s.parse::<T>());
    run.note(|| format!("{:?} as {} -> {:?}", s, what, r));
    match r {
        Err(p) => {
            run.fail("panic", format!("reading {:?} as {} panicked: {}", s, what, p));
            false
        }
        Ok(Ok(v)) => {
            run.observe(&format!("{:?}", v));
            run.ensure(v.named_by(s), "substituted", || format!("{:?} is read as the {} {:?}", s, what, v));
            true
        }
        Ok(Err(_)) => {
            run.ensure(true, "", || String::new());
            false
        }
    }
}

const TYPES: [&str; 10] = ["system type", "boundary condition", "motion type", "position", "initialisation", "interaction", "clock type", "agent type", "target type", "integer position"];

fn any(run: &mut Run, t: usize, s: &str) -> bool {
    match t {
        0 => parse::<SystemType>(run, s, TYPES[0]),
        1 => parse::<BoundaryCond>(run, s, TYPES[1]),
        2 => parse::<MoveType>(run, s, TYPES[2]),
        3 => parse::<Position<f64>>(run, s, TYPES[3]),
        4 => parse::<InitType<f64>>(run, s, TYPES[4]),
        5 => parse::<InteractType>(run, s, TYPES[5]),
        6 => parse::<TimeType>(run, s, TYPES[6]),
        7 => parse::<AgentType>(run, s, TYPES[7]),
        8 => parse::<TargetType>(run, s, TYPES[8]),
        _ => parse::<Position<i32>>(run, s, TYPES[9]),
    }
}

/// Well-formed printed texts (type, text, positions of the numbers that the value needs).
fn printed() -> Vec<(usize, String, Vec<usize>)> {
    let d = |x: &dyn std::fmt::Display| format!("{}", x);
    vec![
        (0, d(&SystemType::ContinuousCircular), vec![]),
        (0, d(&SystemType::ContinuousRectangular), vec![]),
        (0, d(&SystemType::ContinuousCylindrical(3)), vec![3]),
        (0, d(&SystemType::Lattice), vec![]),
        (0, d(&SystemType::Network), vec![]),
        (1, d(&BoundaryCond::Periodic), vec![]),
        (1, d(&BoundaryCond::Reflection), vec![]),
        (1, d(&BoundaryCond::Mixed(2)), vec![3]),
        (2, d(&MoveType::Brownian(2.5)), vec![4]),
        (2, d(&MoveType::Levy), vec![]),
        (3, "1.5,-2,3e-1".to_string(), vec![0]),
        (4, d(&InitType::<f64>::Uniform), vec![]),
        (4, d(&InitType::SpecificPosition(Position::<f64>::new(vec![1.5, -2.0]))), vec![4]),
        (5, d(&InteractType::Exponential(2, 0.25)), vec![4, 9]),
        (5, d(&InteractType::Coulomb2D), vec![3]),
        (5, d(&InteractType::Coulomb3D), vec![3]),
        (5, d(&InteractType::LennardJones(1.5)), vec![6]),
        (6, d(&TimeType::Constant(0.5)), vec![5]),
        (6, d(&TimeType::Exponential(0.5, 4.0, 10)), vec![5, 7, 13]),
        (7, d(&AgentType::ContinuousPassiveIndependent), vec![]),
        (8, d(&TargetType::ContinuousInBulk), vec![]),
        (9, "1,-2,3".to_string(), vec![0]),
    ]
}

fn write_file(lines: &str) -> Lines<BufReader<File>> {
    let p = thread_scratch("header.txt");
    let mut f = File::create(&p).expect("HARNESS: create");
    f.write_all(lines.as_bytes()).expect("HARNESS: write");
    drop(f);
    BufReader::new(File::open(&p).expect("HARNESS: open")).lines()
}

fn valid(t: Ty) -> String {
    let v = values(t);
    v[v.len() / 2].0.clone()
}

mod data {
    use moledyn::prelude::*;
    use moledyn_proc::test_proc_macros;
    test_proc_macros!("P", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, VariableSimulation);
    pub fn analyze(w: mcheck::ana::Which, args: &[String]) -> Result<(), Error> {
        use mcheck::ana::Which;
        match w {
            Which::Time => TimeAnalysis::analyze::<SimulationData>(args, 15, "P"),
            Which::Vec(_) => TimeVecAnalysis::analyze::<SimulationData>(args, 15, "P"),
            Which::Process => ProcessAnalysis::analyze::<SimulationData>(args, 15, "P"),
        }
    }
}
use data::analyze;

fn main() {
    mute_stdout();
    let mut c = Check::new("C12");
    c.assume("'nan', 'inf' and 'infinity' count as numbers; a text is accepted leniently as long as the value is one that it names");
    // all token sequences
    let vocab: Vec<&'static str> = vec![
        "", "Continuous", "Cylindrical", "system.", "0..2", ":", "Mixed", "Brownian", "Levy", "Uniform", "Initialize", "all", "agents", "at", "1,2", "Exponential", "Coulomb", "Lennard", "Constant", "with", "3", "-1.5", "1e-3", "x", "\u{c790}", "2.", "(", "0..",
    ];
    let n = c.q(3usize, 4);
    let v1 = vocab.clone();
    c.family("sequences", &format!("10 types; all sequences of up to {} tokens out of {} (keywords, numbers, garbage, empty), separated by blanks", n, vocab.len()), move |run| {
        let t = run.pick(TYPES.len());
        let k = run.pick(n + 1);
        let s: Vec<&str> = (0..k).map(|_| run.of(&v1)).collect();
        any(run, t, &s.join(" "));
    });
    // characters of the position formats
    let n = c.q(7usize, 8);
    c.family("characters", &format!("positions, initialisations and (time, value) pairs: all texts of up to {} pieces out of '1' '-2.5' 'x' ',' ':' '(' ')' ' ' '1e' '1_0'", n), move |run| {
        let t = run.of(&[3usize, 4, 9, 10]);
        let k = run.pick(n + 1);
        let s: String = (0..k).map(|_| run.of(&["1", "-2.5", "x", ",", ":", "(", ")", " ", "1e", "1_0"])).collect();
        if t < 10 {
            let ok = any(run, t, &s);
            // decided both ways where the text is clear
            if t == 3 && !s.contains('(') && !s.contains(')') {
                let parts: Vec<Option<f64>> = s.split(|c| c == ',' || c == ':').map(|x| x.trim().parse::<f64>().ok()).collect();
                let good = parts.iter().all(|p| p.is_some());
                run.ensure(good == ok, "position", || format!("{:?} is {} as a position", s, if ok { "accepted" } else { "refused" }));
            }
            // one pair of brackets around the whole, blanks outside of it or around a coordinate
            let b = s.trim();
            if t == 3 && b.len() > 2 && b.starts_with('(') && b.ends_with(')') && !b[1..b.len() - 1].contains(|c| c == '(' || c == ')') {
                let good = b[1..b.len() - 1].split(|c| c == ',' || c == ':').all(|x| x.trim().parse::<f64>().is_ok());
                run.ensure(good == ok, "brackets", || format!("{:?} is {} as a position", s, if ok { "accepted" } else { "refused" }));
            }
        } else {
            run.step();
            let r = catch(|| s.parse::<moledyn::analysis::Pair<f64>>().map(|p| format!("{:?}", p)));
            run.note(|| format!("{:?} as pair -> {:?}", s, r));
            let body: String = s.chars().filter(|c| *c != '(' && *c != ')').collect();
            match r {
                Err(p) => run.fail("panic", format!("reading {:?} as a pair panicked: {}", s, p)),
                Ok(Ok(v)) => {
                    let parts: Vec<Option<f64>> = body.split(',').map(|x| x.trim().parse::<f64>().ok()).collect();
                    run.ensure(parts.len() == 2 && parts.iter().all(|p| p.is_some()), "substituted", || format!("{:?} is read as the pair {}", s, v));
                }
                Ok(Err(_)) => {
                    let parts: Vec<Option<f64>> = body.split(',').map(|x| x.parse::<f64>().ok()).collect();
                    let plain = (s.starts_with('(') && s.ends_with(')') && s.matches('(').count() == 1 && s.matches(')').count() == 1) || body == s;
                    run.ensure(!(plain && parts.len() == 2 && parts.iter().all(|p| p.is_some())), "refused", || format!("{:?} is refused as a pair", s));
                }
            }
        }
    });
    c.family("no-dimension", "the short forms of a cylinder and of mixed walls: a number of dimensions from 1 on, alone, up to the largest of its type; zero, signed or not, negative ones and those beyond are refused", |run| {
        let t = run.pick(2);
        let s = run.of(&["0", "00", "+0", "-0", "1", "2", "7", "12", "64", "100", "127", "128", "255", "256", "1000", "1001", "65535", "65536", "4294967295", "4294967296", "18446744073709551615", "18446744073709551616", "-1", "1.0"]);
        let ok = any(run, t, s);
        let want = s.parse::<usize>().map_or(false, |x| x > 0);
        run.ensure(ok == want, "no-dimension", || format!("{:?} is {} as a {}", s, if ok { "accepted" } else { "refused" }, TYPES[t]));
    });
    // truncations and corruptions of well-formed texts
    let garbage = ["", "abc", "1e", "--1", "1.2.3", "0x10", "2,", ",", "..", "0..", "0..x", "x..3", "-", "\u{c790}", "1_000", "3)", "(3"];
    c.family("corrupted", "22 printed texts: every prefix (by character), every token removed, replaced or followed by each of 17 garbage tokens, every two tokens swapped, every required number replaced", move |run| {
        let list = printed();
        let (t, s, nums) = run.of(&list);
        let toks: Vec<String> = s.split(' ').map(|x| x.to_string()).collect();
        match run.pick(6) {
            0 => {
                let chars: Vec<char> = s.chars().collect();
                let k = run.pick(chars.len() + 1);
                let p: String = chars[..k].iter().collect();
                let ok = any(run, t, &p);
                if k == 0 {
                    run.ensure(!ok, "empty", || format!("the empty text is a {}", TYPES[t]));
                }
                if k == chars.len() {
                    run.ensure(ok, "well-formed", || format!("{:?} is refused as a {}", p, TYPES[t]));
                }
                // the value's number is cut off completely
                if let Some(first) = nums.first() {
                    let before = toks[..*first].join(" ").chars().count();
                    if k <= before && t != 3 && t != 9 {
                        run.ensure(!ok, "number-missing", || format!("{:?} is accepted as a {}", p, TYPES[t]));
                    }
                }
            }
            1 => {
                let i = run.pick(toks.len());
                let mut v = toks.clone();
                v.remove(i);
                any(run, t, &v.join(" "));
            }
            2 => {
                let i = run.pick(toks.len());
                let g = run.of(&garbage);
                let mut v = toks.clone();
                v[i] = g.to_string();
                any(run, t, &v.join(" "));
            }
            3 => {
                let i = run.pick(toks.len());
                let g = run.of(&garbage);
                let mut v = toks.clone();
                v.insert(i + 1, g.to_string());
                any(run, t, &v.join(" "));
            }
            4 => {
                let i = run.pick(toks.len());
                let j = run.pick(toks.len());
                let mut v = toks.clone();
                v.swap(i, j);
                any(run, t, &v.join(" "));
            }
            _ => {
                if nums.is_empty() {
                    return;
                }
                let i = run.of(&nums);
                let g = run.of(&["abc", "1e", "--1", "1.2.3", "0x10", "0..x", ",", "-", "1;2", "1_0", "1f64", "\u{661}"]);
                let mut v = toks.clone();
                // both places that name the dimension of a cylinder or a mixed wall
                for w in v.iter_mut() {
                    if w.contains("..") || *w == toks[i] {
                        *w = g.to_string();
                    }
                }
                let s = v.join(" ");
                let ok = any(run, t, &s);
                run.ensure(!ok, "malformed-number", || format!("{:?} is accepted as a {}", s, TYPES[t]));
            }
        }
    });
    // argument lists
    c.family("argument-count", "13 parameter sets: lists of 0 to twice the number of arguments (and more), all well-formed", move |run| {
        let ks = kinds();
        let i = run.pick(ks.len());
        let k = &ks[i];
        let n = run.pick(2 * k.num_args + 3);
        let words: Vec<String> = (0..n).map(|j| valid(k.types[j % k.types.len()])).collect();
        run.step();
        run.note(|| format!("{} {:?}", k.name, words));
        let r = catch(|| (k.read_vec)(&words).map(|a| a.all()));
        run.observe(&format!("{:?}", r.is_ok()));
        match r {
            Err(p) => run.fail("panic", format!("reading {:?} as arguments of {} panicked: {}", words, k.name, p)),
            Ok(r) => {
                run.ensure(r.is_ok() == (n == k.types.len()), "count", || format!("{} words {:?} as arguments of {}: {:?}", n, words, k.name, r.map_err(|e| format!("{:?}", e))));
            }
        }
    });
    c.family("blanks", "13 parameter sets, from a list: every field, and all fields, with blanks before, after or around the word are read as without", move |run| {
        let ks = kinds();
        let i = run.pick(ks.len());
        let k = &ks[i];
        let n = k.types.len();
        let j = run.pick(n + 1);
        let rest = run.pick(3);
        let (before, after) = run.of(&[(" ", ""), ("", " "), (" ", " "), ("   ", "  "), ("\t", ""), ("", "\t"), ("", "\n"), ("\n ", " \r\n")]);
        let plain: Vec<String> = k.types.iter().enumerate().map(|(m, t)| { let v = values(*t); v[(rest * 2 + m) % v.len()].0.trim().to_string() }).collect();
        let words: Vec<String> = plain.iter().enumerate().map(|(m, w)| if j == n || j == m { format!("{}{}{}", before, w, after) } else { w.clone() }).collect();
        run.step();
        let f = |w: &[String]| catch(|| (k.read_vec)(w).map(|a| a.fields()).map_err(|e| format!("{:?}", e)));
        let (x, y) = (f(&plain), f(&words));
        run.note(|| format!("{} {:?} -> {:?}", k.name, words, y));
        run.observe(&format!("{:?}", y));
        run.ensure(x == y && matches!(x, Ok(Ok(_))), "blanks", || format!("{} of {:?} is {:?}, of {:?} {:?}", k.name, plain, x, words, y));
    });
    c.family("argument-malformed", "13 parameter sets, from a list and from the lines of a header: every subset of the fields holds a malformed text (every one for single fields, each of 2 for more)", move |run| {
        let ks = kinds();
        let i = run.pick(ks.len());
        let k = &ks[i];
        let from_lines = run.flag();
        let mut words = vec![];
        let mut bad = 0;
        let single = run.flag();
        let which = if single { run.pick(k.types.len()) } else { 0 };
        for (j, &t) in k.types.iter().enumerate() {
            let m = malformed(t);
            if m.is_empty() || (single && j != which) {
                words.push(valid(t));
                continue;
            }
            let w = if single { run.of(&m).to_string() } else {
                match run.pick(3) {
                    0 => { words.push(valid(t)); continue; }
                    1 => m[0].to_string(),
                    _ => m[m.len() - 1].to_string(),
                }
            };
            bad += 1;
            words.push(w);
        }
        run.step();
        run.note(|| format!("{} {:?}", k.name, words));
        let r = if from_lines {
            // parameters that the kind fixes precede the given ones
            let ok: Vec<String> = k.types.iter().map(|t| valid(*t)).collect();
            let good = (k.read_vec)(&ok).expect("HARNESS: arguments").print(15);
            let fixed = good.lines().count() - k.types.len();
            let mut text: String = good.lines().take(fixed).map(|l| format!("{}\n", l)).collect();
            text.extend(k.names.iter().zip(&words).map(|(n, w)| format!("{:15}: {}\n", n, w)));
            let mut l = write_file(&text);
            catch(|| (k.read_lines)(&mut l).map(|a| a.all()))
        } else {
            catch(|| (k.read_vec)(&words).map(|a| a.all()))
        };
        match r {
            Err(p) => run.fail("panic", format!("reading {:?} as arguments of {} panicked: {}", words, k.name, p)),
            Ok(r) => {
                run.ensure(r.is_ok() == (bad == 0), "accepted", || format!("{:?} as arguments of {}: {:?}", words, k.name, r.map_err(|e| format!("{:?}", e))));
            }
        }
    });
    c.family("header", "13 parameter sets: the header cut after every character; every line removed, without its colon, empty, duplicated, or replaced by bytes that are no text; every line under each of up to 12 other names (longer, cut, other case, that of every other parameter)", move |run| {
        let ks = kinds();
        let i = run.pick(ks.len());
        let k = &ks[i];
        let words: Vec<String> = k.types.iter().map(|t| valid(*t)).collect();
        let good = (k.read_vec)(&words).expect("HARNESS: arguments");
        let text = good.print(15);
        let lines: Vec<&str> = text.lines().collect();
        run.step();
        if lines.len() < k.types.len() {
            return run.fail("lines", format!("the header of {} has {} lines for {} parameters: {:?}", k.name, lines.len(), k.types.len(), text));
        }
        // parameters that the kind fixes precede the given ones
        let fixed = lines.len() - k.types.len();
        let (t, must_fail, what): (Vec<u8>, bool, String) = match run.pick(7) {
            0 => {
                let n = run.pick(text.len() + 1);
                let cut: String = text.chars().take(n).collect();
                let complete = cut.lines().count() == lines.len() && cut.lines().last().map_or(false, |l| l.splitn(2, ':').nth(1).map_or(false, |v| !v.trim().is_empty()));
                // a number may be cut to a shorter number; only lost lines and lost values are decided
                let last_is_dir = *k.types.last().unwrap() == Ty::Dir;
                let lost = cut.lines().count() < lines.len() || (!complete && !last_is_dir) || !cut.lines().last().unwrap_or("").contains(':');
                (cut.clone().into_bytes(), lost, format!("cut after {:?}", cut))
            }
            1 => {
                let j = run.pick(lines.len());
                let mut v = lines.clone();
                v.remove(j);
                (v.join("\n").into_bytes(), true, format!("without line {}", j))
            }
            2 => {
                let j = run.pick(lines.len());
                let mut v: Vec<String> = lines.iter().map(|s| s.to_string()).collect();
                v[j] = v[j].replace(':', " ");
                (v.join("\n").into_bytes(), true, format!("without the colon of line {}", j))
            }
            3 => {
                let j = run.pick(lines.len());
                let mut v = lines.clone();
                v[j] = "";
                (v.join("\n").into_bytes(), true, format!("line {} empty", j))
            }
            4 => {
                let j = run.pick(lines.len());
                let mut v: Vec<Vec<u8>> = lines.iter().map(|s| s.as_bytes().to_vec()).collect();
                v[j] = vec![b'x', b':', 0xff, 0xfe, b'1'];
                (v.join(&b"\n"[..]), true, format!("line {} is no text", j))
            }
            5 => {
                let j = run.pick(lines.len());
                let mut v: Vec<String> = lines.iter().map(|s| s.to_string()).collect();
                let (name, value) = v[j].split_once(':').map(|(a, b)| (a.trim().to_string(), b.to_string())).unwrap_or_default();
                let mut other: Vec<String> = vec![
                    format!("{}_", name),
                    format!("{}x", name),
                    format!("{}1", name),
                    format!("{} {}", name, name),
                    format!("x{}", name),
                    format!("x {}", name),
                    format!("_{}", name),
                    name[..name.len() - 1].to_string(),
                    name[1..].to_string(),
                    name.to_uppercase(),
                    name.replace('_', " "),
                    "".to_string(),
                ];
                other.extend(k.names.iter().map(|n| n.to_string()));
                other.retain(|n| *n != name);
                let new = run.of(&other);
                v[j] = format!("{:<15}:{}", new, value);
                (v.join("\n").into_bytes(), true, format!("line {} under the name {:?}", j, new))
            }
            _ => {
                let j = run.pick(lines.len());
                let mut v: Vec<String> = lines.iter().map(|s| s.to_string()).collect();
                v[j] = format!("{} ???", v[j]);
                // words after a keyword are no part of the value
                let strict = j >= fixed && matches!(k.types[j - fixed], Ty::Real | Ty::Count | Ty::Seed | Ty::Pos);
                (v.join("\n").into_bytes(), strict, format!("line {} followed by garbage", j))
            }
        };
        run.note(|| format!("{}: {}", k.name, what));
        let p = thread_scratch("header.bin");
        std::fs::write(&p, &t).expect("HARNESS: write");
        let mut l = BufReader::new(File::open(&p).expect("HARNESS: open")).lines();
        let r = catch(|| (k.read_lines)(&mut l).map(|a| a.all()));
        run.observe(&format!("{:?}", matches!(r, Ok(Ok(_)))));
        match r {
            Err(p) => run.fail("panic", format!("the header of {} {}: reading panicked: {}", k.name, what, p)),
            Ok(Ok(a)) => {
                run.ensure(!must_fail, "accepted", || format!("the header of {} {} is read as {}", k.name, what, a));
            }
            Ok(Err(e)) => {
                run.ensure(t != text.as_bytes(), "refused", || format!("the complete header of {} is refused: {:?}", k.name, e));
            }
        }
    });
    c.family("analysis-arguments", "3 analyses: lists of 0 to 8 words that are numbers or a directory, and every subset of the words of a complete list malformed (each of 6 texts)", move |run| {
        use mcheck::ana::Which;
        let w = run.of(&[Which::Time, Which::Vec(2), Which::Process]);
        let base = matches!(w, Which::Vec(_)) as usize;
        let empty = thread_scratch("empty");
        let _ = std::fs::remove_dir_all(&empty);
        std::fs::create_dir_all(&empty).expect("HARNESS: mkdir");
        let dir = empty.to_str().unwrap().to_string();
        // by number of bins or by widths
        let form = run.pick(2);
        let mut list: Vec<String> = if base == 1 { vec!["2".into()] } else { vec![] };
        list.extend(if form == 0 { vec!["0.1", "10", "20"] } else { vec!["0.1", "10", "0.5", "1.2"] }.into_iter().map(String::from));
        list.push(dir.clone());
        let full = list.len();
        let what;
        if run.flag() {
            // another length
            let n = run.pick(9);
            if n == full || n == full - 1 && form == 1 || n == full + 1 && form == 0 {
                return;
            }
            list.resize(n, "1".into());
            if n > 0 {
                list[n - 1] = dir.clone();
            }
            what = "a wrong number of words";
        } else {
            let bad = run.of(&["x", "", "1,5", "--", "1 2", "0x10", "1_0"]);
            let mut any = false;
            for k in 0..full - 1 {
                if run.flag() {
                    list[k] = bad.to_string();
                    any = true;
                }
            }
            if !any {
                return;
            }
            what = "malformed numbers";
        }
        run.step();
        run.note(|| format!("{:?} {:?}", w, list));
        match catch(|| analyze(w, &list)) {
            Ok(r) => run.ensure(r.is_err(), "accepted", || format!("{:?}: an analysis with {} is accepted: {:?}", w, what, list)),
            Err(e) => return run.fail("panic", format!("{:?}: an analysis with {} panics: {:?}: {}", w, what, list, e)),
        };
        run.observe(&what);
    });
    c.finish()
}
