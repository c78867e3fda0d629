//! C24: an error tells its cause.
use mcheck::agents::*;
use mcheck::ana::{form, Which};
use mcheck::geo::*;
use mcheck::kinds::{kinds, malformed, values, Kind, Ty};
use mcheck::util::pos;
use mcheck::*;
use moledyn::error::{Category, ErrorCode};
use moledyn::analysis::{VarN, VarTime};
use moledyn::prelude::*;
use std::io;

const KINDS: [io::ErrorKind; 18] = [
    io::ErrorKind::NotFound, io::ErrorKind::PermissionDenied, io::ErrorKind::ConnectionRefused, io::ErrorKind::ConnectionReset, io::ErrorKind::AlreadyExists, io::ErrorKind::WouldBlock, io::ErrorKind::InvalidInput,
    io::ErrorKind::InvalidData, io::ErrorKind::TimedOut, io::ErrorKind::WriteZero, io::ErrorKind::Interrupted, io::ErrorKind::Unsupported, io::ErrorKind::UnexpectedEof, io::ErrorKind::OutOfMemory, io::ErrorKind::Other,
    io::ErrorKind::BrokenPipe, io::ErrorKind::NotConnected, io::ErrorKind::AddrInUse,
];
const TEXTS: [&str; 9] = ["", "plain", "two words", "with\nline", "{} %s", "Invalid Format", " padded ", "line\n", "\ttab\t"];

/// Every way to make an error: the error, its category, its text.
fn make(i: usize) -> Option<(Error, Category, String)> {
    let codes: [(fn() -> ErrorCode, &str); 10] = [
        (|| ErrorCode::InvalidDimension, "Invalid Dimension of vectors"),
        (|| ErrorCode::InvalidType, "Invalid Type input"),
        (|| ErrorCode::InvalidConfiguration, "Invalid Configuration is given"),
        (|| ErrorCode::InvalidNumberOfArguments, "Number of Arguments is invalid"),
        (|| ErrorCode::InvalidArgumentInput, "Given argument is invalid"),
        (|| ErrorCode::InvalidFormat, "Invalid Format"),
        (|| ErrorCode::InvalidFile, "Invalid File"),
        (|| ErrorCode::TooLargeTimeStep, "Time step is too large"),
        (|| ErrorCode::FeatureNotProvided, "Functionality is not provided yet"),
        (|| ErrorCode::UnexpectedEnd, "Function ends unexpectedly"),
    ];
    if i < codes.len() {
        return Some((Error::make_error_syntax(codes[i].0()), Category::Syntax, codes[i].1.to_string()));
    }
    let i = i - codes.len();
    if i < TEXTS.len() {
        return Some((Error::make_error_msg(TEXTS[i].to_string()), Category::Data, TEXTS[i].to_string()));
    }
    let i = i - TEXTS.len();
    if i < KINDS.len() * 3 {
        let (k, form) = (KINDS[i / 3], i % 3);
        let e = || if form == 0 { io::Error::from(k) } else { io::Error::new(k, TEXTS[form]) };
        return Some((Error::make_error_io(e()), Category::Io, e().to_string()));
    }
    let i = i - KINDS.len() * 3;
    if i < KINDS.len() {
        // while a header is read: bytes that are no text are a format error, everything else is the system's
        let k = KINDS[i];
        let e = || io::Error::new(k, "reading");
        return Some(if k == io::ErrorKind::InvalidData {
            (Error::make_error_read(e()), Category::Syntax, "Invalid Format".to_string())
        } else {
            (Error::make_error_read(e()), Category::Io, "reading".to_string())
        });
    }
    let i = i - KINDS.len();
    if i < 140 {
        let e = || io::Error::from_raw_os_error(i as i32 + 1);
        return Some((Error::make_error_io(e()), Category::Io, e().to_string()));
    }
    None
}

#[allow(dead_code)]
include!("../combos.inc.rs");

/// A writer that fails after some writes.
struct Failing {
    left: usize,
    kind: io::ErrorKind,
}
impl Write for Failing {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.left == 0 {
            return Err(io::Error::from(self.kind));
        }
        self.left -= 1;
        Ok(b.len().min(3))
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
/// An export of two ensembles.
fn with<R>(w: Which, time: impl FnOnce(TimeAnalysis) -> R, vec: impl FnOnce(TimeVecAnalysis) -> R, process: impl FnOnce(ProcessAnalysis) -> R) -> R {
    match w {
        Which::Time => {
            let mut a = TimeAnalysis::default();
            a.add_ensemble(1.0);
            a.add_ensemble(2e11);
            a.draw();
            time(a)
        }
        Which::Vec(_) => {
            let mut a = TimeVecAnalysis::default();
            a.add_ensemble(vec![1.0; 10]);
            a.add_ensemble(vec![2e11; 10]);
            a.draw();
            vec(a)
        }
        Which::Process => {
            let mut a = ProcessAnalysis::default();
            a.add_pair("1.0,2.0".parse().expect("HARNESS: pair"));
            a.add_pair("2e11,-2.0".parse().expect("HARNESS: pair"));
            a.add_ensemble();
            a.draw();
            process(a)
        }
    }
}
fn export<W: Write>(w: Which, d: &str, out: &mut W) -> Result<Error, String> {
    let (d, f) = (d.to_string(), "x.dat".to_string());
    let out = std::cell::RefCell::new(out);
    with(
        w,
        |a| outcome(|| a.export(3, *out.borrow_mut(), &d, &f)),
        |a| outcome(|| a.export(3, *out.borrow_mut(), &d, &f)),
        |a| outcome(|| a.export(3, *out.borrow_mut(), &d, &f)),
    )
}
fn dist<W: Write>(w: Which, log: bool, out: &mut W) -> Result<Error, String> {
    let out = std::cell::RefCell::new(out);
    with(
        w,
        |a| outcome(|| if log { a.export_log_scaled_distribution(3, *out.borrow_mut()) } else { a.export_distribution(3, *out.borrow_mut()) }),
        |a| outcome(|| if log { a.export_log_scaled_distribution(3, *out.borrow_mut()) } else { a.export_distribution(3, *out.borrow_mut()) }),
        |a| outcome(|| if log { a.export_log_scaled_distribution(3, *out.borrow_mut()) } else { a.export_distribution(3, *out.borrow_mut()) }),
    )
}

/// What came of an operation: nothing wrong, an error, a panic.
fn outcome<T: std::fmt::Debug>(f: impl FnOnce() -> Result<T, Error>) -> Result<Error, String> {
    match catch(f) {
        Ok(Ok(t)) => Err(format!("accepted: {:?}", t)),
        Ok(Err(e)) => Ok(e),
        Err(p) => Err(format!("panic: {}", p)),
    }
}
/// The operation has to fail for a reason of this category.
fn expect(run: &mut Run, what: &str, cat: Category, r: Result<Error, String>) {
    run.step();
    match r {
        Ok(e) => {
            run.ensure(e.classify() == cat, "reported", || format!("{}: {:?} is {:?}, expected {:?}", what, e, e.classify(), cat));
            run.ensure(!e.to_string().is_empty(), "silent", || format!("{}: {:?} says nothing", what, e));
        }
        Err(v) => run.fail("no-error", format!("{}: {}", what, v)),
    }
}

fn main() {
    mute_stdout();
    let mut c = Check::new("C24");
    let n = (0..).take_while(|i| make(*i).is_some()).count();
    c.family("one", &format!("{} errors: every code, messages, every kind of system error with and without a text, all system error numbers, reading errors: category, the three questions, text", n), move |run| {
        let (e, cat, text) = make(run.pick(n)).unwrap();
        run.step();
        run.note(|| format!("{:?}", e));
        run.ensure(e.classify() == cat, "category", || format!("{:?} is {:?}, expected {:?}", e, e.classify(), cat));
        run.ensure((e.is_io(), e.is_data(), e.is_syntax()) == (cat == Category::Io, cat == Category::Data, cat == Category::Syntax), "question", || format!("{:?}: io {} data {} syntax {}", e, e.is_io(), e.is_data(), e.is_syntax()));
        run.ensure(e.to_string() == text, "text", || format!("{:?} says {:?}, expected {:?}", e, e.to_string(), text));
        run.observe(&text);
    });
    c.family("two", &format!("all pairs of {} errors: equal exactly when they are of one category, both ways round", n), move |run| {
        let (a, ca, _) = make(run.pick(n)).unwrap();
        let (b, cb, _) = make(run.pick(n)).unwrap();
        run.step();
        run.ensure((a == b) == (ca == cb) && (b == a) == (ca == cb), "equality", || format!("{:?} == {:?} is {}", a, b, a == b));
        run.observe(&(ca == cb));
    });
    c.family("reported", "the operations of the library that fail for the system's reason (a missing file, a directory instead of a file, no permission to look) or for that of the input (bytes that are no text, a wrong header, a wrong dimension, a malformed word): the category is that of the cause", move |run| {
        let case = run.pick(9);
        let dir = thread_scratch("errors");
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(&dir).expect("HARNESS: directory");
        let file = dir.join("f.dat");
        let put = |b: &[u8]| std::fs::write(&file, b).expect("HARNESS: write");
        run.step();
        let mut rng = rng_seed(1);
        let sys = ContCircSystem::new(1.0, 2);
        let lines = |b: &[u8]| -> Result<Error, String> {
            put(b);
            let mut l = BufReader::new(std::fs::File::open(&file).expect("HARNESS: open")).lines();
            ContCircSystem::read_args_from_lines(&mut l).map(|a| format!("{:?}", a)).map_or_else(Ok, Err)
        };
        let (what, r, cat): (&str, Result<Error, String>, Category) = match case {
            0 => ("header lines that are no text", lines(b"sys_type : \xff\xfe\n"), Category::Syntax),
            1 => ("no header at all", lines(b""), Category::Syntax),
            2 => ("a header of something else", lines(b"color : red\nsize : 3\n"), Category::Syntax),
            3 => {
                put(b"");
                let mut l = BufReader::new(std::fs::File::open(&dir).expect("HARNESS: open")).lines();
                ("a directory read as a header", ContCircSystem::read_args_from_lines(&mut l).map(|_| String::new()).map_or_else(Ok, Err), Category::Io)
            }
            4 => ("a position of another dimension", sys.check_inclusion(&Position::new(vec![0.0; 3])).map(|_| String::new()).map_or_else(Ok, Err), Category::Syntax),
            5 => ("a random position of another dimension", sys.random_pos_to_vec(&mut rng, &mut Position::new(vec![0.0; 3])).map(|_| String::new()).map_or_else(Ok, Err), Category::Syntax),
            6 => ("a malformed word", "Brown".parse::<MoveType>().map(|_| String::new()).map_or_else(Ok, Err), Category::Syntax),
            7 => ("too few words", ContCircSystem::read_args_from_vec(&["1".to_string()]).map(|_| String::new()).map_or_else(Ok, Err), Category::Syntax),
            _ => {
                let mut p = Position::new(vec![0.5, 0.5]);
                let mut d = Position::new(vec![50.0, 0.5]);
                ("a step too large", sys.check_bc(&mut p, &mut d).map(|_| String::new()).map_or_else(Ok, Err), Category::Syntax)
            }
        };
        match r {
            Ok(e) => {
                run.ensure(e.classify() == cat, "reported", || format!("{}: {:?} is {:?}, expected {:?}", what, e, e.classify(), cat));
            }
            Err(v) => run.fail("no-error", format!("{} is accepted: {}", what, v)),
        }
        run.observe(&case);
    });
    c.family("dimensions", "all shapes of dimension 1-4 x every wrong dimension 0-6: inclusion, walls (position, displacement), random and outside positions, targets, agents of four kinds: the refusal is a syntax error", move |run| {
        let shapes = shapes(&[1, 2, 3, 4], &[1.5]);
        let sh = shapes[run.pick(shapes.len())].clone();
        let wrong = run.pick(7);
        let op = run.pick(10);
        let dim = sh.dim();
        if wrong == dim {
            return run.disabled();
        }
        let sys = sh.sys();
        let sys = sys.dynamic();
        let mut rng = rng_seed(1);
        let what = format!("{:?}, operation {} in dimension {}", sh, op, wrong);
        run.note(|| what.clone());
        let right = pos(&vec![0.1; dim]);
        let bad = pos(&vec![0.1; wrong]);
        let kind = wrong % 4;
        let brown = MoveType::Brownian(1.0);
        let r = match op {
            0 => outcome(|| sys.check_inclusion(&bad)),
            1 => outcome(|| sys.check_bc(&mut bad.clone(), &mut right.clone())),
            2 => outcome(|| sys.check_bc(&mut right.clone(), &mut bad.clone())),
            3 => outcome(|| sys.random_pos_to_vec(&mut rng, &mut bad.clone())),
            4 => outcome(|| sys.position_out_of_system_to_vec(&mut bad.clone())),
            5 => outcome(|| ContBulkTarget::new(right.clone(), 0.5).check_find(&bad)),
            6 => outcome(|| {
                let mut v = bad.clone();
                Ag::at(kind, brown, &right.coordinate).random_move_to_vec(&mut rng, 0.1, &mut v)
            }),
            7 => outcome(|| Ag::at(kind, brown, &right.coordinate).disp(&Ag::at(kind, brown, &bad.coordinate))),
            8 => outcome(|| Ag::at(kind, brown, &right.coordinate).dist(&Ag::at(kind, brown, &bad.coordinate))),
            _ => outcome(|| Ag::at(kind, brown, &right.coordinate).disp_to(&Ag::at(kind, brown, &right.coordinate), &mut bad.clone())),
        };
        if wrong == 0 && op >= 5 {
            return run.disabled();
        }
        expect(run, &what, Category::Syntax, r);
        run.observe(&op);
    });
    c.family("vectors", "in-place and checked vector operations on all pairs of different dimensions 0-6, motion and merging that is not provided, clocks and limits that are impossible, binnings that are meaningless: syntax errors", |run| {
        let (a, b) = (run.pick(7), run.pick(7));
        if a == b {
            return run.disabled();
        }
        let (x, y) = (pos(&vec![1.0; a]), pos(&vec![2.0; b]));
        for (what, r) in [
            ("distance", outcome(|| x.distance(&y))),
            ("inner product", outcome(|| x.inner_product(&y))),
        ] {
            expect(run, &format!("{} of dimensions {} and {}", what, a, b), Category::Syntax, r);
        }
        for kind in 0..4 {
            let ag = Ag::at(kind, MoveType::Levy, &[0.0; 2]);
            let mut rng = rng_seed(2);
            expect(run, "a Levy step", Category::Syntax, outcome(|| ag.random_move(&mut rng, 0.1)));
            expect(run, "a Levy step", Category::Syntax, outcome(|| ag.random_move_to_vec(&mut rng, 0.1, &mut pos(&[0.0; 2]))));
        }
        let bad = [-1.0, -1e-300][a % 2];
        expect(run, "constant clock", Category::Syntax, outcome(|| ConstStep::new(bad)));
        expect(run, "constant clock", Category::Syntax, outcome(|| ConstStep::new(0.0)));
        expect(run, "constant clock, limit", Category::Syntax, outcome(|| ConstStep::new(1.0).unwrap().set_tmax(bad)));
        expect(run, "exponential clock", Category::Syntax, outcome(|| ExponentialStep::new(bad, 1.0, 10)));
        expect(run, "exponential clock", Category::Syntax, outcome(|| ExponentialStep::new(1.0, 0.5, 10)));
        expect(run, "exponential clock, limit", Category::Syntax, outcome(|| ExponentialStep::new(0.1, 1.0, 10).unwrap().set_tmax(bad)));
        run.observe(&(a, b));
    });
    c.family("texts", "every malformed text of every parameter type at every place of every parameter set, and every wrong number of words: syntax errors; and all malformed texts of every type read directly", |run| {
        let ks: Vec<Kind> = kinds();
        let k = &ks[run.pick(ks.len())];
        let good: Vec<String> = k.types.iter().map(|t| values(*t)[0].0.clone()).collect();
        let i = run.pick(good.len() + 1);
        if i == good.len() {
            let n = run.pick(good.len() + 4);
            if n == good.len() {
                return run.disabled();
            }
            let mut w = good.clone();
            w.resize(n, "1".into());
            return expect(run, &format!("{} with {} words", k.name, n), Category::Syntax, outcome(|| (k.read_vec)(&w).map(|a| a.all())));
        }
        let bad = malformed(k.types[i]);
        if bad.is_empty() {
            return run.disabled();
        }
        let t = run.of(&bad);
        let mut w = good.clone();
        w[i] = t.to_string();
        expect(run, &format!("{} of {:?}", k.name, w), Category::Syntax, outcome(|| (k.read_vec)(&w).map(|a| a.all())));
        let direct = match k.types[i] {
            Ty::Bc => Some(outcome(|| t.parse::<BoundaryCond>())),
            Ty::Cyl => Some(outcome(|| t.parse::<SystemType>())),
            Ty::Pos => Some(outcome(|| t.parse::<Position<f64>>())),
            Ty::Move => Some(outcome(|| t.parse::<MoveType>())),
            Ty::Init => Some(outcome(|| t.parse::<InitType<f64>>())),
            _ => None,
        };
        if let Some(r) = direct {
            expect(run, t, Category::Syntax, r);
        }
        run.observe(&(k.name, i, t));
    });
    c.family("analyses", "three analyses: export into a missing directory or one of its parts, through a writer that fails at its first or second write with each kind of error, analysis of a file in place of the directory, of a directory that may not be made (system errors); every wrong number and malformed argument, malformed samples, cut headers (syntax errors)", |run| {
        let w = [Which::Time, Which::Vec(2), Which::Process][run.pick(3)];
        let case = run.pick(11);
        let dir = thread_scratch("cause");
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(&dir).expect("HARNESS: directory");
        let d = dir.to_str().unwrap().to_string();
        let mut args: Vec<String> = if let Which::Vec(n) = w { vec![n.to_string()] } else { vec![] };
        let fixed = args.len();
        args.extend(["1", "11", "10", "Data"].map(|s| s.to_string()));
        *args.last_mut().unwrap() = d.clone();
        let analyze = |a: &[String]| outcome(|| m0000::analyze(w, a, "Prefix"));
        run.note(|| format!("{:?} case {} {:?}", w, case, args));
        let _ = form(w, 10);
        match case {
            0 => {
                std::fs::write(dir.join("file"), b"x").expect("HARNESS: write");
                *args.last_mut().unwrap() = format!("{}/file", d);
                expect(run, "a file in place of the directory", Category::Io, analyze(&args));
            }
            1 => {
                std::fs::write(dir.join("file"), b"x").expect("HARNESS: write");
                *args.last_mut().unwrap() = format!("{}/file/inner", d);
                expect(run, "a directory inside a file", Category::Io, analyze(&args));
            }
            2 => {
                *args.last_mut().unwrap() = format!("{}/{}", d, "n".repeat(300));
                expect(run, "a name that is too long", Category::Io, analyze(&args));
            }
            3 => {
                let n = run.pick(9);
                if n == args.len() || n == args.len() + 1 {
                    return run.disabled();
                }
                args.resize(n, "1".into());
                // the directory's name must not be used if the number is wrong
                expect(run, &format!("{} arguments", n), Category::Syntax, analyze(&args));
            }
            4 | 5 => {
                let i = run.pick(fixed + 3 + case - 4);
                if case == 5 {
                    args.insert(fixed + 2, "0.5".into());
                    args[fixed + 3] = "1.5".into();
                }
                args[i] = run.of(&["", "x", "1.2.3", "-"]).to_string();
                expect(run, &format!("{:?}", args), Category::Syntax, analyze(&args));
            }
            6 => {
                let bad = run.of(&[["10", "1"], ["1", "1"]]);
                args[fixed] = bad[0].into();
                args[fixed + 1] = bad[1].into();
                expect(run, &format!("{:?}", args), Category::Syntax, analyze(&args));
            }
            9 => {
                // a part of the output directory is missing, or is a file
                let part = run.pick(4);
                for (i, sub) in ["linear_distribution", "logarithmic_distribution"].iter().enumerate() {
                    match part {
                        _ if part & 1 != i => std::fs::create_dir_all(dir.join(sub)).expect("HARNESS: directory"),
                        0 | 1 => {}
                        _ => std::fs::write(dir.join(sub), b"x").expect("HARNESS: write"),
                    }
                }
                expect(run, "an export into a missing directory", Category::Io, export(w, &d, &mut Vec::new()));
            }
            10 => {
                for sub in ["linear_distribution", "logarithmic_distribution"] {
                    std::fs::create_dir_all(dir.join(sub)).expect("HARNESS: directory");
                }
                let kind = run.of(&KINDS);
                if kind == io::ErrorKind::Interrupted {
                    return run.disabled();
                }
                let target = run.pick(3);
                let at = run.pick(2);
                let mut f = Failing { left: at, kind };
                match target {
                    0 => expect(run, "the summary", Category::Io, if at == 0 { export(w, &d, &mut f) } else { return run.disabled() }),
                    1 => expect(run, "the linear distribution", Category::Io, dist(w, false, &mut f)),
                    _ => expect(run, "the logarithmic distribution", Category::Io, dist(w, true, &mut f)),
                }
                run.observe(&(kind as u32, target));
            }
            _ => {
                // a matching result with a line that is no sample, or that is no text
                let list = combos();
                let c = list.iter().find(|c| c.kinds == [0, 3, 4, 8, 10]).expect("HARNESS: combination");
                let ks = kinds();
                let words: [Vec<String>; 5] = std::array::from_fn(|i| ks[c.kinds[i]].types.iter().map(|t| values(*t)[0].0.clone()).collect());
                let h = (c.make)(&words).expect("HARNESS: parameters").1;
                let h = h.strip_prefix("first line\n").expect("HARNESS: header").to_string();
                let mut text = format!("========================    DESCRIPTIONS    ==========================\n{}========================     DATA STARTS    ==========================\n", h).into_bytes();
                let bad: &[u8] = if case == 7 { run.of(&[&b"nothing\n"[..], b"1.2.3\n", b"1:\n", b"\n"]) } else { b"1.0\n\xff\xfe\n" };
                text.extend(bad);
                std::fs::write(dir.join("Prefix_result.dat"), &text).expect("HARNESS: write");
                let cat = if case == 7 { Category::Syntax } else { Category::Io };
                if case == 8 && !matches!(w, Which::Time) || bad == b"\n" {
                    return run.disabled();
                }
                expect(run, &format!("samples {:?}", String::from_utf8_lossy(bad)), cat, analyze(&args));
            }
        }
        run.observe(&case);
    });
    c.finish()
}
