//! C13: a parameter set survives the header of its result file.
use mcheck::kinds::*;
use mcheck::*;
use moledyn::prelude::*;
use std::io::Write as _;

const WIDTHS: [usize; 12] = [0, 1, 5, 10, 15, 16, 40, 41, 60, 65, 256, 1000];

fn through_file(text: &str) -> Lines<BufReader<File>> {
    let p = thread_scratch("header.txt");
    let mut f = File::create(&p).expect("HARNESS: create");
    f.write_all(text.as_bytes()).expect("HARNESS: write");
    drop(f);
    BufReader::new(File::open(&p).expect("HARNESS: open")).lines()
}

/// Values far from the everyday ones, with the Debug text of each.
fn unusual(t: Ty) -> Vec<(String, String)> {
    let both = |s: String| (s.clone(), format!("{:?}", s));
    let real = |s: &str| (s.to_string(), format!("{:?}", s.parse::<f64>().expect("HARNESS: real")));
    let long_number = format!("0.{}123456789", "0".repeat(290));
    let long_digits = format!("1.{}", "3".repeat(700));
    let reals: Vec<&str> = vec!["0.12345678901234567", "1.7976931348623157e308", "5e-324", "2.2250738585072014e-308", "9007199254740993", "123456789012345680000", "0.30000000000000004", "-0", &long_number, &long_digits];
    match t {
        Ty::Real => reals.iter().map(|x| real(x)).collect(),
        Ty::Count => [u32::MAX as usize, u32::MAX as usize + 1, (1 << 53) + 1, usize::MAX].iter().map(|x| (format!("{}", x), format!("{:?}", x))).collect(),
        Ty::Seed => [u64::MAX as u128, u128::MAX - 1, 1 << 127, (1 << 53) + 1].iter().map(|x| (format!("{}", x), format!("{:?}", x))).collect(),
        Ty::Bc => [100usize, usize::MAX].iter().map(|x| (format!("{}", x), format!("{:?}", BoundaryCond::Mixed(*x)))).collect(),
        Ty::Cyl => [100usize, usize::MAX].iter().map(|x| (format!("{}", x), format!("{:?}", SystemType::ContinuousCylindrical(*x)))).collect(),
        Ty::Move => reals.iter().map(|x| (x.to_string(), format!("{:?}", MoveType::Brownian(x.parse().expect("HARNESS: real"))))).collect(),
        Ty::Pos | Ty::Init => [17usize, 64, 130, 1000, 3000]
            .iter()
            .map(|n| {
                let v: Vec<f64> = (0..*n).map(|i| (i as f64 - 7.5) * 0.1).collect();
                let s = v.iter().map(|x| format!("{}", x)).collect::<Vec<_>>().join(",");
                let p = Position::<f64>::new(v);
                (s, if t == Ty::Pos { format!("{:?}", p) } else { format!("{:?}", InitType::SpecificPosition(p)) })
            })
            .collect(),
        Ty::Dir => [100usize, 255, 256, 1023, 4096, 8192, 70_000]
            .iter()
            .map(|n| "abcdefg/".repeat(n / 8 + 1)[..*n].to_string() + "/z")
            .chain(["결과/데이터", "a\tb", "\"quoted\"", "a::b:", ":a", "a=b;c|d", "(a),(b)", "100%", "{}{0}", "a\\n", "#x", "../..", "output_dir: x", "-1", "ä é", "a  b   c"].iter().map(|x| x.to_string()))
            .map(both)
            .collect(),
    }
}

fn check(run: &mut Run, k: &Kind, words: &[String], want: &[String], width: usize) {
    let a = match catch(|| (k.read_vec)(words)) {
        Ok(Ok(a)) => a,
        Ok(Err(e)) => return run.fail("refused", format!("{:?} is refused as arguments of {}: {:?}", words, k.name, e)),
        Err(p) => return run.fail("panic", format!("{:?} as arguments of {} panicked: {}", words, k.name, p)),
    };
    run.observe(&a.all());
    let got = a.fields();
    run.ensure(got == want, "vector", || format!("{:?} as arguments of {} is {:?}, expected {:?}", words, k.name, got, want));
    let text = format!("{}end of header: 1\nnext\n", a.print(width));
    let mut l = through_file(&text);
    match catch(|| (k.read_lines)(&mut l)) {
        Ok(Ok(b)) => {
            run.ensure(b.fields() == want, "lines", || format!("the header (width {}) of {} {:?} is read as {:?}\n{}", width, k.name, want, b.fields(), text));
            let rest: Vec<String> = l.map(|x| x.unwrap_or_default()).collect();
            run.ensure(rest == vec!["end of header: 1", "next"], "position", || format!("after the header of {} the reader stands at {:?}", k.name, rest));
            run.ensure(b.print(width) == a.print(width), "fixed-point", || format!("the header of {} {:?} changes when it is read and written again", k.name, words));
        }
        Ok(Err(e)) => run.fail("lines", format!("the header (width {}) of {} {:?} is refused: {:?}\n{}", width, k.name, words, e, text)),
        Err(p) => run.fail("panic", format!("the header (width {}) of {} {:?} panicked: {}", width, k.name, words, p)),
    }
}

fn main() {
    mute_stdout();
    let mut c = Check::new("C13");
    c.assume("directory names neither begin nor end with a blank nor contain line breaks");
    c.family("single", "13 parameter sets: each field runs through all of its values (5 to 13) while the others hold each of 2 values, name widths 0..1000", move |run| {
        let ks = kinds();
        let i = run.pick(ks.len());
        let k = &ks[i];
        let j = run.pick(k.types.len());
        let vals = values(k.types[j]);
        let v = run.pick(vals.len());
        let rest = run.pick(2);
        let width = run.of(&WIDTHS);
        let (mut words, mut want) = (vec![], vec![]);
        for (m, &t) in k.types.iter().enumerate() {
            let d = values(t);
            let x = if m == j { &vals[v] } else { &d[(rest + m) % d.len()] };
            words.push(x.0.clone());
            want.push(x.1.clone());
        }
        run.step();
        run.note(|| format!("{} {:?} width {}", k.name, words, width));
        check(run, k, &words, &want, width);
    });
    c.family("long", "13 parameter sets: each field at each of its long or unusual values (texts of 100 to 70000 characters, of other scripts, with tabs, quotes, colons, brackets; positions of 17 to 3000 coordinates; numbers of 17 digits and at the limits of their types, name widths 0..200", move |run| {
        let ks = kinds();
        let i = run.pick(ks.len());
        let k = &ks[i];
        let j = run.pick(k.types.len());
        let vals = unusual(k.types[j]);
        if vals.is_empty() {
            return;
        }
        let v = run.pick(vals.len());
        let width = run.of(&[0usize, 15, 200]);
        let (mut words, mut want) = (vec![], vec![]);
        for (m, &t) in k.types.iter().enumerate() {
            let d = values(t);
            let x = if m == j { &vals[v] } else { &d[m % d.len()] };
            words.push(x.0.clone());
            want.push(x.1.clone());
        }
        run.step();
        run.note(|| format!("{} field {} value {:.100?} width {}", k.name, k.names[j], vals[v].0, width));
        check(run, k, &words, &want, width);
    });
    let few = c.q(3usize, 4);
    c.family("combined", &format!("13 parameter sets: all combinations of {} values per field (4 for up to 3 fields), width 15", few), move |run| {
        let ks = kinds();
        let i = run.pick(ks.len());
        let k = &ks[i];
        let n = if k.types.len() <= 3 { few + 2 } else { few };
        let (mut words, mut want) = (vec![], vec![]);
        for (m, &t) in k.types.iter().enumerate() {
            let d = values(t);
            let x = &d[(run.pick(n) * 2 + m) % d.len()];
            words.push(x.0.clone());
            want.push(x.1.clone());
        }
        run.step();
        run.note(|| format!("{} {:?}", k.name, words));
        check(run, k, &words, &want, 15);
    });
    c.family("documented", "13 parameter sets: the numbers announced, the names in help, short help and header and their order, for name widths 0..1000", move |run| {
        let ks = kinds();
        let i = run.pick(ks.len());
        let k = &ks[i];
        let width = run.of(&WIDTHS);
        run.step();
        run.note(|| format!("{} width {}", k.name, width));
        run.ensure(k.num_args == k.names.len() && k.pub_num_args == k.names.len(), "number", || format!("{} announces {} / {} arguments, it has {}", k.name, k.num_args, k.pub_num_args, k.names.len()));
        let up = |v: &Option<Vec<usize>>| v.as_ref().map_or(false, |v| v.windows(2).all(|w| w[0] < w[1]));
        let brief: String = (k.brief)();
        let parens: Vec<String> = k.names.iter().map(|n| format!("({})", n)).collect();
        let at: Option<Vec<usize>> = parens.iter().map(|n| brief.find(n.as_str())).collect();
        run.ensure(up(&at) && brief.matches('(').count() == k.names.len(), "brief", || format!("the short help of {} is {:?}", k.name, brief));
        let info = (k.info)(width);
        let heads: Vec<String> = info.lines().map(|l| l.split(':').next().unwrap_or("").trim().to_string()).collect();
        // the names fill the width, or stand alone if they are longer
        let filled = |l: &str| l.find(':').map_or(false, |at| at == width.max(l[..at].trim_end().len()));
        run.ensure(info.lines().all(filled), "help-width", || format!("the help of {} with names of width {}: {:?}", k.name, width, info));
        run.ensure(heads == k.names, "help", || format!("the help of {} (width {}) explains {:?}", k.name, width, heads));
        let words: Vec<String> = k.types.iter().map(|t| values(*t)[0].0.clone()).collect();
        if let Ok(a) = (k.read_vec)(&words) {
            let h = a.print(width);
            run.ensure(h.lines().all(filled), "header-width", || format!("the header of {} with names of width {}: {:?}", k.name, width, h));
            let heads: Vec<String> = h.lines().map(|l| l.split(':').next().unwrap_or("").trim().to_string()).collect();
run.ensure(heads.len() >= k.names.len() && heads[heads.len() - k.names.len()..] == k.names[..], "header", || format!("the header of {} (width {}) names {:?}", k.name, width, heads));
        }
    });
    let n = c.q(3usize, 4);
    c.family("sequence", &format!("all sequences of {} parameter sets out of 13 in one header, and the five sets of every simulation (3 systems, target, 4 agents, 2 clocks, 3 run sets), with 2 values per field and 3 widths", n), move |run| {
        let ks = kinds();
        let full = run.flag();
        let idx: Vec<usize> = if full {
            vec![run.pick(3), 3, 4 + run.pick(4), 8 + run.pick(2), 10 + run.pick(3)]
        } else {
            (0..n).map(|_| run.pick(ks.len())).collect()
        };
        let shift = run.pick(2);
        let width = run.of(&[0usize, 15, 40]);
        run.step();
        run.note(|| format!("{:?}", idx.iter().map(|i| ks[*i].name).collect::<Vec<_>>()));
        let mut text = String::new();
        let mut wants = vec![];
        for (pos, &i) in idx.iter().enumerate() {
            let k = &ks[i];
            let vals: Vec<(String, String)> = k.types.iter().enumerate().map(|(m, t)| { let d = values(*t); d[(pos + m + shift) % d.len()].clone() }).collect();
            let words: Vec<String> = vals.iter().map(|v| v.0.clone()).collect();
            match (k.read_vec)(&words) {
                Ok(a) => text.push_str(&a.print(width)),
                Err(e) => return run.fail("refused", format!("{:?} is refused as arguments of {}: {:?}", words, k.name, e)),
            }
            wants.push(vals.into_iter().map(|v| v.1).collect::<Vec<_>>());
        }
        text.push_str("the rest\n");
        let mut l = through_file(&text);
        for (pos, &i) in idx.iter().enumerate() {
            let k = &ks[i];
            match catch(|| (k.read_lines)(&mut l)) {
                Ok(Ok(b)) => {
                    run.ensure(b.fields() == wants[pos], "lines", || format!("parameter set {} ({}) is read as {:?}, expected {:?} from\n{}", pos, k.name, b.fields(), wants[pos], text));
                }
                Ok(Err(e)) => return run.fail("lines", format!("parameter set {} ({}) is refused: {:?}\n{}", pos, k.name, e, text)),
                Err(p) => return run.fail("panic", format!("parameter set {} ({}) panicked: {}", pos, k.name, p)),
            }
        }
        let rest: Vec<String> = l.map(|x| x.unwrap_or_default()).collect();
        run.ensure(rest == vec!["the rest"], "position", || format!("after the headers the reader stands at {:?}", rest));
    });
    c.finish()
}
