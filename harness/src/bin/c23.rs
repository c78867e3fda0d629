//! C23: structures, headings and rows made by the library's macros carry every field, in order.
use mcheck::*;
use moledyn::macros::TypeName;
use moledyn::prelude::*;

construct_structure!(Mixed, 4, kind, AgentType, AgentType::ContinuousPassiveInteracting, limit, f64, 2.5; small, u8, big, i128, real, f64, name, String);
construct_structure!(Plain, 0;);

#[allow(dead_code)]
struct Probe {
    num: usize,
}
impl_argument_trait!(Probe, "Probe of a user", ProbeArguments, 5, mark, TargetType, TargetType::ContinuousInBulk; count, usize, "How many. ex) 3 : three", depth, i32, "How deep", rate, f64, "How fast", label, String, "What", at, Position<f64>, "Where");

impl Probe {
    #[allow(dead_code)]
    fn convert_from(a: &ProbeArguments) -> Self {
        Probe { num: a.count }
    }
}

#[derive(Clone, Debug)]
struct Numbers {
    a: usize,
    b: u8,
    c: u16,
    d: u32,
    e: u64,
    f: u128,
    g: i8,
    h: i16,
    i: i32,
    j: i64,
    k: i128,
    single: f32,
    double: f64,
}
impl Numbers {
    export_form!(form, a, b, c, d, e, f, g, h, i, j, k, single, double);
    pub_export_form!(pub_form, a, b, c, d, e, f, g, h, i, j, k, single, double);
    export_data!(data, a, b, c, d, e, f, g, h, i, j, k, single, double);
    pub_export_data!(pub_data, a, b, c, d, e, f, g, h, i, j, k, single, double);
    export_form!(form_some, double, a, long_name_of_a_column);
    export_data!(data_some, double, a);
}
/// A number type the library does not know.
#[derive(Clone, Copy)]
struct Unknown(u8);
impl std::fmt::Display for Unknown {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        self.0.fmt(f)
    }
}
impl std::fmt::LowerExp for Unknown {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        std::fmt::LowerExp::fmt(&self.0, f)
    }
}
impl TypeName for Unknown {
    fn type_of(&self) -> &'static str {
        "unknown"
    }
}
struct Named {
    n: usize,
    s: Unknown,
}
impl Named {
    export_data!(last, n, s);
    pub_export_data!(pub_last, n, s);
    export_data!(first, s, n);
    export_data!(number, n);
}
const NAMES: [&str; 13] = ["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "single", "double"];

fn padded(word: &str, width: usize) -> String {
    let n = word.chars().count();
    format!("{}{}", word, " ".repeat(width.saturating_sub(n)))
}

fn main() {
    mute_stdout();
    let mut c = Check::new("C23");
    c.assume("the structures are those of the check: every number type, a text, determined fields, an empty structure");
    c.family("structures", "a structure of four fields and two determined ones over all combinations of 5 x 5 x 8 x 4 values: new, the fields, clear, equality with every neighbour", |run| {
        let small = run.of(&[0u8, 1, 7, 254, 255]);
        let big = run.of(&[0i128, -1, 1, i128::MIN, i128::MAX]);
        let real = run.of(&[0.0, -0.5, 1e-300, 1.7e308, 0.1, 123456789.125, f64::MIN_POSITIVE, -3.0]);
        let name = run.of(&["", "x", "with words", "a:b"]);
        run.step();
        let m = Mixed::new(small, big, real, name.to_string());
        run.ensure(m.small == small && m.big == big && m.real == real && m.name == name, "fields", || format!("new({},{},{},{:?}) is {:?}", small, big, real, name, m));
        run.ensure(m.kind == AgentType::ContinuousPassiveInteracting && m.limit == 2.5, "determined", || format!("determined fields of {:?}", m));
        run.ensure(Mixed::NUM_ARGS == 4 && Plain::NUM_ARGS == 0, "number", || format!("{} and {} arguments", Mixed::NUM_ARGS, Plain::NUM_ARGS));
        run.ensure(m == m.clone(), "equality", || format!("{:?} differs from its copy", m));
        let near = [
            Mixed::new(small ^ 1, big, real, name.into()),
            Mixed::new(small, big ^ 1, real, name.into()),
            Mixed::new(small, big, real + real.abs().max(1.0), name.into()),
            Mixed::new(small, big, real, format!("{}!", name)),
        ];
        for n in &near {
            run.ensure(*n != m, "equality", || format!("{:?} equals {:?}", n, m));
        }
        let mut z = m.clone();
        z.kind = AgentType::ContinuousPassiveIndependent;
        z.limit = -1.0;
        z.clear();
        run.ensure(z == Mixed::new(0, 0, 0.0, String::new()), "clear", || format!("{:?} cleared is {:?}", m, z));
        z.clear();
        run.ensure(z == Mixed::new(0, 0, 0.0, String::new()), "clear", || format!("{:?} cleared twice is {:?}", m, z));
        let p = Plain::new();
        let mut q = p.clone();
        q.clear();
        run.ensure(p == q, "clear", || "the empty structure".into());
        run.observe_f64(real);
        run.observe(&(small, big, name));
    });
    c.family("rows", "a row of 13 numbers, one of every type: each at each of 6 values (limits, zero, one) while the others hold each of 2; widths and precisions 0 to 30 and 7 up to 1000; headings and rows, both forms", |run| {
        let which = run.pick(13);
        let base = run.pick(2) as i8;
        let v = run.pick(6);
        let wide = [40usize, 41, 64, 65, 100, 256, 1000];
        let width = run.pick(31 + wide.len());
        let width = if width > 30 { wide[width - 31] } else { width };
        let mut n = Numbers { a: base as usize, b: base as u8, c: base as u16, d: base as u32, e: base as u64, f: base as u128, g: base, h: base as i16, i: base as i32, j: base as i64, k: base as i128, single: base as f32 + 0.5, double: base as f64 - 0.1 };
        macro_rules! ints { ($f:ident, $t:ty) => { n.$f = [<$t>::MIN, <$t>::MAX, 0, 1, 10, 100][v] }; }
        match which {
            0 => ints!(a, usize),
            1 => ints!(b, u8),
            2 => ints!(c, u16),
            3 => ints!(d, u32),
            4 => ints!(e, u64),
            5 => ints!(f, u128),
            6 => ints!(g, i8),
            7 => ints!(h, i16),
            8 => ints!(i, i32),
            9 => ints!(j, i64),
            10 => ints!(k, i128),
            11 => n.single = [f32::MIN, f32::MAX, f32::MIN_POSITIVE, 0.0, -1.5e-7, 16777217.0][v],
            _ => n.double = [f64::MIN, f64::MAX, f64::MIN_POSITIVE, 0.0, -1.0 / 3.0, 1e22][v],
        }
        run.step();
        run.note(|| format!("{:?} width {}", n, width));
        let ints = [n.a.to_string(), n.b.to_string(), n.c.to_string(), n.d.to_string(), n.e.to_string(), n.f.to_string(), n.g.to_string(), n.h.to_string(), n.i.to_string(), n.j.to_string(), n.k.to_string()];
        let want: String = NAMES.iter().map(|s| padded(s, width)).collect();
        run.ensure(Numbers::form(width) == want && Numbers::pub_form(width) == want, "headings", || format!("{:?} / {:?}, expected {:?}", Numbers::form(width), Numbers::pub_form(width), want));
        let some: String = ["double", "a", "long_name_of_a_column"].iter().map(|s| padded(s, width)).collect();
        run.ensure(Numbers::form_some(width) == some, "headings", || format!("{:?}, expected {:?}", Numbers::form_some(width), some));
        for public in [false, true] {
            let r = if public { n.pub_data(width) } else { n.data(width) };
            let r = match r {
                Ok(r) => r,
                Err(e) => return run.fail("refused", format!("the row of {:?} is refused: {:?}", n, e)),
            };
            let cells: Vec<&str> = r.split('\t').collect();
            if !run.ensure(cells.len() == 14 && cells[13].is_empty(), "cells", || format!("{:?} has {} cells", r, cells.len() - 1)) {
                return;
            }
            for (i, w) in ints.iter().enumerate() {
                run.ensure(cells[i] == padded(w, width), "integer", || format!("column {} of {:?} is {:?}, expected {}", NAMES[i], n, cells[i], w));
            }
            for i in 11..13 {
                let x = if i == 11 { n.single as f64 } else { n.double };
                let got: Option<f64> = if i == 11 { cells[i].trim().parse::<f32>().ok().map(|x| x as f64) } else { cells[i].trim().parse().ok() };
                let ok = match got {
                    None => false,
                    Some(g) if !public => g == x && cells[i].len() >= width,
                    // printed with that many digits
                    Some(g) => g.is_infinite() || (g - x).abs() <= 0.51 * 10f64.powi(-(width as i32)) * 10f64.powi(if x == 0.0 { 0 } else { x.abs().log10().floor() as i32 + 1 }) || g == x,
                };
                run.ensure(ok && cells[i].contains('e'), "real", || format!("column {} of {:?} is {:?} (width {}, public {})", NAMES[i], n, cells[i], width, public));
                if public {
                    let digits = cells[i].split('e').next().unwrap().split('.').nth(1).map_or(0, |d| d.len());
                    run.ensure(digits == width, "precision", || format!("{:?} has {} digits, {} are asked for", cells[i], digits, width));
                }
            }
            run.observe(&r);
        }
        let r = n.data_some(width);
        let ok = matches!(&r, Ok(r) if r.split('\t').count() == 3 && r.split('\t').nth(1).unwrap().trim() == ints[0] && r.split('\t').next().unwrap().trim().parse::<f64>().ok() == Some(n.double));
        run.ensure(ok, "order", || format!("the row (double, a) of {:?} is {:?}", n, r));
        let t = [
            n.a.type_of(), n.b.type_of(), n.c.type_of(), n.d.type_of(), n.e.type_of(), n.f.type_of(), n.g.type_of(), n.h.type_of(), n.i.type_of(), n.j.type_of(), n.k.type_of(), n.single.type_of(), n.double.type_of(),
        ];
        run.ensure(t == ["usize", "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "f32", "f64"], "types", || format!("{:?}", t));
    });
    c.family("no-number", "rows with a column of a type that is no number type of the library are refused, for 3 values, first or last, and widths 0 to 20", |run| {
        let s = run.of(&[0u8, 1, 200]);
        let width = run.pick(21);
        let n = Named { n: 3, s: Unknown(s) };
        run.step();
        run.note(|| format!("{:?} width {}", s, width));
        run.ensure(n.last(width).is_err() && n.pub_last(width).is_err() && n.first(width).is_err(), "accepted", || format!("a row with the unknown {:?} is {:?}, {:?}, {:?}", s, n.last(width), n.pub_last(width), n.first(width)));
        let r = n.number(width);
        run.ensure(matches!(&r, Ok(r) if *r == format!("{}\t", padded("3", width))), "integer", || format!("{:?}", r));
        run.observe(&width);
    });
    c.family("parameters", "a user's parameter set of five fields of five types (one determined field): 3 values each, from a list and from its own lines with name widths 0 to 1000; lists of 0 to 8 words; the names in help, short help and header", |run| {
        let ci = run.of(&["0", "17", "18446744073709551615"]);
        let di = run.of(&["-2147483648", "0", "12"]);
        let re = run.of(&["1e-300", "-0.25", "12345.5"]);
        let la = run.of(&["plain", "a:b", "two words"]);
        let at = run.of(&["1", "0.5:-2", "1e5:2:3"]);
        let width = run.of(&[0usize, 1, 5, 6, 20, 40, 41, 65, 256, 1000]);
        run.step();
        let w: Vec<String> = [ci, di, re, la, at].iter().map(|s| s.to_string()).collect();
        let a = match Probe::read_args_from_vec(&w) {
            Ok(a) => a,
            Err(e) => return run.fail("refused", format!("{:?} is refused: {:?}", w, e)),
        };
        let pos: Vec<f64> = at.split(':').map(|x| x.parse().unwrap()).collect();
        let ok = a.count.to_string() == ci && a.depth.to_string() == di && a.rate == re.parse::<f64>().unwrap() && a.label == la && a.at.coordinate == pos && a.mark == TargetType::ContinuousInBulk;
        run.ensure(ok, "fields", || format!("{:?} is read as {:?}", w, a));
        for n in 0..=8usize {
            let mut v = w.clone();
            v.resize(n, "1".into());
            let r = catch(|| Probe::read_args_from_vec(&v).is_ok());
            run.ensure(r == Ok(n == 5), "count", || format!("{} words: {:?}", n, r));
        }
        let text = a.print_configuration(width);
        let lines: Vec<&str> = text.lines().collect();
        let names = ["mark", "count", "depth", "rate", "label", "at"];
        let ok = lines.len() == 6 && lines.iter().zip(names).all(|(l, n)| l.split(':').next().map(|x| x.trim()) == Some(n) && l.find(':') == Some(width.max(n.len())));
        run.ensure(ok, "header", || format!("{:?}", text));
        let path = thread_scratch("probe.dat");
        std::fs::write(&path, format!("{}after\n", text)).expect("HARNESS: write");
        let mut l = BufReader::new(std::fs::File::open(&path).expect("HARNESS: open")).lines();
        let b = Probe::read_args_from_lines(&mut l);
        run.ensure(matches!(&b, Ok(b) if *b == a), "round-trip", || format!("{:?} reads back as {:?}", text, b));
        let rest: Vec<String> = l.map(|x| x.unwrap_or_default()).collect();
        run.ensure(rest == ["after"], "reader", || format!("the reader is left before {:?}", rest));
        // another determined field: a file of another kind
        let other = text.replacen(&lines[0], &lines[0].replace("Bulk", "Nothing"), 1);
        std::fs::write(&path, &other).expect("HARNESS: write");
        let mut l = BufReader::new(std::fs::File::open(&path).expect("HARNESS: open")).lines();
        let r = catch(|| Probe::read_args_from_lines(&mut l).is_ok());
        run.ensure(r == Ok(false), "other-kind", || format!("{:?}: {:?}", other, r));
        let info = Probe::info(width);
        let heads: Vec<&str> = info.lines().map(|l| l.split(':').next().unwrap().trim()).collect();
        let ok = info.lines().zip(&names[1..]).all(|(l, n)| l.find(':') == Some(width.max(n.len())));
        run.ensure(ok, "help-width", || format!("width {}: {:?}", width, info));
        run.ensure(heads == names[1..], "help", || format!("{:?}", info));
        let ok = ["How many. ex) 3 : three", "How deep", "How fast", "What", "Where"].iter().zip(info.lines()).all(|(d, l)| l.ends_with(d));
        run.ensure(ok, "help", || format!("{:?}", info));
        let brief = Probe::brief_info();
        let at: Vec<Option<usize>> = names[1..].iter().map(|n| brief.find(&format!("({})", n))).collect();
        run.ensure(brief.starts_with("Probe of a user") && at.iter().all(|x| x.is_some()) && at.windows(2).all(|w| w[0] < w[1]), "short-help", || brief.clone());
        run.observe(&text);
    });
    c.finish()
}
