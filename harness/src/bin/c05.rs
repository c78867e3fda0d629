//! C05: a pass over pairs produces every unordered pair of live elements exactly once, also when
//! elements are removed or merged away while the pass is running.
use mcheck::*;
use moledyn::agent_mod::Merge;
use moledyn::prelude::{Error, LinkedList};

#[derive(Clone, Hash, PartialEq, Debug)]
enum Cursor {
    None,
    Single(Vec<usize>),
    /// pairs not produced yet
    Pairs(Vec<(usize, usize)>),
}

fn pairs(live: &[usize]) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for a in 0..live.len() {
        for b in a + 1..live.len() {
            v.push((live[a], live[b]));
        }
    }
    v
}

fn next_pair(l: &mut LinkedList<i64>, kind: usize) -> Option<(usize, usize)> {
    match kind {
        0 => l.indicies_double(),
        1 => l.enumerate_double().map(|(i, x, j, y)| {
            assert!(*x == i as i64 && *y == j as i64, "pair content does not belong to its index");
            (i, j)
        }),
        _ => l.get_double().map(|(x, y)| (*x as usize, *y as usize)),
    }
}

fn body(run: &mut Run, hist: &[u32], n: usize, kind: usize) -> u64 {
    // 0 begin pairs, 1 next pair, 2 begin single, 3 next single, 4 push, 5 connect_all, 6.. del(i)
    let mut l: LinkedList<i64> = LinkedList::from((0..n as i64 - 1).collect());
    let mut alive = vec![true; n - 1];
    let mut cur = Cursor::None;
    let live = |a: &[bool]| -> Vec<usize> { (0..a.len()).filter(|&i| a[i]).collect() };
    for &op in hist {
        match op as usize {
            0 => {
                run.note(|| "begin a pair pass".into());
                l.into_double_iter();
                cur = Cursor::Pairs(pairs(&live(&alive)));
            }
            1 => {
                let p = match &mut cur {
                    Cursor::Pairs(p) => p,
                    _ => {
                        run.disabled();
                        return 0;
                    }
                };
                let want = if p.is_empty() { None } else { Some(p.remove(0)) };
                let got = next_pair(&mut l, kind);
                run.note(|| format!("next pair -> {:?}", got));
                run.ensure(got == want, "next-pair", || format!("the pass produced {:?}, expected {:?}", got, want));
            }
            2 => {
                run.note(|| "begin a single pass".into());
                l.into_iter();
                cur = Cursor::Single(live(&alive));
            }
            3 => {
                let p = match &mut cur {
                    Cursor::Single(p) => p,
                    _ => {
                        run.disabled();
                        return 0;
                    }
                };
                let want = if p.is_empty() { None } else { Some(p.remove(0)) };
                let got = l.indicies();
                run.note(|| format!("next -> {:?}", got));
                run.ensure(got == want, "next-single", || format!("the pass produced {:?}, expected {:?}", got, want));
            }
            4 => {
                if alive.len() >= n {
                    run.disabled();
                    return 0;
                }
                run.note(|| "push".into());
                l.push(alive.len() as i64);
                alive.push(true);
                cur = Cursor::None;
            }
            5 => {
                run.note(|| "connect_all".into());
                let _ = l.connect_all();
                for a in alive.iter_mut() {
                    *a = true;
                }
                cur = Cursor::None;
            }
            o => {
                let i = o - 6;
                if i >= alive.len() || !alive[i] {
                    run.disabled();
                    return 0;
                }
                run.note(|| format!("del({})", i));
                let r = l.del(i);
                run.ensure(r.is_ok(), "del", || format!("deleting live element {} failed", i));
                alive[i] = false;
                match &mut cur {
                    Cursor::Pairs(p) => p.retain(|&(a, b)| a != i && b != i),
                    Cursor::Single(p) => p.retain(|&a| a != i),
                    Cursor::None => (),
                }
            }
        }
        run.step();
    }
    let state = hash_of(&(format!("{:?}", l), &alive, &cur));
    let cap = 2 * n * n + 4;
    match cur.clone() {
        Cursor::Pairs(p) => {
            let mut got = vec![];
            while let Some(x) = next_pair(&mut l, kind) {
                got.push(x);
                if got.len() > cap {
                    break;
                }
            }
            run.ensure(got == p, "rest-of-pairs", || format!("the rest of the pair pass produced {:?}, expected {:?}", got, p));
            run.ensure(next_pair(&mut l, kind).is_none(), "end-is-final", || "a finished pair pass produced another pair".into());
        }
        Cursor::Single(p) => {
            let mut got = vec![];
            while let Some(x) = l.indicies() {
                got.push(x);
                if got.len() > cap {
                    break;
                }
            }
            run.ensure(got == p, "rest-of-pass", || format!("the rest of the pass produced {:?}, expected {:?}", got, p));
        }
        Cursor::None => (),
    }
    let want = pairs(&live(&alive));
    for k in 0..3 {
        l.into_double_iter();
        let mut got = vec![];
        while let Some(x) = next_pair(&mut l, k) {
            got.push(x);
            if got.len() > cap {
                break;
            }
        }
        run.ensure(got == want, "full-pair-pass", || format!("full pair pass [{}] produced {:?}, expected {:?}", k, got, want));
    }
    run.observe(&alive);
    run.observe(&format!("{:?}", cur));
    state
}

#[derive(Debug, PartialEq, PartialOrd)]
struct Blob {
    id: usize,
    size: usize,
}
impl Merge for Blob {
    fn merge(&mut self, other: &Self) -> Result<(), Error> {
        self.size += other.size;
        Ok(())
    }
    fn size(&self) -> usize {
        self.size
    }
    fn add_size(&mut self, size: usize) -> Result<(), Error> {
        self.size += size;
        Ok(())
    }
}

fn main() {
    let mut c = Check::new("C05");
    c.assume("a pair pass is restarted after an insertion or reconnection");
    let n = c.q(6, 7);
    let depth = c.q(40, 60);
    let cap = c.q(3_000_000, 8_000_000);
    for kind in 0..3 {
        c.bfs(
            &format!("pair-pass-{}", ["indices", "enumerate", "get"][kind]),
            &format!("all histories of begin/next over pairs and single elements, push, reconnect and del(any) up to length {} over at most {} elements", depth, n),
            6 + n,
            depth,
            cap,
            move |r, h| body(r, h, n, kind),
        );
    }
    let n = c.q(6, 7);
    c.family(
        "coalescence-pass",
        &format!("one pair pass over {} clusters; every produced pair (i,j) is left alone, merged into i, merged into j, or loses i or j or both", n),
        move |run| {
            let mut l = LinkedList::from((0..n).map(|id| Blob { id, size: 1 << (2 * id) }).collect::<Vec<_>>());
            let mut size: Vec<usize> = (0..n).map(|id| 1usize << (2 * id)).collect();
            let mut alive = vec![true; n];
            let mut todo = pairs(&(0..n).collect::<Vec<_>>());
            l.into_double_iter();
            loop {
                let got = l.enumerate_double().map(|(i, a, j, b)| (i, a.id, a.size, j, b.id, b.size));
                run.step();
                let want = if todo.is_empty() { None } else { Some(todo.remove(0)) };
                let exp = want.map(|(i, j)| (i, i, size[i], j, j, size[j]));
                run.note(|| format!("pair {:?}", want));
                if !run.ensure(got == exp, "pair", || format!("produced {:?}, expected {:?}", got, exp)) || want.is_none() {
                    break;
                }
                let (i, j) = want.unwrap();
                let act = run.pick(6);
                let mut gone = vec![];
                match act {
                    0 => (),
                    1 | 2 => {
                        let (a, b) = if act == 1 { (i, j) } else { (j, i) };
                        run.note(|| format!("merge {} <- {}", a, b));
                        let r = l.merge(a, b);
                        run.ensure(r.is_ok(), "merge", || "merging two live clusters failed".into());
                        size[a] += size[b];
                        gone.push(b);
                    }
                    3 => gone.push(i),
                    4 => gone.push(j),
                    _ => {
                        gone.push(i);
                        gone.push(j);
                    }
                }
                for &g in &gone {
                    if act > 2 {
                        run.note(|| format!("del {}", g));
                        let r = l.del(g);
                        run.ensure(r.is_ok(), "del", || "deleting a live cluster failed".into());
                    }
                    alive[g] = false;
                    todo.retain(|&(a, b)| a != g && b != g);
                }
                run.step();
                run.state(&(format!("{:?}", l), todo.len()));
            }
            // what is left
            l.into_iter();
            let mut left = vec![];
            while let Some((i, b)) = l.enumerate() {
                left.push((i, b.size));
                if left.len() > n + 2 {
                    break;
                }
            }
            let want: Vec<(usize, usize)> = (0..n).filter(|&i| alive[i]).map(|i| (i, size[i])).collect();
            run.ensure(left == want, "survivors", || format!("survivors {:?}, expected {:?}", left, want));
            run.observe(&left);
        },
    );
    let sizes: Vec<usize> = c.q(vec![7, 8, 9, 12, 17, 33, 65, 70, 130, 260], vec![7, 8, 9, 10, 11, 12, 16, 17, 32, 33, 64, 65, 70, 100, 130, 257, 260, 520]);
    c.family(
        "long-lists",
        &format!("pair passes over {:?} elements, three forms; one of 8 patterns deleted before the pass or at its first, middle or last pair; then a fresh pair pass and a single pass", sizes),
        move |run| {
            let n = run.of(&sizes);
            let kind = run.pick(3);
            let pattern = run.pick(8);
            let back = run.flag();
            let when = run.pick(4);
            let mut l: LinkedList<i64> = LinkedList::from((0..n as i64).collect());
            let gone = |i: usize| match pattern {
                0 => false,
                1 => i % 2 == 0,
                2 => i % 3 != 0,
                3 => i < n / 2,
                4 => i >= n / 2,
                5 => i > 0,
                6 => i + 1 < n,
                _ => true,
            };
            let mut del: Vec<usize> = (0..n).filter(|&i| gone(i)).collect();
            if back {
                del.reverse();
            }
            let mut alive = vec![true; n];
            if when == 0 {
                for &i in &del {
                    run.ensure(l.del(i).is_ok(), "del", || format!("deleting live element {} of {} failed", i, n));
                    alive[i] = false;
                }
            }
            let mut todo = pairs(&(0..n).filter(|&i| alive[i]).collect::<Vec<_>>());
            let at = match when {
                0 => usize::MAX,
                1 => 0,
                2 => todo.len() / 2,
                _ => todo.len().saturating_sub(1),
            };
            todo.reverse();
            l.into_double_iter();
            let mut k = 0;
            loop {
                let want = todo.pop();
                let got = next_pair(&mut l, kind);
                if !run.ensure(want == got, "next-pair", || format!("{} elements, pattern {}: pair {} is {:?}, expected {:?}", n, pattern, k, got, want)) || want.is_none() {
                    break;
                }
                if k == at {
                    for &i in &del {
                        run.ensure(l.del(i).is_ok(), "del", || format!("deleting live element {} of {} failed", i, n));
                        alive[i] = false;
                    }
                    todo.retain(|&(a, b)| alive[a] && alive[b]);
                }
                k += 1;
            }
            run.step();
            run.ensure(next_pair(&mut l, kind).is_none(), "end-is-final", || "a finished pair pass produced another pair".into());
            let live: Vec<usize> = (0..n).filter(|&i| alive[i]).collect();
            l.into_double_iter();
            let mut m = 0;
            let want = pairs(&live);
            while let Some(p) = next_pair(&mut l, kind) {
                if !run.ensure(want.get(m) == Some(&p), "full-pair-pass", || format!("{} elements, pattern {}: a fresh pass has {:?} as pair {}", n, pattern, p, m)) {
                    return;
                }
                m += 1;
            }
            run.ensure(m == want.len(), "full-pair-pass", || format!("{} elements, pattern {}: a fresh pass has {} pairs, expected {}", n, pattern, m, want.len()));
            l.into_iter();
            let mut got = vec![];
            while let Some(i) = l.indicies() {
                got.push(i);
                if got.len() > n {
                    break;
                }
            }
            run.ensure(got == live, "rest-of-pass", || format!("{} elements, pattern {}: a single pass visits {} elements, expected {}", n, pattern, got.len(), live.len()));
            run.observe(&(n, pattern, k));
        },
    );
    let sizes: Vec<usize> = c.q(vec![9, 24, 60, 120], vec![8, 9, 16, 17, 24, 33, 60, 65, 120, 260]);
    c.family(
        "long-coalescence",
        &format!("one pair pass over {:?} clusters in which every k-th pair (k 1, 2, 3, 5, 7, 20), counted from one of 3 offsets, merges into its first or second member, or in turn", sizes),
        move |run| {
            let n = run.of(&sizes);
            let every = run.of(&[1usize, 2, 3, 5, 7, 20]);
            let off = run.pick(3.min(every));
            let way = run.pick(3);
            let mut l = LinkedList::from((0..n).map(|id| Blob { id, size: 1 + id % 3 }).collect::<Vec<_>>());
            let mut size: Vec<usize> = (0..n).map(|id| 1 + id % 3).collect();
            let mut alive = vec![true; n];
            let mut todo = pairs(&(0..n).collect::<Vec<_>>());
            todo.reverse();
            l.into_double_iter();
            let mut k = 0usize;
            loop {
                let got = l.enumerate_double().map(|(i, a, j, b)| (i, a.id, a.size, j, b.id, b.size));
                let want = todo.pop().map(|(i, j)| (i, i, size[i], j, j, size[j]));
                if !run.ensure(got == want, "pair", || format!("{} clusters: produced {:?}, expected {:?}", n, got, want)) || want.is_none() {
                    break;
                }
                if k % every == off {
                    let (i, j) = (want.unwrap().0, want.unwrap().3);
                    let (a, b) = if way == 0 || (way == 2 && k % 2 == 0) { (i, j) } else { (j, i) };
                    run.ensure(l.merge(a, b).is_ok(), "merge", || "merging two live clusters failed".into());
                    size[a] += size[b];
                    alive[b] = false;
                    todo.retain(|&(x, y)| x != b && y != b);
                }
                k += 1;
            }
            run.step();
            l.into_iter();
            let mut left = vec![];
            while let Some((i, b)) = l.enumerate() {
                left.push((i, b.size));
                if left.len() > n {
                    break;
                }
            }
            let want: Vec<(usize, usize)> = (0..n).filter(|&i| alive[i]).map(|i| (i, size[i])).collect();
            run.ensure(left == want, "survivors", || format!("{} clusters: survivors {:?}, expected {:?}", n, left, want));
            run.observe(&(n, left.len(), k));
        },
    );
    c.finish()
}
