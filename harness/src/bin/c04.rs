//! C04: the agent list visits exactly the live elements, once each, in insertion order.
use mcheck::*;
use moledyn::prelude::LinkedList;

/// Reference model: all elements ever pushed, alive flags, values and the cursor of a running pass.
#[derive(Clone, Hash)]
struct Model {
    vals: Vec<i64>,
    alive: Vec<bool>,
    /// ids not yet visited by the running pass; `None`: no pass may be continued
    cursor: Option<Vec<usize>>,
}

impl Model {
    fn live(&self) -> Vec<usize> {
        (0..self.vals.len()).filter(|&i| self.alive[i]).collect()
    }
}

const KINDS: usize = 5;

fn next(l: &mut LinkedList<i64>, kind: usize, add: i64) -> Option<(Option<usize>, Option<i64>)> {
    match kind {
        0 => l.get().map(|v| (None, Some(*v))),
        1 => l.get_mut().map(|v| {
            let o = *v;
            *v += add;
            (None, Some(o))
        }),
        2 => l.enumerate().map(|(i, v)| (Some(i), Some(*v))),
        3 => l.enumerate_mut().map(|(i, v)| {
            let o = *v;
            *v += add;
            (Some(i), Some(o))
        }),
        _ => l.indicies().map(|i| (Some(i), None)),
    }
}

fn body(run: &mut Run, hist: &[u32], init: usize, nmax: usize) -> u64 {
    // ops: 0 push, 1 start, 2 connect_all, 3 del(end), 4 del(far), 5..5+KINDS next, then del(i)
    let mut l: LinkedList<i64> = if init == usize::MAX {
        LinkedList::new()
    } else {
        LinkedList::from((0..init as i64).map(|x| 10 * (x + 1)).collect())
    };
    let n0 = if init == usize::MAX { 0 } else { init };
    let mut m = Model {
        vals: (0..n0 as i64).map(|x| 10 * (x + 1)).collect(),
        alive: vec![true; n0],
        cursor: None,
    };
    for (at, &op) in hist.iter().enumerate() {
        let last = at + 1 == hist.len();
        let op = op as usize;
        match op {
            0 => {
                if m.vals.len() >= nmax {
                    run.disabled();
                    return 0;
                }
                let v = 100 + 7 * m.vals.len() as i64;
                run.note(|| format!("push({})", v));
                l.push(v);
                m.vals.push(v);
                m.alive.push(true);
                m.cursor = None;
            }
            1 => {
                run.note(|| "begin a pass".into());
                l.into_iter();
                m.cursor = Some(m.live());
            }
            2 => {
                run.note(|| "connect_all".into());
                let r = l.connect_all();
                run.ensure(r.is_ok(), "connect-all", || "connect_all failed".into());
                for a in m.alive.iter_mut() {
                    *a = true;
                }
                m.cursor = None;
            }
            3 | 4 => {
                let i = m.vals.len() + if op == 3 { 0 } else { 7 };
                run.note(|| format!("del({}) out of range", i));
                let r = l.del(i);
                run.ensure(r.is_err(), "del-range", || format!("deleting index {} of {} elements succeeded", i, m.vals.len()));
            }
            o if o < 5 + KINDS => {
                let kind = o - 5;
                let cur = match &mut m.cursor {
                    Some(c) => c,
                    None => {
                        run.disabled();
                        return 0;
                    }
                };
                let want = if cur.is_empty() { None } else { Some(cur.remove(0)) };
                let got = next(&mut l, kind, 1);
                run.note(|| format!("next[{}] -> {:?}", kind, got));
                let ok = match (want, got) {
                    (None, None) => true,
                    (Some(w), Some((i, v))) => i.map_or(true, |i| i == w) && v.map_or(true, |v| v == m.vals[w]),
                    _ => false,
                };
                run.ensure(ok, "next", || format!("the pass returned {:?}, expected element {:?}", got, want.map(|w| (w, m.vals[w]))));
                if let Some(w) = want {
                    if kind == 1 || kind == 3 {
                        m.vals[w] += 1;
                    }
                }
            }
            o => {
                let i = o - 5 - KINDS;
                if i >= m.vals.len() {
                    run.disabled();
                    return 0;
                }
                let r = l.del(i);
                let was = m.alive[i];
                run.note(|| format!("del({}) -> {}", i, if r.is_ok() { "Ok" } else { "Err" }));
                run.ensure(r.is_ok() == was, "del-result", || format!("del({}) on a {} element returned {:?}", i, if was { "live" } else { "dead" }, r.is_ok()));
                m.alive[i] = false;
                if let Some(c) = &mut m.cursor {
                    c.retain(|&x| x != i);
                }
            }
        }
        let _ = last;
        run.step();
    }
    let state = hash_of(&(format!("{:?}", l), &m));
    // finish the running pass, then full passes of every kind
    if let Some(c) = m.cursor.clone() {
        let mut got = vec![];
        while let Some(i) = l.indicies() {
            got.push(i);
            if got.len() > 2 * nmax + 4 {
                break;
            }
        }
        run.ensure(got == c, "rest-of-pass", || format!("the rest of the pass visited {:?}, expected {:?}", got, c));
        run.ensure(l.indicies().is_none() && l.get().is_none(), "end-is-final", || "a finished pass produced another element".into());
    }
    let live = m.live();
    for kind in 0..KINDS {
        l.into_iter();
        let mut ids = vec![];
        let mut vals = vec![];
        let mut cnt = 0;
        while let Some((i, v)) = next(&mut l, kind, 0) {
            if let Some(i) = i {
                ids.push(i);
            }
            if let Some(v) = v {
                vals.push(v);
            }
            cnt += 1;
            if cnt > 2 * nmax + 4 {
                break;
            }
        }
        let wv: Vec<i64> = live.iter().map(|&i| m.vals[i]).collect();
        let ok = cnt == live.len() && (kind < 2 || ids == live) && (kind == 4 || vals == wv);
        run.ensure(ok, "full-pass", || format!("full pass [{}] gave ids {:?} values {:?}, expected ids {:?} values {:?}", kind, ids, vals, live, wv));
    }
    run.ensure(l.contents == m.vals, "contents", || format!("stored values {:?}, expected {:?}", l.contents, m.vals));
    run.observe(&live);
    run.observe(&m.vals);
    state
}

fn main() {
    let mut c = Check::new("C04");
    c.assume("iteration is restarted after an insertion or reconnection (continuing a pass across them is not specified)");
    let nmax = c.q(5, 6);
    let depth = c.q(12, 16);
    let cap = c.q(1_500_000, 6_000_000);
    let ops = 5 + KINDS + nmax;
    c.bfs(
        "from-empty",
        &format!("all histories of push/del/reconnect/begin/next(5 ways) up to length {} over at most {} elements, from an empty list", depth, nmax),
        ops,
        depth,
        cap,
        move |r, h| body(r, h, usize::MAX, nmax),
    );
    for n in 0..=nmax {
        c.bfs(
            &format!("from-vec-{}", n),
            &format!("the same from a list built from {} values, up to length {}", n, depth - 1),
            ops,
            depth - 1,
            cap,
            move |r, h| body(r, h, n, nmax),
        );
    }
    // long single passes with deletions at every step: lists larger than the joint search reaches
    let n = c.q(8, 10);
    c.family(
        "pass-with-deletions",
        &format!("a full pass over {} elements; after every visit any one element (or none) is deleted", n),
        move |run| {
            let mut l = LinkedList::from((0..n).collect::<Vec<usize>>());
            let mut rest: Vec<usize> = (0..n).collect();
            let mut alive = vec![true; n];
            l.into_iter();
            let mut guard = 0;
            loop {
                guard += 1;
                let got = l.enumerate().map(|(i, v)| (i, *v));
                run.step();
                let want = if rest.is_empty() { None } else { Some(rest.remove(0)) };
                run.note(|| format!("visit {:?}", got));
                if !run.ensure(got == want.map(|w| (w, w)), "visit", || format!("visited {:?}, expected {:?}", got, want)) || want.is_none() || guard > 3 * n {
                    break;
                }
                let w = want.unwrap();
                // the element just visited, its neighbours, the last one, or none
                let mut cand: Vec<usize> = vec![];
                for x in [w, w + 1, w + 2, w.wrapping_sub(1), n - 1] {
                    if x < n && alive[x] && !cand.contains(&x) {
                        cand.push(x);
                    }
                }
                let k = run.pick(cand.len() + 1);
                if k > 0 {
                    let d = cand[k - 1];
                    run.note(|| format!("del({})", d));
                    let r = l.del(d);
                    run.step();
                    run.ensure(r.is_ok(), "del", || format!("deleting live element {} failed", d));
                    alive[d] = false;
                    rest.retain(|&x| x != d);
                }
                run.state(&format!("{:?}", l));
            }
            run.observe(&alive);
        },
    );
    // lists far beyond the joint search: one pattern of deletions, one moment
    let sizes: Vec<usize> = c.q(vec![7, 9, 10, 16, 17, 32, 33, 64, 65, 100, 129, 257, 1000, 1025, 5000], vec![7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 513, 1000, 1025, 2049, 4097, 5000, 20_000]);
    let huge: Vec<usize> = c.q(vec![65_537, 131_073], vec![65_535, 65_536, 65_537, 131_073, 1_000_003]);
    for (name, sizes, few) in [("long-lists", sizes, false), ("huge-lists", huge, true)] {
    c.family(
        name,
        &format!("lists of {:?} elements, pushed or built at once; one of {} patterns deleted in ascending, descending or inside-out order before a pass, or at the first, middle or last visit of it; passes of {} kinds, then reconnected, pushed to, and passed again", sizes, if few { 3 } else { 10 }, if few { "two" } else { "all five" }),
        move |run| {
            let n = run.of(&sizes);
            let pushed = run.flag();
            let pattern = if few { run.of(&[0, 2, 7]) } else { run.pick(10) };
            let order = run.pick(3);
            let when = if few { run.of(&[0, 2]) } else { run.pick(4) };
            let kind = if few { run.of(&[0, KINDS - 1]) } else { run.pick(KINDS) };
            let mut l: LinkedList<i64> = if pushed { LinkedList::new() } else { LinkedList::from((0..n as i64).collect()) };
            if pushed {
                (0..n as i64).for_each(|v| l.push(v));
            }
            let gone = |i: usize| match pattern {
                0 => false,
                1 => i % 2 == 0,
                2 => i % 3 != 0,
                3 => i < n / 2,
                4 => i >= n / 2,
                5 => i > 0,
                6 => i + 1 < n,
                7 => i % 10 != 9,
                8 => i != n / 2,
                _ => true,
            };
            let mut del: Vec<usize> = (0..n).filter(|&i| gone(i)).collect();
            match order {
                0 => (),
                1 => del.reverse(),
                _ => del.sort_by_key(|&i| (i as i64 * 2 - n as i64).abs()),
            }
            let mut alive = vec![true; n];
            let kill = |run: &mut Run, l: &mut LinkedList<i64>, alive: &mut Vec<bool>| {
                for &i in &del {
                    let r = l.del(i);
                    alive[i] = false;
                    run.ensure(r.is_ok(), "del", || format!("deleting live element {} of {} failed", i, n));
                    let r = l.del(i);
                    run.ensure(r.is_err(), "del-result", || format!("deleting element {} of {} twice succeeded", i, n));
                }
            };
            if when == 0 {
                kill(run, &mut l, &mut alive);
            }
            let at = [usize::MAX, 0, n / 2, n - 1][when];
            let mut want: Vec<usize> = vec![];
            let mut got: Vec<usize> = vec![];
            l.into_iter();
            let mut left: Vec<usize> = (0..n).filter(|&i| alive[i]).collect();
            left.reverse();
            loop {
                let w = left.pop();
                let g = next(&mut l, kind, 0);
                let g = g.map(|(i, v)| i.unwrap_or_else(|| v.unwrap() as usize));
                if let Some(w) = w {
                    want.push(w);
                }
                if let Some(g) = g {
                    got.push(g);
                }
                if w != g || w.is_none() {
                    break;
                }
                if w == Some(at) {
                    kill(run, &mut l, &mut alive);
                    left.retain(|&i| alive[i]);
                }
            }
            run.step();
            run.ensure(got == want, "visit", || format!("{} elements, pattern {}, deleted {}: after {} right visits element {:?} comes instead of {:?}", n, pattern, ["before", "at the first", "in the middle", "at the last"][when], got.len().min(want.len()).saturating_sub(1), got.last(), want.last()));
            run.ensure(next(&mut l, kind, 0).is_none(), "end-is-final", || "a finished pass produced another element".into());
            let pass = |l: &mut LinkedList<i64>| {
                l.into_iter();
                let mut v = vec![];
                while let Some((i, x)) = l.enumerate() {
                    v.push((i, *x));
                    if v.len() > n + 9 {
                        break;
                    }
                }
                v
            };
            l.push(n as i64);
            let w: Vec<(usize, i64)> = (0..=n).filter(|&i| i == n || alive[i]).map(|i| (i, i as i64)).collect();
            let g = pass(&mut l);
            run.ensure(g == w, "full-pass", || format!("{} elements, pattern {}: a pass after one more push visits {} elements, expected {}", n, pattern, g.len(), w.len()));
            let _ = l.connect_all();
            let w: Vec<(usize, i64)> = (0..=n).map(|i| (i, i as i64)).collect();
            let g = pass(&mut l);
            run.ensure(g == w, "reconnected", || format!("{} elements, pattern {}: after reconnecting a pass visits {} elements, expected {}", n, pattern, g.len(), w.len()));
            run.observe(&(n, pattern, got.len()));
        },
    );
    }
    c.finish()
}
