//! C06: merging clusters conserves mass and follows the diffusion law.
use mcheck::util::*;
use mcheck::*;
use moledyn::agent_mod::cont_passive_merge::ContPassiveMergeAgent;
use moledyn::agent_mod::Merge;
use moledyn::prelude::{Argument, ContBulkTarget, ContCircSystem, Error, ErrorCode, LinkedList, MoveType, rng_seed};

fn coeff(m: &MoveType) -> Option<f64> {
    match m {
        MoveType::Brownian(c) => Some(*c),
        _ => None,
    }
}

struct Model {
    size: Vec<usize>,
    alive: Vec<bool>,
    d0: Vec<Option<f64>>,
    alpha: Vec<f64>,
    mass: usize,
}

fn compare(run: &mut Run, l: &mut LinkedList<ContPassiveMergeAgent>, m: &Model, at: &[f64]) {
    let n = m.size.len();
    l.into_iter();
    let mut got = vec![];
    while let Some((i, a)) = l.enumerate() {
        got.push((i, a.size()));
        if got.len() > n + 1 {
            break;
        }
    }
    let want: Vec<(usize, usize)> = (0..n).filter(|&i| m.alive[i]).map(|i| (i, m.size[i])).collect();
    run.ensure(got == want, "clusters", || format!("live clusters (index, size) are {:?}, expected {:?}", got, want));
    let total: usize = got.iter().map(|x| x.1).sum();
    run.ensure(total == m.mass, "mass", || format!("total size {}, expected {}", total, m.mass));
    for i in 0..n {
        if !m.alive[i] {
            continue;
        }
        let a = &l.contents[i];
        if let Some(d0) = m.d0[i] {
            let w = d0 * (m.size[i] as f64).powf(-m.alpha[i]);
            let ok = coeff(&a.mtype).map_or(false, |c| rel(c, w, 1e-9));
            run.ensure(ok, "diffusion", || format!("cluster {} of size {} built with D={}, exponent {} has {:?}, expected {}", i, m.size[i], d0, m.alpha[i], a.mtype, w));
        } else {
            run.ensure(a.mtype == MoveType::Levy, "motion", || format!("cluster {} changed its motion type to {:?}", i, a.mtype));
        }
        let ok = a.pos.coordinate.len() == 2 && (at[i].is_nan() || rel(a.pos[0], at[i], 1e-12));
        run.ensure(ok, "place", || format!("cluster {} moved to {:?}, it was at {}", i, a.pos, at[i]));
    }
}

fn body(run: &mut Run, hist: &[u32], n: usize, args: bool, levy: bool) -> u64 {
    let d = [1.0, 0.25, 3.0, 7.5, 0.1];
    let al = [1.0, 0.5, 2.0, 0.0, -0.5];
    let mk = |i: usize| -> ContPassiveMergeAgent {
        let p = pos(&[0.3 + 0.5 * i as f64, 1.0]);
        let mt = if levy && i == n - 1 { MoveType::Levy } else { MoveType::Brownian(d[i]) };
        if args {
            let w: Vec<String> = vec![
                if levy && i == n - 1 { "Levy".into() } else { format!("{}", d[i]) },
                format!("{}:{}", p[0], p[1]),
                "0.1".into(),
                format!("{}", al[i]),
                "1".into(),
            ];
            ContPassiveMergeAgent::convert_from(&ContPassiveMergeAgent::read_args_from_vec(&w).expect("arguments")).pop().unwrap()
        } else {
            ContPassiveMergeAgent::new(mt, p, 0.1, al[i])
        }
    };
    let mut l = LinkedList::from((0..n).map(mk).collect::<Vec<_>>());
    let mut m = Model {
        size: vec![1; n],
        alive: vec![true; n],
        d0: (0..n).map(|i| if levy && i == n - 1 { None } else { Some(d[i]) }).collect(),
        alpha: al[..n].to_vec(),
        mass: n,
    };
    let mut at: Vec<f64> = (0..n).map(|i| 0.3 + 0.5 * i as f64).collect();
    let sys = ContCircSystem::new(10.0, 2);
    let target = ContBulkTarget::new(pos(&[0.0, 0.0]), 0.5);
    let w = n + 1; // one index out of range
    for &op in hist {
        let op = op as usize;
        if op < w * w {
            let (i, j) = (op / w, op % w);
            let ok = i != j && i < n && j < n && m.alive[i] && m.alive[j] && m.d0[i].is_some();
            let r = l.merge(i, j);
            run.note(|| format!("merge({},{}) -> {:?}", i, j, r.is_ok()));
            run.ensure(r.is_ok() == ok, "merge-result", || format!("merge({},{}) is {:?}; sizes {:?}, alive {:?}", i, j, r, m.size, m.alive));
            if ok {
                m.size[i] += m.size[j];
                m.alive[j] = false;
            }
        } else if op < w * w + n {
            let i = op - w * w;
            if !m.alive[i] {
                run.disabled();
                return 0;
            }
            run.note(|| format!("del({})", i));
            let r = l.del(i);
            run.ensure(r.is_ok(), "del", || format!("del({}) failed", i));
            m.mass -= m.size[i];
            m.alive[i] = false;
        } else if op < w * w + 2 * n {
            let i = op - w * w - n;
            if !m.alive[i] {
                run.disabled();
                return 0;
            }
            let mut rng = rng_seed(99);
            let r = l.contents[i].renew_uniform(&sys, &target, &mut rng);
            run.note(|| format!("renew({}) -> {:?}", i, r.is_ok()));
            if m.d0[i].is_some() {
                run.ensure(r.is_ok(), "renew", || format!("renewing cluster {} failed: {:?}", i, r));
                m.mass -= m.size[i] - 1;
                m.size[i] = 1;
            }
            at[i] = f64::NAN;
        } else {
            // grow one of the clusters
            let k = op - w * w - 2 * n;
            if !m.alive[0] || m.size[0] > 40 {
                run.disabled();
                return 0;
            }
            let by = [0usize, 3][k];
            let r = l.contents[0].add_size(by);
            run.note(|| format!("add_size({}) to 0 -> {:?}", by, r.is_ok()));
            run.ensure(r.is_ok(), "add", || format!("add_size({}) failed: {:?}", by, r));
            m.size[0] += by;
            m.mass += by;
        }
        run.step();
        compare(run, &mut l, &m, &at);
        if run.failed() {
            break;
        }
    }
    run.observe(&m.size);
    run.observe(&m.alive);
    let moved: Vec<bool> = at.iter().map(|x| x.is_nan()).collect();
    hash_of(&(&m.size, &m.alive, moved, format!("{:?}", l.links)))
}

#[derive(Debug, PartialEq, PartialOrd, Clone)]
struct Picky {
    id: usize,
    size: usize,
}
impl Merge for Picky {
    fn merge(&mut self, other: &Self) -> Result<(), Error> {
        self.add_size(other.size)
    }
    fn size(&self) -> usize {
        self.size
    }
    fn add_size(&mut self, size: usize) -> Result<(), Error> {
        if self.size + size > 3 {
            return Err(Error::make_error_syntax(ErrorCode::FeatureNotProvided));
        }
        self.size += size;
        Ok(())
    }
}

fn main() {
    let mut c = Check::new("C06");
    let n = c.q(4, 5);
    let depth = c.q(8, 9);
    let cap = c.q(200_000, 1_500_000);
    for (name, args, levy) in [("clusters", false, false), ("clusters-from-arguments", true, false), ("clusters-one-levy", false, true)] {
        let n = if levy { n - 1 } else { n };
        c.bfs(
            name,
            &format!("all histories up to length {} of merge(i,j) over every pair of indices 0..{} (equal, dead and out-of-range ones included), del, renew_uniform and add_size over {} clusters with different coefficients and exponents", depth, n, n),
            (n + 1) * (n + 1) + 2 * n + 2,
            depth,
            cap,
            move |run, h| body(run, h, n, args, levy),
        );
    }
    let n = c.q(4, 5);
    let depth = c.q(8, 10);
    c.bfs(
        "refusing-content",
        &format!("all histories of merge(i,j) and del over {} elements whose own merge refuses to grow beyond 3: a refused merge changes nothing", n),
        (n + 1) * (n + 1) + n,
        depth,
        c.q(100_000, 500_000),
        move |run, hist| {
            let mut l = LinkedList::from((0..n).map(|id| Picky { id, size: 1 }).collect::<Vec<_>>());
            let mut size = vec![1usize; n];
            let mut alive = vec![true; n];
            let w = n + 1;
            for &op in hist {
                let op = op as usize;
                if op < w * w {
                    let (i, j) = (op / w, op % w);
                    let ok = i != j && i < n && j < n && alive[i] && alive[j] && size[i] + size[j] <= 3;
                    let r = l.merge(i, j);
                    run.note(|| format!("merge({},{}) -> {:?}", i, j, r.is_ok()));
                    run.ensure(r.is_ok() == ok, "merge-result", || format!("merge({},{}) is {:?}; sizes {:?}, alive {:?}", i, j, r, size, alive));
                    if ok {
                        size[i] += size[j];
                        alive[j] = false;
                    }
                } else {
                    let i = op - w * w;
                    if !alive[i] {
                        run.disabled();
                        return 0;
                    }
                    let _ = l.del(i);
                    alive[i] = false;
                }
                run.step();
                l.into_iter();
                let mut got = vec![];
                while let Some((i, a)) = l.enumerate() {
                    got.push((i, a.id, a.size));
                    if got.len() > n + 1 {
                        break;
                    }
                }
                let want: Vec<(usize, usize, usize)> = (0..n).filter(|&i| alive[i]).map(|i| (i, i, size[i])).collect();
                run.ensure(got == want, "clusters", || format!("live elements {:?}, expected {:?}", got, want));
            }
            run.observe(&size);
            run.observe(&alive);
            hash_of(&(size, alive, format!("{:?}", l)))
        },
    );
    let len = c.q(6, 7);
    c.family(
        "law",
        &format!("one cluster for every D in 5 and exponent in 6 values: all sequences of {} operations out of add_size(1), add_size(10), absorb a cluster of size 1 or 7, renew; D*n^-a after each", len),
        move |run| {
            let d = run.of(&[1.0, 1e-6, 0.3, 17.0, 4e5]);
            let al = run.of(&[1.0, 0.0, 0.5, 1.7, 3.0, -0.5]);
            let kind = run.pick(2);
            let sys = ContCircSystem::new(10.0, 2);
            let target = ContBulkTarget::new(pos(&[0.0, 0.0]), 0.5);
            let mut rng = rng_seed(3);
            let mut a = if kind == 0 {
                ContPassiveMergeAgent::new(MoveType::Brownian(d), pos(&[1.0, 2.0]), 0.1, al)
            } else {
                ContPassiveMergeAgent::new_uniform(&sys, &target, &mut rng, MoveType::Brownian(d), 0.1, al).unwrap()
            };
            let mut n = 1usize;
            for _ in 0..len {
                let op = run.pick(5);
                let r = match op {
                    0 => { n += 1; a.add_size(1) }
                    1 => { n += 10; a.add_size(10) }
                    2 | 3 => {
                        let mut b = ContPassiveMergeAgent::new(MoveType::Brownian(5.0 * d), pos(&[3.0, 4.0]), 0.2, 0.3);
                        if op == 3 {
                            b.add_size(6).unwrap();
                        }
                        n += b.size();
                        let b0 = b.clone();
                        let r = a.merge(&b);
                        run.ensure(b == b0, "other", || "merging changed the absorbed cluster".into());
                        r
                    }
                    _ => { n = 1; a.renew_uniform(&sys, &target, &mut rng) }
                };
                run.step();
                run.note(|| format!("op {} -> size {} {:?}", op, a.size(), a.mtype));
                run.ensure(r.is_ok() && a.size() == n && a.size == n, "size", || format!("size {}, expected {}", a.size(), n));
                let w = d * (n as f64).powf(-al);
                let ok = coeff(&a.mtype).map_or(false, |c| rel(c, w, 1e-9));
                run.ensure(ok, "diffusion", || format!("size {} built with D={}, exponent {}: {:?}, expected {}", n, d, al, a.mtype, w));
                run.ensure(a.alpha == al, "exponent", || format!("exponent {}", a.alpha));
                run.state(&(n, d.to_bits(), al.to_bits()));
                if run.failed() {
                    return;
                }
            }
            // the random step uses the coefficient
            run.observe(&n);
        },
    );
    c.family(
        "large-sizes",
        "one cluster for every D in 3 and exponent in 6 values: all sequences of 4 operations out of add_size of 1, 999, 2^20, 2^31+1, 10^12, absorb a cluster of size 2^32, absorb one of size 1: sizes and D*n^-a",
        |run| {
            let d = run.of(&[1.0, 1e-6, 4e5]);
            let al = run.of(&[1.0, 0.0, 0.5, 2.0, 3.0, -0.5]);
            let mut a = ContPassiveMergeAgent::new(MoveType::Brownian(d), pos(&[1.0, 2.0]), 0.1, al);
            let mut l = LinkedList::from(vec![ContPassiveMergeAgent::new(MoveType::Brownian(d), pos(&[1.0, 2.0]), 0.1, al)]);
            let mut n = 1usize;
            for _ in 0..4 {
                let op = run.pick(7);
                let by = [1usize, 999, 1 << 20, (1 << 31) + 1, 1_000_000_000_000, 1 << 32, 1][op];
                n += by;
                let r = if op < 5 {
                    let q = l.contents[0].add_size(by);
                    a.add_size(by).and(q)
                } else {
                    let mut b = ContPassiveMergeAgent::new(MoveType::Brownian(3.0), pos(&[3.0, 4.0]), 0.2, 0.3);
                    if by > 1 {
                        b.add_size(by - 1).unwrap();
                    }
                    let k = l.contents.len();
                    l.push(b.clone());
                    let q = l.merge(0, k);
                    a.merge(&b).and(q)
                };
                run.step();
                run.note(|| format!("op {} -> size {} {:?}", op, a.size(), a.mtype));
                let w = d * (n as f64).powf(-al);
                for x in [&a, &l.contents[0]] {
                    run.ensure(r.is_ok() && x.size() == n && x.size == n, "size", || format!("size {}, expected {} ({:?})", x.size(), n, r));
                    let ok = coeff(&x.mtype).map_or(false, |c| rel(c, w, 1e-9));
                    run.ensure(ok, "diffusion", || format!("size {} built with D={}, exponent {}: {:?}, expected {}", n, d, al, x.mtype, w));
                }
                if run.failed() {
                    return;
                }
                run.state(&(n, d.to_bits(), al.to_bits()));
            }
        },
    );
    let sizes: Vec<usize> = c.q(vec![7, 12, 40, 65, 300, 1100], vec![7, 12, 40, 65, 130, 300, 1100, 2100]);
    c.family(
        "trees",
        &format!("{:?} clusters coalesced in one of 6 orders (into the first, into the last, neighbours, halves, alternating ends, the largest last), 4 exponents, with or without a renewal in the middle: total size, and D*n^-a, after every merge", sizes),
        move |run| {
            let n = run.of(&sizes);
            let order = run.pick(6);
            let al = run.of(&[1.0, 0.0, 0.5, 2.3]);
            let renew = run.flag();
            let d = |i: usize| 0.5 + 0.25 * (i % 7) as f64;
            let mut l = LinkedList::from((0..n).map(|i| ContPassiveMergeAgent::new(MoveType::Brownian(d(i)), pos(&[0.01 * i as f64, 1.0]), 0.1, al)).collect::<Vec<_>>());
            let mut plan: Vec<(usize, usize)> = vec![];
            match order {
                0 => (1..n).for_each(|i| plan.push((0, i))),
                1 => (0..n - 1).for_each(|i| plan.push((n - 1, i))),
                2 => (1..n).for_each(|i| plan.push((i, i - 1))),
                3 => {
                    let mut step = 1;
                    while step < n {
                        let mut i = 0;
                        while i + step < n {
                            plan.push((i, i + step));
                            i += 2 * step;
                        }
                        step *= 2;
                    }
                }
                4 => {
                    let (mut a, mut b, mut k) = (0, n - 1, 0);
                    while a < b {
                        if k % 2 == 0 {
                            plan.push((a, b));
                            b -= 1;
                        } else {
                            plan.push((b, a));
                            a += 1;
                        }
                        k += 1;
                    }
                }
                _ => {
                    (1..n / 2).for_each(|i| plan.push((0, i)));
                    (n / 2 + 1..n).for_each(|i| plan.push((n / 2, i)));
                    plan.push((n / 2, 0));
                }
            }
            let mut size = vec![1usize; n];
            let mut mass = n;
            let mut live = n;
            let sys = ContCircSystem::new(10.0, 2);
            let target = ContBulkTarget::new(pos(&[0.0, 0.0]), 0.5);
            let mut rng = rng_seed(8);
            let half = plan.len() / 2;
            for (k, (a, b)) in plan.into_iter().enumerate() {
                if renew && k == half {
                    let r = l.contents[a].renew_uniform(&sys, &target, &mut rng);
                    run.ensure(r.is_ok(), "renew", || format!("renewing a cluster of size {} failed: {:?}", size[a], r));
                    mass -= size[a] - 1;
                    size[a] = 1;
                    let ok = coeff(&l.contents[a].mtype).map_or(false, |c| rel(c, d(a), 1e-9));
                    run.ensure(ok && l.contents[a].size() == 1, "renew", || format!("a renewed cluster has size {} and {:?}", l.contents[a].size(), l.contents[a].mtype));
                }
                let at = l.contents[a].pos.clone();
                let r = l.merge(a, b);
                run.step();
                run.ensure(r.is_ok(), "merge-result", || format!("merging live clusters of sizes {} and {} failed: {:?}", size[a], size[b], r));
                size[a] += size[b];
                live -= 1;
                let c = &l.contents[a];
                let w = d(a) * (size[a] as f64).powf(-al);
                run.ensure(c.size() == size[a], "clusters", || format!("size {}, expected {}", c.size(), size[a]));
                run.ensure(coeff(&c.mtype).map_or(false, |x| rel(x, w, 1e-9)), "diffusion", || format!("a cluster of size {} built with D={}, exponent {} has {:?}, expected {}", size[a], d(a), al, c.mtype, w));
                run.ensure(c.pos == at, "place", || format!("the surviving cluster moved from {:?} to {:?}", at, c.pos));
                if run.failed() {
                    return;
                }
                if n < 50 || k % 16 == 0 || live == 1 {
                    l.into_iter();
                    let (mut sum, mut cnt) = (0, 0);
                    while let Some(c) = l.get() {
                        sum += c.size();
                        cnt += 1;
                        if cnt > n {
                            break;
                        }
                    }
                    run.ensure(sum == mass && cnt == live, "mass", || format!("{} live clusters with total size {}, expected {} with {}", cnt, sum, live, mass));
                }
            }
            run.observe(&(n, order, mass));
        },
    );
    c.finish()
}
