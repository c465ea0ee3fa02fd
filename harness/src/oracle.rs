//! Independent reference computations (none of them shares code with walky).
use crate::inst::Inst;
use std::collections::HashSet;

/// Sequential sum of the tour edges (closed).
pub fn cycle_cost(i: &Inst, p: &[usize]) -> f64 {
    let k = p.len();
    if k <= 1 {
        return 0.0;
    }
    (0..k).map(|a| i.g(p[a], p[(a + 1) % k])).sum()
}

pub fn walk_cost(i: &Inst, p: &[usize]) -> f64 {
    p.windows(2).map(|w| i.g(w[0], w[1])).sum()
}

pub fn is_perm(p: &[usize], n: usize) -> bool {
    if p.len() != n {
        return false;
    }
    let mut seen = vec![false; n];
    for &v in p {
        if v >= n || seen[v] {
            return false;
        }
        seen[v] = true;
    }
    true
}

/// Equal up to accumulated rounding: `k` additions of non-negative numbers.
pub fn close(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= 1e-12 * a.abs().max(b.abs())
}
/// a <= b up to rounding
pub fn le(a: f64, b: f64) -> bool {
    a <= b || (a - b) <= 1e-12 * a.abs().max(b.abs())
}

/// Held-Karp: (optimal cost, an optimal tour starting at 0).
pub fn held_karp(i: &Inst) -> (f64, Vec<usize>) {
    let n = i.n;
    if n == 1 {
        return (0.0, vec![0]);
    }
    if n == 2 {
        return (i.g(0, 1) + i.g(1, 0), vec![0, 1]);
    }
    let m = n - 1;
    let full = 1usize << m;
    let mut d = vec![f64::INFINITY; full * m];
    let mut from = vec![u8::MAX; full * m];
    for v in 0..m {
        d[(1 << v) * m + v] = i.g(0, v + 1);
    }
    for s in 1..full {
        for v in 0..m {
            if s >> v & 1 == 0 {
                continue;
            }
            let dv = d[s * m + v];
            if dv == f64::INFINITY {
                continue;
            }
            for w in 0..m {
                if s >> w & 1 == 1 {
                    continue;
                }
                let t = s | 1 << w;
                let nd = dv + i.g(v + 1, w + 1);
                if nd < d[t * m + w] {
                    d[t * m + w] = nd;
                    from[t * m + w] = v as u8;
                }
            }
        }
    }
    let mut best = (f64::INFINITY, 0);
    for v in 0..m {
        let c = d[(full - 1) * m + v] + i.g(v + 1, 0);
        if c < best.0 {
            best = (c, v);
        }
    }
    let mut tour = vec![];
    let (mut s, mut v) = (full - 1, best.1);
    loop {
        tour.push(v + 1);
        let f = from[s * m + v];
        s &= !(1 << v);
        if f == u8::MAX {
            break;
        }
        v = f as usize;
    }
    tour.push(0);
    tour.reverse();
    (best.0, tour)
}

/// Weight of a minimum spanning tree on the vertices not excluded (Kruskal).
pub fn mst_weight(i: &Inst, excluded: &[bool]) -> f64 {
    let n = i.n;
    let mut e: Vec<(f64, usize, usize)> = vec![];
    for a in 0..n {
        for b in 0..a {
            if !excluded[a] && !excluded[b] {
                e.push((i.g(a, b), a, b));
            }
        }
    }
    e.sort_by(|x, y| x.0.total_cmp(&y.0));
    let mut uf: Vec<usize> = (0..n).collect();
    fn find(uf: &mut [usize], mut x: usize) -> usize {
        while uf[x] != x {
            uf[x] = uf[uf[x]];
            x = uf[x];
        }
        x
    }
    let mut w = 0.0;
    for (c, a, b) in e {
        let (x, y) = (find(&mut uf, a), find(&mut uf, b));
        if x != y {
            uf[x] = y;
            w += c;
        }
    }
    w
}

/// The largest cost Christofides may report: the tree plus the heaviest matching of its odd
/// vertices, or plus the lightest one where a single exchange round already finds it (at most two
/// pairs). None unless the minimum spanning tree is unique and has at most 14 odd vertices.
pub fn christofides_cap(i: &Inst) -> Option<f64> {
    let n = i.n;
    let mut e: Vec<(f64, usize, usize)> = (0..n).flat_map(|a| (0..a).map(move |b| (a, b))).map(|(a, b)| (i.g(a, b), a, b)).collect();
    e.sort_by(|x, y| x.0.total_cmp(&y.0));
    if e.windows(2).any(|w| w[1].0 - w[0].0 <= 1e-12 * w[1].0) {
        return None;
    }
    let mut comp: Vec<usize> = (0..n).collect();
    let mut deg = vec![0; n];
    let mut w = 0.0;
    for (c, a, b) in e {
        let (x, y) = (comp[a], comp[b]);
        if x != y {
            comp.iter_mut().for_each(|z| if *z == x { *z = y });
            deg[a] += 1;
            deg[b] += 1;
            w += c;
        }
    }
    let odd: Vec<usize> = (0..n).filter(|&v| deg[v] % 2 == 1).collect();
    if odd.len() > 14 {
        return None;
    }
    if odd.len() <= 4 {
        return Some(w + min_matching(i, &odd).0);
    }
    let mut j = i.clone();
    let mx = j.max();
    j.c.iter_mut().for_each(|x| *x = mx - *x);
    Some(w + mx * (odd.len() / 2) as f64 - min_matching(&j, &odd).0)
}

pub fn mst_all(i: &Inst) -> f64 {
    mst_weight(i, &vec![false; i.n])
}

/// Weight of the 1-tree with special vertex s.
pub fn one_tree_weight(i: &Inst, s: usize) -> f64 {
    let mut ex = vec![false; i.n];
    ex[s] = true;
    let mut w: Vec<f64> = (0..i.n).filter(|&j| j != s).map(|j| i.g(s, j)).collect();
    w.sort_by(f64::total_cmp);
    let two = if i.n == 2 { 2.0 * w[0] } else { w[0] + w[1] };
    mst_weight(i, &ex) + two
}

pub fn one_tree_bound(i: &Inst) -> f64 {
    let n = i.n;
    if n < 24 {
        return (0..n).map(|s| one_tree_weight(i, s)).fold(f64::NEG_INFINITY, f64::max);
    }
    // the same with the edges sorted once
    let mut e: Vec<(f64, usize, usize)> = (0..n).flat_map(|a| (0..a).map(move |b| (a, b))).map(|(a, b)| (i.g(a, b), a, b)).collect();
    e.sort_by(|x, y| x.0.total_cmp(&y.0));
    let mut best = f64::NEG_INFINITY;
    for s in 0..n {
        let mut uf: Vec<usize> = (0..n).collect();
        let (mut w, mut at, mut two) = (0.0, 0, 0.0);
        let mut left = n - 2;
        for &(c, a, b) in &e {
            if a == s || b == s {
                if at < 2 {
                    two += c;
                    at += 1;
                }
            } else if left > 0 {
                let (mut x, mut y) = (a, b);
                while uf[x] != x {
                    uf[x] = uf[uf[x]];
                    x = uf[x];
                }
                while uf[y] != y {
                    uf[y] = uf[uf[y]];
                    y = uf[y];
                }
                if x != y {
                    uf[x] = y;
                    w += c;
                    left -= 1;
                }
            }
            if left == 0 && at == 2 {
                break;
            }
        }
        best = best.max(w + two);
    }
    best
}

/// Minimum weight perfect matching by bitmask dynamic programming.
pub fn min_matching(i: &Inst, vs: &[usize]) -> (f64, Vec<[usize; 2]>) {
    let k = vs.len();
    let full = 1usize << k;
    let mut d = vec![f64::INFINITY; full];
    let mut ch = vec![(0usize, 0usize); full];
    d[0] = 0.0;
    for s in 1..full {
        let a = s.trailing_zeros() as usize;
        for b in a + 1..k {
            if s >> b & 1 == 1 {
                let r = s & !(1 << a) & !(1 << b);
                let c = d[r] + i.g(vs[a], vs[b]);
                if c < d[s] {
                    d[s] = c;
                    ch[s] = (a, b);
                }
            }
        }
    }
    let mut m = vec![];
    let mut s = full - 1;
    while s != 0 {
        let (a, b) = ch[s];
        m.push([vs[a], vs[b]]);
        s &= !(1 << a) & !(1 << b);
    }
    (d[full - 1], m)
}

pub fn matching_cost(i: &Inst, m: &[[usize; 2]]) -> f64 {
    m.iter().map(|&[a, b]| i.g(a, b)).sum()
}

/// Is `m` a perfect matching of exactly the vertices `vs`?
pub fn check_matching(m: &[[usize; 2]], vs: &[usize]) -> Result<(), String> {
    let want: HashSet<usize> = vs.iter().copied().collect();
    let mut got = HashSet::new();
    for &[a, b] in m {
        for v in [a, b] {
            if !want.contains(&v) {
                return Err(format!("matching uses vertex {v}, which was not given"));
            }
            if !got.insert(v) {
                return Err(format!("matching uses vertex {v} twice"));
            }
        }
    }
    if got.len() != want.len() {
        let mut miss: Vec<_> = want.difference(&got).collect();
        miss.sort();
        miss.truncate(5);
        return Err(format!("matching leaves vertices {miss:?} unmatched"));
    }
    Ok(())
}

/// Nearest-neighbour tour check: every step goes to an unvisited city of minimum cost.
pub fn check_nn(i: &Inst, start: usize, sol: &(f64, Vec<usize>)) -> Result<(), String> {
    let (c, p) = sol;
    if !is_perm(p, i.n) {
        return Err(format!("path is not a permutation of the cities: {:?}", &p[..p.len().min(40)]));
    }
    if p[0] != start {
        return Err(format!("path starts at {} instead of {start}", p[0]));
    }
    let mut left = vec![true; i.n];
    left[start] = false;
    for k in 1..i.n {
        let here = p[k - 1];
        let cost = i.g(here, p[k]);
        let best = (0..i.n).filter(|&v| left[v]).map(|v| i.g(here, v)).fold(f64::INFINITY, f64::min);
        if cost > best {
            return Err(format!("step {k} goes from {here} to {} at cost {cost}, a city at cost {best} was free", p[k]));
        }
        left[p[k]] = false;
    }
    let w = cycle_cost(i, p);
    if !close(w, *c) {
        return Err(format!("reported cost {c:?}, the closed tour costs {w:?}"));
    }
    Ok(())
}

/// Greedy tour from `start` (lowest index first on ties); None if a tie made the greedy choice
/// ambiguous.
pub fn nn_unique(i: &Inst, start: usize) -> Option<f64> {
    let n = i.n;
    let mut left: Vec<usize> = (0..n).filter(|&v| v != start).collect();
    let mut p = vec![start];
    while !left.is_empty() {
        let here = *p.last().unwrap();
        let mut best = (f64::INFINITY, usize::MAX);
        let mut ties = 0;
        for (k, &v) in left.iter().enumerate() {
            let c = i.g(here, v);
            if c < best.0 {
                best = (c, k);
                ties = 0;
            } else if c == best.0 {
                ties += 1;
            }
        }
        if ties > 0 {
            return None;
        }
        p.push(left.swap_remove(best.1));
    }
    Some(cycle_cost(i, &p))
}
