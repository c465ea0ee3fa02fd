//! The executions the sanitizers and Miri watch (C19): every algorithm that reads or writes shared
//! or raw memory, on instances drawn from a seed. Nothing here judges results; panics are caught
//! and counted, memory errors and races are the instruments' business.
use std::panic::{catch_unwind, AssertUnwindSafe};
use walky::computation_mode::{PAR_COMPUTATION, SEQ_COMPUTATION};
use walky::datastructures::{AdjacencyMatrix, Edge, Graph, NAMatrix, VecMatrix, Vertex};
use walky::parser::TravellingSalesmanProblemInstance;
use walky::solvers::approximate::{christofides, matching, nearest_neighbour};
use walky::solvers::exact;
use walky::{mst, one_tree};

pub struct R(u64);
impl R {
    pub fn new(s: u64) -> R {
        R(s ^ 0x9e37_79b9_7f4a_7c15)
    }
    pub fn u(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.u() % n as u64) as usize
    }
    pub fn f(&mut self) -> f64 {
        (self.u() >> 11) as f64 / (1u64 << 53) as f64
    }
}

pub fn points(r: &mut R, n: usize) -> Vec<[f64; 2]> {
    match r.below(4) {
        // many ties and coinciding points
        0 => (0..n).map(|_| [r.below(3) as f64, r.below(3) as f64]).collect(),
        1 => (0..n).map(|i| [i as f64, 0.0]).collect(),
        _ => (0..n).map(|_| [r.f() * 100.0, r.f() * 100.0]).collect(),
    }
}

fn general(r: &mut R, n: usize) -> NAMatrix {
    let mut m = NAMatrix::from_dim(n);
    let k = 1 + r.below(20);
    for i in 0..n {
        for j in 0..i {
            let v = if k < 5 { r.below(k + 1) as f64 } else { r.f() * 10.0 };
            m.set(i, j, v);
            m.set(j, i, v);
        }
    }
    m
}

/// Number of calls made and how many of them panicked.
#[derive(Default, Clone, Debug)]
#[allow(dead_code)]
pub struct Tally {
    pub calls: u64,
    pub panics: u64,
    pub last_panic: String,
    pub names: std::collections::BTreeMap<&'static str, u64>,
}

impl Tally {
    fn run<T>(&mut self, name: &'static str, f: impl FnOnce() -> T) -> Option<T> {
        self.calls += 1;
        *self.names.entry(name).or_default() += 1;
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(x) => Some(x),
            Err(e) => {
                self.panics += 1;
                let t = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                self.last_panic = format!("{name}: {t}");
                None
            }
        }
    }
    #[allow(dead_code)]
    pub fn add(&mut self, o: &Tally) {
        self.calls += o.calls;
        self.panics += o.panics;
        if !o.last_panic.is_empty() {
            self.last_panic = o.last_panic.clone();
        }
        for (k, v) in &o.names {
            *self.names.entry(k).or_default() += v;
        }
    }
}

#[allow(dead_code)]
pub const PARTS: [&str; 9] = ["prim", "one-tree", "christofides", "matching", "nearest-neighbour", "points", "exact", "graph", "parse"];

/// One execution. `n`: number of cities; `part`: which algorithms.
pub fn part(t: &mut Tally, seed: u64, n: usize, part: &str) {
    let mut r = R::new(seed);
    let r = &mut r;
    match part {
        "prim" => {
            let m = if r.below(2) == 0 { general(r, n) } else { NAMatrix::from_points(&points(r, n)) };
            let mut ex: Vec<usize> = (0..n).filter(|_| r.below(4) == 0).collect();
            if ex.len() == n {
                ex.pop();
            }
            t.run("prim par", || mst::prim::<PAR_COMPUTATION>(&m).undirected_edge_weight());
            t.run("prim par excluded", || mst::prim_with_excluded_node_multi_threaded(&m, &ex).undirected_edge_weight());
            t.run("prim seq", || mst::prim::<SEQ_COMPUTATION>(&m).undirected_edge_weight());
            t.run("prim queue", || mst::prim_with_excluded_node_priority_queue(&m, &ex).undirected_edge_weight());
        }
        "one-tree" => {
            let m = general(r, n);
            t.run("one-tree par", || one_tree::one_tree_lower_bound::<PAR_COMPUTATION>(&m));
            t.run("one-tree seq", || one_tree::one_tree_lower_bound::<SEQ_COMPUTATION>(&m));
        }
        "christofides" => {
            let m = NAMatrix::from_points(&points(r, n));
            t.run("christofides par", || christofides::christofides::<PAR_COMPUTATION>(&m).0);
            t.run("christofides seq", || christofides::christofides::<SEQ_COMPUTATION>(&m).0);
        }
        "matching" => {
            let m = general(r, n);
            let mut v: Vec<usize> = (0..n).filter(|_| r.below(5) != 0).collect();
            if v.len() % 2 == 1 {
                v.pop();
            }
            let tries = 1 + r.below(4);
            t.run("matching par", || matching::approx_min_cost_matching::<PAR_COMPUTATION>(&m, v.clone(), tries).len());
            t.run("matching seq", || matching::approx_min_cost_matching::<SEQ_COMPUTATION>(&m, v.clone(), tries).len());
        }
        "nearest-neighbour" => {
            let m = general(r, n);
            let k = 1 + r.below(n);
            t.run("nearest-neighbour par", || nearest_neighbour::nearest_neighbour::<PAR_COMPUTATION>(&m).0);
            t.run("k-nearest-neighbour par", || nearest_neighbour::n_nearest_neighbour::<PAR_COMPUTATION>(&m, k).0);
            t.run("nearest-neighbour seq", || nearest_neighbour::n_nearest_neighbour::<SEQ_COMPUTATION>(&m, k).0);
            t.run("single nearest-neighbour", || nearest_neighbour::single_nearest_neighbour(&m, r.below(n)).0);
        }
        "points" => {
            let p = points(r, n);
            let a = t.run("par_from_points", || NAMatrix::par_from_points(&p));
            t.run("from_points", || NAMatrix::from_points(&p));
            if let Some(a) = a.filter(|_| n <= 300) {
                t.run("is_metric", || a.is_metric());
            }
        }
        "exact" => {
            // enough cities for the parallel branch whatever the number of processors, few enough
            // to finish; large instances are made easy to prune
            let k = n.min(if cfg!(miri) { 4 } else { 9 });
            let m = general(r, k);
            t.run("exact threaded", || exact::threaded_solver(&m).0);
            if k <= 7 {
                t.run("exact v5", || exact::fifth_improved_solver(&m).0);
                t.run("exact v6", || exact::sixth_improved_solver(&m).0);
                t.run("exact v4", || exact::fourth_improved_solver(&m).0);
                t.run("exact v3", || exact::third_improved_solver(&m).0);
                t.run("exact v2", || exact::second_improved_solver(&m).0);
            }
            if k <= 5 {
                t.run("exact v0", || exact::naive_solver(&m).0);
                t.run("exact v1", || exact::first_improved_solver(&m).0);
            }
            let mut perm: Vec<usize> = (0..k.min(5)).collect();
            t.run("next_permutation", || {
                let mut c = 0;
                while exact::next_permutation(&mut perm) && c < 200 {
                    c += 1;
                }
                c
            });
        }
        "graph" => {
            let mut g = Graph::from(vec![Vec::<Edge>::new(); n]);
            for _ in 0..2 * n {
                let (a, b) = (r.below(n), r.below(n));
                t.run("add_undirected_edge", || g.add_undirected_edge(a, b, 1.5));
            }
            t.run("edge weights", || g.undirected_edge_weight() + g.directed_edge_weight());
            let m = general(r, n);
            let vm = VecMatrix::from_dim(n);
            let p: Vec<usize> = (0..n).collect();
            t.run("evaluate_circle", || m.evaluate_circle(&p) + vm.evaluate_path(&p));
            t.run("is_hamiltonian_cycle", || walky::solvers::is_hamiltonian_cycle(&p, &m));
            t.run("to matrix", || {
                let g = Graph {
                    vertices: (0..n).map(|i| Vertex { edges: (0..n).filter(|j| *j != i).map(|to| Edge { to, cost: 1.0 }).collect() }).collect(),
                };
                NAMatrix::from(&g).dim()
            });
        }
        "parse" => {
            let m = general(r, n);
            let mut x = String::from("<travellingSalesmanProblemInstance><name>x</name><source>y</source><description>z</description><doublePrecision>15</doublePrecision><ignoredDigits>0</ignoredDigits><graph>");
            for i in 0..n {
                x.push_str("<vertex>");
                for j in 0..n {
                    if i != j {
                        x.push_str(&format!("<edge cost=\"{:e}\">{j}</edge>", m.get(i, j)));
                    }
                }
                x.push_str("</vertex>");
            }
            x.push_str("</graph></travellingSalesmanProblemInstance>");
            // sometimes hostile: a byte removed, doubled or replaced
            let mut b = x.into_bytes();
            for _ in 0..r.below(3) {
                let p = r.below(b.len());
                match r.below(3) {
                    0 => {
                        b.remove(p);
                    }
                    1 => b.insert(p, b[p]),
                    _ => b[p] = b"<>/\"&;=09a "[r.below(11)],
                }
            }
            let x = String::from_utf8_lossy(&b).into_owned();
            let ok = catch_unwind(AssertUnwindSafe(|| TravellingSalesmanProblemInstance::parse_from_xml(&x).map(|i| i.graph))).ok().and_then(|r| r.ok());
            t.calls += 1;
            *t.names.entry("parse").or_default() += 1;
            if let Some(g) = ok {
                t.run("matrix of a parsed graph", || NAMatrix::from(&g).dim());
            }
        }
        _ => panic!("unknown part {part}"),
    }
}
