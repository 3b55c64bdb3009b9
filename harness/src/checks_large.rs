//! C24: large graphs on a small stack.

use crate::alloc;
use crate::case::*;
use crate::checks::Tier;
use crate::choice::Src;
use crate::driver::{plain, Obs};
use crate::graphs::*;
use crate::oracle::*;
use crate::refmatch;
use gamma::graph::{DefaultGraph, Graph};
use gamma::matching::{greedy, maximum_matching, Pairing};
use gamma::selection::components;
use gamma::traversal::{BreadthFirst, DepthFirst, Step};
use std::convert::TryFrom;

/// Stack for traversals, tables, components and greedy matching of tens of thousands of nodes.
pub const SMALL_STACK: usize = 192 << 10;
/// Stack for maximum matching of hundreds of nodes: what Rust gives a thread by default.
pub const DEFAULT_STACK: usize = 2 << 20;

pub const KINDS: [&str; 18] = [
    "path", "cycle", "star", "comb", "binary tree", "random tree", "deep random tree", "isolated nodes", "many small components",
    "ladder", "sparse", "two hubs", "wheel", "cactus", // large
    "matching: sparse", "matching: nested flowers", "matching: path", "matching: chain of odd cycles",
];
const FIRST_MATCHING: usize = 14;

pub struct Rng(pub u64);

impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, k: usize) -> usize {
        (self.next() % k.max(1) as u64) as usize
    }
}

/// extra = [kind, number of nodes, seed]
pub fn gen_c24(s: &mut Src) -> Case {
    let kind = s.below(KINDS.len());
    let n = if kind >= FIRST_MATCHING { s.range(40, 420) } else if plain() { s.range(1_500, 6_000) } else { s.range(2_000, 30_000) };
    Case { extra: vec![kind, n, s.below(1 << 30)], ..Case::default() }
}

pub fn shape(kind: usize, n: usize, r: &mut Rng) -> (usize, Vec<(usize, usize)>) {
    let mut n = n.max(1);
    let mut e = vec![];
    match KINDS[kind] {
        "path" | "matching: path" => (1..n).for_each(|v| e.push((v - 1, v))),
        "cycle" => {
            (1..n).for_each(|v| e.push((v - 1, v)));
            if n > 2 {
                e.push((n - 1, 0));
            }
        }
        "star" => (1..n).for_each(|v| e.push((0, v))),
        "comb" => (1..n).for_each(|v| e.push((if v % 2 == 1 { v.saturating_sub(2) } else { v - 1 }, v))),
        "binary tree" => (1..n).for_each(|v| e.push(((v - 1) / 2, v))),
        "random tree" => (1..n).for_each(|v| e.push((r.below(v), v))),
        "deep random tree" => (1..n).for_each(|v| e.push((v - 1 - r.below(v.min(4)), v))),
        "isolated nodes" => {
            (0..r.below(3)).for_each(|_| {
                let (a, b) = (r.below(n), r.below(n));
                e.push((a, b))
            });
        }
        "many small components" => {
            let mut v = 0;
            while v < n {
                let k = (1 + r.below(5)).min(n - v);
                (1..k).for_each(|i| e.push((v + i - 1, v + i)));
                if k >= 3 && r.below(2) == 0 {
                    e.push((v, v + k - 1));
                }
                v += k;
            }
        }
        "ladder" => {
            let k = n / 2;
            for i in 0..k {
                e.push((i, k + i));
                if i + 1 < k {
                    e.push((i, i + 1));
                    e.push((k + i, k + i + 1));
                }
            }
        }
        "sparse" | "matching: sparse" => {
            let m = n * (8 + r.below(8)) / 10;
            (0..m).for_each(|_| e.push((r.below(n), r.below(n))));
        }
        "two hubs" => {
            (2..n).for_each(|v| {
                e.push((0, v));
                e.push((v, 1));
            });
        }
        "wheel" => {
            (1..n).for_each(|v| e.push((0, v)));
            (2..n).for_each(|v| e.push((v - 1, v)));
        }
        "cactus" | "matching: chain of odd cycles" => {
            let mut k = 1;
            let mut at = 0;
            while k + 4 < n {
                let len = if r.below(3) == 0 { 5 } else { 3 };
                e.push((at, k));
                (1..len - 1).for_each(|i| e.push((k + i - 1, k + i)));
                e.push((k + len - 2, at));
                k += len - 1;
                at = if kind >= FIRST_MATCHING || r.below(8) > 0 { k - 1 - r.below(len - 1) } else { r.below(k) };
            }
            n = k + 1;
            e.push((k - 1, k));
        }
        _ => {
            // an exposed node blown up again and again, mostly at the most recent cycle
            let mut k = 3 + 2 * r.below(2);
            (0..k).for_each(|v| e.push((v, (v + 1) % k)));
            while k + 3 < n {
                // node v becomes a triangle v, k, k+1; each edge of v is moved to one of the three
                let v = if r.below(3) > 0 { k - 1 - r.below(k.min(4)) } else { r.below(k) };
                for x in e.iter_mut() {
                    if x.0 == v {
                        x.0 = [v, k, k + 1][r.below(3)]
                    } else if x.1 == v {
                        x.1 = [v, k, k + 1][r.below(3)]
                    }
                }
                e.extend([(v, k), (k, k + 1), (k + 1, v)]);
                k += 2;
            }
            // a tail, so that paths start far from the cycles
            e.push((r.below(k), k));
            n = k + 1;
        }
    }
    let mut seen = std::collections::HashSet::new();
    e.retain(|&(a, b)| a != b && seen.insert((a.min(b), a.max(b))));
    (n, e)
}

fn big_graph(c: &Case) -> Option<GSpec> {
    let &[kind, n, seed] = c.extra.as_slice() else { return None };
    if kind >= KINDS.len() || n > 200_000 {
        return None;
    }
    let mut r = Rng(seed as u64);
    let (n, mut edges) = shape(kind, n, &mut r);
    let mut ids: Vec<usize> = (0..n).collect();
    if seed % 4 >= 1 {
        // scattered node order, edge order and direction, ids kept or multiplied
        for i in (1..n).rev() {
            ids.swap(i, r.below(i + 1));
        }
        if seed % 4 >= 2 {
            for i in (1..edges.len()).rev() {
                edges.swap(i, r.below(i + 1));
                if r.below(2) == 0 {
                    edges[i] = (edges[i].1, edges[i].0);
                }
            }
        }
        if seed % 4 == 3 {
            ids.iter_mut().for_each(|x| {
                *x = match seed / 4 % 6 {
                    // ids that agree in their low or in their high bits, or in their sums
                    0 => *x << 40,
                    1 => *x % 128 << 56 | *x,
                    2 => *x % 1009 << 32 | *x / 1009,
                    3 => Rng(*x as u64).next() as usize,
                    _ => usize::MAX - *x * 977,
                }
            });
        }
    }
    if seed % 5 == 4 {
        // loops here and there
        (0..n).filter(|_| r.below(40) == 0).for_each(|v| edges.push((v, v)));
    }
    let adj = GSpec::adj_from_edges(n, &edges);
    Some(GSpec { route: if seed % 3 == 0 { CUSTOM } else { ADDS }, ids, edges, adj })
}

/// A value handed to a thread while this one waits, or that C28 found to be shareable. Keeps the
/// harness independent of whether the library's types are Send and Sync.
pub struct Hand<T>(T);
unsafe impl<T> Send for Hand<T> {}
impl<T> Hand<T> {
    pub fn new(t: T) -> Self {
        Hand(t)
    }
    pub fn take(self) -> T {
        self.0
    }
}

/// Runs f on a thread with the given stack, and waits. A panic of f is passed on.
fn on_stack<T>(stack: usize, f: impl FnOnce() -> T) -> T {
    let slot = alloc::slot();
    let f = Hand(f);
    let r = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(stack)
            .spawn_scoped(s, move || {
                alloc::bind(slot);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f.take()));
                Hand(r.map_err(|_| crate::driver::last_panic()))
            })
            .expect("thread")
            .join()
            .map(Hand::take)
    });
    alloc::bind(slot);
    match r {
        Ok(Ok(t)) => t,
        Ok(Err(m)) => {
            crate::driver::set_last_panic(m);
            std::panic::resume_unwind(Box::new("passed on"))
        }
        Err(e) => std::panic::resume_unwind(e),
    }
}

struct Results {
    dfs: Result<Vec<Step>, String>,
    bfs: Result<Vec<Step>, String>,
    table: (Vec<usize>, Vec<(usize, usize)>),
    from: Option<DefaultGraph>,
    comps: Vec<DefaultGraph>,
    greedy: Pairing,
}

fn survey<G: Graph>(g: &G, id: usize, n: usize, m: usize) -> Result<Results, String> {
    let say = |e| format!("traversal refused: {e:?}");
    let table = DepthFirst::new(g, id).map_err(say)?.into_table();
    let from = DefaultGraph::try_from(DepthFirst::new(g, id).map_err(say)?).ok();
    let comps = crate::checks_traversal::collect_components(&mut components(g), n)?;
    // given up early and in the middle: dropping must not take stack either
    for k in if m < 30_000 { vec![1, m / 2] } else { vec![1] } {
        DepthFirst::new(g, id).map_err(say)?.nth(k);
        BreadthFirst::new(g, id).map_err(say)?.nth(k);
        components(g).nth(k.min(3));
    }
    Ok(Results {
        dfs: take_steps(&mut DepthFirst::new(g, id).map_err(say)?, m),
        bfs: take_steps(&mut BreadthFirst::new(g, id).map_err(say)?, m),
        table,
        from,
        comps,
        greedy: greedy(g),
    })
}

fn short(e: String) -> String {
    e.chars().take(300).collect()
}

pub fn run_c24(c: &Case, o: &mut Obs) -> Res {
    let Some(spec) = big_graph(c) else { return o.skip() };
    let kind = c.extra[0];
    let Ok(built) = on_stack(SMALL_STACK, || build(&spec)) else {
        return Err("construction fails".into());
    };
    let m = Model::of_spec(&spec);
    o.label(KINDS[kind]);
    let mut results = None;
    let r = judge_c24(c, o, &m, &built, &mut results);
    // let go of everything on a small stack, too
    on_stack(SMALL_STACK, move || drop((built, results)));
    r
}

fn judge_c24(c: &Case, o: &mut Obs, m: &Model, built: &Built, results: &mut Option<Results>) -> Res {
    let kind = c.extra[0];
    if kind >= FIRST_MATCHING {
        let from_greedy = c.extra[2] / 24 % 2 == 1;
        o.label_if(from_greedy, "matching: from the greedy matching");
        let p = match built {
            Built::D(g) => on_stack(DEFAULT_STACK, || matched(g, from_greedy)),
            Built::C(g) => matched_custom(g, from_greedy),
        };
        let map = pair_edges(&p)?;
        pairs_in_graph(m, &map)?;
        let k = refmatch::maximum(&m.nbr).unwrap_or_else(|e| panic!("harness: {e}"));
        if map.len() / 2 != k {
            return Err(format!("{} pairs, but a maximum matching has {k}", map.len() / 2));
        }
        o.nontrivial(m.n() >= 100);
        return Ok(());
    }
    let root = c.extra[2] % m.n();
    let id = m.ids[root];
    let r = match built {
        Built::D(g) => on_stack(SMALL_STACK, || survey(g, id, m.n(), m.edges.len())),
        Built::C(g) => survey_custom(g, id, m.n(), m.edges.len()),
    }?;
    let r: &Results = results.insert(r);
    let dfs = r.dfs.as_ref().map_err(|e| e.clone())?;
    let bfs = r.bfs.as_ref().map_err(|e| e.clone())?;
    covers_component(m, root, dfs).map_err(|e| short(format!("depth-first: {e}")))?;
    depth_first_order(m, root, dfs).map_err(|e| short(format!("depth-first: {e}")))?;
    covers_component(m, root, bfs).map_err(|e| short(format!("breadth-first: {e}")))?;
    breadth_first_order(m, root, bfs).map_err(|e| short(format!("breadth-first: {e}")))?;
    if !m.nbr[root].is_empty() {
        let mut nodes = vec![id];
        nodes.extend(dfs.iter().filter(|s| !s.cut).map(|s| s.tid));
        let edges: Vec<_> = dfs.iter().map(|s| (s.sid, s.tid)).collect();
        if r.table.0 != nodes || r.table.1 != edges {
            return Err("table differs from the steps".into());
        }
        let Some(h) = &r.from else { return Err("no graph from the traversal".into()) };
        let v = View::of(h)?;
        if v.ids != nodes || v.edges != edges || h.order() != nodes.len() || h.size() != edges.len() {
            return Err("graph from the traversal differs from the steps".into());
        }
    }
    // components: first nodes in order, node sets, edge counts
    let label = m.component_labels();
    let mut firsts: Vec<usize> = label.clone();
    firsts.sort_unstable();
    firsts.dedup();
    if firsts.len() != r.comps.len() {
        return Err(format!("{} components instead of {}", r.comps.len(), firsts.len()));
    }
    let mut nodes_in = vec![0usize; m.n()];
    let mut edges_in = vec![0usize; m.n()];
    (0..m.n()).for_each(|v| nodes_in[label[v]] += 1);
    m.edges.iter().for_each(|e| edges_in[label[e.0]] += 1);
    for (h, &f) in r.comps.iter().zip(&firsts) {
        if h.order() != nodes_in[f] || h.size() != edges_in[f] {
            return Err(format!("component of {} has {} nodes and {} edges instead of {} and {}", m.ids[f], h.order(), h.size(), nodes_in[f], edges_in[f]));
        }
        for id in h.nodes() {
            let Some(&v) = m.index.get(&id) else { return Err(format!("component with foreign node {id}")) };
            if label[v] != f {
                return Err(format!("node {id} is in the wrong component"));
            }
            if h.degree(id) != Ok(m.nbr[v].len()) {
                return Err(format!("degree of {id} differs in its component"));
            }
        }
    }
    let map = pair_edges(&r.greedy)?;
    pairs_in_graph(m, &map)?;
    if let Some(e) = free_edge(m, &map) {
        return Err(format!("greedy leaves edge {e:?} with both ends free"));
    }
    o.nontrivial(m.n() >= 2_000);
    Ok(())
}

fn matched<G: Graph>(g: &G, from_greedy: bool) -> Pairing {
    let mut p = if from_greedy { greedy(g) } else { Pairing::new() };
    maximum_matching(g, &mut p);
    p
}

/// CGraph counts calls in a Cell and is not Sync; it is rebuilt on the thread.
fn matched_custom(g: &CGraph, from_greedy: bool) -> Pairing {
    let g = g.plain();
    on_stack(DEFAULT_STACK, move || matched(&g.counted(), from_greedy))
}

fn survey_custom(g: &CGraph, id: usize, n: usize, m: usize) -> Result<Results, String> {
    let g = g.plain();
    on_stack(SMALL_STACK, move || survey(&g.counted(), id, n, m))
}

/// Sizes for the build without optimization, where a call of itself in last place takes stack, too.
pub fn sizes(tier: Tier) -> (&'static [usize], &'static [usize]) {
    match (plain(), tier) {
        (true, Tier::Quick) => (&[1_500, 5_000], &[30, 120]),
        (true, Tier::Thorough) => (&[1_500, 5_000, 20_000], &[30, 120, 240]),
        (false, Tier::Quick) => (&[3_000, 70_000], &[30, 300]),
        (false, Tier::Thorough) => (&[3_000, 30_000, 100_000], &[30, 300, 600]),
    }
}

/// One case of every kind in a few sizes.
pub fn all_kinds(sizes: &[usize], matched: &[usize], emit: &mut dyn FnMut(usize, &dyn Fn() -> Case) -> bool) {
    let mut index = 0;
    for kind in 0..KINDS.len() {
        for &n in if kind >= FIRST_MATCHING { matched } else { sizes } {
            // slow without optimization
            let n = if plain() && ["two hubs", "wheel"].contains(&KINDS[kind]) { n.min(2_500) } else { n };
            for seed in 0..2 {
                let make = move || Case { extra: vec![kind, n, seed * 3 + kind % 2], ..Case::default() };
                if !emit(index, &make) {
                    return;
                }
                index += 1;
            }
        }
    }
}
