//! C07 - C15: traversals, tables, graphs from traversals, components.

use crate::case::*;
use crate::choice::Src;
use crate::driver::Obs;
use crate::gen;
use crate::graphs::*;
use crate::oracle::*;
use crate::with_graph;
use gamma::graph::{DefaultGraph, Graph};
use gamma::selection::components;
use gamma::traversal::{BreadthFirst, DepthFirst, Step};
use std::collections::{BTreeSet, HashMap};
use std::convert::TryFrom;

pub fn gen_traversal(s: &mut Src) -> Case {
    let mut c = gen::graph_case(s, 16, 120, 1_000, true);
    c.pairs.clear();
    c
}

fn dfs<G: Graph>(g: &G, id: usize, edges: usize) -> Result<Vec<Step>, String> {
    let mut t = DepthFirst::new(g, id).map_err(|e| format!("DepthFirst::new({id}) failed: {e:?}"))?;
    take_steps(&mut t, edges)
}

fn bfs<G: Graph>(g: &G, id: usize, edges: usize) -> Result<Vec<Step>, String> {
    let mut t = BreadthFirst::new(g, id).map_err(|e| format!("BreadthFirst::new({id}) failed: {e:?}"))?;
    take_steps(&mut t, edges)
}

/// Builds the case's graph and calls f with the graph, its model and the root index. Cases whose
/// graph does not come out consistent are skipped: that is for C01, C03 and C04.
macro_rules! on_graph {
    ($c:expr, $o:expr, $g:ident, $m:ident, $root:ident => $body:expr) => {{
        let Ok(built) = build(&$c.graph) else { return $o.skip() };
        if $c.graph.n() == 0 || $c.root >= $c.graph.n() {
            return $o.skip();
        }
        let root_id = $c.graph.ids[$c.root];
        with_graph!(built, $g => {
            let Ok($m) = Model::of($g) else { return $o.skip() };
            let Some(&$root) = $m.index.get(&root_id) else { return $o.skip() };
            $body
        })
    }};
}

fn classify(o: &mut Obs, c: &Case, m: &Model, root: usize) {
    let label = m.component_labels();
    let size = (0..m.n()).filter(|&v| label[v] == label[root]).count();
    let edges = m.edges.iter().filter(|e| label[e.0] == label[root]).count();
    let cycles = edges + 1 - size;
    o.label(&format!("route {}", ROUTES[c.graph.route as usize]));
    o.label_if(size < m.n(), "other components present");
    o.label_if(m.edges.iter().any(|(a, b)| a == b), "with a loop");
    o.label_if(cycles >= 2, "2+ independent cycles");
    o.label_if(size > 30, "component over 30 nodes");
    o.nontrivial(cycles >= 1 && size >= 4);
}

pub fn run_c07(c: &Case, o: &mut Obs) -> Res {
    on_graph!(c, o, g, m, root => {
        let st = dfs(g, m.ids[root], m.edges.len())?;
        covers_component(&m, root, &st)?;
        classify(o, c, &m, root);
        Ok(())
    })
}

pub fn run_c08(c: &Case, o: &mut Obs) -> Res {
    on_graph!(c, o, g, m, root => {
        let st = dfs(g, m.ids[root], m.edges.len())?;
        depth_first_order(&m, root, &st)?;
        classify(o, c, &m, root);
        Ok(())
    })
}

pub fn run_c09(c: &Case, o: &mut Obs) -> Res {
    on_graph!(c, o, g, m, root => {
        let st = bfs(g, m.ids[root], m.edges.len())?;
        covers_component(&m, root, &st)?;
        classify(o, c, &m, root);
        Ok(())
    })
}

pub fn run_c10(c: &Case, o: &mut Obs) -> Res {
    on_graph!(c, o, g, m, root => {
        let st = bfs(g, m.ids[root], m.edges.len())?;
        breadth_first_order(&m, root, &st)?;
        classify(o, c, &m, root);
        Ok(())
    })
}

// ---- C11 ---------------------------------------------------------------------------------------

pub fn gen_c11(s: &mut Src) -> Case {
    let mut c = gen_traversal(s);
    // which of the interleaved traversals moves next, or (from 4 on) is dropped and started again
    let k = s.below(60);
    c.extra = (0..k).map(|_| if s.chance(1, 12) { 4 + s.below(4) } else { s.below(4) }).collect();
    c
}

enum Walk<'a, G> {
    D(DepthFirst<'a, G>),
    B(BreadthFirst<'a, G>),
}

impl<'a, G: Graph> Walk<'a, G> {
    fn next(&mut self) -> Option<Step> {
        match self {
            Walk::D(w) => w.next(),
            Walk::B(w) => w.next(),
        }
    }
}

pub fn run_c11(c: &Case, o: &mut Obs) -> Res {
    on_graph!(c, o, g, m, root => {
        let id = m.ids[root];
        let other = m.ids[(root + 1) % m.n()];
        let e = m.edges.len();
        let solo = [dfs(g, id, e)?, bfs(g, id, e)?, dfs(g, other, e)?, bfs(g, id, e)?];
        // traversals given up midway leave nothing behind
        let half = |k: usize| (k + 1) / 2;
        DepthFirst::new(g, other).map_err(|x| format!("{x:?}"))?.take(half(solo[2].len())).for_each(drop);
        BreadthFirst::new(g, other).map_err(|x| format!("{x:?}"))?.take(half(solo[2].len())).for_each(drop);
        for (w, again) in [dfs(g, id, e)?, bfs(g, id, e)?].iter().enumerate() {
            if *again != solo[w] {
                return Err(format!("a traversal after another was given up differs: {} and {}", show(again), show(&solo[w])));
            }
        }
        follows_neighbor_order(&m, &solo[0]).map_err(|x| format!("depth-first: {x}"))?;
        follows_neighbor_order(&m, &solo[1]).map_err(|x| format!("breadth-first: {x}"))?;
        // four traversals of one graph advanced in the given interleaving, then to the end
        let fail = |x| format!("{x:?}");
        let start = |w: usize| {
            Ok::<_, String>(match w {
                0 => Walk::D(DepthFirst::new(g, id).map_err(fail)?),
                2 => Walk::D(DepthFirst::new(g, other).map_err(fail)?),
                _ => Walk::B(BreadthFirst::new(g, id).map_err(fail)?),
            })
        };
        let mut walks = [start(0)?, start(1)?, start(2)?, start(3)?];
        let mut got: [Vec<Step>; 4] = Default::default();
        let turns = c.extra.iter().copied().chain((0..4).flat_map(|w| std::iter::repeat(w % 4).take(e + 4)));
        let mut ended = [0usize; 4];
        for x in turns {
            let w = x % 4;
            if x >= 4 {
                walks[w] = start(w)?;
                got[w].clear();
                ended[w] = 0;
            }
            match walks[w].next() {
                Some(s) => {
                    if ended[w] > 0 {
                        return Err(format!("traversal {w} returns a step after it ended"));
                    }
                    got[w].push(s);
                }
                None => ended[w] += 1,
            }
        }
        for w in 0..4 {
            if got[w] != solo[w] {
                return Err(format!("traversal {w} differs when repeated or interleaved: {} and {}", show(&got[w]), show(&solo[w])));
            }
            if ended[w] < 2 && got[w].len() == solo[w].len() {
                for _ in 0..3 {
                    if walks[w].next().is_some() {
                        return Err(format!("traversal {w} returns a step after it ended"));
                    }
                }
            }
        }
        classify(o, c, &m, root);
        o.label_if(c.extra.len() > 8, "interleaved 8+ turns");
        Ok(())
    })
}

// ---- C12 ---------------------------------------------------------------------------------------

pub fn gen_c12(s: &mut Src) -> Case {
    let mut c = gen_traversal(s);
    let (sh, _) = gen::shape(s, 8, 40, 0);
    let (mut h, _) = gen::present(s, sh, true);
    h.route = CUSTOM;
    c.graph2 = Some(h);
    // new ids for both graphs, and seeds of orders
    let n = c.graph.n() + c.graph2.as_ref().unwrap().n();
    c.extra = gen::ids(s, n);
    c.extra.push(s.below(1 << 20));
    c
}

fn both<G: Graph>(g: &G, id: usize, e: usize) -> Result<(Vec<Step>, Vec<Step>), String> {
    Ok((dfs(g, id, e)?, bfs(g, id, e)?))
}

pub fn run_c12(c: &Case, o: &mut Obs) -> Res {
    let Some(h) = &c.graph2 else { return o.skip() };
    on_graph!(c, o, g, m, root => {
        let id = m.ids[root];
        let e = m.edges.len();
        let base = both(g, id, e)?;
        // the model as a spec, for variations
        let spec = GSpec { route: CUSTOM, ids: m.ids.clone(), edges: m.edges.clone(), adj: m.nbr.clone() };
        let differ = |what: &str, a: &(Vec<Step>, Vec<Step>)| {
            Err(format!("steps change with {what}: depth-first {} and {}; breadth-first {} and {}",
                show(&base.0), show(&a.0), show(&base.1), show(&a.1)))
        };

        // another implementation of Graph with the same neighbors
        let t = both(&CGraph::new(&spec), id, e)?;
        if t != base {
            return differ("the Graph implementation", &t);
        }

        // other order of nodes and edges (neighbor lists stay)
        let n = m.n();
        let turn = c.extra.last().copied().unwrap_or(0);
        let perm: Vec<usize> = (0..n).map(|v| (if turn % 2 == 0 { n - 1 - v } else { v } + turn) % n).collect();
        let mut moved = spec.clone();
        for v in 0..n {
            moved.ids[perm[v]] = spec.ids[v];
            moved.adj[perm[v]] = spec.adj[v].iter().map(|&x| perm[x]).collect();
        }
        moved.edges = spec.edges.iter().rev().map(|&(a, b)| (perm[b], perm[a])).collect();
        let t = both(&CGraph::new(&moved), id, e)?;
        if t != base {
            return differ("the order of nodes and edges", &t);
        }

        // renamed, and the renamed steps compared
        if c.extra.len() >= n {
            let mut renamed = spec.clone();
            renamed.ids = c.extra[..n].to_vec();
            if renamed.is_valid() {
                let t = both(&CGraph::new(&renamed), renamed.ids[root], e)?;
                let old: HashMap<usize, usize> = renamed.ids.iter().copied().zip(m.ids.iter().copied()).collect();
                let back = |st: &Vec<Step>| -> Result<Vec<Step>, String> {
                    st.iter().map(|s| {
                        let f = |x: usize| old.get(&x).copied()
                            .ok_or_else(|| format!("step with unknown node {x}"));
                        Ok(Step::new(f(s.sid)?, f(s.tid)?, s.cut))
                    }).collect()
                };
                let t = (back(&t.0)?, back(&t.1)?);
                if t != base {
                    return differ(&format!("renaming to {:?}", &renamed.ids[..n.min(200)]), &t);
                }
                o.label("renamed");
            }
        }

        // with other components around it: the second graph before and among the nodes
        let mut taken: BTreeSet<usize> = m.ids.iter().copied().collect();
        let mut next = 0usize;
        let mut hid = vec![];
        for &x in &h.ids {
            let mut y = x;
            while taken.contains(&y) {
                y = next;
                next += 1;
            }
            taken.insert(y);
            hid.push(y);
        }
        let k = h.n();
        let mut wide = GSpec { route: CUSTOM, ..GSpec::default() };
        wide.ids = hid;
        wide.ids.extend_from_slice(&spec.ids);
        wide.adj = h.adj.clone();
        wide.adj.extend(spec.adj.iter().map(|r| r.iter().map(|x| x + k).collect()));
        wide.edges = spec.edges.iter().map(|&(a, b)| (a + k, b + k)).collect();
        wide.edges.extend_from_slice(&h.edges);
        let t = both(&CGraph::new(&wide), id, wide.edges.len())?;
        if t != base {
            return differ("other components around", &t);
        }
        o.label_if(k > 0, "embedded in a larger graph");

        // a DefaultGraph with the same neighbor lists, when ids allow it
        let mut rows = spec.clone();
        rows.route = ADJACENCY;
        rows.normalize();
        if let Ok(d) = build_default(&rows) {
            if Model::of(&d).map(|x| x.nbr == rows.adj).unwrap_or(false) {
                let t = both(&d, root, e)?;
                let back = |st: Vec<Step>| st.into_iter().map(|s| Step::new(m.ids[s.sid.min(n - 1)], m.ids[s.tid.min(n - 1)], s.cut)).collect::<Vec<_>>();
                let t = (back(t.0), back(t.1));
                if t != base {
                    return differ("DefaultGraph with ids 0..n", &t);
                }
            }
        }
        classify(o, c, &m, root);
        Ok(())
    })
}

// ---- C13 ---------------------------------------------------------------------------------------

pub fn run_c13(c: &Case, o: &mut Obs) -> Res {
    on_graph!(c, o, g, m, root => {
        if m.nbr[root].is_empty() {
            return o.skip();
        }
        let id = m.ids[root];
        let e = m.edges.len();
        let st = dfs(g, id, e)?;
        let mut nodes = vec![id];
        nodes.extend(st.iter().filter(|s| !s.cut).map(|s| s.tid));
        let edges: Vec<(usize, usize)> = st.iter().map(|s| (s.sid, s.tid)).collect();
        let fresh = || DepthFirst::new(g, id).map_err(|x| format!("{x:?}"));
        // the component's own nodes and edges, each once
        covers_component(&m, root, &st).map_err(|x| format!("the traversal to be converted: {x}"))?;
        let table = fresh()?.into_table();
        if table != (nodes.clone(), edges.clone()) {
            return Err(format!("table {table:?} does not list the nodes {nodes:?} and edges {edges:?} as entered and stepped"));
        }
        let h = DefaultGraph::try_from(fresh()?).map_err(|x| format!("graph from traversal failed: {x:?}; steps {}", show(&st)))?;
        let v = View::of(&h)?;
        if v.ids != nodes {
            return Err(format!("graph from traversal has nodes {:?}, entered were {nodes:?}", v.ids));
        }
        if v.edges != edges {
            return Err(format!("graph from traversal has edges {:?}, stepped were {edges:?}", v.edges));
        }
        for (k, &a) in v.ids.iter().enumerate() {
            let got: BTreeSet<usize> = v.nbr[k].iter().copied().collect();
            let want: BTreeSet<usize> = m.nbr[m.index[&a]].iter().map(|&x| m.ids[x]).collect();
            if got != want || v.nbr[k].len() != want.len() {
                return Err(format!("graph from traversal lists neighbors {:?} of {a}, the original {want:?}", v.nbr[k]));
            }
        }
        // of a traversal that was advanced, the rest
        let e = st.len();
        for k in [1, e / 2, e - 1, e] {
            let rest = &st[k..];
            let advanced = || -> Result<_, String> {
                let mut t = fresh()?;
                for s in &st[..k] {
                    if t.next().as_ref() != Some(s) {
                        return Err("a second traversal steps differently".into());
                    }
                }
                Ok(t)
            };
            // what comes before the nodes entered, the node first left or the root, is not judged
            let entered: Vec<usize> = rest.iter().filter(|s| !s.cut).map(|s| s.tid).collect();
            let table = advanced()?.into_table();
            if !table.0.ends_with(&entered) || table.0.len() > entered.len() + 1 || table.1 != edges[k..] {
                return Err(format!("table {table:?} made after {k} of the steps {} does not list the rest", show(&st)));
            }
            if let Ok(h) = DefaultGraph::try_from(advanced()?) {
                let v = View::of(&h)?;
                if !v.ids.ends_with(&entered) || v.edges != edges[k..] {
                    return Err(format!("graph with nodes {:?} and edges {:?} made after {k} of the steps {}", v.ids, v.edges, show(&st)));
                }
            }
        }
        classify(o, c, &m, root);
        Ok(())
    })
}

// ---- C14, C15 ----------------------------------------------------------------------------------

pub fn gen_components(s: &mut Src) -> Case {
    if s.chance(1, 2) {
        let sh = gen::union(s, 20);
        let (graph, _) = gen::present(s, sh, true);
        return Case { graph, ..Case::default() };
    }
    let mut c = gen_traversal(s);
    c.root = 0;
    c
}

/// The components, as long as there are no more of them than nodes.
/// The components one by one, no further than they can go: not empty and with no more nodes
/// together than the graph has. What comes beyond is an error.
pub fn collect_components(it: &mut dyn Iterator<Item = DefaultGraph>, n: usize) -> Result<Vec<DefaultGraph>, String> {
    let mut out: Vec<DefaultGraph> = vec![];
    let mut total = 0;
    while let Some(c) = it.next() {
        total += c.order();
        out.push(c);
        if total > n || out.len() > n {
            return Err(format!("the first {} components have {total} nodes together, the graph has {n}", out.len()));
        }
    }
    Ok(out)
}

fn all_components<G: Graph>(g: &G, n: usize) -> Result<Vec<DefaultGraph>, String> {
    let mut it = components(g);
    let out = collect_components(&mut it, n)?;
    if it.next().is_some() || it.next().is_some() {
        return Err("a component follows after the last".into());
    }
    Ok(out)
}

fn classify_components(o: &mut Obs, c: &Case, m: &Model) {
    let label = m.component_labels();
    let parts: BTreeSet<usize> = label.iter().copied().collect();
    o.label(&format!("route {}", ROUTES[c.graph.route as usize]));
    o.label_if(parts.len() >= 2, "2+ components");
    o.label_if(m.has_odd_cycle(), "with an odd cycle");
    o.label_if(m.edges.iter().any(|(a, b)| a == b), "with a loop");
    // components whose node ranges overlap in the node order
    let overlap = (1..m.n()).any(|v| label[v] != label[v - 1] && label[v] != v);
    o.label_if(overlap, "interleaved components");
    let cyclic = m.edges.len() + parts.len() > m.n();
    o.nontrivial(parts.len() >= 2 && cyclic);
}

pub fn run_c14(c: &Case, o: &mut Obs) -> Res {
    let Ok(built) = build(&c.graph) else { return o.skip() };
    with_graph!(built, g => {
        let Ok(m) = Model::of(g) else { return o.skip() };
        let comps = all_components(g, m.n())?;
        let label = m.component_labels();
        let mut seen = vec![false; m.n()];
        let mut last_first: Option<usize> = None;
        for (k, h) in comps.iter().enumerate() {
            let ids: Vec<usize> = h.nodes().collect();
            if ids.is_empty() {
                return Err(format!("component {k} is empty"));
            }
            let mut first = usize::MAX;
            for id in ids {
                let Some(&v) = m.index.get(&id) else {
                    return Err(format!("component {k} has node {id}, which the graph has not"));
                };
                if std::mem::replace(&mut seen[v], true) {
                    return Err(format!("node {id} is in component {k} a second time"));
                }
                first = first.min(v);
            }
            if last_first.map_or(false, |l| l > first) {
                return Err(format!("component {k} comes after one whose first node is later in the node order"));
            }
            last_first = Some(first);
        }
        if let Some(v) = seen.iter().position(|x| !x) {
            return Err(format!("node {} is in no component", m.ids[v]));
        }
        let _ = label;
        classify_components(o, c, &m);
        Ok(())
    })
}

pub fn run_c15(c: &Case, o: &mut Obs) -> Res {
    let Ok(built) = build(&c.graph) else { return o.skip() };
    with_graph!(built, g => {
        let Ok(m) = Model::of(g) else { return o.skip() };
        let comps = all_components(g, m.n())?;
        let label = m.component_labels();
        let mut edges_of: HashMap<usize, Vec<(usize, usize)>> = HashMap::new();
        m.edges.iter().for_each(|&e| edges_of.entry(label[e.0]).or_default().push(e));
        for (k, h) in comps.iter().enumerate() {
            let v = View::of(h)?;
            let hm = Model::of_view(&v).map_err(|e| format!("component {k} is inconsistent: {e}"))?;
            compare_all(h, &v).map_err(|e| format!("component {k} is inconsistent: {e}"))?;
            let mut at = vec![];
            for id in &hm.ids {
                match m.index.get(id) {
                    Some(&x) => at.push(x),
                    None => return Err(format!("component {k} has node {id}, which the graph has not")),
                }
            }
            // connected
            if hm.component_labels().iter().any(|&l| l != 0) {
                return Err(format!("component {k} with nodes {:?} and edges {:?} is not connected", hm.ids, hm.edge_id_set()));
            }
            // exactly the edges of the graph around its nodes
            let around: BTreeSet<usize> = at.iter().map(|&x| label[x]).collect();
            let want: BTreeSet<(usize, usize)> = around.iter().filter_map(|l| edges_of.get(l)).flatten()
                .map(|&(a, b)| { let (a, b) = (m.ids[a], m.ids[b]); (a.min(b), a.max(b)) })
                .collect();
            if want != hm.edge_id_set() {
                return Err(format!("component {k} with nodes {:?} has edges {:?}, the graph has {want:?} there", hm.ids, hm.edge_id_set()));
            }
            if at.iter().any(|&x| label[x] != label[at[0]]) {
                return Err(format!("component {k} joins nodes that are not connected"));
            }
            for (i, &x) in at.iter().enumerate() {
                if h.degree(hm.ids[i]) != Ok(m.nbr[x].len()) {
                    return Err(format!("degree of {} is {:?} in component {k} and {} in the graph", hm.ids[i], h.degree(hm.ids[i]), m.nbr[x].len()));
                }
            }
        }
        classify_components(o, c, &m);
        Ok(())
    })
}

// ---- exhaustive small graphs -------------------------------------------------------------------

fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

/// The graph with the given edge set in an order derived from `order` (0 ascending, 1 descending,
/// otherwise scrambled), presented as a custom graph or, for order % 3 == 2, by its rows.
pub fn small_graph(n: usize, mask: u64, order: u64) -> GSpec {
    let mut edges = vec![];
    let mut k = 0;
    for b in 0..n {
        for a in 0..b {
            if mask >> k & 1 == 1 {
                edges.push((a, b));
            }
            k += 1;
        }
    }
    match order {
        0 => {}
        1 => {
            edges.reverse();
            edges.iter_mut().for_each(|e| *e = (e.1, e.0));
        }
        _ => {
            let mut h = mix(order ^ mask << 8);
            for i in (1..edges.len()).rev() {
                h = mix(h);
                edges.swap(i, (h % (i as u64 + 1)) as usize);
                if h >> 40 & 1 == 1 {
                    edges[i] = (edges[i].1, edges[i].0);
                }
            }
        }
    }
    let mut adj = GSpec::adj_from_edges(n, &edges);
    if order >= 2 {
        let mut h = mix(order.wrapping_mul(31) ^ mask);
        for r in adj.iter_mut() {
            for i in (1..r.len()).rev() {
                h = mix(h);
                r.swap(i, (h % (i as u64 + 1)) as usize);
            }
        }
    }
    let mut g = GSpec { route: if order % 3 == 2 { ADJACENCY } else { CUSTOM }, ids: (0..n).collect(), edges, adj };
    g.normalize();
    g
}

/// All labelled graphs of up to `max_n` nodes, in `orders` presentations, with every root (or only
/// root 0).
pub fn all_graphs(min_n: usize, max_n: usize, orders: u64, roots: bool, emit: &mut dyn FnMut(usize, &dyn Fn() -> Case) -> bool) {
    let mut index = 0;
    for n in min_n..=max_n {
        let slots = n * n.saturating_sub(1) / 2;
        for mask in 0u64..1 << slots {
            for order in 0..orders {
                for root in 0..if roots { n.max(1) } else { 1 } {
                    let make = move || Case { graph: small_graph(n, mask, order), root, ..Case::default() };
                    if !emit(index, &make) {
                        return;
                    }
                    index += 1;
                }
            }
        }
    }
}

/// All graphs of up to 4 nodes with all combinations of neighbor orders and all roots.
pub fn all_orders(emit: &mut dyn FnMut(usize, &dyn Fn() -> Case) -> bool) {
    let mut index = 0;
    for n in 1..=4usize {
        let slots = n * (n - 1) / 2;
        for mask in 0u64..1 << slots {
            let g = small_graph(n, mask, 0);
            let perms: Vec<Vec<Vec<usize>>> = g.adj.iter().map(|r| permutations(r)).collect();
            let total: usize = perms.iter().map(|p| p.len()).product();
            for code in 0..total {
                for root in 0..n {
                    let (g, perms) = (&g, &perms);
                    let make = move || {
                        let mut g = g.clone();
                        let mut c = code;
                        for v in 0..n {
                            g.adj[v] = perms[v][c % perms[v].len()].clone();
                            c /= perms[v].len();
                        }
                        g.route = if code % 2 == 0 { CUSTOM } else { ADJACENCY };
                        g.normalize();
                        Case { graph: g, root, ..Case::default() }
                    };
                    if !emit(index, &make) {
                        return;
                    }
                    index += 1;
                }
            }
        }
    }
}

fn permutations(v: &[usize]) -> Vec<Vec<usize>> {
    if v.is_empty() {
        return vec![vec![]];
    }
    let mut out = vec![];
    for i in 0..v.len() {
        let mut rest = v.to_vec();
        let x = rest.remove(i);
        for mut p in permutations(&rest) {
            p.insert(0, x);
            out.push(p);
        }
    }
    out
}
