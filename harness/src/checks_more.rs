//! C25, C26: reproducible and local results; round trips between representations.

use crate::case::*;
use crate::choice::Src;
use crate::driver::Obs;
use crate::gen;
use crate::graphs::*;
use crate::oracle::*;
use crate::with_graph;
use gamma::graph::{DefaultGraph, Graph};
use gamma::matching::{greedy, maximum_matching, Pairing};
use gamma::selection::components;
use gamma::traversal::{BreadthFirst, DepthFirst};
use std::collections::{BTreeMap, BTreeSet};
use std::convert::TryFrom;

// ---- C25 ---------------------------------------------------------------------------------------

pub fn gen_c25(s: &mut Src) -> Case {
    let mut c = if s.chance(1, 3) {
        let sh = gen::union(s, 20);
        let (graph, pairs) = gen::present(s, sh, true);
        Case { graph, pairs, ..Case::default() }
    } else {
        gen::graph_case(s, 16, 80, 400, true)
    };
    c.root = 0;
    let (sh, _) = gen::shape(s, 8, 40, 0);
    let (mut h, _) = gen::present(s, sh, true);
    h.route = CUSTOM;
    c.extra = gen::ids(s, c.graph.n() + h.n());
    c.graph2 = Some(h);
    // turns of interleaved iterations
    c.extra.push(s.below(1 << 20));
    c
}

type Mates = BTreeMap<usize, usize>;

fn views<G: Graph>(g: &G, n: usize) -> Result<Vec<View>, String> {
    crate::checks_traversal::collect_components(&mut components(g), n)?.iter().map(View::of).collect()
}

fn maximum<G: Graph>(g: &G, start: &[(usize, usize)]) -> Result<Mates, String> {
    let mut p = Pairing::new();
    start.iter().for_each(|&(a, b)| p.pair(a, b));
    maximum_matching(g, &mut p);
    pair_edges(&p)
}

pub fn run_c25(c: &Case, o: &mut Obs) -> Res {
    let Some(h) = &c.graph2 else { return o.skip() };
    let Ok(built) = build(&c.graph) else { return o.skip() };
    with_graph!(built, g => {
        let Ok(m) = Model::of(g) else { return o.skip() };
        let (n, k) = (m.n(), h.n());
        if c.extra.len() != n + k + 1 {
            return o.skip();
        }
        let mut used = BTreeSet::new();
        let mut start = vec![];
        for &(a, b) in &c.pairs {
            let ids = (c.graph.ids.get(a).copied(), c.graph.ids.get(b).copied());
            let (Some(a), Some(b)) = ids else { return o.skip() };
            let edge = m.index.get(&a).zip(m.index.get(&b)).map_or(false, |(&i, &j)| i != j && m.nbr[i].contains(&j));
            if !edge || !used.insert(a) || !used.insert(b) {
                return o.skip();
            }
            start.push((a, b));
        }
        // matching costs far more than the rest
        let match_too = n <= 150;
        let base = views(g, n)?;
        let pairs = pair_edges(&greedy(g))?;
        let most = if match_too { maximum(g, &start)? } else { Mates::new() };
        let twice = |what: &str, comps: &Vec<View>, p: &Mates, q: &Mates| -> Res {
            if *comps != base {
                return Err(format!("components {what}: {comps:?}, at first {base:?}"));
            }
            if *p != pairs {
                return Err(format!("greedy matching {what}: {p:?}, at first {pairs:?}"));
            }
            if match_too && *q != most {
                return Err(format!("maximum matching {what}: {q:?}, at first {most:?}"));
            }
            Ok(())
        };
        let spec = GSpec { route: CUSTOM, ids: m.ids.clone(), edges: m.edges.clone(), adj: m.nbr.clone() };
        let other = CGraph::new(&spec);
        let q = if match_too { maximum(g, &start)? } else { Mates::new() };
        twice("a second time", &views(g, n)?, &pair_edges(&greedy(g))?, &q)?;
        let q = if match_too { maximum(&other, &start)? } else { Mates::new() };
        twice("of another Graph implementation", &views(&other, n)?, &pair_edges(&greedy(&other))?, &q)?;

        // an iteration given up midway leaves nothing behind
        components(g).take((base.len() + 1) / 2).for_each(drop);
        let again = views(g, n)?;
        if again != base {
            return Err(format!("components after an iteration was given up: {again:?}, at first {base:?}"));
        }

        // two iterations in turns, and a traversal of the graph under way
        let mut turns = *c.extra.last().unwrap();
        let mut its = [components(g), components(g)];
        let mut got = [vec![], vec![]];
        let mut t = m.ids.first().and_then(|&id| DepthFirst::new(g, id).ok());
        for step in 0..4 * n + 8 {
            let w = if step > 2 * n + 4 { step % 2 } else { turns & 1 };
            turns = turns.rotate_right(1) ^ 5;
            t.as_mut().map(|t| t.next());
            if let Some(x) = its[w].next() {
                got[w].push(View::of(&x)?);
            }
        }
        for x in &got {
            if *x != base {
                return Err(format!("components in turns: {x:?}, at first {base:?}"));
            }
        }

        // renamed
        let mut renamed = spec.clone();
        renamed.ids = c.extra[..n].to_vec();
        let fresh: BTreeSet<usize> = c.extra[..n + k].iter().copied().collect();
        if !renamed.is_valid() || fresh.len() != n + k {
            return o.skip();
        }
        let back: BTreeMap<usize, usize> = renamed.ids.iter().zip(&m.ids).map(|(&a, &b)| (a, b)).collect();
        let f = |x: usize| back.get(&x).copied().ok_or(format!("node {x} is not in the graph"));
        let view_back = |v: &View| -> Result<View, String> {
            Ok(View {
                ids: v.ids.iter().map(|&x| f(x)).collect::<Result<_, _>>()?,
                nbr: v.nbr.iter().map(|r| r.iter().map(|&x| f(x)).collect()).collect::<Result<_, String>>()?,
                edges: v.edges.iter().map(|&(a, b)| Ok((f(a)?, f(b)?))).collect::<Result<_, String>>()?,
            })
        };
        let mates_back = |p: &Mates| -> Result<Mates, String> { p.iter().map(|(&a, &b)| Ok((f(a)?, f(b)?))).collect() };
        let cg = CGraph::new(&renamed);
        let comps = views(&cg, n)?.iter().map(view_back).collect::<Result<Vec<_>, _>>()?;
        twice(&format!("with nodes renamed to {:?}", renamed.ids), &comps, &mates_back(&pair_edges(&greedy(&cg))?)?, &most)?;

        // among other components, on nodes listed before, between and after
        let mut wide = GSpec { route: CUSTOM, ..GSpec::default() };
        let mut place = vec![];
        let (mut i, mut j) = (0, 0);
        let mut own = vec![0; n];
        let mut theirs = vec![0; k];
        while i < n || j < k {
            if j < k && (i == n || (i + j) % 3 != 1) {
                theirs[j] = place.len();
                place.push(c.extra[n + j]);
                j += 1;
            } else {
                own[i] = place.len();
                place.push(renamed.ids[i]);
                i += 1;
            }
        }
        wide.ids = place;
        wide.adj = vec![vec![]; n + k];
        for v in 0..n {
            wide.adj[own[v]] = spec.adj[v].iter().map(|&x| own[x]).collect();
        }
        for v in 0..k {
            wide.adj[theirs[v]] = h.adj[v].iter().map(|&x| theirs[x]).collect();
        }
        wide.edges = h.edges.iter().map(|&(a, b)| (theirs[a], theirs[b])).collect();
        wide.edges.extend(spec.edges.iter().map(|&(a, b)| (own[a], own[b])));
        if !wide.is_valid() {
            return o.skip();
        }
        let cg = CGraph::new(&wide);
        let comps: Vec<View> = views(&cg, n + k)?
            .iter()
            .filter(|v| v.ids.iter().any(|x| back.contains_key(x)))
            .map(view_back)
            .collect::<Result<_, _>>()?;
        let p: Mates = pair_edges(&greedy(&cg))?.into_iter().filter(|(a, _)| back.contains_key(a)).collect();
        twice("among other components", &comps, &mates_back(&p)?, &most)?;

        o.label(&format!("route {}", ROUTES[c.graph.route as usize]));
        o.label_if(k > 0, "embedded in a larger graph");
        o.label_if(!start.is_empty(), "non-empty starting matching");
        o.label_if(base.len() > 1, "2+ components");
        o.nontrivial(m.edges.len() >= 3 && n + k > base[0].ids.len());
        Ok(())
    })
}

// ---- C26 ---------------------------------------------------------------------------------------

pub fn gen_c26(s: &mut Src) -> Case {
    let mut c = if s.chance(1, 3) {
        let sh = gen::union(s, 20);
        let (graph, _) = gen::present(s, sh, true);
        let root = s.below(graph.n());
        Case { graph, root, ..Case::default() }
    } else {
        gen::graph_case(s, 16, 80, 500, true)
    };
    c.pairs.clear();
    c
}

fn key(a: usize, b: usize) -> (usize, usize) {
    (a.min(b), a.max(b))
}

/// Node set and edge set of a graph that must be consistent.
fn sets<G: Graph>(what: &str, g: &G) -> Result<(BTreeSet<usize>, BTreeSet<(usize, usize)>), String> {
    let m = Model::of(g).map_err(|e| format!("{what} is inconsistent: {e}"))?;
    let e = m.edge_id_set();
    Ok((m.ids.into_iter().collect(), e))
}

fn same(what: &str, a: &DefaultGraph, b: &DefaultGraph) -> Res {
    let (x, y) = (sets(what, a)?, sets("the original", b)?);
    if x != y {
        return Err(format!("{what} has nodes {:?} and edges {:?}; the original {:?} and {:?}", x.0, x.1, y.0, y.1));
    }
    if a != b || b != a {
        return Err(format!("{what} compares unequal to the original; nodes {:?}, edges {:?}", x.0, x.1));
    }
    Ok(())
}

pub fn run_c26(c: &Case, o: &mut Obs) -> Res {
    let Ok(built) = build(&c.graph) else { return o.skip() };
    with_graph!(built, g => {
        let Ok(v) = View::of(g) else { return o.skip() };
        let Ok(m) = Model::of_view(&v) else { return o.skip() };
        // by additions
        let mut whole = DefaultGraph::new();
        for &id in &v.ids {
            whole.add_node(id).map_err(|e| format!("a node that is listed once is refused: {e:?}"))?;
        }
        for &(a, b) in &v.edges {
            whole.add_edge(a, b).map_err(|e| format!("edge ({a},{b}), listed once, is refused: {e:?}"))?;
        }
        let w = View::of(&whole)?;
        if w.ids != v.ids || w.edges != v.edges {
            return Err(format!("the graph rebuilt by additions lists {:?} {:?}, the original {:?} {:?}", w.ids, w.edges, v.ids, v.edges));
        }
        let want = sets("the original", g)?;
        if sets("the graph rebuilt by additions", &whole)? != want {
            return Err("the graph rebuilt by additions differs".into());
        }
        if let Ok(d) = build_default(&c.graph) {
            if Model::of(&d).map(|x| x.edge_id_set() == want.1).unwrap_or(false) {
                same("the graph rebuilt by additions", &whole, &d)?;
            }
        }

        // from the edge list, and the rest of the nodes
        let mut x = DefaultGraph::try_from(v.edges.clone()).map_err(|e| format!("the listed edges {:?} are refused: {e:?}", v.edges))?;
        for &id in &v.ids {
            if !x.has_node(id) {
                x.add_node(id).map_err(|e| format!("node {id} is refused: {e:?}"))?;
            }
        }
        same("the graph rebuilt from the listed edges", &x, &whole)?;
        if x.edges().collect::<Vec<_>>() != v.edges {
            return Err(format!("edges {:?} read back as {:?}", v.edges, x.edges().collect::<Vec<_>>()));
        }

        // from the neighbor lists
        let rows = m.nbr.clone();
        let x = DefaultGraph::try_from(rows.clone()).map_err(|e| format!("the neighbor lists {rows:?} are refused: {e:?}"))?;
        let y = View::of(&x)?;
        if y.nbr != rows || y.ids != (0..m.n()).collect::<Vec<_>>() {
            return Err(format!("neighbor lists {rows:?} read back as {:?}", y.nbr));
        }
        let got: BTreeSet<(usize, usize)> = y.edges.iter().filter_map(|&(a, b)| Some(key(*m.ids.get(a)?, *m.ids.get(b)?))).collect();
        if got != want.1 || y.edges.len() != got.len() {
            return Err(format!("the graph made from the neighbor lists {rows:?} has edges {:?}", y.edges));
        }

        // from the components
        let comps = crate::checks_traversal::collect_components(&mut components(g), m.n())?;
        let mut x = DefaultGraph::new();
        for h in &comps {
            for id in h.nodes() {
                x.add_node(id).map_err(|e| format!("node {id} of a component: {e:?}"))?;
            }
            for (a, b) in h.edges() {
                x.add_edge(a, b).map_err(|e| format!("edge ({a},{b}) of a component: {e:?}"))?;
            }
            let mut inner = components(h);
            match (inner.next(), inner.next()) {
                (Some(i), None) => same("the component of a component", &i, h)?,
                (None, _) => return Err("a component has no component".into()),
                _ => return Err(format!("a component falls apart: nodes {:?} edges {:?}", h.nodes().collect::<Vec<_>>(), h.edges().collect::<Vec<_>>())),
            }
        }
        same("the graph rebuilt from its components", &x, &whole)?;

        // the component of the root, from traversals
        if let Some(&id) = c.graph.ids.get(c.root) {
            let has_edges = m.index.get(&id).map_or(false, |&r| !m.nbr[r].is_empty());
            let piece = comps.iter().find(|h| h.has_node(id));
            if let (true, Some(piece)) = (has_edges, piece) {
                let new = || DepthFirst::new(g, id).map_err(|e| format!("{e:?}"));
                let (nodes, edges) = new()?.into_table();
                let mut x = DefaultGraph::new();
                for &id in &nodes {
                    x.add_node(id).map_err(|e| format!("node {id} of the table: {e:?}"))?;
                }
                for &(a, b) in &edges {
                    x.add_edge(a, b).map_err(|e| format!("edge ({a},{b}) of the table: {e:?}"))?;
                }
                same("the graph rebuilt from a table", &x, piece)?;
                let y = DefaultGraph::try_from(new()?).map_err(|e| format!("graph from traversal failed: {e:?}"))?;
                same("the graph made from a traversal", &y, piece)?;
                let t = BreadthFirst::new(g, id).map_err(|e| format!("{e:?}"))?;
                let steps: Vec<(usize, usize)> = t.take(2 * m.edges.len() + 2).map(|s| (s.sid, s.tid)).collect();
                let z = DefaultGraph::try_from(steps).map_err(|e| format!("breadth-first steps as edges: {e:?}"))?;
                same("the graph made of breadth-first steps", &z, piece)?;
                o.label("with traversals");
            }
        }
        o.label(&format!("route {}", ROUTES[c.graph.route as usize]));
        o.label_if(comps.len() > 1, "2+ components");
        o.label_if(m.edges.iter().any(|(a, b)| a == b), "with a loop");
        o.nontrivial(m.edges.len() >= 3 && m.edges.len() + comps.len() > m.n());
        Ok(())
    })
}
