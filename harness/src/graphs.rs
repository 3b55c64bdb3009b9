//! Our own Graph implementation, the view of any Graph, and construction by every route.

use crate::case::*;
use gamma::graph::{DefaultGraph, Error, Graph};
use std::cell::Cell;
use std::collections::{BTreeSet, HashMap};
use std::convert::TryFrom;

/// Calls to one custom graph in one case after which we call the work unbounded. Normal cases make
/// fewer than a hundred thousand.
pub const CALL_BUDGET: u64 = 50_000_000;

/// A Graph that shares no code with the library. Counts calls, so that an endless loop of queries
/// ends in a (deterministic) panic.
pub struct CGraph {
    ids: Vec<usize>,
    index: HashMap<usize, usize>,
    nbr: Vec<Vec<usize>>,
    edges: Vec<(usize, usize)>,
    calls: Cell<u64>,
}

impl CGraph {
    pub fn new(s: &GSpec) -> Self {
        CGraph {
            ids: s.ids.clone(),
            index: s.ids.iter().enumerate().map(|(i, &id)| (id, i)).collect(),
            nbr: s.adj.iter().map(|r| r.iter().map(|&x| s.ids[x]).collect()).collect(),
            edges: s.edges.iter().map(|&(a, b)| (s.ids[a], s.ids[b])).collect(),
            calls: Cell::new(0),
        }
    }

    /// The parts without the counter, to be sent to another thread.
    pub fn plain(&self) -> Plain {
        Plain(self.ids.clone(), self.index.clone(), self.nbr.clone(), self.edges.clone())
    }

    fn tick(&self) {
        let c = self.calls.get() + 1;
        self.calls.set(c);
        if c > CALL_BUDGET {
            panic!("more than {CALL_BUDGET} calls to one graph: work without bound");
        }
    }

    fn at(&self, id: usize) -> Result<usize, Error> {
        self.tick();
        self.index.get(&id).copied().ok_or(Error::MissingNode(id))
    }
}

pub struct Plain(Vec<usize>, HashMap<usize, usize>, Vec<Vec<usize>>, Vec<(usize, usize)>);

impl Plain {
    pub fn counted(self) -> CGraph {
        CGraph { ids: self.0, index: self.1, nbr: self.2, edges: self.3, calls: Cell::new(0) }
    }
}

impl Graph for CGraph {
    fn is_empty(&self) -> bool {
        self.tick();
        self.ids.is_empty()
    }
    fn order(&self) -> usize {
        self.tick();
        self.ids.len()
    }
    fn size(&self) -> usize {
        self.tick();
        self.edges.len()
    }
    fn nodes(&self) -> Box<dyn Iterator<Item = usize> + '_> {
        self.tick();
        Box::new(self.ids.iter().cloned())
    }
    fn neighbors(&self, id: usize) -> Result<Box<dyn Iterator<Item = usize> + '_>, Error> {
        let i = self.at(id)?;
        Ok(Box::new(self.nbr[i].iter().cloned()))
    }
    fn has_node(&self, id: usize) -> bool {
        self.tick();
        self.index.contains_key(&id)
    }
    fn degree(&self, id: usize) -> Result<usize, Error> {
        Ok(self.nbr[self.at(id)?].len())
    }
    fn edges(&self) -> Box<dyn Iterator<Item = (usize, usize)> + '_> {
        self.tick();
        Box::new(self.edges.iter().cloned())
    }
    fn has_edge(&self, sid: usize, tid: usize) -> Result<bool, Error> {
        let i = self.at(sid)?;
        self.at(tid)?;
        Ok(self.nbr[i].contains(&tid))
    }
}

pub enum Built {
    D(DefaultGraph),
    C(CGraph),
}

/// Runs an expression generic over the graph type.
#[macro_export]
macro_rules! with_graph {
    ($b:expr, $g:ident => $e:expr) => {
        match &$b {
            $crate::graphs::Built::D($g) => $e,
            $crate::graphs::Built::C($g) => $e,
        }
    };
}

pub fn build(s: &GSpec) -> Result<Built, String> {
    if s.route == CUSTOM {
        return Ok(Built::C(CGraph::new(s)));
    }
    build_default(s).map(Built::D)
}

pub fn build_default(s: &GSpec) -> Result<DefaultGraph, String> {
    let id = |v: usize| s.ids[v];
    let say = |e: Error| format!("building by route {} failed: {e:?}", ROUTES[s.route as usize]);
    match s.route {
        ADJACENCY => DefaultGraph::try_from(s.adj.clone()).map_err(say),
        EDGES => {
            let list: Vec<_> = s.edges.iter().map(|&(a, b)| (id(a), id(b))).collect();
            let mut g = DefaultGraph::try_from(list).map_err(say)?;
            let mut seen = vec![false; s.n()];
            for &(a, b) in &s.edges {
                seen[a] = true;
                seen[b] = true;
            }
            for v in 0..s.n() {
                if !seen[v] {
                    g.add_node(id(v)).map_err(say)?;
                }
            }
            Ok(g)
        }
        _ => {
            let mut g = DefaultGraph::new();
            for v in 0..s.n() {
                g.add_node(id(v)).map_err(say)?;
            }
            for &(a, b) in &s.edges {
                g.add_edge(id(a), id(b)).map_err(say)?;
            }
            Ok(g)
        }
    }
}

/// What a graph says about itself, read through nodes, neighbors and edges.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct View {
    pub ids: Vec<usize>,
    pub nbr: Vec<Vec<usize>>,
    pub edges: Vec<(usize, usize)>,
}

impl View {
    pub fn of<G: Graph>(g: &G) -> Result<View, String> {
        let ids: Vec<usize> = g.nodes().collect();
        let mut nbr = vec![];
        for &id in &ids {
            nbr.push(g.neighbors(id).map_err(|e| format!("neighbors({id}) failed: {e:?}"))?.collect());
        }
        Ok(View { ids, nbr, edges: g.edges().collect() })
    }

    pub fn of_spec(s: &GSpec) -> View {
        View {
            ids: s.ids.clone(),
            nbr: s.adj.iter().map(|r| r.iter().map(|&x| s.ids[x]).collect()).collect(),
            edges: s.edges.iter().map(|&(a, b)| (s.ids[a], s.ids[b])).collect(),
        }
    }
}

/// Index-based model of a consistent undirected graph.
#[derive(Clone, Debug)]
pub struct Model {
    pub ids: Vec<usize>,
    pub index: HashMap<usize, usize>,
    pub nbr: Vec<Vec<usize>>,
    pub edges: Vec<(usize, usize)>,
}

impl Model {
    pub fn n(&self) -> usize {
        self.ids.len()
    }

    /// Fails when the view is not that of one undirected graph.
    pub fn of_view(v: &View) -> Result<Model, String> {
        let index: HashMap<usize, usize> = v.ids.iter().enumerate().map(|(i, &id)| (id, i)).collect();
        if index.len() != v.ids.len() {
            return Err("a node is listed twice".into());
        }
        let mut nbr = vec![];
        let mut arcs = BTreeSet::new();
        for (i, row) in v.nbr.iter().enumerate() {
            let mut out = vec![];
            for id in row {
                let &j = index.get(id).ok_or(format!("neighbor {id} is not a node"))?;
                if !arcs.insert((i, j)) {
                    return Err(format!("{} is listed twice as a neighbor of {}", id, v.ids[i]));
                }
                out.push(j);
            }
            nbr.push(out);
        }
        let mut edges = vec![];
        let mut seen = BTreeSet::new();
        for (a, b) in &v.edges {
            let &i = index.get(a).ok_or(format!("end {a} of an edge is not a node"))?;
            let &j = index.get(b).ok_or(format!("end {b} of an edge is not a node"))?;
            if !seen.insert((i.min(j), i.max(j))) {
                return Err(format!("edge ({a},{b}) is listed twice"));
            }
            if !arcs.contains(&(i, j)) || !arcs.contains(&(j, i)) {
                return Err(format!("edge ({a},{b}) is not in the neighbor lists"));
            }
            edges.push((i, j));
        }
        let loops = seen.iter().filter(|(a, b)| a == b).count();
        if arcs.len() != 2 * seen.len() - loops {
            return Err("neighbor lists hold arcs that are no edges".into());
        }
        Ok(Model { ids: v.ids.clone(), index, nbr, edges })
    }

    pub fn of<G: Graph>(g: &G) -> Result<Model, String> {
        Model::of_view(&View::of(g)?)
    }

    pub fn of_spec(s: &GSpec) -> Model {
        Model {
            ids: s.ids.clone(),
            index: s.ids.iter().enumerate().map(|(i, &id)| (id, i)).collect(),
            nbr: s.adj.clone(),
            edges: s.edges.clone(),
        }
    }

    pub fn edge_id_set(&self) -> BTreeSet<(usize, usize)> {
        self.edges
            .iter()
            .map(|&(a, b)| {
                let (a, b) = (self.ids[a], self.ids[b]);
                (a.min(b), a.max(b))
            })
            .collect()
    }

    /// Distances from root; usize::MAX where not reachable.
    pub fn distances(&self, root: usize) -> Vec<usize> {
        let mut d = vec![usize::MAX; self.n()];
        let mut q = vec![root];
        d[root] = 0;
        let mut k = 0;
        while k < q.len() {
            let v = q[k];
            k += 1;
            for &w in &self.nbr[v] {
                if d[w] == usize::MAX {
                    d[w] = d[v] + 1;
                    q.push(w);
                }
            }
        }
        d
    }

    /// Component label per node, by union-find over the edge list (independent of traversal code);
    /// the label is the lowest node index of the component.
    pub fn component_labels(&self) -> Vec<usize> {
        let mut p: Vec<usize> = (0..self.n()).collect();
        fn find(p: &mut [usize], mut x: usize) -> usize {
            while p[x] != x {
                p[x] = p[p[x]];
                x = p[x];
            }
            x
        }
        for &(a, b) in &self.edges {
            let (a, b) = (find(&mut p, a), find(&mut p, b));
            if a < b {
                p[b] = a
            } else {
                p[a] = b
            }
        }
        (0..self.n()).map(|v| find(&mut p, v)).collect()
    }

    pub fn has_odd_cycle(&self) -> bool {
        let mut color = vec![2u8; self.n()];
        for r in 0..self.n() {
            if color[r] != 2 {
                continue;
            }
            color[r] = 0;
            let mut st = vec![r];
            while let Some(v) = st.pop() {
                for &w in &self.nbr[v] {
                    if w == v {
                        continue;
                    }
                    if color[w] == 2 {
                        color[w] = 1 - color[v];
                        st.push(w);
                    } else if color[w] == color[v] {
                        return true;
                    }
                }
            }
        }
        false
    }
}

/// Compares every query of a graph with what it should say. `edge_order` compares the edge list in
/// order and orientation.
pub fn compare_all<G: Graph>(g: &G, want: &View) -> Result<(), String> {
    let n = want.ids.len();
    let m = want.edges.len();
    macro_rules! same {
        ($what:expr, $got:expr, $exp:expr) => {
            let (got, exp) = ($got, $exp);
            if got != exp {
                return Err(format!("{}: got {:?}, expected {:?}", $what, got, exp));
            }
        };
    }
    same!("is_empty", g.is_empty(), n == 0);
    same!("order", g.order(), n);
    same!("size", g.size(), m);
    same!("nodes", g.nodes().collect::<Vec<_>>(), want.ids.clone());
    same!("edges", g.edges().collect::<Vec<_>>(), want.edges.clone());
    for (i, &id) in want.ids.iter().enumerate() {
        same!(format!("has_node({id})"), g.has_node(id), true);
        same!(format!("degree({id})"), g.degree(id), Ok(want.nbr[i].len()));
        same!(
            format!("neighbors({id})"),
            g.neighbors(id).map(|it| it.collect::<Vec<_>>()),
            Ok(want.nbr[i].clone())
        );
    }
    // has_edge on all pairs of small graphs; on the edges and their surroundings of larger ones
    if n <= 24 {
        for (i, &a) in want.ids.iter().enumerate() {
            for &b in &want.ids {
                same!(format!("has_edge({a},{b})"), g.has_edge(a, b), Ok(want.nbr[i].contains(&b)));
            }
        }
    } else {
        for (i, &a) in want.ids.iter().enumerate() {
            for &b in want.nbr[i].iter().take(64) {
                same!(format!("has_edge({a},{b})"), g.has_edge(a, b), Ok(true));
            }
            for k in [1usize, 2, 3, 7, 12] {
                let b = want.ids[(i + k) % n];
                same!(format!("has_edge({a},{b})"), g.has_edge(a, b), Ok(want.nbr[i].contains(&b)));
            }
        }
    }
    Ok(())
}
