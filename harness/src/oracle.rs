//! Validity predicates over traversals, components and matchings.

use crate::graphs::*;
use gamma::graph::Graph;
use gamma::matching::Pairing;
use gamma::traversal::Step;
use std::collections::{BTreeMap, BTreeSet, VecDeque};

pub type Res = Result<(), String>;

/// A traversal may report at most the edges of the graph; anything beyond twice that is endless.
pub fn take_steps<I: Iterator<Item = Step>>(it: &mut I, edges: usize) -> Result<Vec<Step>, String> {
    let cap = 4 * edges + 16;
    let mut out = vec![];
    for s in it {
        out.push(s);
        if out.len() > cap {
            return Err(format!("traversal does not end: {cap} steps on a graph of {edges} edges"));
        }
    }
    Ok(out)
}

pub fn show(steps: &[Step]) -> String {
    let v: Vec<String> = steps
        .iter()
        .take(60)
        .map(|s| format!("({},{}{})", s.sid, s.tid, if s.cut { ",cut" } else { "" }))
        .collect();
    v.join(" ")
}

/// Steps as index pairs; fails on ids that are not nodes.
pub fn indexed(m: &Model, steps: &[Step]) -> Result<Vec<(usize, usize, bool)>, String> {
    steps
        .iter()
        .map(|s| {
            let a = m.index.get(&s.sid).ok_or(format!("step from unknown node {}", s.sid))?;
            let b = m.index.get(&s.tid).ok_or(format!("step to unknown node {}", s.tid))?;
            Ok((*a, *b, s.cut))
        })
        .collect()
}

/// Each edge of the root's component once and nothing else; each node but the root entered once.
pub fn covers_component(m: &Model, root: usize, steps: &[Step]) -> Res {
    let st = indexed(m, steps).map_err(|e| format!("{e}; steps {}", show(steps)))?;
    let label = m.component_labels();
    let mut left: BTreeSet<(usize, usize)> = m
        .edges
        .iter()
        .filter(|e| label[e.0] == label[root])
        .map(|&(a, b)| (a.min(b), a.max(b)))
        .collect();
    let mut reported = BTreeSet::new();
    for &(a, b, _) in &st {
        let e = (a.min(b), a.max(b));
        if !left.remove(&e) {
            let why = if reported.contains(&e) { "a second time" } else { "but is no edge of the component" };
            return Err(format!("edge ({},{}) is reported {why}; steps {}", m.ids[a], m.ids[b], show(steps)));
        }
        reported.insert(e);
    }
    if let Some(&(a, b)) = left.iter().next() {
        return Err(format!(
            "edge ({},{}) and {} others of the root's component are not reported; steps {}",
            m.ids[a],
            m.ids[b],
            left.len() - 1,
            show(steps)
        ));
    }
    let mut entered = vec![0usize; m.n()];
    for &(_, b, cut) in &st {
        if !cut {
            entered[b] += 1;
        }
    }
    for v in 0..m.n() {
        let want = (label[v] == label[root] && v != root) as usize;
        if entered[v] != want {
            return Err(format!("node {} is entered {} times instead of {want}; steps {}", m.ids[v], entered[v], show(steps)));
        }
    }
    Ok(())
}

/// Unreported edges per node, consumed as steps are replayed.
struct Unreported {
    edges: BTreeSet<(usize, usize)>,
    count: Vec<usize>,
}

impl Unreported {
    fn new(m: &Model) -> Self {
        let mut count = vec![0; m.n()];
        let mut edges = BTreeSet::new();
        for &(a, b) in &m.edges {
            edges.insert((a.min(b), a.max(b)));
            count[a] += 1;
            if a != b {
                count[b] += 1;
            }
        }
        Unreported { edges, count }
    }
    /// A step that repeats or invents an edge is coverage trouble, not order trouble.
    fn report(&mut self, a: usize, b: usize) {
        if self.edges.remove(&(a.min(b), a.max(b))) {
            self.count[a] -= 1;
            if a != b {
                self.count[b] -= 1;
            }
        }
    }
}

pub fn depth_first_order(m: &Model, root: usize, steps: &[Step]) -> Res {
    let st = indexed(m, steps)?;
    let mut left = Unreported::new(m);
    let mut entered = vec![false; m.n()];
    let mut on_path = vec![false; m.n()];
    let mut path = vec![root];
    entered[root] = true;
    on_path[root] = true;
    for (k, &(a, b, cut)) in st.iter().enumerate() {
        let bad = |what: &str| {
            Err(format!(
                "step {k} ({},{}{}) {what}; steps {}",
                m.ids[a],
                m.ids[b],
                if cut { ",cut" } else { "" },
                show(steps)
            ))
        };
        // nodes with nothing left to report are finished
        while path.last().map_or(false, |&v| left.count[v] == 0) {
            on_path[path.pop().unwrap()] = false;
        }
        match path.last() {
            Some(&v) if v == a => {}
            Some(&v) => {
                return bad(&format!("does not leave {}, the most recently entered node with unreported edges", m.ids[v]))
            }
            None => return bad("comes after all edges were reported"),
        }
        if cut {
            if !entered[b] {
                return bad("has the cut flag but its target was not entered before");
            }
            if !on_path[b] {
                return bad("has the cut flag but its target is not on the current path");
            }
        } else if entered[b] {
            return bad("has no cut flag but its target was entered before");
        }
        left.report(a, b);
        if !cut {
            entered[b] = true;
            on_path[b] = true;
            path.push(b);
        }
    }
    Ok(())
}

pub fn breadth_first_order(m: &Model, root: usize, steps: &[Step]) -> Res {
    let st = indexed(m, steps)?;
    let dist = m.distances(root);
    let mut left = Unreported::new(m);
    let mut depth = vec![usize::MAX; m.n()];
    let mut queue = VecDeque::new();
    queue.push_back(root);
    depth[root] = 0;
    for (k, &(a, b, cut)) in st.iter().enumerate() {
        let bad = |what: &str| {
            Err(format!(
                "step {k} ({},{}{}) {what}; steps {}",
                m.ids[a],
                m.ids[b],
                if cut { ",cut" } else { "" },
                show(steps)
            ))
        };
        while queue.front().map_or(false, |&v: &usize| left.count[v] == 0) {
            queue.pop_front();
        }
        match queue.front() {
            Some(&v) if v == a => {}
            Some(&v) => {
                return bad(&format!("does not leave {}, the earliest entered node with unreported edges", m.ids[v]))
            }
            None => return bad("comes after all edges were reported"),
        }
        let before = depth[b] != usize::MAX;
        if cut != before {
            return bad(if cut { "has the cut flag but enters its target" } else { "has no cut flag but its target was entered before" });
        }
        left.report(a, b);
        if !cut {
            depth[b] = depth[a] + 1;
            if depth[b] != dist[b] {
                return bad(&format!("enters a node at distance {} along {} edges", dist[b], depth[b]));
            }
            queue.push_back(b);
        }
    }
    Ok(())
}

/// Steps that leave one node take their targets in neighbor order.
pub fn follows_neighbor_order(m: &Model, steps: &[Step]) -> Res {
    let st = indexed(m, steps)?;
    let mut next = vec![0usize; m.n()];
    for (k, &(a, b, _)) in st.iter().enumerate() {
        match m.nbr[a][next[a]..].iter().position(|&x| x == b) {
            Some(p) => next[a] += p + 1,
            None => {
                let row: Vec<usize> = m.nbr[a].iter().map(|&x| m.ids[x]).collect();
                return Err(format!(
                    "step {k} from {} to {} is out of the neighbor order {row:?}; steps {}",
                    m.ids[a],
                    m.ids[b],
                    show(steps)
                ));
            }
        }
    }
    Ok(())
}

/// The pairs that edges lists, each node at most once.
pub fn pair_edges(p: &Pairing) -> Result<BTreeMap<usize, usize>, String> {
    let mut map = BTreeMap::new();
    for (a, b) in p.edges() {
        if a == b {
            return Err(format!("node {a} is paired with itself"));
        }
        if map.insert(a, b).is_some() || map.insert(b, a).is_some() {
            return Err(format!("a node of pair ({a},{b}) is in two pairs"));
        }
    }
    Ok(map)
}

/// Every pair is an edge of the graph.
pub fn pairs_in_graph(m: &Model, map: &BTreeMap<usize, usize>) -> Res {
    for (&a, &b) in map {
        let (Some(&i), Some(&j)) = (m.index.get(&a), m.index.get(&b)) else {
            return Err(format!("pair ({a},{b}) has an end that is not in the graph"));
        };
        if i == j || !m.nbr[i].contains(&j) {
            return Err(format!("pair ({a},{b}) is not an edge of the graph"));
        }
    }
    Ok(())
}

/// The pairing as a map, with edges, mate and has_node in agreement.
pub fn pairing_map(p: &Pairing) -> Result<BTreeMap<usize, usize>, String> {
    let mut map = BTreeMap::new();
    for (a, b) in p.edges() {
        if a >= b {
            return Err(format!("edges lists ({a},{b}), not lower id first"));
        }
        if map.insert(a, b).is_some() || map.insert(b, a).is_some() {
            return Err(format!("a node of pair ({a},{b}) is in two pairs"));
        }
    }
    for (&a, &b) in &map {
        if !p.has_node(a) {
            return Err(format!("has_node({a}) is false but edges pairs it with {b}"));
        }
        if p.mate(a) != b {
            return Err(format!("mate({a}) is {} but edges pairs it with {b}", p.mate(a)));
        }
    }
    Ok(map)
}

/// The pairing is a matching of the graph. Returns its map.
pub fn matching_of_graph<G: Graph>(g: &G, m: &Model, p: &Pairing) -> Result<BTreeMap<usize, usize>, String> {
    let map = pairing_map(p)?;
    pairs_in_graph(m, &map)?;
    for id in g.nodes() {
        if p.has_node(id) != map.contains_key(&id) {
            return Err(format!("has_node({id}) is {}, but the pairs are {map:?}", p.has_node(id)));
        }
    }
    if p.order() != map.len() {
        return Err(format!("order is {} with the pairs {map:?}", p.order()));
    }
    Ok(map)
}

/// An edge of the graph with both ends free, if any.
pub fn free_edge(m: &Model, map: &BTreeMap<usize, usize>) -> Option<(usize, usize)> {
    m.edges
        .iter()
        .map(|&(a, b)| (m.ids[a], m.ids[b]))
        .find(|(a, b)| a != b && !map.contains_key(a) && !map.contains_key(b))
}
