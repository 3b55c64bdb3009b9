//! A few cases of each check that are far larger than the random ones: more than 65536 nodes or
//! edges. They are enumerated, never shrunk from choices, and minimized by halving.

use crate::case::*;
use crate::checks::{Tier, Visit};
use crate::checks_large::{shape, Rng, KINDS};

/// Nodes of the largest graphs: beyond what 16 bits count.
const MANY: usize = 70_000;

/// A graph of a kind of C24, or of "clique", "pairs" and "fan of triangles".
pub fn graph(kind: &str, n: usize, seed: usize, route: u8) -> GSpec {
    let mut r = Rng(seed as u64 ^ 0x51ED);
    let (n, mut edges) = match kind {
        "clique" => (n, (0..n).flat_map(|b| (0..b).map(move |a| (a, b))).collect()),
        "pairs" => (n, (1..n).step_by(2).map(|v| (v - 1, v)).collect::<Vec<_>>()),
        "fan of triangles" => {
            let n = n | 1;
            (n, (1..n).step_by(2).flat_map(|v| [(0, v), (v, v + 1), (0, v + 1)]).collect())
        }
        _ => shape(KINDS.iter().position(|k| *k == kind).expect("kind"), n, &mut r),
    };
    // one loop at a late node
    if seed % 2 == 1 {
        edges.push((n - 2, n - 2));
    }
    let mut ids: Vec<usize> = (0..n).collect();
    if seed % 4 >= 2 {
        for i in (1..n).rev() {
            ids.swap(i, r.below(i + 1));
        }
        ids.iter_mut().for_each(|x| *x = usize::MAX - *x * 977);
        for i in (1..edges.len()).rev() {
            edges.swap(i, r.below(i + 1));
            if r.below(2) == 0 {
                edges[i] = (edges[i].1, edges[i].0);
            }
        }
    }
    let adj = GSpec::adj_from_edges(n, &edges);
    let mut g = GSpec { route, ids, edges, adj };
    g.normalize();
    g
}

/// Runs the visitor on each case, numbered from 0.
fn each(cases: &[&dyn Fn() -> Case], v: Visit) {
    for (k, f) in cases.iter().enumerate() {
        if !v(k, *f) {
            return;
        }
    }
}

fn rooted_case(kind: &str, n: usize, seed: usize, route: u8) -> Case {
    let graph = graph(kind, n, seed, route);
    // the second-last node lies on most shapes' far side and has the loop
    let root = if seed % 2 == 0 { 0 } else { graph.n() - 2 };
    Case { graph, root, extra: vec![5, 60_000, 3], ..Case::default() }
}

/// Traversals, and what is made of them.
pub fn rooted(_: Tier, v: Visit) {
    each(
        &[
            &|| rooted_case("path", MANY, 0, ADDS),
            &|| rooted_case("star", MANY, 2, CUSTOM),
            &|| rooted_case("sparse", MANY, 1, ADJACENCY),
            &|| rooted_case("many small components", MANY, 3, EDGES),
            &|| rooted_case("clique", 150, 2, ADDS),
            &|| rooted_case("binary tree", MANY, 3, CUSTOM),
            &|| rooted_case("cycle", MANY, 2, ADDS),
        ],
        v,
    );
}

/// For traversals whose steps are compared: extra ends up as new ids (C12).
pub fn renamed(tier: Tier, v: Visit) {
    rooted(tier, &mut |k, f| {
        v(k, &|| {
            let mut c = f();
            let n = c.graph.n();
            c.graph2 = Some(GSpec { route: CUSTOM, ..GSpec::default() });
            c.extra = (0..n).map(|x| (x + 1) << 16).collect();
            c.extra.push(k);
            c
        })
    });
}

/// Components and greedy matching.
pub fn unrooted(_: Tier, v: Visit) {
    each(
        &[
            &|| rooted_case("path", MANY, 0, ADDS),
            &|| rooted_case("star", MANY, 2, CUSTOM),
            &|| rooted_case("sparse", MANY, 1, ADJACENCY),
            &|| rooted_case("many small components", MANY, 3, EDGES),
            &|| rooted_case("isolated nodes", MANY, 2, ADDS),
            &|| rooted_case("pairs", 2 * MANY, 2, CUSTOM),
            &|| rooted_case("clique", 150, 2, ADDS),
        ],
        v,
    );
}

/// For C25: new ids and the turns.
pub fn local(tier: Tier, v: Visit) {
    unrooted(tier, &mut |k, f| {
        v(k, &|| {
            let mut c = f();
            let n = c.graph.n();
            c.root = 0;
            c.graph2 = Some(GSpec { route: CUSTOM, ids: vec![7], edges: vec![], adj: vec![vec![]] });
            c.extra = (0..n + 1).map(|x| (x + 1) << 16).collect();
            c.extra.push(k * 37);
            c
        })
    });
}

/// Histories from nothing, and on top of large graphs, ending with calls that are to be refused.
pub fn histories(_: Tier, v: Visit) {
    let built = |kind: &str, n: usize, seed: usize| {
        let g = graph(kind, n, seed, ADDS);
        let mut ops: Vec<Op> = g.ids.iter().map(|&x| Op::Node(x)).collect();
        ops.extend(g.edges.iter().map(|&(a, b)| Op::Edge(g.ids[a], g.ids[b])));
        let (first, last) = (g.edges[0], *g.edges.last().unwrap());
        for (a, b) in [first, last] {
            ops.push(Op::Edge(g.ids[b], g.ids[a]));
            ops.push(Op::Edge(g.ids[a], g.ids[b]));
        }
        ops.push(Op::Node(g.ids[g.n() - 1]));
        Case { graph: GSpec { route: ADDS, ..GSpec::default() }, ops, extra: vec![0], ..Case::default() }
    };
    let onto = |kind: &str, n: usize, seed: usize, route: u8| {
        let graph = graph(kind, n, seed, route);
        let k = graph.n();
        let (x, y) = (graph.ids[k - 1], graph.ids[3]);
        let new = 41 << 20;
        let (a, b) = *graph.edges.last().unwrap();
        let (c, d) = graph.edges[0];
        let ops = vec![
            Op::Node(x),
            Op::Edge(graph.ids[b], graph.ids[a]),
            Op::Edge(graph.ids[a], graph.ids[b]),
            Op::Edge(graph.ids[c], graph.ids[d]),
            Op::Edge(graph.ids[d], graph.ids[c]),
            Op::Edge(x, new),
            Op::Node(new),
            Op::Edge(new, x),
            Op::Edge(x, new),
            Op::Edge(y, new),
            Op::Edge(new, new),
            Op::Edge(y, x),
        ];
        Case { graph, ops, extra: vec![0], ..Case::default() }
    };
    each(
        &[
            &|| built("path", MANY, 2),
            &|| built("sparse", MANY, 0),
            &|| built("star", MANY, 3),
            &|| built("clique", 370, 0),
            &|| onto("path", MANY, 1, ADJACENCY),
            &|| onto("sparse", MANY, 2, EDGES),
            &|| onto("star", MANY, 1, ADJACENCY),
            &|| onto("clique", 370, 2, ADJACENCY),
        ],
        v,
    );
}

/// Rows: valid, and with one defect far down.
pub fn rows(_: Tier, v: Visit) {
    let make = |kind: &str, n: usize, seed: usize, defect: usize| {
        let mut rows = graph(kind, n, seed, ADJACENCY).adj;
        let k = rows.len();
        let far = (0..k).rev().find(|&r| !rows[r].is_empty()).unwrap();
        match defect {
            1 => rows[far].push(k),
            2 => {
                let x = rows[far][0];
                rows[far].push(x)
            }
            3 => rows[far].push(1 << 16),
            4 => {
                let x = rows[far].pop().unwrap();
                assert!(x < k)
            }
            5 => {
                // the longest row, its end
                let r = (0..k).max_by_key(|&r| rows[r].len()).unwrap();
                rows[r].pop();
            }
            6 => {
                let r = (0..k).max_by_key(|&r| rows[r].len()).unwrap();
                let x = rows[r][0];
                rows[r].push(x);
            }
            _ => {}
        }
        Case { rows, ..Case::default() }
    };
    each(
        &[
            &|| make("path", MANY, 1, 0),
            &|| make("star", MANY, 1, 0),
            &|| make("sparse", MANY, 2, 0),
            &|| make("clique", 370, 1, 0),
            &|| make("path", MANY, 0, 1),
            &|| make("path", MANY, 1, 2),
            &|| make("path", MANY, 0, 3),
            &|| make("sparse", MANY, 2, 4),
            &|| make("star", MANY, 0, 5),
            &|| make("star", MANY, 0, 6),
            &|| make("clique", 370, 1, 5),
        ],
        v,
    );
}

/// Edge lists: valid, and with an early edge repeated at the end.
pub fn lists(_: Tier, v: Visit) {
    let make = |kind: &str, n: usize, seed: usize, repeat: usize| {
        let g = graph(kind, n, seed, EDGES);
        let mut list: Vec<(usize, usize)> = g.edges.iter().map(|&(a, b)| (g.ids[a], g.ids[b])).collect();
        match repeat {
            1 => {
                let (a, b) = list[3];
                list.push((b, a));
            }
            2 => list.push(list[list.len() - 2]),
            _ => {}
        }
        Case { list, ..Case::default() }
    };
    each(
        &[
            &|| make("path", MANY, 3, 0),
            &|| make("star", MANY, 1, 0),
            &|| make("sparse", MANY, 2, 0),
            &|| make("clique", 370, 1, 0),
            &|| make("path", MANY, 2, 1),
            &|| make("star", MANY, 0, 1),
            &|| make("sparse", MANY, 3, 2),
            &|| make("clique", 370, 2, 1),
        ],
        v,
    );
}

/// Pairs of graphs: the same by another route, or with one late change.
pub fn twins(_: Tier, v: Visit) {
    let make = |kind: &str, n: usize, seed: usize, change: usize| {
        let g = graph(kind, n, seed, ADDS);
        let mut h = g.clone();
        h.route = EDGES;
        h.edges.reverse();
        h.edges.iter_mut().for_each(|e| *e = (e.1, e.0));
        let m = h.edges.len();
        match change {
            1 => {
                // the late edge is exchanged for one that is not there
                let has: std::collections::HashSet<_> = h.edges.iter().map(|e| (e.0.min(e.1), e.0.max(e.1))).collect();
                let (a, _) = h.edges[m - 2];
                if let Some(b) = (0..h.n()).rev().find(|&b| !has.contains(&(a.min(b), a.max(b)))) {
                    h.edges[m - 2] = (a, b);
                }
            }
            2 => {
                let k = h.n() - 1;
                h.ids[k] = 41 << 20;
            }
            _ => {}
        }
        h.normalize();
        Case { graph: g, graph2: Some(h), ..Case::default() }
    };
    each(
        &[
            &|| make("path", MANY, 2, 0),
            &|| make("sparse", MANY, 3, 0),
            &|| make("clique", 370, 1, 0),
            &|| make("path", MANY, 0, 1),
            &|| make("sparse", MANY, 1, 1),
            &|| make("clique", 370, 1, 1),
            &|| make("isolated nodes", MANY, 1, 1),
            &|| make("path", MANY, 0, 2),
            &|| make("isolated nodes", MANY, 3, 2),
        ],
        v,
    );
}

/// Questions about absent ids that look like present ones to narrow integers.
pub fn absent(_: Tier, v: Visit) {
    let make = |kind: &str, n: usize, seed: usize, route: u8| {
        let graph = graph(kind, n, seed, route);
        let k = graph.n();
        let extra = vec![k, k + 1, k + (1 << 16), usize::MAX - 1, 1 << 32, (1 << 32) + 5, graph.ids[k - 1] ^ (1 << 62)];
        Case { graph, extra, ..Case::default() }
    };
    each(
        &[
            &|| make("path", MANY, 0, ADJACENCY),
            &|| make("sparse", MANY, 3, ADDS),
            &|| make("isolated nodes", MANY, 0, ADDS),
            &|| make("star", MANY, 1, EDGES),
        ],
        v,
    );
}

/// Many pairs, then re-pairings.
pub fn pairings(_: Tier, v: Visit) {
    let make = |id: &dyn Fn(usize) -> usize| {
        let mut ops: Vec<Op> = (0..MANY / 2).map(|k| Op::Pair(id(2 * k), id(2 * k + 1))).collect();
        for k in (1..MANY / 2 - 1).step_by(1001) {
            ops.push(Op::Pair(id(2 * k + 1), id(2 * k + 2)));
        }
        ops.push(Op::Pair(id(0), id(MANY - 1)));
        Case { ops, extra: vec![id(0), id(MANY - 1), id(65_536), id(MANY), 3 << 33], ..Case::default() }
    };
    each(&[&|| make(&|k| k), &|| make(&|k| usize::MAX - k * 977), &|| make(&|k| k << 16)], v);
}

/// A long augmenting path among many pairs off it.
pub fn paths(_: Tier, v: Visit) {
    let make = |id: &dyn Fn(usize) -> usize, len: usize| {
        let mut ops: Vec<Op> = (1..len / 2).map(|k| Op::Pair(id(2 * k), id(2 * k - 1))).collect();
        ops.extend((len / 2..MANY / 2).map(|k| Op::Pair(id(2 * k), id(2 * k + 1))));
        ops.push(Op::Augment((0..len).map(id).collect()));
        Case { ops, extra: vec![id(0), id(MANY - 1), id(65_536), id(MANY), 3 << 33], ..Case::default() }
    };
    each(
        &[
            &|| make(&|k| k, 40_000),
            &|| make(&|k| usize::MAX - k * 977, 66_000),
            &|| make(&|k| k, 6),
            &|| make(&|k| k, MANY),
        ],
        v,
    );
}

/// Many paired pairs around a small piece that is still to be matched.
pub fn nearly(_: Tier, v: Visit) {
    let make = |kind: &str, k: usize, seed: usize, route: u8| {
        let mut r = Rng(seed as u64);
        let (k, piece) = shape(KINDS.iter().position(|x| *x == kind).unwrap(), k, &mut r);
        let k = k + k % 2;
        let n = MANY + k;
        // the piece is listed last
        let pairs: Vec<(usize, usize)> = (0..MANY / 2).map(|v| (2 * v, 2 * v + 1)).collect();
        let mut edges = pairs.clone();
        edges.extend(piece.iter().map(|&(a, b)| (a + MANY, b + MANY)));
        let ids = if seed % 2 == 0 { (0..n).collect() } else { (0..n).map(|x| usize::MAX - x * 3).collect() };
        let adj = GSpec::adj_from_edges(n, &edges);
        Case { graph: GSpec { route, ids, edges, adj }, pairs, ..Case::default() }
    };
    each(
        &[
            &|| make("matching: nested flowers", 14, 0, ADDS),
            &|| make("matching: sparse", 14, 1, CUSTOM),
            &|| make("matching: chain of odd cycles", 12, 3, ADDS),
            &|| make("matching: path", 14, 2, CUSTOM),
        ],
        v,
    );
}

/// Stars and fans of a few thousand nodes: one or many augmentations from nothing.
pub fn from_scratch(_: Tier, v: Visit) {
    each(
        &[
            &|| rooted_case("star", 3000, 2, ADDS),
            &|| rooted_case("two hubs", 1500, 0, CUSTOM),
            &|| rooted_case("pairs", 1500, 2, ADDS),
            &|| rooted_case("fan of triangles", 401, 0, ADDS),
            &|| rooted_case("isolated nodes", 2000, 2, CUSTOM),
        ],
        v,
    );
}

/// For C23: new ids, then a permutation.
pub fn reordered(_: Tier, v: Visit) {
    let make = |kind: &str, n: usize, seed: usize| {
        let mut c = rooted_case(kind, n, seed, ADDS);
        let n = c.graph.n();
        c.root = 0;
        c.graph2 = Some(GSpec { route: CUSTOM, ids: vec![7], edges: vec![], adj: vec![vec![]] });
        c.extra = (0..n + 1).map(|x| (x + 1) << 16).collect();
        c.extra.extend((0..n).rev());
        c
    };
    each(
        &[&|| make("star", 1000, 2), &|| make("pairs", 500, 0), &|| make("fan of triangles", 151, 2), &|| make("two hubs", 400, 0)],
        v,
    );
}
