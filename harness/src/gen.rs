//! Decoders from choice sequences to cases.

use crate::case::*;
use crate::choice::Src;
use std::collections::BTreeSet;

/// An unlabelled graph with, for some classes, a designed starting matching.
#[derive(Clone, Debug, Default)]
pub struct Shape {
    pub n: usize,
    pub edges: Vec<(usize, usize)>,
    pub pairs: Vec<(usize, usize)>,
}

impl Shape {
    fn new(n: usize) -> Self {
        Shape { n, edges: vec![], pairs: vec![] }
    }
    fn push(&mut self, a: usize, b: usize) {
        if a != b {
            self.edges.push((a, b));
        }
    }
    fn dedup(mut self) -> Self {
        let mut seen = BTreeSet::new();
        self.edges.retain(|&(a, b)| seen.insert((a.min(b), a.max(b))));
        self
    }
    fn append(&mut self, o: Shape) {
        let k = self.n;
        self.n += o.n;
        self.edges.extend(o.edges.into_iter().map(|(a, b)| (a + k, b + k)));
        self.pairs.extend(o.pairs.into_iter().map(|(a, b)| (a + k, b + k)));
    }
}

pub fn gnp(s: &mut Src, lo: usize, hi: usize) -> Shape {
    let n = s.range(lo, hi);
    let mut g = Shape::new(n);
    let den = s.pick(&[2usize, 3, 4, 3, 5, 8]);
    let total = n * n.saturating_sub(1) / 2;
    let bulk = if n > 14 { s.bulk(total) } else { (0..total).map(|_| s.raw()).collect() };
    let mut t = Src::new(&bulk);
    for b in 0..n {
        for a in 0..b {
            if t.chance(1, den) {
                g.push(a, b);
            }
        }
    }
    g
}

/// Sparse graph with average degree 1 to 4.
pub fn sparse(s: &mut Src, lo: usize, hi: usize) -> Shape {
    let n = s.range(lo, hi);
    let mut g = Shape::new(n);
    if n < 2 {
        return g;
    }
    let m = n * s.range(2, 8) / 4;
    let bulk = s.bulk(2 * m);
    let mut t = Src::new(&bulk);
    for _ in 0..m {
        let (a, b) = (t.below(n), t.below(n));
        g.push(a, b);
    }
    g.dedup()
}

pub fn tree(s: &mut Src, lo: usize, hi: usize) -> Shape {
    let n = s.range(lo, hi);
    let mut g = Shape::new(n);
    match s.below(5) {
        0 => (1..n).for_each(|v| g.push(v - 1, v)),
        1 => (1..n).for_each(|v| g.push(0, v)),
        2 => (1..n).for_each(|v| g.push((v - 1) / 2, v)),
        3 => (1..n).for_each(|v| g.push(if v % 2 == 1 { v.saturating_sub(2) } else { v - 1 }, v)),
        _ => {
            for v in 1..n {
                let p = s.below(v);
                g.push(p, v);
            }
        }
    }
    g
}

pub fn cyclic(s: &mut Src, lo: usize, hi: usize) -> Shape {
    let n = s.range(lo.max(3), hi.max(3));
    let mut g = Shape::new(n);
    match s.below(6) {
        0 => {
            // cycle with chords
            (0..n).for_each(|v| g.push(v, (v + 1) % n));
            for _ in 0..s.below(5) {
                let (a, b) = (s.below(n), s.below(n));
                g.push(a, b);
            }
        }
        1 => {
            // cactus: cycles hung on earlier nodes
            g.n = 1;
            while g.n < n {
                let at = s.below(g.n);
                let len = s.pick(&[3usize, 5, 4, 3, 7, 6, 2]);
                let first = g.n;
                g.n += len - 1;
                for v in first..g.n - 1 {
                    g.push(v, v + 1);
                }
                g.push(at, first);
                let last = g.n - 1;
                g.push(at, last);
            }
        }
        2 => {
            // theta and its relatives: paths between two hubs
            g.n = 2;
            while g.n < n {
                let len = s.below(4);
                let first = g.n;
                g.n += len;
                if len == 0 {
                    g.push(0, 1);
                    break;
                }
                g.push(0, first);
                (first + 1..g.n).for_each(|v| g.push(v - 1, v));
                let last = g.n - 1;
                g.push(last, 1);
            }
        }
        3 => {
            // wheel
            (1..n).for_each(|v| g.push(0, v));
            (1..n).for_each(|v| g.push(v, if v + 1 == n { 1 } else { v + 1 }));
        }
        4 => {
            // ladder, prism or Moebius ladder
            let k = n / 2;
            g.n = 2 * k;
            for i in 0..k {
                g.push(i, k + i);
                if i + 1 < k {
                    g.push(i, i + 1);
                    g.push(k + i, k + i + 1);
                }
            }
            match s.below(3) {
                1 => {
                    g.push(k - 1, 0);
                    g.push(2 * k - 1, k)
                }
                2 => {
                    g.push(k - 1, k);
                    g.push(2 * k - 1, 0)
                }
                _ => {}
            }
        }
        _ => {
            // generalized Petersen graph
            let k = (n / 2).max(3);
            g.n = 2 * k;
            let step = s.range(1, 2.max(k / 2));
            for i in 0..k {
                g.push(i, (i + 1) % k);
                g.push(i, k + i);
                g.push(k + i, k + (i + step) % k);
            }
        }
    }
    g.dedup()
}

pub fn dense(s: &mut Src, lo: usize, hi: usize) -> Shape {
    let n = s.range(lo, hi);
    let mut g = Shape::new(n);
    match s.below(4) {
        0 => (0..n).for_each(|b| (0..b).for_each(|a| g.push(a, b))),
        1 => {
            // complete bipartite
            let k = s.below(n + 1);
            (0..k).for_each(|a| (k..n).for_each(|b| g.push(a, b)))
        }
        2 => {
            // complete minus a few edges
            (0..n).for_each(|b| (0..b).for_each(|a| g.push(a, b)));
            for _ in 0..s.below(n + 1) {
                if !g.edges.is_empty() {
                    let k = s.below(g.edges.len());
                    g.edges.swap_remove(k);
                }
            }
        }
        _ => {
            // complete multipartite
            let k = s.range(2, 4);
            (0..n).for_each(|b| {
                (0..b).for_each(|a| {
                    if a % k != b % k {
                        g.push(a, b)
                    }
                })
            })
        }
    }
    g
}

/// Piece of a brick wall (hexagons) or square grid, with nodes removed and odd rings patched in:
/// the molecules this library is used for.
pub fn lattice(s: &mut Src, max: usize) -> Shape {
    let w = s.range(2, 6.min(max / 2).max(2));
    let h = s.range(1, (max / w).clamp(1, 6));
    let hex = s.chance(2, 3);
    let mut g = Shape::new(w * h);
    for r in 0..h {
        for c in 0..w {
            let v = r * w + c;
            if c + 1 < w {
                g.push(v, v + 1);
            }
            if r + 1 < h && (!hex || (r + c) % 2 == 0) {
                g.push(v, v + w);
            }
        }
    }
    for _ in 0..s.below(4) {
        let (a, b) = (s.below(g.n), s.below(g.n));
        g.push(a, b);
    }
    for _ in 0..s.below(4) {
        let v = s.below(g.n);
        g.edges.retain(|&(a, b)| a != v && b != v);
    }
    g.dedup()
}

pub fn bipartite(s: &mut Src, lo: usize, hi: usize) -> Shape {
    let n = s.range(lo, hi);
    let mut g = Shape::new(n);
    let k = s.range(n / 3, n / 2 + 1).min(n);
    let den = s.range(2, 5);
    for a in 0..k {
        for b in k..n {
            if s.chance(1, den) {
                g.push(a, b);
            }
        }
    }
    g
}

/// Inverse contraction. Starts with a matched tree or path with exposed ends and blows nodes up into
/// odd cycles whose base keeps the mate of the node and whose other nodes are paired along the cycle.
/// The pairing stays valid, and can still be augmented, but only by going through the nested cycles.
pub fn flower(s: &mut Src, max: usize) -> Shape {
    let mut g = Shape::new(0);
    // alternating path with exposed ends (a single exposed node when half is 0)
    let half = s.below(4);
    g.n = if half == 0 { 1 } else { 2 * half };
    for v in 1..g.n {
        g.push(v - 1, v);
        if v % 2 == 0 {
            g.pairs.push((v - 1, v));
        }
    }
    // side branches: matched pairs, or exposed leaves, hung anywhere
    for _ in 0..s.below(4) {
        if g.n + 2 > max {
            break;
        }
        let at = s.below(g.n);
        if s.chance(2, 3) {
            g.n += 2;
            let (x, y) = (g.n - 2, g.n - 1);
            g.push(at, x);
            g.push(x, y);
            g.pairs.push((x, y));
        } else {
            g.n += 1;
            let leaf = g.n - 1;
            g.push(at, leaf);
        }
    }
    let blows = s.range(1, 1 + max / 5);
    for _ in 0..blows {
        if g.n + 2 > max {
            break;
        }
        let v = if s.chance(1, 2) { g.n - 1 - s.below(g.n.min(5)) } else { s.below(g.n) };
        let len = s.pick(&[3usize, 3, 5, 3, 5, 7]).min(max - g.n + 1);
        let len = if len % 2 == 0 { len - 1 } else { len };
        if len < 3 {
            continue;
        }
        let mut cycle = vec![v];
        cycle.extend(g.n..g.n + len - 1);
        g.n += len - 1;
        let mate = g.pairs.iter().find(|p| p.0 == v || p.1 == v).map(|p| p.0 + p.1 - v);
        let mut extra = vec![];
        for e in g.edges.iter_mut() {
            if e.0 != v && e.1 != v {
                continue;
            }
            let other = e.0 + e.1 - v;
            let to = cycle[s.below(len)];
            if Some(other) == mate {
                // the mate stays at the base; the neighbor may also touch another cycle node
                if s.chance(1, 3) {
                    extra.push((other, to));
                }
            } else {
                *e = (other, to);
                if s.chance(1, 4) {
                    extra.push((other, cycle[s.below(len)]));
                }
            }
        }
        for (a, b) in extra {
            g.push(a, b);
        }
        for i in 0..len {
            g.push(cycle[i], cycle[(i + 1) % len]);
        }
        for i in (1..len).step_by(2) {
            g.pairs.push((cycle[i], cycle[i + 1]));
        }
    }
    for _ in 0..s.below(3) {
        let (a, b) = (s.below(g.n), s.below(g.n));
        g.push(a, b);
    }
    g.dedup()
}

/// Nested flowers large enough that contraction recurses deeply.
pub fn union(s: &mut Src, max: usize) -> Shape {
    let mut g = Shape::new(0);
    let parts = s.range(2, 4);
    for _ in 0..parts {
        let left = max.saturating_sub(g.n).min(max / 2);
        if left < 1 {
            break;
        }
        let p = match s.below(6) {
            0 => gnp(s, 1, left.min(6)),
            1 => tree(s, 1, left),
            2 if left >= 4 => cyclic(s, 3, left - 1),
            3 => flower(s, left),
            4 => dense(s, 1, left.min(5)),
            _ => Shape::new(s.range(1, 2)),
        };
        g.append(p);
    }
    g
}

/// A few nodes of any degree up to 40, among many of low degree.
pub fn hubs(s: &mut Src, hi: usize) -> Shape {
    let n = s.range(8.min(hi), hi.min(56));
    let mut g = Shape::new(n);
    let few = s.range(1, 5);
    for _ in 0..few {
        let hub = s.below(n);
        let degree = s.range(3, 40).min(n - 1);
        // a stretch of the others, or every other one of them
        let (from, by) = (s.below(n), s.range(1, 3));
        (0..degree).for_each(|k| {
            let v = (from + k * by) % n;
            if v != hub {
                g.push(hub, v)
            }
        });
    }
    let more = s.below(n);
    (0..more).for_each(|_| {
        let (a, b) = (s.below(n), s.below(n));
        if a != b {
            g.push(a, b)
        }
    });
    g.dedup()
}

pub const CLASSES: [&str; 11] =
    ["gnp-small", "gnp-medium", "tree", "cyclic", "dense", "lattice", "flower", "union", "bipartite", "sparse-large", "hubs"];

/// A graph of 64 to `max` nodes, sizes spread evenly over the powers of two between.
pub fn huge(s: &mut Src, max: usize) -> Shape {
    let mut top = 128;
    while top < max && s.chance(2, 3) {
        top *= 2;
    }
    let n = s.range(64, top.min(max));
    let kinds = crate::checks_large::KINDS.len();
    let kind = s.below(kinds + 3);
    if kind < kinds {
        let (n, edges) = crate::checks_large::shape(kind, n, &mut crate::checks_large::Rng(s.word()));
        return Shape { n, edges, pairs: vec![] };
    }
    let mut g = Shape::new(0);
    match kind - kinds {
        0 => {
            // complete graph
            g.n = n.min(70);
            (0..g.n).for_each(|b| (0..b).for_each(|a| g.push(a, b)));
        }
        1 => {
            // complete bipartite, one side small
            g.n = n;
            let k = s.range(2, 4).min(n);
            (0..k).for_each(|a| (k..n).for_each(|b| g.push(a, b)));
        }
        _ => {
            // hubs with leaves, joined by paths
            g.n = 1;
            let mut hub = 0;
            while g.n < n {
                let leaves = s.range(5, 40);
                (0..leaves).for_each(|_| {
                    g.n += 1;
                    let v = g.n - 1;
                    g.push(hub, v)
                });
                let long = s.below(6);
                for _ in 0..=long {
                    g.n += 1;
                    let v = g.n - 1;
                    g.push(hub, v);
                    hub = v;
                }
            }
        }
    }
    g.dedup()
}

/// Any class; `max` bounds the usual size, `big` the size of the sparse-large class, and `most` the
/// size of a few huge graphs (0 for none).
pub fn shape(s: &mut Src, max: usize, big: usize, most: usize) -> (Shape, &'static str) {
    if most > 0 && s.large(400) {
        return (huge(s, most), "huge");
    }
    let class = s.pick(&[0usize, 2, 0, 3, 1, 6, 7, 3, 5, 8, 4, 6, 1, 9, 0, 7]);
    let class = if class == 9 && s.chance(1, 2) { 10 } else { class };
    let g = match class {
        0 => gnp(s, 0, 7.min(max)),
        1 => gnp(s, 4.min(max), max),
        2 => tree(s, 1, max),
        3 => cyclic(s, 3, max.saturating_sub(6).max(4)),
        4 => dense(s, 2, max.min(9)),
        5 => lattice(s, max),
        6 => flower(s, max),
        7 => union(s, max),
        8 => bipartite(s, 2, max),
        10 => hubs(s, big.max(8)),
        _ => sparse(s, max / 2, big.max(max / 2 + 1)),
    };
    (g, CLASSES[class])
}

pub const EXTREMES: [usize; 16] = [
    usize::MAX,
    0,
    usize::MAX - 1,
    1,
    1 << 63,
    (1 << 63) - 1,
    (1 << 32) - 1,
    1 << 32,
    (1 << 32) + 1,
    usize::MAX - 2,
    1 << 31,
    1 << 16,
    255,
    256,
    1 << 53,
    2,
];

/// Distinct node ids.
pub fn ids(s: &mut Src, n: usize) -> Vec<usize> {
    match s.below(8) {
        0 | 1 => (0..n).collect(),
        2 => (0..n).rev().collect(),
        3 => {
            let mut v: Vec<usize> = (0..n).collect();
            s.shuffle(&mut v);
            v
        }
        4 => {
            let base = s.pick(&[1usize, 10, 1000, 1 << 32]);
            let step = s.range(1, 7);
            if s.chance(1, 3) {
                (0..n).map(|i| usize::MAX - i * step).collect()
            } else {
                (0..n).map(|i| base + i * step).collect::<Vec<_>>()
            }
        }
        5 => distinct(s, n, |s| s.word() as usize),
        6 => distinct(s, n, |s| s.pick(&EXTREMES)),
        _ => distinct(s, n, |s| s.below(4 * 16)),
    }
    .into_iter()
    .collect::<BTreeSetKeepOrder>()
    .fill(n)
}

/// Collects distinct values in order of first appearance, and tops up with unused ones.
#[derive(Default)]
struct BTreeSetKeepOrder(Vec<usize>);

impl FromIterator<usize> for BTreeSetKeepOrder {
    fn from_iter<I: IntoIterator<Item = usize>>(iter: I) -> Self {
        let mut seen = BTreeSet::new();
        BTreeSetKeepOrder(iter.into_iter().filter(|&x| seen.insert(x)).collect())
    }
}

impl BTreeSetKeepOrder {
    fn fill(self, n: usize) -> Vec<usize> {
        let mut v = self.0;
        v.truncate(n);
        let mut seen: BTreeSet<usize> = v.iter().copied().collect();
        let mut k = 0;
        while v.len() < n {
            if seen.insert(k) {
                v.push(k);
            }
            k += 1;
        }
        v
    }
}

fn distinct(s: &mut Src, n: usize, mut f: impl FnMut(&mut Src) -> usize) -> Vec<usize> {
    (0..n).map(|_| f(s)).collect()
}

/// Presents a shape: node order, edge order and orientation, neighbor order, ids, route, loops.
/// Returns the graph and the designed pairs as index pairs.
pub fn present(s: &mut Src, mut g: Shape, loops: bool) -> (GSpec, Vec<(usize, usize)>) {
    let n = g.n;
    let route = s.pick(&[CUSTOM, ADDS, ADJACENCY, EDGES, CUSTOM, CUSTOM]);
    if loops && n > 0 && s.chance(1, 8) {
        for _ in 0..s.range(1, 3) {
            let v = s.below(n);
            g.edges.push((v, v));
        }
        g = g.dedup();
    }
    let mut perm: Vec<usize> = (0..n).collect();
    if s.chance(3, 4) {
        s.shuffle(&mut perm);
    }
    let mut edges: Vec<(usize, usize)> = g.edges.iter().map(|&(a, b)| (perm[a], perm[b])).collect();
    let mut pairs: Vec<(usize, usize)> = g.pairs.iter().map(|&(a, b)| (perm[a], perm[b])).collect();
    if s.chance(3, 4) {
        s.shuffle(&mut edges);
        let flips = if edges.len() > 40 { s.bulk(edges.len()) } else { (0..edges.len()).map(|_| s.raw()).collect() };
        for (e, f) in edges.iter_mut().zip(flips) {
            if f >= 1 << 31 {
                *e = (e.1, e.0);
            }
        }
    }
    let mut adj = GSpec::adj_from_edges(n, &edges);
    match s.below(4) {
        0 => adj.iter_mut().for_each(|r| r.sort_unstable()),
        1 => {}
        2 => adj.iter_mut().for_each(|r| r.sort_unstable_by(|a, b| b.cmp(a))),
        _ => {
            let total: usize = adj.iter().map(|r| r.len()).sum();
            if total > 60 {
                let b = s.bulk(2 * total);
                let mut t = Src::new(&b);
                adj.iter_mut().for_each(|r| shuffle_with(&mut t, r));
            } else {
                adj.iter_mut().for_each(|r| shuffle_with(s, r));
            }
        }
    }
    let ids = ids(s, n);
    let mut spec = GSpec { route, ids: ids.clone(), edges, adj };
    spec.normalize();
    if route == EDGES {
        // node order changed: carry the pairs over by id
        let at = |v: usize| spec.ids.iter().position(|&x| x == ids[v]).unwrap();
        pairs = pairs.iter().map(|&(a, b)| (at(a), at(b))).collect();
    }
    (spec, pairs)
}

fn shuffle_with(s: &mut Src, v: &mut [usize]) {
    for i in 0..v.len() {
        let j = i + s.below(v.len() - i);
        v.swap(i, j);
    }
}

/// Some matching of the graph: none, a random partial one, or one maximal in a random edge order.
pub fn matching(s: &mut Src, g: &GSpec) -> Vec<(usize, usize)> {
    let mode = s.below(4);
    if mode == 0 {
        return vec![];
    }
    let mut edges: Vec<(usize, usize)> = g.edges.iter().copied().filter(|(a, b)| a != b).collect();
    s.shuffle(&mut edges);
    let keep = s.pick(&[4usize, 3, 2, 1]);
    let mut used = vec![false; g.n()];
    let mut out = vec![];
    for (a, b) in edges {
        if !used[a] && !used[b] && (mode == 1 || s.below(4) < keep) {
            used[a] = true;
            used[b] = true;
            out.push((a, b));
        }
    }
    out
}

/// Graph case used by most checks.
pub fn graph_case(s: &mut Src, max: usize, big: usize, most: usize, loops: bool) -> Case {
    let (sh, class) = shape(s, max, big, most);
    let designed = class == "flower" || class == "union";
    let (graph, pairs) = present(s, sh, loops);
    let root = s.below(graph.n());
    let pairs = if designed && s.chance(2, 3) { pairs } else { matching(s, &graph) };
    Case { graph, root, pairs, ..Case::default() }
}

/// Node ids for histories: a small pool, so that collisions happen.
pub fn pool(s: &mut Src, k: usize) -> Vec<usize> {
    ids(s, k)
}
