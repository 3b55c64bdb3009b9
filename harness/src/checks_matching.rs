//! C16 - C23: pairings, greedy and maximum matching.

use crate::case::*;
use crate::checks_traversal::small_graph;
use crate::choice::Src;
use crate::driver::Obs;
use crate::gen;
use crate::graphs::*;
use crate::oracle::*;
use crate::refmatch;
use crate::with_graph;
use gamma::graph::Graph;
use gamma::matching::{greedy, maximum_matching, Pairing};
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

// ---- C16 ---------------------------------------------------------------------------------------

pub fn gen_c16(s: &mut Src) -> Case {
    let long = s.large(500);
    let k = if long { s.pick(&[40usize, 100, 300]) } else { s.pick(&[4usize, 3, 6, 8, 12, 30]) };
    let pool = gen::pool(s, k);
    let l = s.pick(&[10usize, 4, 20, 60]);
    let l = if long { s.range(60, 400) } else { s.below(l + 1) };
    let mut t = Src::owned(if long { s.bulk(2 * l) } else { vec![] });
    let ops = (0..l)
        .map(|_| {
            let s = if long { &mut t } else { &mut *s };
            let i = s.below(k);
            let j = (i + 1 + s.below(k - 1)) % k;
            Op::Pair(pool[i], pool[j])
        })
        .collect();
    Case { ops, extra: pool, ..Case::default() }
}

#[derive(Clone, Default, PartialEq, Eq, Debug)]
struct PModel(BTreeMap<usize, usize>);

impl PModel {
    fn drop_pair(&mut self, a: usize) {
        if let Some(b) = self.0.remove(&a) {
            self.0.remove(&b);
        }
    }
    fn pair(&mut self, a: usize, b: usize) {
        self.drop_pair(a);
        self.drop_pair(b);
        self.0.insert(a, b);
        self.0.insert(b, a);
    }
}

fn check_pairing(p: &Pairing, m: &PModel, probes: &[usize]) -> Res {
    if p.order() != m.0.len() {
        return Err(format!("order is {}, expected {}", p.order(), m.0.len()));
    }
    let mut got: Vec<(usize, usize)> = p.edges().collect();
    got.sort_unstable();
    let want: Vec<(usize, usize)> = m.0.iter().filter(|(a, b)| a < b).map(|(&a, &b)| (a, b)).collect();
    if got != want {
        return Err(format!("edges are {got:?}, expected {want:?}"));
    }
    for &a in probes.iter().chain(m.0.keys()) {
        let mate = m.0.get(&a);
        if p.has_node(a) != mate.is_some() {
            return Err(format!("has_node({a}) is {}, pairs {want:?}", p.has_node(a)));
        }
        if let Some(&b) = mate {
            if p.mate(a) != b {
                return Err(format!("mate({a}) is {}, expected {b}", p.mate(a)));
            }
        }
    }
    Ok(())
}

fn mate_panics(p: &Pairing, a: usize) -> bool {
    catch_unwind(AssertUnwindSafe(|| {
        std::hint::black_box(p.mate(a));
    }))
    .is_err()
}

pub fn run_c16(c: &Case, o: &mut Obs) -> Res {
    let mut p = Pairing::new();
    let mut m = PModel::default();
    let mut replaced = 0;
    let mut both = false;
    check_pairing(&p, &m, &c.extra).map_err(|e| format!("when new: {e}"))?;
    for (k, op) in c.ops.iter().enumerate() {
        let Op::Pair(a, b) = *op else { return o.skip() };
        if a == b {
            return o.skip();
        }
        let (x, y) = (m.0.get(&a).copied(), m.0.get(&b).copied());
        replaced += ((x.is_some() && x != Some(b)) || (y.is_some() && y != Some(a))) as usize;
        both |= x.is_some() && y.is_some() && x != Some(b);
        o.label_if(x == Some(b), "same pair again");
        p.pair(a, b);
        m.pair(a, b);
        // in very long histories every so often, and at the end
        if c.ops.len() > 2000 && k % (c.ops.len() / 3) != 0 && k + 1 != c.ops.len() {
            continue;
        }
        check_pairing(&p, &m, &c.extra).map_err(|e| format!("after operation {k} {op:?} of {:?}: {e}", c.ops))?;
    }
    // equality with the same pairs made in another order, and inequality with a changed one
    let mut q = Pairing::new();
    let pairs: Vec<(usize, usize)> = m.0.iter().filter(|(a, b)| a < b).map(|(&a, &b)| (a, b)).collect();
    for &(a, b) in pairs.iter().rev() {
        q.pair(b, a);
    }
    if p != q || q != p {
        return Err(format!("differs from a new pairing with the same pairs {pairs:?}"));
    }
    if pairs.len() >= 2 {
        let ((a, b), (x, y)) = (pairs[0], pairs[pairs.len() - 1]);
        q.pair(a, x);
        if p == q || q == p {
            return Err(format!("equals a pairing that has ({a},{x}) instead of ({a},{b}) and ({x},{y})"));
        }
        q.pair(b, y);
        if p == q {
            return Err(format!("equals a pairing that has ({a},{x}),({b},{y}) instead of ({a},{b}),({x},{y})"));
        }
    }
    // mate of an unpaired node panics (unwinding is slow: only on some cases)
    if c.ops.len() % 8 == 1 {
        for &a in c.extra.iter().filter(|a| !m.0.contains_key(a)).take(1) {
            if !mate_panics(&p, a) {
                return Err(format!("mate({a}) of an unpaired node returns"));
            }
            o.label("mate of an unpaired node");
        }
    }
    o.label_if(replaced > 0, "a pair is replaced");
    o.label_if(both, "two pairs are replaced at once");
    o.nontrivial(replaced > 0);
    Ok(())
}

pub fn all_pairings(len: usize, emit: &mut dyn FnMut(usize, &dyn Fn() -> Case) -> bool) {
    let ids = [0usize, 1, 2, usize::MAX, 7];
    let mut alphabet = vec![];
    for &a in &ids {
        for &b in &ids {
            if a != b {
                alphabet.push(Op::Pair(a, b));
            }
        }
    }
    let k = alphabet.len();
    let mut index = 0;
    for l in 0..=len {
        for code in 0..k.pow(l as u32) {
            let alphabet = &alphabet;
            let make = move || {
                let mut c = code;
                let ops = (0..l)
                    .map(|_| {
                        let op = alphabet[c % k].clone();
                        c /= k;
                        op
                    })
                    .collect();
                Case { ops, extra: ids.to_vec(), ..Case::default() }
            };
            if !emit(index, &make) {
                return;
            }
            index += 1;
        }
    }
}

// ---- C17 ---------------------------------------------------------------------------------------

pub fn gen_c17(s: &mut Src) -> Case {
    let long = s.large(400);
    let k = if long { s.pick(&[60usize, 150, 300]) } else { s.pick(&[8usize, 6, 12, 20, 40]) };
    let mut pool = gen::pool(s, k);
    s.shuffle(&mut pool);
    let mut ops = vec![];
    let rounds = s.range(1, 3);
    for _ in 0..rounds {
        let len = s.below(if long { k } else { k.min(16) } + 1);
        let even = len - len % 2;
        if s.chance(1, 2) {
            // an augmenting path: inner nodes paired along it, ends free
            for i in (1..even.saturating_sub(1)).step_by(2) {
                ops.push(if s.chance(1, 2) { Op::Pair(pool[i], pool[i + 1]) } else { Op::Pair(pool[i + 1], pool[i]) });
            }
            // pairs off the path
            for i in (even..k.saturating_sub(1)).step_by(2) {
                if s.chance(2, 3) {
                    ops.push(Op::Pair(pool[i], pool[i + 1]));
                }
            }
            ops.push(Op::Augment(pool[..even].to_vec()));
        } else {
            for _ in 0..s.below(k) {
                let i = s.below(k);
                let j = (i + 1 + s.below(k - 1)) % k;
                ops.push(Op::Pair(pool[i], pool[j]));
            }
            let odd = len % 2 == 1 && s.chance(1, 4);
            let at = s.below(k - len + 1);
            ops.push(Op::Augment(pool[at..at + if odd { len } else { even }].to_vec()));
        }
        s.shuffle(&mut pool);
    }
    Case { ops, extra: pool, ..Case::default() }
}

pub fn run_c17(c: &Case, o: &mut Obs) -> Res {
    let mut p = Pairing::new();
    let mut m = PModel::default();
    for (k, op) in c.ops.iter().enumerate() {
        match op {
            Op::Pair(a, b) => {
                if a == b {
                    return o.skip();
                }
                p.pair(*a, *b);
                m.pair(*a, *b);
                // pairs are C16's concern
                if c.ops.len() <= 2000 && check_pairing(&p, &m, &[]).is_err() {
                    return o.skip();
                }
            }
            Op::Augment(path) => {
                let set: BTreeSet<usize> = path.iter().copied().collect();
                if set.len() != path.len() {
                    return o.skip();
                }
                let at = |e: String| format!("after operation {k} {op:?} of {:?}: {e}", c.ops);
                if path.len() % 2 == 1 {
                    let r = catch_unwind(AssertUnwindSafe(|| p.augment(path.clone())));
                    if r.is_ok() {
                        return Err(at("an odd path is accepted".into()));
                    }
                    check_pairing(&p, &m, &c.extra).map_err(at)?;
                    o.label("odd path refused");
                    continue;
                }
                let l = path.len();
                let augmenting = l >= 2
                    && !m.0.contains_key(&path[0])
                    && !m.0.contains_key(&path[l - 1])
                    && (1..l - 1).step_by(2).all(|i| m.0.get(&path[i]) == Some(&path[i + 1]));
                let before = m.0.clone();
                for &a in path {
                    m.drop_pair(a);
                }
                for i in (0..l).step_by(2) {
                    m.pair(path[i], path[i + 1]);
                }
                if augmenting && (m.0.len() != before.len() + 2 || before.keys().any(|a| !m.0.contains_key(a))) {
                    panic!("harness: model of augmentation is wrong");
                }
                p.augment(path.clone());
                check_pairing(&p, &m, &c.extra).map_err(at)?;
                o.label_if(augmenting && l >= 4, "augmenting path of 4+ nodes");
                o.label_if(!augmenting && l >= 2, "other even path");
                o.nontrivial(l >= 4 && !before.is_empty());
            }
            _ => return o.skip(),
        }
    }
    Ok(())
}

// ---- C18, C19 ----------------------------------------------------------------------------------

pub fn gen_matching(s: &mut Src) -> Case {
    let mut c = gen::graph_case(s, 18, 60, 200, true);
    c.root = 0;
    c
}

pub fn gen_greedy(s: &mut Src) -> Case {
    let mut c = gen::graph_case(s, 18, 120, 600, true);
    c.pairs.clear();
    c.root = 0;
    c
}

macro_rules! on_graph {
    ($c:expr, $o:expr, $g:ident, $m:ident => $body:expr) => {{
        let Ok(built) = build(&$c.graph) else { return $o.skip() };
        with_graph!(built, $g => {
            let Ok($m) = Model::of($g) else { return $o.skip() };
            $body
        })
    }};
}

fn classify(o: &mut Obs, c: &Case, m: &Model) {
    o.label(&format!("route {}", ROUTES[c.graph.route as usize]));
    let odd = m.has_odd_cycle();
    o.label_if(odd, "with an odd cycle");
    o.label_if(m.edges.iter().any(|(a, b)| a == b), "with a loop");
    o.label_if(m.n() > 20, "over 20 nodes");
    o.label_if(!c.pairs.is_empty(), "non-empty starting matching");
    o.label_if(c.graph.ids.contains(&usize::MAX), "with the maximum id");
    o.nontrivial(odd && m.edges.len() >= 4);
}

pub fn run_c18(c: &Case, o: &mut Obs) -> Res {
    on_graph!(c, o, g, m => {
        let p = greedy(g);
        matching_of_graph(g, &m, &p)?;
        classify(o, c, &m);
        Ok(())
    })
}

pub fn run_c19(c: &Case, o: &mut Obs) -> Res {
    on_graph!(c, o, g, m => {
        let p = greedy(g);
        let map = pair_edges(&p)?;
        if let Some((a, b)) = free_edge(&m, &map) {
            return Err(format!("edge ({a},{b}) has both ends free; pairs {:?}", p.edges().collect::<BTreeSet<_>>()));
        }
        // follows from the above; the reference is too slow for the giants
        if m.n() <= 1000 {
            let best = refmatch::maximum(&m.nbr).unwrap_or_else(|e| panic!("harness: {e}"));
            if p.edges().count() * 2 < best {
                return Err(format!("{} pairs, but {best} are possible", p.edges().count()));
            }
        }
        classify(o, c, &m);
        Ok(())
    })
}

// ---- C20 - C22 ---------------------------------------------------------------------------------

fn starting(c: &Case, m: &Model) -> Option<Pairing> {
    let mut p = Pairing::new();
    for &(a, b) in &c.pairs {
        let (i, j) = (*m.index.get(c.graph.ids.get(a)?)?, *m.index.get(c.graph.ids.get(b)?)?);
        if i == j || !m.nbr[i].contains(&j) || p.has_node(m.ids[i]) || p.has_node(m.ids[j]) {
            return None;
        }
        p.pair(m.ids[i], m.ids[j]);
    }
    // a pairing that does not hold what was paired is for C16
    let map = pairing_map(&p).ok()?;
    if map.len() != 2 * c.pairs.len() {
        return None;
    }
    Some(p)
}

fn best(m: &Model) -> usize {
    let k = refmatch::maximum(&m.nbr).unwrap_or_else(|e| panic!("harness: {e}"));
    if m.n() <= 8 && refmatch::maximum_by_subsets(&m.nbr) != k {
        panic!("harness: the two matching oracles disagree");
    }
    k
}

pub fn run_c20(c: &Case, o: &mut Obs) -> Res {
    on_graph!(c, o, g, m => {
        let Some(mut p) = starting(c, &m) else { return o.skip() };
        maximum_matching(g, &mut p);
        matching_of_graph(g, &m, &p)?;
        classify(o, c, &m);
        Ok(())
    })
}

pub fn run_c21(c: &Case, o: &mut Obs) -> Res {
    on_graph!(c, o, g, m => {
        let k = best(&m);
        let mut p = Pairing::new();
        maximum_matching(g, &mut p);
        let size = pair_edges(&p)?.len() / 2;
        if size != k {
            return Err(format!("{size} pairs from the empty pairing, but a maximum matching has {k}"));
        }
        let mut q = greedy(g);
        // a bad start is for C18
        let start = pair_edges(&q)?;
        if pairs_in_graph(&m, &start).is_ok() && start.len() == q.order() {
            maximum_matching(g, &mut q);
            let size = pair_edges(&q)?.len() / 2;
            if size != k {
                return Err(format!("{size} pairs from the greedy matching, but a maximum matching has {k}"));
            }
            o.label_if(start.len() / 2 < k, "greedy start not maximum");
        }
        classify(o, c, &m);
        Ok(())
    })
}

pub fn run_c22(c: &Case, o: &mut Obs) -> Res {
    on_graph!(c, o, g, m => {
        let Some(mut p) = starting(c, &m) else { return o.skip() };
        let before = pair_edges(&p)?;
        let k = best(&m);
        maximum_matching(g, &mut p);
        let after = pair_edges(&p)?;
        if after.len() / 2 != k {
            return Err(format!("{} pairs when started from {:?}, but a maximum matching has {k}", after.len() / 2, before));
        }
        for a in before.keys() {
            if !after.contains_key(a) || !p.has_node(*a) {
                return Err(format!("node {a} was paired at the start and is not at the end"));
            }
        }
        if before.len() / 2 == k && after != before {
            return Err(format!("a maximum matching {before:?} is changed to {after:?}"));
        }
        maximum_matching(g, &mut p);
        let again = pair_edges(&p)?;
        if again != after {
            return Err(format!("applied again, {after:?} becomes {again:?}"));
        }
        classify(o, c, &m);
        o.label_if(before.len() / 2 + 2 <= k, "2+ augmentations needed");
        o.label_if(!before.is_empty() && before.len() / 2 < k, "non-empty start is augmented");
        o.label_if(before.len() / 2 == k, "start is maximum");
        o.nontrivial(!before.is_empty() && before.len() / 2 < k);
        Ok(())
    })
}

/// All graphs of n nodes with all their matchings as the start.
pub fn all_starts(max_n: usize, orders: u64, emit: &mut dyn FnMut(usize, &dyn Fn() -> Case) -> bool) {
    let mut index = 0;
    for n in 1..=max_n {
        let slots = n * (n - 1) / 2;
        for mask in 0u64..1 << slots {
            for order in 0..orders {
                let g = small_graph(n, mask, order);
                let mut starts = vec![];
                matchings(&g.edges, 0, &mut vec![], &mut starts);
                for pairs in starts {
                    let g = &g;
                    let make = move || Case { graph: g.clone(), pairs: pairs.clone(), ..Case::default() };
                    if !emit(index, &make) {
                        return;
                    }
                    index += 1;
                }
            }
        }
    }
}

fn matchings(edges: &[(usize, usize)], k: usize, now: &mut Vec<(usize, usize)>, out: &mut Vec<Vec<(usize, usize)>>) {
    if k == edges.len() {
        out.push(now.clone());
        return;
    }
    matchings(edges, k + 1, now, out);
    let (a, b) = edges[k];
    if a != b && !now.iter().any(|&(x, y)| x == a || x == b || y == a || y == b) {
        now.push((a, b));
        matchings(edges, k + 1, now, out);
        now.pop();
    }
}

// ---- C23 ---------------------------------------------------------------------------------------

pub fn gen_c23(s: &mut Src) -> Case {
    let mut c = gen::graph_case(s, 16, 40, 130, true);
    c.pairs.clear();
    let (sh, _) = gen::shape(s, 10, 20, 0);
    let (mut h, _) = gen::present(s, sh, true);
    h.route = CUSTOM;
    let n = c.graph.n();
    c.extra = gen::ids(s, n + h.n());
    // extra: new ids, then a node permutation of the graph
    let mut perm: Vec<usize> = (0..n).collect();
    s.shuffle(&mut perm);
    c.extra.extend(perm);
    c.graph2 = Some(h);
    c.root = 0;
    c
}

fn sizes<G: Graph>(g: &G) -> Result<usize, String> {
    let mut p = Pairing::new();
    maximum_matching(g, &mut p);
    let size = pair_edges(&p)?.len() / 2;
    let q = greedy(g);
    let first = pair_edges(&q)?.len() / 2;
    if first > size {
        return Err(format!("greedy finds {first} pairs, more than the maximum matching's {size}"));
    }
    Ok(size)
}

pub fn run_c23(c: &Case, o: &mut Obs) -> Res {
    let Some(h) = &c.graph2 else { return o.skip() };
    on_graph!(c, o, g, m => {
        let n = m.n();
        let k = h.n();
        if c.extra.len() != 2 * n + k {
            return o.skip();
        }
        let base = sizes(g)?;
        let differ = |what: &str, x: usize| Err(format!("the maximum matching has {base} pairs, and {x} with {what}"));
        let spec = GSpec { route: CUSTOM, ids: m.ids.clone(), edges: m.edges.clone(), adj: m.nbr.clone() };

        let x = sizes(&CGraph::new(&spec))?;
        if x != base {
            return differ("another Graph implementation", x);
        }

        // renamed
        let mut renamed = spec.clone();
        renamed.ids = c.extra[..n].to_vec();
        if !renamed.is_valid() {
            return o.skip();
        }
        let x = sizes(&CGraph::new(&renamed))?;
        if x != base {
            return differ(&format!("ids {:?}", renamed.ids), x);
        }

        // nodes, edges and neighbors in another order
        let perm = &c.extra[n + k..];
        let mut p = perm.to_vec();
        p.sort_unstable();
        if p.iter().enumerate().any(|(i, &v)| i != v) {
            return o.skip();
        }
        let mut moved = renamed.clone();
        for v in 0..n {
            moved.ids[perm[v]] = renamed.ids[v];
            let mut row: Vec<usize> = renamed.adj[v].iter().map(|&x| perm[x]).collect();
            row.reverse();
            moved.adj[perm[v]] = row;
        }
        moved.edges = renamed.edges.iter().rev().map(|&(a, b)| (perm[b], perm[a])).collect();
        let x = sizes(&CGraph::new(&moved))?;
        if x != base {
            return differ("another order of nodes, edges and neighbors", x);
        }
        // the same through DefaultGraph
        moved.route = if perm.first() == Some(&0) { EDGES } else { ADDS };
        moved.normalize();
        if let Ok(d) = build_default(&moved) {
            if Model::of(&d).is_ok() {
                let x = sizes(&d)?;
                if x != base {
                    return differ("the graph rebuilt as a DefaultGraph", x);
                }
            }
        }

        // disjoint union with the second graph
        let mut second = h.clone();
        second.ids = c.extra[n..n + k].to_vec();
        if !second.is_valid() {
            return o.skip();
        }
        let other = sizes(&CGraph::new(&second))?;
        let mut all = second.clone();
        all.ids.extend_from_slice(&renamed.ids);
        all.adj.extend(renamed.adj.iter().map(|r| r.iter().map(|x| x + k).collect()));
        all.edges.extend(renamed.edges.iter().map(|&(a, b)| (a + k, b + k)));
        if !all.is_valid() {
            return o.skip();
        }
        let x = sizes(&CGraph::new(&all))?;
        if x != base + other {
            return Err(format!("the disjoint union has {x} pairs, its parts {base} and {other}"));
        }
        classify(o, c, &m);
        o.label_if(renamed.ids.contains(&usize::MAX), "renamed to the maximum id");
        o.label_if(k > 0 && n > 0, "proper union");
        Ok(())
    })
}
