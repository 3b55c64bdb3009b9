//! C27, C28, C29: work on demand; sharing between threads; the iterators' contract.

use crate::case::*;
use crate::checks_large::Hand;
use crate::choice::Src;
use crate::driver::Obs;
use crate::gen;
use crate::graphs::*;
use crate::oracle::*;
use crate::with_graph;
use gamma::graph::{DefaultGraph, Error, Graph};
use gamma::matching::{greedy, maximum_matching, Pairing};
use gamma::selection::components;
use gamma::traversal::{BreadthFirst, DepthFirst, Step};
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::fmt::Debug;

// ---- C27 ---------------------------------------------------------------------------------------

/// A Graph that notes whose neighbors it is asked for.
struct Asked<'a> {
    m: &'a Model,
    g: CGraph,
    log: RefCell<Vec<u32>>,
}

impl<'a> Asked<'a> {
    fn new(m: &'a Model) -> Self {
        let spec = GSpec { route: CUSTOM, ids: m.ids.clone(), edges: m.edges.clone(), adj: m.nbr.clone() };
        Asked { m, g: CGraph::new(&spec), log: RefCell::new(vec![0; m.n()]) }
    }
    fn reset(&self) {
        self.log.borrow_mut().fill(0);
    }
    fn asked(&self) -> Vec<u32> {
        self.log.borrow().clone()
    }
}

impl<'a> Graph for Asked<'a> {
    fn is_empty(&self) -> bool {
        self.g.is_empty()
    }
    fn order(&self) -> usize {
        self.g.order()
    }
    fn size(&self) -> usize {
        self.g.size()
    }
    fn nodes(&self) -> Box<dyn Iterator<Item = usize> + '_> {
        self.g.nodes()
    }
    fn neighbors(&self, id: usize) -> Result<Box<dyn Iterator<Item = usize> + '_>, Error> {
        if let Some(&v) = self.m.index.get(&id) {
            self.log.borrow_mut()[v] += 1;
        }
        self.g.neighbors(id)
    }
    fn has_node(&self, id: usize) -> bool {
        self.g.has_node(id)
    }
    fn degree(&self, id: usize) -> Result<usize, Error> {
        self.g.degree(id)
    }
    fn edges(&self) -> Box<dyn Iterator<Item = (usize, usize)> + '_> {
        self.g.edges()
    }
    fn has_edge(&self, sid: usize, tid: usize) -> Result<bool, Error> {
        self.g.has_edge(sid, tid)
    }
}

/// How often one algorithm may ask for the neighbors of one node. The library asks once.
const OFTEN: u32 = 8;

pub fn gen_c27(s: &mut Src) -> Case {
    let mut c = gen::graph_case(s, 18, 80, 1500, true);
    c.pairs.clear();
    c.extra = vec![s.below(6), s.below(40), s.below(4)];
    c
}

fn on_demand<'a, G: Graph, I: Iterator<Item = Step>>(
    what: &str,
    a: &Asked,
    root: usize,
    counts: &[usize],
    make: impl Fn() -> Result<I, Error>,
    _: &'a G,
) -> Res {
    let m = a.m;
    let id = m.ids[root];
    let say = |e: Error| format!("{what} from {id} failed: {e:?}");
    let all = take_steps(&mut make().map_err(say)?, m.edges.len())?;
    for &k in counts.iter().chain([&all.len()]) {
        let k = k.min(all.len());
        a.reset();
        let mut it = make().map_err(say)?;
        for _ in 0..k {
            it.next();
        }
        // one step of looking ahead is allowed
        let mut reached: BTreeSet<usize> = [id].into();
        all.iter().take(k + 1).for_each(|s| {
            reached.extend([s.sid, s.tid]);
        });
        for (v, &times) in a.asked().iter().enumerate() {
            if times > 0 && !reached.contains(&m.ids[v]) {
                return Err(format!("{what} from {id} asks for the neighbors of {} within {k} steps, which reach only {reached:?}; steps {}", m.ids[v], show(&all)));
            }
            if times > OFTEN {
                return Err(format!("{what} from {id} asks {times} times for the neighbors of {} within {k} steps; steps {}", m.ids[v], show(&all)));
            }
        }
    }
    Ok(())
}

pub fn run_c27(c: &Case, o: &mut Obs) -> Res {
    if c.root >= c.graph.n() {
        return o.skip();
    }
    // the enumerated cases draw no counts
    let counts: &[usize] = if c.extra.is_empty() { &[0, 1, 3] } else { &c.extra };
    let m = Model::of_spec(&c.graph);
    let a = Asked::new(&m);
    let id = m.ids[c.root];
    on_demand("depth-first", &a, c.root, counts, || DepthFirst::new(&a, id), &a)?;
    on_demand("breadth-first", &a, c.root, counts, || BreadthFirst::new(&a, id), &a)?;

    let label = m.component_labels();
    let mut firsts = label.clone();
    firsts.sort_unstable();
    firsts.dedup();
    for &j in counts.iter().chain([&m.n()]) {
        let j = j.min(firsts.len());
        a.reset();
        let mut it = components(&a);
        (0..j).for_each(|_| {
            it.next();
        });
        for (v, &times) in a.asked().iter().enumerate() {
            let rank = firsts.binary_search(&label[v]).unwrap();
            if times > 0 && rank > j {
                return Err(format!("the first {j} components ask for the neighbors of {}, which is in component {rank}", m.ids[v]));
            }
            if times > OFTEN {
                return Err(format!("components ask {times} times for the neighbors of {}", m.ids[v]));
            }
        }
    }
    a.reset();
    greedy(&a);
    if let Some(v) = a.asked().iter().position(|&t| t > OFTEN) {
        return Err(format!("greedy asks {} times for the neighbors of {}", a.asked()[v], m.ids[v]));
    }
    o.label_if(firsts.len() > 1, "2+ components");
    o.label_if(m.n() > 100, "over 100 nodes");
    o.nontrivial(m.nbr[c.root].len() > 0 && m.edges.len() >= 3);
    Ok(())
}

// ---- C28 ---------------------------------------------------------------------------------------

// Whether a type is Send or Sync, without failing to compile when it is not.
struct Is<T>(std::marker::PhantomData<T>);
#[allow(dead_code)]
trait No {
    fn send(&self) -> bool {
        false
    }
    fn sync(&self) -> bool {
        false
    }
}
impl<T> No for &Is<T> {}
trait YesSend {
    fn send(&self) -> bool {
        true
    }
}
impl<T: Send> YesSend for Is<T> {}
trait YesSync {
    fn sync(&self) -> bool {
        true
    }
}
impl<T: Sync> YesSync for Is<T> {}

macro_rules! shareable {
    ($t:ty) => {{
        let x: Is<$t> = Is(std::marker::PhantomData);
        let send = (&x).send();
        let sync = (&x).sync();
        if !send || !sync {
            return Err(format!("{} is {}Send and {}Sync", stringify!($t), if send { "" } else { "not " }, if sync { "" } else { "not " }));
        }
    }};
}

pub fn gen_c28(s: &mut Src) -> Case {
    let mut c = gen::graph_case(s, 16, 60, 300, true);
    if c.graph.route == CUSTOM {
        c.graph.route = ADDS;
        c.graph.normalize();
    }
    // threads, rounds, seed
    c.extra = vec![s.range(2, 4), s.range(1, 6), s.below(1 << 30)];
    c
}

/// What one thread does with a graph and a pairing that others use at the same time.
fn visitor(g: &DefaultGraph, twin: &DefaultGraph, p: &Pairing, m: &Model, mates: &[Option<usize>], rounds: usize, seed: u64, size: usize) -> Res {
    let n = m.n();
    let mut r = crate::checks_large::Rng(seed);
    macro_rules! same {
        ($what:expr, $got:expr, $exp:expr) => {{
            let (got, exp) = ($got, $exp);
            if got != exp {
                return Err(format!("{}: got {got:?}, expected {exp:?}", $what));
            }
        }};
    }
    let ids = |v: &[usize]| v.iter().map(|&x| m.ids[x]).collect::<Vec<usize>>();
    for round in 0..rounds {
        for _ in 0..60 {
            let (v, w) = (r.below(n), r.below(n));
            let (a, b) = (m.ids[v], m.ids[w]);
            match r.below(9) {
                0 | 1 => same!(format!("neighbors({a})"), g.neighbors(a).map(|i| i.collect::<Vec<_>>()), Ok(ids(&m.nbr[v]))),
                2 | 3 => same!(format!("has_edge({a},{b})"), g.has_edge(a, b), Ok(m.nbr[v].contains(&w))),
                4 => same!(format!("degree({a})"), g.degree(a), Ok(m.nbr[v].len())),
                5 => {
                    same!(format!("has_node({a})"), g.has_node(a), true);
                    let other = a ^ (1 + r.below(64));
                    same!(format!("has_node({other})"), g.has_node(other), m.index.contains_key(&other));
                }
                6 => same!("order and size", (g.order(), g.size(), g.is_empty()), (n, m.edges.len(), n == 0)),
                7 => {
                    same!(format!("paired({a})"), p.has_node(a), mates[v].is_some());
                    if let Some(b) = mates[v] {
                        same!(format!("mate({a})"), p.mate(a), b);
                    }
                }
                _ => {
                    let nobody = (0..).find(|x| !m.index.contains_key(x)).unwrap();
                    same!("missing node", g.has_edge(a, nobody), Err(Error::MissingNode(nobody)));
                }
            }
        }
        let root = r.below(n);
        match (round + r.below(2)) % 6 {
            0 => {
                let steps = take_steps(&mut DepthFirst::new(g, m.ids[root]).map_err(|e| format!("{e:?}"))?, m.edges.len())?;
                covers_component(m, root, &steps)?;
                depth_first_order(m, root, &steps)?;
            }
            1 => {
                let steps = take_steps(&mut BreadthFirst::new(g, m.ids[root]).map_err(|e| format!("{e:?}"))?, m.edges.len())?;
                covers_component(m, root, &steps)?;
                breadth_first_order(m, root, &steps)?;
            }
            2 => same!("nodes and edges", (g.nodes().collect::<Vec<_>>(), g.edges().count()), (m.ids.clone(), m.edges.len())),
            3 => {
                let label = m.component_labels();
                let parts: BTreeSet<usize> = label.iter().copied().collect();
                same!("number of components", components(g).take(n + 1).count(), parts.len());
            }
            4 => {
                same!("equality", g == twin, true);
                let mut q = Pairing::new();
                maximum_matching(g, &mut q);
                same!("paired nodes", q.order(), 2 * size);
            }
            _ => {
                let map = pair_edges(&greedy(g))?;
                pairs_in_graph(m, &map)?;
                let map = pair_edges(p)?;
                for v in 0..n {
                    same!(format!("pair of {}", m.ids[v]), map.get(&m.ids[v]).copied(), mates[v]);
                }
            }
        }
    }
    Ok(())
}

pub fn run_c28(c: &Case, o: &mut Obs) -> Res {
    shareable!(DefaultGraph);
    shareable!(Pairing);
    shareable!(Error);
    shareable!(Step);
    let &[threads, rounds, seed] = c.extra.as_slice() else { return o.skip() };
    if c.graph.n() == 0 || threads == 0 || threads > 8 || rounds > 1000 || c.graph.route == CUSTOM {
        return o.skip();
    }
    let (Ok(g), Ok(twin)) = (build_default(&c.graph), build_default(&c.graph)) else { return o.skip() };
    // the twin answers alone what the graph is asked by all at once
    let Ok(m) = Model::of(&twin) else { return o.skip() };
    if m.n() == 0 {
        return o.skip();
    }
    let mut p = Pairing::new();
    let mut mates = vec![None; m.n()];
    for &(a, b) in &c.pairs {
        if a >= c.graph.n() || b >= c.graph.n() || a == b {
            return o.skip();
        }
        let (a, b) = (c.graph.ids[a], c.graph.ids[b]);
        let (Some(&i), Some(&j)) = (m.index.get(&a), m.index.get(&b)) else { return o.skip() };
        if mates[i].is_some() || mates[j].is_some() {
            return o.skip();
        }
        mates[i] = Some(b);
        mates[j] = Some(a);
        p.pair(a, b);
    }
    let mut q = Pairing::new();
    maximum_matching(&twin, &mut q);
    let size = pair_edges(&q)?.len() / 2;
    // what each visitor finds when it is alone, with the twin
    let alone: Vec<Option<String>> = (0..threads)
        .map(|t| {
            let f = || visitor(&twin, &g, &p, &m, &mates, rounds, (seed * 31 + t) as u64, size);
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
                Ok(r) => r.err(),
                Err(_) => Some(format!("panics: {}", crate::driver::last_panic())),
            }
        })
        .collect();
    let gate = std::sync::Barrier::new(threads);
    let (g, twin, p, m, mates, gate) = (&g, &twin, &p, &m, &mates, &gate);
    let results: Vec<Res> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let f = Hand::new(move || {
                    gate.wait();
                    visitor(g, twin, p, m, mates, rounds, (seed * 31 + t) as u64, size)
                });
                let f = move || std::panic::catch_unwind(std::panic::AssertUnwindSafe(f.take())).map_err(|_| crate::driver::last_panic());
                std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(s, f).expect("thread")
            })
            .collect();
        hs.into_iter()
            .map(|h| match h.join() {
                Ok(Ok(r)) => r,
                Ok(Err(m)) => Err(format!("panics: {m}")),
                Err(_) => Err("panics".into()),
            })
            .collect()
    });
    for (r, alone) in results.into_iter().zip(alone) {
        match r {
            // wrong, but not for want of company
            Err(e) if Some(&e) == alone.as_ref() => return o.skip(),
            r => r.map_err(|e| format!("with {threads} threads: {e}"))?,
        }
    }
    o.label(&format!("{threads} threads"));
    o.nontrivial(threads > 1 && m.edges.len() >= 3);
    Ok(())
}

// ---- C29 ---------------------------------------------------------------------------------------

pub fn gen_c29(s: &mut Src) -> Case {
    let mut c = gen::graph_case(s, 16, 60, 400, true);
    c.extra = (0..s.range(3, 14)).map(|_| s.pick(&[0usize, 0, 1, 2, 0, 3, 1, 5, 9])).collect();
    c
}

/// Iterators that make() gives yield items with the keys `want`, in whatever way they are asked.
fn contract<T: PartialEq + Debug + Clone, I: Iterator>(what: &str, want: &[T], moves: &[usize], key: impl Fn(I::Item) -> T, make: impl Fn() -> I) -> Res {
    let n = want.len();
    let fits = |it: &I, left: usize, when: String| -> Res {
        let (lo, hi) = it.size_hint();
        if lo > left || hi.map_or(false, |h| h < left) {
            return Err(format!("{what}: size_hint is ({lo}, {hi:?}) {when}, with {left} items to come"));
        }
        Ok(())
    };
    macro_rules! same {
        ($how:expr, $got:expr, $exp:expr) => {{
            let (got, exp) = ($got, $exp);
            if got != exp {
                return Err(format!("{what}, {}: got {got:?}, expected {exp:?} of {want:?}", $how));
            }
        }};
    }
    // one by one
    let mut it = make();
    for k in 0..n {
        fits(&it, n - k, format!("after {k} items"))?;
        same!(format!("item {k}"), it.next().map(&key), want.get(k).cloned());
    }
    fits(&it, 0, "at the end".into())?;
    for _ in 0..2 {
        same!("after the last item", it.next().map(&key), None);
        fits(&it, 0, "after the last item and a call beyond".into())?;
    }
    // jumps
    let mut it = make();
    let mut at = 0;
    for &k in moves {
        same!(format!("nth({k}) after {at} items"), it.nth(k).map(&key), want.get(at + k).cloned());
        at += k + 1;
        if at >= n {
            same!(format!("after the last item, by nth({k})"), it.next().map(&key), None);
            fits(&it, 0, format!("after the last item, by nth({k})"))?;
            same!("nth after the last item", it.nth(k).map(&key), None);
            break;
        }
        fits(&it, n - at, format!("after {at} items, by nth"))?;
    }
    if at < n {
        let rest = it.fold(vec![], |mut v, x| {
            v.push(key(x));
            v
        });
        same!(format!("the rest after {at} items"), rest, want[at..].to_vec());
    }
    // shortcuts, after some items
    let k = moves.first().copied().unwrap_or(0).min(n);
    let skip = || {
        let mut it = make();
        (0..k).for_each(|_| {
            it.next();
        });
        it
    };
    let rest = &want[k..];
    same!(format!("count after {k} items"), skip().count(), rest.len());
    same!(format!("last after {k} items"), skip().last().map(&key), rest.last().cloned());
    same!(format!("collect after {k} items"), skip().collect::<Vec<_>>().into_iter().map(&key).collect::<Vec<_>>(), rest.to_vec());
    let step = moves.last().copied().unwrap_or(0) + 1;
    same!(format!("every {step}th after {k} items"), skip().step_by(step).map(&key).collect::<Vec<_>>(), rest.iter().step_by(step).cloned().collect::<Vec<_>>());
    same!(format!("skip({k})"), make().skip(k).map(&key).collect::<Vec<_>>(), rest.to_vec());
    if let Some(x) = rest.get(rest.len() / 2) {
        // searches stop at the first match and go on from there
        let first = rest.iter().position(|y| y == x).unwrap();
        let mut it = skip();
        same!(format!("find {x:?} after {k} items"), it.find(|_| true).map(&key), rest.first().cloned());
        let mut it2 = skip();
        same!(format!("position of {x:?} after {k} items"), it2.position(|y| &key(y) == x), Some(first));
        same!(format!("what follows the position of {x:?}"), it2.map(&key).collect::<Vec<_>>(), rest[first + 1..].to_vec());
        let mut it3 = skip();
        same!(format!("any {x:?} after {k} items"), it3.any(|y| &key(y) == x), true);
        same!(format!("what follows the first {x:?}"), it3.map(&key).collect::<Vec<_>>(), rest[first + 1..].to_vec());
        let mut asked = 0;
        let all = skip().all(|_| {
            asked += 1;
            true
        });
        same!(format!("all after {k} items"), (all, asked), (true, rest.len()));
        let mut seen = vec![];
        it.for_each(|y| seen.push(key(y)));
        same!(format!("for_each after {} items", k + 1), seen, rest[1..].to_vec());
    }
    let mut it = make();
    let head: Vec<T> = it.by_ref().take(k).map(&key).collect();
    same!(format!("take({k})"), head, want[..k].to_vec());
    same!(format!("what follows take({k})"), it.map(&key).collect::<Vec<_>>(), rest.to_vec());
    Ok(())
}

pub fn run_c29(c: &Case, o: &mut Obs) -> Res {
    if c.extra.iter().any(|&x| x > 1 << 20) {
        return o.skip();
    }
    let Ok(built) = build(&c.graph) else { return o.skip() };
    let moves = &c.extra;
    with_graph!(built, g => {
        let Ok(m) = Model::of(g) else { return o.skip() };
        // our own implementation is not under test
        if c.graph.route != CUSTOM {
            contract("nodes", &m.ids, moves, |x| x, || g.nodes())?;
            let edges: Vec<_> = m.edges.iter().map(|&(a, b)| (m.ids[a], m.ids[b])).collect();
            contract("edges", &edges, moves, |x| x, || g.edges())?;
            for (v, row) in m.nbr.iter().enumerate().take(40) {
                let want: Vec<_> = row.iter().map(|&x| m.ids[x]).collect();
                contract(&format!("neighbors({})", m.ids[v]), &want, moves, |x| x, || g.neighbors(m.ids[v]).expect("neighbors"))?;
            }
        }
        if let Some(&id) = c.graph.ids.get(c.root) {
            let key = |s: Step| (s.sid, s.tid, s.cut);
            let (Ok(mut d), Ok(mut b)) = (DepthFirst::new(g, id), BreadthFirst::new(g, id)) else { return o.skip() };
            let d: Vec<_> = take_steps(&mut d, m.edges.len())?.into_iter().map(key).collect();
            let b: Vec<_> = take_steps(&mut b, m.edges.len())?.into_iter().map(key).collect();
            contract("depth-first", &d, moves, key, || DepthFirst::new(g, id).expect("root"))?;
            contract("breadth-first", &b, moves, key, || BreadthFirst::new(g, id).expect("root"))?;
            o.label_if(d.len() > 20, "over 20 steps");
        }
        if m.n() <= 200 {
            let key = |h: DefaultGraph| (h.nodes().collect::<Vec<_>>(), h.edges().collect::<Vec<_>>());
            let comps: Vec<_> = components(g).take(m.n() + 1).map(key).collect();
            contract("components", &comps, moves, key, || components(g))?;
            o.label_if(comps.len() > 2, "3+ components");
        }
        let p = greedy(g);
        let pairs: Vec<_> = p.edges().collect();
        contract("pairs", &pairs, moves, |x| x, || p.edges())?;
        o.nontrivial(m.edges.len() >= 3 && m.n() >= 3);
        Ok(())
    })
}
