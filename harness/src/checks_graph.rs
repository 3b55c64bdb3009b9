//! C01 - C06: graph construction, mutation, queries, equality.

use crate::case::*;
use crate::choice::Src;
use crate::driver::Obs;
use crate::gen;
use crate::graphs::*;
use crate::oracle::*;
use gamma::graph::{DefaultGraph, Error, Graph};
use gamma::traversal::{BreadthFirst, DepthFirst};
use std::collections::{BTreeSet, HashMap, HashSet};
use std::convert::TryFrom;

/// Model of a DefaultGraph under additions.
#[derive(Clone, Debug, Default)]
pub struct GModel {
    pub view: View0,
    rows: HashMap<usize, usize>,
    set: HashSet<(usize, usize)>,
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct View0 {
    pub ids: Vec<usize>,
    pub nbr: Vec<Vec<usize>>,
    pub edges: Vec<(usize, usize)>,
}

impl GModel {
    pub fn of_spec(s: &GSpec) -> Self {
        let v = View::of_spec(s);
        let rows = v.ids.iter().enumerate().map(|(i, &id)| (id, i)).collect();
        let set = v.edges.iter().map(|&(a, b)| (a.min(b), a.max(b))).collect();
        GModel { view: View0 { ids: v.ids, nbr: v.nbr, edges: v.edges }, rows, set }
    }
    pub fn row(&self, id: usize) -> Option<usize> {
        self.rows.get(&id).copied()
    }
    pub fn has_edge(&self, a: usize, b: usize) -> bool {
        self.set.contains(&(a.min(b), a.max(b)))
    }
    pub fn expect(&self, op: &Op) -> Expect {
        match *op {
            Op::Node(id) => {
                if self.row(id).is_some() {
                    Expect::DuplicateNode(id)
                } else {
                    Expect::Accept
                }
            }
            Op::Edge(a, b) => match (self.row(a), self.row(b)) {
                (Some(_), Some(_)) if self.has_edge(a, b) => Expect::DuplicateEdge(a, b),
                (Some(_), Some(_)) => Expect::Accept,
                (None, Some(_)) => Expect::Missing(vec![a]),
                (Some(_), None) => Expect::Missing(vec![b]),
                (None, None) => Expect::Missing(vec![a, b]),
            },
            _ => unreachable!(),
        }
    }
    pub fn apply(&mut self, op: &Op) {
        match *op {
            Op::Node(id) => {
                self.rows.insert(id, self.view.ids.len());
                self.view.ids.push(id);
                self.view.nbr.push(vec![]);
            }
            Op::Edge(a, b) => {
                let (i, j) = (self.row(a).unwrap(), self.row(b).unwrap());
                self.view.nbr[i].push(b);
                if i != j {
                    self.view.nbr[j].push(a);
                }
                self.view.edges.push((a, b));
                self.set.insert((a.min(b), a.max(b)));
            }
            _ => unreachable!(),
        }
    }
    pub fn as_view(&self) -> View {
        View { ids: self.view.ids.clone(), nbr: self.view.nbr.clone(), edges: self.view.edges.clone() }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Expect {
    Accept,
    DuplicateNode(usize),
    DuplicateEdge(usize, usize),
    Missing(Vec<usize>),
}

impl Expect {
    fn matches(&self, got: &Result<(), Error>) -> bool {
        match (self, got) {
            (Expect::Accept, Ok(())) => true,
            (Expect::DuplicateNode(a), Err(Error::DuplicateNode(b))) => a == b,
            (Expect::DuplicateEdge(a, b), Err(Error::DuplicateEdge(c, d))) => a == c && b == d,
            (Expect::Missing(ids), Err(Error::MissingNode(b))) => ids.contains(b),
            _ => false,
        }
    }
}

fn apply_real(g: &mut DefaultGraph, op: &Op) -> Result<(), Error> {
    match *op {
        Op::Node(id) => g.add_node(id),
        Op::Edge(a, b) => g.add_edge(a, b),
        _ => unreachable!(),
    }
}

// ---- histories -------------------------------------------------------------------------------

/// Operations over a pool of ids; `valid` of every 8 operations are made acceptable on purpose.
pub fn ops(s: &mut Src, start: &GSpec, valid: usize, max_ops: usize) -> Vec<Op> {
    let long = s.large(500);
    let psize = if long { s.pick(&[60usize, 20, 200]) } else { s.pick(&[4usize, 3, 6, 9, 16, 30]) };
    let mut pool = gen::pool(s, psize);
    // ids of the starting graph, and ids next to them
    pool.extend(start.ids.iter().copied().take(12));
    pool.extend(start.ids.iter().map(|x| x.wrapping_add(1)).take(3));
    pool.push(start.n());
    let mut m = GModel::of_spec(start);
    let count = if long { s.range(100, 800) } else { s.below(max_ops + 1) };
    let mut drawn = Src::owned(if long { s.bulk(12 * count) } else { vec![] });
    let s = if long { &mut drawn } else { &mut *s };
    let mut out = vec![];
    for k in 0..count {
        if long && k < psize {
            // nodes first, so that many edges follow
            let op = Op::Node(pool[k]);
            if m.expect(&op) == Expect::Accept {
                m.apply(&op);
            }
            out.push(op);
            continue;
        }
        let mut op = if s.chance(2, 3) {
            Op::Edge(s.pick(&pool), s.pick(&pool))
        } else {
            Op::Node(s.pick(&pool))
        };
        if s.below(8) < valid {
            // steer to an acceptable operation of the kind
            match op {
                Op::Edge(..) if !m.view.ids.is_empty() => {
                    for _ in 0..3 {
                        let a = m.view.ids[s.below(m.view.ids.len())];
                        let b = m.view.ids[s.below(m.view.ids.len())];
                        op = Op::Edge(a, b);
                        if m.expect(&op) == Expect::Accept {
                            break;
                        }
                    }
                }
                _ => {
                    if let Some(&id) = pool.iter().find(|&&id| m.row(id).is_none()) {
                        op = Op::Node(id)
                    }
                }
            }
        }
        if m.expect(&op) == Expect::Accept {
            m.apply(&op);
        }
        out.push(op);
    }
    out
}

fn start_graph(s: &mut Src) -> GSpec {
    let mut g = match s.below(4) {
        0 => GSpec { route: ADDS, ..GSpec::default() },
        _ => {
            let (sh, _) = gen::shape(s, 8, 30, 200);
            gen::present(s, sh, true).0
        }
    };
    if g.route == CUSTOM {
        g.route = ADDS;
        g.normalize();
    }
    g
}

pub fn gen_c01(s: &mut Src) -> Case {
    let graph = start_graph(s);
    let max = s.pick(&[20usize, 40, 40, 120]);
    let ops = ops(s, &graph, 7, max);
    // extra[0]: 0 = start from the graph, 1 = start from the graph made of a traversal of it
    let via = s.chance(1, 5) as usize;
    let root = s.below(graph.n());
    Case { graph, ops, root, extra: vec![via], ..Case::default() }
}

/// The starting graph and its model; None when construction itself misbehaves (other properties).
fn start(c: &Case) -> Option<(DefaultGraph, GModel)> {
    let g = build_default(&c.graph).ok()?;
    if c.extra.first() == Some(&1) && c.graph.n() > 0 && c.root < c.graph.n() {
        let m = Model::of(&g).ok()?;
        let t = DepthFirst::new(&g, c.graph.ids[c.root]).ok()?;
        let steps = take_steps(&mut DepthFirst::new(&g, c.graph.ids[c.root]).ok()?, m.edges.len()).ok()?;
        covers_component(&m, m.index[&c.graph.ids[c.root]], &steps).ok()?;
        let h = DefaultGraph::try_from(t).ok()?;
        let mut model = GModel::default();
        for s in &steps {
            for id in [s.sid, s.tid] {
                if model.row(id).is_none() {
                    model.apply(&Op::Node(id));
                }
            }
            model.apply(&Op::Edge(s.sid, s.tid));
        }
        return Some((h, model));
    }
    Some((g, GModel::of_spec(&c.graph)))
}

pub fn run_c01(c: &Case, o: &mut Obs) -> Res {
    let Some((mut g, mut m)) = start(c) else { return o.skip() };
    let route = if c.extra.first() == Some(&1) { "traversal" } else { ROUTES[c.graph.route as usize] };
    compare_all(&g, &m.as_view()).map_err(|e| format!("after construction by {route}: {e}"))?;
    let every = match m.view.ids.len() + c.ops.len() {
        0..=60 => 1,
        61..=250 => 7,
        251..=4000 => 61,
        k => k / 3,
    };
    let mut accepted = 0;
    let mut loops = m.view.edges.iter().any(|(a, b)| a == b);
    for (k, op) in c.ops.iter().enumerate() {
        let want = m.expect(op);
        let got = apply_real(&mut g, op);
        if got.is_ok() && matches!(want, Expect::Missing(_)) {
            // which calls are accepted is C02's concern
            return o.skip();
        }
        if got.is_ok() {
            // an accepted duplicate adds no node and no edge
            if want == Expect::Accept {
                m.apply(op);
            }
            accepted += 1;
            loops |= matches!(op, Op::Edge(a, b) if a == b);
            if k % every == 0 || k + 1 == c.ops.len() {
                compare_all(&g, &m.as_view()).map_err(|e| format!("after operation {k} {op:?}: {e}"))?;
            }
        }
    }
    compare_all(&g, &m.as_view()).map_err(|e| format!("at the end: {e}"))?;
    if m.view.edges.len() <= 400 && again(&m).any(|op| apply_real(&mut g, &op).is_ok()) {
        compare_all(&g, &m.as_view()).map_err(|e| format!("after everything was added again: {e}"))?;
    }
    o.label(&format!("start {route}"));
    o.label_if(loops, "with a loop");
    o.label_if(accepted >= 20, "20+ accepted additions");
    o.nontrivial(accepted >= 2 && m.view.edges.len() >= 2);
    Ok(())
}

/// Calls that add each node and edge once more, edges in both directions.
fn again(m: &GModel) -> impl Iterator<Item = Op> + '_ {
    let edges = m.view.edges.iter().flat_map(|&(a, b)| [Op::Edge(b, a), Op::Edge(a, b)]);
    m.view.ids.iter().map(|&id| Op::Node(id)).chain(edges)
}

pub fn gen_c02(s: &mut Src) -> Case {
    let graph = start_graph(s);
    let max = s.pick(&[12usize, 30, 60]);
    let ops = ops(s, &graph, 3, max);
    Case { graph, ops, ..Case::default() }
}

pub fn run_c02(c: &Case, o: &mut Obs) -> Res {
    let (Ok(mut g), Ok(mut twin)) = (build_default(&c.graph), build_default(&c.graph)) else { return o.skip() };
    let mut m = GModel::of_spec(&c.graph);
    if View::of(&g).as_ref() != Ok(&m.as_view()) {
        return o.skip();
    }
    let (mut refused, mut after) = (0, 0);
    let huge = m.view.ids.len() + c.ops.len() > 4000;
    for (k, op) in c.ops.iter().enumerate() {
        let want = m.expect(op);
        if want == Expect::Accept {
            let got = apply_real(&mut g, op);
            if !want.matches(&got) {
                return Err(format!("operation {k} {op:?}: got {got:?}, should be accepted"));
            }
            m.apply(op);
            let t = apply_real(&mut twin, op);
            if t.is_err() {
                return Err(format!("operation {k} {op:?} is refused with {t:?} by a graph that was never refused anything"));
            }
            after += (refused > 0) as usize;
        } else {
            // every refusal is looked at, in huge graphs only some
            let look = !huge || refused < 4;
            let before = look.then(|| snapshot(&g, &m));
            let got = apply_real(&mut g, op);
            if !want.matches(&got) {
                return Err(format!("operation {k} {op:?}: got {got:?}, expected {want:?}"));
            }
            let now = look.then(|| snapshot(&g, &m));
            if before != now {
                return Err(format!("operation {k} {op:?} was refused with {got:?} but changed the graph: {before:?} became {now:?}"));
            }
            o.label(match want {
                Expect::DuplicateNode(_) => "refused: duplicate node",
                Expect::DuplicateEdge(a, b) if a == b => "refused: duplicate loop",
                Expect::DuplicateEdge(..) => "refused: duplicate edge",
                Expect::Missing(ref v) if v.len() == 2 => "refused: both ends missing",
                _ => "refused: end missing",
            });
            refused += 1;
        }
    }
    if m.view.edges.len() <= 400 {
        for op in again(&m) {
            let got = apply_real(&mut g, &op);
            if !m.expect(&op).matches(&got) {
                return Err(format!("{op:?} after the history: got {got:?}, expected {:?}", m.expect(&op)));
            }
        }
    }
    // nothing of the refused calls may surface later either
    if snapshot(&g, &m) != snapshot(&twin, &m) {
        return Err(format!("differs from a graph that got only the accepted calls: {:?} and {:?}", snapshot(&g, &m), snapshot(&twin, &m)));
    }
    // what makes all graphs unequal is for C05
    if twin == twin && (g != twin || twin != g) {
        return Err(format!("is not equal to a graph that got only the accepted calls: {:?}", snapshot(&g, &m)));
    }
    o.nontrivial(refused > 0 && after > 0);
    Ok(())
}

/// Everything queries tell about the graph, without judging it.
#[derive(Debug, PartialEq)]
struct Snapshot {
    counts: (bool, usize, usize),
    nodes: Vec<usize>,
    edges: Vec<(usize, usize)>,
    rows: Vec<(usize, bool, Result<Vec<usize>, Error>, Result<usize, Error>)>,
    has: Vec<Result<bool, Error>>,
}

fn snapshot<G: Graph>(g: &G, m: &GModel) -> Snapshot {
    let nodes: Vec<usize> = g.nodes().collect();
    let mut probe: Vec<usize> = m.view.ids.clone();
    probe.extend(nodes.iter().copied());
    probe.sort_unstable();
    probe.dedup();
    let mut has = vec![];
    for &a in probe.iter().take(12) {
        for &b in probe.iter().take(12) {
            has.push(g.has_edge(a, b));
        }
    }
    if probe.len() > 12 {
        for (i, &a) in probe.iter().enumerate() {
            has.push(g.has_edge(a, probe[(i + 1) % probe.len()]));
        }
        let edges = &m.view.edges;
        for &(a, b) in edges.iter().take(30).chain(edges.iter().rev().take(30)) {
            has.push(g.has_edge(a, b));
            has.push(g.has_edge(b, a));
        }
    }
    Snapshot {
        counts: (g.is_empty(), g.order(), g.size()),
        edges: g.edges().collect(),
        rows: probe
            .iter()
            .map(|&id| (id, g.has_node(id), g.neighbors(id).map(|i| i.collect()), g.degree(id)))
            .collect(),
        nodes,
        has,
    }
}

// ---- exhaustive histories ----------------------------------------------------------------------

/// All operation sequences up to a length over three ids.
pub fn all_histories(len: usize, emit: &mut dyn FnMut(usize, &dyn Fn() -> Case) -> bool) {
    let ids = [0usize, 1, usize::MAX];
    let mut alphabet = vec![];
    for &a in &ids {
        alphabet.push(Op::Node(a));
    }
    for &a in &ids {
        for &b in &ids {
            alphabet.push(Op::Edge(a, b));
        }
    }
    let k = alphabet.len();
    let mut index = 0;
    for l in 0..=len {
        for code in 0..k.pow(l as u32) {
            let alphabet = &alphabet;
            let make = move || {
                let mut c = code;
                let ops = (0..l)
                    .map(|_| {
                        let op = alphabet[c % k].clone();
                        c /= k;
                        op
                    })
                    .collect();
                Case { graph: GSpec { route: ADDS, ..GSpec::default() }, ops, ..Case::default() }
            };
            if !emit(index, &make) {
                return;
            }
            index += 1;
        }
    }
}

// ---- C03 ---------------------------------------------------------------------------------------

pub fn gen_c03(s: &mut Src) -> Case {
    let mut rows: Vec<Vec<usize>>;
    if s.chance(1, 6) {
        let n = s.below(5);
        rows = (0..n)
            .map(|_| {
                let l = s.below(4);
                (0..l).map(|_| s.below(n + 1)).collect()
            })
            .collect();
    } else {
        let (sh, _) = gen::shape(s, 12, 60, 600);
        let (mut g, _) = gen::present(s, sh, true);
        g.route = ADJACENCY;
        g.normalize();
        rows = g.adj;
        let defects = s.pick(&[0usize, 1, 0, 1, 2, 3]);
        for _ in 0..defects {
            if rows.is_empty() {
                break;
            }
            let n = rows.len();
            let r = s.below(n);
            let l = rows[r].len();
            match s.below(5) {
                0 => {
                    // an id that is no row
                    let x = s.pick(&[n, n + 1, usize::MAX, 1 << 32, n, 2 * n]);
                    let at = s.below(l + 1);
                    rows[r].insert(at, x)
                }
                1 if l > 0 => {
                    // a repeated entry
                    let x = rows[r][s.below(l)];
                    let at = s.below(l + 1);
                    rows[r].insert(at, x)
                }
                2 if l > 0 => {
                    // one direction removed
                    let at = s.below(l);
                    rows[r].remove(at);
                }
                3 => {
                    // one direction added
                    let x = s.below(n);
                    let at = s.below(l + 1);
                    rows[r].insert(at, x)
                }
                _ if l > 0 => {
                    // an entry changed
                    let at = s.below(l);
                    rows[r][at] = s.below(n);
                }
                _ => {}
            }
        }
    }
    Case { rows, ..Case::default() }
}

pub fn run_c03(c: &Case, o: &mut Obs) -> Res {
    let rows = &c.rows;
    let n = rows.len();
    let missing_node = rows.iter().flatten().any(|&x| x >= n);
    let sets: Vec<HashSet<usize>> = rows.iter().map(|r| r.iter().copied().filter(|_| r.len() > 16).collect()).collect();
    let lists = |a: usize, b: usize| if rows[a].len() > 16 { sets[a].contains(&b) } else { rows[a].contains(&b) };
    let duplicate = rows
        .iter()
        .zip(&sets)
        .any(|(r, s)| if r.len() > 16 { s.len() < r.len() } else { (0..r.len()).any(|i| r[..i].contains(&r[i])) });
    let one_way = (0..n).any(|a| rows[a].iter().any(|&b| b < n && !lists(b, a)));
    let valid = !missing_node && !duplicate && !one_way;
    match DefaultGraph::try_from(rows.clone()) {
        Ok(g) => {
            if !valid {
                return Err(format!("accepted invalid rows {rows:?}"));
            }
            let mut edges = vec![];
            for (a, r) in rows.iter().enumerate() {
                edges.extend(r.iter().filter(|&&b| a <= b).map(|&b| (a, b)));
            }
            let want = View { ids: (0..n).collect(), nbr: rows.clone(), edges };
            compare_all(&g, &want).map_err(|e| format!("rows {rows:?}: {e}"))?;
            o.label("valid");
            o.label_if((0..n).any(|a| lists(a, a)), "valid with a loop");
            o.nontrivial(want.edges.len() >= 2);
        }
        Err(e) => {
            if valid {
                return Err(format!("refused valid rows {rows:?} with {e:?}"));
            }
            let truthful = match e {
                Error::MissingNode(x) => x >= n && rows.iter().flatten().any(|&y| y == x),
                Error::DuplicateEdge(a, b) => a < n && rows[a].iter().filter(|&&x| x == b).count() > 1,
                Error::MissingEdge(a, b) => a < n && b < n && !lists(a, b) && lists(b, a),
                Error::DuplicateNode(_) => false,
            };
            if !truthful {
                return Err(format!("rows {rows:?} are refused with {e:?}, which is not so"));
            }
            o.label(match e {
                Error::MissingNode(_) => "refused: missing node",
                Error::DuplicateEdge(..) => "refused: duplicate edge",
                _ => "refused: missing edge",
            });
            o.nontrivial(true);
        }
    }
    Ok(())
}

/// All rows with at most `max_rows` rows of at most `max_len` entries below rows + 1.
pub fn all_rows(max_rows: usize, max_len: usize, emit: &mut dyn FnMut(usize, &dyn Fn() -> Case) -> bool) {
    let mut index = 0;
    for n in 0..=max_rows {
        let base = n + 1;
        let mut sequences: Vec<Vec<usize>> = vec![];
        for l in 0..=max_len {
            for code in 0..base.pow(l as u32) {
                let mut c = code;
                sequences.push(
                    (0..l)
                        .map(|_| {
                            let x = c % base;
                            c /= base;
                            x
                        })
                        .collect(),
                );
            }
        }
        let k = sequences.len();
        for code in 0..k.pow(n as u32) {
            let sequences = &sequences;
            let make = move || {
                let mut c = code;
                let rows = (0..n)
                    .map(|_| {
                        let r = sequences[c % k].clone();
                        c /= k;
                        r
                    })
                    .collect();
                Case { rows, ..Case::default() }
            };
            if !emit(index, &make) {
                return;
            }
            index += 1;
        }
    }
}

// ---- C04 ---------------------------------------------------------------------------------------

pub fn gen_c04(s: &mut Src) -> Case {
    let mut list: Vec<(usize, usize)>;
    if s.chance(1, 3) {
        let k = s.range(1, 8);
        let pool = gen::pool(s, k);
        let l = s.below(14);
        list = (0..l).map(|_| (s.pick(&pool), s.pick(&pool))).collect();
    } else {
        let (sh, _) = gen::shape(s, 14, 80, 600);
        let (mut g, _) = gen::present(s, sh, true);
        if g.route == ADJACENCY {
            g.ids = gen::pool(s, g.n());
        }
        list = g.edges.iter().map(|&(a, b)| (g.ids[a], g.ids[b])).collect();
        if s.chance(1, 2) && !list.is_empty() {
            for _ in 0..s.range(1, 2) {
                let (a, b) = list[s.below(list.len())];
                let e = if s.chance(1, 2) { (b, a) } else { (a, b) };
                let at = s.below(list.len() + 1);
                list.insert(at, e);
            }
        }
    }
    Case { list, ..Case::default() }
}

pub fn run_c04(c: &Case, o: &mut Obs) -> Res {
    let list = &c.list;
    let mut seen = BTreeSet::new();
    let repeated = list.iter().find(|&&(a, b)| !seen.insert((a.min(b), a.max(b)))).copied();
    match (DefaultGraph::try_from(list.clone()), repeated) {
        (Ok(_), Some(e)) => return Err(format!("accepted {list:?}, which repeats {e:?}")),
        (Err(e), None) => return Err(format!("refused {list:?}, which repeats no edge, with {e:?}")),
        (Err(e), Some((a, b))) => {
            if e != Error::DuplicateEdge(a, b) {
                return Err(format!("{list:?}: refused with {e:?} instead of DuplicateEdge({a}, {b})"));
            }
            o.label("refused");
            o.nontrivial(true);
        }
        (Ok(g), None) => {
            let mut m = GModel::default();
            for &(a, b) in list {
                for id in [a, b] {
                    if m.row(id).is_none() {
                        m.apply(&Op::Node(id));
                    }
                }
                m.apply(&Op::Edge(a, b));
            }
            compare_all(&g, &m.as_view()).map_err(|e| format!("{list:?}: {e}"))?;
            o.label("valid");
            o.label_if(list.iter().any(|(a, b)| a == b), "valid with a loop");
            o.nontrivial(list.len() >= 2);
        }
    }
    Ok(())
}

pub fn all_lists(ids: &'static [usize], max_len: usize, emit: &mut dyn FnMut(usize, &dyn Fn() -> Case) -> bool) {
    let k = ids.len() * ids.len();
    let mut index = 0;
    for l in 0..=max_len {
        for code in 0..k.pow(l as u32) {
            let make = move || {
                let mut c = code;
                let list = (0..l)
                    .map(|_| {
                        let x = c % k;
                        c /= k;
                        (ids[x / ids.len()], ids[x % ids.len()])
                    })
                    .collect();
                Case { list, ..Case::default() }
            };
            if !emit(index, &make) {
                return;
            }
            index += 1;
        }
    }
}

// ---- C05 ---------------------------------------------------------------------------------------

pub fn gen_c05(s: &mut Src) -> Case {
    let (sh, _) = gen::shape(s, 10, 50, 600);
    let (mut g, _) = gen::present(s, sh, true);
    if g.route == CUSTOM {
        g.route = ADDS;
        g.normalize();
    }
    let mut h = g.clone();
    // another order and route
    let n = h.n();
    let mut perm: Vec<usize> = (0..n).collect();
    s.shuffle(&mut perm);
    let mut ids = vec![0; n];
    for v in 0..n {
        ids[perm[v]] = h.ids[v];
    }
    h.ids = ids;
    h.edges = h.edges.iter().map(|&(a, b)| (perm[a], perm[b])).collect();
    s.shuffle(&mut h.edges);
    // 0-2 edits; or many at once: another labelling, exchanges that keep all degrees, other edges
    let style = s.pick(&[0usize, 0, 0, 0, 1, 2, 3]);
    if style == 1 {
        let k = if s.chance(1, 2) { 2.min(n) } else { n };
        let mut ids = h.ids.clone();
        s.shuffle(&mut ids[..k]);
        h.ids = ids;
    } else if style == 3 && n > 0 {
        let m = h.edges.len();
        let mut seen: BTreeSet<(usize, usize)> = BTreeSet::new();
        let keep = s.below(m + 1);
        h.edges.truncate(keep);
        seen.extend(h.edges.iter().map(|&(a, b)| (a.min(b), a.max(b))));
        let draws = s.bulk(4 * m);
        let mut t = Src::new(&draws);
        for _ in 0..2 * m {
            let (a, b) = (t.below(n), t.below(n));
            if h.edges.len() < m && a != b && seen.insert((a.min(b), a.max(b))) {
                h.edges.push((a, b));
            }
        }
    }
    let edits = match style {
        0 => s.pick(&[0usize, 1, 0, 1, 2]),
        2 => 2 * h.edges.len().min(20),
        _ => 0,
    };
    for _ in 0..edits {
        let m = h.edges.len();
        match if style == 2 { 2 } else { s.below(6) } {
            0 if m > 0 && n > 1 => {
                // move one end of an edge
                let k = s.below(m);
                let (a, _) = h.edges[k];
                let b = s.below(n);
                if !h.edges.iter().any(|&e| e == (a, b) || e == (b, a)) {
                    h.edges[k] = (a, b);
                }
            }
            1 if n > 0 => {
                // rename a node
                let v = s.below(n);
                let id = s.pick(&[7usize, 100, usize::MAX, 3, 0, 1 << 32]);
                if !h.ids.contains(&id) {
                    h.ids[v] = id;
                }
            }
            2 if m > 1 => {
                // exchange the ends of two edges
                let (i, j) = (s.below(m), s.below(m));
                let ((a, b), (c, d)) = (h.edges[i], h.edges[j]);
                let free = |x: usize, y: usize| !h.edges.iter().any(|&e| e == (x, y) || e == (y, x));
                if i != j && free(a, d) && free(c, b) && (a.min(d), a.max(d)) != (c.min(b), c.max(b)) {
                    h.edges[i] = (a, d);
                    h.edges[j] = (c, b);
                }
            }
            3 if m > 0 => {
                let k = s.below(m);
                h.edges.remove(k);
            }
            4 if n > 1 => {
                let (a, b) = (s.below(n), s.below(n));
                if !h.edges.iter().any(|&e| e == (a, b) || e == (b, a)) {
                    h.edges.push((a, b));
                }
            }
            _ => {
                let id = s.pick(&[9usize, 50, usize::MAX - 1]);
                if !h.ids.contains(&id) {
                    h.ids.push(id);
                    perm.push(0);
                    break;
                }
            }
        }
    }
    let n = h.n();
    let consecutive = {
        let mut x = h.ids.clone();
        x.sort_unstable();
        x.iter().enumerate().all(|(i, &v)| i == v)
    };
    h.route = s.pick(&[ADDS, EDGES, ADJACENCY]);
    if h.route == ADJACENCY {
        if consecutive {
            // index = id
            let ids = h.ids.clone();
            h.edges = h.edges.iter().map(|&(a, b)| (ids[a], ids[b])).collect();
            h.ids = (0..n).collect();
        } else {
            h.route = EDGES;
        }
    }
    for e in h.edges.iter_mut() {
        if s.chance(1, 2) {
            *e = (e.1, e.0);
        }
    }
    h.adj = GSpec::adj_from_edges(n, &h.edges);
    h.normalize();
    // additions that both get after they were compared, one after the other
    let mut ops = vec![];
    if s.chance(1, 3) && g.n() > 0 {
        let mut pool = g.ids.clone();
        for _ in 0..s.range(1, 3) {
            if s.chance(1, 4) {
                let id = s.pick(&[11usize, 51, usize::MAX - 2]);
                pool.push(id);
                ops.push(Op::Node(id));
            } else {
                let (a, b) = (s.pick(&pool), s.pick(&pool));
                ops.push(Op::Edge(a, b));
            }
        }
    }
    Case { graph: g, graph2: Some(h), ops, ..Case::default() }
}

/// Compares == and != in both directions with the sets that the graphs report. Returns the counts
/// of nodes and edges of both, and whether they are equal; None if the reports are inconsistent.
fn judge_equality(a: &DefaultGraph, b: &DefaultGraph, when: &str) -> Result<Option<([usize; 4], bool)>, String> {
    let (Ok(ma), Ok(mb)) = (Model::of(a), Model::of(b)) else { return Ok(None) };
    let nodes = |m: &Model| m.ids.iter().copied().collect::<BTreeSet<_>>();
    let want = nodes(&ma) == nodes(&mb) && ma.edge_id_set() == mb.edge_id_set();
    let say = |what: &str| {
        Err(format!("{what}{when}: nodes {:?} edges {:?} and nodes {:?} edges {:?}", ma.ids, ma.edge_id_set(), mb.ids, mb.edge_id_set()))
    };
    if (a == b) != want {
        return say(if want { "equal graphs compare unequal" } else { "different graphs compare equal" });
    }
    if (b == a) != want {
        return say(if want { "equal graphs compare unequal, second with first" } else { "different graphs compare equal, second with first" });
    }
    if (a != b) == want {
        return say("!= does not negate ==");
    }
    if a != a || b != b {
        return say("a graph compares unequal to itself");
    }
    Ok(Some(([ma.n(), mb.n(), ma.edges.len(), mb.edges.len()], want)))
}

pub fn run_c05(c: &Case, o: &mut Obs) -> Res {
    let Some(h) = &c.graph2 else { return o.skip() };
    let (Ok(mut a), Ok(mut b)) = (build_default(&c.graph), build_default(h)) else { return o.skip() };
    // equality is judged against what the graphs say they are
    let Some((counts, want)) = judge_equality(&a, &b, "")? else { return o.skip() };
    for (k, op) in c.ops.iter().enumerate() {
        for (g, name) in [(0, "first"), (1, "second")] {
            let done = apply_real(if g == 0 { &mut a } else { &mut b }, op);
            if judge_equality(&a, &b, &format!(" after addition {k} {op:?} to the {name} ({done:?})"))?.is_none() {
                return o.skip();
            }
        }
    }
    let near = counts[0] == counts[1] && counts[2] == counts[3];
    o.label(match (want, near) {
        (true, _) => "equal",
        (false, true) => "different, same order and size",
        _ => "different order or size",
    });
    o.label_if(want && c.graph.route != h.route, "equal by different routes");
    o.label_if(!c.ops.is_empty(), "compared again after additions");
    o.nontrivial(counts[2] >= 1 && (want || near));
    Ok(())
}

type Listed = (Vec<usize>, Vec<(usize, usize)>);

/// All graphs on the ids given.
fn all_on(ids: &[usize], loops: bool) -> Vec<Listed> {
    let n = ids.len();
    let slots: Vec<(usize, usize)> =
        (0..n).flat_map(|b| (0..=b).map(move |a| (a, b))).filter(|(a, b)| loops || a != b).collect();
    (0usize..1 << slots.len())
        .map(|em| (ids.to_vec(), (0..slots.len()).filter(|i| em >> i & 1 == 1).map(|i| slots[i]).collect()))
        .collect()
}

/// All pairs of graphs whose nodes are subsets of 3 ids, with loops; of 4 ids, without; and all
/// pairs of graphs with 5 nodes and equally many edges. `deep`: with loops on 4 ids too, and the
/// last on other ids too.
pub fn all_graph_pairs(deep: bool, emit: &mut dyn FnMut(usize, &dyn Fn() -> Case) -> bool) {
    let subsets = |k: usize, loops: bool| -> Vec<Listed> {
        (0usize..1 << k).flat_map(|m| all_on(&(0..k).filter(|v| m >> v & 1 == 1).collect::<Vec<_>>(), loops)).collect()
    };
    let mut rounds = vec![(subsets(3, true), false), (subsets(4, deep), false), (all_on(&[0, 1, 2, 3, 4], false), true)];
    if deep {
        rounds.push((all_on(&[1, 2, 3, 4, 5], false), true));
        rounds.push((all_on(&[0, 1, 1 << 32, 1 << 63, usize::MAX], false), true));
        rounds.push((all_on(&[5, 3, 8, 13, 21], false), true));
    }
    let mut index = 0;
    for (all, same_size) in &rounds {
        for i in 0..all.len() {
            for j in 0..all.len() {
                if *same_size && all[i].1.len() != all[j].1.len() {
                    continue;
                }
                let make = move || {
                    let spec = |k: usize, reverse: bool| {
                        let (ids, edges) = &all[k];
                        let mut edges = edges.clone();
                        if reverse {
                            edges.reverse();
                            edges.iter_mut().for_each(|e| *e = (e.1, e.0));
                        }
                        let mut g = GSpec { route: ADDS, ids: ids.clone(), edges, adj: vec![] };
                        g.normalize();
                        g
                    };
                    Case { graph: spec(i, false), graph2: Some(spec(j, true)), ..Case::default() }
                };
                if !emit(index, &make) {
                    return;
                }
                index += 1;
            }
        }
    }
}

// ---- C06 ---------------------------------------------------------------------------------------

pub fn gen_c06(s: &mut Src) -> Case {
    let (sh, _) = gen::shape(s, 12, 60, 600);
    let (graph, _) = gen::present(s, sh, true);
    let mut extra = vec![];
    for _ in 0..s.range(2, 8) {
        let near = if graph.n() > 0 { graph.ids[s.below(graph.n())] } else { 0 };
        extra.push(match s.below(6) {
            0 => near.wrapping_add(1),
            1 => near.wrapping_sub(1),
            2 => s.pick(&gen::EXTREMES),
            3 => s.below(40),
            4 => graph.n(),
            _ => s.word() as usize,
        });
    }
    let mut ops = vec![];
    if graph.route != CUSTOM {
        // refused or accepted additions before the questions
        for _ in 0..s.below(4) {
            let (a, b) = (s.pick(&extra), s.pick(&extra));
            ops.push(if s.chance(1, 3) { Op::Node(a) } else { Op::Edge(a, b) });
        }
    }
    Case { graph, extra, ops, ..Case::default() }
}

pub fn run_c06(c: &Case, o: &mut Obs) -> Res {
    match build(&c.graph) {
        Err(_) => o.skip(),
        Ok(Built::C(g)) => {
            // our own graph answers by itself; only the traversals are the library's
            let m = Model::of_spec(&c.graph);
            probe_traversals(&g, &m.ids, &c.extra, o)
        }
        Ok(Built::D(mut g)) => {
            let mut gm = GModel::of_spec(&c.graph);
            for op in &c.ops {
                let want = gm.expect(op);
                if want.matches(&apply_real(&mut g, op)) {
                    if want == Expect::Accept {
                        gm.apply(op);
                    }
                } else {
                    return o.skip();
                }
            }
            let nodes: Vec<usize> = g.nodes().collect();
            if nodes != gm.view.ids {
                return o.skip();
            }
            probe_queries(&g, &nodes, &c.extra, o)?;
            probe_traversals(&g, &nodes, &c.extra, o)
        }
    }
}

fn probe_queries(g: &DefaultGraph, nodes: &[usize], extra: &[usize], o: &mut Obs) -> Res {
    let set: BTreeSet<usize> = nodes.iter().copied().collect();
    let mut probes: Vec<usize> = nodes.iter().copied().take(14).collect();
    probes.extend(nodes.iter().rev().copied().take(4));
    probes.extend_from_slice(extra);
    let mut absent = 0;
    // every node by itself; pairs among some nodes and the other ids
    for &a in nodes.iter().chain(extra) {
        let present = set.contains(&a);
        if g.has_node(a) != present {
            return Err(format!("has_node({a}) is {}", !present));
        }
        let nb = g.neighbors(a).map(|i| i.count());
        let de = g.degree(a);
        if present {
            if nb.is_err() || de.is_err() {
                return Err(format!("neighbors or degree of node {a} fails: {nb:?} {de:?}"));
            }
        } else if nb != Err(Error::MissingNode(a)) || de != Err(Error::MissingNode(a)) {
            return Err(format!("neighbors or degree of absent node {a}: {nb:?} {de:?}"));
        }
        for &b in extra {
            let ask = [g.has_edge(a, b), g.has_edge(b, a)];
            let other = set.contains(&b);
            let ok = match (present, other) {
                (true, true) => ask.iter().all(|x| x.is_ok()),
                (true, false) => ask.iter().all(|x| *x == Err(Error::MissingNode(b))),
                (false, true) => ask.iter().all(|x| *x == Err(Error::MissingNode(a))),
                (false, false) => ask[0] == Err(Error::MissingNode(a)) && ask[1] == Err(Error::MissingNode(b)),
            };
            if !ok {
                return Err(format!("has_edge({a},{b}) and back are {ask:?}"));
            }
        }
    }
    for (i, &a) in nodes.iter().enumerate() {
        let b = nodes[(i + 1) % nodes.len()];
        if let Err(e) = g.has_edge(a, b) {
            return Err(format!("has_edge({a},{b}) of nodes is {e:?}"));
        }
    }
    for &a in &probes {
        let present = set.contains(&a);
        absent += !present as usize;
        for &b in &probes {
            let got = g.has_edge(a, b);
            let ok = match (present, set.contains(&b)) {
                (true, true) => got.is_ok(),
                (false, _) => got == Err(Error::MissingNode(a)),
                (true, false) => got == Err(Error::MissingNode(b)),
            };
            if !ok {
                return Err(format!("has_edge({a},{b}) is {got:?}; nodes {nodes:?}"));
            }
        }
    }
    o.label_if(absent > 0, "absent ids asked about");
    o.nontrivial(absent > 0 && !nodes.is_empty());
    Ok(())
}

fn probe_traversals<G: Graph>(g: &G, nodes: &[usize], extra: &[usize], o: &mut Obs) -> Res {
    let set: BTreeSet<usize> = nodes.iter().copied().collect();
    for &a in nodes.iter().chain(extra) {
        let present = set.contains(&a);
        let d = DepthFirst::new(g, a).err();
        let b = BreadthFirst::new(g, a).err();
        let want = if present { None } else { Some(Error::MissingNode(a)) };
        if d != want {
            return Err(format!("DepthFirst::new at {a}: error {d:?}, expected {want:?}"));
        }
        if b != want {
            return Err(format!("BreadthFirst::new at {a}: error {b:?}, expected {want:?}"));
        }
        o.nontrivial(!present);
    }
    Ok(())
}
