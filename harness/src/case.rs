//! Cases are plain data with a text form (the replay file).

use std::fmt::Write;

/// How a graph is presented to the library.
pub const ROUTES: [&str; 4] = ["custom", "adjacency", "edges", "adds"];
pub const CUSTOM: u8 = 0;
pub const ADJACENCY: u8 = 1;
pub const EDGES: u8 = 2;
pub const ADDS: u8 = 3;

/// A graph over node indices 0..n; `ids` are the node ids in node order, `edges` the edge list with
/// orientation, `adj` the neighbor lists in order (a loop is listed once).
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct GSpec {
    pub route: u8,
    pub ids: Vec<usize>,
    pub edges: Vec<(usize, usize)>,
    pub adj: Vec<Vec<usize>>,
}

impl GSpec {
    pub fn n(&self) -> usize {
        self.ids.len()
    }

    /// Neighbor lists in the order in which the edges are added.
    pub fn adj_from_edges(n: usize, edges: &[(usize, usize)]) -> Vec<Vec<usize>> {
        let mut adj = vec![vec![]; n];
        for &(a, b) in edges {
            adj[a].push(b);
            if a != b {
                adj[b].push(a);
            }
        }
        adj
    }

    /// Makes the parts that the route dictates follow from the parts that are free.
    pub fn normalize(&mut self) {
        let n = self.n();
        match self.route {
            ADJACENCY => {
                self.ids = (0..n).collect();
                self.edges.clear();
                for (a, row) in self.adj.iter().enumerate() {
                    for &b in row {
                        if a <= b {
                            self.edges.push((a, b));
                        }
                    }
                }
            }
            EDGES => {
                // node order is the order of first mention, then the isolated nodes
                let mut new_index = vec![usize::MAX; n];
                let mut order = vec![];
                for &(a, b) in &self.edges {
                    for v in [a, b] {
                        if new_index[v] == usize::MAX {
                            new_index[v] = order.len();
                            order.push(v);
                        }
                    }
                }
                for v in 0..n {
                    if new_index[v] == usize::MAX {
                        new_index[v] = order.len();
                        order.push(v);
                    }
                }
                self.ids = order.iter().map(|&v| self.ids[v]).collect();
                for e in self.edges.iter_mut() {
                    *e = (new_index[e.0], new_index[e.1]);
                }
                self.adj = Self::adj_from_edges(n, &self.edges);
            }
            ADDS => {
                self.adj = Self::adj_from_edges(n, &self.edges);
            }
            _ => {}
        }
    }

    pub fn is_valid(&self) -> bool {
        let n = self.n();
        let mut ids = self.ids.clone();
        ids.sort_unstable();
        ids.dedup();
        if ids.len() != n || self.adj.len() != n {
            return false;
        }
        let norm = |&(a, b): &(usize, usize)| (a.min(b), a.max(b));
        let mut e: Vec<_> = self.edges.iter().map(norm).collect();
        e.sort_unstable();
        let len = e.len();
        e.dedup();
        if e.len() != len || e.iter().any(|&(_, b)| b >= n) {
            return false;
        }
        let mut f = vec![];
        let mut back = vec![];
        for (a, row) in self.adj.iter().enumerate() {
            for &b in row {
                if b >= n {
                    return false;
                }
                if a <= b {
                    f.push((a, b));
                }
                if a >= b {
                    back.push((b, a));
                }
            }
        }
        f.sort_unstable();
        back.sort_unstable();
        f == e && back == e
    }

    /// The part on the nodes to keep.
    pub fn restricted(&self, keep: &[bool]) -> GSpec {
        let mut to = vec![usize::MAX; self.n()];
        let mut k = 0;
        for v in 0..self.n() {
            if keep[v] {
                to[v] = k;
                k += 1;
            }
        }
        let has = |v: &usize| to[*v] != usize::MAX;
        let mut g = GSpec { route: self.route, ..GSpec::default() };
        g.ids = (0..self.n()).filter(has).map(|v| self.ids[v]).collect();
        g.edges = self.edges.iter().filter(|e| has(&e.0) && has(&e.1)).map(|e| (to[e.0], to[e.1])).collect();
        g.adj = (0..self.n()).filter(has).map(|v| self.adj[v].iter().filter(|x| has(x)).map(|&x| to[x]).collect()).collect();
        if g.route == ADJACENCY {
            g.ids = (0..k).collect();
        }
        g
    }

    /// Without a range of the edge list.
    pub fn without_edges(&self, from: usize, to: usize) -> GSpec {
        let mut g = self.clone();
        let gone: std::collections::HashSet<(usize, usize)> = g.edges.drain(from..to).collect();
        for (a, row) in g.adj.iter_mut().enumerate() {
            row.retain(|&b| !gone.contains(&(a, b)) && !gone.contains(&(b, a)));
        }
        g
    }

    pub fn without_edge(&self, k: usize) -> GSpec {
        let mut g = self.clone();
        let (a, b) = g.edges.remove(k);
        g.adj[a].retain(|&x| x != b);
        g.adj[b].retain(|&x| x != a);
        g
    }

    pub fn without_node(&self, v: usize) -> GSpec {
        let f = |x: usize| if x > v { x - 1 } else { x };
        let mut g = self.clone();
        g.ids.remove(v);
        g.edges.retain(|&(a, b)| a != v && b != v);
        for e in g.edges.iter_mut() {
            *e = (f(e.0), f(e.1));
        }
        g.adj.remove(v);
        for row in g.adj.iter_mut() {
            row.retain(|&x| x != v);
            for x in row.iter_mut() {
                *x = f(*x);
            }
        }
        if g.route == ADJACENCY {
            g.ids = (0..g.adj.len()).collect();
        }
        g
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Node(usize),
    Edge(usize, usize),
    Pair(usize, usize),
    Augment(Vec<usize>),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Case {
    pub graph: GSpec,
    pub graph2: Option<GSpec>,
    /// index of the root
    pub root: usize,
    /// starting matching, as index pairs of `graph`
    pub pairs: Vec<(usize, usize)>,
    pub ops: Vec<Op>,
    pub rows: Vec<Vec<usize>>,
    pub list: Vec<(usize, usize)>,
    pub extra: Vec<usize>,
}

fn nums(v: &[usize]) -> String {
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")
}

fn prs(v: &[(usize, usize)]) -> String {
    v.iter().map(|x| format!("{}-{}", x.0, x.1)).collect::<Vec<_>>().join(" ")
}

fn write_graph(out: &mut String, tag: &str, g: &GSpec) {
    let _ = writeln!(out, "{tag}.route {}", ROUTES[g.route as usize]);
    let _ = writeln!(out, "{tag}.ids {}", nums(&g.ids));
    let _ = writeln!(out, "{tag}.edges {}", prs(&g.edges));
    if g.route == CUSTOM || g.route == ADJACENCY {
        for row in &g.adj {
            let _ = writeln!(out, "{tag}.adj {}", nums(row));
        }
    }
}

impl Case {
    pub fn to_text(&self, check: &str) -> String {
        let mut out = String::new();
        let _ = writeln!(out, "check {check}");
        write_graph(&mut out, "graph", &self.graph);
        if let Some(g) = &self.graph2 {
            write_graph(&mut out, "graph2", g);
        }
        let _ = writeln!(out, "root {}", self.root);
        if !self.pairs.is_empty() {
            let _ = writeln!(out, "pairs {}", prs(&self.pairs));
        }
        for op in &self.ops {
            let _ = match op {
                Op::Node(a) => writeln!(out, "op node {a}"),
                Op::Edge(a, b) => writeln!(out, "op edge {a} {b}"),
                Op::Pair(a, b) => writeln!(out, "op pair {a} {b}"),
                Op::Augment(p) => writeln!(out, "op augment {}", nums(p)),
            };
        }
        for row in &self.rows {
            let _ = writeln!(out, "row {}", nums(row));
        }
        if !self.list.is_empty() {
            let _ = writeln!(out, "list {}", prs(&self.list));
        }
        if !self.extra.is_empty() {
            let _ = writeln!(out, "extra {}", nums(&self.extra));
        }
        out
    }

    /// One line, for evidence samples.
    pub fn to_line(&self, check: &str) -> String {
        let mut s = self.to_text(check).trim_end().replace('\n', " ; ");
        if s.len() > 1500 {
            let mut k = 1500;
            while !s.is_char_boundary(k) {
                k -= 1;
            }
            s.truncate(k);
            s.push_str(" ...");
        }
        s
    }

    pub fn from_text(text: &str) -> Result<(String, Case), String> {
        fn ns(s: &str) -> Result<Vec<usize>, String> {
            s.split_whitespace().map(|x| x.parse().map_err(|_| format!("bad number {x}"))).collect()
        }
        fn ps(s: &str) -> Result<Vec<(usize, usize)>, String> {
            s.split_whitespace()
                .map(|x| {
                    let (a, b) = x.split_once('-').ok_or(format!("bad pair {x}"))?;
                    Ok((a.parse().map_err(|_| "bad")?, b.parse().map_err(|_| "bad")?))
                })
                .collect()
        }
        let mut check = String::new();
        let mut c = Case::default();
        for line in text.lines() {
            if line.trim().is_empty() || line.starts_with('#') {
                continue;
            }
            let (key, rest) = line.split_once(' ').unwrap_or((line, ""));
            let (tag, field) = key.split_once('.').unwrap_or(("", key));
            if tag == "graph" || tag == "graph2" {
                let g = if tag == "graph" {
                    &mut c.graph
                } else {
                    c.graph2.get_or_insert_with(GSpec::default)
                };
                match field {
                    "route" => {
                        g.route = ROUTES.iter().position(|r| *r == rest.trim()).ok_or("bad route")? as u8
                    }
                    "ids" => g.ids = ns(rest)?,
                    "edges" => g.edges = ps(rest)?,
                    "adj" => g.adj.push(ns(rest)?),
                    _ => return Err(format!("bad line {line}")),
                }
                continue;
            }
            match key {
                "check" => check = rest.trim().to_string(),
                "root" => c.root = ns(rest)?.first().copied().unwrap_or(0),
                "pairs" => c.pairs = ps(rest)?,
                "op" => {
                    let (k, r) = rest.split_once(' ').unwrap_or((rest, ""));
                    let a = ns(r)?;
                    c.ops.push(match (k, a.as_slice()) {
                        ("node", &[x]) => Op::Node(x),
                        ("edge", &[x, y]) => Op::Edge(x, y),
                        ("pair", &[x, y]) => Op::Pair(x, y),
                        ("augment", p) => Op::Augment(p.to_vec()),
                        _ => return Err(format!("bad line {line}")),
                    })
                }
                "row" => c.rows.push(ns(rest)?),
                "list" => c.list = ps(rest)?,
                "extra" => c.extra = ns(rest)?,
                _ => return Err(format!("bad line {line}")),
            }
        }
        for g in std::iter::once(&mut c.graph).chain(c.graph2.iter_mut()) {
            if g.route == EDGES || g.route == ADDS {
                g.adj = GSpec::adj_from_edges(g.ids.len(), &g.edges);
            }
            // a custom graph may be written without neighbor lists
            if g.adj.is_empty() && !g.ids.is_empty() {
                g.adj = GSpec::adj_from_edges(g.ids.len(), &g.edges);
            }
            if !g.is_valid() {
                return Err("inconsistent graph in replay file".into());
            }
        }
        Ok((check, c))
    }
}
