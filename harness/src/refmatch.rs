//! Maximum matching oracle: Edmonds' algorithm with base contraction in arrays, and a proof of
//! optimality by a Tutte-Berge barrier, checked independently.

pub const NONE: usize = usize::MAX;

struct Search<'a> {
    adj: &'a [Vec<usize>],
    mate: Vec<usize>,
    parent: Vec<usize>,
    base: Vec<usize>,
    outer: Vec<bool>,
    blossom: Vec<bool>,
}

impl<'a> Search<'a> {
    fn lca(&self, mut a: usize, mut b: usize) -> usize {
        let mut on = vec![false; self.adj.len()];
        loop {
            a = self.base[a];
            on[a] = true;
            if self.mate[a] == NONE {
                break;
            }
            a = self.parent[self.mate[a]];
        }
        loop {
            b = self.base[b];
            if on[b] {
                return b;
            }
            b = self.parent[self.mate[b]];
        }
    }

    fn mark(&mut self, mut v: usize, b: usize, mut child: usize) {
        while self.base[v] != b {
            let (x, y) = (self.base[v], self.base[self.mate[v]]);
            self.blossom[x] = true;
            self.blossom[y] = true;
            self.parent[v] = child;
            child = self.mate[v];
            v = self.parent[self.mate[v]];
        }
    }

    /// The exposed end of an augmenting path from root, or NONE.
    fn find(&mut self, root: usize) -> usize {
        let n = self.adj.len();
        self.outer = vec![false; n];
        self.parent = vec![NONE; n];
        self.base = (0..n).collect();
        self.outer[root] = true;
        let mut q = vec![root];
        let mut k = 0;
        while k < q.len() {
            let v = q[k];
            k += 1;
            for e in 0..self.adj[v].len() {
                let w = self.adj[v][e];
                if self.base[v] == self.base[w] || self.mate[v] == w {
                    continue;
                }
                if w == root || (self.mate[w] != NONE && self.parent[self.mate[w]] != NONE) {
                    let b = self.lca(v, w);
                    self.blossom = vec![false; n];
                    self.mark(v, b, w);
                    self.mark(w, b, v);
                    for i in 0..n {
                        if self.blossom[self.base[i]] {
                            self.base[i] = b;
                            if !self.outer[i] {
                                self.outer[i] = true;
                                q.push(i);
                            }
                        }
                    }
                } else if self.parent[w] == NONE {
                    self.parent[w] = v;
                    if self.mate[w] == NONE {
                        return w;
                    }
                    self.outer[self.mate[w]] = true;
                    q.push(self.mate[w]);
                }
            }
        }
        NONE
    }
}

/// The maximum matching size of the graph (loops ignored), certified. Err means that this oracle is
/// wrong, never that the library is.
pub fn maximum(adj_in: &[Vec<usize>]) -> Result<usize, String> {
    let n = adj_in.len();
    let adj: Vec<Vec<usize>> = adj_in
        .iter()
        .enumerate()
        .map(|(v, r)| r.iter().copied().filter(|&w| w != v).collect())
        .collect();
    let mut s = Search {
        adj: &adj,
        mate: vec![NONE; n],
        parent: vec![],
        base: vec![],
        outer: vec![],
        blossom: vec![],
    };
    let mut even = vec![false; n];
    for v in 0..n {
        if s.mate[v] == NONE {
            if let Some(&w) = adj[v].iter().find(|&&w| s.mate[w] == NONE) {
                s.mate[v] = w;
                s.mate[w] = v;
            }
        }
    }
    for v in 0..n {
        if s.mate[v] != NONE {
            continue;
        }
        let mut end = s.find(v);
        while end != NONE {
            let p = s.parent[end];
            let next = s.mate[p];
            s.mate[end] = p;
            s.mate[p] = end;
            end = next;
        }
    }
    for v in 0..n {
        if s.mate[v] == NONE {
            if s.find(v) != NONE {
                return Err("oracle: augmenting path left".into());
            }
            for w in 0..n {
                even[w] |= s.outer[w];
            }
        }
    }
    // certificate: the mates are a matching of k edges, and the barrier bounds every matching by k
    let mut covered = 0;
    for v in 0..n {
        let w = s.mate[v];
        if w != NONE {
            if s.mate[w] != v || !adj[v].contains(&w) {
                return Err("oracle: mates are no matching".into());
            }
            covered += 1;
        }
    }
    let k = covered / 2;
    let barrier: Vec<bool> = (0..n).map(|v| !even[v] && adj[v].iter().any(|&w| even[w])).collect();
    let a = barrier.iter().filter(|&&x| x).count();
    let mut seen = barrier.clone();
    let mut odd = 0;
    for r in 0..n {
        if seen[r] {
            continue;
        }
        let mut count = 0;
        let mut st = vec![r];
        seen[r] = true;
        while let Some(v) = st.pop() {
            count += 1;
            for &w in &adj[v] {
                if !seen[w] {
                    seen[w] = true;
                    st.push(w);
                }
            }
        }
        odd += count % 2;
    }
    if n + a != 2 * k + odd {
        return Err(format!("oracle: barrier does not certify {k} of {n} nodes (|A|={a}, odd={odd})"));
    }
    Ok(k)
}

/// Plain subset dynamic program, used to check the oracle on small graphs.
pub fn maximum_by_subsets(adj: &[Vec<usize>]) -> usize {
    let n = adj.len();
    assert!(n <= 16);
    let bits: Vec<usize> = adj
        .iter()
        .enumerate()
        .map(|(v, r)| r.iter().filter(|&&w| w != v).fold(0, |a, &w| a | 1 << w))
        .collect();
    let mut best = vec![0u8; 1 << n];
    for m in 1usize..1 << n {
        let v = m.trailing_zeros() as usize;
        let rest = m & (m - 1);
        let mut b = best[rest];
        let mut c = bits[v] & rest;
        while c != 0 {
            let w = c.trailing_zeros() as usize;
            c &= c - 1;
            b = b.max(1 + best[rest & !(1 << w)]);
        }
        best[m] = b;
    }
    best[(1 << n) - 1] as usize
}
