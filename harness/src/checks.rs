//! The table of checks.

use crate::case::Case;
use crate::choice::Src;
use crate::driver::Obs;
use crate::oracle::Res;
use crate::{giants as b, checks_graph as g, checks_iter as i, checks_large as l, checks_matching as m, checks_more as x, checks_traversal as t};

#[derive(Clone, Copy, PartialEq)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
}

pub type Visit<'a> = &'a mut dyn FnMut(usize, &dyn Fn() -> Case) -> bool;

pub struct Check {
    pub id: &'static str,
    pub rule: &'static str,
    pub gen: fn(&mut Src) -> Case,
    pub run: fn(&Case, &mut Obs) -> Res,
    pub exhaustive: Option<fn(Tier, Visit)>,
    pub scope: fn(Tier) -> &'static str,
    pub quick: usize,
    pub thorough: usize,
    /// a few enumerated cases far larger than the others
    pub giants: Option<fn(Tier, Visit)>,
    /// factor on the time after which a case counts as never returning
    pub slow: f64,
}

impl Check {
    pub fn cases(&self, tier: Tier) -> usize {
        let k = match tier {
            Tier::Quick => self.quick,
            Tier::Thorough => self.thorough,
        };
        match std::env::var("VERIF_CASES").ok().and_then(|x| x.parse::<f64>().ok()) {
            Some(f) => (k as f64 * f) as usize,
            None => k,
        }
    }
}

fn none(_: Tier) -> &'static str {
    "none"
}

macro_rules! scope {
    ($q:expr, $t:expr) => {
        |tier| match tier {
            Tier::Quick => $q,
            Tier::Thorough => $t,
        }
    };
}

macro_rules! by {
    ($tier:expr, $q:expr, $t:expr) => {
        match $tier {
            Tier::Quick => $q,
            Tier::Thorough => $t,
        }
    };
}

const GRAPHS: &str = "Graphs are decoded from random choice sequences: random (0-18 nodes), sparse (to 60 or 120 nodes), trees, cycles with chords, cacti, wheels, ladders, Petersen graphs, near-complete, bipartite and lattice graphs, inverse contractions of matched trees, disjoint unions; node order, edge order and direction, neighbor order, ids (consecutive, sparse, random, extreme) and route (own Graph implementation, adjacency, edge list, additions) vary; one in eight has loops. ";

macro_rules! rule {
    ($x:expr) => {{
        // GRAPHS + x, kept as one static string
        fn text() -> &'static str {
            static S: std::sync::OnceLock<String> = std::sync::OnceLock::new();
            S.get_or_init(|| format!("{GRAPHS}Non-trivial: {}", $x))
        }
        text()
    }};
}

fn small_rooted(tier: Tier, v: Visit) {
    t::all_graphs(1, by!(tier, 5, 6), by!(tier, 3, 4), true, v);
}

fn small_rooted_and_orders(tier: Tier, v: Visit) {
    let mut base = 0;
    let mut go = true;
    t::all_orders(&mut |i, f| {
        base = i + 1;
        go = v(i, f);
        go
    });
    if go {
        t::all_graphs(1, by!(tier, 5, 6), by!(tier, 3, 4), true, &mut |i, f| v(base + i, f));
    }
}

fn small_unrooted(tier: Tier, v: Visit) {
    t::all_graphs(0, 6, by!(tier, 3, 12), false, v);
}

fn small_matching(tier: Tier, v: Visit) {
    let mut base = 0;
    let mut go = true;
    t::all_graphs(0, 6, by!(tier, 3, 12), false, &mut |i, f| {
        base = i + 1;
        go = v(i, f);
        go
    });
    if go && tier == Tier::Thorough {
        t::all_graphs(7, 7, 2, false, &mut |i, f| v(base + i, f));
    }
}

const ROOTED: fn(Tier) -> &'static str = scope!(
    "all labelled graphs of 1-5 nodes with every root in 3 presentations",
    "all labelled graphs of 1-6 nodes with every root in 4 presentations"
);
const ORDERS: fn(Tier) -> &'static str = scope!(
    "all labelled graphs of 1-4 nodes with all neighbor orders and roots; all of 1-5 nodes with every root in 3 presentations",
    "all labelled graphs of 1-4 nodes with all neighbor orders and roots; all of 1-6 nodes with every root in 4 presentations"
);
const UNROOTED: fn(Tier) -> &'static str = scope!(
    "all labelled graphs of 0-6 nodes in 3 presentations",
    "all labelled graphs of 0-6 nodes in 12 presentations"
);
const MATCHING: fn(Tier) -> &'static str = scope!(
    "all labelled graphs of 0-6 nodes in 3 presentations",
    "all labelled graphs of 0-6 nodes in 12 presentations and of 7 nodes in 2"
);
const STARTS: fn(Tier) -> &'static str = scope!(
    "all labelled graphs of 1-5 nodes with every matching as the start, in 3 presentations",
    "all labelled graphs of 1-6 nodes with every matching as the start, in 3 presentations"
);

pub fn all() -> Vec<Check> {
    let c = |id, rule, gen, run, exhaustive, scope, quick, thorough| Check {
        id,
        rule,
        gen,
        run,
        exhaustive,
        scope,
        quick,
        thorough,
        giants: None,
        slow: 1.0,
    };
    let with = |giants: fn(Tier, Visit), check: Check| Check { giants: Some(giants), slow: 2.0, ..check };
    let k = 1_000;
    let histories: fn(Tier, Visit) = |tier, v| g::all_histories(by!(tier, 5, 6), v);
    let histories_scope: fn(Tier) -> &'static str = scope!(
        "all sequences of up to 5 of the 12 additions over the ids 0, 1 and the maximum",
        "all sequences of up to 6 of the 12 additions over the ids 0, 1 and the maximum"
    );
    let starts: fn(Tier, Visit) = |tier, v| m::all_starts(by!(tier, 5, 6), 3, v);
    const CYCLES: &str = "the root's component has 4 or more nodes and a cycle (or loop)";
    const ODD: &str = "the graph has an odd cycle and 4 or more edges";
    vec![
        with(b::histories, c("C01", "Histories of up to 120 additions (7 of 8 steered to be acceptable), on an empty graph or one built by a random route or from a traversal, over a pool of 3-30 ids including extreme ones; every query is compared with the model after each accepted addition. Non-trivial: 2 or more accepted additions and 2 or more edges.",
            g::gen_c01, g::run_c01, Some(histories), histories_scope, 1_500 * k, 12_000 * k)),
        with(b::histories, c("C02", "Histories of up to 60 additions, most of them refusable, as for C01; each refusal must be the one the model expects and must change no answer, and the graph must end up as a twin that was only given the accepted calls. Non-trivial: a call is accepted after one was refused.",
            g::gen_c02, g::run_c02, Some(histories), histories_scope, 1_200 * k, 30_000 * k)),
        with(b::rows, c("C03", "Rows of random graphs (to 60 nodes) with 0-3 planted defects (id beyond the rows, repeated entry, one direction added, removed or changed), and random rows. Non-trivial: refused, or accepted with 2 or more edges.",
            g::gen_c03, g::run_c03, Some(|tier, v| g::all_rows(by!(tier, 3, 3), by!(tier, 3, 4), v)),
            scope!("all inputs of up to 3 rows with up to 3 entries below rows + 1", "all inputs of up to 3 rows with up to 4 entries below rows + 1"), 6_000 * k, 50_000 * k)),
        with(b::lists, c("C04", "Edge lists of random graphs (to 80 nodes) in random order and direction, half of them with 1-2 repeated edges, and random lists over a small pool of ids. Non-trivial: refused, or accepted with 2 or more edges.",
            g::gen_c04, g::run_c04, Some(|tier, v| g::all_lists(&[0, 1, usize::MAX], by!(tier, 5, 6), v)),
            scope!("all lists of up to 5 edges over the ids 0, 1 and the maximum", "all lists of up to 6 edges over the ids 0, 1 and the maximum"), 4_800 * k, 40_000 * k)),
        with(b::twins, c("C05", "Pairs of a random graph and a rebuilt copy with other order, direction and route, and 0-2 edits (edge moved, exchanged, removed, added; node renamed or added), or another labelling of its nodes, many exchanges that keep all degrees, or other edges. Non-trivial: 1 or more edges, and the graphs are equal or have equal order and size.",
            g::gen_c05, g::run_c05, Some(|tier, v| g::all_graph_pairs(tier == Tier::Thorough, v)),
            scope!("all pairs of graphs on subsets of 3 ids (with loops) and of 4 ids (without), and of graphs on 5 ids with equally many edges", "all pairs of graphs with loops on subsets of 4 ids, and of graphs on 5 ids with equally many edges, for four choices of the ids"), 3_000 * k, 25_000 * k)),
        with(b::absent, c("C06", "Graphs as for C07 (after 0-3 more additions), asked about their nodes and 2-8 other ids next to them, extreme or random. Non-trivial: an absent id is asked about.",
            g::gen_c06, g::run_c06, None, none, 1_800 * k, 15_000 * k)),
        with(b::rooted, c("C07", rule!(CYCLES), t::gen_traversal, t::run_c07, Some(small_rooted_and_orders), ORDERS, 1_800 * k, 15_000 * k)),
        with(b::rooted, c("C08", rule!(CYCLES), t::gen_traversal, t::run_c08, Some(small_rooted_and_orders), ORDERS, 2_100 * k, 18_000 * k)),
        with(b::rooted, c("C09", rule!(CYCLES), t::gen_traversal, t::run_c09, Some(small_rooted_and_orders), ORDERS, 1_800 * k, 15_000 * k)),
        with(b::rooted, c("C10", rule!(CYCLES), t::gen_traversal, t::run_c10, Some(small_rooted_and_orders), ORDERS, 2_100 * k, 18_000 * k)),
        with(b::rooted, c("C11", rule!("as for C07; up to 60 turns of four interleaved traversals are drawn"), t::gen_c11, t::run_c11, Some(small_rooted_and_orders), ORDERS, 1_200 * k, 30_000 * k)),
        with(b::renamed, c("C12", rule!("as for C07; each case compares the steps on up to 6 variations of the graph"), t::gen_c12, t::run_c12, None, none, 750 * k, 18_000 * k)),
        with(b::rooted, c("C13", rule!(CYCLES), t::gen_traversal, t::run_c13, Some(small_rooted), ROOTED, 1_200 * k, 30_000 * k)),
        with(b::unrooted, c("C14", rule!("2 or more components, one of them with a cycle (or loop)"), t::gen_components, t::run_c14, Some(small_unrooted), UNROOTED, 1_200 * k, 30_000 * k)),
        with(b::unrooted, c("C15", rule!("2 or more components, one of them with a cycle (or loop)"), t::gen_components, t::run_c15, Some(small_unrooted), UNROOTED, 900 * k, 21_000 * k)),
        with(b::pairings, c("C16", "Up to 60 pair calls over a pool of 3-30 ids including extreme ones; every query is compared with the model after each call. Non-trivial: a pair is replaced.",
            m::gen_c16, m::run_c16, Some(|tier, v| m::all_pairings(by!(tier, 4, 5), v)),
            scope!("all sequences of up to 4 pair calls over 5 ids", "all sequences of up to 5 pair calls over 5 ids"), 3_000 * k, 25_000 * k)),
        with(b::paths, c("C17", "1-3 rounds of pair calls and an augmentation with a path of up to 16 nodes over a pool of 6-40 ids, half of them augmenting paths of the pairing with pairs off the path. Non-trivial: a path of 4 or more nodes on a pairing that is not empty.",
            m::gen_c17, m::run_c17, None, none, 3_600 * k, 30_000 * k)),
        with(b::unrooted, c("C18", rule!(ODD), m::gen_greedy, m::run_c18, Some(small_unrooted), UNROOTED, 2_100 * k, 18_000 * k)),
        with(b::unrooted, c("C19", rule!(ODD), m::gen_greedy, m::run_c19, Some(small_unrooted), UNROOTED, 1_050 * k, 27_000 * k)),
        with(b::nearly, c("C20", rule!(ODD), m::gen_matching, m::run_c20, Some(starts), STARTS, 1_200 * k, 30_000 * k)),
        with(b::from_scratch, c("C21", rule!(ODD), m::gen_matching, m::run_c21, Some(small_matching), MATCHING, 750 * k, 18_000 * k)),
        with(b::nearly, c("C22", rule!("the graph has an odd cycle and 4 or more edges, or a starting matching that is neither empty nor maximum"), m::gen_matching, m::run_c22, Some(starts), STARTS, 750 * k, 18_000 * k)),
        with(b::reordered, c("C23", rule!("the graph has an odd cycle and 4 or more edges; each case compares the sizes found on up to 6 variations of the graph"), m::gen_c23, m::run_c23, None, none, 240 * k, 6_000 * k)),
        with(b::local, c("C25", rule!("3 or more edges, and nodes outside the first component; each case compares components, greedy matching and maximum matching (from a random starting matching) on 5 variations"), x::gen_c25, x::run_c25, None, none, 450 * k, 12_000 * k)),
        with(b::rooted, c("C26", rule!("3 or more edges and a cycle (or loop)"), x::gen_c26, x::run_c26, Some(small_rooted), ROOTED, 450 * k, 12_000 * k)),
        with(b::rooted, c("C27", rule!("the root has neighbors and there are 3 or more edges; each case looks at prefixes of 3 lengths"), i::gen_c27, i::run_c27, Some(small_rooted), ROOTED, 900 * k, 24_000 * k)),
        c("C28", rule!("2-4 threads on a graph of 3 or more edges; each thread makes up to 360 queries and 6 runs of an algorithm"), i::gen_c28, i::run_c28, None, none, 40 * k, 1_200 * k),
        with(b::rooted, c("C29", rule!("3 or more nodes and edges; each case steps through every iterator with up to 14 jumps"), i::gen_c29, i::run_c29, Some(small_rooted), ROOTED, 450 * k, 12_000 * k)),
        Check {
            slow: 5.0,
            ..c("C24", "Graphs of 2000-30000 nodes (path, cycle, star, comb, trees, isolated nodes, many components, ladder, sparse, two hubs, wheel, cactus) surveyed on a thread with 192 KiB of stack, and graphs of 40-420 nodes (sparse, nested flowers, path, chain of odd cycles) matched on a thread with 2 MiB. Non-trivial: 2000 or more nodes (100 or more for matching).",
                l::gen_c24, l::run_c24,
                Some(|tier, v| l::all_kinds(l::sizes(tier).0, l::sizes(tier).1, v)),
                scope!("every kind with 3000 and 70000 nodes (30 and 300 for matching), and before that, in a build without optimization, with 1500 and 5000 (30 and 120)", "every kind with 3000, 30000 and 100000 nodes (30, 300 and 600 for matching), and before that, in a build without optimization, with 1500, 5000 and 20000 (30, 120 and 240)"),
                if crate::driver::plain() { 60 } else { 500 }, if crate::driver::plain() { 600 } else { 6_000 })
        },
    ]
}
