//! Runs a check: exhaustive scopes, then proptest-generated choice sequences, on fixed shards;
//! shrinks a failure, writes the replay file and the evidence.

use crate::alloc;
use crate::case::*;
use crate::checks::{Check, Tier};
use crate::choice::Src;
use crate::oracle::Res;
use proptest::collection::vec as pvec;
use proptest::prelude::any;
use proptest::test_runner::{Config, RngAlgorithm, RngSeed, TestCaseError, TestError, TestRunner};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub const SHARDS: usize = 16;
/// Processor time after which one case counts as never returning. Cases of the small checks take
/// microseconds to milliseconds.
pub const HANG_CPU_S: f64 = 60.0;
/// A thread that sleeps this long within one case waits for itself.
pub const BLOCKED_S: f64 = 60.0;

// ---- observations of one case ------------------------------------------------------------------

#[derive(Default)]
pub struct Obs {
    labels: Vec<String>,
    nontrivial: bool,
    skipped: bool,
}

impl Obs {
    pub fn skip(&mut self) -> Res {
        self.skipped = true;
        Ok(())
    }
    pub fn label(&mut self, l: &str) {
        if !self.labels.iter().any(|x| x == l) {
            self.labels.push(l.to_string());
        }
    }
    pub fn label_if(&mut self, cond: bool, l: &str) {
        if cond {
            self.label(l)
        }
    }
    #[allow(dead_code)]
    pub fn is_nontrivial(&self) -> bool {
        self.nontrivial
    }
    pub fn nontrivial(&mut self, x: bool) {
        self.nontrivial |= x;
    }
}

pub enum Outcome {
    Pass,
    Skip,
    Fail(String),
    /// our own mistake, never a violation
    Harness(String),
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{msg} [{at}]"));
    }));
}

pub fn last_panic() -> String {
    PANIC.with(|p| p.borrow().clone())
}

pub fn set_last_panic(m: String) {
    PANIC.with(|p| *p.borrow_mut() = m);
}

pub fn run_case(check: &Check, c: &Case, o: &mut Obs) -> Outcome {
    let r = catch_unwind(AssertUnwindSafe(|| (check.run)(c, o)));
    match r {
        Ok(Ok(())) if o.skipped => Outcome::Skip,
        Ok(Ok(())) => Outcome::Pass,
        Ok(Err(e)) if e.starts_with("harness:") => Outcome::Harness(e),
        Ok(Err(e)) => Outcome::Fail(e),
        Err(_) => {
            let m = last_panic();
            // a panic in our own sources is our mistake, except the call budget
            let ours = m.contains("harness:") || (m.contains("[src/") && !m.contains("work without bound"));
            if ours {
                Outcome::Harness(m)
            } else {
                Outcome::Fail(format!("panic: {m}"))
            }
        }
    }
}

/// True when the case fails in any of a few runs (hash order may vary from run to run).
pub fn fails(check: &Check, c: &Case, tries: usize) -> Option<String> {
    for _ in 0..tries {
        alloc::reset();
        if let Outcome::Fail(e) = run_case(check, c, &mut Obs::default()) {
            return Some(e);
        }
    }
    None
}

pub fn hash_case(c: &Case) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    c.hash(&mut h);
    h.finish()
}

// ---- statistics --------------------------------------------------------------------------------

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub skipped: u64,
    pub exhaustive: u64,
    pub seen: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub sampled: u64,
}

impl Stats {
    fn record(&mut self, id: &str, c: &Case, o: Obs, outcome: &Outcome) {
        self.evaluations += 1;
        if let Outcome::Skip = outcome {
            self.skipped += 1;
            return;
        }
        for l in o.labels {
            *self.labels.entry(l).or_insert(0) += 1;
        }
        if o.nontrivial && self.seen.insert(hash_case(c)) {
            self.sampled += 1;
            if [5, 400, 20000].contains(&self.sampled) {
                let size = c.graph.n() + c.graph.edges.len() + c.ops.len() + c.rows.len() + c.list.len();
                if size < 1000 {
                    self.samples.push(c.to_line(id));
                } else {
                    self.sampled -= 1;
                }
            }
        }
    }
    fn merge(&mut self, o: Stats) {
        self.evaluations += o.evaluations;
        self.skipped += o.skipped;
        self.exhaustive += o.exhaustive;
        self.seen.extend(o.seen);
        for (k, v) in o.labels {
            *self.labels.entry(k).or_insert(0) += v;
        }
        self.samples.extend(o.samples);
    }
}

// ---- current cases, for the watchdog and the trace ---------------------------------------------

struct Slot {
    case: Mutex<Option<Under>>,
}

/// A case under way: the thread's processor time at its start and at the last look, and since when
/// the thread sleeps without having used any.
struct Under {
    case: Arc<Case>,
    start: f64,
    last: f64,
    idle: Option<Instant>,
}

pub struct Shared<'a> {
    check: &'a Check,
    tier: Tier,
    seed: u64,
    stop: AtomicBool,
    deadline: Instant,
    slots: Vec<Slot>,
    trace: Option<PathBuf>,
    found: Mutex<Vec<(usize, Case, String)>>,
    broken: Mutex<Option<String>>,
    cut_short: AtomicBool,
}

/// Processor time of a thread in seconds, from its schedstat file.
fn cpu_of(task: &str) -> Option<f64> {
    let s = std::fs::read_to_string(format!("/proc/{task}/schedstat")).ok()?;
    s.split_whitespace().next()?.parse::<f64>().ok().map(|ns| ns / 1e9)
}

/// Whether the thread waits for something, rather than running or being about to.
fn sleeps(task: &str) -> bool {
    let s = std::fs::read_to_string(format!("/proc/{task}/stat")).unwrap_or_default();
    s.rsplit(')').next().and_then(|x| x.split_whitespace().next()) == Some("S")
}

impl<'a> Shared<'a> {
    fn enter(&self, shard: usize, c: &Arc<Case>) {
        alloc::reset();
        if let Some(dir) = &self.trace {
            let _ = std::fs::write(dir.join(format!("{shard}.case")), c.to_text(self.check.id));
        }
        *self.slots[shard].case.lock().unwrap() = Some(Under { case: c.clone(), start: -1.0, last: -1.0, idle: None });
    }
    fn leave(&self, shard: usize) {
        *self.slots[shard].case.lock().unwrap() = None;
    }
    fn done(&self) -> bool {
        if self.stop.load(SeqCst) {
            return true;
        }
        if Instant::now() > self.deadline {
            self.cut_short.store(true, SeqCst);
            return true;
        }
        false
    }
}

fn one(sh: &Shared, shard: usize, c: Case, stats: Option<&mut Stats>) -> (Arc<Case>, Option<String>) {
    let c = Arc::new(c);
    sh.enter(shard, &c);
    let mut o = Obs::default();
    let out = run_case(sh.check, &c, &mut o);
    sh.leave(shard);
    if let Some(st) = stats {
        st.record(sh.check.id, &c, o, &out);
    }
    match out {
        Outcome::Fail(e) => (c, Some(e)),
        Outcome::Harness(e) => {
            let path = write_case(sh.check.id, "harness-error", &c, &e);
            *sh.broken.lock().unwrap() = Some(format!("{e} ({})", path.display()));
            sh.stop.store(true, SeqCst);
            (c, None)
        }
        _ => (c, None),
    }
}

fn run_shard(sh: &Shared, shard: usize) -> Stats {
    let mut stats = Stats::default();
    alloc::bind(shard);
    // regression cases and exhaustive scopes first
    let mut failure: Option<(Case, String)> = None;
    {
        let mut visit = |index: usize, make: &dyn Fn() -> Case| -> bool {
            if index % SHARDS != shard {
                return true;
            }
            if sh.done() {
                return false;
            }
            let (c, e) = one(sh, shard, make(), Some(&mut stats));
            stats.exhaustive += 1;
            if let Some(e) = e {
                failure = Some(((*c).clone(), e));
                return false;
            }
            true
        };
        let mut base = 0;
        for c in regressions(sh.check.id) {
            if !visit(base, &|| c.clone()) {
                break;
            }
            base += 1;
        }
        if let Some(f) = sh.check.exhaustive {
            f(sh.tier, &mut visit);
        }
        if let Some(f) = sh.check.giants.filter(|_| !haste()) {
            // spread over the shards that start last, when the first are done
            f(sh.tier, &mut |k, make| visit(SHARDS - 1 - k % SHARDS, make));
        }
    }
    if let Some((c, e)) = failure {
        sh.found.lock().unwrap().push((shard, c, e));
        sh.stop.store(true, SeqCst);
        return stats;
    }
    let total = sh.check.cases(sh.tier);
    let cases = (total / SHARDS).max(1) as u32;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    (sh.seed, sh.check.id, shard).hash(&mut h);
    let config = Config {
        cases,
        failure_persistence: None,
        max_shrink_iters: 3000,
        max_shrink_time: 20_000,
        rng_algorithm: RngAlgorithm::ChaCha,
        rng_seed: RngSeed::Fixed(h.finish()),
        ..Config::default()
    };
    let mut runner = TestRunner::new(config);
    let failed = RefCell::new(None::<()>);
    let cell = RefCell::new(&mut stats);
    let r = runner.run(&pvec(any::<u32>(), 48..=200), |choices| {
        let first = failed.borrow().is_none();
        if first && sh.done() {
            return Ok(());
        }
        let c = (sh.check.gen)(&mut Src::new(&choices));
        let mut guard = cell.borrow_mut();
        let (_, e) = one(sh, shard, c, if first { Some(&mut **guard) } else { None });
        match e {
            None => Ok(()),
            Some(e) => {
                *failed.borrow_mut() = Some(());
                sh.stop.store(true, SeqCst);
                Err(TestCaseError::fail(e))
            }
        }
    });
    match r {
        Ok(()) => {}
        Err(TestError::Fail(_, choices)) => {
            let c = (sh.check.gen)(&mut Src::new(&choices));
            let e = fails(sh.check, &c, 30).unwrap_or_else(|| "fails in some runs only".into());
            sh.found.lock().unwrap().push((shard, c, e));
        }
        Err(TestError::Abort(e)) => {
            // e.g. a panic in a decoder
            *sh.broken.lock().unwrap() = Some(format!("generation aborted: {e}; {}", last_panic()));
        }
    }
    stats
}

pub fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| std::env::current_dir().unwrap())
}

fn regressions(id: &str) -> Vec<Case> {
    let mut files: Vec<_> = std::fs::read_dir(verif_dir().join("regressions"))
        .map(|d| d.flatten().map(|e| e.path()).filter(|p| p.extension().map_or(false, |x| x == "case")).collect())
        .unwrap_or_default();
    files.sort();
    let mut out = vec![];
    for f in files {
        let text = std::fs::read_to_string(&f).unwrap_or_default();
        match Case::from_text(&text) {
            Ok((check, c)) if check == id => out.push(c),
            Ok(_) => {}
            Err(e) => panic!("harness: regression file {}: {e}", f.display()),
        }
    }
    out
}

fn write_case(id: &str, name: &str, c: &Case, why: &str) -> PathBuf {
    let dir = verif_dir().join("out");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{id}-{name}.case"));
    let mut text = String::new();
    for l in why.lines().take(20) {
        let l: String = l.chars().take(600).collect();
        text.push_str(&format!("# {l}\n"));
    }
    text.push_str(&c.to_text(id));
    let _ = std::fs::write(&path, text);
    path
}

/// What the worker leaves for its parent when a case neither returns nor fails.
pub fn hang_file(id: &str) -> PathBuf {
    verif_dir().join("out").join(format!("{id}-stuck.case"))
}

fn watchdog(sh: &Shared, finished: &AtomicBool) {
    while !finished.load(SeqCst) {
        std::thread::sleep(Duration::from_millis(200));
        for (k, slot) in sh.slots.iter().enumerate() {
            let mut g = slot.case.lock().unwrap();
            let Some(u) = g.as_mut() else { continue };
            let parked = alloc::is_stuck(k);
            let task = alloc::task(k);
            let mut stuck = parked;
            let mut blocked = false;
            if let Some(cpu) = cpu_of(&task) {
                if u.start < 0.0 || cpu < u.start {
                    u.start = cpu;
                }
                stuck |= cpu - u.start > if haste() { 6.0 } else { HANG_CPU_S } * sh.check.slow;
                if cpu != u.last || !sleeps(&task) {
                    u.idle = None;
                } else {
                    blocked = u.idle.get_or_insert_with(Instant::now).elapsed().as_secs_f64() > BLOCKED_S;
                }
                u.last = cpu;
            }
            if stuck || blocked {
                let why = if parked {
                    "one call allocates without bound".to_string()
                } else if blocked {
                    format!("waits for {BLOCKED_S} s without doing anything")
                } else {
                    format!("does not return within {} s of processor time", HANG_CPU_S * sh.check.slow)
                };
                let mut text = format!("# {why}\n");
                text.push_str(&u.case.to_text(sh.check.id));
                let _ = std::fs::create_dir_all(hang_file("x").parent().unwrap());
                let _ = std::fs::write(hang_file(sh.check.id), text);
                std::process::exit(3);
            }
        }
    }
}

pub struct Run {
    pub stats: Stats,
    pub found: Option<(Case, String)>,
    pub broken: Option<String>,
    pub cut_short: bool,
}

pub fn explore(check: &Check, tier: Tier, seed: u64, budget: Duration, trace: Option<PathBuf>) -> Run {
    let sh = Shared {
        check,
        tier,
        seed,
        stop: AtomicBool::new(false),
        deadline: Instant::now() + budget,
        slots: (0..SHARDS)
            .map(|_| Slot { case: Mutex::new(None) })
            .collect(),
        trace,
        found: Mutex::new(vec![]),
        broken: Mutex::new(None),
        cut_short: AtomicBool::new(false),
    };
    let finished = AtomicBool::new(false);
    let next = AtomicUsize::new(0);
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(SHARDS);
    let all = Mutex::new(Stats::default());
    std::thread::scope(|s| {
        s.spawn(|| watchdog(&sh, &finished));
        let mut hs = vec![];
        for _ in 0..threads {
            let h = std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, || loop {
                let k = next.fetch_add(1, SeqCst);
                if k >= SHARDS {
                    break;
                }
                let r = catch_unwind(AssertUnwindSafe(|| run_shard(&sh, k)));
                match r {
                    Ok(st) => all.lock().unwrap().merge(st),
                    Err(_) => {
                        *sh.broken.lock().unwrap() = Some(format!("harness: shard {k} panicked: {}", last_panic()));
                        sh.stop.store(true, SeqCst);
                    }
                }
            });
            hs.push(h.expect("thread"));
        }
        for h in hs {
            let _ = h.join();
        }
        finished.store(true, SeqCst);
    });
    let mut found = sh.found.into_inner().unwrap();
    found.sort_by_key(|f| f.0);
    Run {
        stats: all.into_inner().unwrap(),
        found: found.into_iter().next().map(|f| (f.1, f.2)),
        broken: sh.broken.into_inner().unwrap(),
        cut_short: sh.cut_short.load(SeqCst),
    }
}

// ---- structural minimization -------------------------------------------------------------------

fn valid(c: &Case) -> bool {
    for g in std::iter::once(&c.graph).chain(c.graph2.iter()) {
        let mut h = g.clone();
        h.normalize();
        if &h != g || !g.is_valid() {
            return false;
        }
    }
    true
}

fn drop_node(c: &Case, v: usize) -> Case {
    let mut d = c.clone();
    d.graph = c.graph.without_node(v);
    let f = |x: usize| if x > v { x - 1 } else { x };
    d.pairs.retain(|&(a, b)| a != v && b != v);
    for p in d.pairs.iter_mut() {
        *p = (f(p.0), f(p.1));
    }
    d.root = if d.root == v { 0 } else { f(d.root) };
    d
}

/// The trailing parameters of C12 and C23 follow the number of nodes.
fn refit(c: &mut Case, check: &str) {
    let n = c.graph.n();
    let k = c.graph2.as_ref().map_or(0, |g| g.n());
    match check {
        "C12" | "C25" if c.extra.len() != n + k + 1 => {
            let last = c.extra.last().copied().unwrap_or(0);
            c.extra = (0..n + k).collect();
            c.extra.push(last);
        }
        "C23" if c.extra.len() != 2 * n + k => {
            c.extra = (0..n + k).collect();
            c.extra.extend((0..n).rev());
        }
        _ => {}
    }
}

fn neighbors_of(c: &Case, check: &str, end: Instant) -> Vec<Case> {
    let mut out = vec![];
    let late = || Instant::now() > end;
    macro_rules! cand {
        ($d:ident => $e:expr) => {{
            let mut $d = c.clone();
            $e;
            out.push($d);
        }};
    }
    macro_rules! chunks {
        ($field:ident) => {
            let len = c.$field.len();
            let mut size = len / 2;
            while size >= 1 && (len <= 600 || size >= len / 32) {
                let mut at = 0;
                while at < len && !late() {
                    let end = (at + size).min(len);
                    cand!(d => { d.$field.drain(at..end); });
                    at += size;
                }
                size /= 2;
            }
        };
    }
    if c.graph2.is_some() {
        cand!(d => d.graph2 = Some(GSpec { route: d.graph2.as_ref().unwrap().route, ..GSpec::default() }));
    }
    // large graphs: ranges of nodes and of edges; single ones only when few are left
    let n = c.graph.n();
    let m = c.graph.edges.len();
    let mut size = n / 2;
    while n > 40 && size >= 4 && size >= n / 16 {
        let mut at = 0;
        while at < n && !late() {
            let keep: Vec<bool> = (0..n).map(|v| v < at || v >= at + size).collect();
            let mut d = c.clone();
            d.graph = c.graph.restricted(&keep);
            let mut to = vec![0; n];
            (1..n).for_each(|v| to[v] = to[v - 1] + keep[v - 1] as usize);
            d.pairs.retain(|p| keep[p.0] && keep[p.1]);
            d.pairs.iter_mut().for_each(|p| *p = (to[p.0], to[p.1]));
            d.root = if d.root < n && keep[d.root] { to[d.root] } else { 0 };
            out.push(d);
            at += size;
        }
        size /= 2;
    }
    let mut size = m / 2;
    while m > 80 && size >= 8 && size >= m / 16 {
        let mut at = 0;
        while at < m && !late() {
            let end = (at + size).min(m);
            let gone: HashSet<(usize, usize)> = c.graph.edges[at..end].iter().flat_map(|&(a, b)| [(a, b), (b, a)]).collect();
            let mut d = c.clone();
            d.graph = c.graph.without_edges(at, end);
            d.pairs.retain(|p| !gone.contains(p));
            out.push(d);
            at += size;
        }
        size /= 2;
    }
    for v in 0..if n > 120 { 0 } else { n } {
        out.push(drop_node(c, v));
    }
    let small2 = |h: &&GSpec| h.n() <= 200 && h.edges.len() <= 400 && n <= 200;
    if let (Some(h), "C05") = (&c.graph2, check) {
        // large pairs: ranges of ids from both
        let mut ids: Vec<usize> = c.graph.ids.iter().chain(&h.ids).copied().collect();
        ids.sort_unstable();
        ids.dedup();
        let mut size = ids.len() / 2;
        while ids.len() > 40 && size >= 4 && size >= ids.len() / 16 {
            for part in ids.chunks(size) {
                if late() {
                    break;
                }
                let keep = |g: &GSpec| g.ids.iter().map(|x| part.binary_search(x).is_err()).collect::<Vec<_>>();
                let mut d = c.clone();
                d.graph = c.graph.restricted(&keep(&c.graph));
                let mut g = h.restricted(&keep(h));
                g.normalize();
                d.graph2 = Some(g);
                out.push(d);
            }
            size /= 2;
        }
    }
    if let Some(h) = c.graph2.as_ref().filter(small2) {
        for v in 0..h.n() {
            let h = h.without_node(v);
            cand!(d => d.graph2 = Some(h.clone()));
        }
        if check == "C05" {
            // the same node from both graphs
            for v in 0..c.graph.n() {
                if let Some(w) = h.ids.iter().position(|x| *x == c.graph.ids[v]) {
                    let mut d = drop_node(c, v);
                    d.graph2 = Some(h.without_node(w));
                    out.push(d);
                }
            }
            for k in 0..c.graph.edges.len() {
                let key = |g: &GSpec, e: (usize, usize)| {
                    let (a, b) = (g.ids[e.0], g.ids[e.1]);
                    (a.min(b), a.max(b))
                };
                let e = key(&c.graph, c.graph.edges[k]);
                if let Some(w) = h.edges.iter().position(|&x| key(h, x) == e) {
                    cand!(d => { d.graph = c.graph.without_edge(k); d.graph2 = Some(h.without_edge(w)); });
                }
            }
        }
    }
    chunks!(ops);
    // ranges of rows with their indices taken out
    let k = c.rows.len();
    let mut size = k / 2;
    while k > 40 && size >= 1 && size >= k / 16 {
        let mut at = 0;
        while at < k && !late() {
            let end = (at + size).min(k);
            cand!(d => {
                d.rows.drain(at..end);
                for row in d.rows.iter_mut() {
                    row.retain(|&x| x < at || x >= end);
                    row.iter_mut().for_each(|x| if *x >= end { *x -= end - at });
                }
            });
            at = end;
        }
        size /= 2;
    }
    for r in 0..k {
        // long rows
        let l = c.rows[r].len();
        let mut size = l / 2;
        while l > 40 && size >= 1 && size >= l / 16 && !late() {
            for part in c.rows[r].chunks(size) {
                let gone: HashSet<usize> = part.iter().copied().collect();
                cand!(d => {
                    d.rows[r].retain(|x| !gone.contains(x));
                    for &x in part {
                        if x < k && x != r { d.rows[x].retain(|&y| y != r) }
                    }
                });
            }
            size /= 2;
        }
    }
    chunks!(rows);
    chunks!(list);
    chunks!(pairs);
    for k in 0..if m > 400 { 0 } else { m } {
        let (a, b) = c.graph.edges[k];
        let g = c.graph.without_edge(k);
        cand!(d => { d.graph = g; d.pairs.retain(|&p| p != (a, b) && p != (b, a)); });
    }
    if let Some(h) = c.graph2.as_ref().filter(small2) {
        for k in 0..h.edges.len() {
            let h = h.without_edge(k);
            cand!(d => d.graph2 = Some(h.clone()));
        }
    }
    // a row with its index taken out everywhere
    for r in 0..if c.rows.len() > 200 { 0 } else { c.rows.len() } {
        cand!(d => {
            d.rows.remove(r);
            for row in d.rows.iter_mut() {
                row.retain(|&x| x != r);
                for x in row.iter_mut() { if *x > r { *x -= 1 } }
            }
        });
        for k in 0..c.rows[r].len() {
            cand!(d => { d.rows[r].remove(k); });
        }
    }
    if !["C12", "C23", "C24", "C25", "C28"].contains(&check) {
        chunks!(extra);
    }
    if c.root > 0 {
        cand!(d => d.root = 0);
    }
    if c.graph.route != CUSTOM && check > "C06" {
        cand!(d => d.graph.route = CUSTOM);
    }
    if ["C12", "C23", "C25"].contains(&check) {
        cand!(d => d.extra.clear());
    }
    // simpler ids
    let n = c.graph.n();
    let plain: Vec<usize> = (0..n).collect();
    if c.graph.ids != plain {
        cand!(d => d.graph.ids = plain.clone());
        for v in 0..if n > 200 { 0 } else { n } {
            if c.graph.ids[v] != v && !c.graph.ids.contains(&v) {
                cand!(d => d.graph.ids[v] = v);
            }
        }
    }
    if check == "C24" {
        for s in [0, 1, c.extra[1] / 2, c.extra[1] * 9 / 10] {
            cand!(d => d.extra[1] = s);
        }
        cand!(d => d.extra[2] = 0);
    }
    // smaller ids in operations and lists
    let mut used: Vec<usize> = c.list.iter().flat_map(|e| [e.0, e.1]).collect();
    for op in &c.ops {
        match op {
            Op::Node(a) => used.push(*a),
            Op::Edge(a, b) | Op::Pair(a, b) => used.extend([*a, *b]),
            Op::Augment(p) => used.extend(p),
        }
    }
    used.sort_unstable();
    used.dedup();
    if used.len() > 1 && used.iter().enumerate().any(|(k, &x)| x != k) {
        // all at once
        let f = |y: &mut usize| *y = used.binary_search(y).unwrap_or(*y);
        cand!(d => {
            for e in d.list.iter_mut() { f(&mut e.0); f(&mut e.1); }
            for op in d.ops.iter_mut() {
                match op {
                    Op::Node(a) => f(a),
                    Op::Edge(a, b) | Op::Pair(a, b) => { f(a); f(b) }
                    Op::Augment(p) => p.iter_mut().for_each(f),
                }
            }
        });
    }
    for (k, &x) in used.iter().enumerate() {
        if used.len() > 300 {
            break;
        }
        if x != k && !used.contains(&k) {
            let f = |y: &mut usize| {
                if *y == x {
                    *y = k
                }
            };
            cand!(d => {
                for e in d.list.iter_mut() { f(&mut e.0); f(&mut e.1); }
                for op in d.ops.iter_mut() {
                    match op {
                        Op::Node(a) => f(a),
                        Op::Edge(a, b) | Op::Pair(a, b) => { f(a); f(b) }
                        Op::Augment(p) => p.iter_mut().for_each(f),
                    }
                }
            });
        }
    }
    for k in 0..c.ops.len() {
        if let Op::Augment(p) = &c.ops[k] {
            let half = p.len() / 4 * 2;
            if half >= 4 {
                for q in [&p[..half], &p[half..], &p[half / 2 / 2 * 2..]] {
                    cand!(d => d.ops[k] = Op::Augment(q.to_vec()));
                }
            }
            for i in 0..if p.len() > 300 { 0 } else { p.len() / 2 } {
                let mut q = p.clone();
                q.drain(2 * i..2 * i + 2);
                cand!(d => d.ops[k] = Op::Augment(q.clone()));
            }
        }
    }
    for d in out.iter_mut() {
        refit(d, check);
    }
    out.retain(|d| d != c && valid(d));
    out
}

/// Whether this is the run of C24 in the build without optimization.
pub fn plain() -> bool {
    std::env::var_os("VERIF_PLAIN").is_some()
}

/// Greedy descent over the neighbors; `test` says whether a case still fails.
pub fn haste() -> bool {
    std::env::var_os("VERIF_HASTE").is_some()
}

pub fn minimize(check: &str, c: Case, budget: Duration, test: &mut dyn FnMut(&Case) -> bool) -> Case {
    // VERIF_HASTE: for trying many planted bugs
    let end = Instant::now() + if haste() { Duration::ZERO } else { budget };
    let mut best = c;
    'outer: loop {
        for d in neighbors_of(&best, check, end) {
            if Instant::now() > end {
                break 'outer;
            }
            if test(&d) {
                best = d;
                continue 'outer;
            }
        }
        break;
    }
    best
}

// ---- reports -----------------------------------------------------------------------------------

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Report<'a> {
    pub check: &'a Check,
    pub tier: Tier,
    pub seed: u64,
    pub wall: f64,
    pub violations: usize,
    pub note: String,
}

pub fn write_evidence(r: &Report, st: &Stats, cut_short: bool) {
    let labels: Vec<String> = st.labels.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect();
    let samples: Vec<String> = st.samples.iter().take(8).map(|s| esc(s)).collect();
    let giants = r.check.giants.map_or(String::new(), |f| {
        let mut k = 0;
        f(r.tier, &mut |_, _| {
            k += 1;
            true
        });
        format!("; and {k} large cases (most of 70000 nodes or over 65536 edges; those that build a maximum matching, of 300 to 3000 nodes)")
    });
    let text = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"from_exhaustive_scopes_and_regressions\": {},\n  \"exhaustive_scopes\": {},\n  \"skipped_outside_the_property\": {},\n  \"stopped_by_time_limit\": {},\n  \"labels\": {{{}}},\n  \"note\": {},\n  \"samples\": [{}]\n }},\n \"assumptions\": [\"the sampled inputs are of the sizes and shapes given in the rule; of larger ones only the few named under exhaustive_scopes are explored\"],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        esc(r.check.id),
        esc(r.tier.name()),
        r.seed,
        st.evaluations,
        st.seen.len(),
        esc(r.check.rule),
        st.exhaustive,
        esc(&format!("{}{giants}", (r.check.scope)(r.tier))),
        st.skipped,
        cut_short,
        labels.join(", "),
        esc(&r.note),
        samples.join(",\n   "),
        r.wall,
        r.violations
    );
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{}.json", r.check.id)), text).expect("evidence");
}

pub fn report_violation(check: &Check, c: &Case, why: &str) {
    let path = write_case(check.id, &format!("{:016x}", hash_case(c)), c, why);
    for l in why.lines().take(6) {
        println!("{}: {}", check.id, l.chars().take(700).collect::<String>());
    }
    println!("VIOLATION property={} replay={}", check.id, path.display());
}

pub fn read_case(path: &Path) -> Result<(String, Case), String> {
    let text = std::fs::read_to_string(path).map_err(|e| format!("{}: {e}", path.display()))?;
    Case::from_text(&text)
}
