//! The checks of the harness as a libFuzzer target: the input is the choice sequence a case is
//! decoded from. VERIF_FUZZ_CHECK names the check. A failing case aborts, so that libFuzzer writes
//! the input down; the harness decodes, confirms and minimizes it.
#![no_main]
#![allow(dead_code)]

#[path = "../../harness/src/alloc.rs"]
mod alloc;
#[path = "../../harness/src/case.rs"]
mod case;
#[path = "../../harness/src/checks.rs"]
mod checks;
#[path = "../../harness/src/checks_graph.rs"]
mod checks_graph;
#[path = "../../harness/src/checks_iter.rs"]
mod checks_iter;
#[path = "../../harness/src/checks_large.rs"]
mod checks_large;
#[path = "../../harness/src/checks_matching.rs"]
mod checks_matching;
#[path = "../../harness/src/checks_more.rs"]
mod checks_more;
#[path = "../../harness/src/checks_traversal.rs"]
mod checks_traversal;
#[path = "../../harness/src/choice.rs"]
mod choice;
#[path = "../../harness/src/driver.rs"]
mod driver;
#[path = "../../harness/src/gen.rs"]
mod gen;
#[path = "../../harness/src/giants.rs"]
mod giants;
#[path = "../../harness/src/graphs.rs"]
mod graphs;
#[path = "../../harness/src/oracle.rs"]
mod oracle;
#[path = "../../harness/src/refmatch.rs"]
mod refmatch;

use driver::*;
use libfuzzer_sys::fuzz_target;
use std::collections::HashSet;
use std::sync::Mutex;
use std::time::Instant;

struct State {
    check: checks::Check,
    runs: u64,
    seen: HashSet<u64>,
    written: Instant,
}

static STATE: Mutex<Option<State>> = Mutex::new(None);

fuzz_target!(|data: &[u8]| {
    let mut guard = STATE.lock().unwrap_or_else(|e| e.into_inner());
    let st = guard.get_or_insert_with(|| {
        // the runtime aborts on any panic; some checks provoke panics on purpose
        quiet_panics();
        choice::LARGE.store(false, std::sync::atomic::Ordering::Relaxed);
        let id = std::env::var("VERIF_FUZZ_CHECK").expect("VERIF_FUZZ_CHECK");
        let check = checks::all().into_iter().find(|c| c.id == id).expect("check");
        State { check, runs: 0, seen: HashSet::new(), written: Instant::now() }
    });
    let choices = choice::from_bytes(data);
    let c = (st.check.gen)(&mut choice::Src::new(&choices));
    let mut o = Obs::default();
    let out = run_case(&st.check, &c, &mut o);
    st.runs += 1;
    if o.is_nontrivial() {
        st.seen.insert(hash_case(&c));
    }
    if st.runs % 256 == 0 && st.written.elapsed().as_secs() >= 2 {
        st.written = Instant::now();
        if let Some(dir) = std::env::var_os("VERIF_FUZZ_STATS") {
            let f = std::path::Path::new(&dir).join(format!("{}.stats", std::process::id()));
            let _ = std::fs::write(f, format!("{} {}\n", st.runs, st.seen.len()));
        }
    }
    if let Outcome::Fail(_) | Outcome::Harness(_) = out {
        std::process::abort();
    }
});
