mod alloc;
mod case;
mod checks;
mod checks_graph;
mod checks_iter;
mod checks_large;
mod checks_matching;
mod checks_more;
mod checks_traversal;
mod choice;
mod driver;
mod gen;
mod giants;
mod graphs;
mod oracle;
mod refmatch;

use checks::{Check, Tier};
use driver::*;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, ExitStatus, Stdio};
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn find(id: &str) -> Check {
    checks::all().into_iter().find(|c| c.id == id).unwrap_or_else(|| {
        eprintln!("no check {id}");
        std::process::exit(2)
    })
}

fn env<T: std::str::FromStr>(name: &str, default: T) -> T {
    std::env::var(name).ok().and_then(|x| x.parse().ok()).unwrap_or(default)
}

fn tier() -> Tier {
    if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") {
        Tier::Thorough
    } else {
        Tier::Quick
    }
}

fn seed() -> u64 {
    env("VERIF_SEED", 1)
}

fn budget() -> Duration {
    Duration::from_secs(env("VERIF_BUDGET_S", if tier() == Tier::Quick { 240 } else { 450 }))
}

fn crashed(s: &ExitStatus) -> bool {
    // abort (also of a stack overflow), bus error, illegal instruction, division, segmentation fault
    matches!(s.signal(), Some(4 | 6 | 7 | 8 | 11))
}

/// The worker explores and reports; a crash or a hang ends it and is handled by its parent.
fn worker(id: &str, trace: Option<PathBuf>) -> i32 {
    let check = find(id);
    let start = Instant::now();
    let run = explore(&check, tier(), seed(), budget(), trace);
    if let Some(e) = run.broken {
        eprintln!("{id}: ERROR of the check: {e}");
        if run.found.is_none() {
            return 2;
        }
    }
    let mut found = None;
    if let Some((c, e)) = run.found {
        let tries = if fails(&check, &c, 1).is_some() { 3 } else { 30 };
        let mut small = minimize(id, c.clone(), Duration::from_secs(40), &mut |d| fails(&check, d, tries).is_some());
        let mut why = fails(&check, &small, 60);
        if why.is_none() {
            small = c;
            why = fails(&check, &small, 60);
        }
        found = Some((small, why.unwrap_or(e)));
    }
    let report = Report {
        check: &check,
        tier: tier(),
        seed: seed(),
        wall: start.elapsed().as_secs_f64(),
        violations: found.is_some() as usize,
        note: String::new(),
    };
    write_evidence(&report, &run.stats, run.cut_short);
    let st = &run.stats;
    println!(
        "{id}: {} cases, {} distinct and non-trivial, {} skipped, {:.1} s{}",
        st.evaluations,
        st.seen.len(),
        st.skipped,
        report.wall,
        if run.cut_short { ", stopped by the time limit" } else { "" }
    );
    match found {
        Some((c, e)) => {
            report_violation(&check, &c, &e);
            1
        }
        None => 0,
    }
}

/// Runs a command; None when it exceeds the limit.
fn wait_for(cmd: &mut Command, limit: Duration) -> Option<ExitStatus> {
    let mut child = cmd.spawn().expect("spawn");
    let end = Instant::now() + limit;
    loop {
        if let Some(s) = child.try_wait().expect("wait") {
            return Some(s);
        }
        if Instant::now() > end {
            let _ = child.kill();
            let _ = child.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(3));
    }
}

/// Whether the case ends its process, or keeps it busy beyond the limit.
fn kills(path: &Path, limit: Duration) -> Option<String> {
    let me = std::env::current_exe().expect("exe");
    let s = wait_for(Command::new(me).arg("replay-once").arg(path).stdout(Stdio::null()).stderr(Stdio::null()), limit);
    match s {
        None => Some(format!("does not return within {} s", limit.as_secs())),
        Some(s) if crashed(&s) => Some(format!("ends the process with signal {}", s.signal().unwrap())),
        Some(s) if s.code() == Some(3) => Some("allocates without bound".into()),
        _ => None,
    }
}

fn parent(id: &str) -> i32 {
    let check = find(id);
    let me = std::env::current_exe().expect("exe");
    let start = Instant::now();
    let limit = budget() + Duration::from_secs(90);
    let _ = std::fs::remove_file(hang_file(id));
    let ev = verif_dir().join("evidence").join(format!("{id}.json"));
    let _ = std::fs::remove_file(&ev);
    let status = wait_for(Command::new(&me).args(["worker", id]), limit);
    let mut candidates = vec![];
    match status {
        Some(s) if s.code() == Some(3) => candidates.push(hang_file(id)),
        Some(s) if crashed(&s) => {
            // again with each case written down before it runs; more than once, as hash maps differ
            // from run to run
            let dir = verif_dir().join("out").join(format!("{id}-trace"));
            let again = |_: &i32| {
                let _ = std::fs::remove_dir_all(&dir);
                std::fs::create_dir_all(&dir).expect("trace directory");
                let s = wait_for(
                    Command::new(&me).args(["worker", id]).arg(&dir).stdout(Stdio::null()).stderr(Stdio::null()),
                    limit,
                );
                s.map_or(false, |s| s.code() != Some(0))
            };
            if (0..4).find(again).is_none() {
                eprintln!("{id}: ERROR: the process was ended by {s}, but not in four more runs");
                return 2;
            }
            for k in 0..SHARDS {
                let f = dir.join(format!("{k}.case"));
                if f.exists() {
                    candidates.push(f);
                }
            }
        }
        Some(s) if s.code() == Some(0) => match std::env::var_os("VERIF_FUZZ_BIN") {
            Some(bin) if tier() == Tier::Thorough => return fuzz_phase(&check, Path::new(&bin), &ev),
            _ => return 0,
        },
        Some(s) => {
            return s.code().unwrap_or_else(|| {
                eprintln!("{id}: ERROR: the process was ended by {s}");
                2
            })
        }
        None => {
            eprintln!("{id}: ERROR: no answer within {} s", limit.as_secs());
            return 2;
        }
    }
    let limit = Duration::from_secs_f64(if haste() { 8.0 } else { 30.0 } * check.slow);
    for f in candidates {
        let (Ok((_, c)), Some(why)) = (read_case(&f), (0..3).find_map(|_| kills(&f, limit))) else { continue };
        let tmp = verif_dir().join("out").join(format!("{id}-candidate.case"));
        let quick = if why.contains("return") { Duration::from_secs(5) } else { limit };
        let small = minimize(id, c, Duration::from_secs(60), &mut |d| {
            std::fs::write(&tmp, d.to_text(id)).expect("candidate");
            kills(&tmp, quick).is_some()
        });
        let _ = std::fs::remove_file(&tmp);
        let mut st = Stats { evaluations: 1, ..Stats::default() };
        st.samples.push(small.to_line(id));
        let report = Report {
            check: &check,
            tier: tier(),
            seed: seed(),
            wall: start.elapsed().as_secs_f64(),
            violations: 1,
            note: "the exploring process was ended by the case; its counts are lost".into(),
        };
        write_evidence(&report, &st, false);
        let why = if plain() { format!("{why} (in the build without optimization)") } else { why };
        report_violation(&check, &small, &why);
        return 1;
    }
    eprintln!("{id}: ERROR: the process ended abnormally, and no case does so when replayed alone");
    2
}

/// Coverage-guided search from the choice sequences libFuzzer makes, in processes that share a
/// corpus. What it finds is confirmed and minimized here.
fn fuzz_phase(check: &Check, bin: &Path, ev: &Path) -> i32 {
    let id = check.id;
    let secs: u64 = env("VERIF_FUZZ_S", 240);
    let start = Instant::now();
    let dir = verif_dir().join("out").join(format!("{id}-fuzz-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&dir);
    for d in ["corpus", "found", "stats"] {
        std::fs::create_dir_all(dir.join(d)).expect("fuzz directory");
    }
    let jobs = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 8);
    let mut children = vec![];
    for k in 0..jobs {
        let log = std::fs::File::create(dir.join(format!("{k}.log"))).expect("log");
        let r = Command::new(bin)
            .env("VERIF_FUZZ_CHECK", id)
            .env("VERIF_FUZZ_STATS", dir.join("stats"))
            .arg(format!("-seed={}", seed().wrapping_mul(1000).wrapping_add(k as u64 + 1) as u32))
            .arg(format!("-max_total_time={secs}"))
            .args(["-max_len=480", "-len_control=20", "-print_funcs=0", "-timeout=100", "-rss_limit_mb=3000", "-reload=1"])
            .arg(format!("-artifact_prefix={}/found/", dir.display()))
            .arg(dir.join("corpus"))
            .stdout(Stdio::null())
            .stderr(log)
            .spawn();
        match r {
            Ok(c) => children.push(c),
            Err(e) => eprintln!("{id}: the coverage-guided phase does not start: {e}"),
        }
    }
    let end = start + Duration::from_secs(secs + 30);
    // the first finding ends the phase
    while children.iter_mut().any(|c| matches!(c.try_wait(), Ok(None))) && Instant::now() < end {
        if std::fs::read_dir(dir.join("found")).map_or(false, |mut d| d.next().is_some()) {
            std::thread::sleep(Duration::from_millis(500));
            break;
        }
        std::thread::sleep(Duration::from_millis(200));
    }
    for c in children.iter_mut() {
        let _ = c.kill();
        let _ = c.wait();
    }
    let (mut runs, mut hits) = (0u64, 0u64);
    for f in std::fs::read_dir(dir.join("stats")).into_iter().flatten().flatten() {
        let text = std::fs::read_to_string(f.path()).unwrap_or_default();
        let mut n = text.split_whitespace().map(|x| x.parse().unwrap_or(0));
        runs += n.next().unwrap_or(0);
        hits += n.next().unwrap_or(0);
    }
    let corpus = std::fs::read_dir(dir.join("corpus")).map_or(0, |d| d.count());
    choice::LARGE.store(false, std::sync::atomic::Ordering::Relaxed);
    let mut found = vec![];
    for f in std::fs::read_dir(dir.join("found")).into_iter().flatten().flatten() {
        let data = std::fs::read(f.path()).unwrap_or_default();
        found.push((check.gen)(&mut choice::Src::new(&choice::from_bytes(&data))));
    }
    let _ = std::fs::remove_dir_all(&dir);
    let mut code = 0;
    for c in found {
        let tmp = verif_dir().join("out").join(format!("{id}-candidate.case"));
        std::fs::write(&tmp, c.to_text(id)).expect("candidate");
        let limit = Duration::from_secs_f64(if haste() { 8.0 } else { 30.0 } * check.slow);
        let why = kills(&tmp, limit);
        let (small, why) = if let Some(why) = why {
            let quick = if why.contains("return") { Duration::from_secs(5) } else { limit };
            let small = minimize(id, c, Duration::from_secs(60), &mut |d| {
                std::fs::write(&tmp, d.to_text(id)).expect("candidate");
                kills(&tmp, quick).is_some()
            });
            (small, why)
        } else {
            let Some(first) = fails(check, &c, 30) else { continue };
            let tries = if fails(check, &c, 1).is_some() { 3 } else { 30 };
            let small = minimize(id, c, Duration::from_secs(40), &mut |d| fails(check, d, tries).is_some());
            let why = fails(check, &small, 60).unwrap_or(first);
            (small, why)
        };
        let _ = std::fs::remove_file(&tmp);
        report_violation(check, &small, &why);
        code = 1;
        break;
    }
    let note = format!(
        "then a coverage-guided phase (libFuzzer, {} processes, {:.0} s): at least {runs} more executions, {hits} of them non-trivial and distinct within their process, {corpus} inputs kept for new coverage",
        children.len(),
        start.elapsed().as_secs_f64()
    );
    println!("{id}: {note}");
    if let Ok(text) = std::fs::read_to_string(ev) {
        let mut text = text.replacen("\"note\": \"\"", &format!("\"note\": \"{note}\""), 1);
        if code == 1 {
            text = text.replacen("\"violations\": 0", "\"violations\": 1", 1);
        }
        let _ = std::fs::write(ev, text);
    }
    code
}

fn replay(path: &Path, tries: usize) -> i32 {
    let (id, c) = match read_case(path) {
        Ok(x) => x,
        Err(e) => {
            eprintln!("{e}");
            return 2;
        }
    };
    let check = find(&id);
    // on a thread like those of the shards, watched for unbounded allocation
    let r = std::thread::scope(|s| {
        let h = std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn_scoped(s, || {
                alloc::bind(0);
                fails(&check, &c, tries)
            })
            .expect("thread");
        while !h.is_finished() {
            if alloc::is_stuck(0) {
                println!("{id}: allocates without bound");
                println!("VIOLATION property={id} replay={}", path.display());
                std::process::exit(3);
            }
            std::thread::sleep(Duration::from_millis(2));
        }
        h.join().expect("join")
    });
    match r {
        Some(e) => {
            println!("{id}: {e}");
            println!("VIOLATION property={id} replay={}", path.display());
            1
        }
        None => {
            // perhaps not in the build without optimization
            let there = std::env::current_exe().ok().and_then(|p| Some(p.parent()?.parent()?.join("plain/harness")));
            if let (Some(there), true, true) = (there.filter(|p| p.exists()), id == "C24" && tries > 5, !plain()) {
                let s = Command::new(there).env("VERIF_PLAIN", "1").arg("replay").arg(path).status().expect("status");
                if !s.success() {
                    println!("{id}: the build without optimization ends with {s}");
                    println!("VIOLATION property={id} replay={}", path.display());
                    return 1;
                }
            }
            println!("{id}: holds on {}", path.display());
            0
        }
    }
}

fn main() {
    quiet_panics();
    let args: Vec<String> = std::env::args().collect();
    let code = match args.iter().map(|s| s.as_str()).collect::<Vec<_>>()[1..] {
        ["list"] => {
            checks::all().iter().for_each(|c| println!("{}", c.id));
            0
        }
        ["check", id] => parent(id),
        // only the coverage-guided phase, to see what it finds by itself
        ["fuzz", id] => match std::env::var_os("VERIF_FUZZ_BIN") {
            Some(bin) => fuzz_phase(&find(id), Path::new(&bin), Path::new("/dev/null")),
            None => 2,
        },
        ["worker", id] => worker(id, None),
        ["worker", id, dir] => worker(id, Some(PathBuf::from(dir))),
        ["replay", file] => replay(Path::new(file), 100),
        ["replay-once", file] => replay(Path::new(file), 5),
        _ => {
            eprintln!("usage: harness check ID | replay FILE | list");
            2
        }
    };
    std::process::exit(code)
}
