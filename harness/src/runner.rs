//! Runs the cases of a property in worker processes, watches them for crashes and hangs,
//! merges what they observed and writes evidence.

use crate::case::{Case, Tier};
use crate::props::{self, Property};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

static PANIC: Mutex<Option<(String, String)>> = Mutex::new(None);

fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let location = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let message = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let mut slot = PANIC.lock().unwrap_or_else(|e| e.into_inner());
        if slot.is_none() {
            *slot = Some((location, message));
        }
    }));
}

pub enum Outcome {
    Held,
    Violated(String),
    HarnessError(String),
}

pub fn run_case(p: &Property, case: &mut Case) -> Outcome {
    *PANIC.lock().unwrap_or_else(|e| e.into_inner()) = None;
    let run = p.run;
    match catch_unwind(AssertUnwindSafe(|| run(case))) {
        Ok(Ok(())) => Outcome::Held,
        Ok(Err(message)) => Outcome::Violated(message),
        Err(_) => {
            let panic = PANIC.lock().unwrap_or_else(|e| e.into_inner()).take();
            let (location, message) = panic.unwrap_or_default();
            if is_harness(&location) {
                Outcome::HarnessError(format!("harness panicked at {location}: {message}"))
            } else {
                Outcome::Violated(format!("panic in the code under test at {location}: {message}"))
            }
        }
    }
}

fn is_harness(location: &str) -> bool {
    // own sources are compiled with relative paths, the code under test with absolute ones
    location.starts_with("src/") || location.contains("/harness/src/")
}

struct Args {
    id: String,
    tier: Tier,
    seed: u64,
}

fn tier(name: &str) -> Tier {
    if name == "thorough" {
        Tier::Thorough
    } else {
        Tier::Quick
    }
}

fn tier_name(t: Tier) -> &'static str {
    match t {
        Tier::Quick => "quick",
        Tier::Thorough => "thorough",
    }
}

pub fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |i: usize| args.get(i).cloned().unwrap_or_default();
    let a = Args {
        id: get(2),
        tier: tier(&get(3)),
        seed: get(4).parse().unwrap_or(1),
    };
    let code = match get(1).as_str() {
        "run" => parent(&a),
        "worker" => worker(&a, &args[5..]),
        "case" => single(&a, get(5).parse().expect("index")),
        "hang" => hang(&a.id),
        "sweep" => sweep(&args[2..]),
        "list" => {
            for p in props::all() {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: verif_harness run|case ID quick|thorough SEED [INDEX]");
            2
        }
    };
    std::process::exit(code);
}

fn find(id: &str) -> Property {
    match props::all().into_iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        }
    }
}

/// Cases run in a thread with a stack of the size of a main thread.
fn with_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(f)
        .expect("thread")
        .join()
        .unwrap_or_else(|_| std::process::exit(2))
}

const SIGXCPU: i32 = 24;
const SITE_CODE: i32 = 86;

extern "C" {
    fn signal(signum: i32, handler: usize) -> usize;
    fn sigemptyset(set: *mut [u64; 16]) -> i32;
    fn sigaddset(set: *mut [u64; 16], signum: i32) -> i32;
    fn pthread_sigmask(how: i32, set: *const [u64; 16], old: *mut [u64; 16]) -> i32;
    fn _exit(code: i32) -> !;
}

/// Runs f in a thread which, when the CPU time is used up, tells where it is and ends the process.
fn with_site<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    extern "C" fn used_up(_: i32) {
        let trace = std::backtrace::Backtrace::force_capture().to_string();
        let _ = std::io::stdout().write_all(format!("STUCK AT\n{trace}\n").as_bytes());
        let _ = std::io::stdout().flush();
        unsafe { _exit(SITE_CODE) }
    }
    unsafe {
        signal(SIGXCPU, used_up as extern "C" fn(i32) as usize);
        let mut set = [0u64; 16];
        sigemptyset(&mut set);
        sigaddset(&mut set, SIGXCPU);
        pthread_sigmask(0, &set, std::ptr::null_mut());
    }
    with_stack(move || {
        unsafe {
            let mut set = [0u64; 16];
            sigemptyset(&mut set);
            sigaddset(&mut set, SIGXCPU);
            pthread_sigmask(1, &set, std::ptr::null_mut());
        }
        f()
    })
}

/// Runs the input of a known hang.
fn hang(key: &str) -> i32 {
    match crate::props::robust::hang(key) {
        Some(f) => {
            with_site(f);
            0
        }
        None => 2,
    }
}

/// Where a process given little CPU time for the input of a known hang gets stuck.
pub fn stuck(key: &str) -> Option<String> {
    let exe = std::env::current_exe().ok()?;
    let command = format!("ulimit -St 2; exec timeout 60 '{}' hang {key}", exe.display());
    let output = Command::new("sh").args(["-c", &command]).output().ok()?;
    match output.status.code() {
        Some(0) => None,
        _ => Some(String::from_utf8_lossy(&output.stdout).to_string()),
    }
}

/// Cases of many properties in turn for a sanitizer to watch, verdicts are left to their own checks:
/// sweep IDS SEED SLOT SLOTS SECONDS.
fn sweep(args: &[String]) -> i32 {
    install_panic_hook();
    let ids: Vec<String> = args[0].split(',').map(String::from).collect();
    let numbers: Vec<u64> = args[1..].iter().map(|a| a.parse().expect("number")).collect();
    let [seed, slot, slots, seconds] = numbers[..] else { panic!("SEED SLOT SLOTS SECONDS") };
    // sanitizers need more of the stack
    let job = move || {
        let all = props::all();
        let begin = Instant::now();
        let (mut n, mut cases, mut updates) = (slot, 0u64, 0u64);
        while begin.elapsed().as_secs() < seconds {
            let id = &ids[(n / slots) as usize % ids.len()];
            let p = all.iter().find(|p| p.id == id).expect("property");
            println!("AT {id} {n}");
            let mut case = Case::new(p.id, seed, n, Tier::Quick);
            let _ = run_case(p, &mut case);
            cases += 1;
            updates += case.stats.get("updates").copied().unwrap_or(0);
            n += slots;
        }
        println!("SWEPT {cases} {updates}");
    };
    std::thread::Builder::new().stack_size(512 << 20).spawn(job).expect("thread").join().map_or(2, |_| 0)
}

fn single(a: &Args, index: u64) -> i32 {
    install_panic_hook();
    let p = find(&a.id);
    let (seed, tier) = (a.seed, a.tier);
    with_site(move || {
        let mut case = Case::new(p.id, seed, index, tier);
        case.verbose = true;
        match run_case(&p, &mut case) {
            Outcome::Held => {
                println!("HELD {:?}", case.stats);
                0
            }
            Outcome::Violated(m) => {
                println!("VIOLATED {m}");
                1
            }
            Outcome::HarnessError(m) => {
                println!("HARNESS ERROR {m}");
                2
            }
        }
    })
}

fn worker(a: &Args, rest: &[String]) -> i32 {
    install_panic_hook();
    let start: u64 = rest[0].parse().unwrap();
    let stride: u64 = rest[1].parse().unwrap();
    let total: u64 = rest[2].parse().unwrap();
    let seconds: u64 = rest[3].parse().unwrap();
    let out = PathBuf::from(&rest[4]);
    let p = find(&a.id);
    let (seed, tier) = (a.seed, a.tier);
    with_stack(move || {
        let cur = std::fs::File::create(out.with_extension("cur")).expect("progress file");
        let begin = Instant::now();
        let mut stats: BTreeMap<&'static str, u64> = BTreeMap::new();
        let mut sigs: HashSet<u64> = HashSet::new();
        let mut samples: Vec<Value> = vec![];
        let mut evaluations = 0u64;
        let mut violation = Value::Null;
        let mut code = 0;
        let mut index = start;
        while index < total && begin.elapsed().as_secs() < seconds {
            let _ = cur.write_at(&index.to_le_bytes(), 0);
            let mut case = Case::new(p.id, seed, index, tier);
            let outcome = run_case(&p, &mut case);
            evaluations += 1;
            for (k, v) in &case.stats {
                *stats.entry(k).or_default() += v;
            }
            match outcome {
                Outcome::Held => {
                    if case.nontrivial {
                        sigs.insert(case.sig());
                        if samples.len() < 2 && case.trace.iter().map(|t| t.len()).sum::<usize>() < 6000 {
                            samples.push(json!({
                                "case": index, "trace": case.trace, "observed": case.stats,
                            }));
                        }
                    }
                }
                Outcome::Violated(m) => {
                    violation = json!({"index": index, "message": m, "trace": case.trace});
                    code = 1;
                    break;
                }
                Outcome::HarnessError(m) => {
                    violation = json!({"index": index, "message": m, "trace": case.trace});
                    code = 2;
                    break;
                }
            }
            index += stride;
        }
        let bytes: Vec<u8> = sigs.iter().flat_map(|s| s.to_le_bytes()).collect();
        std::fs::write(out.with_extension("sigs"), bytes).expect("write");
        let result = json!({
            "evaluations": evaluations, "stats": stats, "samples": samples, "violation": violation,
        });
        std::fs::write(out.with_extension("json"), result.to_string()).expect("write");
        code
    })
}

fn read_cur(path: &Path) -> Option<u64> {
    let bytes = std::fs::read(path).ok()?;
    Some(u64::from_le_bytes(bytes.get(..8)?.try_into().ok()?))
}

struct Job {
    child: Child,
    out: PathBuf,
    last: (Option<u64>, Instant),
    status: Option<std::process::ExitStatus>,
    hung: bool,
    excused: bool,
    slot: u64,
}

const HANG_SECONDS: u64 = 60;
const CONFIRM_CPU_SECONDS: u64 = 40;

fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

fn parent(a: &Args) -> i32 {
    let begin = Instant::now();
    let p = find(&a.id);
    let (mut total, mut seconds): (u64, u64) = match a.tier {
        Tier::Quick => (p.quick, 60),
        Tier::Thorough => (p.thorough, 1500),
    };
    if let Ok(n) = std::env::var("VERIF_CASES") {
        total = n.parse().unwrap();
    }
    if let Ok(n) = std::env::var("VERIF_SECONDS") {
        seconds = n.parse().unwrap();
    }
    let dir = std::env::temp_dir().join(format!("verif-{}-{}", a.id, std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let exe = std::env::current_exe().expect("exe");
    let workers = 8u64.min(total.max(1));
    let mut jobs: Vec<Job> = vec![];
    let known = std::fs::read_to_string(verif_dir().join("known-findings.txt")).unwrap_or_default();
    let mut known_seen = vec![];
    let mut stuck_cases: Vec<(u64, String)> = vec![];
    let spawn = |k: u64, start: u64| {
        let out = dir.join(format!("w{k}-{start}"));
        let left = seconds.saturating_sub(begin.elapsed().as_secs());
        let child = Command::new(&exe)
            .args(["worker", p.id, tier_name(a.tier), &a.seed.to_string()])
            .args([start.to_string(), workers.to_string(), total.to_string(), left.to_string()])
            .arg(&out)
            .stdout(Stdio::null())
            .spawn()
            .expect("worker");
        Job {
            child,
            out,
            last: (None, Instant::now()),
            status: None,
            hung: false,
            excused: false,
            slot: k,
        }
    };
    for k in 0..workers {
        jobs.push(spawn(k, k));
    }
    loop {
        let mut running = 0;
        let mut failed = false;
        let mut again = vec![];
        for job in jobs.iter_mut() {
            if job.status.is_some() {
                continue;
            }
            match job.child.try_wait().expect("wait") {
                Some(status) => {
                    job.status = Some(status);
                    failed |= !status.success();
                }
                None => {
                    running += 1;
                    let cur = read_cur(&job.out.with_extension("cur"));
                    if cur != job.last.0 {
                        job.last = (cur, Instant::now());
                    } else if job.last.1.elapsed() > Duration::from_secs(HANG_SECONDS) {
                        job.hung = true;
                        let _ = job.child.kill();
                        job.status = Some(job.child.wait().expect("wait"));
                        // a known hang of the layout library does not end the run
                        let site = cur.and_then(|i| Some((i, known_site(&exe, a, i, &known)?)));
                        match site {
                            Some((index, key)) => {
                                job.excused = true;
                                running += 1;
                                stuck_cases.push((index, key));
                                again.push((job.slot, index + workers));
                            }
                            None => failed = true,
                        }
                    }
                }
            }
        }
        if failed {
            // the first failure decides, the rest need not finish
            for job in jobs.iter_mut() {
                if job.status.is_none() {
                    let _ = job.child.kill();
                    let _ = job.child.wait();
                }
            }
            break;
        }
        if running == 0 {
            break;
        }
        for (slot, start) in again {
            jobs.push(spawn(slot, start));
        }
        std::thread::sleep(Duration::from_millis(30));
    }

    let mut evaluations = 0u64;
    let mut stats: BTreeMap<String, u64> = BTreeMap::new();
    let mut sigs: HashSet<u64> = HashSet::new();
    let mut samples: Vec<Value> = vec![];
    let mut violation: Option<(u64, String, Value)> = None;
    let mut errors: Vec<String> = vec![];
    for job in &jobs {
        let Some(status) = job.status else { continue };
        if job.excused {
            continue;
        }
        let cur = read_cur(&job.out.with_extension("cur"));
        if job.hung || status.signal().is_some() {
            // confirm with the single case in a process of its own
            let Some(index) = cur else {
                errors.push("worker died before its first case".into());
                continue;
            };
            match confirm(&exe, a, index, job.hung) {
                Confirm::Violated(m, trace) => violation = Some((index, m, trace)),
                Confirm::Inconclusive(m) => errors.push(m),
            }
            continue;
        }
        let text = std::fs::read_to_string(job.out.with_extension("json")).unwrap_or_default();
        let Ok(result) = serde_json::from_str::<Value>(&text) else {
            errors.push(format!("worker exited with {status} and left no result"));
            continue;
        };
        evaluations += result["evaluations"].as_u64().unwrap_or(0);
        for (k, v) in result["stats"].as_object().into_iter().flatten() {
            *stats.entry(k.clone()).or_default() += v.as_u64().unwrap_or(0);
        }
        samples.extend(result["samples"].as_array().into_iter().flatten().cloned());
        let bytes = std::fs::read(job.out.with_extension("sigs")).unwrap_or_default();
        sigs.extend(bytes.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
        let v = &result["violation"];
        match status.code() {
            Some(0) => {}
            Some(1) => {
                let message = v["message"].as_str().unwrap_or("").to_string();
                violation = Some((v["index"].as_u64().unwrap_or(0), message, v["trace"].clone()));
            }
            _ => errors.push(v["message"].as_str().unwrap_or("worker failed").to_string()),
        }
    }
    let _ = std::fs::remove_dir_all(&dir);

    // known findings: the exact failing input is tried on every run
    for (index, key) in stuck_cases {
        println!("KNOWN-FINDING: property={} {key}: case {index} does not terminate there", p.id);
        known_seen.push(key);
    }
    for probe in (p.probes)() {
        install_panic_hook();
        if let Err(message) = (probe.run)() {
            let tag = format!("property={} key={} ", p.id, probe.key);
            if known.lines().any(|l| l.starts_with("known: ") && l.contains(&tag)) {
                println!("KNOWN-FINDING: property={} {}: {}", p.id, probe.key, message);
                known_seen.push(probe.key.to_string());
            } else if violation.is_none() {
                violation = Some((u64::MAX, format!("{}: {message}", probe.key), Value::Null));
            }
        }
    }

    samples.truncate(3);
    let wall = begin.elapsed().as_secs_f64();
    let evidence = json!({
        "property": p.id,
        "tier": tier_name(a.tier),
        "seed": a.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": sigs.len(),
            "rule": p.rule,
            "samples": samples,
            "observed": stats,
            "planned_cases": total,
            "known_findings_seen": known_seen,
        },
        "assumptions": p.assumptions,
        "wall_s": wall,
        "violations": if violation.is_some() { 1 } else { 0 },
    });
    let path = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&path);
    std::fs::write(path.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&evidence).unwrap())
        .expect("evidence");

    if let Some((index, message, trace)) = violation {
        let replays = verif_dir().join("replays");
        let _ = std::fs::create_dir_all(&replays);
        let file = replays.join(format!("{}-{}-{}.txt", p.id, a.seed, index));
        let mut f = std::fs::File::create(&file).expect("replay");
        let _ = writeln!(f, "property: {}\nmessage: {message}", p.id);
        let _ = writeln!(
            f,
            "again: {} case {} {} {} {index}\n",
            exe.display(),
            p.id,
            tier_name(a.tier),
            a.seed
        );
        for line in trace.as_array().into_iter().flatten() {
            let _ = writeln!(f, "{}", line.as_str().unwrap_or(""));
        }
        println!("{message}");
        println!("VIOLATION property={} replay={}", p.id, file.display());
        return 1;
    }
    if !errors.is_empty() {
        for e in errors {
            println!("INCONCLUSIVE {e}");
        }
        return 2;
    }
    if sigs.is_empty() || evaluations == 0 {
        println!("INCONCLUSIVE nothing observed");
        return 3;
    }
    println!(
        "held: property={} evaluations={evaluations} distinct_nontrivial={} wall={wall:.1}s {stats:?}",
        p.id,
        sigs.len()
    );
    0
}

/// The key of the listed finding, if the case gets stuck in the function the finding names.
fn known_site(exe: &Path, a: &Args, index: u64, known: &str) -> Option<String> {
    let mut sites = vec![];
    for line in known.lines().filter(|l| l.starts_with("known: ")) {
        let word = |prefix: &str| Some(line.split(' ').find_map(|w| w.strip_prefix(prefix))?.to_string());
        if let (Some(key), Some(site)) = (word("key="), word("site=")) {
            sites.push((key, site));
        }
    }
    if sites.is_empty() {
        return None;
    }
    let output = confirm_run(exe, a, index);
    if output.status.code() != Some(SITE_CODE) {
        return None;
    }
    let text = String::from_utf8_lossy(&output.stdout).to_string();
    let trace = text.split("STUCK AT").last()?;
    sites.into_iter().find(|(_, site)| trace.contains(site.as_str())).map(|(key, _)| key)
}

enum Confirm {
    Violated(String, Value),
    Inconclusive(String),
}

fn confirm_run(exe: &Path, a: &Args, index: u64) -> std::process::Output {
    let command = format!(
        "ulimit -St {CONFIRM_CPU_SECONDS}; exec timeout 200 '{}' case {} {} {} {index}",
        exe.display(),
        a.id,
        tier_name(a.tier),
        a.seed
    );
    Command::new("sh").args(["-c", &command]).output().expect("confirm")
}

fn confirm(exe: &Path, a: &Args, index: u64, hung: bool) -> Confirm {
    let output = confirm_run(exe, a, index);
    let trace: Vec<String> = String::from_utf8_lossy(&output.stdout).lines().map(String::from).collect();
    let trace = json!(trace);
    match (output.status.signal(), output.status.code()) {
        (Some(9), _) => Confirm::Inconclusive(format!("case {index} was killed (memory?)")),
        (_, Some(SITE_CODE)) | (Some(SIGXCPU), _) | (_, Some(124)) | (_, Some(152)) => Confirm::Violated(
            format!("does not terminate: case {index} used {CONFIRM_CPU_SECONDS} s of CPU time"),
            trace,
        ),
        (Some(s), _) => Confirm::Violated(format!("process died with signal {s} in case {index}"), trace),
        (_, Some(1)) => Confirm::Violated(format!("case {index} violated the property"), trace),
        (_, code) => Confirm::Inconclusive(format!(
            "worker {} in case {index}, alone it exits with {code:?}",
            if hung { "made no progress" } else { "died" }
        )),
    }
}
