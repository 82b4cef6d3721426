//! Seeded search over many simulated runs.
//!
//! The parent starts worker processes; run `i` of a batch is a pure function
//! of (VERIF_SEED, property, i) and the code, whatever worker executes it.  A
//! worker that dies or hangs is attributed to the run it was executing.
use crate::json::J;
use crate::sim::{fnv, splitmix, Sim, Verdict, Violation, FNV0};
use crate::world;
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub struct Check {
    pub id: &'static str,
    pub run: fn(&Sim) -> Verdict,
    /// runs of the quick and of the thorough tier
    pub quick: u64,
    pub thorough: u64,
    /// how cases are made and what makes one non-trivial
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
    /// probes that must have been reached in a batch
    pub must_reach: &'static [&'static str],
}

const QUICK_CAP: u64 = 240;
const THOROUGH_CAP: u64 = 2400;
const HANG_CPU: u64 = 25;
const STACK: usize = 512 << 20;

const EXIT_HANG: i32 = 97;

fn run_seed(base: u64, id: &str, i: u64) -> u64 {
    let mut s = base ^ fnv(FNV0, id.as_bytes());
    let a = splitmix(&mut s);
    let mut t = a ^ i.wrapping_mul(0xA24B_AED4_963E_E407);
    splitmix(&mut t)
}

/// Outcome of one run.
pub struct Outcome {
    pub violation: Option<Violation>,
    pub known: Vec<(String, String)>,
    pub tape: Vec<u64>,
    pub log: Vec<String>,
    pub digest: u64,
    pub shape: u64,
    pub nontrivial: bool,
    pub steps: u64,
    pub switches: u64,
    pub sim_ns: u64,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
}

fn execute(check: &Check, sim: Sim) -> Outcome {
    let f = check.run;
    let s2 = sim.clone();
    let r = std::thread::scope(|scope| {
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(scope, move || world::harness(&s2, || f(&s2)))
            .expect("spawn")
            .join()
    });
    let violation = match r {
        Ok(Ok(Ok(()))) => None,
        Ok(Ok(Err(v))) => Some(v),
        Ok(Err(msg)) => Some(Violation::new("panic", format!("panic: {}", msg))),
        Err(_) => Some(Violation::new("panic", "panic outside the simulation")),
    };
    let mut g = sim.lock();
    Outcome {
        violation,
        known: std::mem::replace(&mut g.known, Vec::new()),
        tape: std::mem::replace(&mut g.tape, Vec::new()),
        log: std::mem::replace(&mut g.log, Vec::new()),
        digest: g.digest,
        shape: g.shape,
        nontrivial: g.switches > 0 || !g.faults.is_empty(),
        steps: g.steps,
        switches: g.switches,
        sim_ns: g.sim_ns,
        faults: std::mem::replace(&mut g.faults, BTreeMap::new()),
        probes: std::mem::replace(&mut g.probes, BTreeMap::new()),
    }
}

fn cpu_ns() -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe {
        libc::syscall(libc::SYS_clock_gettime, libc::CLOCK_PROCESS_CPUTIME_ID, &mut ts);
    }
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}

static RUN_START: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

fn start_watchdog() {
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_millis(250));
        let st = RUN_START.load(std::sync::atomic::Ordering::SeqCst);
        if st != 0 && cpu_ns().saturating_sub(st) > HANG_CPU * 1_000_000_000 {
            unsafe { libc::_exit(EXIT_HANG) }
        }
    });
}

fn mark_run() {
    RUN_START.store(cpu_ns(), std::sync::atomic::Ordering::SeqCst);
}

fn limit_memory() {
    let lim = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
    unsafe {
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
    }
}

fn counts(m: &BTreeMap<String, u64>) -> J {
    J::Obj(m.iter().map(|(k, v)| (k.clone(), J::u(*v))).collect())
}

fn add(m: &mut BTreeMap<String, u64>, j: Option<&J>) {
    if let Some(J::Obj(v)) = j {
        for (k, n) in v {
            *m.entry(k.clone()).or_insert(0) += n.as_u64().unwrap_or(0);
        }
    }
}

fn strs(v: &[String]) -> J {
    J::Arr(v.iter().map(|s| J::s(s.clone())).collect())
}

fn nums(v: &[u64]) -> J {
    J::Arr(v.iter().map(|n| J::u(*n)).collect())
}

struct Args {
    tier: String,
    seed: u64,
}

fn budget(check: &Check, tier: &str) -> (u64, u64) {
    let scale = std::env::var("SIM_RUNS").ok().and_then(|s| s.parse::<u64>().ok());
    let n = if tier == "thorough" { check.thorough } else { check.quick };
    let cap = if tier == "thorough" { THOROUGH_CAP } else { QUICK_CAP };
    let cap = std::env::var("SIM_SECONDS").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(cap);
    (scale.unwrap_or(n), cap)
}

// ---------------------------------------------------------------- worker

fn worker(check: &Check, base: u64, w: u64, nw: u64, runs: u64, cap: u64, dir: &Path) {
    limit_memory();
    start_watchdog();
    let t0 = Instant::now();
    let mut prog = fs::File::create(dir.join(format!("progress.{}", w))).expect("progress");
    let stop = dir.join("stop");
    let mut shapes: Vec<u64> = Vec::new();
    let (mut steps, mut switches, mut sim_ns, mut done) = (0u64, 0u64, 0u64, 0u64);
    let (mut faults, mut probes) = (BTreeMap::new(), BTreeMap::new());
    let mut fault_runs = 0u64;
    let mut known: BTreeMap<String, (u64, String)> = BTreeMap::new();
    let mut samples = Vec::new();
    let (mut rechecked, mut mismatches) = (0u64, Vec::new());
    let mut found = J::Null;
    let mut i = w;
    let mut tape_len = 0u64;
    while i < runs && t0.elapsed().as_secs() < cap {
        if let Ok(s) = fs::read_to_string(&stop) {
            if s.trim().parse::<u64>().map(|n| n < i).unwrap_or(false) {
                break;
            }
        }
        use std::os::unix::fs::FileExt;
        let _ = prog.write_at(&i.to_le_bytes(), 0);
        mark_run();
        let seed = run_seed(base, check.id, i);
        let keep = i < 3;
        let o = execute(check, Sim::from_seed(seed, keep));
        done += 1;
        steps += o.steps;
        switches += o.switches;
        sim_ns += o.sim_ns;
        tape_len += o.tape.len() as u64;
        if !o.faults.is_empty() {
            fault_runs += 1;
        }
        for (k, v) in &o.faults {
            *faults.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &o.probes {
            *probes.entry(k.clone()).or_insert(0) += v;
        }
        for (k, m) in &o.known {
            let e = known.entry(k.clone()).or_insert((0, m.clone()));
            e.0 += 1;
        }
        if o.nontrivial {
            shapes.push(o.shape);
        }
        if keep {
            let n = o.log.len().min(25);
            samples.push(J::Obj(vec![
                ("run".into(), J::u(i)),
                ("run_seed".into(), J::u(seed)),
                ("decisions".into(), J::u(o.tape.len() as u64)),
                ("events".into(), J::u(o.log.len() as u64)),
                ("log_head".into(), strs(&o.log[..n])),
            ]));
        }
        if let Some(v) = o.violation {
            found = J::Obj(vec![
                ("index".into(), J::u(i)),
                ("seed".into(), J::u(seed)),
                ("kind".into(), J::s(v.kind)),
                ("msg".into(), J::s(v.msg)),
                ("tape".into(), nums(&o.tape)),
            ]);
            note_stop(&stop, i);
            break;
        }
        if i % 97 == 3 || i < 8 {
            mark_run();
            let o2 = execute(check, Sim::from_seed(seed, false));
            let o3 = execute(check, Sim::from_tape(o.tape.clone(), false));
            rechecked += 1;
            if o2.digest != o.digest || o3.digest != o.digest || o2.tape != o.tape {
                mismatches.push(seed);
            }
        }
        i += nw;
    }
    RUN_START.store(0, std::sync::atomic::Ordering::SeqCst);
    let mut f = fs::File::create(dir.join(format!("shapes.{}", w))).expect("shapes");
    let mut buf = Vec::with_capacity(shapes.len() * 8);
    for s in shapes {
        buf.extend_from_slice(&s.to_le_bytes());
    }
    f.write_all(&buf).expect("shapes");
    let out = J::Obj(vec![
        ("done".into(), J::u(done)),
        ("steps".into(), J::u(steps)),
        ("switches".into(), J::u(switches)),
        ("sim_ns".into(), J::Int(sim_ns as i128)),
        ("decisions".into(), J::u(tape_len)),
        ("fault_runs".into(), J::u(fault_runs)),
        ("faults".into(), counts(&faults)),
        ("probes".into(), counts(&probes)),
        (
            "known".into(),
            J::Obj(
                known
                    .into_iter()
                    .map(|(k, (n, m))| (k, J::Arr(vec![J::u(n), J::s(m)])))
                    .collect(),
            ),
        ),
        ("samples".into(), J::Arr(samples)),
        ("rechecked".into(), J::u(rechecked)),
        ("mismatches".into(), nums(&mismatches)),
        ("found".into(), found),
    ]);
    fs::write(dir.join(format!("result.{}", w)), out.render()).expect("result");
    let _ = prog.flush();
}

fn note_stop(stop: &Path, i: u64) {
    let old = fs::read_to_string(stop).ok().and_then(|s| s.trim().parse::<u64>().ok());
    if old.map(|o| i < o).unwrap_or(true) {
        let tmp = stop.with_extension(format!("tmp{}", i));
        let _ = fs::write(&tmp, format!("{}", i));
        let _ = fs::rename(&tmp, stop);
    }
}

// ------------------------------------------------- one run in a child process

/// Execute one run (from a seed or a tape) in this process and write the
/// outcome to `out`.
fn eval(check: &Check, src: &str, out: &Path) {
    limit_memory();
    start_watchdog();
    let sink = fs::File::create(out.with_extension("sink")).expect("sink");
    let sim = if src.starts_with("seed:") {
        Sim::from_seed(src[5..].parse().expect("seed"), true)
    } else {
        let t = fs::read_to_string(src).expect("tape");
        Sim::from_tape(
            t.split_whitespace().map(|x| x.parse().expect("tape")).collect(),
            true,
        )
    };
    sim.set_tape_sink(sink);
    mark_run();
    let o = execute(check, sim);
    RUN_START.store(0, std::sync::atomic::Ordering::SeqCst);
    let (kind, msg) = match o.violation {
        Some(v) => (J::s(v.kind), J::s(v.msg)),
        None => (J::Null, J::Null),
    };
    let j = J::Obj(vec![
        ("kind".into(), kind),
        ("msg".into(), msg),
        ("digest".into(), J::s(format!("{:016x}", o.digest))),
        ("faults".into(), counts(&o.faults)),
        ("probes".into(), counts(&o.probes)),
        ("steps".into(), J::u(o.steps)),
        ("tape".into(), nums(&o.tape)),
        ("log".into(), strs(&o.log)),
    ]);
    fs::write(out, j.render()).expect("out");
}

struct Evald {
    kind: Option<String>,
    msg: String,
    digest: String,
    tape: Vec<u64>,
    log: Vec<String>,
}

/// Execute one run in a fresh process.
fn eval_child(check: &Check, src: &str, dir: &Path) -> Evald {
    let out = dir.join("eval.json");
    let _ = fs::remove_file(&out);
    let st = Command::new(std::env::current_exe().expect("exe"))
        .args(&["eval", check.id, src])
        .arg(&out)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .status()
        .expect("spawn");
    if let Some(j) = fs::read_to_string(&out).ok().and_then(|s| J::parse(&s).ok()) {
        let arr = |k: &str| j.get(k).and_then(|x| x.as_arr()).map(|a| a.to_vec()).unwrap_or_default();
        return Evald {
            kind: j.get("kind").and_then(|k| k.as_str()).map(|s| s.to_string()),
            msg: j.get("msg").and_then(|k| k.as_str()).unwrap_or("").to_string(),
            digest: j.get("digest").and_then(|k| k.as_str()).unwrap_or("").to_string(),
            tape: arr("tape").iter().filter_map(|x| x.as_u64()).collect(),
            log: arr("log").iter().filter_map(|x| x.as_str().map(|s| s.to_string())).collect(),
        };
    }
    let mut bytes = Vec::new();
    if let Ok(mut f) = fs::File::open(out.with_extension("sink")) {
        let _ = f.read_to_end(&mut bytes);
    }
    let tape = bytes
        .chunks(8)
        .filter(|c| c.len() == 8)
        .map(|c| {
            let mut b = [0u8; 8];
            b.copy_from_slice(c);
            u64::from_le_bytes(b)
        })
        .collect();
    let (kind, msg) = describe_death(st.code(), {
        use std::os::unix::process::ExitStatusExt;
        st.signal()
    });
    Evald { kind: Some(kind), msg, digest: String::new(), tape, log: Vec::new() }
}

fn describe_death(code: Option<i32>, signal: Option<i32>) -> (String, String) {
    if code == Some(EXIT_HANG) {
        (
            "hang".to_string(),
            format!("the run used more than {} s of CPU time without finishing", HANG_CPU),
        )
    } else {
        (
            "abort".to_string(),
            format!(
                "the process died ({}): stack overflow, failed allocation or abort",
                match signal {
                    Some(s) => format!("signal {}", s),
                    None => format!("exit code {:?}", code),
                }
            ),
        )
    }
}

fn write_tape(dir: &Path, tape: &[u64]) -> PathBuf {
    let p = dir.join("tape.txt");
    let s: Vec<String> = tape.iter().map(|x| x.to_string()).collect();
    fs::write(&p, s.join(" ")).expect("tape");
    p
}

fn shrink(check: &Check, first: Evald, dir: &Path) -> Evald {
    let t0 = Instant::now();
    let limit = Duration::from_secs(60);
    let kind = first.kind.clone();
    let mut best = first;
    if kind.as_ref().map(|k| k == "hang").unwrap_or(false) {
        return best;
    }
    let mut tries = 0;
    {
        let mut attempt = |best: &mut Evald, cand: Vec<u64>| -> bool {
            if t0.elapsed() > limit || tries > 6000 || cand == best.tape {
                return false;
            }
            tries += 1;
            let p = write_tape(dir, &cand);
            let e = eval_child(check, p.to_str().expect("path"), dir);
            // the consumed tape must not grow, or the search would not end
            let better = e.kind == kind
                && (e.tape.len() < best.tape.len()
                    || (e.tape.len() == best.tape.len() && e.tape < best.tape));
            if better {
                *best = e;
            }
            better
        };
        loop {
            let before = (best.tape.len(), best.tape.clone());
            // delete chunks
            let mut size = (best.tape.len() / 2).max(1);
            while size >= 1 {
                let mut pos = 0;
                while pos < best.tape.len() {
                    let end = (pos + size).min(best.tape.len());
                    let mut c = best.tape.clone();
                    c.drain(pos..end);
                    if !attempt(&mut best, c) {
                        // zero the chunk instead
                        let mut c = best.tape.clone();
                        for x in &mut c[pos..end] {
                            *x = 0;
                        }
                        attempt(&mut best, c);
                        pos += size;
                    }
                }
                if size == 1 {
                    break;
                }
                size /= 2;
            }
            // smaller numbers
            let mut pos = 0;
            while pos < best.tape.len() {
                let v = best.tape[pos];
                for smaller in &[v / 2, v.saturating_sub(1)] {
                    if pos < best.tape.len() && *smaller < best.tape[pos] {
                        let mut c = best.tape.clone();
                        c[pos] = *smaller;
                        attempt(&mut best, c);
                    }
                }
                // a count and an element that follows it
                for skip in 0..3 {
                    for k in 1..5 {
                        if pos < best.tape.len() && best.tape[pos] > 0 && pos + skip + k < best.tape.len() {
                            let mut c = best.tape.clone();
                            c[pos] -= 1;
                            c.drain(pos + 1 + skip..pos + 1 + skip + k);
                            attempt(&mut best, c);
                        }
                    }
                }
                pos += 1;
            }
            if t0.elapsed() > limit || (best.tape.len(), best.tape.clone()) == before {
                break;
            }
        }
    }
    best
}

// ---------------------------------------------------------------- parent

fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".to_string()))
}

/// Entries of the known-findings file that belong to this property.
fn known_findings(id: &str) -> Vec<(String, String)> {
    let p = verif_dir().join("known_findings.json");
    let j = match fs::read_to_string(&p) {
        Ok(s) => J::parse(&s).expect("known_findings.json"),
        Err(_) => return Vec::new(),
    };
    let empty = Vec::new();
    j.get("findings")
        .and_then(|x| x.as_arr())
        .unwrap_or(&empty)
        .iter()
        .filter(|e| e.get("property").and_then(|x| x.as_str()) == Some(id))
        .map(|e| {
            let g = |k: &str| e.get(k).and_then(|x| x.as_str()).unwrap_or("").to_string();
            (g("key"), g("what"))
        })
        .collect()
}

fn scratch(id: &str) -> PathBuf {
    let p = std::env::temp_dir().join(format!("sim-{}-{}", id, std::process::id()));
    let _ = fs::remove_dir_all(&p);
    fs::create_dir_all(&p).expect("scratch");
    p
}

fn check_cmd(check: &Check, a: &Args) -> i32 {
    let t0 = Instant::now();
    let nw = std::env::var("SIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8u64);
    let (runs, cap) = budget(check, &a.tier);
    let dir = scratch(check.id);
    println!(
        "property {} tier {} VERIF_SEED {}: {} runs on {} workers",
        check.id, a.tier, a.seed, runs, nw
    );
    let mut kids = Vec::new();
    for w in 0..nw {
        let kid = Command::new(std::env::current_exe().expect("exe"))
            .args(&["worker", check.id])
            .args(&[a.seed, w, nw, runs, cap].iter().map(|n| n.to_string()).collect::<Vec<_>>())
            .arg(&dir)
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(fs::File::create(dir.join(format!("stderr.{}", w))).expect("stderr"))
            .spawn()
            .expect("spawn");
        kids.push(kid);
    }
    let mut found: Vec<(u64, u64, String, String, Vec<u64>)> = Vec::new();
    let (mut done, mut steps, mut switches, mut sim_ns, mut decisions) = (0, 0, 0, 0, 0);
    let (mut fault_runs, mut rechecked) = (0, 0);
    let mut mismatches = Vec::new();
    let (mut faults, mut probes) = (BTreeMap::new(), BTreeMap::new());
    let mut known: BTreeMap<String, (u64, String)> = BTreeMap::new();
    let mut samples = Vec::new();
    let mut shapes: BTreeSet<u64> = BTreeSet::new();
    let mut nontrivial = 0u64;
    let mut broken = Vec::new();
    for (w, mut kid) in kids.into_iter().enumerate() {
        let st = kid.wait().expect("wait");
        let res = fs::read_to_string(dir.join(format!("result.{}", w)))
            .ok()
            .and_then(|s| J::parse(&s).ok());
        match res {
            Some(j) => {
                let n = |k: &str| j.get(k).and_then(|x| x.as_u64()).unwrap_or(0);
                done += n("done");
                steps += n("steps");
                switches += n("switches");
                sim_ns += n("sim_ns");
                decisions += n("decisions");
                fault_runs += n("fault_runs");
                rechecked += n("rechecked");
                if let Some(v) = j.get("mismatches").and_then(|x| x.as_arr()) {
                    mismatches.extend(v.iter().filter_map(|x| x.as_u64()));
                }
                add(&mut faults, j.get("faults"));
                add(&mut probes, j.get("probes"));
                if let Some(J::Obj(v)) = j.get("known") {
                    for (k, x) in v {
                        let x = x.as_arr().expect("known");
                        let e = known
                            .entry(k.clone())
                            .or_insert((0, x[1].as_str().unwrap_or("").to_string()));
                        e.0 += x[0].as_u64().unwrap_or(0);
                    }
                }
                if let Some(v) = j.get("samples").and_then(|x| x.as_arr()) {
                    samples.extend(v.iter().cloned());
                }
                let b = fs::read(dir.join(format!("shapes.{}", w))).unwrap_or_default();
                for c in b.chunks(8) {
                    let mut x = [0u8; 8];
                    x.copy_from_slice(c);
                    nontrivial += 1;
                    shapes.insert(u64::from_le_bytes(x));
                }
                if let Some(f @ J::Obj(_)) = j.get("found") {
                    let g = |k: &str| f.get(k).and_then(|x| x.as_str()).unwrap_or("").to_string();
                    found.push((
                        f.get("index").and_then(|x| x.as_u64()).unwrap_or(0),
                        f.get("seed").and_then(|x| x.as_u64()).unwrap_or(0),
                        g("kind"),
                        g("msg"),
                        f.get("tape")
                            .and_then(|x| x.as_arr())
                            .map(|a| a.iter().filter_map(|x| x.as_u64()).collect())
                            .unwrap_or_default(),
                    ));
                }
            }
            None => {
                // the worker died: the run it was executing is the culprit
                let b = fs::read(dir.join(format!("progress.{}", w))).unwrap_or_default();
                if b.len() == 8 {
                    let mut x = [0u8; 8];
                    x.copy_from_slice(&b);
                    let i = u64::from_le_bytes(x);
                    let (k, m) = describe_death(st.code(), {
                        use std::os::unix::process::ExitStatusExt;
                        st.signal()
                    });
                    note_stop(&dir.join("stop"), i);
                    done += 1;
                    found.push((i, run_seed(a.seed, check.id, i), k, m, Vec::new()));
                } else {
                    broken.push(w);
                }
            }
        }
    }
    if !broken.is_empty() {
        eprintln!("ERROR: workers {:?} did not start", broken);
        for w in broken {
            eprintln!("{}", fs::read_to_string(dir.join(format!("stderr.{}", w))).unwrap_or_default());
        }
        let _ = fs::remove_dir_all(&dir);
        return 2;
    }
    let search_s = t0.elapsed().as_secs_f64();

    // known findings
    let listed = known_findings(check.id);
    let mut known_out = Vec::new();
    for (k, (n, m)) in &known {
        match listed.iter().find(|(lk, _)| lk == k) {
            Some((_, what)) => {
                println!("KNOWN-FINDING: property={} {}", check.id, what);
                known_out.push(J::Obj(vec![
                    ("key".into(), J::s(k.clone())),
                    ("runs".into(), J::u(*n)),
                ]));
            }
            None => {
                // not in the file, so it is a violation like any other: find it
                // again by running the seeds until it shows
                eprintln!("unlisted finding {}: {}", k, m);
                found.push((0, 0, format!("unlisted {}", k), m.clone(), Vec::new()));
            }
        }
    }

    found.sort();
    let mut code = 0;
    let mut violations = 0;
    if let Some((i, seed, kind, msg, tape)) = found.first().cloned() {
        violations = found.len() as u64;
        let first = if tape.is_empty() {
            eval_child(check, &format!("seed:{}", seed), &dir)
        } else {
            let p = write_tape(&dir, &tape);
            eval_child(check, p.to_str().expect("path"), &dir)
        };
        let reproduced = first.kind.as_ref() == Some(&kind);
        let best = if reproduced {
            shrink(check, first, &dir)
        } else {
            eprintln!(
                "warning: run {} (seed {}) did not repeat in a fresh process: {:?}",
                i, seed, first.kind
            );
            Evald { kind: Some(kind.clone()), msg: msg.clone(), digest: String::new(), tape, log: Vec::new() }
        };
        let rdir = verif_dir().join("replays");
        fs::create_dir_all(&rdir).expect("replays");
        let path = rdir.join(format!("{}-{:016x}.json", check.id, seed));
        let j = J::Obj(vec![
            ("property".into(), J::s(check.id)),
            ("kind".into(), J::s(best.kind.clone().unwrap_or_default())),
            ("violation".into(), J::s(best.msg.clone())),
            ("verif_seed".into(), J::u(a.seed)),
            ("run".into(), J::u(i)),
            ("run_seed".into(), J::u(seed)),
            ("digest".into(), J::s(best.digest.clone())),
            ("decisions".into(), nums(&best.tape)),
            ("trace".into(), strs(&best.log)),
        ]);
        fs::write(&path, j.render()).expect("replay");
        println!("run {} (run seed {}): {}: {}", i, seed, kind, best.msg);
        for l in best.log.iter().take(60) {
            println!("  {}", l);
        }
        println!("replay it with: ./run.sh replay {}", path.display());
        println!("VIOLATION property={} replay={}", check.id, path.display());
        code = 1;
    }
    if !mismatches.is_empty() {
        eprintln!("warning: {} runs did not repeat exactly: {:?}", mismatches.len(), &mismatches[..mismatches.len().min(5)]);
    }
    let missed: Vec<String> = check
        .must_reach
        .iter()
        .filter(|p| !probes.contains_key(**p) && !faults.contains_key(**p))
        .map(|p| p.to_string())
        .collect();
    if !missed.is_empty() {
        eprintln!("warning: never reached: {:?}", missed);
    }

    let wall = t0.elapsed().as_secs_f64();
    let per_hour = (done as f64 / search_s.max(0.001) * 3600.0) as u64;
    let cov = J::Obj(vec![
        ("evaluations".into(), J::u(done)),
        ("distinct_nontrivial".into(), J::u(shapes.len() as u64)),
        ("nontrivial_runs".into(), J::u(nontrivial)),
        ("rule".into(), J::s(format!(
            "{} Every run is one execution decided by one seed. A run is non-trivial when the scheduler switched between actors at least once or at least one fault fired; runs are distinct when the hash over their sequence of scheduled (actor, operation) steps and fired faults differs.",
            check.rule
        ))),
        ("samples".into(), J::Arr(samples)),
        ("seeds".into(), J::Obj(vec![
            ("verif_seed".into(), J::u(a.seed)),
            ("first_run_seed".into(), J::u(run_seed(a.seed, check.id, 0))),
            ("runs_requested".into(), J::u(runs)),
        ])),
        ("runs_per_hour".into(), J::u(per_hour)),
        ("search_seconds".into(), J::Num(search_s)),
        ("scheduled_steps".into(), J::u(steps)),
        ("actor_switches".into(), J::u(switches)),
        ("decisions_drawn".into(), J::u(decisions)),
        ("simulated_seconds".into(), J::Num(sim_ns as f64 / 1e9)),
        ("runs_with_faults".into(), J::u(fault_runs)),
        ("faults_fired".into(), counts(&faults)),
        ("probes".into(), counts(&probes)),
        ("probes_never_reached".into(), strs(&missed)),
        ("determinism".into(), J::Obj(vec![
            ("runs_repeated".into(), J::u(rechecked)),
            ("differing".into(), J::u(mismatches.len() as u64)),
        ])),
        ("known_findings_seen".into(), J::Arr(known_out)),
        ("real_code".into(), J::Arr(check.real.iter().map(|s| J::s(*s)).collect())),
        ("stubs".into(), J::Arr(check.stub.iter().map(|s| J::s(*s)).collect())),
    ]);
    let evd = J::Obj(vec![
        ("property".into(), J::s(check.id)),
        ("tier".into(), J::s(a.tier.clone())),
        ("seed".into(), J::u(a.seed)),
        ("level".into(), J::s("exploration")),
        ("coverage".into(), cov),
        ("assumptions".into(), J::Arr(check.assumptions.iter().map(|s| J::s(*s)).collect())),
        ("wall_s".into(), J::Num(wall)),
        ("violations".into(), J::u(violations)),
    ]);
    let edir = verif_dir().join("evidence");
    fs::create_dir_all(&edir).expect("evidence");
    fs::write(edir.join(format!("{}.json", check.id)), evd.render()).expect("evidence");
    let _ = fs::remove_dir_all(&dir);
    println!(
        "{} runs, {} distinct non-trivial, {} steps, {} with faults, {:.1} s, {} violation(s)",
        done,
        shapes.len(),
        steps,
        fault_runs,
        wall,
        violations
    );
    code
}

fn replay_cmd(checks: &[Check], file: &str) -> i32 {
    let j = J::parse(&fs::read_to_string(file).expect("replay file")).expect("replay file");
    let id = j.get("property").and_then(|x| x.as_str()).expect("property");
    let check = match checks.iter().find(|c| c.id == id) {
        Some(c) => c,
        None => return 3,
    };
    let tape: Vec<u64> = j
        .get("decisions")
        .and_then(|x| x.as_arr())
        .map(|a| a.iter().filter_map(|x| x.as_u64()).collect())
        .unwrap_or_default();
    let dir = scratch(&format!("replay-{}", id));
    let p = if tape.is_empty() {
        format!("seed:{}", j.get("run_seed").and_then(|x| x.as_u64()).unwrap_or(0))
    } else {
        write_tape(&dir, &tape).to_str().expect("path").to_string()
    };
    let e = eval_child(check, &p, &dir);
    let _ = fs::remove_dir_all(&dir);
    for l in &e.log {
        println!("  {}", l);
    }
    match e.kind {
        Some(k) => {
            let same = j.get("kind").and_then(|x| x.as_str()) == Some(&k)
                && j.get("digest").and_then(|x| x.as_str()) == Some(&e.digest);
            println!("{}: {}{}", k, e.msg, if same { " (exactly as recorded)" } else { " (differs from the record)" });
            println!("VIOLATION property={} replay={}", id, file);
            1
        }
        None => {
            println!("the replay shows no violation");
            0
        }
    }
}

pub fn main_with(checks: &[Check]) -> ! {
    world::install_panic_hook();
    let av: Vec<String> = std::env::args().collect();
    let arg = |i: usize| av.get(i).map(|s| s.as_str()).unwrap_or("");
    let find = |id: &str| checks.iter().find(|c| c.id == id);
    let num = |i: usize| arg(i).parse::<u64>().expect("number");
    let code = match arg(1) {
        "check" => match find(arg(2)) {
            Some(c) => {
                let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
                check_cmd(
                    c,
                    &Args { tier: if arg(3) == "thorough" { "thorough" } else { "quick" }.to_string(), seed },
                )
            }
            None => 2,
        },
        "worker" => {
            let c = find(arg(2)).expect("check");
            worker(c, num(3), num(4), num(5), num(6), num(7), Path::new(arg(8)));
            0
        }
        "eval" => {
            let c = find(arg(2)).expect("check");
            eval(c, arg(3), Path::new(arg(4)));
            0
        }
        "replay" => replay_cmd(checks, arg(2)),
        // print the digests of the first n runs, for comparison across processes
        "digests" => {
            let c = find(arg(2)).expect("check");
            let seed = num(3);
            for i in 0..num(4) {
                let o = execute(c, Sim::from_seed(run_seed(seed, c.id, i), false));
                println!("{} {:016x} {} {}", i, o.digest, o.tape.len(), o.violation.is_some());
            }
            0
        }
        "show" => {
            let c = find(arg(2)).expect("check");
            let dir = scratch("show");
            let e = eval_child(c, &format!("seed:{}", run_seed(num(3), c.id, num(4))), &dir);
            let _ = fs::remove_dir_all(&dir);
            for l in &e.log {
                println!("{}", l);
            }
            println!("{:?} {} tape {:?}", e.kind, e.msg, e.tape.len());
            0
        }
        "list" => {
            for c in checks {
                println!("{}", c.id);
            }
            0
        }
        _ => {
            eprintln!("usage: check ID quick|thorough | replay FILE | show ID SEED RUN | digests ID SEED N | list");
            2
        }
    };
    std::process::exit(code)
}
