//! Command line, worker processes, crash and hang detection, minimisation, replay, evidence.
use std::{
    collections::{BTreeMap, BTreeSet},
    fs,
    io::{BufRead, BufReader, Read, Write},
    panic,
    process::{Child, Command, Stdio},
    sync::{
        atomic::{AtomicU64, Ordering},
        mpsc, Mutex,
    },
    time::{Duration, Instant},
};

use crate::{
    interpose, props,
    sim::{Sim, Violation},
    tape::{mix, Tape},
};

const STACK: usize = 256 * 1024;
/// CPU seconds one step may take before it counts as hung (a normal run takes milliseconds)
const HANG_CPU: f64 = 20.0;
/// CPU seconds one run may take, however many steps it is making
const RUN_CPU: f64 = 90.0;
const HANG_WALL: f64 = 60.0;

pub struct RunOut {
    pub violation: Option<Violation>,
    pub hash: u64,
    pub nlog: u64,
    pub now: u64,
    pub steps: u64,
    pub stats: Vec<(&'static str, u64)>,
    pub tape: Vec<u32>,
    pub trace: Vec<String>,
    pub nontrivial: bool,
    pub measure: u64,
}

static PANIC_MSG: Mutex<Option<String>> = Mutex::new(None);

pub fn seed_for(seed: u64, prop: &str, index: u64) -> u64 {
    let mut h = mix(seed ^ 0x5eed);
    for b in prop.bytes() {
        h = mix(h ^ b as u64);
    }
    mix(h ^ index)
}

/// One simulated run, on a thread of its own with a small stack
pub fn run_tape(prop: &'static props::Prop, tape: Tape, want_trace: bool, entropy: u64) -> RunOut {
    let h = std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(move || {
            let sim = Sim::new(tape, want_trace, prop.classes.to_vec());
            interpose::enter(entropy);
            let s2 = sim.clone();
            let r = panic::catch_unwind(panic::AssertUnwindSafe(|| (prop.run)(&s2)));
            interpose::leave();
            let mut c = sim.core();
            let mut out = RunOut {
                violation: None,
                hash: c.hash,
                nlog: c.nlog,
                now: c.now,
                steps: c.steps,
                stats: std::mem::take(&mut c.stats),
                tape: std::mem::take(&mut c.tape.rec),
                trace: c.trace.take().unwrap_or_default(),
                nontrivial: false,
                measure: 0,
            };
            match r {
                Ok(o) => {
                    out.nontrivial = o.nontrivial;
                    out.measure = o.measure;
                    out.violation = c.violations.first().cloned();
                }
                Err(_) => {
                    let msg = PANIC_MSG.lock().unwrap().take().unwrap_or_else(|| "panic".into());
                    if want_trace {
                        out.trace.push(format!("PANIC: {}", msg));
                    }
                    out.violation = Some(Violation { class: "panic".into(), msg });
                }
            }
            out
        })
        .expect("cannot start a thread");
    h.join().expect("run thread died")
}

/// A panic that was expected
pub fn forget_panic() {
    *PANIC_MSG.lock().unwrap_or_else(|e| e.into_inner()) = None;
}

fn install_hook() {
    panic::set_hook(Box::new(|i| {
        let p = i.payload();
        let m = p.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| p.downcast_ref::<String>().cloned()).unwrap_or_else(|| "?".into());
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let mut g = PANIC_MSG.lock().unwrap_or_else(|e| e.into_inner());
        if g.is_none() {
            *g = Some(format!("panic at {}: {}", l, m));
        }
        if std::env::var_os("YUUSIM_PANIC").is_some() {
            eprintln!("panic at {}: {}", l, m);
        }
    }));
}

fn limits() {
    unsafe {
        let lim = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &z);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            o.push(c);
            continue;
        }
        match it.next() {
            Some('n') => o.push('\n'),
            Some('r') => o.push('\r'),
            Some('t') => o.push('\t'),
            Some('u') => {
                let h: String = it.by_ref().take(4).collect();
                o.push(char::from_u32(u32::from_str_radix(&h, 16).unwrap_or(63)).unwrap_or('?'))
            }
            Some(c) => o.push(c),
            None => (),
        }
    }
    o
}

fn self_exe() -> std::path::PathBuf {
    std::env::current_exe().expect("current_exe")
}

// ------------------------------------------------------------------ worker: a chunk of runs in one process

/// Shared with the parent: the number of the run, and a counter of scheduler steps
type Cell = [AtomicU64; 2];

static BEATS: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
fn beat_file() -> (String, &'static Cell) {
    let n = BEATS.fetch_add(1, Ordering::SeqCst);
    let f = std::env::temp_dir().join(format!("yuusim-beat-{}-{}", std::process::id(), n)).to_string_lossy().into_owned();
    let c = progress_cell(&f);
    (f, c)
}
/// A worker started with a file to report its steps in
fn join_beat() {
    if let Ok(f) = std::env::var("YUUSIM_BEAT") {
        let c = progress_cell(&f);
        crate::sim::BEAT.store(&c[1] as *const AtomicU64 as *mut AtomicU64, Ordering::SeqCst);
    }
}

fn progress_cell(path: &str) -> &'static Cell {
    use std::os::fd::AsRawFd;
    let f = fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).expect("progress file");
    f.set_len(4096).unwrap();
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0);
        assert!(p != libc::MAP_FAILED);
        &*(p as *const Cell)
    }
}

fn chunk(args: &[String]) -> i32 {
    let prop = props::get(&args[0]).expect("unknown property");
    let seed: u64 = args[1].parse().unwrap();
    let lo: u64 = args[2].parse().unwrap();
    let hi: u64 = args[3].parse().unwrap();
    let cell = progress_cell(&args[4]);
    crate::sim::BEAT.store(&cell[1] as *const AtomicU64 as *mut AtomicU64, Ordering::SeqCst);
    let cell = &cell[0];
    limits();
    install_hook();
    let so = std::io::stdout();
    let mut o = so.lock();
    let mut stats: BTreeMap<&'static str, u64> = BTreeMap::new();
    let (mut simns, mut steps, mut runs, mut nlog) = (0u64, 0u64, 0u64, 0u64);
    let mut hashes = String::new();
    let mut measures = String::new();
    let mut first: Option<(u64, u64)> = None;
    let mut sample_done = false;
    for i in lo..hi {
        cell.store(i, Ordering::SeqCst);
        let s = seed_for(seed, prop.id, i);
        let r = run_tape(prop, Tape::from_seed(s), false, s);
        runs += 1;
        simns = simns.saturating_add(r.now);
        steps += r.steps;
        nlog += r.nlog;
        for (k, n) in &r.stats {
            *stats.entry(k).or_insert(0) += n;
        }
        if first.is_none() {
            first = Some((r.hash, r.nlog));
        }
        if let Some(v) = r.violation {
            writeln!(o, "viol {} {} {}", i, v.class, esc(&v.msg)).unwrap();
            o.flush().unwrap();
            break;
        }
        hashes.push_str(&format!(" {:x}", r.hash));
        if r.nontrivial {
            measures.push_str(&format!(" {:x}", r.measure ^ r.hash));
            if !sample_done && lo == 0 {
                sample_done = true;
                let t = run_tape(prop, Tape::from_replay(r.tape), true, s);
                writeln!(o, "sample {}", esc(&format!("run {} (seed {:#x}): {}", i, s, t.trace.iter().take(60).cloned().collect::<Vec<_>>().join("\n")))).unwrap();
            }
        }
    }
    // the first run again, from its seed: must be the same execution
    if let Some(f) = first {
        cell.store(lo, Ordering::SeqCst);
        let s = seed_for(seed, prop.id, lo);
        let r = run_tape(prop, Tape::from_seed(s), false, s);
        writeln!(o, "rerun {}", (r.hash, r.nlog) == f).unwrap();
    }
    for (k, n) in stats {
        writeln!(o, "stat {} {}", k, n).unwrap();
    }
    writeln!(o, "hashes{}", hashes).unwrap();
    writeln!(o, "measures{}", measures).unwrap();
    writeln!(o, "done {} {} {} {}", runs, simns, steps, nlog).unwrap();
    o.flush().unwrap();
    0
}

fn cpu_of(pid: u32) -> Option<f64> {
    let s = fs::read_to_string(format!("/proc/{}/stat", pid)).ok()?;
    let r = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = r.split(' ').collect();
    let t: f64 = f.get(11)?.parse::<f64>().ok()? + f.get(12)?.parse::<f64>().ok()?;
    Some(t / 100.0)
}

#[derive(Debug)]
enum End {
    Normal(i32),
    Died(String),
    Hung(String),
}

/// Wait for a child, watching that it advances from run to run
fn watch(child: &mut Child, cell: &Cell, hang_cpu: f64) -> End {
    let pid = child.id();
    let mut last = (u64::MAX, 0);
    let mut since = (Instant::now(), cpu_of(pid).unwrap_or(0.0));
    let mut begun = since.1;
    loop {
        match child.try_wait() {
            Ok(Some(st)) => {
                use std::os::unix::process::ExitStatusExt;
                return match st.code() {
                    Some(c) => End::Normal(c),
                    None => End::Died(format!("killed by signal {}", st.signal().unwrap_or(0))),
                };
            }
            Ok(None) => (),
            Err(e) => return End::Died(format!("wait: {}", e)),
        }
        let cur = (cell[0].load(Ordering::SeqCst), cell[1].load(Ordering::SeqCst));
        let cpu = cpu_of(pid).unwrap_or(since.1);
        if cur.0 != last.0 {
            begun = cpu;
        }
        if cpu - begun > RUN_CPU {
            let _ = child.kill();
            let _ = child.wait();
            return End::Hung(format!("the run does not end in {:.0} s of CPU time", cpu - begun));
        }
        if cur != last {
            last = cur;
            since = (Instant::now(), cpu);
        } else if cpu - since.1 > hang_cpu {
            let _ = child.kill();
            let _ = child.wait();
            return End::Hung(format!("no end after {:.0} s of CPU time", cpu - since.1));
        } else if since.0.elapsed().as_secs_f64() > HANG_WALL && cpu - since.1 < 1.0 {
            let _ = child.kill();
            let _ = child.wait();
            return End::Hung(format!("blocked for {:.0} s", since.0.elapsed().as_secs_f64()));
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

#[derive(Default)]
struct ChunkRes {
    runs: u64,
    simns: u64,
    steps: u64,
    nlog: u64,
    stats: BTreeMap<String, u64>,
    hashes: Vec<u64>,
    measures: Vec<u64>,
    samples: Vec<String>,
    viol: Option<(u64, Violation)>,
    rerun_ok: u64,
    rerun_bad: u64,
    error: Option<String>,
}

fn run_chunk(prop: &str, seed: u64, lo: u64, hi: u64, dir: &str) -> ChunkRes {
    let pf = format!("{}/progress-{}", dir, lo);
    let cell = progress_cell(&pf);
    cell[0].store(lo, Ordering::SeqCst);
    let mut res = ChunkRes::default();
    let mut child = match Command::new(self_exe())
        .args(["chunk", prop, &seed.to_string(), &lo.to_string(), &hi.to_string(), &pf])
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
    {
        Ok(c) => c,
        Err(e) => {
            res.error = Some(format!("cannot start a worker: {}", e));
            return res;
        }
    };
    let out = child.stdout.take().unwrap();
    let rd = std::thread::spawn(move || {
        let mut v = Vec::new();
        for l in BufReader::new(out).lines() {
            match l {
                Ok(l) => v.push(l),
                Err(_) => break,
            }
        }
        v
    });
    let end = watch(&mut child, cell, HANG_CPU);
    let at = cell[0].load(Ordering::SeqCst);
    let lines = rd.join().unwrap_or_default();
    let _ = fs::remove_file(&pf);
    for l in lines {
        let (k, rest) = l.split_once(' ').unwrap_or((&l, ""));
        match k {
            "viol" => {
                let mut it = rest.splitn(3, ' ');
                let i = it.next().and_then(|x| x.parse().ok()).unwrap_or(lo);
                let class = it.next().unwrap_or("?").to_string();
                res.viol = Some((i, Violation { class, msg: unesc(it.next().unwrap_or("")) }));
            }
            "stat" => {
                if let Some((n, v)) = rest.split_once(' ') {
                    *res.stats.entry(n.to_string()).or_insert(0) += v.parse::<u64>().unwrap_or(0);
                }
            }
            "hashes" => res.hashes = rest.split(' ').filter_map(|x| u64::from_str_radix(x, 16).ok()).collect(),
            "measures" => res.measures = rest.split(' ').filter_map(|x| u64::from_str_radix(x, 16).ok()).collect(),
            "sample" => res.samples.push(unesc(rest)),
            "rerun" => {
                if rest == "true" {
                    res.rerun_ok += 1
                } else {
                    res.rerun_bad += 1
                }
            }
            "done" => {
                let v: Vec<u64> = rest.split(' ').filter_map(|x| x.parse().ok()).collect();
                if v.len() == 4 {
                    res.runs = v[0];
                    res.simns = v[1];
                    res.steps = v[2];
                    res.nlog = v[3];
                }
            }
            _ => (),
        }
    }
    match end {
        End::Normal(0) => (),
        End::Normal(c) if c == 101 => res.error = Some(format!("worker failed with status {}", c)),
        End::Normal(c) => res.viol = res.viol.or(Some((at, Violation { class: "abort".into(), msg: format!("the process exits with status {} during the run", c) }))),
        End::Died(m) => res.viol = res.viol.or(Some((at, Violation { class: "abort".into(), msg: format!("the process running the simulation was {} (stack overflow, abort or out of memory)", m) }))),
        End::Hung(m) => res.viol = res.viol.or(Some((at, Violation { class: "hang".into(), msg: format!("a step of the code never returns, or its steps never end: {}", m) }))),
    }
    res
}

// ------------------------------------------------------------------ check

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|v| v.trim().parse().ok()).unwrap_or(d)
}

fn check(args: &[String]) -> i32 {
    let prop = match props::get(&args[0]) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", args[0]);
            return 2;
        }
    };
    let root = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let tier = if args.iter().any(|a| a == "--thorough") || (std::env::var("VERIF_TIER").as_deref() == Ok("thorough") && !args.iter().any(|a| a == "--quick")) { "thorough" } else { "quick" };
    let seed = env_u64("VERIF_SEED", 1);
    let jobs = env_u64("VERIF_JOBS", std::thread::available_parallelism().map_or(4, |n| n.get() as u64).min(8)).max(1);
    let (mut total, cap) = if tier == "quick" { (prop.quick, 150.0) } else { (prop.thorough, 3000.0) };
    total = env_u64("VERIF_RUNS", total);
    let cap = env_u64("VERIF_CAP", cap as u64) as f64;
    let size = prop.chunk;
    let dir = format!("{}/target/run-{}-{}", root, prop.id, std::process::id());
    fs::create_dir_all(&dir).expect("run directory");
    let start = Instant::now();
    let nchunks = (total + size - 1) / size;
    let next = AtomicU64::new(0);
    let stop_at = AtomicU64::new(u64::MAX); // no chunk above this one need run
    let (tx, rx) = mpsc::channel();
    let mut all: Vec<(u64, ChunkRes)> = Vec::new();
    std::thread::scope(|sc| {
        for _ in 0..jobs {
            let tx = tx.clone();
            let (next, stop_at, dir) = (&next, &stop_at, &dir);
            sc.spawn(move || loop {
                let c = next.fetch_add(1, Ordering::SeqCst);
                if c >= nchunks || c > stop_at.load(Ordering::SeqCst) || start.elapsed().as_secs_f64() > cap {
                    return;
                }
                let r = run_chunk(prop.id, seed, c * size, ((c + 1) * size).min(total), dir);
                if r.viol.is_some() || r.error.is_some() {
                    stop_at.fetch_min(c, Ordering::SeqCst);
                }
                let _ = tx.send((c, r));
            });
        }
        drop(tx);
        for x in rx {
            all.push(x);
        }
    });
    all.sort_by_key(|x| x.0);
    let search_wall = start.elapsed().as_secs_f64();
    if let Some((_, r)) = all.iter().find(|x| x.1.error.is_some()) {
        eprintln!("harness error: {}", r.error.as_ref().unwrap());
        let _ = fs::remove_dir_all(&dir);
        return 2;
    }
    let mut hashes: BTreeSet<u64> = BTreeSet::new();
    let mut measures: BTreeSet<u64> = BTreeSet::new();
    let mut stats: BTreeMap<String, u64> = BTreeMap::new();
    let (mut runs, mut simns, mut steps, mut nlog, mut ok, mut bad) = (0u64, 0u128, 0u64, 0u64, 0u64, 0u64);
    let mut samples = Vec::new();
    for (_, r) in &all {
        hashes.extend(r.hashes.iter());
        measures.extend(r.measures.iter());
        for (k, v) in &r.stats {
            *stats.entry(k.clone()).or_insert(0) += v;
        }
        runs += r.runs;
        simns += r.simns as u128;
        steps += r.steps;
        nlog += r.nlog;
        ok += r.rerun_ok;
        bad += r.rerun_bad;
        samples.extend(r.samples.iter().cloned());
    }
    let viol = all.iter().filter_map(|x| x.1.viol.clone().map(|v| (x.0 * size, v))).next();
    let mut code = 0;
    let mut nv = 0;
    if let Some((first, (index, v))) = viol {
        nv = 1;
        code = 1;
        println!("{}: run {} of seed {} violates it: [{}] {}", prop.id, index, seed, v.class, v.msg);
        let path = make_replay(prop, seed, first, index, &v, &root, &dir);
        println!("VIOLATION property={} replay={}", prop.id, path);
    }
    let wall = start.elapsed().as_secs_f64();
    let faults: Vec<(String, u64)> = stats.iter().filter(|(k, _)| props::is_fault(k)).map(|(k, v)| (k.clone(), *v)).collect();
    let other: Vec<(String, u64)> = stats.iter().filter(|(k, _)| !props::is_fault(k)).map(|(k, v)| (k.clone(), *v)).collect();
    let obj = |v: &[(String, u64)]| format!("{{{}}}", v.iter().map(|(k, n)| format!("\"{}\": {}", esc(k), n)).collect::<Vec<_>>().join(", "));
    let list = |v: &[&str]| format!("[{}]", v.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(", "));
    let ev = format!(
        "{{\n \"property\": \"{}\",\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": \"{}\",\n  \"samples\": [{}],\n  \"runs_planned\": {},\n  \"runs_per_hour\": {},\n  \"seeds_per_hour\": {},\n  \"simulated_seconds\": {:.3},\n  \"scheduler_steps\": {},\n  \"logged_events\": {},\n  \"faults_injected\": {},\n  \"counters\": {},\n  \"distinct_executions\": {},\n  \"distinct_executions_measure\": \"64-bit hash over the whole event log of a run: every task poll, packet, callback, operation and reply with its simulated time\",\n  \"determinism_reruns_equal\": {},\n  \"determinism_reruns_different\": {},\n  \"worker_processes\": {},\n  \"components_real\": {},\n  \"components_stub\": {}\n }},\n \"assumptions\": {},\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        prop.id,
        tier,
        seed,
        runs,
        measures.len(),
        esc(&format!("{} A run is counted if it is non-trivial ({}) and no other run has the same event log and outcome.", prop.cases, prop.nontrivial)),
        samples.iter().take(2).map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(", "),
        total,
        (runs as f64 / search_wall * 3600.0) as u64,
        (runs as f64 / search_wall * 3600.0) as u64,
        simns as f64 / 1e9,
        steps,
        nlog,
        obj(&faults),
        obj(&other),
        hashes.len(),
        ok,
        bad,
        jobs,
        list(prop.real),
        list(prop.stub),
        list(props::ASSUMPTIONS),
        wall,
        nv
    );
    let _ = fs::create_dir_all(format!("{}/evidence", root));
    if let Err(e) = fs::write(format!("{}/evidence/{}.json", root, prop.id), ev) {
        eprintln!("cannot write the evidence: {}", e);
        return 2;
    }
    let _ = fs::remove_dir_all(&dir);
    println!(
        "{}: {} runs ({} distinct executions), {:.0} simulated seconds, {} faults injected, {:.1} s; {}",
        prop.id,
        runs,
        hashes.len(),
        simns as f64 / 1e9,
        faults.iter().map(|f| f.1).sum::<u64>(),
        wall,
        if code == 0 { "no violation" } else { "VIOLATED" }
    );
    if bad > 0 && code == 0 {
        println!("warning: {} reruns of a seed were not the same execution", bad);
    }
    code
}

// ------------------------------------------------------------------ replay files

fn write_replay(path: &str, prop: &str, kind: &str, seed: u64, first: u64, index: u64, entropy: u64, v: &Violation, tape: &[u32], trace: &[String], min: &str) {
    let mut tr: Vec<String> = trace.to_vec();
    if tr.len() > 600 {
        let n = tr.len();
        let tail = tr.split_off(n - 300);
        tr.truncate(300);
        tr.push(format!("… {} lines …", n - 600));
        tr.extend(tail);
    }
    let s = format!(
        "{{\n \"property\": \"{}\",\n \"kind\": \"{}\",\n \"seed\": {},\n \"first\": {},\n \"index\": {},\n \"run_seed\": {},\n \"class\": \"{}\",\n \"message\": \"{}\",\n \"minimised\": \"{}\",\n \"tape\": [{}],\n \"trace\": [\n{}\n ]\n}}\n",
        prop,
        kind,
        seed,
        first,
        index,
        entropy,
        esc(&v.class),
        esc(&v.msg),
        esc(min),
        tape.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","),
        tr.iter().map(|l| format!("  \"{}\"", esc(l))).collect::<Vec<_>>().join(",\n")
    );
    fs::write(path, s).expect("cannot write the replay file");
}

struct Replay {
    prop: String,
    kind: String,
    seed: u64,
    first: u64,
    index: u64,
    entropy: u64,
    class: String,
    tape: Vec<u32>,
}

fn read_replay(path: &str) -> Option<Replay> {
    let s = fs::read_to_string(path).ok()?;
    let field = |k: &str| -> Option<String> {
        let p = s.find(&format!("\"{}\": ", k))? + k.len() + 4;
        let r = &s[p..];
        if let Some(r) = r.strip_prefix('"') {
            let mut e = 0;
            let b = r.as_bytes();
            while b[e] != b'"' {
                if b[e] == b'\\' {
                    e += 1;
                }
                e += 1;
            }
            Some(unesc(&r[..e]))
        } else {
            Some(r[..r.find(|c: char| c == ',' || c == '\n')?].to_string())
        }
    };
    let p = s.find("\"tape\": [")? + 9;
    let tape = s[p..].split(']').next()?.split(',').filter_map(|x| x.trim().parse().ok()).collect();
    Some(Replay {
        prop: field("property")?,
        kind: field("kind")?,
        seed: field("seed")?.parse().ok()?,
        first: field("first")?.parse().ok()?,
        index: field("index")?.parse().ok()?,
        entropy: field("run_seed")?.parse().ok()?,
        class: field("class")?,
        tape,
    })
}

/// Run what a replay file says in this process; prints "class <c>" and the message if it violates
fn exec_replay(args: &[String]) -> i32 {
    limits();
    install_hook();
    let r = read_replay(&args[0]).expect("replay file");
    let prop = props::get(&r.prop).expect("property");
    let want_trace = args.iter().any(|a| a == "--trace");
    let mut last = None;
    if r.kind == "sequence" {
        for i in r.first..=r.index {
            let s = seed_for(r.seed, prop.id, i);
            let o = run_tape(prop, Tape::from_seed(s), want_trace && i == r.index, s);
            if i == r.index {
                last = Some(o)
            }
        }
    } else {
        last = Some(run_tape(prop, Tape::from_replay(r.tape), want_trace, r.entropy));
    }
    let o = last.unwrap();
    if want_trace {
        for l in &o.trace {
            println!("trace {}", esc(l));
        }
    }
    println!("hash {:x}", o.hash);
    if let Some(v) = o.violation {
        println!("class {} {}", v.class, esc(&v.msg));
    }
    println!("tape {}", o.tape.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
    0
}

struct Reproduced {
    class: Option<String>,
    msg: String,
    trace: Vec<String>,
    tape: Vec<u32>,
    hash: String,
}

/// Run a replay file in a fresh process
fn fresh(path: &str, trace: bool, hang_cpu: f64) -> Reproduced {
    let mut cmd = Command::new(self_exe());
    cmd.args(["exec", path]);
    if trace {
        cmd.arg("--trace");
    }
    let mut r = Reproduced { class: None, msg: String::new(), trace: Vec::new(), tape: Vec::new(), hash: String::new() };
    let (bf, cell) = beat_file();
    cmd.env("YUUSIM_BEAT", &bf);
    let mut child = match cmd.stdout(Stdio::piped()).stderr(Stdio::null()).spawn() {
        Ok(c) => c,
        Err(_) => {
            let _ = fs::remove_file(&bf);
            return r;
        }
    };
    let mut out = child.stdout.take().unwrap();
    let rd = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = out.read_to_string(&mut s);
        s
    });
    let end = watch(&mut child, cell, hang_cpu);
    let _ = fs::remove_file(&bf);
    let s = rd.join().unwrap_or_default();
    match end {
        End::Normal(0) => (),
        End::Normal(c) => {
            r.class = Some("abort".into());
            r.msg = format!("exit status {}", c);
        }
        End::Died(m) => {
            r.class = Some("abort".into());
            r.msg = m;
        }
        End::Hung(m) => {
            r.class = Some("hang".into());
            r.msg = m;
        }
    }
    for l in s.lines() {
        if let Some(t) = l.strip_prefix("trace ") {
            r.trace.push(unesc(t));
        } else if let Some(t) = l.strip_prefix("class ") {
            let (c, m) = t.split_once(' ').unwrap_or((t, ""));
            r.class = Some(c.to_string());
            r.msg = unesc(m);
        } else if let Some(t) = l.strip_prefix("tape ") {
            r.tape = t.split(',').filter_map(|x| x.parse().ok()).collect();
        } else if let Some(t) = l.strip_prefix("hash ") {
            r.hash = t.to_string();
        }
    }
    r
}

/// Shrink a tape while `bad` says it still shows the violation
fn shrink(mut t: Vec<u32>, deadline: Instant, bad: &mut dyn FnMut(&[u32]) -> Option<Vec<u32>>) -> Vec<u32> {
    let over = || Instant::now() > deadline;
    let strip = |t: &mut Vec<u32>| {
        while t.last() == Some(&0) {
            t.pop();
        }
    };
    strip(&mut t);
    let mut progress = true;
    while progress && !over() {
        progress = false;
        // shorter
        let mut n = t.len() / 2;
        while n > 0 && !over() {
            let cut = t.len() - n.min(t.len());
            if let Some(u) = bad(&t[..cut]) {
                t = if u.len() < t.len() { u } else { t[..cut].to_vec() };
                strip(&mut t);
                progress = true;
                n = n.min(t.len());
            } else {
                n /= 2;
            }
        }
        // delete and zero blocks
        let mut k = (t.len() / 2).max(1);
        while k >= 1 && !over() {
            let mut i = 0;
            while i < t.len() && !over() {
                let e = (i + k).min(t.len());
                let mut u = t.clone();
                u.drain(i..e);
                if bad(&u).is_some() {
                    t = u;
                    strip(&mut t);
                    progress = true;
                    continue;
                }
                if t[i..e].iter().any(|&x| x != 0) {
                    let mut u = t.clone();
                    u[i..e].iter_mut().for_each(|x| *x = 0);
                    if bad(&u).is_some() {
                        t = u;
                        strip(&mut t);
                        progress = true;
                    }
                }
                i += k;
            }
            if k == 1 {
                break;
            }
            k /= 2;
        }
        // smaller values
        for i in 0..t.len() {
            if over() || i >= t.len() {
                break;
            }
            for v in [1, t[i] / 2, t[i].saturating_sub(1)] {
                if i < t.len() && v < t[i] {
                    let mut u = t.clone();
                    u[i] = v;
                    if bad(&u).is_some() {
                        t = u;
                        progress = true;
                    }
                }
            }
        }
    }
    t
}

fn minimise(args: &[String]) -> i32 {
    // minimise <replay in> <seconds> : prints improved tapes
    limits();
    install_hook();
    let r = read_replay(&args[0]).expect("replay");
    let secs: u64 = args[1].parse().unwrap();
    let prop = props::get(&r.prop).unwrap();
    let so = std::io::stdout();
    let class = r.class.clone();
    let mut best = usize::MAX;
    let mut bad = |t: &[u32]| -> Option<Vec<u32>> {
        let o = run_tape(prop, Tape::from_replay(t.to_vec()), false, r.entropy);
        if o.violation.map_or(false, |v| v.class == class) {
            let mut o2 = so.lock();
            let nz = t.iter().filter(|&&x| x != 0).count();
            if t.len() + nz <= best {
                best = t.len() + nz;
                let _ = writeln!(o2, "tape {}", t.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
            }
            Some(o.tape)
        } else {
            None
        }
    };
    let t = shrink(r.tape.clone(), Instant::now() + Duration::from_secs(secs), &mut bad);
    println!("tape {}", t.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
    0
}

fn make_replay(prop: &'static props::Prop, seed: u64, first: u64, index: u64, v: &Violation, root: &str, dir: &str) -> String {
    let rdir = format!("{}/replays", root);
    let _ = fs::create_dir_all(&rdir);
    let path = format!("{}/{}-seed{}-run{}.json", rdir, prop.id, seed, index);
    let s = seed_for(seed, prop.id, index);
    let crash = v.class == "abort" || v.class == "hang";
    let hang = if v.class == "hang" { HANG_CPU } else { 60.0 };
    // does it show from its own seed in a fresh process? (a sequence of one)
    let seq = |f: u64| -> Reproduced {
        write_replay(&path, prop.id, "sequence", seed, f, index, s, v, &[], &[], "no");
        fresh(&path, !crash, hang)
    };
    let r = seq(index);
    if r.class.as_deref() != Some(&v.class) {
        // it depends on state left in the process by earlier runs: find the shortest such history
        let mut k = 1;
        loop {
            let f = index.saturating_sub(k).max(first);
            let r = seq(f);
            if r.class.as_deref() == Some(&v.class) || f == first {
                let note = format!("history of {} runs in one process", index - f + 1);
                write_replay(&path, prop.id, "sequence", seed, f, index, s, v, &[], &r.trace, &note);
                println!("replay: the violation needs the state left by earlier runs; {}", note);
                return path;
            }
            k *= 4;
        }
    }
    if crash {
        // minimise by whole processes
        let mut tape = record_prefix(prop, seed, index, dir);
        if let Some(t0) = tape.take() {
            let tmp = format!("{}/min.json", dir);
            let mut n = 0;
            let mut bad = |t: &[u32]| -> Option<Vec<u32>> {
                n += 1;
                if n > 400 {
                    return None;
                }
                write_replay(&tmp, prop.id, "tape", seed, index, index, s, v, t, &[], "");
                let r = fresh(&tmp, false, 3.0);
                if r.class.as_deref() == Some(&v.class) {
                    Some(t.to_vec())
                } else {
                    None
                }
            };
            if bad(&t0).is_some() {
                let t = shrink(t0, Instant::now() + Duration::from_secs(30), &mut bad);
                write_replay(&path, prop.id, "tape", seed, index, index, s, v, &t, &[], "yes");
                if fresh(&path, false, hang).class.as_deref() == Some(&v.class) {
                    return path;
                }
            }
        }
        write_replay(&path, prop.id, "sequence", seed, index, index, s, v, &[], &[], "no");
        return path;
    }
    let full = r.tape.clone();
    write_replay(&path, prop.id, "tape", seed, index, index, s, v, &full, &r.trace, "no");
    // minimise in a process of its own
    let (bf, cell) = beat_file();
    let mut child = match Command::new(self_exe()).args(["minimise", &path, "20"]).env("YUUSIM_BEAT", &bf).stdout(Stdio::piped()).stderr(Stdio::null()).spawn() {
        Ok(c) => c,
        Err(_) => {
            let _ = fs::remove_file(&bf);
            return path;
        }
    };
    let mut out = child.stdout.take().unwrap();
    let rd = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = out.read_to_string(&mut s);
        s
    });
    let _ = watch(&mut child, cell, 60.0);
    let _ = fs::remove_file(&bf);
    let txt = rd.join().unwrap_or_default();
    let min: Option<Vec<u32>> = txt.lines().filter_map(|l| l.strip_prefix("tape ")).last().map(|t| t.split(',').filter_map(|x| x.parse().ok()).collect());
    if let Some(m) = min {
        write_replay(&path, prop.id, "tape", seed, index, index, s, v, &m, &[], "yes");
        let r = fresh(&path, true, 60.0);
        let r2 = fresh(&path, false, 60.0);
        if r.class.as_deref() == Some(&v.class) && r.hash == r2.hash {
            let v2 = Violation { class: v.class.clone(), msg: r.msg.clone() };
            println!("replay: minimised from {} to {} choices: {}", full.len(), m.len(), r.msg);
            write_replay(&path, prop.id, "tape", seed, index, index, s, &v2, &m, &r.trace, &format!("from {} to {} choices", full.len(), m.len()));
            return path;
        }
    }
    write_replay(&path, prop.id, "tape", seed, index, index, s, v, &full, &r.trace, "no");
    path
}

/// The choices of a run which kills its process: dumped as they are drawn
fn record_prefix(prop: &'static props::Prop, seed: u64, index: u64, dir: &str) -> Option<Vec<u32>> {
    let f = format!("{}/rec", dir);
    let (bf, cell) = beat_file();
    let mut child = Command::new(self_exe())
        .args(["record", prop.id, &seed.to_string(), &index.to_string(), &f])
        .env("YUUSIM_BEAT", &bf)
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .ok()?;
    let _ = watch(&mut child, cell, HANG_CPU);
    let _ = fs::remove_file(&bf);
    let b = fs::read(&f).ok()?;
    Some(b.chunks(4).filter(|c| c.len() == 4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect())
}

fn record(args: &[String]) -> i32 {
    limits();
    install_hook();
    let prop = props::get(&args[0]).unwrap();
    let seed: u64 = args[1].parse().unwrap();
    let index: u64 = args[2].parse().unwrap();
    let s = seed_for(seed, prop.id, index);
    let mut t = Tape::from_seed(s);
    t.dump = Some(fs::File::create(&args[3]).unwrap());
    run_tape(prop, t, false, s);
    0
}

pub fn main() -> i32 {
    join_beat();
    let a: Vec<String> = std::env::args().skip(1).collect();
    match a.first().map(|s| s.as_str()) {
        Some("check") => check(&a[1..]),
        Some("chunk") => chunk(&a[1..]),
        Some("exec") => exec_replay(&a[1..]),
        Some("minimise") => minimise(&a[1..]),
        Some("record") => record(&a[1..]),
        Some("replay") => {
            let path = &a[1];
            let r = fresh(path, true, HANG_CPU);
            for l in &r.trace {
                println!("{}", l);
            }
            match r.class {
                Some(c) => {
                    println!("reproduced: [{}] {}", c, r.msg);
                    println!("VIOLATION property={} replay={}", read_replay(path).map_or("?".into(), |r| r.prop), path);
                    1
                }
                None => {
                    println!("not reproduced");
                    0
                }
            }
        }
        Some("one") => {
            // one <prop> <seed> <index> [--trace]
            install_hook();
            let prop = props::get(&a[1]).unwrap();
            let s = seed_for(a[2].parse().unwrap(), prop.id, a[3].parse().unwrap());
            let o = run_tape(prop, Tape::from_seed(s), a.iter().any(|x| x == "--trace"), s);
            for l in &o.trace {
                println!("{}", l);
            }
            println!("hash {:x} events {} steps {} choices {} time {}s violation {:?}", o.hash, o.nlog, o.steps, o.tape.len(), o.now / 1_000_000_000, o.violation);
            0
        }
        Some("grammar") => props::grammar(&a[1..]),
        Some("list") => {
            for p in props::ALL {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: yuusim check <property> [--thorough] | replay <file> | one <property> <seed> <index> [--trace]");
            2
        }
    }
}
