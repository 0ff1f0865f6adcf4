//! Batches of runs: forks one child per run, aggregates, shrinks and replays violations.
use crate::core::*;
use crate::props::{self, Prop};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::time::{Duration, Instant};

pub struct Outcome {
    pub status: String, // ok | viol | harness
    pub class: String,
    pub msg: String,
    pub v: Value,
    pub choices: Vec<u32>,
}

fn shared(n: usize) -> &'static mut [u32] {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), n * 4, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        if p == libc::MAP_FAILED {
            eprintln!("harness: mmap failed");
            std::process::exit(2);
        }
        std::slice::from_raw_parts_mut(p as *mut u32, n)
    }
}
static mut CHOICES: *mut u32 = std::ptr::null_mut();
fn choice_buf() -> &'static mut [u32] {
    unsafe {
        if CHOICES.is_null() {
            CHOICES = shared(MAX_CHOICES).as_mut_ptr();
        }
        std::slice::from_raw_parts_mut(CHOICES, MAX_CHOICES)
    }
}

fn rlimit(what: libc::__rlimit_resource_t, v: u64) {
    let l = libc::rlimit { rlim_cur: v, rlim_max: v + 5 };
    unsafe { libc::setrlimit(what, &l) };
}

/// A run that takes this much processor time does not end. The slowest runs take a few seconds.
const CPU_LIMIT: u64 = 60;

/// BELLSIM_SLOW=<ms>: report the runs that take longer.
static SLOW: std::sync::LazyLock<Option<i64>> = std::sync::LazyLock::new(|| std::env::var("BELLSIM_SLOW").ok()?.parse().ok());

/// Processor time a child has used so far.
fn cpu_ticks(pid: i32) -> u64 {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
    let f: Vec<u64> = s.rsplit(')').next().unwrap_or("").split_whitespace().skip(11).take(2).filter_map(|x| x.parse().ok()).collect();
    f.iter().sum()
}

/// One run in a forked child.
pub fn exec(p: &'static Prop, seed: u64, replay: Option<Vec<u32>>, verbose: bool) -> Outcome {
    for attempt in 0.. {
        let o = exec_once(p, seed, replay.clone(), verbose);
        if o.status == "harness" && o.class == "killed" && attempt < 2 {
            continue;
        }
        return o;
    }
    unreachable!()
}
fn exec_once(p: &'static Prop, seed: u64, replay: Option<Vec<u32>>, verbose: bool) -> Outcome {
    let buf = choice_buf();
    buf[0] = 0;
    let mut fds = [0i32; 2];
    unsafe {
        if libc::pipe(fds.as_mut_ptr()) != 0 {
            eprintln!("harness: pipe failed");
            std::process::exit(2);
        }
        let pid = libc::fork();
        if pid < 0 {
            eprintln!("harness: fork failed");
            std::process::exit(2);
        }
        if pid == 0 {
            libc::close(fds[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            rlimit(libc::RLIMIT_CPU, CPU_LIMIT);
            rlimit(libc::RLIMIT_AS, 4 << 30);
            rlimit(libc::RLIMIT_CORE, 0);
            Ctx::install(p.id, seed, replay, verbose, fds[1], choice_buf());
            crate::world::start_random();
            let f = p.run;
            let h = std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
                match guard(f) {
                    Ok(()) => finish_ok(),
                    Err(e) => stray_panic(&e),
                }
            });
            match h {
                Ok(h) => {
                    let _ = h.join();
                    harness_error("run thread ended without a result")
                }
                Err(_) => harness_error("cannot start the run thread"),
            }
        }
        libc::close(fds[1]);
        let mut f = std::fs::File::from_raw_fd(fds[0]);
        let mut s = String::new();
        let mut timed_out = false;
        let mut pfd = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
        // Stuck means a long wait in which the processor was not used either: a busy machine is no reason.
        let (mut idle, mut used) = (0, 0);
        while libc::poll(&mut pfd, 1, 30_000) == 0 {
            let now = cpu_ticks(pid);
            idle = if now > used { 0 } else { idle + 1 };
            used = now;
            if idle == 4 {
                timed_out = true;
                libc::kill(pid, libc::SIGKILL);
                break;
            }
        }
        let _ = f.read_to_string(&mut s);
        let mut st = 0;
        let mut ru: libc::rusage = std::mem::zeroed();
        libc::wait4(pid, &mut st, 0, &mut ru);
        if let Some(ms) = *SLOW {
            let t = (ru.ru_utime.tv_sec + ru.ru_stime.tv_sec) * 1000 + (ru.ru_utime.tv_usec + ru.ru_stime.tv_usec) / 1000;
            if t >= ms {
                eprintln!("slow: {} run seed {seed:#x}: {t} ms of processor time, {} MB", p.id, ru.ru_maxrss / 1024);
            }
        }
        let n = buf[0] as usize;
        let choices = buf[1..1 + n.min(MAX_CHOICES - 1)].to_vec();
        if let Ok(v) = serde_json::from_str::<Value>(&s) {
            let g = |k: &str| v[k].as_str().unwrap_or("").to_string();
            return Outcome { status: g("status"), class: g("class"), msg: g("msg"), v, choices };
        }
        let (status, class, msg) = if timed_out {
            ("harness", "stuck".to_string(), "run made no progress for 120 s of real time without using the processor".to_string())
        } else if libc::WIFSIGNALED(st) {
            match libc::WTERMSIG(st) {
                libc::SIGXCPU => ("viol", "hang".into(), format!("the run used more than {CPU_LIMIT} s of processor time without finishing (endless loop)")),
                libc::SIGKILL => ("harness", "killed".into(), "run was killed from outside".into()),
                libc::SIGABRT => ("viol", "abort".into(), "the code under test aborted the process (memory exhausted, double panic or abort)".into()),
                s => ("viol", format!("signal-{s}"), format!("the code under test crashed the process with signal {s}")),
            }
        } else {
            ("viol", "exit".into(), format!("the code under test ended the process (status {st})"))
        };
        Outcome { status: status.into(), class, msg, v: Value::Null, choices }
    }
}

pub fn run_seed(seed: u64, prop: &str, idx: u64) -> u64 {
    let mut s = hash_bytes(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xabcdef, prop.as_bytes()) ^ idx.wrapping_mul(0xD134_2543_DE82_EF95);
    splitmix(&mut s)
}

#[derive(Default)]
struct Agg {
    runs: u64,
    nontrivial: u64,
    evals: u64,
    events: u64,
    sim_ns: u128,
    choices: u64,
    faults: BTreeMap<String, u64>,
    fault_runs: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    shapes: BTreeSet<u64>,
    nt_shapes: BTreeSet<u64>,
    known: BTreeMap<String, u64>,
    hashes: Vec<(u64, u64)>,
    viol: Vec<(u64, String, String, Vec<u32>)>,
    harness: Vec<String>,
}

pub struct Known {
    pub entries: Vec<(String, String, String)>, // property, match text, description
}
impl Known {
    pub fn load(path: &std::path::Path) -> Self {
        let mut entries = vec![];
        for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
            // known: property=<id> match="<text contained in class: message>" <what fails>
            if let Some(r) = l.strip_prefix("known: property=") {
                let (id, r) = r.split_once(' ').unwrap_or((r, ""));
                if let Some(r) = r.trim().strip_prefix("match=\"") {
                    if let Some((m, d)) = r.split_once('"') {
                        entries.push((id.to_string(), m.to_string(), d.trim().to_string()));
                    }
                }
            }
        }
        Known { entries }
    }
    fn find(&self, prop: &str, class: &str, msg: &str) -> Option<&(String, String, String)> {
        let full = format!("{class}: {msg}");
        self.entries.iter().find(|e| e.0 == prop && full.contains(&e.1))
    }
}

fn worker(p: &'static Prop, seed: u64, first: u64, step: u64, count: u64, deadline: Instant, stop: &'static mut [u32], known: &Known) -> Agg {
    let mut a = Agg::default();
    let mut i = first;
    while i < count && Instant::now() < deadline {
        let lowest = unsafe { std::ptr::read_volatile(&stop[0]) } as u64;
        if i > lowest {
            break;
        }
        let o = exec(p, run_seed(seed, p.id, i), None, false);
        a.runs += 1;
        match o.status.as_str() {
            "harness" => {
                a.harness.push(format!("run {i}: {}: {}", o.class, o.msg));
                if a.harness.len() > 3 {
                    break;
                }
            }
            "viol" => match known.find(p.id, &o.class, &o.msg) {
                Some(k) => *a.known.entry(k.1.clone()).or_insert(0) += 1,
                None => {
                    a.viol.push((i, o.class, o.msg, o.choices));
                    unsafe {
                        let cur = std::ptr::read_volatile(&stop[0]) as u64;
                        std::ptr::write_volatile(&mut stop[0], cur.min(i) as u32);
                    }
                    break;
                }
            },
            _ => {}
        }
        let v = &o.v;
        let nt = v["nt"].as_bool().unwrap_or(false);
        let sh = v["shape"].as_u64().unwrap_or(0);
        a.shapes.insert(sh);
        if nt {
            a.nontrivial += 1;
            a.nt_shapes.insert(sh);
        }
        a.evals += v["evals"].as_u64().unwrap_or(0);
        a.events += v["events"].as_u64().unwrap_or(0);
        a.sim_ns += v["sim_ns"].as_u64().unwrap_or(0) as u128;
        a.choices += v["nchoices"].as_u64().unwrap_or(0);
        for (k, n) in v["f"].as_object().into_iter().flatten() {
            *a.faults.entry(k.clone()).or_insert(0) += n.as_u64().unwrap_or(0);
            *a.fault_runs.entry(k.clone()).or_insert(0) += 1;
        }
        for (k, n) in v["p"].as_object().into_iter().flatten() {
            *a.probes.entry(k.clone()).or_insert(0) += n.as_u64().unwrap_or(0);
        }
        if i < 64 {
            a.hashes.push((i, v["hash"].as_u64().unwrap_or(0)));
        }
        i += step;
    }
    a
}
impl Agg {
    fn to_json(&self) -> Value {
        json!({"runs": self.runs, "nt": self.nontrivial, "evals": self.evals, "events": self.events, "sim": (self.sim_ns / 1000) as u64,
            "choices": self.choices, "f": self.faults, "fr": self.fault_runs, "p": self.probes, "sh": self.shapes, "nsh": self.nt_shapes,
            "known": self.known, "hashes": self.hashes, "viol": self.viol, "harness": self.harness})
    }
    fn merge(&mut self, v: &Value) {
        let u = |k: &str| v[k].as_u64().unwrap_or(0);
        self.runs += u("runs");
        self.nontrivial += u("nt");
        self.evals += u("evals");
        self.events += u("events");
        self.sim_ns += u("sim") as u128 * 1000;
        self.choices += u("choices");
        fn add(m: &mut BTreeMap<String, u64>, v: &Value) {
            for (k, n) in v.as_object().into_iter().flatten() {
                *m.entry(k.clone()).or_insert(0) += n.as_u64().unwrap_or(0);
            }
        }
        add(&mut self.faults, &v["f"]);
        add(&mut self.fault_runs, &v["fr"]);
        add(&mut self.probes, &v["p"]);
        add(&mut self.known, &v["known"]);
        self.shapes.extend(v["sh"].as_array().into_iter().flatten().filter_map(|x| x.as_u64()));
        self.nt_shapes.extend(v["nsh"].as_array().into_iter().flatten().filter_map(|x| x.as_u64()));
        self.hashes.extend(serde_json::from_value::<Vec<(u64, u64)>>(v["hashes"].clone()).unwrap_or_default());
        self.viol.extend(serde_json::from_value::<Vec<(u64, String, String, Vec<u32>)>>(v["viol"].clone()).unwrap_or_default());
        self.harness.extend(serde_json::from_value::<Vec<String>>(v["harness"].clone()).unwrap_or_default());
    }
}

fn batch(p: &'static Prop, seed: u64, count: u64, jobs: usize, deadline: Instant, known: &Known) -> Agg {
    let stop = shared(4);
    stop[0] = u32::MAX;
    let stop: *mut u32 = stop.as_mut_ptr();
    let mut pipes = vec![];
    let _ = std::io::stdout().flush();
    for k in 0..jobs {
        let mut fds = [0i32; 2];
        unsafe {
            libc::pipe(fds.as_mut_ptr());
            let pid = libc::fork();
            if pid < 0 {
                eprintln!("harness: fork failed");
                std::process::exit(2);
            }
            if pid == 0 {
                libc::close(fds[0]);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                CHOICES = std::ptr::null_mut();
                let a = worker(p, seed, k as u64, jobs as u64, count, deadline, std::slice::from_raw_parts_mut(stop, 4), known);
                let mut f = std::fs::File::from_raw_fd(fds[1]);
                let _ = f.write_all(a.to_json().to_string().as_bytes());
                drop(f);
                libc::_exit(0);
            }
            libc::close(fds[1]);
            pipes.push((pid, fds[0]));
        }
    }
    let mut a = Agg::default();
    for (pid, fd) in pipes {
        let mut s = String::new();
        unsafe {
            let _ = std::fs::File::from_raw_fd(fd).read_to_string(&mut s);
            let mut st = 0;
            libc::waitpid(pid, &mut st, 0);
        }
        match serde_json::from_str::<Value>(&s) {
            Ok(v) => a.merge(&v),
            Err(_) => a.harness.push(format!("worker {pid} died")),
        }
    }
    a
}

/// Minimises a choice sequence while the same class of violation persists.
pub fn shrink(p: &'static Prop, class: &str, start: Vec<u32>, budget: Duration) -> (Vec<u32>, u64) {
    let t0 = Instant::now();
    let mut tries = 0u64;
    let mut best = start;
    while best.last() == Some(&0) {
        best.pop();
    }
    fn key(v: &[u32]) -> (usize, u64) {
        (v.len(), v.iter().map(|x| *x as u64).sum())
    }
    let mut spans: Vec<(u32, u32)> = vec![];
    let attempt = |cand: Vec<u32>, best: &mut Vec<u32>, tries: &mut u64, spans: &mut Vec<(u32, u32)>| -> bool {
        if t0.elapsed() > budget {
            return false;
        }
        *tries += 1;
        let o = exec(p, 0, Some(cand), false);
        if o.status == "viol" && o.class == class {
            let mut c = o.choices;
            while c.last() == Some(&0) {
                c.pop();
            }
            if key(&c) < key(best) {
                *best = c;
                *spans = serde_json::from_value(o.v["spans"].clone()).unwrap_or_default();
                return true;
            }
        }
        false
    };
    let o = exec(p, 0, Some(best.clone()), false);
    if o.status == "viol" && o.class == class {
        spans = serde_json::from_value(o.v["spans"].clone()).unwrap_or_default();
    }
    loop {
        let before = key(&best);
        // 1. drop whole spans (operations, faults, processes), longest first
        let mut i = 0;
        loop {
            let mut s = spans.clone();
            s.sort_by_key(|(a, b)| std::cmp::Reverse(b - a));
            if i >= s.len() || t0.elapsed() > budget {
                break;
            }
            let (a, b) = (s[i].0 as usize, (s[i].1 as usize).min(best.len()));
            if a < b {
                let mut c = best.clone();
                c.drain(a..b);
                if attempt(c, &mut best, &mut tries, &mut spans) {
                    continue;
                }
                if best[a..b].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    c[a..b].fill(0);
                    if attempt(c, &mut best, &mut tries, &mut spans) {
                        continue;
                    }
                }
            }
            i += 1;
        }
        // 2. drop raw chunks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 && t0.elapsed() < budget {
            let mut a = 0;
            while a < best.len() {
                let b = (a + size).min(best.len());
                let mut c = best.clone();
                c.drain(a..b);
                if !attempt(c, &mut best, &mut tries, &mut spans) {
                    let mut c = best.clone();
                    if c[a..b].iter().any(|x| *x != 0) {
                        c[a..b].fill(0);
                        attempt(c, &mut best, &mut tries, &mut spans);
                    }
                    a += size;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // 3. lower single values
        let mut i = 0;
        while i < best.len() && t0.elapsed() < budget {
            let v = best[i];
            if v > 0 {
                for nv in [0, 1, v / 2, v - v / 4, v - 1] {
                    if nv < v {
                        let mut c = best.clone();
                        c[i] = nv;
                        if attempt(c, &mut best, &mut tries, &mut spans) {
                            break;
                        }
                    }
                }
            }
            i += 1;
        }
        if key(&best) >= before || t0.elapsed() > budget {
            break;
        }
    }
    (best, tries)
}

pub fn replay_file(path: &str) -> i32 {
    let Ok(s) = std::fs::read_to_string(path) else {
        eprintln!("cannot read {path}");
        return 2;
    };
    let Ok(v) = serde_json::from_str::<Value>(&s) else {
        eprintln!("cannot parse {path}");
        return 2;
    };
    let Some(p) = props::find(v["property"].as_str().unwrap_or("")) else {
        eprintln!("unknown property in {path}");
        return 2;
    };
    let choices: Vec<u32> = serde_json::from_value(v["choices"].clone()).unwrap_or_default();
    let o = exec(p, 0, Some(choices), true);
    for l in o.v["log"].as_array().into_iter().flatten() {
        println!("{}", l.as_str().unwrap_or(""));
    }
    println!("{}: {}: {}", o.status, o.class, o.msg);
    let same_hash = o.v["hash"] == v["event_log_hash"];
    if o.status == "viol" && o.class == v["class"].as_str().unwrap_or("") {
        println!("REPRODUCED class={} event_log_identical={}", o.class, same_hash);
        1
    } else if o.status == "ok" {
        println!("NOT REPRODUCED (the property held on this schedule)");
        0
    } else {
        println!("DIFFERENT OUTCOME");
        if o.status == "viol" { 1 } else { 2 }
    }
}

pub struct Opts {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    pub root: String,
    pub jobs: usize,
    pub runs: Option<u64>,
    pub secs: Option<u64>,
}

pub fn check(o: &Opts) -> i32 {
    let Some(p) = props::find(&o.prop) else {
        eprintln!("unknown property {}", o.prop);
        return 2;
    };
    let thorough = o.tier == "thorough";
    let t0 = Instant::now();
    let count = o.runs.unwrap_or(if thorough { p.quick_runs * 40 } else { p.quick_runs });
    let secs = o.secs.unwrap_or(if thorough { 600 } else { 75 });
    println!("bellsim: property {} tier {} VERIF_SEED {} up to {} runs", p.id, o.tier, o.seed, count);
    let known = Known::load(&std::path::Path::new(&o.root).join("known_findings.txt"));
    let a = batch(p, o.seed, count, o.jobs, t0 + Duration::from_secs(secs), &known);
    let search_s = t0.elapsed().as_secs_f64();

    // determinism: run a sample of the same seeds again and compare event logs
    let mut det = (0u64, 0u64);
    for (i, h) in a.hashes.iter().take(if a.viol.is_empty() { 64 } else { 8 }) {
        let r = exec(p, run_seed(o.seed, p.id, *i), None, false);
        if r.status == "ok" {
            det.0 += 1;
            if r.v["hash"].as_u64() != Some(*h) {
                det.1 += 1;
            }
        }
    }
    // samples
    let mut samples = vec![];
    if a.viol.is_empty() {
        for i in 0..40u64 {
            let r = exec(p, run_seed(o.seed, p.id, i), None, true);
            if r.v["nt"].as_bool() == Some(true) {
                let log: Vec<&str> = r.v["log"].as_array().into_iter().flatten().filter_map(|x| x.as_str()).collect();
                let shown: Vec<String> = log.iter().take(25).map(|s| s.chars().take(300).collect()).collect();
                samples.push(json!({"run": i, "run_seed": format!("{:#x}", run_seed(o.seed, p.id, i)), "choices": r.choices.len(), "events": r.v["events"], "first_events": shown}));
                if samples.len() == 3 {
                    break;
                }
            }
        }
    }
    let mut code = 0;
    let mut violations = 0;
    let mut viol_info = Value::Null;
    let mut viols = a.viol.iter().collect::<Vec<_>>();
    viols.sort_by_key(|v| v.0);
    if let Some((idx, class, msg, choices)) = viols.first() {
        violations = 1;
        code = 1;
        let rs = run_seed(o.seed, p.id, *idx);
        let (min, tries) = shrink(p, class, choices.clone(), Duration::from_secs(if class == "hang" { 60 } else { 25 }));
        let fin = exec(p, 0, Some(min.clone()), true);
        let (class_f, msg_f) = if fin.status == "viol" { (fin.class.clone(), fin.msg.clone()) } else { (class.clone(), msg.clone()) };
        let dir = std::path::Path::new(&o.root).join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-seed{}-run{}.json", p.id, o.seed, idx));
        let body = json!({"property": p.id, "verif_seed": o.seed, "run_index": idx, "run_seed": format!("{rs:#x}"), "class": class_f, "message": msg_f,
            "choices": min, "choices_before_minimising": choices.len(), "minimising_runs": tries, "event_log_hash": fin.v["hash"],
            "faults": fin.v["f"], "log": fin.v["log"],
            "how_to_replay": format!("bash /verif/check.sh replay {}", path.display())});
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap());
        // fresh process
        let again = std::process::Command::new(std::env::current_exe().unwrap()).arg("replay").arg(&path).output();
        let ok = again.as_ref().map(|x| x.status.code() == Some(1)).unwrap_or(false);
        println!("violation in run {idx} (seed {rs:#x}): {class_f}: {msg_f}");
        println!("minimised from {} to {} choices in {} runs; replay in a fresh process: {}", choices.len(), min.len(), tries, if ok { "reproduced" } else { "NOT reproduced" });
        for l in fin.v["log"].as_array().into_iter().flatten().rev().take(30).collect::<Vec<_>>().into_iter().rev() {
            println!("    {}", l.as_str().unwrap_or(""));
        }
        println!("VIOLATION property={} replay={}", p.id, path.display());
        viol_info = json!({"class": class_f, "message": msg_f, "replay": path.display().to_string(), "reproduced_in_fresh_process": ok});
    }
    for (m, n) in &a.known {
        if let Some(k) = known.entries.iter().find(|k| &k.1 == m && k.0 == p.id) {
            println!("KNOWN-FINDING: property={} {} ({} runs)", p.id, k.2, n);
        }
    }
    if !a.harness.is_empty() {
        for h in &a.harness {
            eprintln!("harness error: {h}");
        }
        if code == 0 {
            code = 2;
        }
    }
    if a.runs == 0 {
        eprintln!("harness error: no runs");
        code = 2;
    }
    let wall = t0.elapsed().as_secs_f64();
    let missing: Vec<&str> = p.expect.iter().copied().filter(|e| !a.probes.contains_key(*e) && !a.faults.contains_key(*e)).collect();
    let ev = json!({
        "property": p.id, "tier": o.tier, "seed": o.seed, "level": "exploration",
        "coverage": {
            "evaluations": a.runs,
            "distinct_nontrivial": a.nt_shapes.len(),
            "rule": format!("one case is one simulated run in a process of its own, every choice drawn from one seed (VERIF_SEED, property and run index); distinct by shape_measure; non-trivial when {}", p.rule),
            "samples": samples,
            "runs_and_seeds_per_hour": (a.runs as f64 / search_s * 3600.0).round(),
            "oracle_evaluations": a.evals,
            "nontrivial_runs": a.nontrivial,
            "distinct_shapes": a.shapes.len(),
            "shape_measure": p.shape,
            "simulated_seconds": a.sim_ns as f64 / 1e9,
            "events": a.events,
            "choices_drawn": a.choices,
            "faults_fired": a.faults,
            "runs_with_fault": a.fault_runs,
            "probes": a.probes,
            "expected_probes_never_hit": missing,
            "determinism": {"runs_repeated": det.0, "event_logs_differing": det.1},
            "real_code": p.real, "stubbed": p.stub,
            "known_findings_seen": a.known,
            "violation": viol_info,
        },
        "assumptions": p.assumptions,
        "wall_s": wall,
        "violations": violations,
    });
    let dir = std::path::Path::new(&o.root).join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if std::fs::write(dir.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap()).is_err() {
        eprintln!("harness error: cannot write evidence");
        return 2;
    }
    println!(
        "{} runs ({} non-trivial, {} distinct), {} oracle evaluations, {:.1} simulated s, {} fault kinds, {:.1} s wall; determinism {}/{} identical",
        a.runs, a.nontrivial, a.nt_shapes.len(), a.evals, a.sim_ns as f64 / 1e9, a.faults.len(), wall, det.0 - det.1, det.0
    );
    if !missing.is_empty() {
        println!("note: never hit in this batch: {missing:?}");
    }
    code
}

/// Runs every seed several times at different worker counts and compares logs.
pub fn selfcheck(seed: u64, n: u64, only: Option<&str>) -> i32 {
    let mut bad = 0;
    for p in props::all() {
        if only.map(|o| o != p.id).unwrap_or(false) {
            continue;
        }
        let mut diff = 0;
        for i in 0..n {
            let s = run_seed(seed, p.id, i);
            let h0 = exec(p, s, None, false);
            let h1 = exec(p, s, None, true);
            let h2 = exec(p, 0, Some(h0.choices.clone()), false);
            if h0.v["hash"] != h1.v["hash"] || h0.v["hash"] != h2.v["hash"] || h0.status != h2.status {
                diff += 1;
                if diff == 1 {
                    eprintln!("{} run {i}: {:?} {:?} {:?} {} {} {}", p.id, h0.v["hash"], h1.v["hash"], h2.v["hash"], h0.status, h1.status, h2.status);
                }
            }
        }
        println!("{}: {} seeds x3, {} differing", p.id, n, diff);
        bad += diff;
    }
    (bad > 0) as i32
}
