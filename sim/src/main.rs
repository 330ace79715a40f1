//! atsim: deterministic simulation of at-asm, at-obj and at-mac.
//!
//!   atsim check PROP      seeded search (VERIF_SEED, VERIF_TIER), evidence, verdict
//!   atsim replay FILE     execute one recorded run
//!   atsim digest PROP FROM N   event-log hashes of runs (determinism test)
//!   atsim plan PROP I     print the plan of run I
//!   atsim control FILE    the control executions of a recorded run
mod cli;
mod ctx;
mod gen;
mod json;
mod meter;
mod model;
mod pcli;
mod plib;
mod rec;
mod rng;
mod sched;
mod shrink;
mod stream;

use cli::Env;
use ctx::*;
use json::J;
use rng::Rng;
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Instant;

const LIB: [&str; 11] = ["P01", "P02", "P03", "P04", "P09", "P10", "P11", "P12", "P13", "P14", "P21"];
const CLI: [&str; 10] = ["P02", "P05", "P06", "P07", "P08", "P14", "P15", "P16", "P20", "P22"];

fn verif() -> String {
    std::env::var("ATSIM_VERIF").unwrap_or_else(|_| "/verif".into())
}

/// Every plan says which of the two worlds it is for.
fn gen_plan(prop: &str, seed: u64) -> J {
    let mut r = Rng::new(seed);
    let (l, c) = (LIB.contains(&prop), CLI.contains(&prop));
    let cli = c && (!l || r.chance(1, 4));
    let mut p = if cli {
        pcli::gen_plan(prop, &mut r)
    } else if ["P10", "P11", "P12"].contains(&prop) {
        rec::gen_plan(prop, &mut r)
    } else {
        plib::gen_plan(prop, &mut r)
    };
    if !cli && !["P14", "P21"].contains(&prop) && r.chance(1, 8) {
        p.set("pre", plib::gen_earlier(&mut r));
    }
    p.set("world", J::Str(if cli { "cli" } else { "lib" }.into()));
    p.set("ent", J::Int((seed & 0xffff) as i128));
    p
}

fn exec_once(prop: &str, p: &J, env: &Env) -> V {
    reset();
    if p.s("world") == "cli" {
        match pcli::run(prop, p, env) {
            Err(e) => V::Harness(e),
            Ok(Ok(())) => V::Ok,
            Ok(Err((c, m))) => V::Viol(c, m),
        }
    } else {
        in_child(
            || {
                plib::earlier(p);
                if ["P10", "P11", "P12"].contains(&prop) {
                    rec::run(prop, p)
                } else {
                    plib::run(prop, p)
                }
            },
            p.u("ent"),
        )
    }
}

/// The undisturbed counterpart of a plan: if it fails too, the failure has nothing to do with
/// what this property is about (another property owns it).
fn control(prop: &str, p: &J, class: &str) -> Option<J> {
    let mut q = p.clone();
    match (prop, class) {
        ("P14", "work-not-completed") if p.s("world") == "cli" => {
            let mut steps = vec![];
            for s in p.a("steps") {
                let mut s = s.clone();
                let ps: Vec<J> = s
                    .a("procs")
                    .iter()
                    .map(|x| J::Obj(vec![("src".into(), x.get("src").clone()), ("out".into(), x.get("out").clone())]))
                    .collect();
                if !ps.is_empty() {
                    s.set("procs", J::Arr(ps));
                }
                steps.push(s);
            }
            q.set("steps", J::Arr(steps));
            Some(q)
        }
        ("P14", "work-not-completed") => {
            q.set("rd", J::Obj(vec![]));
            q.set("wr", J::Obj(vec![]));
            Some(q)
        }
        ("P09", _) => {
            // each session alone: everything it reads in one piece, one write
            let mut asms = vec![];
            for a in p.a("asms") {
                let mut l = vec![];
                for o in a.a("ops") {
                    l.extend(o.a("read").iter().cloned());
                }
                asms.push(jo! {"th": 0, "ops": vec![jo!{"read": l, "rd": jo!{}}, jo!{"wr": jo!{}}]});
                // nested assemblers as sessions of their own
                for o in a.a("ops") {
                    let n = o.get("nest");
                    if !n.is_null() {
                        asms.push(jo! {"th": 0, "ops": vec![jo!{"read": n.a("lines").to_vec(), "rd": jo!{}}, jo!{"wr": jo!{}}]});
                    }
                }
            }
            let order: Vec<J> = (0..asms.len()).flat_map(|i| vec![J::Int(i as i128); 2]).collect();
            q = jo! {"asms": asms, "order": vec![J::Arr(order)], "threads": 1, "sched": J::Arr(vec![])};
            q.set("world", J::Str("lib".into()));
            q.set("ent", p.get("ent").clone());
            Some(q)
        }
        ("P08", "interference") => {
            // each run alone, one after the other: a fault that is there without company
            let mut steps = vec![];
            for s in p.a("steps") {
                for x in s.a("procs") {
                    steps.push(jo! {"procs": vec![x.clone()]});
                }
            }
            q.set("steps", J::Arr(steps));
            Some(q)
        }
        _ => None,
    }
}

pub fn exec(prop: &str, p: &J, env: &Env) -> V {
    let v = exec_once(prop, p, env);
    if let V::Viol(c, _) = &v {
        if let Some(q) = control(prop, p, c) {
            let keep = save();
            let w = exec_once(prop, &q, env);
            restore(keep);
            match w {
                V::Viol(..) => {
                    cnt(C::control_also_fails);
                    return V::Ok;
                }
                V::Harness(e) => return V::Harness(e),
                V::Ok => {}
            }
        }
    }
    v
}

// ---------------------------------------------------------------- search

struct Found {
    idx: u64,
    class: String,
    msg: String,
    plan: J,
}

struct Totals {
    cnt: Vec<u64>,
    runs: u64,
    steps: u64,
    nontrivial: u64,
    hashes: HashSet<u64>,
    by_world: [u64; 2],
    found: Option<Found>,
    harness: Option<String>,
    twice: u64,
    diverged: u64,
    /// runs of the release build among them
    release: u64,
}

fn fault_fired() -> bool {
    let s = shm();
    let a = C::fault_short_read as usize;
    let b = C::fault_unforeseen_file as usize;
    s.cnt[a..=b].iter().any(|x| *x > 0) || s.cnt[C::thread_switches as usize] > 0
}

fn runs_for(prop: &str, tier: &str) -> u64 {
    let q = match prop {
        "P01" | "P02" | "P03" | "P04" | "P13" => 120000,
        "P09" | "P14" => 60000,
        "P10" | "P11" | "P12" => 200000,
        "P07" | "P08" | "P20" => 24000,
        _ => 60000,
    };
    let n = if tier == "thorough" { q * 25 } else { q };
    let n = if is_release() { n / 4 } else { n };
    std::env::var("ATSIM_RUNS").ok().and_then(|x| x.parse().ok()).unwrap_or(n)
}

/// Is this the simulator that was built like a release: no overflow checks, no debug assertions?
fn is_release() -> bool {
    !cfg!(debug_assertions)
}

/// Where the release build lies, if it was made.
fn release_tools() -> Option<String> {
    std::env::var("ATSIM_REL").ok().filter(|d| !is_release() && std::path::Path::new(d).join("bin/atsim").exists())
}

/// Run numbers of the release build start here, so that its runs are others.
const REL_FROM: u64 = 1 << 40;

fn worker(prop: &str, w: u64, n: u64, runs: u64, seed: u64, limit: u64, min: &AtomicU64, out: std::fs::File) {
    init();
    let mut out = std::io::BufWriter::new(out);
    let env = Env::new(&format!("w{}", w));
    let t0 = Instant::now();
    let mut tot = vec![0u64; NC];
    let (mut steps, mut nt, mut done) = (0u64, 0u64, 0u64);
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut by_world = [0u64; 2];
    let (mut twice, mut diverged) = (0, 0);
    let base = if is_release() { REL_FROM } else { 0 };
    let mut i = w;
    let slow: Option<u128> = std::env::var("ATSIM_SLOW").ok().and_then(|x| x.parse().ok());
    while i < runs {
        if i > min.load(Ordering::SeqCst) || t0.elapsed().as_secs() > limit {
            break;
        }
        let p = gen_plan(prop, rng::run_seed(seed, prop, base + i));
        let t1 = Instant::now();
        let mut v = exec(prop, &p, &env);
        if let Some(s) = &slow {
            if t1.elapsed().as_millis() > *s {
                eprintln!("run {} took {} ms", i, t1.elapsed().as_millis());
            }
        }
        if let V::Harness(_) = v {
            // once more: a machine short of memory or processes
            std::thread::sleep(std::time::Duration::from_millis(200));
            v = exec(prop, &p, &env);
        }
        done += 1;
        by_world[(p.s("world") == "cli") as usize] += 1;
        let s = shm();
        for k in 0..NC {
            tot[k] += s.cnt[k];
        }
        steps += s.steps;
        let h = s.hash;
        if fault_fired() && s.cnt[C::skipped_plan as usize] == 0 {
            nt += 1;
            hashes.insert(h);
        }
        match v {
            V::Ok => {}
            V::Viol(c, m) => {
                min.fetch_min(i, Ordering::SeqCst);
                writeln!(out, "V {} {}", base + i, jo! {"class": c, "msg": m, "plan": p}.text()).unwrap();
                break;
            }
            V::Harness(e) => {
                writeln!(out, "E run {}: {}", base + i, e.replace('\n', " ")).unwrap();
                break;
            }
        }
        // the same run once more, now and then: same events?
        if i % 97 == w % 97 && i / n % 8 == 0 {
            twice += 1;
            let _ = exec(prop, &p, &env);
            if shm().hash != h {
                diverged += 1;
            }
        }
        i += n;
    }
    let t: Vec<String> = tot.iter().map(|x| x.to_string()).collect();
    writeln!(out, "S {} {} {} {} {} {} {} {}", done, steps, nt, by_world[0], by_world[1], twice, diverged, t.join(" ")).unwrap();
    let h: Vec<String> = hashes.iter().map(|x| format!("{:x}", x)).collect();
    writeln!(out, "H {}", h.join(" ")).unwrap();
    out.flush().unwrap();
}

fn search(prop: &str, tier: &str, seed: u64, limit: u64) -> Totals {
    let n = std::env::var("ATSIM_WORKERS").ok().and_then(|x| x.parse().ok()).unwrap_or(8u64);
    let runs = runs_for(prop, tier);
    let min: &'static AtomicU64 = unsafe {
        let p = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        assert!(p != libc::MAP_FAILED);
        &*(p as *const AtomicU64)
    };
    min.store(u64::MAX, Ordering::SeqCst);
    let mut kids = vec![];
    for w in 0..n {
        unsafe {
            let mut fds = [0i32; 2];
            assert!(libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) == 0);
            let pid = libc::fork();
            assert!(pid >= 0);
            use std::os::unix::io::FromRawFd;
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGTERM);
                libc::close(fds[0]);
                worker(prop, w, n, runs, seed, limit, min, std::fs::File::from_raw_fd(fds[1]));
                libc::_exit(0);
            }
            libc::close(fds[1]);
            kids.push((pid, std::fs::File::from_raw_fd(fds[0])));
        }
    }
    let mut t = Totals::new();
    for (pid, f) in kids {
        let complete = t.merge(f);
        let mut st = 0;
        unsafe { libc::waitpid(pid, &mut st, 0) };
        if !complete {
            t.harness.get_or_insert(format!("a worker ended early (status {:#x})", st));
        }
    }
    t
}

impl Totals {
    fn new() -> Self {
        Totals {
            cnt: vec![0; NC],
            runs: 0,
            steps: 0,
            nontrivial: 0,
            hashes: HashSet::new(),
            by_world: [0; 2],
            found: None,
            harness: None,
            twice: 0,
            diverged: 0,
            release: 0,
        }
    }
    /// What a worker (or the release build) reports. Is it all there?
    fn merge(&mut self, f: std::fs::File) -> bool {
        let t = self;
        let mut complete = false;
        for line in std::io::BufReader::new(f).lines().map_while(Result::ok) {
            if let Some(r) = line.strip_prefix("V ") {
                let (i, js) = r.split_once(' ').unwrap();
                let idx: u64 = i.parse().unwrap();
                let j = J::parse(js).expect("worker line");
                if t.found.as_ref().map_or(true, |f| idx < f.idx) {
                    t.found = Some(Found { idx, class: j.s("class").into(), msg: j.s("msg").into(), plan: j.get("plan").clone() });
                }
            } else if let Some(r) = line.strip_prefix("E ") {
                t.harness = Some(r.to_string());
            } else if let Some(r) = line.strip_prefix("S ") {
                let x: Vec<u64> = r.split(' ').map(|x| x.parse().unwrap()).collect();
                t.runs += x[0];
                t.steps += x[1];
                t.nontrivial += x[2];
                t.by_world[0] += x[3];
                t.by_world[1] += x[4];
                t.twice += x[5];
                t.diverged += x[6];
                for k in 0..NC {
                    t.cnt[k] += x[7 + k];
                }
            } else if let Some(r) = line.strip_prefix("H") {
                t.hashes.extend(r.split_whitespace().map(|x| u64::from_str_radix(x, 16).unwrap()));
                complete = true;
            }
        }
        complete
    }
    fn lines(&self) -> String {
        let c: Vec<String> = self.cnt.iter().map(|x| x.to_string()).collect();
        let h: Vec<String> = self.hashes.iter().map(|x| format!("{:x}", x)).collect();
        let (w, n) = (self.by_world, self.nontrivial);
        format!("S {} {} {} {} {} {} {} {}\nH {}\n", self.runs, self.steps, n, w[0], w[1], self.twice, self.diverged, c.join(" "), h.join(" "))
    }
}

/// Known findings: lines `known: property=<id> class=<class> match=<text>`.
fn known(prop: &str, class: &str, msg: &str) -> Option<String> {
    let f = std::fs::read_to_string(format!("{}/known-findings.txt", verif())).ok()?;
    for l in f.lines() {
        if let Some(r) = l.strip_prefix("known: ") {
            let p = format!("property={} class={} match=", prop, class);
            if let Some(m) = r.strip_prefix(&p) {
                if msg.contains(m.trim()) {
                    return Some(m.trim().to_string());
                }
            }
        }
    }
    None
}

fn check(prop: &str) -> i32 {
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    };
    let build = if is_release() { " (release build)" } else { "" };
    println!("property {} tier {} VERIF_SEED {}{}", prop, tier, seed, build);
    let t0 = Instant::now();
    init();
    let limit = if tier == "thorough" { 3000 } else { 450 };
    let limit = if is_release() { limit / 4 } else { limit };
    let mut t = search(prop, tier, seed, limit);
    let mut code = 0;
    let mut viols = 0;
    if let Some(f) = &t.found {
        let env = Env::new("shrink");
        if let Some(m) = known(prop, &f.class, &f.msg) {
            println!("KNOWN-FINDING: property={} {}: {}", prop, f.class, m);
        } else {
            code = report(prop, seed, f, &env);
            viols = 1;
        }
    } else if let Some(e) = &t.harness {
        println!("ERROR of the check: {}", e);
        code = 3;
    }
    if is_release() {
        // the debug build counts these runs among its own
        if std::fs::write(std::env::var("ATSIM_TOTALS").unwrap_or("/dev/null".into()), t.lines()).is_err() {
            code = code.max(3);
        }
        return code;
    }
    if let (0, Some(dir)) = (code, release_tools()) {
        let f = format!("{}/totals-{}", dir, std::process::id());
        let st = std::process::Command::new(format!("{}/bin/atsim", dir))
            .args(["check", prop])
            .env("ATSIM_TOOLS", &dir)
            .env("ATSIM_TOTALS", &f)
            .status();
        let runs = t.runs;
        let complete = std::fs::File::open(&f).map_or(false, |f| t.merge(f));
        let _ = std::fs::remove_file(&f);
        t.release = t.runs - runs;
        code = match st.ok().and_then(|s| s.code()) {
            Some(0) if complete => 0,
            Some(1) => {
                viols = 1;
                1
            }
            _ => {
                println!("ERROR of the check: the release build gave no answer");
                3
            }
        };
    }
    let wall = t0.elapsed().as_secs_f64();
    evidence(prop, tier, seed, &t, wall, viols, t0);
    println!(
        "{} runs in {:.1} s, {} with perturbations, {} distinct histories, {} steps; repeated {} runs, {} diverged",
        t.runs,
        wall,
        t.nontrivial,
        t.hashes.len(),
        t.steps,
        t.twice,
        t.diverged
    );
    code
}

fn report(prop: &str, seed: u64, f: &Found, env: &Env) -> i32 {
    println!("run {} violates {}: {}\n  {}", f.idx, prop, f.class, f.msg.replace('\n', "\n  "));
    let (plan, msg, tried) = shrink::shrink(prop, &f.plan, &f.class, &f.msg, env);
    println!("minimised with {} executions from {} to {} characters of plan", tried, f.plan.text().len(), plan.text().len());
    let v = exec(prop, &plan, env);
    let hash = shm().hash;
    let dir = format!("{}/replays", verif());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}-{}.json", dir, prop, f.class);
    let ok = matches!(&v, V::Viol(c, _) if *c == f.class);
    let body = jo! {
        "build": if is_release() { "release" } else { "debug" }, "property": prop, "class": f.class.as_str(), "message": msg.as_str(), "seed": seed, "run": f.idx,
        "events_hash": format!("{:016x}", hash), "plan": plan.clone(),
    };
    if std::fs::write(&path, body.text() + "\n").is_err() {
        println!("ERROR of the check: cannot write {}", path);
        return 3;
    }
    // the file must do it in a fresh process
    let mut again = false;
    for _ in 0..4 {
        let st = std::process::Command::new(std::env::current_exe().unwrap())
            .args(["replay", &path])
            .stdout(std::process::Stdio::null())
            .status();
        if st.map(|s| s.code() == Some(1)).unwrap_or(false) {
            again = true;
            break;
        }
    }
    if !(ok || again) {
        println!("ERROR of the check: the violation could not be reproduced from {}", path);
        return 3;
    }
    println!("minimised: {}\n  plan {}", msg.replace('\n', "\n  "), plan.text().chars().take(1500).collect::<String>());
    println!("VIOLATION property={} replay={}", prop, path);
    1
}

fn replay(path: &str) -> i32 {
    let j = match std::fs::read_to_string(path).ok().and_then(|s| J::parse(&s)) {
        Some(j) => j,
        None => {
            println!("cannot read {}", path);
            return 2;
        }
    };
    if j.s("build") == "release" && !is_release() {
        let dir = match release_tools() {
            Some(d) => d,
            None => {
                println!("the run is one of the release build, which was not made");
                return 2;
            }
        };
        let st = std::process::Command::new(format!("{}/bin/atsim", dir)).args(["replay", path]).env("ATSIM_TOOLS", &dir).status();
        return st.ok().and_then(|s| s.code()).unwrap_or(2);
    }
    init();
    let env = Env::new("replay");
    let prop = j.s("property").to_string();
    match exec(&prop, j.get("plan"), &env) {
        V::Viol(c, m) => {
            let same = format!("{:016x}", shm().hash) == j.s("events_hash");
            println!("{}: {}\nevents identical to the recorded run: {}", c, m, same);
            println!("VIOLATION property={} replay={}", prop, path);
            1
        }
        V::Ok => {
            println!("property {} holds in this run", prop);
            0
        }
        V::Harness(e) => {
            println!("ERROR of the check: {}", e);
            3
        }
    }
}

fn evidence(prop: &str, tier: &str, seed: u64, t: &Totals, wall: f64, viols: i64, t0: Instant) {
    let mut events: Vec<(String, J)> = vec![];
    let mut faults: Vec<(String, J)> = vec![];
    let mut probes: Vec<(String, J)> = vec![];
    for (k, n) in CNAMES.iter().enumerate() {
        let v = J::Int(t.cnt[k] as i128);
        if let Some(x) = n.strip_prefix("fault_") {
            if t.cnt[k] > 0 {
                faults.push((x.into(), v));
            }
        } else if let Some(x) = n.strip_prefix("probe_") {
            if t.cnt[k] > 0 {
                probes.push((x.into(), v));
            }
        } else {
            events.push((n.to_string(), v));
        }
    }
    let samples: Vec<J> = (0..3u64)
        .map(|i| {
            let s = rng::run_seed(seed, prop, i);
            let p = gen_plan(prop, s).text();
            jo! {"run": i, "seed": format!("{:016x}", s), "plan": p.chars().take(1200).collect::<String>()}
        })
        .collect();
    let mut real: Vec<&str> = vec![];
    let mut stub: Vec<&str> = vec![];
    if LIB.contains(&prop) {
        real.push("at-asm, at-obj, at-mac and at-x64 libraries, called in-process (one forked process per run)");
        stub.push("the reader and writer arguments: simulated streams");
        if prop == "P09" {
            real.push("operating system threads, exactly one running at a time");
            stub.push("the thread scheduler: a baton passed at stream calls as the plan says");
        }
        stub.push("std's hash-key entropy: seeded");
    }
    if CLI.contains(&prop) {
        real.push("the at-asm executable, std, libc and the kernel's file system (a scratch directory)");
        stub.push("the answers to open, read, write, stat, unlink, ... and the order of processes: decided by the plan through a preloaded library");
        stub.push("crash: SIGKILL before, after or in the middle of a chosen call (page cache survives: process crash, not power loss)");
        stub.push("clock, sleep, pid and entropy of the command: constants from the plan");
    }
    let cov = jo! {
        "evaluations": t.runs,
        "distinct_nontrivial": t.hashes.len(),
        "rule": "a run is one plan (workload, faults, schedule) drawn from the seed; it is non-trivial if at least one planned perturbation (fault or context switch) actually fired and the plan was not skipped; two runs are distinct if the hashes of their event logs (every call, its arguments, its answer, every context switch) differ",
        "samples": J::Arr(samples),
        "nontrivial_runs": t.nontrivial,
        "runs_in_process": t.by_world[0],
        "runs_of_command": t.by_world[1],
        "runs_of_the_release_build": t.release,
        "simulated_steps": t.steps,
        "simulated_time": "not applicable: the code has no clock or timer; progress is counted in calls (simulated_steps)",
        "seeds_per_hour": (t.runs as f64 / wall.max(0.001) * 3600.0) as u64,
        "search_seconds": wall,
        "faults_fired": J::Obj(faults),
        "probes_reached": J::Obj(probes),
        "events": J::Obj(events),
        "runs_executed_twice": t.twice,
        "runs_diverged_on_repetition": t.diverged,
        "real_components": real.into_iter().map(|x| J::Str(x.into())).collect::<Vec<_>>(),
        "simulated_components": stub.into_iter().map(|x| J::Str(x.into())).collect::<Vec<_>>(),
    };
    let e = jo! {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
        "assumptions": vec![
            J::Str("sampling: absence of a violation in these runs is evidence, not proof".into()),
            J::Str("the reference assembler, object writer and Mach-O codec in sim/src/model.rs and sim/src/rec.rs state the intended meaning".into()),
        ],
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": viols,
    };
    let dir = format!("{}/evidence", verif());
    let _ = std::fs::create_dir_all(&dir);
    if let Err(x) = std::fs::write(format!("{}/{}.json", dir, prop), e.text() + "\n") {
        println!("cannot write evidence: {}", x);
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|x| x.as_str()).unwrap_or("");
    let code = match arg(1) {
        "check" if LIB.contains(&arg(2)) || CLI.contains(&arg(2)) => check(arg(2)),
        "replay" => replay(arg(2)),
        "plan" => {
            let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
            println!("{}", gen_plan(arg(2), rng::run_seed(seed, arg(2), arg(3).parse().unwrap_or(0))).text());
            0
        }
        // the first source of a plan and the object the model expects, to compare with other tools
        "image" => {
            let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
            let out = arg(5).to_string();
            let (from, n): (u64, u64) = (arg(3).parse().unwrap_or(0), arg(4).parse().unwrap_or(1));
            for i in from..from + n {
                let p = gen_plan(arg(2), rng::run_seed(seed, arg(2), i));
                if let Some(f) = p.a("files").iter().find(|f| !f.get("lines").is_null()) {
                    if let Some(img) = model::assemble(f.a("lines")).and_then(|o| o.ok()).and_then(|o| model::image(&o)) {
                        let _ = std::fs::write(format!("{}/{}.asm", out, i), cli::source(f));
                        let _ = std::fs::write(format!("{}/{}.o", out, i), img);
                    }
                }
            }
            0
        }
        "digest" => {
            init();
            let env = Env::new("digest");
            let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
            let from: u64 = arg(3).parse().unwrap_or(0);
            let n: u64 = arg(4).parse().unwrap_or(100);
            let mut by: BTreeMap<u64, u64> = BTreeMap::new();
            for i in from..from + n {
                let p = gen_plan(arg(2), rng::run_seed(seed, arg(2), i));
                let v = match exec(arg(2), &p, &env) {
                    V::Ok => "ok".to_string(),
                    V::Viol(c, _) => c,
                    V::Harness(e) => format!("harness {}", e),
                };
                *by.entry(shm().hash).or_default() += 1;
                println!("{} {:016x} {} {}", i, shm().hash, shm().steps, v);
            }
            0
        }
        _ => {
            eprintln!("usage: atsim check PROP | replay FILE | plan PROP RUN | digest PROP FROM N");
            2
        }
    };
    std::process::exit(code);
}
