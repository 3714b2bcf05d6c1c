//! The supervisor: seeds, worker processes, crash and hang detection,
//! minimisation, replay files, evidence.

use crate::rng::{hash_str, mix, Rng};
use crate::scn::{Prop, Stats, Tier, Violation};
use serde_json::{json, Value};
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Opts {
    pub seed: u64,
    pub tier: Tier,
    pub secs: f64,
    pub cases: u64,
    pub workers: u64,
    pub root: String,
    pub start: u64,
}

impl Opts {
    pub fn parse(a: &[String]) -> Opts {
        let tier = match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        };
        let mut o = Opts {
            seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
            tier,
            secs: 0.0,
            cases: u64::MAX,
            workers: std::thread::available_parallelism().map(|x| x.get() as u64).unwrap_or(4).min(8),
            root: "/verif".into(),
            start: 0,
        };
        let mut i = 0;
        while i + 1 < a.len() {
            match a[i].as_str() {
                "--secs" => o.secs = a[i + 1].parse().unwrap(),
                "--cases" => o.cases = a[i + 1].parse().unwrap(),
                "--workers" => o.workers = a[i + 1].parse().unwrap(),
                "--seed" => o.seed = a[i + 1].parse().unwrap(),
                "--root" => o.root = a[i + 1].clone(),
                "--start" => o.start = a[i + 1].parse().unwrap(),
                _ => (),
            }
            i += 2;
        }
        if o.secs == 0.0 {
            o.secs = if o.tier == Tier::Quick { 22.0 } else { 600.0 };
        }
        o
    }
}

fn case_seed<P: Prop>(seed: u64, index: u64) -> u64 {
    mix(seed ^ hash_str(P::ID)).wrapping_add(mix(index).rotate_left(17)) ^ index
}

fn gen<P: Prop>(o: &Opts, index: u64) -> P::Case {
    let mut r = Rng::new(case_seed::<P>(o.seed, index));
    P::gen(&mut r, o.tier)
}

static PANIC: Mutex<String> = Mutex::new(String::new());

fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::new()
        };
        if std::env::var("VMSIM_STDERR").is_ok() {
            eprintln!("panic: {} at {}", msg, loc);
        }
        if let Ok(mut p) = PANIC.lock() {
            *p = format!("{} at {}", msg, loc);
        }
    }));
}

fn run_case<P: Prop>(c: &P::Case, st: &mut Stats) -> Result<(), Violation> {
    st.cases += 1;
    match catch_unwind(AssertUnwindSafe(|| P::run(c, st))) {
        Ok(r) => r,
        Err(_) => {
            crate::alloc::POISON.store(0, std::sync::atomic::Ordering::Relaxed);
            let m = PANIC.lock().map(|x| x.clone()).unwrap_or_default();
            // a panic of the harness itself is an error of the check
            if m.contains(" at src/") && !m.contains("/repo/") {
                eprintln!("harness panic: {}", m);
                std::process::exit(3);
            }
            Err(Violation { kind: "panic".into(), msg: format!("panicked: {}", m), trace: vec![] })
        }
    }
}

#[derive(Debug)]
pub enum Out {
    Ok,
    Viol(Violation),
    Crash(i32),
    Hang,
    Harness,
}
impl Out {
    fn kind(&self) -> String {
        match self {
            Out::Ok => "".into(),
            Out::Viol(v) => v.kind.clone(),
            Out::Crash(_) => "crash".into(),
            Out::Hang => "hang".into(),
            Out::Harness => "harness".into(),
        }
    }
    fn viol(&self) -> Option<Violation> {
        match self {
            Out::Viol(v) => Some(v.clone()),
            Out::Crash(s) => Some(Violation {
                kind: "crash".into(),
                msg: format!("the process was killed by signal {}", s),
                trace: vec![],
            }),
            Out::Hang => Some(Violation {
                kind: "hang".into(),
                msg: "the run does not end within its budget".into(),
                trace: vec![],
            }),
            _ => None,
        }
    }
}

const CPU_LIMIT: i64 = 40;

fn arm_timer(secs: i64) {
    unsafe {
        let t = libc::itimerval {
            it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 },
            it_value: libc::timeval { tv_sec: secs, tv_usec: 0 },
        };
        libc::setitimer(libc::ITIMER_PROF, &t, std::ptr::null_mut());
    }
}

fn no_core() {
    unsafe {
        let r = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &r);
        let fd = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
        if fd >= 0 && std::env::var("VMSIM_STDERR").is_err() {
            libc::dup2(fd, 2);
        }
    }
}

/// One case in a process of its own.
fn isolated<P: Prop>(c: &P::Case, cpu: i64) -> Out {
    let mut fds = [0i32; 2];
    unsafe {
        libc::pipe(fds.as_mut_ptr());
        let pid = libc::fork();
        if pid == 0 {
            libc::close(fds[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            no_core();
            arm_timer(cpu);
            let mut st = Stats::default();
            let r = run_case::<P>(c, &mut st);
            let s = match r {
                Ok(()) => "ok".to_string(),
                Err(v) => serde_json::to_string(&v).unwrap(),
            };
            let b = s.as_bytes();
            let mut o = 0;
            while o < b.len() {
                let n = libc::write(fds[1], b[o..].as_ptr() as *const _, b.len() - o);
                if n <= 0 {
                    break;
                }
                o += n as usize;
            }
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut f = <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(fds[0]);
        let mut s = String::new();
        let _ = f.read_to_string(&mut s);
        let mut status = 0;
        libc::waitpid(pid, &mut status, 0);
        if libc::WIFSIGNALED(status) {
            let sig = libc::WTERMSIG(status);
            if sig == libc::SIGPROF {
                return Out::Hang;
            }
            return Out::Crash(sig);
        }
        if libc::WEXITSTATUS(status) != 0 {
            return Out::Harness;
        }
        if s == "ok" {
            return Out::Ok;
        }
        match serde_json::from_str(&s) {
            Ok(v) => Out::Viol(v),
            Err(_) => Out::Harness,
        }
    }
}

fn minimise<P: Prop>(c: P::Case, kind: &str, budget: Duration) -> (P::Case, u64) {
    let t = Instant::now();
    let mut cur = c;
    let mut tests = 0;
    let cpu = if kind == "hang" { 6 } else { CPU_LIMIT };
    let mut ok = |c: &P::Case| {
        tests += 1;
        isolated::<P>(c, cpu).kind() == kind
    };
    loop {
        let mut progress = false;
        // ddmin over atoms
        let mut chunk = P::atoms(&cur).max(1);
        while chunk >= 1 && t.elapsed() < budget {
            let mut lo = 0;
            while lo < P::atoms(&cur) && t.elapsed() < budget {
                let hi = (lo + chunk).min(P::atoms(&cur));
                let d = P::without(&cur, lo, hi);
                if P::atoms(&d) < P::atoms(&cur) && ok(&d) {
                    cur = d;
                    progress = true;
                } else {
                    lo += chunk;
                }
            }
            chunk /= 2;
        }
        // simplifications
        let mut again = true;
        while again && t.elapsed() < budget {
            again = false;
            for d in P::simpler(&cur) {
                if t.elapsed() > budget {
                    break;
                }
                if ok(&d) {
                    cur = d;
                    again = true;
                    progress = true;
                    break;
                }
            }
        }
        if !progress || t.elapsed() > budget {
            return (cur, tests);
        }
    }
}

#[repr(C)]
struct Slot {
    index: u64,
    cases: u64,
    busy: u64,
}

fn shared(n: usize) -> *mut Slot {
    unsafe {
        libc::mmap(
            std::ptr::null_mut(),
            n * std::mem::size_of::<Slot>() + 4096,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        ) as *mut Slot
    }
}

fn worker<P: Prop>(o: &Opts, w: u64, dir: &str, slot: *mut Slot) -> ! {
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
    no_core();
    let end = Instant::now() + Duration::from_secs_f64(o.secs);
    let mut st = Stats::default();
    let mut i = o.start + w;
    let mut n = 0u64;
    while Instant::now() < end && i < o.cases.saturating_add(o.start) {
        unsafe {
            std::ptr::write_volatile(&mut (*slot).index, i);
            std::ptr::write_volatile(&mut (*slot).busy, 1);
        }
        if !P::ISOLATED {
            arm_timer(CPU_LIMIT);
        }
        let c = gen::<P>(o, i);
        st.digest = 0;
        let r = if P::ISOLATED && false {
            Ok(())
        } else {
            run_case::<P>(&c, &mut st)
        };
        if let Err(v) = r {
            let _ = std::fs::write(
                format!("{}/viol-{}", dir, w),
                serde_json::to_vec(&json!({"index": i, "violation": v})).unwrap(),
            );
            break;
        }
        n += 1;
        // the same seed again: the same execution
        if n % 40 == 1 {
            let d = st.digest;
            let mut s2 = Stats::default();
            let _ = run_case::<P>(&c, &mut s2);
            st.replayed += 1;
            if s2.digest != d {
                st.replay_diverged += 1;
            }
        }
        unsafe {
            std::ptr::write_volatile(&mut (*slot).cases, n);
        }
        i += o.workers;
    }
    arm_timer(0);
    unsafe {
        std::ptr::write_volatile(&mut (*slot).busy, 0);
    }
    let _ = std::fs::write(format!("{}/stats-{}", dir, w), serde_json::to_vec(&st).unwrap());
    let mut f = std::fs::File::create(format!("{}/sigs-{}", dir, w)).unwrap();
    let mut b = Vec::with_capacity(st.sigs.len() * 8);
    for s in &st.sigs {
        b.extend_from_slice(&s.to_le_bytes());
    }
    let _ = f.write_all(&b);
    drop(f);
    unsafe { libc::_exit(0) }
}

struct Found {
    index: u64,
    v: Violation,
}

pub fn check<P: Prop>(o: &Opts) -> i32 {
    quiet_panics();
    let t0 = Instant::now();
    println!("property {} seed {} tier {:?} workers {}", P::ID, o.seed, o.tier, o.workers);
    let _ = std::fs::create_dir_all(format!("{}/evidence", o.root));
    let _ = std::fs::create_dir_all(format!("{}/replays", o.root));
    // known findings: reproduce each listed one
    let mut known = vec![];
    let kf: Value = std::fs::read(format!("{}/known-findings.json", o.root))
        .ok()
        .and_then(|b| serde_json::from_slice(&b).ok())
        .unwrap_or(json!([]));
    for f in kf.as_array().unwrap_or(&vec![]) {
        if f["property"] == P::ID && f["status"] == "known" {
            let id = f["id"].as_str().unwrap_or("");
            match P::known(id) {
                Some(Ok(what)) => {
                    println!("KNOWN-FINDING: property={} {}", P::ID, what);
                    known.push(json!({"id": id, "reproduced": true, "what": what}));
                }
                Some(Err(why)) => {
                    println!("known finding {} no longer reproduces: {}", id, why);
                    known.push(json!({"id": id, "reproduced": false, "what": why}));
                }
                None => println!("known finding {} has no probe", id),
            }
        }
    }
    let dir = format!("{}/sim/run-{}-{}", std::env::temp_dir().display(), P::ID, std::process::id());
    let _ = std::fs::create_dir_all(&dir);
    let slots = shared(o.workers as usize);
    let mut pids = vec![];
    let _ = std::io::stdout().flush();
    for w in 0..o.workers {
        let slot = unsafe { slots.add(w as usize) };
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            worker::<P>(o, w, &dir, slot);
        }
        pids.push(pid);
    }
    let mut found: Option<Found> = None;
    let mut harness = false;
    let mut alive = pids.len();
    let hard = Duration::from_secs_f64(o.secs * 1.5 + 120.0);
    while alive > 0 {
        let mut status = 0;
        let pid = unsafe { libc::waitpid(-1, &mut status, libc::WNOHANG) };
        if pid == 0 {
            std::thread::sleep(Duration::from_millis(20));
            if t0.elapsed() > hard {
                for p in &pids {
                    unsafe { libc::kill(*p, libc::SIGKILL) };
                }
            }
            continue;
        }
        if pid < 0 {
            break;
        }
        let w = match pids.iter().position(|p| *p == pid) {
            Some(w) => w,
            None => continue,
        };
        alive -= 1;
        let index = unsafe { std::ptr::read_volatile(&(*slots.add(w)).index) };
        let mut f: Option<Found> = None;
        if libc::WIFSIGNALED(status) {
            let sig = libc::WTERMSIG(status);
            if sig == libc::SIGKILL {
                if found.is_none() && t0.elapsed() > hard {
                    f = Some(Found { index, v: Out::Hang.viol().unwrap() });
                } else if found.is_none() {
                    eprintln!("worker {} was killed from outside", w);
                    harness = true;
                }
            } else if sig == libc::SIGPROF {
                f = Some(Found { index, v: Out::Hang.viol().unwrap() });
            } else {
                f = Some(Found { index, v: Out::Crash(sig).viol().unwrap() });
            }
        } else if libc::WEXITSTATUS(status) != 0 {
            eprintln!("worker {} ended with {} at index {}", w, libc::WEXITSTATUS(status), index);
            harness = true;
        } else if let Ok(b) = std::fs::read(format!("{}/viol-{}", dir, w)) {
            let x: Value = serde_json::from_slice(&b).unwrap();
            f = Some(Found {
                index: x["index"].as_u64().unwrap(),
                v: serde_json::from_value(x["violation"].clone()).unwrap(),
            });
        }
        if let Some(f) = f {
            if found.is_none() {
                for p in &pids {
                    if *p != pid {
                        unsafe { libc::kill(*p, libc::SIGKILL) };
                    }
                }
                found = Some(f);
            }
        }
    }
    let explored = t0.elapsed().as_secs_f64();
    // merge
    let mut st = Stats::default();
    let mut sigs = std::collections::HashSet::new();
    for w in 0..o.workers {
        if let Ok(b) = std::fs::read(format!("{}/stats-{}", dir, w)) {
            if let Ok(s) = serde_json::from_slice::<Stats>(&b) {
                st.merge(&s);
            }
        }
        if let Ok(b) = std::fs::read(format!("{}/sigs-{}", dir, w)) {
            for c in b.chunks_exact(8) {
                sigs.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    let mut code = 0;
    let mut violations = 0;
    if let Some(f) = found {
        violations = 1;
        code = 1;
        let c = gen::<P>(o, f.index);
        println!("violation at seed {} index {}: [{}] {}", o.seed, f.index, f.v.kind, f.v.msg);
        let path = report::<P>(o, f.index, c, f.v);
        println!("VIOLATION property={} replay={}", P::ID, path);
    } else if harness {
        code = 2;
    }
    // evidence
    let samples: Vec<Value> = (0..2)
        .map(|i| {
            let s = format!("{:?}", gen::<P>(o, o.start + i));
            json!({"index": o.start + i, "seed": case_seed::<P>(o.seed, o.start + i), "case": s.chars().take(1500).collect::<String>()})
        })
        .collect();
    let ev = json!({
        "property": P::ID,
        "tier": if o.tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": o.seed,
        "level": "exploration",
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations,
        "coverage": {
            "evaluations": st.cases,
            "distinct_nontrivial": sigs.len(),
            "rule": P::RULE,
            "samples": samples,
            "simulated_runs": st.runs,
            "seeds": st.cases,
            "runs_per_hour": (st.runs as f64 / explored * 3600.0) as u64,
            "seeds_per_hour": (st.cases as f64 / explored * 3600.0) as u64,
            "simulated_time": {"unit": "guest cycles / priced instructions (the VM has no clock)", "covered": st.units},
            "host_calls": st.host_calls,
            "faults_injected": st.faults,
            "conditions_reached": st.probes,
            "engines_run": st.engines,
            "distinct_measure": "distinct digests of the observable outcome or interleaving of a case (host-call history with registers and cycles, final state, schedule)",
            "replayed_in_process": st.replayed,
            "replays_that_diverged": st.replay_diverged,
            "real_components": P::REAL,
            "stubbed_components": P::STUB,
            "known_findings": known,
        },
        "assumptions": ["x86-64 Linux host", "seeded search samples the space; a clean batch is evidence, not proof"],
    });
    let _ = std::fs::write(
        format!("{}/evidence/{}.json", o.root, P::ID),
        serde_json::to_string_pretty(&ev).unwrap(),
    );
    println!(
        "{} cases, {} runs, {} distinct, {} host calls, {:.1}s; faults {:?}; probes {:?}; engines {:?}; replays {}/{} diverged",
        st.cases, st.runs, sigs.len(), st.host_calls, t0.elapsed().as_secs_f64(), st.faults, st.probes, st.engines,
        st.replay_diverged, st.replayed
    );
    code
}

fn report<P: Prop>(o: &Opts, index: u64, c: P::Case, v: Violation) -> String {
    let first = isolated::<P>(&c, CPU_LIMIT);
    let (kind, reproduced) = match first.viol() {
        Some(x) => (x.kind, true),
        None => (v.kind.clone(), false),
    };
    let before = P::atoms(&c);
    let (min, tests) = if reproduced {
        minimise::<P>(c.clone(), &kind, Duration::from_secs(25))
    } else {
        (c.clone(), 0)
    };
    let fin = isolated::<P>(&min, CPU_LIMIT).viol().unwrap_or(v.clone());
    let path = format!("{}/replays/{}-{}-{}.json", o.root, P::ID, o.seed, index);
    let j = json!({
        "property": P::ID,
        "seed": o.seed,
        "index": index,
        "tier": if o.tier == Tier::Quick { "quick" } else { "thorough" },
        "violation": fin,
        "originally": v,
        "reproduced_alone": reproduced,
        "minimisation": {"steps_before": before, "steps_after": P::atoms(&min), "runs": tests},
        "case": min,
    });
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap());
    println!("minimised {} -> {} steps: [{}] {}", before, P::atoms(&min), fin.kind, fin.msg);
    path
}

pub fn replay<P: Prop>(v: &Value) -> i32 {
    quiet_panics();
    let c: P::Case = serde_json::from_value(v["case"].clone()).expect("case");
    let o = isolated::<P>(&c, CPU_LIMIT);
    match o.viol() {
        Some(x) => {
            println!("[{}] {}", x.kind, x.msg);
            for l in &x.trace {
                println!("  {}", l);
            }
            println!("VIOLATION property={}", P::ID);
            1
        }
        None => {
            println!("the property holds on this case ({:?})", o);
            0
        }
    }
}

pub fn digest<P: Prop>(o: &Opts, a: u64, b: u64) {
    quiet_panics();
    for i in a..b {
        let c = gen::<P>(o, i);
        let mut st = Stats::default();
        let r = run_case::<P>(&c, &mut st);
        println!("{} {:016x} {}", i, st.digest, r.is_ok());
    }
}

pub fn one<P: Prop>(o: &Opts, i: u64) {
    quiet_panics();
    let c = gen::<P>(o, i);
    println!("{}", serde_json::to_string(&c).unwrap().chars().take(6000).collect::<String>());
    println!("{:?}", isolated::<P>(&c, CPU_LIMIT));
}
