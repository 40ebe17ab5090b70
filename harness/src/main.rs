//! Orchestrator, workers and replays. See DESIGN.md.
mod bridge;
mod consts_list;
mod engine;
mod gen;
mod guided;
mod model;
mod props;

use engine::*;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub const VARIANT: &str = if cfg!(debug_assertions) { "chk" } else { "release" };

struct Args(Vec<String>);
impl Args {
    fn opt(&self, k: &str) -> Option<&str> {
        self.0.iter().position(|a| a == k).and_then(|i| self.0.get(i + 1)).map(|s| s.as_str())
    }
    fn num(&self, k: &str, d: u64) -> u64 {
        self.opt(k).map_or(d, |s| s.parse().unwrap_or_else(|_| die(&format!("bad number for {k}"))))
    }
}
fn die(m: &str) -> ! {
    eprintln!("harness: {m}");
    std::process::exit(2)
}

fn main() {
    let a = Args(std::env::args().collect());
    match a.0.get(1).map(|s| s.as_str()) {
        Some("run") => run(&a),
        Some("worker") => worker(&a),
        Some("replay") => replay(&a),
        _ => die("usage: harness run|worker|replay ID ..."),
    }
}

fn prop(id: &str) -> props::Prop {
    props::find(id).unwrap_or_else(|| die(&format!("unknown property {id}")))
}

#[derive(serde::Serialize, serde::Deserialize)]
struct WorkerOut {
    reports: Vec<StageReport>,
    failure: Option<Failure>,
}

fn worker(a: &Args) {
    install_panic_hook();
    let id = &a.0[2];
    let mode = match a.opt("--isolate") {
        Some(s) => {
            let (x, y) = s.split_once(',').unwrap_or_else(|| die("--isolate"));
            Mode::Isolate(x.parse().unwrap(), y.parse().unwrap())
        }
        None => Mode::Run,
    };
    let mut c = Ctx::new(id, mode, VARIANT, a.num("--seed", 1), a.opt("--tier") == Some("thorough"), a.num("--shard", 0), a.num("--nshards", 1));
    c.divisor = a.num("--divisor", 1);
    c.jobs = a.num("--all-workers", 1);
    c.scale = props::scale(id);
    c.scratch = a.opt("--scratch").unwrap_or("/tmp").into();
    c.tools = a.opt("--tools").unwrap_or("").into();
    if a.opt("--guided") == Some("yes") {
        if !guide::active() {
            die("this build is not instrumented");
        }
        c.guided = true;
        c.current = format!("{}/current-case", c.scratch);
    }
    c.deadline = Some(Instant::now() + Duration::from_secs(a.num("--budget", 300)));
    if let Some(p) = a.opt("--progress") {
        c.progress = map_progress(p);
    }
    prop(id)(&mut c);
    let out = a.opt("--out").unwrap_or("/dev/stdout");
    let hashes: Vec<(String, Vec<u64>)> = c.reports.iter_mut().map(|r| (r.stage.clone(), std::mem::take(&mut r.hashes))).collect();
    let mut f = std::fs::File::create(format!("{out}.hashes")).unwrap();
    for (_, h) in &hashes {
        f.write_all(&(h.len() as u64).to_le_bytes()).unwrap();
        let bytes: Vec<u8> = h.iter().flat_map(|x| x.to_le_bytes()).collect();
        f.write_all(&bytes).unwrap();
    }
    let failed = c.failure.is_some();
    std::fs::write(out, serde_json::to_string(&WorkerOut { reports: c.reports, failure: c.failure }).unwrap()).unwrap();
    std::process::exit(if failed { 1 } else { 0 });
}

fn map_progress(path: &str) -> *mut Progress {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).unwrap();
    f.set_len(4096).unwrap();
    let p = unsafe { libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
    if p == libc::MAP_FAILED {
        die("mmap")
    }
    p as *mut Progress
}

fn replay(a: &Args) {
    install_panic_hook();
    let id = a.0[2].clone();
    let f: Failure = serde_json::from_str(&std::fs::read_to_string(&a.0[3]).unwrap_or_else(|e| die(&e.to_string()))).unwrap_or_else(|e| die(&e.to_string()));
    let r = isolate(|| {
        let mut c = Ctx::new(&id, Mode::Replay { stage: f.stage.clone(), input: f.input.clone() }, VARIANT, 1, false, 0, 1);
        c.scratch = a.opt("--scratch").unwrap_or("/tmp").into();
        c.tools = a.opt("--tools").unwrap_or("").into();
        prop(&id)(&mut c);
        if !c.replayed {
            return Err(format!("harness: no stage {}", f.stage));
        }
        match c.failure {
            Some(f) => Err(f.message),
            None => Ok(()),
        }
    });
    match r {
        Ok(()) => println!("the case passes"),
        Err(m) if m.starts_with("harness:") => die(&m),
        Err(m) => {
            println!("{m}");
            println!("VIOLATION property={id} replay={}", a.0[3]);
            std::process::exit(1);
        }
    }
}

struct W {
    child: Child,
    args: Vec<String>,
    exe: String,
    out: String,
    progress: *mut Progress,
    beat: u64,
    beat_at: Instant,
    isolated: bool,
    why: String,
    done: bool,
}

fn spawn(exe: &str, args: &[String]) -> Child {
    Command::new(exe).args(args).stdin(Stdio::null()).stdout(Stdio::null()).spawn().unwrap_or_else(|e| die(&format!("{exe}: {e}")))
}

fn run(a: &Args) {
    let t0 = Instant::now();
    let id = a.0[2].clone();
    prop(&id);
    let tier = a.opt("--tier").unwrap_or("quick").to_string();
    let seed = a.num("--seed", 1);
    let evidence = a.opt("--evidence").unwrap_or_else(|| die("--evidence")).to_string();
    let replays = a.opt("--replays").unwrap_or_else(|| die("--replays")).to_string();
    let chk = a.opt("--chk").map(|s| s.to_string());
    let jobs = a.num("--jobs", 8);
    let stall = Duration::from_secs(a.num("--stall", 120));
    let me = std::env::current_exe().unwrap().to_string_lossy().to_string();
    let dir = format!("{}/run-{}-{}", a.opt("--scratch").unwrap_or("/tmp"), id, std::process::id());
    std::fs::create_dir_all(&dir).unwrap();
    let nchk = if chk.is_some() { (jobs * 3 / 8).max(1) } else { 0 };
    let guided = a.opt("--guided").map(|s| s.to_string());
    let ngui = if guided.is_some() { (jobs / 4).max(1) } else { 0 };
    let nrel = (jobs - (nchk + ngui).min(jobs)).max(1);
    let mut ws: Vec<W> = Vec::new();
    for (exe, n, div, tag) in [(Some(me), nrel, 1, "r"), (chk, nchk, a.num("--chk-divisor", 2), "c"), (guided, ngui, 1, "g")] {
        let Some(exe) = exe else { continue };
        for shard in 0..n {
            let out = format!("{dir}/{tag}{shard}.json");
            let prog = format!("{dir}/{tag}{shard}.progress");
            let scratch = format!("{dir}/{tag}{shard}.d");
            std::fs::create_dir_all(&scratch).unwrap();
            let mut args: Vec<String> = vec!["worker".into(), id.clone()];
            for (k, v) in [("--seed", seed.to_string()), ("--tier", tier.clone()), ("--shard", shard.to_string()), ("--nshards", n.to_string()), ("--divisor", div.to_string()), ("--all-workers", (nrel + nchk).to_string()), ("--out", out.clone()), ("--progress", prog.clone()), ("--budget", a.opt("--budget").unwrap_or("300").to_string()), ("--scratch", scratch), ("--tools", a.opt("--tools").unwrap_or("").to_string())] {
                args.push(k.into());
                args.push(v);
            }
            if tag == "g" {
                args.push("--guided".into());
                args.push("yes".into());
            }
            let progress = map_progress(&prog);
            let child = spawn(&exe, &args);
            ws.push(W { child, args, exe: exe.clone(), out, progress, beat: 0, beat_at: Instant::now(), isolated: false, why: String::new(), done: false });
        }
    }
    let mut failure: Option<Failure> = None;
    let mut error: Option<String> = None;
    'wait: loop {
        let mut open = 0;
        for w in ws.iter_mut() {
            if w.done {
                continue;
            }
            open += 1;
            let (stage, case, beat) = unsafe { (std::ptr::read_volatile(&(*w.progress).stage), std::ptr::read_volatile(&(*w.progress).case), std::ptr::read_volatile(&(*w.progress).beat)) };
            if beat != w.beat {
                w.beat = beat;
                w.beat_at = Instant::now();
            }
            let mut relaunch: Option<String> = None;
            match w.child.try_wait() {
                Ok(Some(st)) => match (st.code(), st.signal()) {
                    (Some(0), _) | (Some(1), _) => {
                        w.done = true;
                        let o: WorkerOut = match std::fs::read_to_string(&w.out).map_err(|e| e.to_string()).and_then(|s| serde_json::from_str(&s).map_err(|e| e.to_string())) {
                            Ok(o) => o,
                            Err(e) => {
                                error = Some(format!("worker output: {e}"));
                                break 'wait;
                            }
                        };
                        if let Some(f) = o.failure {
                            if f.message.starts_with("harness:") {
                                error = Some(f.message);
                            } else {
                                failure = Some(f);
                            }
                            break 'wait;
                        }
                        if w.isolated {
                            // The crash did not come back in isolation, but crashed it has.
                            failure = Some(Failure { property: id.clone(), stage: format!("stage {stage}"), variant: if w.exe.contains("/chk/") { "chk".into() } else { "release".into() }, input: serde_json::json!({"worker": w.args}), message: format!("{} (not reproduced case by case)", w.why), shrunk: false });
                            break 'wait;
                        }
                    }
                    (Some(c), _) => {
                        error = Some(format!("worker exited with {c}: {:?}", w.args));
                        break 'wait;
                    }
                    (None, Some(sig)) if sig == libc::SIGKILL || sig == libc::SIGTERM || sig == libc::SIGINT => {
                        error = Some(format!("worker ended by signal {sig} from outside"));
                        break 'wait;
                    }
                    (None, sig) => relaunch = Some(format!("process killed by signal {}", sig.unwrap_or(0))),
                },
                Ok(None) => {
                    if w.beat_at.elapsed() > stall && !w.isolated {
                        let _ = w.child.kill();
                        let _ = w.child.wait();
                        relaunch = Some(format!("no progress for {} s", stall.as_secs()));
                    }
                }
                Err(e) => {
                    error = Some(e.to_string());
                    break 'wait;
                }
            }
            if let Some(why) = relaunch {
                if w.isolated {
                    error = Some(format!("isolating worker: {why}"));
                    break 'wait;
                }
                eprintln!("{id}: {why} in stage {stage}, case {case}; isolating");
                w.isolated = true;
                w.why = why;
                w.args.push("--isolate".into());
                w.args.push(format!("{stage},{case}"));
                w.child = spawn(&w.exe, &w.args);
                w.beat_at = Instant::now();
            }
        }
        if open == 0 {
            break;
        }
        std::thread::sleep(Duration::from_millis(15));
    }
    for w in ws.iter_mut() {
        if !w.done {
            let _ = w.child.kill();
            let _ = w.child.wait();
        }
    }
    // merge
    let mut merged: BTreeMap<String, (usize, StageReport, u64)> = BTreeMap::new();
    let mut sets: BTreeMap<String, HashSet<u64, std::hash::BuildHasherDefault<Ident>>> = BTreeMap::new();
    for w in ws.iter() {
        let Ok(s) = std::fs::read_to_string(&w.out) else { continue };
        let Ok(o) = serde_json::from_str::<WorkerOut>(&s) else { continue };
        let raw = std::fs::read(format!("{}.hashes", w.out)).unwrap_or_default();
        let mut pos = 0;
        let mut u = || {
            let x = raw.get(pos..pos + 8).map_or(0, |b| u64::from_le_bytes(b.try_into().unwrap()));
            pos += 8;
            x
        };
        let is_chk = w.exe.contains("/chk/");
        for (i, r) in o.reports.into_iter().enumerate() {
            let i = i + if r.kind == "coverage-guided" { 1000 } else { 0 };
            let n = u();
            let set = sets.entry(r.stage.clone()).or_default();
            for _ in 0..n {
                set.insert(u());
            }
            let e = merged.entry(r.stage.clone()).or_insert_with(|| (i, StageReport { exhaustive: true, evaluations: 0, nontrivial: 0, distinct: 0, classes: Default::default(), samples: vec![], ..r.clone() }, 0));
            if is_chk {
                e.2 += r.evaluations;
            } else {
                e.1.exhaustive &= r.exhaustive;
            }
            e.1.evaluations += r.evaluations;
            e.1.nontrivial += r.nontrivial;
            e.1.distinct += r.distinct;
            for (k, v) in r.classes {
                *e.1.classes.entry(k).or_default() += v;
            }
            if e.1.samples.len() < 2 {
                e.1.samples.extend(r.samples);
                e.1.samples.truncate(2);
            }
        }
    }
    let mut stages: Vec<_> = merged.into_iter().collect();
    stages.sort_by_key(|x| x.1 .0);
    let (mut ev, mut dn) = (0, 0);
    let mut rules = Vec::new();
    let mut samples = Vec::new();
    let mut js = Vec::new();
    for (name, (_, r, chk_ev)) in &stages {
        let d = r.distinct + sets.get(name).map_or(0, |s| s.len() as u64);
        ev += r.evaluations;
        dn += d;
        rules.push(format!("[{name}] {}", r.rule));
        for s in &r.samples {
            if samples.len() < 12 {
                let mut s = s.clone();
                clip(&mut s);
                samples.push(serde_json::json!({"stage": name, "case": s}));
            }
        }
        js.push(serde_json::json!({"stage": name, "kind": r.kind, "evaluations": r.evaluations, "of_these_with_internal_checks": chk_ev, "nontrivial": r.nontrivial, "distinct_nontrivial": d, "exhaustive": r.kind == "enumeration" && r.exhaustive && failure.is_none(), "classes": r.classes}));
    }
    let exhaustive = failure.is_none() && !stages.is_empty() && stages.iter().all(|(_, (_, r, _))| r.kind == "enumeration" && r.exhaustive);
    let mut out = serde_json::json!({
        "property": id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {"evaluations": ev, "distinct_nontrivial": dn, "rule": rules.join("; "), "samples": samples, "stages": js, "exhaustive": exhaustive, "workers": ws.len()},
        "assumptions": ["the reference model and the expected values in harness/src are right", "the compiled harness runs the code of /repo's working tree"],
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": failure.is_some() as u64,
    });
    let _ = std::fs::remove_dir_all(&dir);
    if let Some(e) = error {
        die(&e);
    }
    let mut code = 0;
    if let Some(mut f) = failure {
        f.property = id.clone();
        std::fs::create_dir_all(&replays).unwrap();
        let path = format!("{replays}/{id}-{}-{:08x}.json", f.stage.replace([' ', '/'], "_"), hash_of(&f.input.to_string()) as u32);
        std::fs::write(&path, serde_json::to_string_pretty(&f).unwrap()).unwrap();
        println!("{} [{} build], stage {}:\n{}\ninput: {}", id, f.variant, f.stage, f.message, f.input);
        println!("VIOLATION property={id} replay={path}");
        out["violation"] = serde_json::to_value(&f).unwrap();
        code = 1;
    }
    if let Some(d) = std::path::Path::new(&evidence).parent() {
        std::fs::create_dir_all(d).unwrap();
    }
    std::fs::write(&evidence, serde_json::to_string_pretty(&out).unwrap() + "\n").unwrap();
    if code == 0 {
        println!("{id}: held on {ev} cases ({dn} distinct non-trivial) in {:.1} s", t0.elapsed().as_secs_f64());
    }
    std::process::exit(code);
}

/// Keeps samples readable.
fn clip(v: &mut serde_json::Value) {
    match v {
        serde_json::Value::Array(a) => {
            let n = a.len();
            if n > 60 {
                a.truncate(60);
                a.push(serde_json::json!(format!("... {} more", n - 60)));
            }
            a.iter_mut().for_each(clip);
        }
        serde_json::Value::Object(o) => o.values_mut().for_each(clip),
        _ => {}
    }
}
