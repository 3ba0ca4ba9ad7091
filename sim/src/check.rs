//! The driver of a check: worker processes, minimisation, replay files and evidence.
use crate::props::{self, Prop};
use crate::scen::*;
use crate::shrink;
use serde::{Deserialize, Serialize};
use std::io::Read;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Serialize, Deserialize)]
pub enum Msg { Stats(Stats), Samples(Vec<String>), Fail { idx: u64, kind: String, detail: String, scen: Scen } }

/// standard output without the library's buffer: that one must be untouched when a simulated process starts
pub fn put(s: &str) {
    let mut b = s.as_bytes();
    while !b.is_empty() { let n = unsafe { libc::write(1, b.as_ptr() as *const libc::c_void, b.len()) }; if n <= 0 { break; } b = &b[n as usize..]; }
}
fn send(m: &Msg) { put(&(serde_json::to_string(m).unwrap() + "\n")); }

pub fn sample(s: &Scen, v: &Verdict, c: &Ctx) -> String {
    let mut t = format!("#{} {}:", s.idx, s.tag);
    for p in s.procs.iter().take(5) {
        t.push_str(&format!(" [{}", p.cmd.args(p.spell).iter().skip(1).cloned().collect::<Vec<_>>().join(" ")));
        if let Cmd::Lib(j) | Cmd::Threads(j) = &p.cmd { t.push_str(&format!(" {} of {}", p.cmd.name(), j.iter().map(|j| j.path.clone()).collect::<Vec<_>>().join(", "))); }
        for f in &p.faults { t.push_str(&format!("; {} at call {} of {}", fault_name(f), f.nth, f.path.as_deref().unwrap_or("any file"))); }
        for x in &p.pre { t.push_str(match x { Pre::Loss(_) => "; after a power failure", Pre::Put(_) | Pre::Raw(..) => "; after an edit", Pre::Del(_) => "; after a deletion" }); }
        let d = crate::sim::Modes { max_ops: p.m.max_ops, ..Default::default() };
        if p.m != d { t.push_str(&format!("; {}", serde_json::to_string(&p.m).unwrap())); }
        t.push(']');
    }
    t.push_str(&format!(" over {} files -> {}", s.files.len(), match v { Verdict::Pass => "holds".into(), Verdict::Skip(w) => format!("not judged ({})", w), Verdict::Violation { kind, .. } => kind.clone() }));
    let _ = c;
    t.chars().take(900).collect()
}

pub fn worker(a: &[String]) {
    let p = props::find(&a[0]).unwrap();
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let (seed, start, stride, count, cap) = (n(1), n(2), n(3), n(4), n(5));
    let t0 = Instant::now();
    #[cfg(feature = "cov")] crate::exec::cov::start();
    let mut c = Ctx::new();
    let mut samples = vec![];
    let mut idx = start;
    while idx < count {
        if t0.elapsed() > Duration::from_secs(cap) { break; }
        // something unforeseen while one scenario is made or judged costs that scenario only
        let pid = std::process::id();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let s = props::make(p, seed, idx, &mut c);
            let trouble = c.trouble.take();
            c.start();
            let v = props::judge(&s, &mut c);
            (s, trouble, v)
        }));
        if std::process::id() != pid { unsafe { libc::_exit(9) } }
        let (s, trouble, v) = match r { Ok(x) => x, Err(_) => { c.st.scen += 1; c.st.crashed += 1; samples.push(format!("scenario {} could not be judged", idx)); idx += stride; continue; } };
        c.st.scen += 1;
        let (dig, hits) = (c.dig, c.hits);
        c.st.scens_seen.insert(dig);
        if idx % 97 == 3 || matches!(v, Verdict::Violation { .. }) {
            // the same scenario must run in exactly the same way again
            c.st.rechecked += 1;
            c.start();
            let w = props::judge(&s, &mut c);
            if c.dig != dig || w != v { if std::env::var("WBSIM_DEBUG").is_ok() { eprintln!("differs: {} {} {:?} {:?}", idx, c.dig != dig, v, w); } c.st.differed += 1; idx += stride; continue; }
        }
        if c.trouble.is_some() || trouble.is_some() { c.st.skipped += 1; if c.st.skipped < 3 { samples.push(format!("trouble: {:?} {:?}", c.trouble, trouble)); } idx += stride; continue; }
        match &v {
            Verdict::Violation { kind, detail } => { send(&Msg::Fail { idx, kind: kind.clone(), detail: detail.clone(), scen: s.clone() }); break; }
            Verdict::Skip(w) => { c.st.skipped += 1; c.reached(&format!("not judged: {}", w)); }
            Verdict::Pass => if hits > 0 { c.st.nontrivial += 1; c.st.nontriv_seen.insert(dig); }
        }
        *c.st.reached.entry(format!("workload: {}", s.tag)).or_insert(0) += 1;
        if idx % (count / 6 + 1) == 0 || (samples.len() < 2 && hits > 0) { samples.push(sample(&s, &v, &c)); }
        idx += stride;
    }
    #[cfg(feature = "cov")] crate::exec::cov::collect();
    send(&Msg::Samples(samples));
    send(&Msg::Stats(c.st));
}

fn me() -> Command { Command::new("/proc/self/exe") }

pub fn check(id: &str) -> i32 {
    let p: &Prop = match props::find(id) { Some(p) => p, None => { eprintln!("unknown property {}", id); return 2; } };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { "thorough" } else { "quick" };
    let (count, cap) = if tier == "quick" { (p.quick, 240) } else { (p.thorough, 3000) };
    let cap = std::env::var("VERIF_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(cap);
    let count = std::env::var("VERIF_COUNT").ok().and_then(|s| s.parse().ok()).unwrap_or(count);
    let t0 = Instant::now();
    println!("property {} tier {} VERIF_SEED {} scenarios {}", id, tier, seed, count);
    let jobs: u64 = std::env::var("VERIF_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).clamp(2, 8));
    let mut kids = vec![];
    for w in 0..jobs {
        let a: Vec<String> = ["worker".into(), id.to_string(), seed.to_string(), w.to_string(), jobs.to_string(), count.to_string(), cap.to_string()].to_vec();
        let k = me().args(&a).stdout(Stdio::piped()).stdin(Stdio::null()).spawn().expect("worker");
        kids.push(k);
    }
    let mut st = Stats::default();
    let mut samples = vec![];
    let mut fails: Vec<(u64, String, String, Scen)> = vec![];
    let mut dead = 0;
    let hs: Vec<_> = kids.into_iter().map(|mut k| std::thread::spawn(move || { let mut o = String::new(); let _ = k.stdout.take().unwrap().read_to_string(&mut o); (k.wait().map(|s| s.success()).unwrap_or(false), o) })).collect();
    for h in hs {
        let (ok, o) = h.join().unwrap();
        let mut got = false;
        for l in o.lines() { match serde_json::from_str::<Msg>(l) { Ok(Msg::Stats(s)) => { st.merge(s); got = true } Ok(Msg::Samples(s)) => samples.extend(s), Ok(Msg::Fail { idx, kind, detail, scen }) => fails.push((idx, kind, detail, scen)), Err(e) => eprintln!("worker said {}: {}", e, &l[..l.len().min(200)]) } }
        if !ok || !got { dead += 1; }
    }
    fails.sort_by_key(|f| f.0);
    let search = t0.elapsed().as_secs_f64();
    let mut code = 0;
    let known = known();
    for (pid, text) in known.iter().filter(|k| k.0 == id) { println!("KNOWN-FINDING: property={} {}", pid, text); }
    if let Some((idx, kind, detail, scen)) = fails.first() {
        let dir = "/verif/replays";
        let _ = std::fs::create_dir_all(dir);
        let raw = format!("{}/{}-{}-{}.full.json", dir, id, seed, idx);
        let path = format!("{}/{}-{}-{}.json", dir, id, seed, idx);
        let _ = std::fs::write(&raw, serde_json::to_string(scen).unwrap());
        // minimised, and replayed, in fresh processes
        let _ = me().args(["shrink", &raw, kind, &path, "90"]).stdin(Stdio::null()).status();
        let again = |f: &str| me().args(["replay", f]).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null()).output().map(|o| o.status.code() == Some(1)).unwrap_or(false);
        let use_ = if again(&path) { path.clone() } else { let _ = std::fs::rename(&raw, &path); path.clone() };
        let _ = std::fs::remove_file(&raw);
        println!("scenario {} of seed {}: {}: {}", idx, seed, kind, detail);
        println!("VIOLATION property={} replay={}", id, use_);
        code = 1;
    }
    let wall = t0.elapsed().as_secs_f64();
    let bad_share = (st.differed + st.escaped + st.crashed) as f64 / st.scen.max(1) as f64;
    if code == 0 && (dead > 0 || bad_share > 0.01 || st.scen == 0) { eprintln!("error of the check: {} dead workers, {} runs that differed, {} escaped, {} scenarios", dead, st.differed, st.escaped, st.scen); code = 3; }
    samples.truncate(14);
    let ev = serde_json::json!({
        "property": id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": st.scen, "distinct_nontrivial": st.nontriv_seen.len(), "rule": p.rule, "samples": samples,
            "simulated_runs": st.runs, "distinct_scenarios_by_event_log_digest": st.scens_seen.len(), "distinct_executions_by_event_log_digest": st.runs_seen.len(),
            "runs_per_hour": (st.runs as f64 / search * 3600.0) as u64, "scenarios_per_hour": (st.scen as f64 / search * 3600.0) as u64,
            "simulated_seconds": st.sim_ns as f64 / 1e9, "simulated_system_calls": st.ops, "thread_switches": st.switches,
            "faults_that_took_effect": st.faults, "ends_of_runs": st.exits, "commands_run": st.cmds, "reached": st.reached,
            "not_judged": st.skipped, "broken_off": st.crashed, "replayed_for_determinism": st.rechecked, "replays_that_differed": st.differed, "runs_with_calls_outside_the_simulation": st.escaped,
            "workers": jobs,
            "real_components": ["all of the program's code from main() on: argument parsing (clap), lexer, parser, assembler, disassembler, image decoders (image, png, gif), chrono, uuid, the Rust standard library"],
            "simulated_components": ["file system, descriptors, standard streams", "clocks", "random numbers and hash seeds", "working directory, process numbers and environment (also for names the simulator does not know beforehand)", "other processes: concurrent runs of the program itself, interleaved at system calls", "memory limits", "thread scheduling (libc and system-call interposition; a seccomp filter catches anything else)"],
        },
        "assumptions": ["the simulated system calls behave as Linux's do", "the reference model of the assembler, images, listings and VMI files is right where it and the program agree on a healthy machine"],
        "wall_s": wall, "violations": if code == 1 { 1 } else { 0 },
    });
    let _ = std::fs::create_dir_all("/verif/evidence");
    if let Err(e) = std::fs::write(format!("/verif/evidence/{}.json", id), serde_json::to_string_pretty(&ev).unwrap() + "\n") { eprintln!("evidence: {}", e); if code == 0 { code = 3; } }
    println!("{} scenarios, {} runs, {} faults took effect, {} not judged, {:.1} s", st.scen, st.runs, st.faults.values().sum::<u64>(), st.skipped, wall);
    code
}
/// findings recorded as still open: (property, text)
fn known() -> Vec<(String, String)> {
    let t = std::fs::read_to_string("/verif/known-findings.txt").unwrap_or_default();
    t.lines().filter_map(|l| { let l = l.strip_prefix("known: property=")?; let (a, b) = l.split_once(' ')?; Some((a.into(), b.into())) }).collect()
}
pub fn shrink_cmd(a: &[String]) {
    let s: Scen = serde_json::from_str(&std::fs::read_to_string(&a[0]).unwrap()).unwrap();
    let mut c = Ctx::new();
    let m = shrink::shrink(&mut c, s, &a[1], a[3].parse().unwrap());
    std::fs::write(&a[2], serde_json::to_string_pretty(&m).unwrap()).unwrap();
}
pub fn replay(a: &[String]) -> i32 {
    let s: Scen = serde_json::from_str(&std::fs::read_to_string(&a[0]).unwrap()).unwrap();
    let mut c = Ctx::new();
    c.verbose = a.get(1).map(|s| s == "-v").unwrap_or(false);
    if c.verbose { for f in &s.files { if let crate::model::Content::Asm(_) | crate::model::Content::Cpp(_) = f.c { eprintln!("--- {}\n{}", f.path, String::from_utf8_lossy(&f.bytes()).chars().take(4000).collect::<String>()); } else { eprintln!("--- {} ({} bytes)", f.path, f.bytes().len()); } } }
    c.start();
    match props::judge(&s, &mut c) {
        Verdict::Violation { kind, detail } => { put(&format!("{}: {}\nVIOLATION property={} replay={}\n", kind, detail, s.prop, a[0])); 1 }
        v => { put(&format!("{:?}\n", v)); 0 }
    }
}
/// one scenario by number, with its log
pub fn one(a: &[String]) -> i32 {
    let p = props::find(&a[0]).unwrap();
    let mut c = Ctx::new();
    let s = props::make(p, a[1].parse().unwrap(), a[2].parse().unwrap(), &mut c);
    std::fs::write("/tmp/one.json", serde_json::to_string_pretty(&s).unwrap()).unwrap();
    replay(&["/tmp/one.json".into(), "-v".into()])
}
