//! Seeded search: worker processes run seeds, the parent collects, minimises, confirms and reports.
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

use serde_json::{json, Value};

use crate::core::{run_one, Choices, RunResult, Violation};

pub struct Prop {
    pub id: &'static str,
    pub run: fn(),
    pub quick: u64,
    pub thorough: u64,
    /// how a case is made and what makes one non-trivial
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumes: &'static [&'static str],
}

const WORKERS: u64 = 8;

#[derive(Clone)]
struct Known {
    prop: String,
    class: String,
    pat: String,
    what: String,
}
fn verif() -> PathBuf {
    Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf()
}
/// Lines: `known: property=C01 class=<class> match=<text> | what fails`
fn known(prop: &str) -> Vec<Known> {
    let t = std::fs::read_to_string(verif().join("known-findings.txt")).unwrap_or_default();
    let mut out = vec![];
    for l in t.lines() {
        let Some(r) = l.strip_prefix("known: ") else { continue };
        let Some((head, what)) = r.split_once(" | ") else { continue };
        let Some((p, rest)) = head.split_once(" class=") else { continue };
        let Some((class, pat)) = rest.split_once(" match=") else { continue };
        let p = p.trim_start_matches("property=");
        if p == prop {
            out.push(Known { prop: p.into(), class: class.into(), pat: pat.into(), what: what.into() });
        }
    }
    out
}
fn is_known<'a>(k: &'a [Known], v: &Violation) -> Option<&'a Known> {
    k.iter().find(|k| k.class == v.class && (k.pat == "*" || v.detail.contains(&k.pat)))
}

pub fn seed_of(base: u64, i: u64) -> u64 {
    base.wrapping_mul(1_000_000_007).wrapping_add(i)
}

static RUN_STARTED: AtomicU64 = AtomicU64::new(0); // ms since process start, 0 = idle
fn watchdog(limit_ms: u64) {
    let t0 = Instant::now();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(200));
        let s = RUN_STARTED.load(Ordering::Relaxed);
        if s != 0 && (t0.elapsed().as_millis() as u64).saturating_sub(s) > limit_ms {
            eprintln!("watchdog: run exceeded {limit_ms} ms");
            crate::fsim::leave(77);
        }
    });
    T0.set(t0).ok();
}
static T0: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();

pub fn one(p: &Prop, seed: u64, ch: Option<Choices>, trace: bool) -> RunResult {
    if let Some(t) = T0.get() {
        RUN_STARTED.store((t.elapsed().as_millis() as u64).max(1), Ordering::Relaxed);
    }
    // A thread of its own: the standard library keeps the keys of its hash maps per thread
    let r = std::thread::scope(|s| {
        let t = std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, || run_one(seed, ch, trace, p.run));
        t.expect("a thread").join().unwrap_or_else(|e| std::panic::resume_unwind(e))
    });
    RUN_STARTED.store(0, Ordering::Relaxed);
    r
}

pub fn worker(p: &Prop, base: u64, shard: u64, total: u64, cap_s: u64) {
    watchdog(40_000);
    let state = std::env::var("DST_STATE").unwrap_or_default();
    let k = known(p.id);
    let mut sf = std::fs::File::create(&state).ok();
    let out = std::io::stdout();
    let t0 = Instant::now();
    let mut stats: BTreeMap<String, u64> = BTreeMap::new();
    let (mut runs, mut us, mut events) = (0u64, 0u64, 0u64);
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut scheds: HashSet<u64> = HashSet::new();
    let mut samples = vec![];
    let mut knowns: BTreeMap<String, u64> = BTreeMap::new();
    let mut i = shard;
    let mut again = false;
    while i < total {
        if t0.elapsed().as_secs() >= cap_s {
            break;
        }
        let seed = seed_of(base, i);
        if let Some(f) = sf.as_mut() {
            use std::os::unix::fs::FileExt;
            let _ = f.write_at(format!("{seed:020}").as_bytes(), 0);
        }
        let want_trace = samples.len() < 1 && shard == 0 && i >= 8;
        let r = one(p, seed, None, want_trace);
        runs += 1;
        us += r.now_us;
        events += r.events;
        for (a, b) in &r.stats {
            *stats.entry(a.to_string()).or_default() += b;
        }
        if r.stats.contains_key("nontrivial") {
            hashes.insert(r.hash);
            scheds.insert(r.shash);
            if want_trace {
                let mut t = r.trace.clone();
                t.truncate(60);
                samples.push(json!({"seed": seed, "events": r.events, "first_events": t}));
            }
        }
        let mut bad = None;
        for v in &r.violations {
            match is_known(&k, v) {
                Some(kf) => {
                    *knowns.entry(kf.what.clone()).or_default() += 1;
                }
                None => {
                    bad = Some(v.clone());
                    break;
                }
            }
        }
        if let Some(v) = bad {
            let line = json!({"t": "violation", "seed": seed, "class": v.class, "detail": v.detail, "choices": r.choices,
                "spans": r.spans, "hash": r.hash});
            writeln!(out.lock(), "{line}").unwrap();
            break;
        }
        i += WORKERS;
        // what ended processes of the simulation owned is never freed
        if crate::core::LEAKED.load(Ordering::Relaxed) > 1500 && i < total {
            again = true;
            break;
        }
    }
    let line = json!({"t": if again { "part" } else { "done" }, "runs": runs, "us": us, "events": events, "stats": stats,
        "hashes": hashes.into_iter().collect::<Vec<_>>(), "scheds": scheds.into_iter().collect::<Vec<_>>(),
        "samples": samples, "knowns": knowns, "wall_ms": t0.elapsed().as_millis() as u64});
    writeln!(out.lock(), "{line}").unwrap();
    out.lock().flush().unwrap();
    if again {
        use std::os::unix::process::CommandExt;
        let left = cap_s.saturating_sub(t0.elapsed().as_secs());
        crate::fsim::tidy();
        let e = Command::new(std::env::current_exe().unwrap())
            .args(["worker", p.id, &base.to_string(), &i.to_string(), &total.to_string(), &left.to_string()])
            .exec();
        eprintln!("exec: {e}");
        crate::fsim::leave(78);
    }
    // leaked worker threads of aborted runs must not keep the process alive
    crate::fsim::leave(0);
}

fn has_class(p: &Prop, r: &RunResult, class: &str, k: &[Known]) -> Option<Violation> {
    let _ = p;
    r.violations.iter().find(|v| v.class == class && is_known(k, v).is_none()).cloned()
}

/// Shrink the choices while the same class of violation persists.
pub fn minimise(p: &Prop, path: &str, secs: u64) {
    watchdog(15_000);
    let mut doc: Value = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
    let seed = doc["seed"].as_u64().unwrap();
    let class = doc["class"].as_str().unwrap().to_string();
    let k = known(p.id);
    let mut best: Choices = serde_json::from_value(doc["choices"].clone()).unwrap();
    let t0 = Instant::now();
    let mut tried = 0u64;
    let first = one(p, seed, Some(best.clone()), false);
    let mut spans = first.spans.clone();
    if has_class(p, &first, &class, &k).is_none() {
        return;
    }
    let orig = (best.work.len(), best.sched.iter().filter(|x| **x != 0).count(), best.fault.len());
    let mut improved = true;
    while improved && t0.elapsed().as_secs() < secs {
        improved = false;
        let mut attempt = |c: Choices, best: &mut Choices, spans: &mut Vec<(usize, usize)>| -> bool {
            if t0.elapsed().as_secs() >= secs || c == *best {
                return false;
            }
            tried += 1;
            let r = one(p, seed, Some(c.clone()), false);
            if let Some(v) = has_class(p, &r, &class, &k) {
                // keep what was really consumed
                let mut n = r.choices.clone();
                trim(&mut n.work);
                trim(&mut n.sched);
                trim(&mut n.fault);
                let size = |c: &Choices| {
                    (c.work.len() + c.fault.len() * 4 + c.sched.iter().filter(|x| **x != 0).count() * 2,
                     c.work.iter().chain(&c.fault).map(|x| *x as u64).sum::<u64>())
                };
                if size(&n) >= size(best) {
                    return false;
                }
                *best = n;
                *spans = r.spans.clone();
                doc["choices"] = serde_json::to_value(&*best).unwrap();
                doc["detail"] = json!(v.detail);
                doc["hash"] = json!(r.hash);
                let _ = std::fs::write(path, serde_json::to_string(&doc).unwrap());
                return true;
            }
            false
        };
        // faults: fewer
        for cut in [0, best.fault.len() / 4, best.fault.len() / 2, best.fault.len().saturating_sub(1)] {
            let mut c = best.clone();
            c.fault.truncate(cut);
            improved |= attempt(c, &mut best, &mut spans);
        }
        // schedule: stay
        let mut blk = best.sched.len().max(1);
        while blk >= 1 {
            let mut a = 0;
            while a < best.sched.len() {
                let mut c = best.clone();
                let b = (a + blk).min(c.sched.len());
                if c.sched[a..b].iter().any(|x| *x != 0) {
                    c.sched[a..b].iter_mut().for_each(|x| *x = 0);
                    improved |= attempt(c, &mut best, &mut spans);
                }
                a += blk;
            }
            if blk == 1 {
                break;
            }
            blk /= 2;
        }
        // work: delete whole operations, with the fault gap moved along
        let mut j = spans.len();
        while j > 0 {
            j -= 1;
            if j >= spans.len() {
                continue;
            }
            let (a, b) = spans[j];
            if b > best.work.len() || a >= b {
                continue;
            }
            let mut c = best.clone();
            c.work.drain(a..b);
            if attempt(c.clone(), &mut best, &mut spans) {
                improved = true;
                continue;
            }
            if let Some(g) = c.fault.iter().position(|x| *x > 1) {
                let top = c.fault[g];
                let step = (top / 40).max(1);
                let mut x = top;
                while x > step {
                    x -= step;
                    let mut d = c.clone();
                    d.fault[g] = x;
                    if attempt(d, &mut best, &mut spans) {
                        improved = true;
                        break;
                    }
                }
            }
        }
        // work: delete blocks, then zero and halve values
        let mut blk = (best.work.len() / 2).max(1);
        while blk >= 1 {
            let mut a = 0;
            while a < best.work.len() {
                let mut c = best.clone();
                let b = (a + blk).min(c.work.len());
                c.work.drain(a..b);
                if attempt(c, &mut best, &mut spans) {
                    improved = true;
                } else {
                    a += blk;
                }
            }
            if blk == 1 {
                break;
            }
            blk /= 2;
        }
        for s in 0..2 {
            let n = if s == 0 { best.work.len() } else { best.fault.len() };
            for i in 0..n {
                for f in [0u32, 1, 2] {
                    let mut c = best.clone();
                    let v = if s == 0 { &mut c.work } else { &mut c.fault };
                    if i >= v.len() || v[i] == 0 {
                        break;
                    }
                    v[i] = match f {
                        0 => 0,
                        1 => v[i] / 2,
                        _ => v[i] - 1,
                    };
                    if attempt(c, &mut best, &mut spans) {
                        improved = true;
                        break;
                    }
                }
            }
        }
    }
    let r = one(p, seed, Some(best.clone()), true);
    if has_class(p, &r, &class, &k).is_some() {
        doc["hash"] = json!(r.hash);
        doc["trace"] = json!(r.trace);
        doc["minimised"] = json!(format!(
            "{} work, {} switches, {} fault choices -> {}, {}, {}; {tried} attempts",
            orig.0, orig.1, orig.2,
            best.work.len(),
            best.sched.iter().filter(|x| **x != 0).count(),
            best.fault.len()
        ));
        let _ = std::fs::write(path, serde_json::to_string_pretty(&doc).unwrap());
    }
}
fn trim(v: &mut Vec<u32>) {
    while v.last() == Some(&0) {
        v.pop();
    }
}

/// Exit code 1 when the file's violation happens again.
pub fn replay(p: &Prop, path: &str, verbose: bool) -> i32 {
    watchdog(40_000);
    let doc: Value = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
    let seed = doc["seed"].as_u64().unwrap();
    let ch: Option<Choices> = serde_json::from_value(doc["choices"].clone()).ok();
    let r = one(p, seed, ch, true);
    if verbose {
        for t in &r.trace {
            println!("{t}");
        }
    }
    println!("seed {seed} events {} hash {:016x}", r.events, r.hash);
    for v in &r.violations {
        println!("{}: {}", v.class, v.detail);
    }
    if r.violations.iter().any(|v| Some(v.class.as_str()) == doc["class"].as_str()) {
        if doc["hash"].as_u64().is_some_and(|h| h != r.hash) {
            println!("note: same violation, different event log");
        }
        return 1;
    }
    0
}

fn kill_group(c: &mut std::process::Child) {
    let _ = c.kill();
    let _ = c.wait();
}
fn run_limited(mut cmd: Command, secs: u64) -> Option<i32> {
    let mut c = cmd.stdin(Stdio::null()).spawn().ok()?;
    let t0 = Instant::now();
    let scratch = crate::fsim::base_of(c.id());
    loop {
        if let Ok(Some(st)) = c.try_wait() {
            let _ = std::fs::remove_dir_all(&scratch);
            return Some(st.code().unwrap_or(-1));
        }
        if t0.elapsed().as_secs() >= secs {
            kill_group(&mut c);
            let _ = std::fs::remove_dir_all(&scratch);
            return None;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

pub fn check(p: &Prop) -> i32 {
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let base: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    println!("property {} tier {tier} seed {base}", p.id);
    let scale: f64 = std::env::var("DST_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let total = ((if thorough { p.thorough } else { p.quick }) as f64 * scale) as u64;
    let cap = std::env::var("DST_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 1500 } else { 60 });
    let exe = std::env::current_exe().unwrap();
    let tmp = verif().join("target").join("run").join(format!("{}-{}", p.id, std::process::id()));
    std::fs::create_dir_all(&tmp).unwrap();
    let t0 = Instant::now();
    let mut ths = vec![];
    for w in 0..WORKERS {
        let st = tmp.join(format!("w{w}"));
        let mut cmd = Command::new(&exe);
        cmd.args(["worker", p.id, &base.to_string(), &w.to_string(), &total.to_string(), &cap.to_string()])
            .env("DST_STATE", &st)
            .env("DST_TMP", tmp.join(format!("d{w}")))
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .stderr(std::fs::File::create(tmp.join(format!("e{w}"))).unwrap());
        ths.push(std::thread::spawn(move || {
            let mut c = cmd.spawn().expect("spawn worker");
            let pid = c.id();
            let mut lines = vec![];
            for l in BufReader::new(c.stdout.take().unwrap()).lines() {
                let Ok(l) = l else { break };
                if let Ok(v) = serde_json::from_str::<Value>(&l) {
                    lines.push(v);
                }
            }
            let stt = c.wait().unwrap();
            let _ = std::fs::remove_dir_all(crate::fsim::base_of(pid));
            let seed: Option<u64> = std::fs::read_to_string(&st).ok().and_then(|s| s.parse().ok());
            (w, lines, stt.code(), seed)
        }));
    }
    let mut stats: BTreeMap<String, u64> = BTreeMap::new();
    let (mut runs, mut us, mut events) = (0u64, 0u64, 0u64);
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut scheds: HashSet<u64> = HashSet::new();
    let mut samples = vec![];
    let mut knowns: BTreeMap<String, u64> = BTreeMap::new();
    let mut viols: Vec<Value> = vec![];
    let mut internal = vec![];
    for t in ths {
        let (w, lines, code, seed) = t.join().unwrap();
        let mut done = false;
        for l in lines {
            match l["t"].as_str() {
                Some("violation") => viols.push(l),
                Some(t @ ("done" | "part")) => {
                    done = t == "done";
                    runs += l["runs"].as_u64().unwrap();
                    us += l["us"].as_u64().unwrap();
                    events += l["events"].as_u64().unwrap();
                    for (k, v) in l["stats"].as_object().unwrap() {
                        *stats.entry(k.clone()).or_default() += v.as_u64().unwrap();
                    }
                    hashes.extend(l["hashes"].as_array().unwrap().iter().filter_map(|x| x.as_u64()));
                    scheds.extend(l["scheds"].as_array().unwrap().iter().filter_map(|x| x.as_u64()));
                    samples.extend(l["samples"].as_array().unwrap().iter().cloned());
                    for (k, v) in l["knowns"].as_object().unwrap() {
                        *knowns.entry(k.clone()).or_default() += v.as_u64().unwrap();
                    }
                }
                _ => {}
            }
        }
        if !done {
            let err = std::fs::read_to_string(tmp.join(format!("e{w}"))).unwrap_or_default();
            let class = if code == Some(77) { "hang" } else { "abort" };
            let tail: String = err.chars().rev().take(600).collect::<String>().chars().rev().collect();
            match seed {
                Some(s) => viols.push(json!({"t":"violation","seed":s,"class":class,
                    "detail":format!("process ended with {code:?} during this run: {tail}"),"choices":null,"hash":null})),
                None => internal.push(format!("worker {w} ended with {code:?}: {tail}")),
            }
        }
    }
    let search_s = t0.elapsed().as_secs_f64();
    viols.sort_by_key(|v| (v["choices"]["work"].as_array().map_or(usize::MAX, |a| a.len()), v["seed"].as_u64()));
    let mut code = 0;
    let mut nviol = 0;
    for what in known(p.id) {
        let n = knowns.get(&what.what).copied().unwrap_or(0);
        println!("KNOWN-FINDING: property={} {} (met in {n} runs)", what.prop, what.what);
    }
    for v in viols.iter().take(8) {
        let dir = verif().join("replay");
        std::fs::create_dir_all(&dir).unwrap();
        let seed = v["seed"].as_u64().unwrap();
        let path = dir.join(format!("{}-{}.json", p.id, seed));
        let mut doc = json!({"property": p.id, "seed": seed, "class": v["class"], "detail": v["detail"],
            "choices": v["choices"], "hash": v["hash"],
            "how": format!("/verif/target/debug/dst replay {}", path.display())});
        let save = |d: &Value| std::fs::write(&path, serde_json::to_string_pretty(d).unwrap()).unwrap();
        save(&doc);
        let confirm = |secs| {
            let mut c = Command::new(&exe);
            c.args(["replay", path.to_str().unwrap(), "quiet"]).stdout(Stdio::null()).stderr(Stdio::null());
            c.env("DST_TMP", tmp.join("replay"));
            run_limited(c, secs)
        };
        let class = v["class"].as_str().unwrap().to_string();
        let again = |c: &str, rc: Option<i32>| match c {
            "hang" => rc == Some(77) || rc.is_none(),
            "abort" => rc.is_some_and(|x| x != 0 && x != 77),
            _ => rc == Some(1),
        };
        let rc = confirm(60);
        if !again(&class, rc) {
            internal.push(format!("violation {class} at seed {seed} did not replay ({rc:?}): {}", v["detail"]));
            continue;
        }
        if v["choices"].is_object() {
            let mut c = Command::new(&exe);
            c.args(["minimise", path.to_str().unwrap(), "40"]).stdout(Stdio::null()).stderr(Stdio::null());
            c.env("DST_TMP", tmp.join("replay"));
            run_limited(c, 60);
            if !again(&class, confirm(60)) {
                save(&doc);
            } else if let Ok(d) = serde_json::from_str(&std::fs::read_to_string(&path).unwrap_or_default()) {
                doc = d;
            }
        }
        println!("seed {seed}: {}: {}", doc["class"].as_str().unwrap_or(""), doc["detail"].as_str().unwrap_or(""));
        println!("VIOLATION property={} replay={}", p.id, path.display());
        code = 1;
        nviol += 1;
        break;
    }
    if code == 0 && !internal.is_empty() {
        for m in &internal {
            println!("internal error: {m}");
        }
        code = 3;
    }
    let per_h = |x: f64| (x / search_s.max(0.001) * 3600.0).round();
    let faults: BTreeMap<&String, &u64> = stats.iter().filter(|(k, _)| k.starts_with("fault:")).collect();
    let probes: BTreeMap<&String, &u64> = stats.iter().filter(|(k, _)| !k.starts_with("fault:")).collect();
    if samples.is_empty() {
        samples.push(json!({"seed": seed_of(base, 0)}));
    }
    let ev = json!({
        "property": p.id, "tier": tier, "seed": base, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": hashes.len(),
            "rule": format!("{} Distinct = distinct hash of the full event log.", p.rule),
            "samples": samples,
            "seeds": format!("{} .. {} (VERIF_SEED*1000000007 + i)", seed_of(base, 0), seed_of(base, total.saturating_sub(1))),
            "planned_runs": total,
            "runs_per_hour": per_h(runs as f64), "seeds_per_hour": per_h(runs as f64),
            "events": events,
            "simulated_seconds": us as f64 / 1e6,
            "distinct_schedules": scheds.len(),
            "faults_injected": faults,
            "probes": probes,
            "known_findings_met": knowns,
            "real_components": p.real, "stub_components": p.stub,
            "search_wall_s": search_s,
        },
        "assumptions": p.assumes,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": nviol,
    });
    std::fs::create_dir_all(verif().join("evidence")).unwrap();
    std::fs::write(verif().join("evidence").join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    let _ = std::fs::remove_dir_all(&tmp);
    println!(
        "{runs} runs, {} distinct, {} schedules, {events} events, {:.0} simulated s, {search_s:.1} s wall; faults {:?}",
        hashes.len(), scheds.len(), us as f64 / 1e6, faults
    );
    code
}

/// Run seeds twice each and compare the event logs.
pub fn determinism(p: &Prop, base: u64, n: u64) -> i32 {
    let mut bad = 0;
    for i in 0..n {
        let s = seed_of(base, i);
        let a = one(p, s, None, false);
        let b = one(p, s, None, false);
        let c = one(p, s, Some(a.choices.clone()), false);
        if a.hash != b.hash || a.hash != c.hash {
            bad += 1;
            println!("seed {s}: {:016x} {:016x} replayed {:016x}", a.hash, b.hash, c.hash);
            let a = one(p, s, None, true);
            let b = one(p, s, None, true);
            for (x, y) in a.trace.iter().zip(&b.trace) {
                if x != y {
                    println!("  {x}\n  {y}");
                    break;
                }
            }
            if bad > 5 {
                break;
            }
        }
    }
    println!("{n} seeds, {bad} differ");
    (bad > 0) as i32
}

/// Event-log hashes of seeds, for comparison between processes.
pub fn hashes(p: &Prop, base: u64, n: u64) {
    for i in 0..n {
        let s = seed_of(base, i);
        println!("{s} {:016x}", one(p, s, None, false).hash);
    }
}

/// Every violation met in these seeds, by class.
pub fn scan(p: &Prop, base: u64, n: u64) {
    let mut m: BTreeMap<String, (u64, Vec<(u64, String)>)> = BTreeMap::new();
    let mut st: BTreeMap<&'static str, u64> = BTreeMap::new();
    for i in 0..n {
        let s = seed_of(base, i);
        let r = one(p, s, None, false);
        for (k, v) in &r.stats {
            *st.entry(k).or_default() += v;
        }
        if let Some(v) = r.violations.first() {
            let key = format!("{}: {}", v.class, v.detail.chars().take(60).collect::<String>());
            let e = m.entry(key).or_default();
            e.0 += 1;
            if e.1.len() < 3 {
                e.1.push((s, v.detail.chars().take(300).collect()));
            }
        }
    }
    for (k, (c, ex)) in m {
        println!("{c:>6} {k}");
        for (s, d) in ex {
            println!("         {s}: {d}");
        }
    }
    println!("{st:?}");
}
