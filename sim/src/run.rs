//! Runner: seeded search, minimisation, replay, evidence.

use crate::ctx;
use crate::tape::{mix, Tape};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

pub struct Violation {
    pub class: String,
    pub detail: String,
    pub trace: Vec<String>,
}

pub type Res = Result<(), Violation>;

pub fn fail(class: impl Into<String>, detail: impl Into<String>) -> Violation {
    Violation { class: class.into(), detail: detail.into(), trace: vec![] }
}

impl Violation {
    pub fn with(mut self, k: &str, v: impl std::fmt::Debug) -> Violation {
        let mut s = format!("{v:?}");
        if s.len() > 8000 {
            let mut n = 8000;
            while !s.is_char_boundary(n) {
                n -= 1;
            }
            s.truncate(n);
        }
        self.trace.push(format!("{k}: {s}"));
        self
    }
    pub fn text(mut self, k: &str, v: &str) -> Violation {
        self.trace.push(format!("{k}: {v}"));
        self
    }
}

#[derive(Default)]
pub struct Stats {
    pub counts: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub ticks: u64,
    pub sample: Vec<String>,
    pub evals: u64,
}

impl Stats {
    pub fn hit(&mut self, k: &str) {
        self.add(k, 1)
    }
    pub fn add(&mut self, k: &str, n: u64) {
        match self.counts.get_mut(k) {
            Some(c) => *c += n,
            None => {
                self.counts.insert(k.to_owned(), n);
            }
        }
    }
    /// An exploration state worth counting: a schedule plus the faults that fired in it.
    pub fn state(&mut self, h: &impl Hash) {
        self.evals += 1;
        if self.distinct.len() < 4_000_000 {
            let mut s = std::collections::hash_map::DefaultHasher::new();
            h.hash(&mut s);
            self.distinct.insert(s.finish());
        }
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.sample.len() < 3 {
            let mut s = s();
            if s.len() > 600 {
                let mut n = 600;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
            }
            self.sample.push(s);
        }
    }
}

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&mut Tape, &mut Stats) -> Res,
    /// simulated runs in the quick / thorough tier
    pub quick: u64,
    pub thorough: u64,
    pub level: &'static str,
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_owned()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// Catch a panic of the code under test.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, Violation> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        let m = last_panic();
        let class = if m.starts_with("no progress") { "no-progress" } else { "panic" };
        fail(class, m)
    })
}

pub fn run_once(p: &Prop, t: &mut Tape, s: &mut Stats) -> Res {
    ctx::reset_run();
    ctx::set_yield(None);
    let r = guard(|| (p.run)(t, s)).and_then(|r| r);
    s.ticks += ctx::ticks();
    ctx::reset_run();
    r
}

fn class_of(p: &Prop, tape: &[u32]) -> Option<(Violation, Vec<u32>)> {
    let mut t = Tape::replay(tape);
    let mut s = Stats::default();
    match run_once(p, &mut t, &mut s) {
        Ok(()) => None,
        Err(v) => Some((v, t.log)),
    }
}

pub fn minimise(p: &Prop, tape: Vec<u32>, class: &str, budget: Duration) -> Vec<u32> {
    let start = Instant::now();
    let mut best = tape;
    let mut execs = 0u64;
    let mut attempt = |cand: &[u32], best: &mut Vec<u32>| -> bool {
        execs += 1;
        if execs > 200_000 || start.elapsed() > budget {
            return false;
        }
        if let Some((v, log)) = class_of(p, cand) {
            if v.class == class {
                let mut n = if log.len() < cand.len() { log } else { cand.to_vec() };
                while n.last() == Some(&0) {
                    n.pop();
                }
                let weight = |t: &[u32]| (t.len(), t.iter().map(|v| *v as u64).sum::<u64>());
                if weight(&n) < weight(best) {
                    *best = n;
                    return true;
                }
            }
        }
        false
    };
    // normalise
    let b = best.clone();
    attempt(&b, &mut best);
    loop {
        let before = best.clone();
        // truncate
        let mut k = best.len() / 2;
        while k > 0 {
            let cand: Vec<u32> = best[..best.len().saturating_sub(k)].to_vec();
            if !attempt(&cand, &mut best) {
                k /= 2;
            } else {
                k = k.min(best.len() / 2);
            }
        }
        // delete chunks
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() {
                let j = (i + size).min(best.len());
                let mut cand = best[..i].to_vec();
                cand.extend_from_slice(&best[j..]);
                if !attempt(&cand, &mut best) {
                    i += size;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero chunks, then lower values
        for size in [8usize, 2, 1] {
            let mut i = 0;
            while i < best.len() {
                let j = (i + size).min(best.len());
                if best[i..j].iter().any(|v| *v != 0) {
                    let mut cand = best.clone();
                    cand[i..j].fill(0);
                    attempt(&cand, &mut best);
                }
                i += size;
            }
        }
        let mut i = 0;
        while i < best.len() {
            for d in [2u32, 1] {
                if i < best.len() && best[i] > 0 {
                    let mut cand = best.clone();
                    cand[i] = if d == 2 { cand[i] / 2 } else { cand[i] - 1 };
                    attempt(&cand, &mut best);
                }
            }
            i += 1;
        }
        if best == before || start.elapsed() > budget {
            return best;
        }
    }
}

fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

pub fn run_seed(seed: u64, id: &str, i: u64) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in id.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    mix(mix(seed, h), i)
}

/// Worker process: runs indices `w, w+n, w+2n, ..` below `total`.
pub fn worker(p: &Prop, seed: u64, w: u64, n: u64, total: u64, dir: &Path, secs: u64) {
    install_panic_hook();
    // run on a thread with a large stack: values may be deep
    std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(512 << 20)
            .spawn_scoped(sc, || worker_inner(p, seed, w, n, total, dir, secs))
            .unwrap()
            .join()
            .unwrap();
    });
}

fn worker_inner(p: &Prop, seed: u64, w: u64, n: u64, total: u64, dir: &Path, secs: u64) {
    use std::os::unix::fs::FileExt;
    let mut s = Stats::default();
    let mut progress = std::fs::File::create(dir.join(format!("progress.{w}"))).unwrap();
    let start = Instant::now();
    let mut done = 0u64;
    let mut out = String::new();
    let mut i = w;
    let mut last_write = Instant::now() - Duration::from_secs(10);
    while i < total {
        if secs > 0 && start.elapsed().as_secs() >= secs {
            break;
        }
        progress.write_at(&i.to_le_bytes(), 0).unwrap();
        let _ = &mut last_write;
        let rs = run_seed(seed, p.id, i);
        let mut t = Tape::seeded(rs);
        if let Err(v) = run_once(p, &mut t, &mut s) {
            if let Some(k) = crate::known::matches(p.id, &v) {
                s.hit(&format!("known:{k}"));
            } else {
                let log = t.log.clone();
                let class = v.class.clone();
                let min = minimise(p, log, &class, Duration::from_secs(20));
                let v2 = class_of(p, &min).map(|x| x.0).unwrap_or(v);
                let name = format!("{}-seed{}-run{}.replay", p.id, seed, i);
                let path = dir.join(&name);
                write_replay(&path, p.id, seed, i, &min, &v2);
                out.push_str(&format!("violation {i} {name}\n"));
                done += 1;
                break;
            }
        }
        done += 1;
        i += n;
    }
    progress.flush().unwrap();
    out.push_str(&format!("done {done}\nticks {}\nevals {}\n", s.ticks, s.evals));
    for (k, v) in &s.counts {
        out.push_str(&format!("count {v} {k}\n"));
    }
    for smp in &s.sample {
        out.push_str(&format!("sample {}\n", smp.replace('\n', "\\n")));
    }
    let mut d = std::fs::File::create(dir.join(format!("distinct.{w}"))).unwrap();
    let mut b = Vec::with_capacity(s.distinct.len() * 8);
    for h in &s.distinct {
        b.extend_from_slice(&h.to_le_bytes());
    }
    d.write_all(&b).unwrap();
    std::fs::write(dir.join(format!("result.{w}")), out).unwrap();
}

pub fn write_replay(path: &Path, id: &str, seed: u64, i: u64, tape: &[u32], v: &Violation) {
    let mut s = format!("property {id}\nseed {seed}\nrun {i}\nclass {}\n", v.class.replace('\n', " "));
    s.push_str("tape");
    for x in tape {
        s.push_str(&format!(" {x}"));
    }
    s.push_str(&format!("\ndetail {}\n", v.detail.replace('\n', "\\n")));
    for t in &v.trace {
        s.push_str(&format!("trace {}\n", t.replace('\n', "\\n")));
    }
    std::fs::write(path, s).unwrap();
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn check(p: &Prop, tier: &str, seed: u64) -> i32 {
    let workers: u64 = std::env::var("SIM_WORKERS").ok().and_then(|v| v.parse().ok()).unwrap_or(8);
    let base = if tier == "thorough" { p.thorough } else { p.quick };
    let total: u64 = std::env::var("SIM_RUNS").ok().and_then(|v| v.parse().ok()).unwrap_or(base);
    let secs: u64 = std::env::var("SIM_SECS").ok().and_then(|v| v.parse().ok()).unwrap_or(if tier == "thorough" { 3000 } else { 240 });
    let stall: u64 = std::env::var("SIM_STALL").ok().and_then(|v| v.parse().ok()).unwrap_or(60);
    let dir = verif_dir().join("replays").join(format!(".work-{}-{}", p.id, std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    println!("sim: property={} tier={tier} VERIF_SEED={seed} runs={total} workers={workers}", p.id);
    let start = Instant::now();
    let exe = std::env::current_exe().unwrap();
    let mut kids: Vec<(u64, std::process::Child)> = (0..workers)
        .map(|w| {
            let c = std::process::Command::new(&exe)
                .args([
                    "worker", p.id, &seed.to_string(), &w.to_string(), &workers.to_string(), &total.to_string(),
                    dir.to_str().unwrap(), &secs.to_string(),
                ])
                .stderr(std::process::Stdio::null())
                .spawn()
                .unwrap();
            (w, c)
        })
        .collect();
    let read_progress = |w: u64| -> Option<u64> {
        let mut b = [0u8; 8];
        let mut f = std::fs::File::open(dir.join(format!("progress.{w}"))).ok()?;
        f.read_exact(&mut b).ok()?;
        Some(u64::from_le_bytes(b))
    };
    let mut seen: BTreeMap<u64, (Option<u64>, Instant)> = BTreeMap::new();
    let mut bad: Vec<(u64, Option<PathBuf>, String)> = vec![];
    let mut harness_error = None;
    while !kids.is_empty() {
        std::thread::sleep(Duration::from_millis(20));
        let mut next = vec![];
        for (w, mut c) in kids {
            match c.try_wait().unwrap() {
                Some(st) => {
                    if !st.success() {
                        use std::os::unix::process::ExitStatusExt;
                        match (read_progress(w), st.signal()) {
                            (Some(i), Some(sig)) => bad.push((i, None, format!("the process was killed by signal {sig} (stack overflow, abort or invalid memory access)"))),
                            _ => harness_error = Some(format!("worker {w} exited with {st}")),
                        }
                    }
                }
                None => {
                    let pr = read_progress(w);
                    let now = Instant::now();
                    let e = seen.entry(w).or_insert((pr, now));
                    if e.0 != pr {
                        *e = (pr, now);
                    }
                    // a worker that found a violation spends up to 20 s minimising
                    if now.duration_since(e.1).as_secs() > stall && pr.is_some() {
                        let _ = c.kill();
                        let _ = c.wait();
                        bad.push((pr.unwrap(), None, format!("no progress: one run did not finish within {stall} s")));
                    } else {
                        next.push((w, c));
                    }
                }
            }
        }
        kids = next;
    }
    let wall = start.elapsed().as_secs_f64();
    if let Some(e) = harness_error {
        eprintln!("sim: harness error: {e}");
        let _ = std::fs::remove_dir_all(&dir);
        return 2;
    }
    let mut done = 0;
    let mut ticks = 0;
    let mut evals = 0;
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples = vec![];
    let mut distinct: HashSet<u64> = HashSet::new();
    for w in 0..workers {
        if let Ok(r) = std::fs::read_to_string(dir.join(format!("result.{w}"))) {
            for l in r.lines() {
                let mut it = l.splitn(3, ' ');
                match it.next() {
                    Some("done") => done += it.next().unwrap().parse::<u64>().unwrap(),
                    Some("ticks") => ticks += it.next().unwrap().parse::<u64>().unwrap(),
                    Some("evals") => evals += it.next().unwrap().parse::<u64>().unwrap(),
                    Some("count") => {
                        let n: u64 = it.next().unwrap().parse().unwrap();
                        *counts.entry(it.next().unwrap().to_owned()).or_default() += n;
                    }
                    Some("sample") => {
                        if samples.len() < 6 {
                            samples.push(l["sample ".len()..].to_owned())
                        }
                    }
                    Some("violation") => {
                        let i: u64 = it.next().unwrap().parse().unwrap();
                        bad.push((i, Some(dir.join(it.next().unwrap())), String::new()));
                    }
                    _ => {}
                }
            }
        }
        if let Ok(b) = std::fs::read(dir.join(format!("distinct.{w}"))) {
            for c in b.chunks_exact(8) {
                distinct.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
    }
    bad.sort_by_key(|b| (b.1.is_none(), b.0));
    let mut replay_out = None;
    if let Some((i, path, why)) = bad.first() {
        let dst = verif_dir().join("replays").join(format!("{}-seed{}-run{}.replay", p.id, seed, i));
        match path {
            Some(src) => {
                std::fs::copy(src, &dst).unwrap();
            }
            None => {
                // crashed or hung: the tape is what the seed generates; it is replayed in a fresh process
                let s = format!(
                    "property {}\nseed {seed}\nrun {i}\nclass crash-or-hang\nrunseed {}\ndetail {why}\n",
                    p.id,
                    run_seed(seed, p.id, *i)
                );
                std::fs::write(&dst, s).unwrap();
            }
        }
        confirm(p, seed, *i, workers, &dst);
        replay_out = Some(dst);
    }
    // evidence
    let mut ev = String::from("{\n");
    ev.push_str(&format!(" \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": {},\n", js(p.id), js(tier), js(p.level)));
    ev.push_str(" \"coverage\": {\n");
    let _ = evals;
    ev.push_str(&format!("  \"evaluations\": {},\n  \"evaluation_unit\": \"one simulated run, from its own seed\",\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n", done, distinct.len(), js(p.rule)));
    ev.push_str(&format!("  \"samples\": [{}],\n", samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(", ")));
    ev.push_str(&format!("  \"runs_per_hour\": {},\n", (done as f64 / wall.max(0.001) * 3600.0) as u64));
    ev.push_str(&format!("  \"simulated_time_steps\": {ticks},\n"));
    let pick = |pre: &str| {
        counts
            .iter()
            .filter(|(k, _)| k.starts_with(pre))
            .map(|(k, v)| format!("{}: {}", js(&k[pre.len()..]), v))
            .collect::<Vec<_>>()
            .join(", ")
    };
    ev.push_str(&format!("  \"faults_injected\": {{{}}},\n", pick("fault.")));
    ev.push_str(&format!("  \"probes\": {{{}}},\n", pick("probe.")));
    ev.push_str(&format!("  \"known_findings_hit\": {{{}}},\n", pick("known:")));
    ev.push_str(&format!("  \"real_components\": {},\n  \"stub_components\": {}\n", js(p.real), js(p.stub)));
    ev.push_str(" },\n");
    ev.push_str(" \"assumptions\": [\"values follow the documented sval data model (balanced calls); simulated producers, consumers and writers stand for user code\"],\n");
    ev.push_str(&format!(" \"wall_s\": {wall:.3},\n \"violations\": {},\n \"replays\": [{}]\n}}\n", bad.len(), replay_out.iter().map(|r| js(&r.display().to_string())).collect::<Vec<_>>().join(", ")));
    let evdir = verif_dir().join("evidence");
    std::fs::create_dir_all(&evdir).unwrap();
    std::fs::write(evdir.join(format!("{}.json", p.id)), ev).unwrap();
    let _ = std::fs::remove_dir_all(&dir);
    println!(
        "sim: {} runs, {} distinct states, {} steps, {:.1} s, faults: {{{}}}",
        done, distinct.len(), ticks, wall, pick("fault.")
    );
    for l in crate::known::lines(p.id) {
        println!("{l}");
    }
    if let Some(r) = replay_out {
        if let Ok(s) = std::fs::read_to_string(&r) {
            for l in s.lines().filter(|l| l.starts_with("class") || l.starts_with("detail") || l.starts_with("trace")) {
                let mut l = l.to_owned();
                if l.len() > 1500 {
                    let mut n = 1500;
                    while !l.is_char_boundary(n) {
                        n -= 1;
                    }
                    l.truncate(n);
                }
                println!("  {l}");
            }
        }
        println!("VIOLATION property={} replay={}", p.id, r.display());
        return 1;
    }
    0
}

/// How a replay in a fresh process ends: the class of the violation, or the signal that ended it.
fn fresh(file: &Path) -> Option<String> {
    let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("replay").arg(file).stderr(std::process::Stdio::null()).output().unwrap();
    match o.status.code() {
        Some(1) => String::from_utf8_lossy(&o.stdout).lines().find_map(|l| l.strip_prefix("class ").map(|c| c.to_owned())),
        Some(_) => None,
        None => Some("crash-or-hang".to_owned()),
    }
}

/// A replay file must violate the property in a process of its own. If it doesn't, the code under test carries
/// something over from run to run, and the replay is the shortest history of runs by this worker that does.
fn confirm(p: &Prop, seed: u64, i: u64, workers: u64, dst: &Path) {
    let s = std::fs::read_to_string(dst).unwrap();
    if s.contains("detail no progress: one run did not finish") || fresh(dst).is_some() {
        return;
    }
    let all = i / workers + 1;
    let keep: String = s.lines().filter(|l| l.starts_with("class") || l.starts_with("detail") || l.starts_with("trace")).map(|l| format!("{l}\n")).collect();
    let start = Instant::now();
    let mut n = 2u64;
    loop {
        let n2 = n.min(all);
        let first = i - (n2 - 1) * workers;
        std::fs::write(dst, format!("property {}\nseed {seed}\nrun {i}\nhistory {first} {workers} {n2}\n{keep}", p.id)).unwrap();
        if fresh(dst).is_some() || n2 == all || start.elapsed() > Duration::from_secs(120) {
            return;
        }
        n *= 4;
    }
}

/// Replay a file in this process: prints the violation and exits 1 if it reproduces.
pub fn replay(props: &[Prop], file: &Path) -> i32 {
    install_panic_hook();
    let s = std::fs::read_to_string(file).unwrap();
    let get = |k: &str| s.lines().find_map(|l| l.strip_prefix(&format!("{k} ")).map(|v| v.to_owned()));
    let id = get("property").unwrap();
    let p = match props.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("sim: unknown property {id}");
            return 2;
        }
    };
    let mut tape = match get("runseed") {
        Some(rs) => Tape::seeded(rs.parse().unwrap()),
        None => Tape::replay(
            &s.lines()
                .find(|l| l.starts_with("tape"))
                .map(|l| l[4..].split_whitespace().map(|x| x.parse().unwrap()).collect::<Vec<u32>>())
                .unwrap_or_default(),
        ),
    };
    let mut st = Stats::default();
    let history = get("history").map(|h| h.split(' ').map(|x| x.parse::<u64>().unwrap()).collect::<Vec<_>>());
    let seed: u64 = get("seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let r = std::thread::scope(|sc| {
        let go = || match history {
            Some(h) => (0..h[2]).try_for_each(|k| run_once(p, &mut Tape::seeded(run_seed(seed, p.id, h[0] + k * h[1])), &mut st)),
            None => run_once(p, &mut tape, &mut st),
        };
        std::thread::Builder::new().stack_size(512 << 20).spawn_scoped(sc, go).unwrap().join().unwrap()
    });
    match r {
        Ok(()) => {
            println!("sim: replay of {} did not violate {}", file.display(), id);
            0
        }
        Err(v) => {
            println!("class {}\ndetail {}", v.class, v.detail);
            for t in &v.trace {
                println!("trace {t}");
            }
            println!("VIOLATION property={} replay={}", id, file.display());
            1
        }
    }
}
