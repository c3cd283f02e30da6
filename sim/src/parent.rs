//! The parent process: hands out runs to workers, attributes deaths and hangs, minimises,
//! writes replay files and evidence.

use crate::sim::{fname, NF};
use crate::tape::Tape;
use crate::worker::{self, execute, run_seed};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::os::unix::process::ExitStatusExt;
use std::process::{Child, Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

fn root() -> String {
    std::env::var("SIM_ROOT").unwrap_or_else(|_| "/verif".into())
}
fn exe() -> String {
    std::fs::read_link("/proc/self/exe").unwrap().to_string_lossy().into_owned()
}
pub const SLOT_BYTES: usize = 2 << 20;
const HANG_S: u64 = 40;

struct Found {
    sig: String,
    world: String,
    msg: String,
    tape: Vec<u32>,
    idx: u64,
    kind: &'static str, // violation, fatal, abort, hang
    hist: (u64, u64),
}

struct Total {
    runs: u64,
    sim_ns: u64,
    steps: u64,
    switches: u64,
    calls: u64,
    fired: Vec<u64>,
    probes: BTreeMap<String, u64>,
    distinct: HashSet<u64>,
    samples: Vec<(u64, String)>,
}

enum Msg {
    Line(usize, String),
    End(usize),
}

fn spawn_worker(w: usize, prop: &str, seed: u64, start: u64, stride: u64, count: u64, ms: u64, shared: &str, tx: &mpsc::Sender<Msg>) -> Child {
    let mut c = Command::new(exe())
        .args(["worker", prop, &seed.to_string(), &start.to_string(), &stride.to_string(), &count.to_string(), &ms.to_string(), shared, &w.to_string()])
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(if std::env::var_os("SIM_VERBOSE").is_some() { Stdio::inherit() } else { Stdio::null() })
        .spawn()
        .expect("worker");
    let out = c.stdout.take().unwrap();
    let tx = tx.clone();
    std::thread::spawn(move || {
        let mut r = BufReader::new(out);
        let mut buf = Vec::new();
        loop {
            buf.clear();
            match r.read_until(b'\n', &mut buf) {
                Ok(0) | Err(_) => break,
                Ok(_) => {
                    let l = String::from_utf8_lossy(&buf).trim_end_matches('\n').to_string();
                    if tx.send(Msg::Line(w, l)).is_err() {
                        return;
                    }
                }
            }
        }
        let _ = tx.send(Msg::End(w));
    });
    c
}

fn known(prop: &str) -> Vec<(String, String, String)> {
    // known: property=C01 sig=<sig> contains=<text>
    let t = std::fs::read_to_string(format!("{}/known-findings.txt", root())).unwrap_or_default();
    let mut v = Vec::new();
    for l in t.lines() {
        if let Some(r) = l.strip_prefix("known: ") {
            if r.contains(&format!("property={} ", prop)) {
                let sig = r.split("sig=").nth(1).and_then(|x| x.split(' ').next()).unwrap_or("").to_string();
                let c = r.split("contains=").nth(1).unwrap_or("").trim().to_string();
                v.push((sig, c, r.to_string()));
            }
        }
    }
    v
}

pub fn check(a: &[String]) -> i32 {
    let prop = a[0].clone();
    let tier = std::env::var("VERIF_TIER").ok().filter(|t| t == "thorough" || t == "quick").unwrap_or_else(|| "quick".into());
    let tier = a.get(1).cloned().filter(|t| t == "thorough" || t == "quick").unwrap_or(tier);
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let (count, secs) = match tier.as_str() {
        "thorough" => (u64::MAX / 4, 600),
        _ => (quick_count(&prop), 60),
    };
    let secs: u64 = std::env::var("SIM_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(secs);
    let count: u64 = std::env::var("SIM_COUNT").ok().and_then(|s| s.parse().ok()).unwrap_or(count);
    let nw = std::env::var("SIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8)) as u64;
    println!("sim: property {} tier {} seed {} up to {} runs on {} workers", prop, tier, seed, if count > 1 << 50 { "unlimited".to_string() } else { count.to_string() }, nw);
    let out = format!("{}/out", root());
    let _ = std::fs::create_dir_all(format!("{}/replays", out));
    let _ = std::fs::create_dir_all(format!("{}/evidence", root()));
    let shared = format!("{}/shared.{}", out, std::process::id());
    std::fs::write(&shared, b"").unwrap();
    std::fs::OpenOptions::new().write(true).open(&shared).unwrap().set_len((SLOT_BYTES * 64) as u64).unwrap();
    let map = worker::map_raw(&shared);
    let t0 = Instant::now();
    let (tx, rx) = mpsc::channel();
    let mut kids: Vec<Option<Child>> = Vec::new();
    let mut starts: Vec<u64> = Vec::new();
    for w in 0..nw {
        kids.push(Some(spawn_worker(w as usize, &prop, seed, w, nw, count, secs * 1000, &shared, &tx)));
        starts.push(w);
    }
    let mut tot = Total { runs: 0, sim_ns: 0, steps: 0, switches: 0, calls: 0, fired: vec![0; NF], probes: BTreeMap::new(), distinct: HashSet::new(), samples: vec![] };
    let mut beat: Vec<(u64, Instant)> = vec![(0, Instant::now()); nw as usize];
    let kf = known(&prop);
    let mut kf_seen = vec![0u64; kf.len()];
    let mut found: Option<Found> = None;
    let mut left = nw;
    let mut error: Option<String> = None;
    let mut done = vec![false; nw as usize];
    let mut skipped = 0u64;
    while left > 0 && found.is_none() && error.is_none() {
        match rx.recv_timeout(Duration::from_millis(200)) {
            Ok(Msg::Line(w, l)) => {
                let f: Vec<&str> = l.split('\t').collect();
                match f[0] {
                    "S" if f.len() >= 10 => {
                        tot.runs += f[1].parse::<u64>().unwrap_or(0);
                        tot.sim_ns += f[2].parse::<u64>().unwrap_or(0);
                        tot.steps += f[3].parse::<u64>().unwrap_or(0);
                        tot.switches += f[4].parse::<u64>().unwrap_or(0);
                        tot.calls += f[5].parse::<u64>().unwrap_or(0);
                        for (k, v) in f[7].split(',').enumerate() {
                            if k < NF {
                                tot.fired[k] += v.parse::<u64>().unwrap_or(0);
                            }
                        }
                        for p in f[8].split(',') {
                            if let Some((k, v)) = p.split_once('=') {
                                *tot.probes.entry(k.into()).or_insert(0) += v.parse::<u64>().unwrap_or(0);
                            }
                        }
                        for h in f[9].split(',') {
                            if let Ok(h) = u64::from_str_radix(h, 16) {
                                tot.distinct.insert(h);
                            }
                        }
                    }
                    "V" if f.len() >= 8 => {
                        let hit = kf.iter().position(|k| k.0 == f[3] && f[7].contains(&k.1));
                        match hit {
                            Some(k) => kf_seen[k] += 1,
                            None => {
                                found = Some(Found { sig: f[3].into(), world: f[4].into(), msg: f[7].into(), tape: f[6].split(',').filter_map(|x| x.parse().ok()).collect(), idx: f[2].parse().unwrap_or(0), kind: "violation", hist: (starts[w], nw) });
                            }
                        }
                    }
                    "L" if f.len() >= 3 => tot.samples.push((f[1].parse().unwrap_or(0), f[2].to_string())),
                    "E" | "E " => error = Some(l.clone()),
                    "D" => done[w] = true,
                    _ if l.starts_with("E ") => error = Some(l.clone()),
                    _ => (),
                }
            }
            Ok(Msg::End(w)) => {
                let st = kids[w].take().map(|mut c| c.wait());
                let sh = unsafe { &*((map + w * SLOT_BYTES) as *const worker::Shared) };
                let idx = sh.idx;
                if done[w] {
                    left -= 1;
                    continue;
                }
                let code = st.and_then(|r| r.ok());
                let next = if idx > 0 { idx - 1 + nw } else { u64::MAX };
                match code.map(|c| (c.code(), c.signal())) {
                    Some((Some(11), _)) => (), // it has reported why
                    Some((Some(12), _)) => {
                        error = Some("a worker reported a harness error".into());
                        continue;
                    }
                    other => {
                        if idx == 0 {
                            error = Some(format!("a worker ended early: {:?}", other));
                            continue;
                        }
                        let what = match other {
                            Some((_, Some(s))) => format!("signal {}", s),
                            Some((Some(c), _)) => format!("exit code {}", c),
                            _ => "unknown".into(),
                        };
                        if !worker::owners(sh.world, sh.phase).contains(&prop.as_str()) {
                            // another property's business: this run decides nothing here
                            skipped += 1;
                            if next < count {
                                starts[w] = next;
                                let el = t0.elapsed().as_millis() as u64;
                                if el < secs * 1000 {
                                    kids[w] = Some(spawn_worker(w, &prop, seed, next, nw, count, secs * 1000 - el, &shared, &tx));
                                    continue;
                                }
                            }
                            left -= 1;
                            continue;
                        }
                        let tape = worker::mirror(map, w);
                        found = Some(Found { sig: format!("abort-{}", sh.phase), world: String::new(), msg: format!("the process died ({}) during {}", what, worker::phase_name(sh.phase)), tape, idx: idx - 1, kind: "abort", hist: (starts[w], nw) });
                        continue;
                    }
                }
                if next < count {
                    starts[w] = next;
                    let el = t0.elapsed().as_millis() as u64;
                    if el < secs * 1000 {
                        kids[w] = Some(spawn_worker(w, &prop, seed, next, nw, count, secs * 1000 - el, &shared, &tx));
                        continue;
                    }
                }
                left -= 1;
            }
            Err(mpsc::RecvTimeoutError::Timeout) => (),
            Err(_) => break,
        }
        // hangs
        for w in 0..nw as usize {
            if kids[w].is_none() {
                continue;
            }
            let sh = unsafe { std::ptr::read_volatile((map + w * SLOT_BYTES) as *const worker::Shared) };
            if sh.beat != beat[w].0 || sh.idx == 0 {
                beat[w] = (sh.beat, Instant::now());
            } else if beat[w].1.elapsed().as_secs() > HANG_S && found.is_none() {
                if !worker::owners(sh.world, sh.phase).contains(&prop.as_str()) {
                    if let Some(c) = kids[w].as_mut() {
                        let _ = c.kill(); // counted as undecided when its output ends
                    }
                    continue;
                }
                let tape = worker::mirror(map, w);
                found = Some(Found { sig: "hang".into(), world: String::new(), msg: format!("the code under test did not return within {} s of real time during {}", HANG_S, worker::phase_name(sh.phase)), tape, idx: sh.idx - 1, kind: "hang", hist: (starts[w], nw) });
            }
        }
    }
    for c in kids.iter_mut().flatten() {
        let _ = c.kill();
        let _ = c.wait();
    }
    let _ = std::fs::remove_file(&shared);
    let wall = t0.elapsed().as_secs_f64();
    if let Some(e) = error {
        println!("sim: harness error: {}", e);
        return 2;
    }
    for (k, (sig, _, text)) in kf.iter().enumerate() {
        println!("KNOWN-FINDING: property={} {} (sig {}, met {} times in this run)", prop, text, sig, kf_seen[k]);
    }
    let nviol = found.is_some() as u32;
    evidence(&prop, &tier, seed, &tot, wall, nviol, nw, skipped);
    match found {
        None => {
            if skipped > 0 {
                println!("sim: {} runs were ended by a death or hang that is another property's business", skipped);
            }
            println!("sim: {} held on {} runs ({} distinct non-trivial), {:.1} simulated hours, {:.1} s", prop, tot.runs, tot.distinct.len(), tot.sim_ns as f64 / 3.6e12, wall);
            0
        }
        Some(f) => {
            let path = report(&prop, seed, f);
            println!("VIOLATION property={} replay={}", prop, path);
            1
        }
    }
}

fn quick_count(p: &str) -> u64 {
    match p {
        "C16" => 250_000,
        "C13" | "C14" | "C15" => 400_000,
        "C09" | "C10" | "C11" | "C12" => 250_000,
        "C19" => 600_000,
        _ => 80_000,
    }
}

fn csv(t: &[u32]) -> String {
    t.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}

/// Runs a tape in a fresh process; what it found.
struct Probe {
    sigs: Vec<(String, String)>,
    digest: String,
    log: Vec<String>,
    died: Option<String>,
    world: String,
}
fn probe(prop: &str, file: &str, trace: bool, limit: u64) -> Probe {
    let mut c = Command::new(exe()).args(["tape", prop, file, if trace { "trace" } else { "quiet" }]).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("probe");
    let out = c.stdout.take().unwrap();
    let h = std::thread::spawn(move || {
        let mut v = Vec::new();
        let _ = std::io::Read::read_to_end(&mut { out }, &mut v);
        String::from_utf8_lossy(&v).into_owned()
    });
    let t = Instant::now();
    let mut died = None;
    loop {
        match c.try_wait() {
            Ok(Some(s)) => {
                if s.code().is_none() || !matches!(s.code(), Some(0) | Some(11)) {
                    died = Some(format!("{}", s));
                }
                break;
            }
            _ => {
                if t.elapsed().as_secs() > limit {
                    let _ = c.kill();
                    let _ = c.wait();
                    died = Some("no return".into());
                    break;
                }
                std::thread::sleep(Duration::from_millis(1));
            }
        }
    }
    let text = h.join().unwrap_or_default();
    let mut p = Probe { sigs: vec![], digest: String::new(), log: vec![], died, world: String::new() };
    for l in text.lines() {
        if let Some(d) = l.strip_prefix("digest ") {
            p.digest = d.into();
        } else if l.starts_with("V\t") {
            let f: Vec<&str> = l.split('\t').collect();
            if f.len() >= 8 {
                p.sigs.push((f[3].into(), f[7].into()));
                p.world = f[4].into();
                if p.digest.is_empty() {
                    p.digest = f[5].into();
                }
            }
        } else {
            p.log.push(l.to_string());
        }
    }
    p
}

fn report(prop: &str, seed: u64, mut f: Found) -> String {
    let out = format!("{}/out/replays", root());
    let tag = format!("{}-{}-{}", prop, f.sig.replace('/', "_"), f.idx);
    let tfile = format!("{}/{}.tape", out, tag);
    let limit = if f.kind == "hang" { 15 } else { 60 };
    let _ = std::fs::write(&tfile, csv(&f.tape));
    let mut solo = true;
    if f.kind == "violation" {
        // does it happen again, alone in a fresh process?
        let p = probe(prop, &tfile, false, limit);
        solo = p.sigs.iter().any(|s| s.0 == f.sig);
        if solo {
            // shrink (a candidate that kills the process ends it; what was reached is kept)
            let c = Command::new(exe()).args(["shrink", prop, &f.sig, &tfile, "12000"]).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn();
            if let Ok(mut c) = c {
                let t = Instant::now();
                while t.elapsed().as_secs() < 25 {
                    if let Ok(Some(_)) = c.try_wait() {
                        break;
                    }
                    std::thread::sleep(Duration::from_millis(10));
                }
                let _ = c.kill();
                let _ = c.wait();
            }
        }
    } else {
        let again = |t: &Vec<u32>| -> bool {
            let _ = std::fs::write(format!("{}.c", tfile), csv(t));
            let p = probe(prop, &format!("{}.c", tfile), false, limit);
            p.died.is_some()
        };
        solo = again(&f.tape);
        if solo {
            let t = Instant::now();
            let mut best = f.tape.clone();
            let mut size = best.len().max(1);
            let cap = if f.kind == "hang" { 0 } else { 12 };
            while size >= 1 && t.elapsed().as_secs() < cap {
                let mut i = 0;
                while i < best.len() && t.elapsed().as_secs() < cap {
                    let mut c = best.clone();
                    c.drain(i..(i + size).min(best.len()));
                    if again(&c) {
                        best = c;
                    } else {
                        i += size;
                    }
                }
                if size == 1 {
                    break;
                }
                size /= 2;
            }
            let _ = std::fs::write(&tfile, csv(&best));
        }
        let _ = std::fs::remove_file(format!("{}.c", tfile));
    }
    let tape: Vec<u32> = std::fs::read_to_string(&tfile).unwrap_or_default().trim().split(',').filter_map(|x| x.parse().ok()).collect();
    let path = format!("{}/{}.replay", out, tag);
    let mut t = String::new();
    t.push_str("numopt-sim replay 1\n");
    t.push_str(&format!("property: {}\n", prop));
    t.push_str(&format!("kind: {}\n", f.kind));
    t.push_str(&format!("sig: {}\n", f.sig));
    t.push_str(&format!("seed: VERIF_SEED={} run={}\n", seed, f.idx));
    if solo {
        let p = probe(prop, &tfile, true, limit);
        let q = probe(prop, &tfile, true, limit);
        if let Some(s) = p.sigs.iter().find(|s| s.0 == f.sig) {
            f.msg = s.1.clone();
        }
        if !p.world.is_empty() {
            f.world = p.world.clone();
        }
        t.push_str(&format!("world: {}\n", f.world));
        t.push_str(&format!("message: {}\n", f.msg));
        t.push_str(&format!("digest: {}\n", p.digest));
        t.push_str(&format!("replayed: {}\n", if p.digest == q.digest { "twice in fresh processes, identical event logs" } else { "NOT identical" }));
        t.push_str(&format!("choices: {} before minimising, {} after\n", f.tape.len(), tape.len()));
        t.push_str(&format!("tape: {}\n", csv(&tape)));
        t.push_str("trace:\n");
        for l in &p.log {
            t.push_str(l);
            t.push('\n');
        }
    } else {
        t.push_str(&format!("world: {}\n", f.world));
        t.push_str(&format!("message: {}\n", f.msg));
        t.push_str(&format!("history: seed={} start={} stride={} run={}\n", seed, f.hist.0, f.hist.1, f.idx));
        t.push_str("note: the violation needs what earlier runs left behind in the process; replaying repeats them\n");
    }
    let _ = std::fs::write(&path, t);
    let _ = std::fs::remove_file(&tfile);
    println!("sim: {} [{}] {}", prop, f.sig, f.msg);
    println!("sim: found in run {} of seed {}; minimised to {} choices; replay with: ./replay {}", f.idx, seed, tape.len(), path);
    path
}

pub fn run_tape(a: &[String]) -> i32 {
    let prop = &a[0];
    let tape: Vec<u32> = std::fs::read_to_string(&a[1]).unwrap_or_default().trim().split(',').filter_map(|x| x.parse().ok()).collect();
    let trace = a.get(2).map(|s| s == "trace").unwrap_or(false);
    let o = execute(prop, 0, Tape::from_vals(tape), trace);
    show(prop, 0, &o);
    0
}

fn show(prop: &str, idx: u64, o: &worker::Outcome) {
    for l in &o.log {
        println!("{}", l);
    }
    for v in &o.violations {
        if v.props.iter().any(|p| *p == prop) {
            worker::emit(prop, idx, v, &[], o.digest, o.world);
        } else {
            println!("also {:?} {} {}", v.props, v.sig, v.msg);
        }
    }
    println!("digest {:016x}", o.digest);
    let _ = std::io::stdout().flush();
}

pub fn replay(a: &[String]) -> i32 {
    let text = match std::fs::read_to_string(&a[0]) {
        Ok(t) => t,
        Err(e) => {
            println!("cannot read {}: {}", a[0], e);
            return 2;
        }
    };
    let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(&format!("{}: ", k))).unwrap_or("").to_string();
    let (prop, sig, kind, digest) = (get("property"), get("sig"), get("kind"), get("digest"));
    let hist = get("history");
    if !hist.is_empty() {
        let n = |k: &str| -> u64 { hist.split(&format!("{}=", k)).nth(1).and_then(|x| x.split(' ').next()).and_then(|x| x.parse().ok()).unwrap_or(0) };
        let (seed, start, stride, run) = (n("seed"), n("start"), n("stride").max(1), n("run"));
        let mut i = start;
        while i <= run {
            let o = execute(&prop, i, Tape::from_seed(run_seed(seed, &prop, i)), i == run);
            if i == run {
                show(&prop, i, &o);
                let hit = o.violations.iter().any(|v| v.sig == sig);
                println!("{}", if hit { "REPRODUCED" } else { "NOT REPRODUCED" });
                return hit as i32;
            }
            i += stride;
        }
        return 2;
    }
    let tf = format!("{}.tmp{}", a[0], std::process::id());
    std::fs::write(&tf, get("tape")).unwrap();
    let p = probe(&prop, &tf, true, 60);
    let _ = std::fs::remove_file(&tf);
    for l in &p.log {
        println!("{}", l);
    }
    let hit = if kind == "abort" || kind == "hang" { p.died.is_some() } else { p.sigs.iter().any(|s| s.0 == sig) };
    for s in &p.sigs {
        println!("{} [{}] {}", prop, s.0, s.1);
    }
    if let Some(d) = &p.died {
        println!("the process died: {}", d);
    }
    println!("digest {} (recorded {}){}", p.digest, digest, if p.digest == digest { ", identical execution" } else { "" });
    println!("{}", if hit { "REPRODUCED" } else { "NOT REPRODUCED" });
    hit as i32
}

/// One run by number, with its trace.
pub fn one(a: &[String]) -> i32 {
    let idx: u64 = a[2].parse().unwrap();
    let o = execute(&a[0], idx, Tape::from_seed(run_seed(a[1].parse().unwrap(), &a[0], idx)), a.len() > 3);
    show(&a[0], idx, &o);
    0
}

/// Digests of many runs, for comparing processes.
pub fn digests(a: &[String]) -> i32 {
    let seed: u64 = a[1].parse().unwrap();
    let (lo, hi): (u64, u64) = (a[2].parse().unwrap(), a[3].parse().unwrap());
    let rev = a.len() > 4;
    let mut v: Vec<u64> = (lo..hi).collect();
    if rev {
        v.reverse();
    }
    let mut out = Vec::new();
    for i in v {
        let o = execute(&a[0], i, Tape::from_seed(run_seed(seed, &a[0], i)), false);
        out.push((i, o.digest, o.tape.len()));
    }
    out.sort();
    for (i, d, n) in out {
        println!("{} {:016x} {}", i, d, n);
    }
    0
}

// ---------------------------------------------------------------- evidence

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn evidence(prop: &str, tier: &str, seed: u64, t: &Total, wall: f64, nviol: u32, nw: u64, skipped: u64) {
    let mut s = String::new();
    s.push_str("{\n");
    s.push_str(&format!(" \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n", js(prop), js(tier), seed));
    s.push_str(" \"coverage\": {\n");
    s.push_str(&format!("  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n", t.runs, t.distinct.len()));
    s.push_str(&format!("  \"rule\": {},\n", js("One evaluation is one simulated run: workload, schedule, fault sequence and environment drawn from a tape seeded by (VERIF_SEED, property, run number). A run counts as non-trivial if at least one fault fired, or the schedule switched threads more than twice, or it reached a tracked branch of its world; distinct runs are those whose hash of the whole event log and of all scheduling choices differs.")));
    let ph = |v: f64| if wall > 0. { (v * 3600. / wall) as u64 } else { 0 };
    s.push_str(&format!("  \"runs_per_hour\": {},\n  \"seeds_per_hour\": {},\n", ph(t.runs as f64), ph(t.runs as f64)));
    s.push_str(&format!("  \"simulated_seconds\": {:.3},\n  \"simulated_steps\": {},\n  \"context_switches\": {},\n  \"calls_into_code_under_test\": {},\n  \"workers\": {},\n", t.sim_ns as f64 / 1e9, t.steps, t.switches, t.calls, nw));
    let f: Vec<String> = (0..NF).filter(|k| t.fired[*k] > 0).map(|k| format!("{}: {}", js(&fname(k)), t.fired[k])).collect();
    s.push_str(&format!("  \"faults_injected\": {{{}}},\n", f.join(", ")));
    let p: Vec<String> = t.probes.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
    s.push_str(&format!("  \"branches_reached\": {{{}}},\n", p.join(", ")));
    s.push_str(&format!("  \"undecided_runs_ended_by_another_property\": {},\n", skipped));
    s.push_str(&format!("  \"distinct_interleavings\": {},\n  \"interleaving_measure\": {},\n", t.distinct.len(), js("distinct hashes over the complete event log together with every scheduling choice")));
    s.push_str(&format!("  \"real_code\": {},\n", js("all of numopt (solvers, problems, model, matrix), tempfile, Rust std file, process and hash-map code")));
    s.push_str(&format!("  \"stubbed\": {},\n", js("kernel file system, process table, clock and random source; the cbc and clp programs; the Ipopt library (all simulated)")));
    let mut sm: Vec<String> = Vec::new();
    let mut v = t.samples.clone();
    v.sort();
    for (i, l) in v.iter().take(3) {
        let lines: Vec<String> = l.split('\x1f').map(js).collect();
        sm.push(format!("{{\"run\": {}, \"events\": [{}]}}", i, lines.join(", ")));
    }
    if sm.is_empty() {
        sm.push(js("the run ended before a sample was recorded"));
    }
    s.push_str(&format!("  \"samples\": [{}]\n }},\n", sm.join(",\n   ")));
    s.push_str(" \"assumptions\": [\"the simulated solver programs and library follow the observable protocol of cbc 2.10, clp 1.16/1.17 and the Ipopt C interface\", \"sampling, not enumeration: a clean batch is evidence, not proof\"],\n");
    s.push_str(&format!(" \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", wall, nviol));
    let _ = std::fs::write(format!("{}/evidence/{}.json", root(), prop), s);
}
