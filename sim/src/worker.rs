//! One run, and the worker process that performs many.

use crate::parent::SLOT_BYTES;
use crate::sim::{self, Sim, Violation, NF};
use crate::tape::{mix, Tape};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::sync::Mutex;

static PANIC: Mutex<String> = Mutex::new(String::new());

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let _h = crate::arena::Host::enter();
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let at = info.location().map(|l| format!(" at {}:{}", l.file().rsplit("/src/").next().unwrap_or(l.file()), l.line())).unwrap_or_default();
        let mut g = PANIC.lock().unwrap_or_else(|e| e.into_inner());
        *g = format!("{}{}", m, at);
        if std::env::var_os("SIM_VERBOSE").is_some() {
            eprintln!("panic: {}", *g);
        }
    }));
}

pub fn take_panic() -> String {
    std::mem::take(&mut *PANIC.lock().unwrap_or_else(|e| e.into_inner()))
}

/// A fault of the harness itself: no verdict.
pub fn harness_error(m: &str) -> ! {
    let _h = crate::arena::Host::enter();
    println!("E {}", m.replace('\n', " "));
    let _ = std::io::stdout().flush();
    unsafe { libc::_exit(12) }
}

// ---------------------------------------------------------------- progress shared with the parent

#[repr(C)]
pub struct Shared {
    pub idx: u64, // run under way, plus one
    pub beat: u64,
    pub phase: u64, // what the run is doing, for attributing an abort
    pub n: u64,
    pub world: u64,
    pub pad: [u64; 3],
}
static mut SHARED: *mut Shared = std::ptr::null_mut();
pub fn map_raw(path: &str) -> usize {
    use std::os::unix::io::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).open(path).expect("shared file");
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), 64 * SLOT_BYTES, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0);
        assert!(p != libc::MAP_FAILED);
        p as usize
    }
}
pub fn map_shared(path: &str, slot: usize) {
    let p = map_raw(path) + slot * SLOT_BYTES;
    unsafe { SHARED = p as *mut Shared };
    crate::tape::set_mirror(p + 64, (SLOT_BYTES - 64) / 4);
}
/// The choices of the run a worker was in when it died.
pub fn mirror(map: usize, slot: usize) -> Vec<u32> {
    let p = (map + slot * SLOT_BYTES + 64) as *const u32;
    unsafe {
        let n = (*p as usize).min((SLOT_BYTES - 64) / 4 - 1);
        (0..n).map(|i| *p.add(i + 1)).collect()
    }
}
pub fn phase_name(p: u64) -> &'static str {
    match p {
        0 => "the run's own bookkeeping or a call into the library",
        1 => "a well-formed Ipopt callback",
        2 => "a malformed Ipopt callback",
        3 => "a native Ipopt call",
        _ => "a call into the library",
    }
}
pub fn get_phase() -> u64 {
    unsafe {
        if SHARED.is_null() {
            0
        } else {
            std::ptr::read_volatile(&(*SHARED).phase)
        }
    }
}
/// The properties that a death or hang of the process speaks about.
pub fn owners(world: u64, phase: u64) -> &'static [&'static str] {
    match (world, phase) {
        (0, _) => &["C04"],
        (1, 1) => &["C09"],
        (1, 2) => &["C10"],
        (1, _) => &["C11"],
        (2, _) => &["C13", "C14"],
        _ => &["C19"],
    }
}
pub fn cur_owners() -> &'static [&'static str] {
    let w = unsafe {
        #[allow(static_mut_refs)]
        CUR.as_ref().map(|c| c.2).unwrap_or("cmd")
    };
    owners(world_no(w), get_phase())
}
fn world_no(w: &str) -> u64 {
    ["cmd", "ipopt", "model", "eval"].iter().position(|x| *x == w).unwrap() as u64
}
pub fn phase(p: u64) {
    unsafe {
        if !SHARED.is_null() {
            std::ptr::write_volatile(&mut (*SHARED).phase, p);
        }
    }
}

// ---------------------------------------------------------------- one run

pub struct Outcome {
    pub violations: Vec<Violation>,
    pub digest: u64,
    pub tape: Vec<u32>,
    pub log: Vec<String>,
    pub stats: Stats,
    pub world: &'static str,
    pub sig_sched: u64,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub runs: u64,
    pub sim_ns: u64,
    pub steps: u64,
    pub switches: u64,
    pub calls: u64,
    pub fired: Vec<u64>,
    pub probes: BTreeMap<String, u64>,
    pub nontrivial: u64,
}

pub fn world_of(prop: &str, t: &mut Tape) -> &'static str {
    match prop {
        "C09" | "C10" | "C11" | "C12" => "ipopt",
        "C13" | "C14" | "C15" | "C16" => "model",
        "C19" => "eval",
        "C17" | "C06" | "C18" => {
            if t.chance(if prop == "C06" { 1 } else { 2 }, 6) {
                "ipopt"
            } else {
                "cmd"
            }
        }
        _ => "cmd",
    }
}

static mut CUR: Option<(String, u64, &'static str, bool)> = None;

pub fn execute(prop: &str, idx: u64, mut tape: Tape, trace: bool) -> Outcome {
    let world = world_of(prop, &mut tape);
    unsafe { CUR = Some((prop.to_string(), idx, world, trace)) };
    phase(0);
    unsafe {
        if !SHARED.is_null() {
            std::ptr::write_volatile(&mut (*SHARED).world, world_no(world));
        }
    }
    let mut s = Box::new(Sim::new(tape, trace));
    s.logs(&format!("world {} for {}", world, prop));
    let specs = match world {
        "cmd" => crate::cmd::setup(&mut s, prop),
        "ipopt" => crate::ipeer::setup(&mut s, prop),
        "model" => crate::modelw::setup(&mut s, prop),
        _ => crate::evalw::setup(&mut s, prop),
    };
    let mut s = sim::run(s, specs);
    if world == "cmd" {
        crate::cmd::finish(&mut s);
    }
    collect(*s, world)
}

fn collect(mut s: Sim, world: &'static str) -> Outcome {
    let mut tape = std::mem::take(&mut s.tape.vals);
    tape.truncate(s.tape.pos);
    let nontrivial = s.fired.iter().any(|f| *f > 0) || s.switches > 2 || !s.probes.is_empty() && world != "cmd";
    let stats = Stats { runs: 1, sim_ns: s.now - 1_000_000_000, steps: s.steps, switches: s.switches, calls: s.sut_calls, fired: s.fired.to_vec(), probes: s.probes.iter().map(|(k, v)| (k.to_string(), *v)).collect(), nontrivial: nontrivial as u64 };
    Outcome { violations: std::mem::take(&mut s.violations), digest: s.loghash, tape, log: std::mem::take(&mut s.log), stats, world, sig_sched: mix(s.sched_hash, s.loghash) }
}

/// The run cannot go on (a thread of the code under test never returns): report and leave.
pub fn fatal_exit(s: &mut Sim) -> ! {
    let _h = crate::arena::Host::enter();
    let (prop, idx, world, trace) = unsafe {
        #[allow(static_mut_refs)]
        CUR.clone().unwrap()
    };
    let tape: Vec<u32> = s.tape.vals[..s.tape.pos.min(s.tape.vals.len())].to_vec();
    for v in &s.violations {
        if v.props.iter().any(|p| *p == prop) || trace {
            emit(&prop, idx, v, &tape, s.loghash, world);
        }
    }
    if trace {
        for l in &s.log[s.log.len().saturating_sub(400)..] {
            println!("{}", l);
        }
    }
    let _ = std::io::stdout().flush();
    unsafe { libc::_exit(11) }
}

pub fn emit(prop: &str, idx: u64, v: &Violation, tape: &[u32], digest: u64, world: &str) {
    let t: Vec<String> = tape.iter().map(|x| x.to_string()).collect();
    println!("V\t{}\t{}\t{}\t{}\t{:016x}\t{}\t{}", prop, idx, v.sig, world, digest, t.join(","), v.msg.replace(['\n', '\t'], " "));
}

pub fn run_seed(seed: u64, prop: &str, idx: u64) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in prop.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    mix(mix(seed, h), idx)
}

// ---------------------------------------------------------------- worker process

pub fn worker(a: &[String]) -> i32 {
    let prop = a[0].clone();
    let seed: u64 = a[1].parse().unwrap();
    let start: u64 = a[2].parse().unwrap();
    let stride: u64 = a[3].parse().unwrap();
    let count: u64 = a[4].parse().unwrap();
    let ms: u64 = a[5].parse().unwrap();
    map_shared(&a[6], a[7].parse().unwrap());
    let t0 = std::time::Instant::now();
    let mut tot = Stats { fired: vec![0; NF], ..Default::default() };
    let mut seen: BTreeSet<u64> = BTreeSet::new();
    let mut sigs: BTreeSet<String> = BTreeSet::new();
    let mut i = start;
    let mut samples = 0;
    let mut fresh: Vec<u64> = Vec::new();
    let mut last = std::time::Instant::now();
    while i < count {
        if t0.elapsed().as_millis() as u64 > ms {
            break;
        }
        unsafe {
            std::ptr::write_volatile(&mut (*SHARED).idx, i + 1);
            std::ptr::write_volatile(&mut (*SHARED).beat, (*SHARED).beat + 1);
        }
        let want = samples < 2 && i / stride == 3 + samples * 40;
        let o = execute(&prop, i, Tape::from_seed(run_seed(seed, &prop, i)), want);
        if want {
            samples += 1;
            let n = o.log.len();
            let mut l: Vec<String> = o.log.iter().take(60).cloned().collect();
            if n > 60 {
                l.push(format!("... {} more events", n - 60));
            }
            println!("L\t{}\t{}", i, l.join("\x1f"));
        }
        for v in &o.violations {
            if v.props.iter().any(|p| *p == prop) && sigs.insert(v.sig.clone()) {
                emit(&prop, i, v, &o.tape, o.digest, o.world);
                let _ = std::io::stdout().flush();
            }
        }
        tot.runs += 1;
        tot.sim_ns += o.stats.sim_ns;
        tot.steps += o.stats.steps;
        tot.switches += o.stats.switches;
        tot.calls += o.stats.calls;
        for (k, v) in o.stats.fired.iter().enumerate() {
            tot.fired[k] += v;
        }
        for (k, v) in &o.stats.probes {
            *tot.probes.entry(k.clone()).or_insert(0) += v;
        }
        if o.stats.nontrivial > 0 && seen.insert(o.sig_sched) {
            tot.nontrivial += 1;
            fresh.push(o.sig_sched);
        }
        i += stride;
        unsafe { std::ptr::write_volatile(&mut (*SHARED).idx, i + 1) };
        if last.elapsed().as_millis() > 1500 {
            last = std::time::Instant::now();
            stats(&mut tot, &mut fresh);
        }
    }
    stats(&mut tot, &mut fresh);
    unsafe { std::ptr::write_volatile(&mut (*SHARED).idx, 0) };
    println!("D");
    let _ = std::io::stdout().flush();
    0
}

/// Counts since the last such line (so that little is lost if this process dies).
fn stats(t: &mut Stats, fresh: &mut Vec<u64>) {
    let f: Vec<String> = t.fired.iter().map(|v| v.to_string()).collect();
    let p: Vec<String> = t.probes.iter().map(|(k, v)| format!("{}={}", k, v)).collect();
    let h: Vec<String> = fresh.drain(..).map(|v| format!("{:016x}", v)).collect();
    println!("S\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}", t.runs, t.sim_ns, t.steps, t.switches, t.calls, t.nontrivial, f.join(","), p.join(","), h.join(","));
    let _ = std::io::stdout().flush();
    *t = Stats { fired: vec![0; NF], ..Default::default() };
}

// ---------------------------------------------------------------- minimising

/// Reads candidate tapes from a file and shrinks in-process, saving each improvement.
pub fn shrink(a: &[String]) -> i32 {
    let prop = a[0].clone();
    let sig = a[1].clone();
    let file = a[2].clone();
    let ms: u64 = a[3].parse().unwrap();
    let t0 = std::time::Instant::now();
    let read = |f: &str| -> Vec<u32> { std::fs::read_to_string(f).unwrap_or_default().trim().split(',').filter_map(|x| x.parse().ok()).collect() };
    let mut best = read(&file);
    let try_one = |c: &Vec<u32>| -> Option<Vec<u32>> {
        let o = execute(&prop, 0, Tape::from_vals(c.clone()), false);
        if o.violations.iter().any(|v| v.sig == sig && v.props.iter().any(|p| *p == prop)) {
            Some(c[..c.len()].to_vec())
        } else {
            None
        }
    };
    if try_one(&best).is_none() {
        println!("NO");
        return 0;
    }
    println!("YES");
    let _ = std::io::stdout().flush();
    let save = |b: &Vec<u32>| {
        let t: Vec<String> = b.iter().map(|x| x.to_string()).collect();
        let _ = std::fs::write(format!("{}.tmp", file), t.join(","));
        let _ = std::fs::rename(format!("{}.tmp", file), &file);
    };
    let over = || t0.elapsed().as_millis() as u64 > ms;
    // truncate first: trailing choices become the simplest
    let mut n = best.len();
    while n > 0 && !over() {
        let mut c = best.clone();
        c.truncate(best.len() - n.min(best.len()));
        if c.len() < best.len() {
            if let Some(c) = try_one(&c) {
                best = c;
                save(&best);
                n = n.min(best.len());
                continue;
            }
        }
        n /= 2;
    }
    loop {
        let before = best.clone();
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() {
                if over() {
                    save(&best);
                    return 0;
                }
                let e = (i + size).min(best.len());
                let mut c = best.clone();
                c.drain(i..e);
                if let Some(c) = try_one(&c) {
                    best = c;
                    continue;
                }
                if best[i..e].iter().any(|v| *v != 0) {
                    let mut c = best.clone();
                    c[i..e].iter_mut().for_each(|v| *v = 0);
                    if let Some(c) = try_one(&c) {
                        best = c;
                    }
                }
                i += size;
            }
            save(&best);
            if size == 1 {
                break;
            }
            size /= 2;
        }
        for i in 0..best.len() {
            if over() {
                break;
            }
            while best[i] > 0 {
                let mut c = best.clone();
                c[i] /= 2;
                match try_one(&c) {
                    Some(c) => best = c,
                    None => break,
                }
            }
        }
        while best.last() == Some(&0) {
            best.pop();
        }
        save(&best);
        if best == before || over() {
            break;
        }
    }
    0
}
