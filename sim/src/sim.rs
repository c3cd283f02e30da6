//! The simulator core: callers (real threads released one at a time), processes, virtual clock,
//! in-memory file system, fault injection, event log. Only the holder of the token touches it.

use crate::arena::{self, Host};
use crate::child::Child;
use crate::tape::{mix, Tape};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::{Arc, Condvar, Mutex};

pub const MAX_STEPS: u64 = 400_000;
pub const FD_BASE: i32 = 1_000_000;

// ---------------------------------------------------------------- faults

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
#[repr(usize)]
pub enum F {
    EintrOpen,
    EintrRead,
    EintrWrite,
    EintrWait,
    ShortRead,
    ShortWrite,
    OpenErr,
    ReadErr,
    WriteErr,
    CloseErr,
    UnlinkErr,
    SpawnErr,
    WaitErr,
    SolverNoStart,
    SolverTorn,
    SolverEmpty,
    SolverNoReport,
    SolverGarbage,
    SolverNulTail,
    SolverDiskFull,
    SolverExitCode,
    SolverKilledLate,
    SolverReadErr,
    SolverSlow,
    SolverStrayIndex,
    SolverSplice,
    NameTaken,
    CloneRng,
    Crash,
    Restart,
    NativeCreateNull,
    NativeOptionRefused,
    NativeBadStatus,
    NativeMalformedCall,
    SolverApiErr,
    SolverApiPanic,
    SolverApiShape,
    EvalPanic,
    ParamRemoved,
    ParamWrongType,
    ParamNul,
    ClockJump,
    Count,
}
pub const NF: usize = F::Count as usize;
pub fn fname(i: usize) -> String {
    let f: F = unsafe { std::mem::transmute(i) };
    format!("{:?}", f)
}

impl F {
    /// Faults a correct program must shrug off completely.
    pub fn transient(self) -> bool {
        matches!(self, F::EintrOpen | F::EintrRead | F::EintrWrite | F::EintrWait | F::ShortRead | F::ShortWrite | F::SolverSlow | F::NameTaken | F::CloneRng | F::ClockJump | F::CloseErr)
    }
}

#[derive(Clone)]
pub struct FaultCfg {
    pub rate: [u32; NF], // 0: disabled; n: one in n opportunities
    pub budget: i32,
}

// ---------------------------------------------------------------- parking

#[derive(Default)]
pub struct Parker {
    m: Mutex<bool>,
    c: Condvar,
}
impl Parker {
    pub fn park(&self) {
        let mut g = self.m.lock().unwrap();
        while !*g {
            g = self.c.wait(g).unwrap();
        }
        *g = false;
    }
    pub fn unpark(&self) {
        *self.m.lock().unwrap() = true;
        self.c.notify_one();
    }
}

// ---------------------------------------------------------------- state

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum CState {
    Waiting(usize), // until every caller of that process is finished
    Ready,
    Blocked(i32), // waiting for child pid (-1: any)
    Pipe(usize, usize), // waiting for one of two pipes to have something to read
    Until(u64),   // asleep
    Futex(usize, u64), // waiting on a lock word, until a time
    Join(usize),  // waiting for a thread of the same process
    Done,
    Dead, // its process crashed; still to be drained
}

pub struct Caller {
    pub proc: usize,
    pub state: CState,
    pub parker: Arc<Parker>,
    pub solve: Option<usize>,
    pub woken: bool,
    pub tid: u64, // thread started by the code under test
}

pub struct Fd {
    pub ino: usize,
    pub pos: usize,
    pub flags: i32,
    pub solve: Option<usize>,
    pub path: String,
}

pub struct Proc {
    pub polls: u32,
    pub pid: i32,
    pub cwd: String,
    pub fds: BTreeMap<i32, Fd>,
    pub next_fd: i32,
    pub crashed: bool,
    pub crash_at: Option<u64>,
    pub ops: u64,
    pub cloned: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Owner {
    Env,
    Solve(usize),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    File,
    Dir,
    Null,
    PipeR(usize),
    PipeW(usize),
}

/// Real time at the start of a run.
pub const EPOCH: i64 = 1_700_000_000_000_000_000;

pub struct Inode {
    pub data: Vec<u8>,
    pub kind: Kind,
    pub owner: Owner,
    pub version: u32,
    pub mtime: i64, // ns since the epoch
}

#[derive(Default)]
pub struct Fs {
    pub nodes: Vec<Inode>,
    pub paths: BTreeMap<String, usize>,
}

/// What the simulator knows about one command-line solve.
#[derive(Default, Clone)]
pub struct SolveRec {
    pub caller: usize,
    pub proc: usize,
    pub label: String,
    pub posed: Option<crate::lp::Lp>,
    pub faults: Vec<F>,
    pub children: Vec<usize>,
    pub unlink_failed: Vec<String>,
    pub returned: bool,
    pub overlapped: bool,
    pub log_level: Option<i32>,
    pub prog: String,
    pub active: bool,
    pub after_crash: bool,
    pub native: u32,
    pub effects: u32,
}

pub struct Violation {
    pub props: Vec<&'static str>,
    pub sig: String,
    pub msg: String,
}

pub struct Sim {
    pub tape: Tape,
    pub now: u64,
    /// what was added to the wall clock by hand, and how fine it is
    pub wall_set: i64,
    pub wall_grain: i64,
    pub steps: u64,
    pub fs: Fs,
    pub procs: Vec<Proc>,
    pub callers: Vec<Caller>,
    pub children: Vec<Child>,
    pub solves: Vec<SolveRec>,
    pub faults: FaultCfg,
    pub fired: [u64; NF],
    pub cur: usize,
    pub switch_rate: u32,
    pub switches: u64,
    pub draining: bool,
    pub any_crash: bool,
    pub next_pid: i32,
    pub violations: Vec<Violation>,
    pub loghash: u64,
    pub loglen: u64,
    pub trace: bool,
    pub log: Vec<String>,
    pub names: BTreeMap<String, usize>,
    pub sched_hash: u64,
    pub host: Arc<Parker>,
    pub serial: u64,
    pub probes: BTreeMap<&'static str, u64>,
    pub sample: Vec<String>,
    pub native: crate::ipeer::Native,
    pub want_big: bool,
    pub name_taken_dirs: Vec<String>,
    pub realloc_seed: u64,
    pub sut_calls: u64,
    pub fatal: bool,
    pub bystanders: Vec<(String, usize, Vec<u8>)>,
    pub shared: BTreeMap<usize, usize>,
}

static mut SIM: *mut Sim = std::ptr::null_mut();
pub fn sim() -> &'static mut Sim {
    unsafe { &mut *SIM }
}

thread_local! {
    pub static ME: Cell<usize> = const { Cell::new(usize::MAX) };
    pub static IS_SIM: Cell<bool> = const { Cell::new(false) };
    pub static RAND: Cell<u64> = const { Cell::new(0) };
}

pub fn me() -> usize {
    ME.with(|m| m.get())
}

pub struct CallerSpec {
    pub proc: usize,
    pub after: Option<usize>,
    pub rng_seed: u64,
    pub hash_seed: u64,
    pub pad: usize,
    pub body: Box<dyn FnOnce() + Send>,
}

impl Sim {
    pub fn new(tape: Tape, trace: bool) -> Sim {
        let mut s = Sim {
            tape,
            now: 1_000_000_000,
            wall_set: 0,
            wall_grain: 1,
            steps: 0,
            fs: Fs::default(),
            procs: Vec::new(),
            callers: Vec::new(),
            children: Vec::new(),
            solves: Vec::new(),
            faults: FaultCfg { rate: [0; NF], budget: 0 },
            fired: [0; NF],
            cur: 0,
            switch_rate: 0,
            switches: 0,
            draining: false,
            any_crash: false,
            next_pid: 1000,
            violations: Vec::new(),
            loghash: 0xcbf29ce484222325,
            loglen: 0,
            trace,
            log: Vec::new(),
            names: BTreeMap::new(),
            sched_hash: 0,
            host: Arc::new(Parker::default()),
            serial: 0,
            probes: BTreeMap::new(),
            sample: Vec::new(),
            native: Default::default(),
            want_big: false,
            name_taken_dirs: Vec::new(),
            realloc_seed: 0,
            sut_calls: 0,
            fatal: false,
            bystanders: Vec::new(),
            shared: BTreeMap::new(),
        };
        s.mkdir("/");
        for d in ["/dev", "/tmp", "/work", "/work2"] {
            s.mkdir(d);
        }
        let ino = s.fs.nodes.len();
        s.fs.nodes.push(Inode { data: vec![], kind: Kind::Null, owner: Owner::Env, version: 0, mtime: EPOCH });
        s.fs.paths.insert("/dev/null".into(), ino);
        s
    }

    pub fn mkdir(&mut self, p: &str) {
        let ino = self.fs.nodes.len();
        self.fs.nodes.push(Inode { data: vec![], kind: Kind::Dir, owner: Owner::Env, version: 0, mtime: EPOCH });
        self.fs.paths.insert(p.into(), ino);
    }

    pub fn put_file(&mut self, p: &str, data: Vec<u8>) {
        let ino = self.fs.nodes.len();
        self.fs.nodes.push(Inode { data, kind: Kind::File, owner: Owner::Env, version: 0, mtime: EPOCH });
        self.fs.paths.insert(p.into(), ino);
    }

    pub fn add_proc(&mut self, cwd: &str) -> usize {
        self.next_pid += 1;
        self.procs.push(Proc { polls: 0, pid: self.next_pid, cwd: cwd.into(), fds: BTreeMap::new(), next_fd: FD_BASE, crashed: false, crash_at: None, ops: 0, cloned: false });
        self.procs.len() - 1
    }

    pub fn probe(&mut self, name: &'static str) {
        *self.probes.entry(name).or_insert(0) += 1;
    }

    pub fn mtime_now(&self) -> i64 {
        self.wall()
    }

    /// The wall clock: not monotonic, and no finer than its grain.
    pub fn wall(&self) -> i64 {
        let t = EPOCH + self.now as i64 + self.wall_set;
        t - t % self.wall_grain
    }

    // ---------------------------------------------------------- log

    /// File names are logged by order of first appearance, so that the log does not depend on
    /// how names are made.
    pub fn canon(&mut self, path: &str) -> String {
        if path.starts_with("/dev/") || !path.contains('/') {
            return path.to_string();
        }
        let (dir, base) = match path.rfind('/') {
            Some(i) => (&path[..i], &path[i + 1..]),
            None => ("", path),
        };
        if base.is_empty() || self.fs.paths.get(path).map(|i| self.fs.nodes[*i].kind == Kind::Dir).unwrap_or(false) {
            return path.to_string();
        }
        let n = self.names.len();
        let id = *self.names.entry(base.to_string()).or_insert(n);
        let ext = match base.rfind('.') {
            Some(i) => &base[i..],
            None => "",
        };
        format!("{}/<{}>{}", dir, id, ext)
    }

    pub fn logs(&mut self, s: &str) {
        for b in s.as_bytes() {
            self.loghash = (self.loghash ^ *b as u64).wrapping_mul(0x100000001b3);
        }
        self.loghash = (self.loghash ^ 10).wrapping_mul(0x100000001b3);
        self.loglen += 1;
        if self.trace {
            self.log.push(format!("{:>6} t={:<12} {}", self.steps, self.now, s));
        }
    }

    /// A line for the reader only: not part of the event log's digest.
    pub fn say(&mut self, text: String) {
        if self.trace {
            self.log.push(format!("{:>6} t={:<12} {}", self.steps, self.now, text));
        }
    }

    pub fn violate(&mut self, props: &[&'static str], sig: &str, msg: String) {
        if self.draining {
            return;
        }
        self.logs(&format!("VIOLATION {:?} {}", props, sig));
        if self.violations.len() < 16 {
            self.violations.push(Violation { props: props.to_vec(), sig: sig.into(), msg });
        }
    }

    // ---------------------------------------------------------- faults

    pub fn fault(&mut self, f: F) -> bool {
        let r = self.faults.rate[f as usize];
        if r == 0 || self.faults.budget <= 0 {
            return false;
        }
        if self.tape.one_in(r) {
            self.faults.budget -= 1;
            self.note_fault(f);
            true
        } else {
            false
        }
    }

    pub fn note_fault(&mut self, f: F) {
        self.fired[f as usize] += 1;
        self.logs(&format!("fault {:?}", f));
        let m = me();
        if m < self.callers.len() {
            if let Some(s) = self.callers[m].solve {
                self.solves[s].faults.push(f);
            }
        }
    }

    // ---------------------------------------------------------- paths

    pub fn resolve(&self, proc: usize, path: &str) -> String {
        let full = if path.starts_with('/') { path.to_string() } else { format!("{}/{}", self.procs[proc].cwd, path) };
        norm(&full)
    }

    pub fn lookup(&self, p: &str) -> Option<usize> {
        self.fs.paths.get(p).copied()
    }

    pub fn parent_ok(&self, p: &str) -> bool {
        let d = match p.rfind('/') {
            Some(0) => "/",
            Some(i) => &p[..i],
            None => return false,
        };
        self.fs.paths.get(d).map(|i| self.fs.nodes[*i].kind == Kind::Dir).unwrap_or(false)
    }

    // ---------------------------------------------------------- scheduling

    fn ready_callers(&self) -> Vec<usize> {
        (0..self.callers.len()).filter(|i| self.caller_ready(*i)).collect()
    }

    /// Would reading pipe `k` return at once (data, or end of file)?
    pub fn pipe_ready(&self, k: usize) -> bool {
        !self.fs.nodes[k].data.is_empty()
            || !(self.procs.iter().any(|p| p.fds.values().any(|f| self.fs.nodes[f.ino].kind == Kind::PipeW(k))) || self.children.iter().any(|c| c.exit.is_none() && c.pipes.contains(&k)))
    }

    fn caller_ready(&self, i: usize) -> bool {
        match self.callers[i].state {
            CState::Ready => true,
            CState::Until(t) => self.now >= t,
            CState::Futex(_, t) => self.callers[i].woken || self.now >= t,
            CState::Join(k) => matches!(self.callers[k].state, CState::Done),
            CState::Blocked(pid) => {
                let p = self.callers[i].proc;
                self.children.iter().any(|c| c.parent == p && !c.reaped && c.exit.is_some() && (pid == -1 || c.pid == pid))
                    || !self.children.iter().any(|c| c.parent == p && !c.reaped && (pid == -1 || c.pid == pid))
            }
            CState::Pipe(a, b) => self.pipe_ready(a) || self.pipe_ready(b),
            CState::Waiting(p) => self.callers.iter().all(|c| c.proc != p || matches!(c.state, CState::Done | CState::Dead)),
            _ => false,
        }
    }

    /// Picks who acts next. Runs solver-process steps inline; returns the caller to release, or
    /// None when nobody is left.
    fn next_actor(&mut self, cur_ready: Option<usize>) -> Option<usize> {
        loop {
            let kids: Vec<usize> = (0..self.children.len()).filter(|i| self.children[*i].exit.is_none() && self.children[*i].ready_at <= self.now && !crate::child::stuck(self, *i)).collect();
            if let Some(c) = cur_ready {
                // stay with the running caller unless a switch is drawn
                let others = kids.len() + self.callers.len();
                if others > 1 && self.switch_rate > 0 && self.tape.one_in(self.switch_rate) {
                    // fall through to a free choice
                } else {
                    return Some(c);
                }
            }
            let rc = self.ready_callers();
            let n = rc.len() + kids.len();
            if n == 0 {
                // nothing ready: let time pass to the next event
                let kids = (0..self.children.len()).filter(|i| self.children[*i].exit.is_none() && !crate::child::stuck(self, *i)).map(|i| self.children[i].ready_at);
                let naps = self.callers.iter().filter_map(|c| match c.state {
                    CState::Until(t) => Some(t),
                    CState::Futex(_, t) if t != u64::MAX => Some(t),
                    _ => None,
                });
                let next = kids.chain(naps).min();
                match next {
                    Some(t) => {
                        self.now = self.now.max(t);
                        continue;
                    }
                    None => return None,
                }
            }
            self.steps += 1;
            if self.steps > MAX_STEPS {
                runaway("waiting");
            }
            let k = self.tape.draw(n as u32) as usize;
            self.sched_hash = mix(self.sched_hash, k as u64 + 1000 * n as u64);
            if k < rc.len() {
                return Some(rc[k]);
            }
            let kid = kids[k - rc.len()];
            crate::child::step(self, kid);
        }
    }

    fn release(&mut self, c: usize) {
        if self.cur != c {
            self.switches += 1;
        }
        self.cur = c;
        if let CState::Waiting(_) = self.callers[c].state {
            self.callers[c].state = CState::Ready;
        }
        crate::statics::switch(self.callers[c].proc);
        let pk = self.callers[c].parker.clone();
        pk.unpark();
    }
}

pub fn norm(full: &str) -> String {
    let mut parts: Vec<&str> = Vec::new();
    for c in full.split('/') {
        match c {
            "" | "." => (),
            ".." => {
                parts.pop();
            }
            x => parts.push(x),
        }
    }
    let mut s = String::with_capacity(full.len());
    for p in parts {
        s.push('/');
        s.push_str(p);
    }
    if s.is_empty() {
        s.push('/');
    }
    s
}

pub fn dead() -> bool {
    let s = sim();
    let m = me();
    s.draining || s.procs[s.callers[m].proc].crashed
}

/// Every intercepted operation starts here. Returns false if the calling process is dead (the
/// operation must then have no effect).
pub fn yield_point(op: &str) -> bool {
    let s = sim();
    let m = me();
    if dead() {
        return dead_op();
    }
    s.steps += 1;
    if s.steps > MAX_STEPS {
        runaway(op);
    }
    let p = s.callers[m].proc;
    s.procs[p].ops += 1;
    if let Some(k) = s.procs[p].crash_at {
        if s.procs[p].ops >= k {
            s.procs[p].crash_at = None;
            crash(p, op);
            return false;
        }
    }
    s.now += 1_000;
    if s.fault(F::ClockJump) {
        match s.tape.draw(6) {
            0 => s.wall_set -= 3_600_000_000_000,
            1 => s.wall_set -= 5_000_000,
            2 => s.wall_set += 86_400_000_000_000,
            _ => s.now += 3_600_000_000_000,
        }
    }
    match s.next_actor(Some(m)) {
        Some(c) if c == m => (),
        Some(c) => {
            let pk = s.callers[m].parker.clone();
            s.release(c);
            pk.park();
            sim().cur = m;
            if dead() {
                return dead_op();
            }
        }
        None => (),
    }
    true
}

thread_local! { static DEAD_OPS: Cell<u32> = const { Cell::new(0) }; }
fn dead_op() -> bool {
    let n = DEAD_OPS.with(|d| {
        d.set(d.get() + 1);
        d.get()
    });
    if n > 20_000 {
        abandon();
    }
    false
}

fn runaway(op: &str) -> ! {
    let s = sim();
    s.violate(crate::worker::cur_owners(), "no-termination", format!("a call was still making system calls ({}) after {} simulated steps", op, MAX_STEPS));
    s.fatal = true;
    crate::worker::fatal_exit(s);
}

pub fn crash(p: usize, op: &str) {
    let s = sim();
    s.procs[p].crashed = true;
    s.any_crash = true;
    s.fired[F::Crash as usize] += 1;
    s.logs(&format!("CRASH p{} at {}", p, op));
    s.procs[p].fds.clear();
    for c in s.callers.iter_mut() {
        if c.proc == p && !matches!(c.state, CState::Done) {
            c.state = CState::Dead;
        }
    }
    // orphaned solvers keep running; init reaps them
}

/// Lets at least `d` ns pass for the calling thread. Callers that poll a solver process for long
/// oversleep until it next does something: how long a sleep lasts beyond its minimum is free.
pub fn nap(d: u64) {
    let t = oversleep(sim().now + d);
    block_current(CState::Until(t));
}
fn oversleep(t: u64) -> u64 {
    let s = sim();
    let p = s.callers[me()].proc;
    s.procs[p].polls += 1;
    if s.procs[p].polls > 40 {
        if let Some(k) = s.children.iter().filter(|c| c.parent == p && c.exit.is_none()).map(|c| c.ready_at).min() {
            return t.max(k);
        }
    }
    t
}

/// Blocks the calling thread until its state allows it to go on.
pub fn block_current(state: CState) {
    let s = sim();
    let m = me();
    s.callers[m].state = state;
    if !s.caller_ready(m) || s.tape.one_in(4) {
        match s.next_actor(None) {
            Some(c) if c == m => (),
            Some(c) => {
                let pk = s.callers[m].parker.clone();
                s.release(c);
                pk.park();
                sim().cur = m;
            }
            None => {
                deadlock();
            }
        }
    }
    let s = sim();
    if !dead() {
        s.callers[m].state = CState::Ready;
    }
}

fn deadlock() -> ! {
    let s = sim();
    let st: Vec<String> = s.callers.iter().map(|c| format!("{:?}", c.state)).collect();
    s.violate(crate::worker::cur_owners(), "deadlock", format!("a call waits for something that will never happen (threads: {})", st.join(" ")));
    s.fatal = true;
    crate::worker::fatal_exit(s);
}

/// A thread of a crashed process that waits for another one: leave it parked.
fn abandon() -> ! {
    let s = sim();
    let m = me();
    finish_caller(s, m);
    loop {
        std::thread::park();
    }
}

/// Waits on a lock word. True if woken, false on time-out.
pub fn futex_wait(addr: usize, word: impl Fn() -> bool, until: u64) -> bool {
    let s = sim();
    let m = me();
    if dead() {
        if word() {
            abandon();
        }
        return true;
    }
    s.callers[m].woken = false;
    s.probe("waited_for_a_lock");
    let until = if until == u64::MAX { until } else { oversleep(until) };
    block_current(CState::Futex(addr, until));
    if dead() {
        if word() {
            abandon();
        }
        return true;
    }
    sim().callers[m].woken
}
pub fn futex_wake(addr: usize) -> i64 {
    let s = sim();
    let mut n = 0;
    for c in s.callers.iter_mut() {
        if matches!(c.state, CState::Futex(a, _) if a == addr) && !c.woken {
            c.woken = true;
            n += 1;
        }
    }
    n
}

pub fn join(k: usize) {
    if !dead() {
        block_current(CState::Join(k));
    }
    if dead() && !matches!(sim().callers[k].state, CState::Done) {
        abandon();
    }
}

/// A thread started by the code under test becomes one more simulated thread of its process.
pub fn new_caller() -> Option<(usize, Arc<Parker>, u64)> {
    let s = sim();
    let k = s.callers.len();
    if dead() || k >= 4096 {
        return None;
    }
    let (proc, solve) = (s.callers[me()].proc, s.callers[me()].solve);
    let pk = Arc::new(Parker::default());
    let seed = RAND.with(|r| crate::tape::mix(r.get(), k as u64 + 77));
    s.callers.push(Caller { proc, state: CState::Ready, parker: pk.clone(), solve, woken: false, tid: 0 });
    s.probe("thread_of_the_library");
    s.logs(&format!("c{} starts thread c{}", me(), k));
    Some((k, pk, seed))
}
/// First and last things such a thread does.
pub fn thread_main(k: usize, slot: usize, pk: &Parker, seed: u64, f: impl FnOnce()) {
    arena::SLOT.with(|x| x.set(slot));
    ME.with(|x| x.set(k));
    RAND.with(|x| x.set(seed));
    IS_SIM.with(|x| x.set(true));
    pk.park();
    sim().cur = k;
    {
        let _g = arena::Sut::enter();
        f();
    }
    IS_SIM.with(|x| x.set(false));
    arena::SLOT.with(|x| x.set(usize::MAX));
    finish_caller(sim(), k);
}

fn finish_caller(s: &mut Sim, m: usize) {
    s.callers[m].state = CState::Done;
    match s.next_actor(None) {
        Some(c) => s.release(c),
        None => {
            if s.callers.iter().any(|c| matches!(c.state, CState::Futex(..) | CState::Join(_) | CState::Blocked(_) | CState::Pipe(..))) {
                deadlock();
            }
            // drain the threads of crashed processes
            let d = s.callers.iter().position(|c| c.state == CState::Dead);
            match d {
                Some(c) => {
                    s.draining = true;
                    crate::statics::switch(s.callers[c].proc);
                    let pk = s.callers[c].parker.clone();
                    pk.unpark();
                }
                None => {
                    // the run may be gone before this returns
                    let h = s.host.clone();
                    h.unpark();
                }
            }
        }
    }
}

/// Runs the prepared simulation to its end on fresh threads.
pub fn run(mut s: Box<Sim>, specs: Vec<CallerSpec>) -> Box<Sim> {
    arena::map();
    crate::statics::begin_run();
    for sp in &specs {
        let st = match sp.after {
            Some(p) => CState::Waiting(p),
            None => CState::Ready,
        };
        s.callers.push(Caller { proc: sp.proc, state: st, parker: Arc::new(Parker::default()), solve: None, woken: false, tid: 0 });
    }
    let n = specs.len();
    let raw = Box::into_raw(s);
    unsafe { SIM = raw };
    let mut handles = Vec::new();
    for (i, sp) in specs.into_iter().enumerate() {
        let pk = sim().callers[i].parker.clone();
        arena::reset(i % arena::SLOTS, sp.pad);
        handles.push(
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn(move || {
                    arena::SLOT.with(|x| x.set(i % arena::SLOTS));
                    ME.with(|x| x.set(i));
                    RAND.with(|x| x.set(sp.hash_seed));
                    IS_SIM.with(|x| x.set(true));
                    pk.park();
                    if !dead() {
                        sim().cur = i;
                        fastrand::seed(sp.rng_seed);
                        // take the hash keys of this thread from the simulator
                        let _ = std::collections::hash_map::RandomState::new();
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(sp.body));
                        if r.is_err() && !dead() {
                            let m = crate::worker::take_panic();
                            eprintln!("sim: harness panic: {}", m);
                            crate::worker::harness_error(&m);
                        }
                    }
                    IS_SIM.with(|x| x.set(false));
                    finish_caller(sim(), i);
                })
                .unwrap(),
        );
    }
    assert!(n > 0);
    let s = sim();
    match s.next_actor(None) {
        Some(c) => s.release(c),
        None => panic!("no runnable caller"),
    }
    let h = sim().host.clone();
    h.park();
    for hd in handles {
        // threads parked forever (dead processes that never ended) are left behind
        let t = std::time::Instant::now();
        while !hd.is_finished() && t.elapsed().as_millis() < 200 {
            std::thread::yield_now();
        }
        if hd.is_finished() {
            let _ = hd.join();
        }
    }
    unsafe {
        SIM = std::ptr::null_mut();
        Box::from_raw(raw)
    }
}

/// Outcome of a call into the code under test.
pub enum Caught<T> {
    Ok(T),
    Panic(String),
}

/// Calls the code under test with the seam and the arena switched on.
pub fn sut<T>(f: impl FnOnce() -> T) -> Caught<T> {
    sim().sut_calls += 1;
    let r = {
        let _g = arena::Sut::enter();
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(f))
    };
    match r {
        Ok(v) => Caught::Ok(v),
        Err(p) => {
            let _g = arena::Sut::enter();
            drop(p);
            drop(_g);
            let _h = Host::enter();
            Caught::Panic(crate::worker::take_panic())
        }
    }
}
