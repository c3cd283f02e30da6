//! The simulated cbc and clp programs: state machines driven by the simulator.
//!
//! They follow the command-line protocol of the real programs (tokens, working directory, input
//! in LP format, report layout of cbc 2.10, clp 1.16 and clp 1.17), but the verdict and the
//! numbers are scripted, so that every value a caller reads back can be traced to one process.

use crate::lp::{self, Parsed};
use crate::sim::*;
use crate::tape::splitmix;
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Stage {
    Start,
    Read,
    Work,
    OpenOut,
    Write,
    End,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Word {
    Solved,
    Infeasible,
    Neither,
}

pub struct Child {
    pub pid: i32,
    pub parent: usize,
    pub caller: usize,
    pub solve: Option<usize>,
    pub prog: String,
    pub args: Vec<String>,
    pub cwd: String,
    pub stage: Stage,
    pub reaped: bool,
    pub exit: Option<i32>,
    pub killed: bool,
    pub ready_at: u64,
    pub pipes: Vec<usize>,
    /// what it has yet to print to pipes: (pipe, bytes)
    pub print: Vec<(usize, usize)>,
    pub in_path: Option<String>,
    pub out_path: Option<String>,
    pub all: bool,
    pub level: Option<i32>,
    pub null_out: bool,
    in_ino: Option<usize>,
    in_pos: usize,
    input: Vec<u8>,
    in_ok_at_spawn: bool,
    /// complete text this process means to report (None: nothing)
    pub plan: Option<Vec<u8>>,
    /// what it leaves instead, if a fault hits it
    out: Vec<u8>,
    pub written: usize,
    out_ino: Option<usize>,
    chunk: usize,
    pub word: Word,
    pub fault: Option<F>,
    pub serial: u64,
    pub complete: bool,
}

fn cnote(s: &mut Sim, k: Option<usize>, f: F) {
    s.fired[f as usize] += 1;
    s.logs(&format!("fault {:?} (solver)", f));
    if let Some(k) = k {
        s.solves[k].faults.push(f);
    }
}

fn cfault(s: &mut Sim, k: Option<usize>, f: F) -> bool {
    let r = s.faults.rate[f as usize];
    if r == 0 || s.faults.budget <= 0 || !s.tape.one_in(r) {
        return false;
    }
    s.faults.budget -= 1;
    cnote(s, k, f);
    true
}

/// The command line, as the real programs read it.
fn parse_args(args: &[String]) -> (Option<String>, Option<String>, Option<i32>, bool, bool) {
    let mut inp = None;
    let mut out = None;
    let mut level = None;
    let mut all = false;
    let mut solve = false;
    let mut i = 1;
    if i < args.len() && !args[i].starts_with('-') {
        inp = Some(args[i].clone());
        i += 1;
    }
    while i < args.len() {
        let t = args[i].trim_start_matches('-').to_string();
        i += 1;
        let arg = args.get(i).cloned();
        match t.as_str() {
            "import" => {
                inp = arg;
                i += 1;
            }
            "log" | "logL" | "logLevel" | "logLev" => {
                level = arg.and_then(|a| a.parse().ok());
                i += 1;
            }
            "printi" | "printingOptions" | "printingOpt" => {
                all = arg.as_deref() == Some("all");
                i += 1;
            }
            "solve" | "initialSolve" | "initialS" | "branch" | "branchAnd" | "primalS" | "dualS" => solve = true,
            "solu" | "solution" => {
                if solve {
                    out = arg;
                }
                i += 1;
            }
            "quit" | "exit" | "stop" | "end" => break,
            "seconds" | "sec" | "threads" | "thread" | "ratioGap" | "ratio" | "allowableGap" | "timeMode" | "maxNodes" | "maxN" | "maxIterations" | "maxIt" | "directory" | "messages" => i += 1,
            _ => (),
        }
    }
    (inp, out, level, all, solve)
}

fn posed_diff(s: &Sim, k: usize, text: &[u8]) -> Option<String> {
    match &s.solves[k].posed {
        None => None,
        Some(q) => match lp::parse(text) {
            Err(e) => Some(format!("it is not a complete LP file: {}", e)),
            Ok(p) => lp::differs(&p, q),
        },
    }
}

pub fn tail(b: &[u8], n: usize) -> String {
    let st = b.len().saturating_sub(n);
    String::from_utf8_lossy(&b[st..]).into_owned()
}

pub fn spawn(s: &mut Sim, prog: &str, args: Vec<String>, dups: Vec<(i32, i32)>, cd: Option<String>) -> i32 {
    let m = me();
    let p = s.callers[m].proc;
    let solve = s.callers[m].solve;
    let k = s.children.len();
    s.next_pid += 1;
    s.serial += 1;
    let cwd = match cd {
        Some(d) => s.resolve(p, &d),
        None => s.procs[p].cwd.clone(),
    };
    let (inp, out, level, all, _) = parse_args(&args);
    let abs = |q: &str| -> String {
        if q.starts_with('/') { norm(q) } else { norm(&format!("{}/{}", cwd, q)) }
    };
    let in_path = inp.as_deref().map(abs);
    let out_path = out.as_deref().map(abs);
    let mut pipes = Vec::new();
    let mut print = Vec::new();
    let mut null_out = false;
    let mut piped_out = false;
    for (a, b) in &dups {
        if let Some(f) = s.procs[p].fds.get(a) {
            match s.fs.nodes[f.ino].kind {
                Kind::PipeW(id) => {
                    pipes.push(id);
                    let much: [usize; 4] = if *b == 1 { [120, 3_000, 70_000, 300_000] } else { [0, 0, 600, 70_000] };
                    print.push((id, *s.tape.pick(&much)));
                    piped_out |= *b == 1;
                }
                Kind::Null if *b == 1 => null_out = true,
                _ => (),
            }
        }
    }
    let ci = in_path.as_deref().map(|q| s.canon(q)).unwrap_or_default();
    let co = out_path.as_deref().map(|q| s.canon(q)).unwrap_or_default();
    if let Some(q) = &out_path {
        // somebody else's file may already bear the name the output is to have
        let mine = q.rfind('/').and_then(|i| s.lookup(&q[..i])).map(|i| matches!(s.fs.nodes[i].owner, Owner::Solve(_))).unwrap_or(false);
        if s.lookup(q).is_none() && s.parent_ok(q) && !mine && s.fault(F::NameTaken) {
            s.put_file(q, format!("somebody's results\n  0 x_0 {} 1\n", q.len()).into_bytes());
            crate::cmd::note_bystander(q);
        }
    }
    s.logs(&format!("c{} spawns s{} {} in={} out={} level={:?}", m, k, prog, ci, co, level));
    let mut ok = true;
    if let Some(v) = solve {
        s.solves[v].children.push(k);
        // the input, as the new process finds it
        let text = in_path.as_deref().and_then(|q| s.lookup(q)).map(|i| s.fs.nodes[i].data.clone());
        let diff = match &text {
            None => Some("it does not exist".to_string()),
            Some(t) => posed_diff(s, v, t),
        };
        if let Some(d) = diff {
            ok = false;
            let fl = s.solves[v].faults.clone();
            let mut props = vec!["C01"];
            props.extend(context_props(s, v));
            s.violate(&props, "input-at-launch", format!("{} was launched on an input file that does not denote the posed problem: {} (faults met so far: {:?}; file ends {:?})", prog, d, fl, text.map(|t| tail(&t, 80))));
        }
        let want = s.solves[v].log_level;
        if let Some(want) = want {
            if level != Some(want) {
                s.violate(&["C17"], "log-level", format!("{} was given log level {:?} while the parameter in force is {}", prog, level, want));
            }
            if prog == "clp" && !piped_out && null_out != (want == 0) {
                s.violate(&["C17"], "output-suppression", format!("clp was started with its output {} while the log level is {}", if null_out { "suppressed" } else { "shown" }, want));
            }
        }
        let exp = s.solves[v].prog.clone();
        if exp != prog {
            s.violate(&["C01"], "wrong-program", format!("the {} solver launched {}", exp, prog));
        }
    }
    let mut c = Child {
        pid: s.next_pid,
        parent: p,
        caller: m,
        solve,
        prog: prog.into(),
        args,
        cwd,
        stage: Stage::Start,
        reaped: false,
        exit: None,
        killed: false,
        ready_at: s.now + 1_000_000,
        pipes,
        print,
        in_path,
        out_path,
        all,
        level,
        null_out,
        in_ino: None,
        in_pos: 0,
        input: Vec::new(),
        in_ok_at_spawn: ok,
        plan: None,
        out: Vec::new(),
        written: 0,
        out_ino: None,
        chunk: 1 << 20,
        word: Word::Neither,
        fault: None,
        serial: s.serial,
        complete: false,
    };
    // at most one thing goes wrong with a solver process
    const FATAL: [F; 13] = [
        F::SolverNoStart,
        F::SolverTorn,
        F::SolverEmpty,
        F::SolverNoReport,
        F::SolverGarbage,
        F::SolverNulTail,
        F::SolverDiskFull,
        F::SolverExitCode,
        F::SolverKilledLate,
        F::SolverReadErr,
        F::SolverStrayIndex,
        F::SolverSplice,
        F::SolverNoStart,
    ];
    let st = s.tape.draw(12) as usize;
    for i in 0..12 {
        let f = FATAL[(st + i) % 12];
        if cfault(s, solve, f) {
            c.fault = Some(f);
            break;
        }
    }
    let pid = c.pid;
    s.children.push(c);
    pid
}

/// Properties concerned when solve `v` gets somebody else's data.
pub fn context_props(s: &Sim, v: usize) -> Vec<&'static str> {
    let mut p = Vec::new();
    if s.solves[v].overlapped {
        p.push("C06");
    }
    if s.solves[v].after_crash {
        p.push("C07");
    }
    p
}

fn kill_self(s: &mut Sim, k: usize, status: i32) {
    let name = format!("s{} ends with {}", k, status);
    s.logs(&name);
    s.children[k].exit = Some(status);
    s.children[k].stage = Stage::End;
}

const PIPE_SIZE: usize = 65_536;

/// Is the process held up by a full pipe that somebody could still empty?
pub fn stuck(s: &Sim, k: usize) -> bool {
    let c = &s.children[k];
    c.stage == Stage::Work && c.print.iter().any(|(id, n)| *n > 0 && s.fs.nodes[*id].data.len() >= PIPE_SIZE && has_reader(s, *id))
}

fn has_reader(s: &Sim, pipe: usize) -> bool {
    s.procs.iter().any(|p| p.fds.values().any(|f| f.ino == pipe))
}

/// Prints what fits. False: not done yet.
fn print(s: &mut Sim, k: usize) -> bool {
    for i in 0..s.children[k].print.len() {
        let (id, n) = s.children[k].print[i];
        if n == 0 {
            continue;
        }
        if !has_reader(s, id) {
            s.probe("solver.sigpipe");
            kill_self(s, k, 13);
            return false;
        }
        let room = PIPE_SIZE - s.fs.nodes[id].data.len().min(PIPE_SIZE);
        let m = n.min(room);
        const LINE: &[u8] = b"Cbc0012I Integer solution found\n";
        s.fs.nodes[id].data.extend((0..m).map(|j| LINE[j % LINE.len()]));
        s.children[k].print[i].1 = n - m;
        s.logs(&format!("s{} prints {} of {}", k, m, n));
        if m < n {
            s.probe("solver.pipe_full");
            return false;
        }
    }
    true
}

pub fn step(s: &mut Sim, k: usize) {
    let v = s.children[k].solve;
    let orphan = s.procs[s.children[k].parent].crashed;
    // pace
    let d = match s.tape.draw(4) {
        0 => 10_000,
        1 => 1_000_000,
        2 => 50_000_000,
        _ => 700_000_000,
    };
    s.children[k].ready_at = s.now + d;
    if cfault(s, v, F::SolverSlow) {
        s.children[k].ready_at = s.now + 1_000_000_000 * *s.tape.pick(&[600u64, 600, 14_400, 200_000]);
    }
    match s.children[k].stage {
        Stage::Start => {
            if s.children[k].fault == Some(F::SolverNoStart) {
                return kill_self(s, k, 9);
            }
            let ino = s.children[k].in_path.clone().and_then(|q| s.lookup(&q));
            s.children[k].in_ino = ino;
            s.logs(&format!("s{} starts, input {}", k, if ino.is_some() { "found" } else { "missing" }));
            s.children[k].stage = Stage::Read;
        }
        Stage::Read => {
            if s.children[k].fault == Some(F::SolverReadErr) {
                return kill_self(s, k, 1 << 8);
            }
            let ino = match s.children[k].in_ino {
                Some(i) => i,
                None => {
                    s.children[k].stage = Stage::Work;
                    finish_read(s, k, orphan);
                    return;
                }
            };
            let pos = s.children[k].in_pos;
            let len = s.fs.nodes[ino].data.len();
            let n = match s.tape.draw(3) {
                0 => len.saturating_sub(pos),
                1 => 4096.min(len.saturating_sub(pos)),
                _ => (len / 3 + 1).min(len.saturating_sub(pos)),
            };
            let part = s.fs.nodes[ino].data[pos.min(len)..(pos + n).min(len)].to_vec();
            s.children[k].input.extend_from_slice(&part);
            s.children[k].in_pos += n;
            if s.children[k].in_pos >= s.fs.nodes[ino].data.len() {
                s.children[k].stage = Stage::Work;
                finish_read(s, k, orphan);
            }
        }
        Stage::Work => {
            if !print(s, k) {
                return;
            }
            if s.children[k].plan.is_none() || s.children[k].out_path.is_none() || s.children[k].fault == Some(F::SolverNoReport) {
                s.children[k].plan = None;
                return kill_self(s, k, 0);
            }
            s.children[k].stage = Stage::OpenOut;
        }
        Stage::OpenOut => {
            let q = s.children[k].out_path.clone().unwrap();
            let c = s.canon(&q);
            s.logs(&format!("s{} opens {}", k, c));
            let ino = match s.lookup(&q) {
                Some(i) => {
                    if s.fs.nodes[i].kind == Kind::File {
                        s.fs.nodes[i].data.clear();
                        s.fs.nodes[i].version += 1;
                        s.fs.nodes[i].mtime = s.mtime_now();
                    }
                    Some(i)
                }
                None if s.parent_ok(&q) => {
                    let i = s.fs.nodes.len();
                    let owner = match v {
                        Some(v) => Owner::Solve(v),
                        None => Owner::Env,
                    };
                    s.fs.nodes.push(Inode { data: vec![], kind: Kind::File, owner, version: 0, mtime: s.mtime_now() });
                    s.fs.paths.insert(q, i);
                    Some(i)
                }
                None => None,
            };
            s.children[k].out_ino = ino;
            if ino.is_none() {
                return kill_self(s, k, 0);
            }
            s.children[k].chunk = match s.tape.draw(4) {
                0 => 1 << 20,
                1 => 4096,
                2 => 64,
                _ => 1 + s.tape.draw(200) as usize,
            };
            if s.children[k].out.len() > 20_000 {
                s.children[k].chunk = s.children[k].chunk.max(4096);
            }
            s.children[k].stage = Stage::Write;
        }
        Stage::Write => {
            let ino = s.children[k].out_ino.unwrap();
            let (w, n) = (s.children[k].written, s.children[k].out.len());
            let e = (w + s.children[k].chunk).min(n);
            if s.fs.nodes[ino].kind == Kind::File {
                let part = s.children[k].out[w..e].to_vec();
                let d = &mut s.fs.nodes[ino].data;
                if d.len() < w {
                    d.resize(w, 0);
                }
                // this process writes at its own offset
                let over = (d.len() - w).min(part.len());
                d[w..w + over].copy_from_slice(&part[..over]);
                d.extend_from_slice(&part[over..]);
                s.fs.nodes[ino].version += 1;
                s.fs.nodes[ino].mtime = s.mtime_now();
            }
            s.children[k].written = e;
            s.logs(&format!("s{} writes {}..{}", k, w, e));
            if e == n {
                let f = s.children[k].fault;
                s.children[k].complete = !matches!(f, Some(F::SolverTorn | F::SolverDiskFull | F::SolverEmpty | F::SolverGarbage | F::SolverNulTail | F::SolverSplice));
                let st = match f {
                    Some(F::SolverTorn) | Some(F::SolverKilledLate) => 9,
                    Some(F::SolverExitCode) => 1 << 8,
                    _ => 0,
                };
                kill_self(s, k, st);
            }
        }
        Stage::End => (),
    }
}

fn finish_read(s: &mut Sim, k: usize, orphan: bool) {
    let v = s.children[k].solve;
    let text = std::mem::take(&mut s.children[k].input);
    if let Some(v) = v {
        if s.children[k].in_ok_at_spawn && !orphan {
            if let Some(d) = posed_diff(s, v, &text) {
                let mut props = vec!["C01"];
                props.extend(context_props(s, v));
                s.violate(&props, "input-at-read", format!("the input file changed between launch and reading: {}", d));
            }
        }
    }
    match lp::parse(&text) {
        Err(e) => s.logs(&format!("s{} cannot read its input: {}", k, e)),
        Ok(p) => {
            s.probe("solver.read");
            if p.rows.is_empty() && p.obj.values().all(|v| *v == 0.) {
                // the real programs die of a floating-point exception here
                s.logs(&format!("s{} dies: empty problem", k));
                s.probe("solver.empty_problem");
                cnote(s, v, F::SolverNoReport);
                s.children[k].exit = Some(8);
                s.children[k].stage = Stage::End;
                return;
            }
            report(s, k, &p);
        }
    }
}

fn num(r: &mut u64, v: f64) -> String {
    match splitmix(r) % 8 {
        0 => {
            // C's %e
            let t = format!("{:e}", v);
            let (m, e) = t.split_once('e').unwrap();
            let e: i32 = e.parse().unwrap();
            format!("{}e{}{:02}", m, if e < 0 { '-' } else { '+' }, e.abs())
        }
        1 => format!("{:.8}", v),
        _ => format!("{}", v),
    }
}

fn report(s: &mut Sim, k: usize, p: &Parsed) {
    let mut r = s.tape.u32() as u64 ^ 0x5eed_0000_0000;
    let cbc = s.children[k].prog == "cbc";
    let ints = !p.ints.is_empty();
    let verdicts: &[(&str, &str, Word)] = if cbc {
        &[
            ("Optimal", "", Word::Solved),
            ("Optimal", "", Word::Solved),
            ("Optimal", "", Word::Solved),
            ("Optimal (within gap tolerance)", "", Word::Solved),
            ("Infeasible", "", Word::Infeasible),
            ("Unbounded", "", Word::Neither),
            ("Stopped on time", "", Word::Neither),
            ("Stopped on iterations", "", Word::Neither),
            ("Stopped on nodes", "", Word::Neither),
            ("Stopped on gap", "", Word::Neither),
            ("Stopped on solutions", "", Word::Neither),
            ("Stopped on difficulties", "", Word::Neither),
            ("Stopped on user ctrl-c", "", Word::Neither),
            ("Stopped on time (no integer solution - continuous used)", "", Word::Neither),
            ("Stopped on gap (no integer solution - continuous used)", "", Word::Neither),
            ("Linear relaxation unbounded", "", Word::Neither),
            ("Status unknown", "", Word::Neither),
            ("Integer infeasible", "", Word::Infeasible),
        ]
    } else {
        &[
            ("Optimal", "optimal", Word::Solved),
            ("Optimal", "optimal", Word::Solved),
            ("Optimal", "optimal", Word::Solved),
            ("Optimal", "optimal", Word::Solved),
            ("Infeasible", "infeasible", Word::Infeasible),
            ("Unbounded", "unbounded", Word::Neither),
            ("Stopped on iterations or time", "stopped on iterations or time", Word::Neither),
            ("Stopped on difficulties", "stopped on difficulties", Word::Neither),
            ("Stopped on user ctrl-c", "stopped by event handler", Word::Neither),
            ("Status unknown", "status unknown", Word::Neither),
        ]
    };
    let n = if cbc && !ints { verdicts.len() - 1 } else { verdicts.len() };
    let (w1, w2, word) = verdicts[if s.tape.one_in(4) { s.tape.draw(n as u32) as usize } else { 0 }];
    let old = !cbc && s.tape.one_in(2);
    let mut out = String::new();
    let obj = (splitmix(&mut r) % 100_000) as f64 / 8. - 5000.;
    let obj = num(&mut r, obj);
    if old {
        out.push_str(&format!("{}\nObjective value {:>15}\n", w2, obj));
    } else {
        out.push_str(&format!("{} - objective value {:>15}\n", w1, obj));
    }
    // one unique number per process, item and kind
    let base = (s.children[k].serial % 900 + 1) as f64 * 4096.;
    let mut val = |r: &mut u64, idx: usize, kind: usize| -> String {
        let mut v = (base + (idx * 4 + kind) as f64) / 8.;
        match splitmix(r) % 14 {
            0..=2 => v = -v,
            3 => v *= 1e-9,
            4 => v *= 1e7,
            5 => v = -v * 1e-5,
            6 if kind != 0 => v = 0.,
            7 => v = v / 3.,
            8 => {
                // any size at all
                let e = (splitmix(r) % 50) as i32 - 28;
                v = (1. + v / 4096.) * 10f64.powi(e);
                if splitmix(r) % 2 == 0 {
                    v = -v;
                }
            }
            9 if kind != 0 && splitmix(r) % 3 == 0 => return "-0".to_string(),
            _ => (),
        }
        num(r, v)
    };
    let small = s.tape.one_in(6);
    let mut lines: Vec<(bool, String)> = Vec::new();
    let star = s.tape.one_in(3);
    let hide = !s.children[k].all;
    for (i, (name, _, _, _)) in p.rows.iter().enumerate() {
        let (a, b) = (val(&mut r, i, 1), val(&mut r, i, 2));
        lines.push((true, format!("{:>7} {:<15} {:>15} {:>23}", i, name, a, b)));
    }
    for (i, name) in p.cols.iter().enumerate() {
        let (mut a, mut b) = (val(&mut r, i + p.rows.len(), 0), val(&mut r, i + p.rows.len(), 3));
        if small {
            a = format!("{}", (splitmix(&mut r) % 5) as f64 - 2.);
            b = format!("{}", (splitmix(&mut r) % 3) as f64 - 1.);
        }
        if hide && (i + 1) % 2 == 0 {
            continue;
        }
        lines.push((false, format!("{:>7} {:<15} {:>15} {:>23}", i, name, a, b)));
    }
    if hide {
        lines.retain(|l| !l.0);
    }
    if s.tape.one_in(5) {
        // any order of lines
        for i in (1..lines.len()).rev() {
            let j = (splitmix(&mut r) % (i as u64 + 1)) as usize;
            lines.swap(i, j);
        }
    }
    for (_, l) in &lines {
        if star && splitmix(&mut r) % 4 == 0 {
            out.push_str("**");
            s.probe("report.starred");
        }
        out.push_str(l);
        out.push('\n');
    }
    match (cbc, old) {
        (true, _) => s.probe("report.cbc"),
        (false, true) => s.probe("report.clp_old"),
        (false, false) => s.probe("report.clp_new"),
    }
    match word {
        Word::Solved => s.probe("verdict.optimal"),
        Word::Infeasible => s.probe("verdict.infeasible"),
        Word::Neither => s.probe("verdict.other"),
    }
    let plan = out.into_bytes();
    s.children[k].word = word;
    let text = match s.children[k].fault {
        Some(F::SolverEmpty) => Vec::new(),
        Some(F::SolverTorn) | Some(F::SolverDiskFull) => {
            let n = cut(s, &plan);
            plan[..n].to_vec()
        }
        Some(F::SolverNulTail) => {
            let n = cut(s, &plan);
            let mut t = plan[..n].to_vec();
            let z = if s.tape.one_in(2) { plan.len() } else { n + 1 + s.tape.draw(600) as usize };
            t.resize(z.max(n), 0);
            t
        }
        Some(F::SolverSplice) if lines.len() > 1 && s.tape.one_in(3) => {
            // a line overwritten with a copy of another one
            let head = if old { 2 } else { 1 };
            let mut all: Vec<&[u8]> = plan.split_inclusive(|b| *b == b'\n').collect();
            let i = s.tape.draw(lines.len() as u32) as usize;
            let j = (i + 1 + s.tape.draw(lines.len() as u32 - 1) as usize) % lines.len();
            all[head + i] = all[head + j];
            all.concat()
        }
        Some(F::SolverSplice) => {
            // a lost stretch that takes at least one line end with it
            let nl: Vec<usize> = (0..plan.len()).filter(|i| plan[*i] == b'\n').collect();
            let m = nl[s.tape.draw(nl.len() as u32) as usize];
            let a = m - s.tape.draw(60.min(m as u32 + 1)) as usize;
            let b = (m + 1 + s.tape.draw(120) as usize).min(plan.len());
            let mut t = plan[..a].to_vec();
            t.extend_from_slice(&plan[b..]);
            t
        }
        Some(F::SolverStrayIndex) => {
            let mut t = plan.clone();
            let nx = p.cols.len();
            let idx = match s.tape.draw(5) {
                0 => nx.to_string(),
                1 => (p.rows.len()).to_string(),
                2 => (nx + 1000).to_string(),
                3 => u64::MAX.to_string(),
                _ => "99999999999999999999999".to_string(),
            };
            // only indices that are out of range for both kinds of line
            let idx = if idx.parse::<usize>().map(|v| v < nx.max(p.rows.len())).unwrap_or(false) { nx.max(p.rows.len()).to_string() } else { idx };
            let line = format!("      9 {}_{}    1.5   2.5\n", if s.tape.one_in(2) { "c" } else { "x" }, idx);
            if s.tape.one_in(2) {
                t.extend_from_slice(line.as_bytes());
            } else {
                let first = t.iter().position(|b| *b == b'\n').unwrap() + 1;
                let second = if old { first + t[first..].iter().position(|b| *b == b'\n').unwrap() + 1 } else { first };
                let rest = t.split_off(second);
                t.extend_from_slice(line.as_bytes());
                t.extend_from_slice(&rest);
            }
            t
        }
        Some(F::SolverGarbage) => garbage(s, &plan, &mut r),
        _ => plan.clone(),
    };
    let keep = !matches!(s.children[k].fault, Some(F::SolverGarbage) | Some(F::SolverStrayIndex));
    s.children[k].plan = Some(if keep { plan } else { text.clone() });
    s.children[k].out = text;
}

/// Where a torn report ends: anywhere, with a liking for the ends of lines and numbers.
fn cut(s: &mut Sim, plan: &[u8]) -> usize {
    match s.tape.draw(4) {
        0 => s.tape.draw(plan.len() as u32) as usize,
        1 => {
            let nl: Vec<usize> = (0..plan.len()).filter(|i| plan[*i] == b'\n').collect();
            let m = nl[s.tape.draw(nl.len() as u32) as usize];
            if m + 1 == plan.len() { m } else { m + s.tape.draw(2) as usize }
        }
        2 => plan.len() - 1 - s.tape.draw(30.min(plan.len() as u32 - 1)) as usize,
        _ => {
            // between the digits of a number
            let dg: Vec<usize> = (1..plan.len()).filter(|i| plan[*i].is_ascii_digit() && plan[*i - 1].is_ascii_digit()).collect();
            if dg.is_empty() { plan.len() / 2 } else { dg[s.tape.draw(dg.len() as u32) as usize] }
        }
    }
}

fn garbage(s: &mut Sim, plan: &[u8], r: &mut u64) -> Vec<u8> {
    let style = s.tape.draw(9);
    let head: Vec<u8> = {
        let e = plan.iter().position(|b| *b == b'\n').unwrap() + 1;
        plan[..e].to_vec()
    };
    match style {
        0 => {
            let n = s.tape.draw(400) as usize;
            (0..n).map(|_| splitmix(r) as u8).collect()
        }
        1 => {
            let mut t = head;
            let n = s.tape.draw(300) as usize;
            t.extend((0..n).map(|_| splitmix(r) as u8));
            t
        }
        2 => {
            // a report with one damaged line
            let lines: Vec<&[u8]> = plan.split_inclusive(|b| *b == b'\n').collect();
            let bad = s.tape.draw(lines.len() as u32) as usize;
            let subs: [&[u8]; 14] = [
                b"\n",
                b"x\n",
                b"0 x 1 2\n",
                b"0 x_ 1 2\n",
                b"0 x_-1 1 2\n",
                b"0 x_0\n",
                b"0 x_0 1\n",
                b"0 _0 1 2\n",
                b"0 y_0 1 2\n",
                b"0 x_0 abc 2\n",
                b"0 x_0 1 --2\n",
                b"0 c_1e9 1 2\n",
                b"** ** ** **\n",
                b"\xff\xfe 0 x_0 \x80 1\n",
            ];
            let mut t = Vec::new();
            for (i, l) in lines.iter().enumerate() {
                if i == bad {
                    t.extend_from_slice(s.tape.pick(&subs));
                    if s.tape.one_in(2) {
                        t.extend_from_slice(l);
                    }
                } else {
                    t.extend_from_slice(l);
                }
            }
            t
        }
        3 => {
            // one flipped byte
            let mut t = head.clone();
            t.extend_from_slice(b"      0 x_0 \x00 1 1\n");
            t
        }
        4 => b"\xef\xbb\xbfOptimal - objective value 1\n".iter().chain(plan.iter()).copied().collect(),
        5 => {
            let mut t = head;
            t.extend(std::iter::repeat(b'7').take(70_000));
            t
        }
        6 => b"Cbc0038I Something else\n".iter().chain(plan.iter()).copied().collect(),
        7 => {
            let mut t = plan.to_vec();
            t.extend_from_slice(b"\n\n");
            t
        }
        _ => {
            let mut t = head;
            t.extend_from_slice(b"      0 x_0 nan nan\n      0 c_0 inf -inf\n");
            t
        }
    }
}

/// Everything a report says, read as generously as possible.
pub struct Said {
    pub optimal: bool,
    pub infeasible: bool,
    pub x: BTreeMap<usize, Vec<(f64, f64)>>,
    pub c: BTreeMap<usize, Vec<(f64, f64)>>,
}

pub fn said(plan: &[u8]) -> Said {
    let text = String::from_utf8_lossy(plan);
    let first = text.lines().next().unwrap_or("").trim_start_matches('\u{feff}').to_ascii_lowercase();
    let mut w = first.split_ascii_whitespace();
    let (a, b) = (w.next().unwrap_or(""), w.next().unwrap_or(""));
    let mut s = Said { optimal: a == "optimal", infeasible: a == "infeasible" || (a == "integer" && b == "infeasible") || (a == "linear" && first.contains("infeasible")), x: BTreeMap::new(), c: BTreeMap::new() };
    for l in text.lines().skip(1) {
        let t: Vec<&str> = l.split_ascii_whitespace().collect();
        for i in 0..t.len() {
            let mut it = t[i].split('_');
            let kind = it.next().unwrap_or("");
            if !kind.ends_with('x') && !kind.ends_with('c') || i + 2 >= t.len() {
                continue;
            }
            let idx = match it.next().and_then(|d| d.parse::<usize>().ok()) {
                Some(d) => d,
                None => continue,
            };
            if let (Ok(v), Ok(m)) = (t[i + 1].parse::<f64>(), t[i + 2].parse::<f64>()) {
                if kind.ends_with('x') {
                    s.x.entry(idx).or_default().push((v, m));
                } else {
                    s.c.entry(idx).or_default().push((v, m));
                }
            }
        }
    }
    s
}
