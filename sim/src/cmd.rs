//! World A: command-line solves by threads of one or several simulated processes, with faults,
//! crashes and restarts; oracles for C01-C08, C17 and C18.

use crate::child::{said, Word};
use crate::lp::{close, Lp};
use crate::sim::*;
use crate::tape::Tape;
use numopt::matrix::coo::CooMat;
use numopt::problem::base::{Problem, ProblemSol};
use numopt::problem::lp::ProblemLp;
use numopt::problem::milp::ProblemMilp;
use numopt::problem::minlp::ProblemMinlp;
use numopt::problem::nlp::ProblemNlp;
use numopt::solver::base::{Solver, SolverParam, SolverStatus};
use numopt::solver::cbc_cmd::SolverCbcCmd;
use numopt::solver::clp_cmd::SolverClpCmd;
use numopt::solver::ipopt::SolverIpopt;
use std::collections::BTreeMap;

// ---------------------------------------------------------------- other people's files

pub fn note_bystander(path: &str) {
    let s = sim();
    if let Some(i) = s.lookup(path) {
        let d = s.fs.nodes[i].data.clone();
        s.bystanders.push((path.to_string(), i, d));
    }
}

/// A name is about to be taken away from an inode.
pub fn on_remove(path: &str, ino: usize) {
    let s = sim();
    let me_solve = s.callers[me()].solve;
    if s.bystanders.iter().any(|b| b.0 == path && b.1 == ino) {
        s.violate(&["C05"], "bystander-removed", format!("a file that does not belong to the solve was removed: {}", path));
        s.bystanders.retain(|b| b.0 != path);
        return;
    }
    if let Owner::Solve(k) = s.fs.nodes[ino].owner {
        let p = s.solves[k].proc;
        if Some(k) != me_solve && s.solves[k].active && !s.procs[p].crashed {
            s.violate(&["C05", "C06"], "foreign-removed", format!("a file of another running solve was removed: {}", path));
        }
    }
}

pub fn check_bystanders(when: &str) {
    let s = sim();
    let mut bad = Vec::new();
    for (p, i, d) in &s.bystanders {
        if s.fs.paths.get(p) != Some(i) {
            bad.push((p.clone(), "replaced or removed"));
        } else if s.fs.nodes[*i].data != *d {
            bad.push((p.clone(), "modified"));
        }
    }
    for (p, w) in bad {
        s.bystanders.retain(|b| b.0 != p);
        let mut props = vec!["C05"];
        if s.any_crash {
            props.push("C07");
        }
        s.violate(&props, "bystander", format!("a file that belongs to nobody in the simulation was {} ({}): {}", w, when, p));
    }
}

// ---------------------------------------------------------------- problems

#[derive(Clone)]
pub struct Raw {
    pub lp: Lp,
    pub trip: Vec<(usize, usize, f64)>,
    pub x0: Option<Vec<f64>>,
}

pub fn number(t: &mut Tape) -> f64 {
    let v = match t.draw(24) {
        0 => 1.,
        1 => 2.5,
        2 => 3.,
        3 => 0.5,
        4 => 1e-10,
        5 => 1e10,
        6 => 123456.78901234567,
        7 => 0.1,
        8 => 1. / 3.,
        9 => 1.0000000001,
        10 => 0.99999999999,
        11 => 1e-300,
        12 => 5e7,
        13 => 98765.4321,
        14 => 1.,
        15 => t.draw(1000) as f64 / 8.,
        16 => {
            // next to a number a program might single out
            let at = *t.pick(&[1., 1., 2., 10., 100., 1e8, 1e10, 1e20, 1e30]);
            let d = 10f64.powi(-(t.range(2, 15) as i32));
            if t.one_in(2) { at * (1. + d) } else { at * (1. - d) }
        }
        17 => 10f64.powi(t.range(0, 60) as i32 - 30),
        18 => {
            let m = 1. + t.u32() as f64 / 4294967296.;
            m * 10f64.powi(t.range(0, 60) as i32 - 30)
        }
        19 => t.draw(1_000_000) as f64 + 0.5,
        20 => t.range(1, 30) as f64,
        _ => {
            let m = 1. + t.u32() as f64 / 4294967296.;
            m * 10f64.powi(t.range(0, 16) as i32 - 8)
        }
    };
    if t.one_in(2) { -v } else { v }
}

pub fn gen_raw(t: &mut Tape, ints: bool) -> Raw {
    let big = t.one_in(if sim().want_big { 2 } else { 12 });
    let huge = big && t.one_in(16);
    let nx = if huge { 1200 + t.draw(2000) as usize } else if big { 40 + t.draw(360) as usize } else { 1 + t.draw(6) as usize };
    let na = if huge { t.draw(900) as usize } else if big { 20 + t.draw(200) as usize } else { t.draw(6) as usize };
    if huge {
        sim().probe("huge_problem");
    }
    let mut lp = Lp::default();
    for _ in 0..nx {
        let z = t.one_in(4);
        lp.c.push(if z { 0. } else { number(t) });
    }
    if na == 0 && lp.c.iter().all(|v| *v == 0.) && !t.one_in(20) {
        lp.c[0] = 1.;
    }
    let mut trip: Vec<(usize, usize, f64)> = Vec::new();
    lp.rows = vec![BTreeMap::new(); na];
    for i in 0..na {
        let n = if big { t.draw(4) } else { t.draw(nx as u32 + 1) } as usize;
        for _ in 0..n {
            let j = t.draw(nx as u32) as usize;
            if lp.rows[i].contains_key(&j) {
                // a repeated entry: exactly representable parts, so that their sum is exact
                let old = lp.rows[i][&j];
                if trip.iter().any(|e| e.0 == i && e.1 == j && (e.2 * 4. != (e.2 * 4.).trunc() || e.2.abs() > 1e6)) {
                    continue;
                }
                let add = if t.one_in(3) && trip.iter().filter(|e: &&(usize, usize, f64)| e.0 == i && e.1 == j).count() == 1 { -old } else { (t.draw(64) as f64 - 32.) / 4. };
                let sum = old + add;
                if sum - old != add || sum - add != old {
                    continue;
                }
                trip.push((i, j, add));
                lp.rows[i].insert(j, sum);
            } else {
                let v = if t.one_in(8) { 0. } else if t.one_in(2) { (t.draw(64) as f64 - 32.) / 4. } else { number(t) };
                trip.push((i, j, v));
                lp.rows[i].insert(j, v);
            }
        }
        let z = t.one_in(3);
        lp.b.push(if z { 0. } else { number(t) });
    }
    // triplets in any order
    if t.one_in(2) {
        for i in (1..trip.len()).rev() {
            let j = t.draw(i as u32 + 1) as usize;
            // order among repeated entries does not matter: their sums are exact
            trip.swap(i, j);
        }
    }
    for j in 0..nx {
        let _ = j;
        let (l, u) = match t.draw(9) {
            0 => (0., 1e8),
            1 => (-1e8, 1e8),
            2 => (f64::NEG_INFINITY, f64::INFINITY),
            3 => (0., f64::INFINITY),
            4 => {
                let v = number(t);
                (v, v)
            }
            5 => (f64::NEG_INFINITY, number(t)),
            6 => (number(t), f64::INFINITY),
            7 => (-1e20, 1e20),
            _ => {
                let (a, b) = (number(t), number(t));
                (a.min(b), a.max(b))
            }
        };
        lp.l.push(l);
        lp.u.push(u);
        lp.int.push(ints && t.one_in(2));
    }
    let x0 = if t.one_in(2) { Some((0..nx).map(|_| number(t)).collect()) } else { None };
    Raw { lp, trip, x0 }
}

pub fn coo(shape: (usize, usize), trip: &[(usize, usize, f64)]) -> CooMat<f64> {
    CooMat::new(shape, trip.iter().map(|e| e.0).collect(), trip.iter().map(|e| e.1).collect(), trip.iter().map(|e| e.2).collect())
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum PKind {
    Lp,
    Milp,
    Nlp,
    Minlp,
}

pub fn build(kind: PKind, r: &Raw) -> Problem {
    let q = &r.lp;
    let (nx, na) = (q.c.len(), q.b.len());
    let a = coo((na, nx), &r.trip);
    let (c, b, l, u, p, x0) = (q.c.clone(), q.b.clone(), q.l.clone(), q.u.clone(), q.int.clone(), r.x0.clone());
    let cc = c.clone();
    let ev = Box::new(move |phi: &mut f64, gphi: &mut Vec<f64>, _: &mut CooMat<f64>, _: &mut Vec<f64>, _: &mut CooMat<f64>, _: &mut Vec<CooMat<f64>>, x: &[f64]| {
        *phi = cc.iter().zip(x).map(|(a, b)| a * b).sum();
        gphi.copy_from_slice(&cc);
    });
    let h0 = || CooMat::from_nnz((nx, nx), 0);
    let j0 = || CooMat::from_nnz((0, nx), 0);
    match kind {
        PKind::Lp => Problem::Lp(ProblemLp::new(c, a, b, l, u, x0)),
        PKind::Milp => Problem::Milp(ProblemMilp::new(c, a, b, l, u, p, x0)),
        PKind::Nlp => Problem::Nlp(ProblemNlp::new(h0(), a, b, j0(), vec![], l, u, x0, ev)),
        PKind::Minlp => Problem::Minlp(ProblemMinlp::new(h0(), a, b, j0(), vec![], l, u, p, x0, ev)),
    }
}

/// Is the problem object still what was posed?
fn same_problem(p: &mut Problem, r: &Raw) -> Result<(), String> {
    let q = &r.lp;
    let base: &mut ProblemMinlp = match p {
        Problem::Lp(x) => {
            if x.c() != &q.c[..] {
                return Err("objective".into());
            }
            x.as_mut_minlp()
        }
        Problem::Milp(x) => {
            if x.c() != &q.c[..] {
                return Err("objective".into());
            }
            x.as_mut_minlp()
        }
        Problem::Nlp(x) => x.as_mut_minlp(),
        Problem::Minlp(x) => x,
    };
    if base.b() != &q.b[..] {
        return Err("right-hand side".into());
    }
    if base.l() != &q.l[..] || base.u() != &q.u[..] {
        return Err("bounds".into());
    }
    if base.x0() != r.x0.as_deref() {
        return Err("start".into());
    }
    let m = base.a();
    if m.rows() != q.b.len() || m.cols() != q.c.len() {
        return Err("matrix shape".into());
    }
    let mut g: Vec<(usize, usize, f64)> = m.iter().map(|(a, b, v)| (*a, *b, *v)).collect();
    let mut w = r.trip.clone();
    g.sort_by(|a, b| a.partial_cmp(b).unwrap());
    w.sort_by(|a, b| a.partial_cmp(b).unwrap());
    if g != w {
        return Err("matrix entries".into());
    }
    Ok(())
}

// ---------------------------------------------------------------- parameters

#[derive(Clone, PartialEq, Debug)]
pub enum PV {
    I(i32),
    F(f64),
    S(String),
}
impl PV {
    fn of(p: &SolverParam) -> PV {
        match p {
            SolverParam::IntParam(i) => PV::I(*i),
            SolverParam::FloatParam(f) => PV::F(*f),
            SolverParam::StrParam(s) => PV::S(s.clone()),
        }
    }
    fn to(&self) -> SolverParam {
        match self {
            PV::I(i) => SolverParam::IntParam(*i),
            PV::F(f) => SolverParam::FloatParam(*f),
            PV::S(s) => SolverParam::StrParam(s.clone()),
        }
    }
    fn kind(&self) -> u8 {
        match self {
            PV::I(_) => 0,
            PV::F(_) => 1,
            PV::S(_) => 2,
        }
    }
}
pub type Params = BTreeMap<String, PV>;

pub fn params_of(s: &dyn Solver) -> Params {
    s.get_params().iter().map(|(k, v)| (k.clone(), PV::of(v))).collect()
}

pub fn draw_value(t: &mut Tape) -> PV {
    match t.draw(5) {
        0 => PV::I(*t.pick(&[0, 1, 2, 3, 5, 7, 12])),
        1 => PV::I(*t.pick(&[-1, 99, i32::MAX, i32::MIN, 10, -2])),
        2 => PV::F(*t.pick(&[0., 1., 2.5, -3.])),
        3 => PV::S(t.pick(&["yes", "no", "", "12", "a b"]).to_string()),
        _ => PV::I(t.draw(6) as i32),
    }
}

/// One setting attempt, checked against the model.
pub fn param_step(sol: &mut dyn Solver, model: &mut Params) {
    let t = &mut sim().tape;
    let known: Vec<String> = model.keys().cloned().collect();
    let name = if t.one_in(3) {
        t.pick(&["logLevel", "print_level", "sb", "nope", "", "loglevel", "logLevel ", "seconds", "tol"]).to_string()
    } else {
        known[t.draw(known.len() as u32) as usize].clone()
    };
    let mut v = draw_value(t);
    if let Some(m) = model.get(&name) {
        if t.one_in(2) {
            while v.kind() != m.kind() {
                v = match m {
                    PV::I(_) => PV::I(t.draw(9) as i32),
                    PV::F(_) => PV::F(t.draw(9) as f64),
                    PV::S(_) => PV::S(t.pick(&["yes", "no", "maybe", "x"]).to_string()),
                };
            }
        }
    }
    let want = model.get(&name).map(|m| m.kind() == v.kind()).unwrap_or(false);
    let s = sim();
    s.logs(&format!("set {:?} {:?}", name, v));
    s.probe(if want { "param.accepted" } else { "param.refused" });
    let (n2, v2) = (name.clone(), v.to());
    match sut(|| sol.set_param(&n2, v2)) {
        Caught::Panic(m) => s.violate(&["C17"], "set-panic", format!("setting {:?} to {:?} panicked: {}", name, v, m)),
        Caught::Ok(r) => {
            if r.is_ok() != want {
                s.violate(&["C17"], "set-verdict", format!("setting {:?} to {:?} was {}", name, v, if r.is_ok() { "accepted" } else { "refused" }));
            }
        }
    }
    if want {
        model.insert(name.clone(), v.clone());
    }
    check_params(sol, model, &format!("after setting {:?} to {:?}", name, v));
}

pub fn check_params(sol: &dyn Solver, model: &Params, when: &str) {
    let s = sim();
    let got = params_of(sol);
    if &got != model {
        s.violate(&["C17"], "params", format!("parameters are {:?} instead of {:?} {}", got, model, when));
    }
    for (k, v) in model {
        if sol.get_param(k).map(PV::of).as_ref() != Some(v) && got.get(k) == Some(v) {
            s.violate(&["C17"], "get", format!("get_param({:?}) disagrees with the parameter table {}", k, when));
        }
    }
    if sol.get_param("nope").is_some() && !model.contains_key("nope") {
        s.violate(&["C17"], "get", "get_param of an unknown name returned something".into());
    }
}

// ---------------------------------------------------------------- one solve

pub enum Any {
    Cbc(SolverCbcCmd),
    Clp(SolverClpCmd),
    Ipopt(SolverIpopt),
}
impl Any {
    pub fn make(i: u32) -> Any {
        match i {
            0 => Any::Cbc(SolverCbcCmd::new()),
            1 => Any::Clp(SolverClpCmd::new()),
            _ => Any::Ipopt(SolverIpopt::new()),
        }
    }
    pub fn dy(&self) -> &dyn Solver {
        match self {
            Any::Cbc(s) => s,
            Any::Clp(s) => s,
            Any::Ipopt(s) => s,
        }
    }
    pub fn dym(&mut self) -> &mut dyn Solver {
        match self {
            Any::Cbc(s) => s,
            Any::Clp(s) => s,
            Any::Ipopt(s) => s,
        }
    }
    pub fn prog(&self) -> &'static str {
        match self {
            Any::Cbc(_) => "cbc",
            Any::Clp(_) => "clp",
            Any::Ipopt(_) => "ipopt",
        }
    }
    pub fn supports(&self, k: PKind) -> bool {
        match self {
            Any::Cbc(_) => matches!(k, PKind::Lp | PKind::Milp),
            Any::Clp(_) => k == PKind::Lp,
            Any::Ipopt(_) => matches!(k, PKind::Lp | PKind::Nlp),
        }
    }
}

pub fn begin_solve(posed: Option<Lp>, prog: &str, level: Option<i32>) -> usize {
    let s = sim();
    let m = me();
    let p = s.callers[m].proc;
    let k = s.solves.len();
    let mut rec = SolveRec { caller: m, proc: p, prog: prog.into(), posed, log_level: level, active: true, after_crash: s.any_crash, ..Default::default() };
    for j in 0..s.solves.len() {
        if s.solves[j].active && !s.procs[s.solves[j].proc].crashed {
            s.solves[j].overlapped = true;
            rec.overlapped = true;
        }
    }
    if s.children.iter().any(|c| c.exit.is_none() && s.procs[c.parent].crashed) {
        s.probe("solve.beside_orphan");
    }
    if rec.overlapped {
        s.probe("solve.overlapped");
    }
    if rec.after_crash {
        s.probe("solve.after_crash");
    }
    s.solves.push(rec);
    s.callers[m].solve = Some(k);
    s.logs(&format!("c{} solve {} begins ({})", m, k, prog));
    k
}

pub fn end_solve(k: usize) {
    let s = sim();
    let m = me();
    s.callers[m].solve = None;
    s.solves[k].active = false;
    s.solves[k].returned = true;
}

fn eq(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}

/// Solved values against what one process said. None: all were said by it.
fn unsaid(plan: &[u8], sol: &ProblemSol, q: &Lp) -> Option<String> {
    let sd = said(plan);
    if !sd.optimal {
        return Some("the process did not report an optimal outcome".into());
    }
    for j in 0..q.c.len() {
        let v = sd.x.get(&j);
        let ok = v.map(|v| v.iter().any(|(a, m)| eq(sol.x[j], *a) && eq(sol.pi[j], if *m > 0. { *m } else { 0. }) && eq(sol.mu[j], if *m > 0. { 0. } else { -*m }))).unwrap_or(false);
        if !ok {
            return Some(format!("x_{} came back as (value {}, lower multiplier {}, upper multiplier {}) but the process reported (value, reduced cost) {:?}", j, sol.x[j], sol.pi[j], sol.mu[j], v.cloned().unwrap_or_default()));
        }
    }
    for i in 0..q.b.len() {
        let v = sd.c.get(&i);
        let ok = v.map(|v| v.iter().any(|(_, m)| eq(sol.lam[i], *m))).unwrap_or(false);
        if !ok {
            return Some(format!("the multiplier of row {} came back as {} but the process reported (activity, multiplier) {:?}", i, sol.lam[i], v.cloned().unwrap_or_default()));
        }
    }
    None
}

fn with(mut a: Vec<&'static str>, b: Vec<&'static str>) -> Vec<&'static str> {
    for x in b {
        if !a.contains(&x) {
            a.push(x);
        }
    }
    a
}

/// All verdicts on one finished command-line solve.
fn judge(k: usize, q: &Lp, r: &Caught<Result<(SolverStatus, ProblemSol), simple_error_str::E>>, supported: bool, param_fault: bool) {
    let s = sim();
    let rec = s.solves[k].clone();
    let permanent = rec.faults.iter().any(|f| !f.transient());
    let ctx = crate::child::context_props(s, k);
    let kids: Vec<usize> = rec.children.clone();
    let desc = format!("{} solve {} ({} variables, {} rows; faults {:?})", rec.prog, k, q.c.len(), q.b.len(), rec.faults);
    match r {
        Caught::Panic(m) => {
            let mut p = vec!["C04"];
            if !supported {
                p = vec!["C18", "C04"];
            }
            s.violate(&with(p, ctx.clone()), "panic", format!("{} panicked: {}", desc, m));
            s.logs("result panic");
        }
        Caught::Ok(Err(e)) => {
            s.logs(&format!("result error {}", e.0));
            s.probe("result.err");
            if supported && !param_fault && !permanent {
                let mut p = with(vec!["C03"], ctx.clone());
                if rec.effects == 0 {
                    p.push("C18");
                }
                s.violate(&p, "spurious-error", format!("{} returned an error though nothing failed: {}", desc, e.0));
            }
        }
        Caught::Ok(Ok((st, sol))) => {
            s.logs(&format!("result {:?}", st));
            if !supported {
                s.violate(&["C18"], "not-refused", format!("{}: a problem kind that is not supported was accepted", desc));
                return;
            }
            if kids.is_empty() && rec.faults.iter().any(|f| matches!(f, F::WriteErr)) {
                s.violate(&["C01"], "no-error-after-write-failure", format!("{} could not write its input but returned no error", desc));
            }
            let (nx, na) = (q.c.len(), q.b.len());
            if sol.x.len() != nx || sol.pi.len() != nx || sol.mu.len() != nx || sol.lam.len() != na || !sol.nu.is_empty() {
                s.violate(&with(vec!["C03", "C04"], ctx.clone()), "dimensions", format!("{} returned vectors of the wrong size", desc));
                return;
            }
            match st {
                SolverStatus::Solved => {
                    s.probe("result.solved");
                    let mut why = "no solver process of this solve reported anything".to_string();
                    let mut ok = false;
                    for c in &kids {
                        if let Some(pl) = &s.children[*c].plan {
                            match unsaid(pl, sol, q) {
                                None => ok = true,
                                Some(w) => why = w,
                            }
                        }
                    }
                    if !ok {
                        let mut p = with(vec!["C02"], ctx.clone());
                        if !permanent {
                            p = with(p, vec!["C03"]);
                        }
                        s.violate(&p, "wrong-answer", format!("{} reported Solved, but {}", desc, why));
                        return;
                    }
                }
                SolverStatus::Infeasible => {
                    s.probe("result.infeasible");
                    if !kids.iter().any(|c| s.children[*c].plan.as_ref().map(|p| said(p).infeasible).unwrap_or(false)) {
                        s.violate(&with(vec!["C02"], ctx.clone()), "wrong-infeasible", format!("{} reported Infeasible, which its solver process never did", desc));
                        return;
                    }
                }
                _ => s.probe("result.neither"),
            }
            if !permanent && !param_fault {
                let want = kids.last().map(|c| (s.children[*c].word, s.children[*c].plan.clone()));
                let got = match st {
                    SolverStatus::Solved => Word::Solved,
                    SolverStatus::Infeasible => Word::Infeasible,
                    _ => Word::Neither,
                };
                match want {
                    None => s.violate(&with(vec!["C03"], ctx.clone()), "no-launch", format!("{} returned {:?} without launching a solver", desc, st)),
                    Some((w, pl)) => {
                        if w != got {
                            let first = pl.map(|p| String::from_utf8_lossy(&p).lines().take(3).collect::<Vec<_>>().join(" | ")).unwrap_or_default();
                            s.violate(&with(vec!["C03"], ctx.clone()), "verdict", format!("{} returned {:?} although nothing failed and its solver process reported {:?}: {:?}", desc, st, w, first));
                        }
                    }
                }
            }
        }
    }
    s.probe("judged");
}

mod simple_error_str {
    pub struct E(pub String);
}

/// What a solve must have cleaned up when it returns.
pub fn cleanup_checks(k: usize, supported: bool) {
    let s = sim();
    let m = me();
    let p = s.callers[m].proc;
    let rec = s.solves[k].clone();
    let left: Vec<String> = s.fs.paths.iter().filter(|(q, i)| s.fs.nodes[**i].owner == Owner::Solve(k) && !rec.unlink_failed.iter().any(|u| u == *q || u.starts_with(&format!("{}/", q)))).map(|(q, _)| q.clone()).collect();
    if !left.is_empty() {
        let running = rec.children.iter().any(|c| s.children[*c].exit.is_none());
        s.violate(&["C05"], "leftover", format!("{} file(s) of a returned {} solve are left behind: {:?} (faults {:?}{})", left.len(), rec.prog, left, rec.faults, if running { ", its solver still running" } else { "" }));
        for q in left {
            s.fs.paths.remove(&q);
        }
    }
    let fds: Vec<String> = s.procs[p].fds.values().filter(|f| f.solve == Some(k)).map(|f| f.path.clone()).collect();
    if !fds.is_empty() {
        s.violate(&["C08"], "open-descriptor", format!("{} descriptor(s) of a returned {} solve are still open (faults {:?}): {:?}", fds.len(), rec.prog, rec.faults, fds));
        s.procs[p].fds.retain(|_, f| f.solve != Some(k));
    }
    for c in &rec.children {
        if !s.children[*c].reaped && !rec.faults.contains(&F::WaitErr) {
            s.violate(&["C08"], "not-reaped", format!("a solver process of a returned {} solve was never waited for ({})", rec.prog, if s.children[*c].exit.is_none() { "it is still running" } else { "it is a zombie" }));
        }
    }
    if !supported && (rec.effects > 0 || !rec.children.is_empty() || rec.native > 0) {
        s.violate(&["C18"], "effect", format!("refusing an unsupported problem had effects: {} file or process operation(s), {} native call(s)", rec.effects, rec.native));
    }
    check_bystanders("seen when a solve returned");
}

pub struct Slot {
    pub any: Any,
    pub model: Params,
}

struct Held {
    kind: PKind,
    raw: Raw,
    prob: Option<Problem>,
}

struct Cfg {
    ops: u32,
    shared: bool,
    params: u32,
    unsupported: u32,
    param_fault: u32,
    pause: bool,
}

fn one_solve(any: &Any, model: &Params, held: &mut Vec<Held>, cfg: &Cfg, param_fault: bool) {
    let s = sim();
    // choose a problem: an old one or a fresh one
    let idx = if !held.is_empty() && s.tape.one_in(3) {
        s.tape.draw(held.len() as u32) as usize
    } else {
        let kind = if cfg.unsupported > 0 && s.tape.one_in(cfg.unsupported) {
            *s.tape.pick(&[PKind::Minlp, PKind::Nlp, PKind::Milp, PKind::Lp])
        } else if s.tape.one_in(2) {
            PKind::Milp
        } else {
            PKind::Lp
        };
        let raw = gen_raw(&mut s.tape, matches!(kind, PKind::Milp | PKind::Minlp));
        held.push(Held { kind, raw, prob: None });
        held.len() - 1
    };
    let h = &mut held[idx];
    if !any.supports(h.kind) && cfg.unsupported == 0 {
        // only supported pairings wanted: present it as an LP
        h.kind = PKind::Lp;
        h.raw.lp.int.iter_mut().for_each(|v| *v = false);
        h.prob = None;
    }
    let supported = any.supports(h.kind);
    if matches!(any, Any::Ipopt(_)) && supported {
        return; // the native exchange is world B's subject
    }
    if h.prob.is_none() {
        let (k, r) = (h.kind, &h.raw);
        match sut(|| build(k, r)) {
            Caught::Ok(p) => h.prob = Some(p),
            Caught::Panic(m) => {
                crate::worker::harness_error(&format!("cannot build a problem: {}", m));
            }
        }
    }
    let level = if param_fault {
        None
    } else {
        match model.get("logLevel") {
            Some(PV::I(i)) => Some(*i),
            _ => None,
        }
    };
    s.probe(if supported { "solve.supported" } else { "solve.unsupported" });
    let k = begin_solve(Some(h.raw.lp.clone()), any.prog(), level);
    let prob = h.prob.as_mut().unwrap();
    let r = sut(|| any.dy().solve(prob).map_err(|e| simple_error_str::E(e.as_str().to_string())));
    if dead() {
        return;
    }
    end_solve(k);
    judge(k, &h.raw.lp, &r, supported, param_fault);
    cleanup_checks(k, supported);
    if let Err(w) = same_problem(prob, &h.raw) {
        let props: &[&'static str] = if supported { &["C01"] } else { &["C18", "C01"] };
        s.violate(props, "problem-changed", format!("solving changed the problem object: {}", w));
        h.prob = None;
    }
    let _g = crate::arena::Sut::enter();
    drop(r);
}

fn body(cfg: Cfg) {
    let mut slots: Vec<Option<Slot>> = vec![None, None, None];
    let mut held: Vec<Held> = Vec::new();
    let proc = sim().callers[me()].proc;
    for _ in 0..cfg.ops {
        if dead() {
            return;
        }
        let s = sim();
        if cfg.pause && s.tape.one_in(2) {
            let d = *s.tape.pick(&[1_000_000, 100_000_000, 2_000_000_000, 700_000_000_000]);
            s.logs(&format!("c{} pauses", me()));
            block_current(CState::Until(s.now + d));
            if dead() {
                return;
            }
        }
        let which = match s.tape.draw(8) {
            0..=3 => 0,
            4..=6 => 1,
            _ => {
                if cfg.unsupported > 0 || cfg.params > 0 {
                    2
                } else {
                    0
                }
            }
        };
        if cfg.shared && which < 2 {
            let key = proc * 4 + which as usize;
            if !s.shared.contains_key(&key) {
                let lv = s.tape.draw(3) as i32;
                if let Caught::Ok(b) = sut(|| {
                    let mut a = Any::make(which);
                    let _ = a.dym().set_param("logLevel", SolverParam::IntParam(lv));
                    Box::into_raw(Box::new(a)) as usize
                }) {
                    s.shared.insert(key, b);
                }
            }
            if let Some(b) = s.shared.get(&key) {
                let a = unsafe { &*(*b as *const Any) };
                let m = params_of(a.dy());
                one_solve(a, &m, &mut held, &cfg, false);
                if dead() {
                    return;
                }
                check_params(a.dy(), &m, "after a solve");
            }
            continue;
        }
        if slots[which as usize].is_none() {
            if let Caught::Ok(a) = sut(|| Any::make(which)) {
                let model = params_of(a.dy());
                let want: &[&str] = if which == 2 { &["print_level", "sb"] } else { &["logLevel"] };
                for w in want {
                    if !model.contains_key(*w) {
                        s.violate(&["C17"], "known", format!("the documented parameter {} is not known", w));
                    }
                }
                slots[which as usize] = Some(Slot { any: a, model });
            }
        }
        let mut sl = match slots[which as usize].take() {
            Some(x) => x,
            None => continue,
        };
        if cfg.params > 0 {
            let n = s.tape.draw(cfg.params + 1);
            for _ in 0..n {
                param_step(sl.any.dym(), &mut sl.model);
            }
        }
        let mut pf = false;
        if cfg.param_fault > 0 && which < 2 && s.tape.one_in(cfg.param_fault) {
            pf = true;
            let wrong = s.tape.one_in(2);
            let f = if wrong { F::ParamWrongType } else { F::ParamRemoved };
            s.fired[f as usize] += 1;
            s.logs(&format!("fault {:?}", f));
            let any = &mut sl.any;
            let _ = sut(|| {
                let m = any.dym().get_params_mut();
                m.remove("logLevel");
                if wrong {
                    m.insert("logLevel".to_string(), SolverParam::StrParam("3".to_string()));
                }
            });
        }
        one_solve(&sl.any, &sl.model, &mut held, &cfg, pf);
        if dead() {
            return;
        }
        if pf {
            let v = sl.model["logLevel"].to();
            let any = &mut sl.any;
            let _ = sut(|| {
                any.dym().get_params_mut().insert("logLevel".to_string(), v);
            });
        }
        check_params(sl.any.dy(), &sl.model, "after a solve");
        slots[which as usize] = Some(sl);
    }
    let _g = crate::arena::Sut::enter();
    drop(slots);
    for h in held.iter_mut() {
        h.prob = None;
    }
}

// ---------------------------------------------------------------- set-up

fn profile(prop: &str, t: &mut Tape) -> u32 {
    // 0 quiet, 1 transient faults, 2 all faults alone, 3 all faults together, 4 name clashes and
    // clones, 5 crashes, 6 parameter and kind histories
    let w: &[u32] = match prop {
        "C01" => &[2, 3, 4, 3, 2, 1, 0],
        "C02" => &[1, 1, 6, 4, 2, 1, 0],
        "C03" => &[3, 8, 0, 1, 1, 1, 0],
        "C04" => &[0, 1, 8, 4, 1, 1, 1],
        "C05" => &[1, 1, 5, 3, 6, 1, 2],
        "C06" => &[1, 4, 0, 5, 8, 1, 1],
        "C07" => &[0, 0, 0, 0, 2, 9, 0],
        "C08" => &[1, 2, 6, 3, 1, 1, 1],
        "C17" => &[1, 1, 0, 1, 1, 1, 8],
        "C18" => &[1, 1, 1, 1, 1, 0, 9],
        _ => &[1, 2, 2, 2, 2, 2, 1],
    };
    let tot: u32 = w.iter().sum();
    let mut d = t.draw(tot);
    for (i, v) in w.iter().enumerate() {
        if d < *v {
            return i as u32;
        }
        d -= v;
    }
    0
}

const TRANSIENT: [F; 8] = [F::EintrOpen, F::EintrRead, F::EintrWrite, F::EintrWait, F::ShortRead, F::ShortWrite, F::SolverSlow, F::ClockJump];
const HARD: [F; 20] = [
    F::OpenErr,
    F::ReadErr,
    F::WriteErr,
    F::CloseErr,
    F::UnlinkErr,
    F::SpawnErr,
    F::WaitErr,
    F::SolverNoStart,
    F::SolverTorn,
    F::SolverEmpty,
    F::SolverNoReport,
    F::SolverGarbage,
    F::SolverNulTail,
    F::SolverDiskFull,
    F::SolverExitCode,
    F::SolverKilledLate,
    F::SolverReadErr,
    F::SolverStrayIndex,
    F::SolverSplice,
    F::SolverTorn,
];

pub fn setup(s: &mut Sim, prop: &str) -> Vec<CallerSpec> {
    let pr = profile(prop, &mut s.tape);
    let mut specs: Vec<CallerSpec> = Vec::new();
    s.probe(["profile.quiet", "profile.transient", "profile.faults_alone", "profile.faults_together", "profile.clash", "profile.crash", "profile.history"][pr as usize]);
    let together = !matches!(pr, 0 | 2) || s.tape.one_in(8);
    let nproc = if together { 1 + s.tape.draw(3) as usize } else { 1 };
    let tmp = *s.tape.pick(&["/tmp", "/tmp", "/work", "/work2"]);
    unsafe { std::env::set_var("TMPDIR", tmp) };
    // faults
    s.faults.budget = 0;
    if matches!(pr, 1 | 3 | 4 | 5) && s.tape.one_in(2) || pr == 1 {
        for f in TRANSIENT {
            if s.tape.one_in(2) {
                s.faults.rate[f as usize] = *s.tape.pick(&[4, 2, 12]);
            }
        }
        s.faults.budget = 60;
    }
    let writes = prop == "C01" && matches!(pr, 2 | 3) && s.tape.one_in(3);
    if writes {
        // failing writes somewhere in large inputs
        s.want_big = true;
        s.faults.rate[F::WriteErr as usize] = *s.tape.pick(&[3, 8, 20]);
        s.faults.budget = s.faults.budget.max(1 + s.tape.draw(2) as i32);
    } else if matches!(pr, 2 | 3) || pr >= 4 && s.tape.one_in(3) {
        let many = s.tape.one_in(3);
        for _ in 0..if many { 6 } else { 1 + s.tape.draw(2) } {
            let f = *s.tape.pick(&HARD);
            let child = (f as usize) >= F::SolverNoStart as usize && (f as usize) <= F::SolverSplice as usize;
            s.faults.rate[f as usize] = if child { *s.tape.pick(&[1, 2, 3]) } else { *s.tape.pick(&[3, 8, 20]) };
        }
        s.faults.budget = s.faults.budget.max(1 + s.tape.draw(5) as i32);
    }
    if pr == 4 {
        s.faults.rate[F::NameTaken as usize] = *s.tape.pick(&[2, 1, 4]);
        s.faults.budget = s.faults.budget.max(4);
        s.name_taken_dirs = vec!["/work".into(), "/work2".into(), "/tmp".into()];
    }
    s.wall_grain = *s.tape.pick(&[1, 1_000, 4_000_000, 1_000_000_000, 1]);
    s.switch_rate = if together { *s.tape.pick(&[3, 2, 6, 20, 1]) } else { 3 };
    // processes and threads
    let clone = pr >= 4 && nproc > 1 && s.tape.one_in(2) || together && s.tape.one_in(6);
    let seed0 = s.tape.u32() as u64;
    // a cloned machine (its directory shared) has the same process numbers, a forked process has not
    let clone_pid = clone && s.tape.one_in(2);
    if clone && nproc > 1 {
        s.fired[F::CloneRng as usize] += 1;
        s.probe("cloned_random_state");
    }
    let mk = |s: &mut Sim| Cfg {
        ops: 1 + s.tape.draw(3),
        pause: together && s.tape.one_in(2),
        shared: s.tape.one_in(5),
        params: match (pr, prop) {
            (6, _) => 3,
            (_, "C17") => 1,
            _ => 0,
        },
        unsupported: match (pr, prop) {
            (6, "C18") => 2,
            (6, _) => 6,
            (_, "C18") => 3,
            _ => 0,
        },
        param_fault: match (pr, prop) {
            (6, _) => 5,
            (2, "C05") | (2, "C04") | (2, "C08") => 10,
            _ => 0,
        },
    };
    for p in 0..nproc {
        let cwd = if s.tape.one_in(5) { "/work2" } else { "/work" };
        let proc = s.add_proc(cwd);
        if clone && p > 0 && clone_pid {
            s.procs[proc].pid = s.procs[0].pid;
        }
        let nt = if !together {
            1
        } else if p == 0 && s.tape.one_in(5) {
            3 + s.tape.draw(3) as usize
        } else {
            1 + s.tape.draw(2) as usize
        };
        let seed = if clone { seed0 } else { s.tape.u32() as u64 };
        for th in 0..nt {
            if specs.len() >= 6 {
                break;
            }
            let cfg = mk(s);
            specs.push(CallerSpec { proc, after: None, rng_seed: seed + 7919 * th as u64, hash_seed: 17 + p as u64 * 1000 + th as u64, pad: 0, body: Box::new(move || body(cfg)) });
        }
        if pr == 5 && (p == 0 || s.tape.one_in(3)) && specs.len() < 7 {
            // this process dies at some operation, and is started again
            let at = 1 + s.tape.draw(90) as u64;
            s.procs[proc].crash_at = Some(at);
            let again = s.add_proc(cwd);
            if s.tape.one_in(2) {
                // as in a container that is started again
                s.procs[again].pid = s.procs[proc].pid;
            }
            let same = s.tape.one_in(2);
            let sd = if same { seed } else { s.tape.u32() as u64 };
            s.fired[F::Restart as usize] += 1;
            let mut cfg = mk(s);
            cfg.ops = 1 + s.tape.draw(3);
            specs.push(CallerSpec { proc: again, after: Some(proc), rng_seed: sd, hash_seed: 900 + p as u64, pad: 0, body: Box::new(move || body(cfg)) });
        }
    }
    // files that were there before
    for d in ["/work", "/work2", "/tmp"] {
        for n in ["notes.txt", "cbc.lp", "cbc.sol", "clp.lp", "clp.sol", "model.lp", "solution.sol", "cbcAAAAAA.lp", "clpZZZZZZ.sol"] {
            if s.tape.one_in(12) {
                let q = format!("{}/{}", d, n);
                s.put_file(&q, format!("belongs to somebody else: {}\n  0 x_0 1 1\n", n).into_bytes());
                let i = s.lookup(&q).unwrap();
                s.fs.nodes[i].mtime = EPOCH - 1_000_000_000 * *s.tape.pick(&[1i64, 3_000, 100_000, 40_000_000]);
                let dta = s.fs.nodes[i].data.clone();
                s.bystanders.push((q, i, dta));
            }
        }
    }
    specs
}

pub fn finish(s: &mut Sim) {
    // bystanders once more, when everything is over
    let bad: Vec<String> = s.bystanders.iter().filter(|(p, i, d)| s.fs.paths.get(p) != Some(i) || s.fs.nodes[*i].data != *d).map(|b| b.0.clone()).collect();
    let crash = s.any_crash;
    for p in bad {
        s.draining = false;
        s.violate(if crash { &["C05", "C07"] } else { &["C05"] }, "bystander-end", format!("a file that belongs to nobody in the simulation was changed: {}", p));
    }
}

#[allow(dead_code)]
pub fn near(a: f64, b: f64) -> bool {
    close(a, b)
}
