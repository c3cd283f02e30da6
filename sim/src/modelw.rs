//! World C: models built, edited and solved through the public interface, with the solver behind
//! its trait as the simulated party (it can answer, refuse or panic), several callers, and the
//! process environment (hash seeds, heap layout, threads) under the simulator's control.

use crate::arena::{Host, Sut};
use crate::cmd::PKind;
use crate::expr::{coef, gen_affine, gen_any, gen_wide, point, same, Dag, Jet, Op};
use crate::sim::*;
use crate::tape::{mix, splitmix, Tape};
use numopt::matrix::coo::CooMat;
use numopt::model::constraint::Constraint;
use numopt::model::model::{Model, Objective};
use numopt::model::node::Node;
use numopt::model::node_cmp::NodeCmp;
use numopt::model::variable::VariableScalar;
use numopt::problem::base::{Problem, ProblemSol};
use numopt::problem::minlp::ProblemMinlp;
use numopt::solver::base::{Solver, SolverParam, SolverStatus};
use simple_error::SimpleError;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::{Arc, Mutex};

const INF: f64 = 1e8;
const POINTS: usize = 4;

// ---------------------------------------------------------------- scripts

#[derive(Clone, Copy, Debug, PartialEq)]
enum Side {
    Node(usize),
    Num(f64),
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Rel {
    Le,
    Ge,
    Eq,
}

#[derive(Clone, Debug)]
struct Con {
    lhs: Side,
    rel: Rel,
    rhs: Side,
    tag: Option<String>,
    byval: bool,
    /// lhs - rhs in the reference expressions
    g: usize,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Obj {
    Empty,
    Min(usize),
    Max(usize),
}

#[derive(Clone, Debug)]
enum Step {
    Add(usize, Vec<usize>, bool),
    Obj(usize, Obj),
    Init(usize, Vec<(usize, f64)>),
    Solve(usize, u32),
    Read(usize),
    New,
}

/// What a caller does, as plain data.
#[derive(Clone, Debug)]
struct Script {
    seed: u64,
    names: Vec<String>,
    ints: Vec<bool>,
    dag: Dag,
    built: usize,
    style: u64,
    cons: Vec<Con>,
    steps: Vec<Step>,
    /// objectives are built when they are set, and nothing else is kept of them
    lean: bool,
}

const NAMES: [&str; 19] = ["flow_line_7_a", "flow_line_7_b", "flow_line_7_A", "x", "y", "X10", "x2", "a", "_z", "~t", "é", "x10", "Y", "b 1", "", "_", "z_9", "xx", "_s"];

const CLASH: [&str; 4] = ["_s_a0_", "_s_j0_", "_s_a1_", "_s_j1_"];

fn bound_value(t: &mut Tape) -> f64 {
    if t.one_in(14) {
        return *t.pick(&[1e8, 2e8, -1e8, -2e8, 1e9, -1e9, 1e12, 99999999.]);
    }
    *t.pick(&[1., 0., 2., -1., 0.5, -3., 100., 2.25, 1. / 3., -100.])
}

fn gen_con(t: &mut Tape, d: &mut Dag, profile: u32) -> Option<(Side, Rel, Side)> {
    let rel = |t: &mut Tape, eq: u32| match t.draw(eq) {
        0 => Rel::Le,
        1 => Rel::Ge,
        2 => Rel::Eq,
        k if k % 2 == 0 => Rel::Ge,
        _ => Rel::Le,
    };
    let room = if profile == 0 { 24 } else { 16 };
    let what = t.draw(20);
    if what < 8 {
        // a bound on one variable, written in some way
        let k = t.draw(d.nv as u32) as usize;
        let v = bound_value(t);
        let r = if t.one_in(8) { Rel::Eq } else { rel(t, 2) };
        return Some(match t.draw(9) {
            0 | 1 | 2 => (Side::Node(k), r, Side::Num(v)),
            3 | 4 => (Side::Num(v), r, Side::Node(k)),
            5 => {
                let c = coef(t);
                let a = d.push(Op::SMul(c, k));
                (Side::Node(a), r, Side::Num(v))
            }
            6 => {
                let c = coef(t);
                let a = d.push(Op::AddS(k, c));
                (Side::Node(a), r, Side::Num(if t.one_in(3) { c } else { v }))
            }
            7 => {
                let a = d.push(Op::Const(v));
                if t.one_in(2) { (Side::Node(k), r, Side::Node(a)) } else { (Side::Node(a), r, Side::Node(k)) }
            }
            _ => {
                let a = d.push(Op::Neg(k));
                (Side::Node(a), r, Side::Num(v))
            }
        });
    }
    if what == 19 && t.one_in(3) {
        // no variable at all
        let c = coef(t);
        let a = d.push(Op::Const(c));
        let r = rel(t, 3);
        return Some(if t.one_in(2) { (Side::Node(a), r, Side::Num(bound_value(t))) } else { (Side::Num(bound_value(t)), r, Side::Node(a)) });
    }
    let side = |t: &mut Tape, d: &mut Dag| -> usize {
        if d.nv > 6 && t.one_in(3) {
            let curved = profile == 2 || profile == 1 && t.one_in(2);
            return gen_wide(t, d, curved);
        }
        if profile == 0 || profile == 1 && t.one_in(2) || what < 13 {
            gen_affine(t, d, 3)
        } else {
            gen_any(t, d, 4, room)
        }
    };
    let a = side(t, d);
    let r = rel(t, 5);
    let v = bound_value(t);
    Some(match t.draw(6) {
        0 | 1 | 2 => (Side::Node(a), r, Side::Num(v)),
        3 => (Side::Num(v), r, Side::Node(a)),
        4 => {
            let b = t.draw(d.nv as u32) as usize;
            (Side::Node(a), r, Side::Node(b))
        }
        _ => {
            let b = side(t, d);
            (Side::Node(a), r, Side::Node(b))
        }
    })
}

fn gen_script(t: &mut Tape, prop: &str) -> Script {
    let big = t.one_in(12);
    let nv = if big { 7 + t.draw(6) as usize } else { 1 + t.draw(6) as usize };
    let mut names: Vec<String> = Vec::new();
    let clash = t.one_in(8);
    // C16 speaks of variables with distinct names only
    let alike = prop != "C16" && t.one_in(8);
    while names.len() < nv {
        if alike && !names.is_empty() && t.one_in(2) {
            let n = names[t.draw(names.len() as u32) as usize].clone();
            names.push(n);
            continue;
        }
        if clash && t.one_in(3) {
            let n = *t.pick(&CLASH);
            if !names.iter().any(|m| m == n) {
                names.push(n.into());
            }
            continue;
        }
        let mut k = t.draw(NAMES.len() as u32) as usize;
        while names.iter().any(|n| n == NAMES[k]) && !alike {
            k = (k + 1) % NAMES.len();
        }
        names.push(NAMES[k].into());
    }
    let intrate = *t.pick(&[0, 0, 3, 2, 1]);
    let ints = (0..nv).map(|_| t.one_in(intrate)).collect();
    let profile = match t.draw(10) {
        0 | 1 | 2 | 3 => 0,
        4 | 5 | 6 | 7 => 1,
        _ => 2,
    };
    let mut d = Dag::new(nv);
    let mut objs: Vec<Obj> = Vec::new();
    for _ in 0..1 + t.draw(3) {
        let k = if t.one_in(10) {
            t.draw(nv as u32) as usize
        } else if t.one_in(14) {
            let c = coef(t);
            d.push(Op::Const(c))
        } else if big && t.one_in(2) {
            let curved = profile == 2 || profile == 1 && t.one_in(2);
            gen_wide(t, &mut d, curved)
        } else if profile == 0 || profile == 1 && t.one_in(2) {
            gen_affine(t, &mut d, 4)
        } else {
            gen_any(t, &mut d, 5, 24)
        };
        objs.push(match t.draw(8) {
            0..=3 => Obj::Min(k),
            7 => Obj::Empty,
            _ => Obj::Max(k),
        });
    }
    let mut raw = Vec::new();
    let most = if big && t.one_in(2) { 26 } else { 8 };
    for _ in 0..1 + t.draw(most) {
        // sometimes the same function, or the same bound, again
        if !raw.is_empty() && t.one_in(5) {
            let (l, mut r, rr): (Side, Rel, Side) = raw[t.draw(raw.len() as u32) as usize];
            if t.one_in(3) {
                r = match r {
                    Rel::Le => Rel::Ge,
                    Rel::Ge => Rel::Le,
                    q => q,
                };
            }
            raw.push((l, r, rr));
            continue;
        }
        if let Some(c) = gen_con(t, &mut d, profile) {
            raw.push(c);
        }
    }
    let built = d.ops.len();
    let mut cons: Vec<Con> = Vec::new();
    for (lhs, rel, rhs) in raw {
        let g = match (lhs, rhs) {
            (Side::Node(a), Side::Node(b)) => d.push(Op::Sub(a, b)),
            (Side::Node(a), Side::Num(c)) => d.push(Op::SubS(a, c)),
            (Side::Num(c), Side::Node(b)) => d.push(Op::SSub(c, b)),
            _ => continue,
        };
        if d.paths(g) > if big { 64 } else { 40 } {
            continue;
        }
        // leave out cases in which rounding decides what kind of constraint it is
        if d.affine(g) {
            let j = &d.jets(&vec![0.; nv])[g];
            if (0..nv).any(|i| j.mg[i] > 0. && j.g[i].abs() < 1e-6 * j.mg[i] && (j.g[i] != 0. || !d.dyadic(g))) {
                continue;
            }
            if let Some((_, v, _)) = bound_of(j) {
                // nor what is as good as no bound
                if v.abs() > 1e13 {
                    continue;
                }
            }
        }
        let tag = if t.one_in(4) { Some(format!("tag {}", t.draw(3))) } else { None };
        cons.push(Con { lhs, rel, rhs, tag, byval: t.one_in(2), g });
    }
    // the history
    let again = t.one_in(8);
    let mut steps = Vec::new();
    let mut models = 1usize;
    let mut left: Vec<Vec<usize>> = vec![(0..cons.len()).collect()];
    let refuse = if prop == "C13" { 3 } else { 6 };
    let out = |t: &mut Tape| -> u32 {
        if t.one_in(refuse) {
            4 + t.draw(3)
        } else if t.one_in(2) {
            t.draw(4)
        } else {
            0
        }
    };
    let n = 3 + t.draw(10);
    for i in 0..n {
        let m = if models > 1 { t.draw(models as u32) as usize } else { 0 };
        let k = if i == 0 { t.draw(5) } else { t.draw(16) };
        match k {
            0..=2 | 8 | 9 => {
                let mut v = Vec::new();
                let many = t.one_in(2);
                let most = if many { left[m].len() as u32 } else { 1 };
                for _ in 0..1 + t.draw(most.max(1)) {
                    if left[m].is_empty() {
                        break;
                    }
                    let k = t.draw(left[m].len() as u32) as usize;
                    v.push(left[m].remove(k));
                }
                // the very same constraint once more
                if again && !cons.is_empty() && t.one_in(3) {
                    v.push(t.draw(cons.len() as u32) as usize);
                }
                if !v.is_empty() || many {
                    steps.push(Step::Add(m, v, many));
                }
            }
            3 | 4 | 10 => {
                let o = objs[t.draw(objs.len() as u32) as usize];
                steps.push(Step::Obj(m, o));
            }
            5 | 11 => {
                let mut v = Vec::new();
                let p = *t.pick(&[1, 2, 1, 0]);
                for k in 0..nv {
                    if t.one_in(p) {
                        let x = (100 * (i + 1) as usize + 7 * k) as f64 + 0.25;
                        v.push((k, if t.one_in(3) { -x } else { x }));
                    }
                }
                steps.push(Step::Init(m, v));
            }
            6 | 12 | 13 | 14 => steps.push(Step::Solve(m, out(t))),
            7 => steps.push(Step::Read(m)),
            _ => {
                if models < 3 {
                    models += 1;
                    left.push((0..cons.len()).collect());
                    steps.push(Step::New);
                }
            }
        }
    }
    for m in 0..models {
        if m == 0 || t.one_in(2) {
            if t.one_in(2) {
                let o = objs[t.draw(objs.len() as u32) as usize];
                steps.push(Step::Obj(m, o));
            }
            steps.push(Step::Solve(m, if t.one_in(3) { t.draw(4) } else { 0 }));
        }
    }
    Script { seed: t.u32() as u64, names, ints, dag: d, built, style: t.u32() as u64, cons, steps, lean: t.one_in(3) }
}

/// The variable and value an affine one-variable function is a bound on, and its coefficient.
fn bound_of(j0: &Jet) -> Option<(usize, f64, f64)> {
    let on: Vec<usize> = (0..j0.g.len()).filter(|i| j0.g[*i].abs() > 1e-6 * j0.mg[*i] && j0.g[*i] != 0.).collect();
    if on.len() != 1 {
        return None;
    }
    let a = j0.g[on[0]];
    Some((on[0], -j0.v / a, a))
}

// ---------------------------------------------------------------- the simulated solver

#[derive(Clone, Debug)]
struct EvalRec {
    x: Vec<f64>,
    phi: f64,
    g: Vec<f64>,
    hphi: Vec<f64>,
    f: Vec<f64>,
    j: Vec<f64>,
    h: Vec<Vec<f64>>,
    nu: Vec<f64>,
    hc: Vec<f64>,
}

/// The posed problem, as the solver sees it.
#[derive(Clone, Debug)]
struct Snap {
    kind: PKind,
    n: usize,
    na: usize,
    nf: usize,
    a: Vec<f64>,
    b: Vec<f64>,
    l: Vec<f64>,
    u: Vec<f64>,
    p: Vec<bool>,
    x0: Option<Vec<f64>>,
    c: Option<Vec<f64>>,
    evals: Vec<EvalRec>,
}

fn dense(m: &CooMat<f64>, r: usize, c: usize, sym: bool) -> Result<Vec<f64>, String> {
    if m.rows() != r || m.cols() != c {
        return Err(format!("a matrix is {} by {} instead of {} by {}", m.rows(), m.cols(), r, c));
    }
    let (ri, ci, d) = (m.row_inds(), m.col_inds(), m.data());
    if ri.len() != ci.len() || ri.len() != d.len() {
        return Err("a matrix has lists of different lengths".into());
    }
    let mut v = vec![0.; r * c];
    for k in 0..ri.len() {
        if ri[k] >= r || ci[k] >= c {
            return Err(format!("entry ({}, {}) of a {} by {} matrix", ri[k], ci[k], r, c));
        }
        if sym && ri[k] < ci[k] {
            return Err(format!("entry ({}, {}) of a lower triangular matrix", ri[k], ci[k]));
        }
        v[ri[k] * c + ci[k]] += d[k];
    }
    Ok(v)
}

struct Tap {
    seed: u64,
    no: usize,
    out: u32,
    snap: RefCell<Option<Result<Snap, String>>>,
    calls: Cell<u32>,
    /// the solver builds and solves a model of its own on the way
    nest: bool,
    params: HashMap<String, SolverParam>,
}

/// The solver's value for entry k of vector v (x, lam, nu, mu, pi) in its answer number no.
fn answer(seed: u64, no: usize, v: usize, k: usize) -> f64 {
    let h = mix(mix(seed, no as u64), 77);
    if h % 3 == 0 && (h >> 8) % 5 == v as u64 && (h >> 16) % 3 == k as u64 {
        return 0.;
    }
    let r = mix(mix(h, v as u64), k as u64);
    if h % 7 == 0 && (h >> 24) % 5 == v as u64 && (h >> 32) % 4 == k as u64 {
        return if r % 2 == 0 { f64::INFINITY } else { f64::NEG_INFINITY };
    }
    if h % 11 == 0 && r % 6 == 0 {
        // not a number, yet one of its own
        return f64::from_bits(0x7ff8_0000_0000_0000 | (v as u64 + 1) << 20 | (k as u64 + 1));
    }
    let u = (no + 1) as f64 * 10000. + v as f64 * 1000. + k as f64 + 0.37;
    let s = [1., 1., 1., 1e-3, 1e6, 1e-11][(r % 6) as usize];
    if (r >> 20) % 2 == 0 { u * s } else { -u * s }
}

fn status_of(k: u32) -> SolverStatus {
    match k {
        0 => SolverStatus::Solved,
        1 => SolverStatus::Infeasible,
        2 => SolverStatus::Unknown,
        6 => SolverStatus::Solved,
        _ => SolverStatus::Error,
    }
}

impl Tap {
    fn look(&self, p: &mut Problem) -> Result<Snap, String> {
        let (kind, c) = match p {
            Problem::Lp(q) => (PKind::Lp, Some(q.c().to_vec())),
            Problem::Milp(q) => (PKind::Milp, Some(q.c().to_vec())),
            Problem::Nlp(_) => (PKind::Nlp, None),
            Problem::Minlp(_) => (PKind::Minlp, None),
        };
        let m: &mut ProblemMinlp = match p {
            Problem::Lp(q) => q.as_mut_minlp(),
            Problem::Milp(q) => q.as_mut_minlp(),
            Problem::Nlp(q) => q.as_mut_minlp(),
            Problem::Minlp(q) => q,
        };
        let n = m.a().cols();
        let (na, nf) = (m.b().len(), m.f().len());
        if m.l().len() != n || m.u().len() != n || m.p().len() != n || m.x0().map(|x| x.len() != n).unwrap_or(false) || c.as_ref().map(|c| c.len() != n).unwrap_or(false) {
            return Err("vectors of the problem have different lengths".into());
        }
        let mut s = Snap { kind, n, na, nf, a: dense(m.a(), na, n, false)?, b: m.b().to_vec(), l: m.l().to_vec(), u: m.u().to_vec(), p: m.p().to_vec(), x0: m.x0().map(|x| x.to_vec()), c, evals: vec![] };
        for k in 0..POINTS {
            let mut r = mix(mix(self.seed, self.no as u64), 1000 + k as u64);
            let x: Vec<f64> = (0..n).map(|_| point(&mut r)).collect();
            let nu: Vec<f64> = (0..nf).map(|_| point(&mut r)).collect();
            let res = sut(|| {
                m.evaluate(&x);
                m.combine_h(&nu);
            });
            if let Caught::Panic(e) = res {
                return Err(format!("evaluating the problem panicked: {}", e));
            }
            if m.gphi().len() != n || m.f().len() != nf || m.h().len() != nf {
                return Err("evaluated vectors have the wrong lengths".into());
            }
            let mut h = Vec::new();
            for q in m.h() {
                h.push(dense(q, n, n, true)?);
            }
            s.evals.push(EvalRec { phi: m.phi(), g: m.gphi().to_vec(), hphi: dense(m.hphi(), n, n, true)?, f: m.f().to_vec(), j: dense(m.j(), nf, n, false)?, h, hc: dense(m.hcomb(), n, n, true)?, x, nu });
        }
        Ok(s)
    }
}

/// A solver that knows one answer.
struct Canned {
    seed: u64,
    params: HashMap<String, SolverParam>,
}
impl Solver for Canned {
    fn get_params(&self) -> &HashMap<String, SolverParam> {
        &self.params
    }
    fn get_params_mut(&mut self) -> &mut HashMap<String, SolverParam> {
        &mut self.params
    }
    fn solve(&self, p: &mut Problem) -> Result<(SolverStatus, ProblemSol), SimpleError> {
        let v = |w: usize, len: usize| -> Vec<f64> { (0..len).map(|i| answer(self.seed, 999, w, i)).collect() };
        match p {
            Problem::Lp(q) => Ok((SolverStatus::Solved, ProblemSol { x: v(0, q.nx()), lam: v(1, q.na()), nu: vec![], mu: v(3, q.nx()), pi: v(4, q.nx()) })),
            _ => Err(SimpleError::new("not the problem expected")),
        }
    }
}

/// A small model solved from within another solve: x + 2 y, x >= 1, x + y == 3.
fn inner(seed: u64) {
    let s = sim();
    let r = sut(|| {
        let x = VariableScalar::new_continuous("x");
        let y = VariableScalar::new_continuous("y");
        let (c1, c2) = (x.geq(1.), (&x + &y).equal(3.));
        let mut m = Model::new();
        m.set_objective(Objective::minimize(&(&x + 2. * &y)));
        m.add_constraint(&c1);
        m.add_constraint(&c2);
        let r = m.solve(&Canned { seed, params: HashMap::new() });
        let d = m.final_duals();
        let p = m.final_primals();
        (r.is_ok(), p.get(&x).copied(), p.get(&y).copied(), d.get(&c1).copied(), d.get(&c2).copied())
    });
    s.probe("solve within a solve");
    let a = |w: usize, k: usize| Some(answer(seed, 999, w, k).to_bits());
    match r {
        Caught::Ok((true, x, y, c1, c2)) => {
            let b = |v: Option<f64>| v.map(f64::to_bits);
            let fits = [0, 1].iter().any(|k| b(x) == a(0, *k) && b(y) == a(0, 1 - k) && b(c1) == a(4, *k)) && b(c2) == a(1, 0);
            if !fits {
                s.violate(&["C13", "C15"], "inner", format!("a model solved within another solve got {:?} {:?} {:?} {:?}", x, y, c1, c2));
            }
        }
        Caught::Ok(_) => s.violate(&["C13", "C14"], "inner", "a model solved within another solve was refused".into()),
        Caught::Panic(e) => s.violate(&["C13", "C14"], "inner", format!("a model solved within another solve panicked: {}", e)),
    }
}

impl Solver for Tap {
    fn get_params(&self) -> &HashMap<String, SolverParam> {
        &self.params
    }
    fn get_params_mut(&mut self) -> &mut HashMap<String, SolverParam> {
        &mut self.params
    }
    fn solve(&self, p: &mut Problem) -> Result<(SolverStatus, ProblemSol), SimpleError> {
        let (n, na, nf);
        {
            let _h = Host::enter();
            self.calls.set(self.calls.get() + 1);
            yield_point("solver called");
            let r = self.look(p);
            let (a, b, c) = match &r {
                Ok(s) => (s.n, s.na, s.nf),
                Err(_) => (0, 0, 0),
            };
            n = a;
            na = b;
            nf = c;
            let bad = r.is_err();
            *self.snap.borrow_mut() = Some(r);
            if self.nest {
                inner(self.seed);
            }
            yield_point("solver answers");
            let s = sim();
            match self.out {
                4 => s.note_fault(F::SolverApiErr),
                5 => s.note_fault(F::SolverApiPanic),
                6 => s.note_fault(F::SolverApiShape),
                _ => (),
            }
            if bad {
                drop(_h);
                return Err(SimpleError::new("the problem is malformed"));
            }
        }
        match self.out {
            4 => Err(SimpleError::new("the solver fails")),
            5 => panic!("the solver panics"),
            k => {
                let odd = mix(self.seed ^ 0x0dd, self.no as u64);
                let v = |w: usize, len: usize| -> Vec<f64> {
                    let mut len = len;
                    if k == 6 && (odd % 5 == w as u64 || odd >> 10 & 7 == 0) {
                        len = match odd >> 20 & 3 {
                            0 => 0,
                            1 => len + 2,
                            _ => len.saturating_sub(1),
                        };
                    }
                    (0..len).map(|i| answer(self.seed, self.no, w, i)).collect()
                };
                Ok((status_of(k), ProblemSol { x: v(0, n), lam: v(1, na), nu: v(2, nf), mu: v(3, n), pi: v(4, n) }))
            }
        }
    }
}

// ---------------------------------------------------------------- the reference

#[derive(Clone, Default)]
struct MState {
    obj: Option<Obj>,
    cons: Vec<usize>,
    init: BTreeMap<usize, f64>,
}

/// Results read back from a model.
#[derive(Clone, Debug, PartialEq, Default)]
struct Res {
    status: Option<String>,
    vars: BTreeMap<usize, u64>,
    others: Vec<(String, u64)>,
    duals: BTreeMap<usize, u64>,
    foreign: Vec<u64>,
}

struct Env {
    sc: Arc<Script>,
    vars: Vec<Node>,
    nodes: Vec<Node>,
    cons: Vec<Constraint>,
    models: Vec<Model>,
    st: Vec<MState>,
    res: Vec<Res>,
    solves: usize,
    noise: u64,
    junk: Vec<Vec<u8>>,
    objs: Vec<Option<Node>>,
    rec: bool,
}

struct Record {
    snap: Snap,
    mag: Vec<f64>,
    res: Res,
}
static RECS: Mutex<BTreeMap<usize, Vec<Option<Record>>>> = Mutex::new(BTreeMap::new());

/// How big the numbers of an expression get, or None where it is not fit for comparing.
fn fit(j: &Jet) -> Option<f64> {
    let m = j.mg.iter().chain(j.mh.iter()).fold(j.mv, |a, b| a.max(*b));
    let ok = m.is_finite() && m < 1e12 && j.bad <= 1e3 && j.v.is_finite() && j.g.iter().chain(j.h.iter()).all(|v| v.is_finite());
    if ok { Some(m) } else { None }
}

/// A place in the posed problem a multiplier can come from.
type Loc = (usize, usize); // (vector 1 lam, 2 nu, 3 mu, 4 pi; index)

struct Fit {
    /// places where each constraint of the model may find its multiplier (for bounds: with the
    /// value they state)
    rows: Vec<Vec<Loc>>,
    bounds: Vec<Option<(Loc, f64, f64)>>, // place, value, room for rounding
    mag: Vec<f64>,
    tied: bool,
}

struct Judge<'a> {
    sc: &'a Script,
    ms: &'a MState,
    s: &'a Snap,
    col: Vec<Option<usize>>, // column of each variable
    var: Vec<Option<usize>>, // variable of each column
    jets: Vec<Vec<Jet>>,
    zero: Vec<Jet>,
}

impl<'a> Judge<'a> {
    fn new(sc: &'a Script, ms: &'a MState, s: &'a Snap, col: &[Option<usize>], seed: u64) -> Judge<'a> {
        let nv = sc.names.len();
        let mut var = vec![None; s.n];
        for v in 0..nv {
            if let Some(c) = col[v] {
                var[c] = Some(v);
            }
        }
        let mut r = mix(seed, 4242);
        let jets = s
            .evals
            .iter()
            .map(|e| {
                let x: Vec<f64> = (0..nv)
                    .map(|v| {
                        let z = point(&mut r);
                        col[v].map(|c| e.x[c]).unwrap_or(z)
                    })
                    .collect();
                sc.dag.jets(&x)
            })
            .collect();
        Judge { sc, ms, s, col: col.to_vec(), var, jets, zero: sc.dag.jets(&vec![0.; nv]) }
    }

    /// Are a gradient and a Hessian over columns those of an expression times sign?
    fn derivs(&self, sign: f64, j: &Jet, g: &[f64], h: Option<&[f64]>, slack: Option<usize>) -> bool {
        let n = self.s.n;
        for v in 0..self.col.len() {
            if self.col[v].is_none() && !same(j.g[v], 0., j.mg[v]) {
                return false;
            }
        }
        for c in 0..n {
            let ok = match self.var[c] {
                Some(v) => same(g[c], sign * j.g[v], j.mg[v] + g[c].abs()),
                None => Some(c) == slack || g[c] == 0.,
            };
            if !ok {
                return false;
            }
        }
        for a in 0..n {
            for b in 0..=a {
                let w = match (self.var[a], self.var[b]) {
                    (Some(v), Some(w)) => (j.hess(v, w), j.mhess(v, w)),
                    _ => (0., 0.),
                };
                let got = h.map(|h| h[a * n + b]).unwrap_or(0.);
                if !same(got, sign * w.0, w.1 + got.abs()) {
                    return false;
                }
            }
        }
        true
    }

    fn objective(&self) -> Result<(), String> {
        let (sign, k) = match self.ms.obj.unwrap_or(Obj::Empty) {
            Obj::Empty => (1., None),
            Obj::Min(k) => (1., Some(k)),
            Obj::Max(k) => (-1., Some(k)),
        };
        let flat = match k {
            None => true,
            Some(k) => self.sc.dag.affine(k),
        };
        let mut off: Option<(f64, f64)> = None;
        let zero = Jet::con(self.sc.names.len(), 0.);
        for (p, e) in self.s.evals.iter().enumerate() {
            let j = k.map(|k| &self.jets[p][k]).unwrap_or(&zero);
            let m = match fit(j) {
                None => continue,
                Some(m) => m,
            };
            if !self.derivs(sign, j, &e.g, Some(&e.hphi), None) {
                return Err(format!("the objective's derivatives at {:?} are {:?} {:?}, those of the model's objective {:?} {:?} (sign {})", e.x, e.g, e.hphi, j.g, j.h, sign));
            }
            let d = e.phi - sign * j.v;
            // the size of what the posed objective adds up is not known; its terms are
            let t = 1e-9 * (m + e.phi.abs() + e.x.iter().zip(&e.g).map(|(a, b)| (a * b).abs()).sum::<f64>());
            if !d.is_finite() {
                return Err(format!("the objective at {:?} is {} instead of {}", e.x, e.phi, sign * j.v));
            }
            match off {
                None => off = Some((d, t)),
                Some((d0, t0)) if (d - d0).abs() > t + t0 => return Err(format!("the objective at {:?} is {} instead of {} (up to a constant {})", e.x, e.phi, sign * j.v, d0)),
                _ => (),
            }
            if !flat && d.abs() > t {
                return Err(format!("the objective at {:?} is {} instead of {}", e.x, e.phi, sign * j.v));
            }
            if let Some(c) = &self.s.c {
                if !self.derivs(sign, j, c, None, None) {
                    return Err(format!("the objective's coefficients are {:?} instead of {:?} times {}", c, j.g, sign));
                }
            }
        }
        Ok(())
    }

    /// Where the multiplier of constraint c may come from if row r is its row.
    fn compatible(&self, c: usize, r: usize, used: &[Vec<usize>]) -> Option<Loc> {
        let s = self.s;
        let con = &self.sc.cons[c];
        let mine = &used[r];
        let slack = match (con.rel, mine.len()) {
            (Rel::Eq, 0) => None,
            (Rel::Le, 1) | (Rel::Ge, 1) => Some(mine[0]),
            _ => return None,
        };
        'sign: for sigma in [1., -1.] {
            let mut coef: Option<f64> = None;
            let mut off: Option<(f64, f64)> = None;
            for (p, e) in s.evals.iter().enumerate() {
                let j = &self.jets[p][con.g];
                let m = match fit(j) {
                    None => continue,
                    Some(m) => m,
                };
                let (val, grad, h): (f64, &[f64], Option<&[f64]>) = if r < s.na {
                    let row = &s.a[r * s.n..(r + 1) * s.n];
                    ((0..s.n).map(|i| row[i] * e.x[i]).sum::<f64>() - s.b[r], row, None)
                } else {
                    let k = r - s.na;
                    (e.f[k], &e.j[k * s.n..(k + 1) * s.n], Some(&e.h[k]))
                };
                if !self.derivs(sigma, j, grad, h, slack) {
                    continue 'sign;
                }
                let mut d = val - sigma * j.v;
                let mut t = m + (0..s.n).map(|i| (grad[i] * e.x[i]).abs()).sum::<f64>();
                if r < s.na {
                    t += s.b[r].abs();
                }
                if let Some(k) = slack {
                    match coef {
                        None => coef = Some(grad[k]),
                        Some(q) if !same(q, grad[k], q.abs()) => continue 'sign,
                        _ => (),
                    }
                    d -= grad[k] * e.x[k];
                    t += (grad[k] * e.x[k]).abs();
                }
                let t = 1e-9 * t;
                if !d.is_finite() {
                    continue 'sign;
                }
                match off {
                    None => off = Some((d, t)),
                    Some((d0, t0)) if (d - d0).abs() > t + t0 => continue 'sign,
                    _ => (),
                }
                if slack.is_none() && d.abs() > t {
                    continue 'sign;
                }
            }
            let k = match slack {
                None => return Some(if r < s.na { (1, r) } else { (2, r - s.na) }),
                Some(k) => k,
            };
            if s.p[k] {
                continue 'sign;
            }
            let (coef, (off, room)) = match (coef, off) {
                (Some(a), Some(b)) => (a, b),
                _ => {
                    // nothing could be compared: either side may be its own
                    return Some((if s.u[k] < INF { 3 } else { 4 }, k));
                }
            };
            // row: sigma g + off + coef s = 0, so s moves with -sigma/coef times g
            let zero = -off / coef;
            let up = (-sigma / coef > 0.) == (con.rel == Rel::Le);
            let tol = room / coef.abs() + 1e-12;
            if up && (s.u[k] - zero).abs() <= tol && s.l[k] <= -INF {
                return Some((3, k));
            }
            if !up && (s.l[k] - zero).abs() <= tol && s.u[k] >= INF {
                return Some((4, k));
            }
        }
        None
    }

    fn check(&self) -> Result<Fit, String> {
        let s = self.s;
        let nr = s.na + s.nf;
        self.objective()?;
        // slack columns: each belongs to exactly one row
        let mut used: Vec<Vec<usize>> = vec![Vec::new(); nr];
        for c in 0..s.n {
            if self.var[c].is_some() {
                continue;
            }
            let mut on = 0;
            for r in 0..nr {
                let hit = if r < s.na { s.a[r * s.n + c] != 0. } else { s.evals.iter().any(|e| e.j[(r - s.na) * s.n + c] != 0.) };
                if hit {
                    used[r].push(c);
                    on += 1;
                }
            }
            if on != 1 {
                return Err(format!("column {} is no variable of the model and appears in {} rows", c, on));
            }
        }
        // integrality and start
        for c in 0..s.n {
            if let Some(v) = self.var[c] {
                if s.p[c] != self.sc.ints[v] {
                    return Err(format!("variable {:?} is {}an integer in the posed problem", self.sc.names[v], if s.p[c] { "" } else { "not " }));
                }
                let want = self.ms.init.get(&v).copied().unwrap_or(0.);
                let got = s.x0.as_ref().map(|x| x[c]).unwrap_or(0.);
                if got != want {
                    return Err(format!("variable {:?} starts from {} instead of {}", self.sc.names[v], got, want));
                }
            } else if s.p[c] {
                return Err(format!("column {}, which is no variable of the model, is an integer", c));
            }
        }
        // what kind of problem it is
        let d = &self.sc.dag;
        let mut nonlinear = false;
        let mut affine = true;
        let objk = match self.ms.obj.unwrap_or(Obj::Empty) {
            Obj::Empty => None,
            Obj::Min(k) | Obj::Max(k) => Some(k),
        };
        for k in objk.into_iter().chain(self.ms.cons.iter().map(|c| self.sc.cons[*c].g)) {
            affine &= d.affine(k);
            nonlinear |= self.jets.iter().any(|j| fit(&j[k]).is_some() && (0..j[k].h.len()).any(|i| j[k].h[i].abs() > 1e-6 * (j[k].mh[i] + 1e-3)));
        }
        let lin = matches!(s.kind, PKind::Lp | PKind::Milp);
        let int = matches!(s.kind, PKind::Milp | PKind::Minlp);
        if affine && !lin {
            return Err(format!("a linear model became a problem of kind {:?}", s.kind));
        }
        if nonlinear && lin {
            return Err(format!("a nonlinear model became a problem of kind {:?}", s.kind));
        }
        if int != s.p.iter().any(|p| *p) {
            return Err(format!("a model {} integers became a problem of kind {:?}", if int { "without" } else { "with" }, s.kind));
        }
        // what its combined Hessian adds up
        for e in &s.evals {
            for i in 0..s.n * s.n {
                let w: f64 = (0..s.nf).map(|k| e.nu[k] * e.h[k][i]).sum();
                let m: f64 = (0..s.nf).map(|k| (e.nu[k] * e.h[k][i]).abs()).sum();
                if w.is_finite() && !same(e.hc[i], w, m) {
                    return Err(format!("the combined Hessian has {} instead of {}", e.hc[i], w));
                }
            }
        }
        // rows and bounds
        let cons = &self.ms.cons;
        let nc = cons.len();
        let bounds: Vec<Option<(usize, bool, f64, f64)>> = cons
            .iter()
            .map(|c| {
                let con = &self.sc.cons[*c];
                if con.rel == Rel::Eq || !d.affine(con.g) {
                    return None;
                }
                let j = &self.zero[con.g];
                let (v, val, a) = bound_of(j)?;
                let c = self.col[v]?;
                Some((c, (con.rel == Rel::Le) == (a > 0.), val, 1e-9 * (j.mv / a.abs() + val.abs()) + 1e-12))
            })
            .collect();
        let rows: Vec<Vec<Option<Loc>>> = (0..nc).map(|i| (0..nr).map(|r| self.compatible(cons[i], r, &used)).collect()).collect();
        let mut owner = vec![usize::MAX; nr];
        let mut budget = 200_000u32;
        if !self.assign(0, &rows, &bounds, &mut owner, &mut budget) {
            if budget == 0 {
                sim().probe("matching given up");
                return Err("budget".into());
            }
            let none: Vec<usize> = (0..nr).filter(|r| (0..nc).all(|i| rows[i][*r].is_none())).collect();
            if !none.is_empty() {
                return Err(format!("row {} of the posed problem is no constraint of the model", none[0]));
            }
            for i in 0..nc {
                if bounds[i].is_none() && rows[i].iter().all(|r| r.is_none()) {
                    return Err(format!("constraint {} of the model has no row in the posed problem", i));
                }
            }
            return Err(format!("rows and bounds {:?} {:?} of the posed problem are not those of the model", s.l, s.u));
        }
        let mut mag = Vec::new();
        for j in &self.jets {
            let mut m = 1.0f64;
            for k in objk.into_iter().chain(cons.iter().map(|c| self.sc.cons[*c].g)) {
                m = m.max(fit(&j[k]).unwrap_or(f64::INFINITY));
            }
            mag.push(m);
        }
        let mut tied = false;
        for i in 0..nc {
            for k in 0..i {
                if let (Some(a), Some(b)) = (bounds[i], bounds[k]) {
                    tied |= a.0 == b.0 && a.1 == b.1 && a.2 == b.2;
                }
            }
        }
        Ok(Fit { rows: rows.into_iter().map(|v| v.into_iter().flatten().collect()).collect(), bounds: bounds.into_iter().map(|b| b.map(|(c, up, v, t)| ((if up { 3 } else { 4 }, c), v, t))).collect(), mag, tied })
    }

    fn assign(&self, r: usize, rows: &[Vec<Option<Loc>>], bounds: &[Option<(usize, bool, f64, f64)>], owner: &mut Vec<usize>, budget: &mut u32) -> bool {
        if *budget == 0 {
            return false;
        }
        *budget -= 1;
        let nc = rows.len();
        if r == owner.len() {
            let free: Vec<usize> = (0..nc).filter(|i| !owner.contains(i)).collect();
            let cons = &self.ms.cons;
            if free.iter().any(|i| bounds[*i].is_none() && !owner.iter().any(|k| cons[*k] == cons[*i])) {
                return false;
            }
            for c in 0..self.s.n {
                if self.var[c].is_none() {
                    continue;
                }
                // tightest bounds, upper one first (negated, the lower one)
                let mut tight: [Option<(f64, f64)>; 2] = [None, None];
                for (side, best) in tight.iter_mut().enumerate() {
                    let up = side == 0;
                    for i in &free {
                        if let Some((k, b_up, v, t)) = bounds[*i] {
                            if k == c && b_up == up {
                                let v = if up { v } else { -v };
                                if best.map(|b| v < b.0).unwrap_or(true) {
                                    *best = Some((v, t));
                                }
                            }
                        }
                    }
                }
                for side in 0..2 {
                    let got = if side == 0 { self.s.u[c] } else { -self.s.l[c] };
                    let ok = match tight[side] {
                        // the stand-in for no bound, unless the other bound lies beyond it
                        None => match tight[1 - side] {
                            Some((v, t)) if -v > INF + t => got >= 1e20,
                            _ => got >= INF,
                        },
                        Some((v, t)) => (got - v).abs() <= t,
                    };
                    if !ok {
                        return false;
                    }
                }
            }
            return true;
        }
        for i in 0..nc {
            if rows[i][r].is_some() && !owner.contains(&i) {
                owner[r] = i;
                if self.assign(r + 1, rows, bounds, owner, budget) {
                    return true;
                }
                owner[r] = usize::MAX;
            }
        }
        false
    }
}

// ---------------------------------------------------------------- the caller

fn read(env: &Env, m: usize) -> Caught<Res> {
    let model = &env.models[m];
    sut(|| {
        let p = model.final_primals();
        let d = model.final_duals();
        let st = model.solver_status();
        let _h = Host::enter();
        let mut r = Res { status: st.map(|s| format!("{:?}", s)), ..Default::default() };
        for (k, v) in p.iter() {
            match env.vars.iter().position(|x| x == *k) {
                Some(i) => {
                    r.vars.insert(i, v.to_bits());
                }
                None => r.others.push((k.name().to_string(), v.to_bits())),
            }
        }
        for (k, v) in d.iter() {
            match env.cons.iter().position(|x| x == *k) {
                Some(i) => {
                    r.duals.insert(i, v.to_bits());
                }
                None => r.foreign.push(v.to_bits()),
            }
        }
        r.others.sort();
        r.foreign.sort();
        r
    })
}

fn noise(env: &mut Env) {
    if env.noise == 0 {
        return;
    }
    let _g = Sut::enter();
    for _ in 0..splitmix(&mut env.noise) % 6 {
        let z = splitmix(&mut env.noise);
        if z % 3 == 0 && !env.junk.is_empty() {
            let k = (z >> 8) as usize % env.junk.len();
            drop(env.junk.swap_remove(k));
        } else {
            env.junk.push(Vec::with_capacity(8 + (z >> 8) as usize % 200));
        }
    }
}

fn build(env: &mut Env) -> bool {
    let s = sim();
    let sc = env.sc.clone();
    let mut d = sc.dag.clone();
    d.ops.truncate(sc.built);
    let vars = match sut(|| sc.names.iter().zip(&sc.ints).map(|(n, i)| if *i { VariableScalar::new_integer(n) } else { VariableScalar::new_continuous(n) }).collect::<Vec<Node>>()) {
        Caught::Ok(v) => v,
        Caught::Panic(e) => {
            s.violate(&["C14"], "build-panic", format!("creating variables panicked: {}", e));
            return false;
        }
    };
    env.vars = vars;
    noise(env);
    let vars = &env.vars;
    match sut(|| d.nodes(vars, sc.style)) {
        Caught::Ok(v) => env.nodes = v,
        Caught::Panic(e) => {
            s.violate(&["C14"], "build-panic", format!("building an expression panicked: {}", e));
            return false;
        }
    }
    noise(env);
    let nodes = &env.nodes;
    let r = sut(|| {
        let mut v: Vec<Constraint> = Vec::with_capacity(sc.cons.len());
        for c in &sc.cons {
            macro_rules! make {
                ($a: expr, $b: expr) => {
                    match (&c.tag, c.rel) {
                        (None, Rel::Le) => $a.leq($b),
                        (None, Rel::Ge) => $a.geq($b),
                        (None, Rel::Eq) => $a.equal($b),
                        (Some(t), Rel::Le) => $a.leq_and_tag($b, t),
                        (Some(t), Rel::Ge) => $a.geq_and_tag($b, t),
                        (Some(t), Rel::Eq) => $a.equal_and_tag($b, t),
                    }
                };
            }
            v.push(match (c.lhs, c.rhs) {
                (Side::Node(a), Side::Node(b)) if c.byval => make!(nodes[a], nodes[b].clone()),
                (Side::Node(a), Side::Node(b)) => make!(nodes[a], &nodes[b]),
                (Side::Node(a), Side::Num(b)) => make!(nodes[a], b),
                (Side::Num(a), Side::Node(b)) if c.byval => make!(a, nodes[b].clone()),
                (Side::Num(a), Side::Node(b)) => make!(a, &nodes[b]),
                _ => unreachable!(),
            });
        }
        v
    });
    match r {
        Caught::Ok(v) => {
            env.cons = v;
            if sc.lean {
                let _g = Sut::enter();
                env.nodes = Vec::new();
            }
        }
        Caught::Panic(e) => {
            s.violate(&["C14"], "build-panic", format!("building a constraint panicked: {}", e));
            return false;
        }
    }
    true
}

fn add_model(env: &mut Env) {
    if let Caught::Ok(m) = sut(Model::new) {
        {
            let _g = Sut::enter();
            env.models.push(m);
        }
        env.st.push(MState::default());
        env.res.push(Res::default());
        env.objs.push(None);
    }
}

/// Nothing but a solve of that very model changes its results.
fn unchanged(env: &mut Env, but: Option<usize>, what: &str) {
    let s = sim();
    for m in 0..env.models.len() {
        if Some(m) == but {
            continue;
        }
        match read(env, m) {
            Caught::Ok(r) => {
                if r != env.res[m] {
                    s.violate(&["C13"], "results-changed", format!("the results of model {} changed with {}: {:?} became {:?}", m, what, env.res[m], r));
                    env.res[m] = r;
                }
            }
            Caught::Panic(e) => s.violate(&["C13"], "read-panic", format!("reading results panicked: {}", e)),
        }
    }
}

fn judge_edit(env: &mut Env, m: usize) {
    let s = sim();
    let model = &env.models[m];
    let cons = &env.cons;
    let vars = &env.vars;
    let objn = env.objs[m].as_ref();
    let r = sut(|| {
        let c = model.constraints();
        let i = model.init_primals();
        let _h = Host::enter();
        let c: Vec<Option<usize>> = c.iter().map(|c| cons.iter().position(|x| x == c)).collect();
        let i: BTreeMap<usize, f64> = i.iter().filter_map(|(k, v)| vars.iter().position(|x| x == *k).map(|p| (p, *v))).collect();
        let o = match model.objective() {
            Objective::Empty => None,
            Objective::Minimize(n) => Some((true, Some(n) == objn)),
            Objective::Maximize(n) => Some((false, Some(n) == objn)),
        };
        (c, i, o)
    });
    let (c, i, o) = match r {
        Caught::Ok(x) => x,
        Caught::Panic(e) => {
            s.violate(&["C14"], "edit-panic", format!("reading a model panicked: {}", e));
            return;
        }
    };
    let st = &env.st[m];
    if c != st.cons.iter().map(|k| Some(*k)).collect::<Vec<_>>() {
        s.violate(&["C14"], "model-constraints", format!("the model holds constraints {:?} instead of {:?}", c, st.cons));
    }
    if i != st.init {
        s.violate(&["C14"], "model-init", format!("the model holds initial values {:?} instead of {:?}", i, st.init));
    }
    let ok = match (st.obj.unwrap_or(Obj::Empty), o) {
        (Obj::Empty, None) => true,
        (Obj::Min(_), Some((true, ok))) | (Obj::Max(_), Some((false, ok))) => ok,
        _ => false,
    };
    if !ok {
        s.violate(&["C14"], "model-objective", "the model holds another objective than the one set".into());
    }
}

fn mapping(env: &Env, snap: &Snap, no: usize, res: &Res) -> [Vec<Option<usize>>; 3] {
    let nv = env.vars.len();
    let seed = env.sc.seed;
    let by_final: Vec<Option<usize>> = (0..nv).map(|v| res.vars.get(&v).and_then(|b| (0..snap.n).find(|c| answer(seed, no, 0, *c).to_bits() == *b))).collect();
    // by name order, and by initial values where they tell
    let mut all: Vec<(String, bool, Option<usize>)> = res.others.iter().map(|(n, _)| (n.clone(), true, None)).collect();
    all.extend(res.vars.keys().map(|v| (env.sc.names[*v].clone(), false, Some(*v))));
    all.sort();
    let mut by_name = vec![None; nv];
    for (c, (_, _, v)) in all.iter().enumerate() {
        if let Some(v) = v {
            if c < snap.n {
                by_name[*v] = Some(c);
            }
        }
    }
    by_name.truncate(nv);
    let mut by_init = by_final.clone();
    return {
        if let Some(x0) = &snap.x0 {
            let _ = x0;
            by_init = (0..nv).map(|v| by_name[v]).collect();
            let mut taken: BTreeSet<usize> = BTreeSet::new();
            let mut told: BTreeMap<usize, usize> = BTreeMap::new();
            for v in 0..nv {
                if res.vars.contains_key(&v) {
                    let w = INIT.with(|i| i.borrow().get(&v).copied());
                    if let Some(w) = w {
                        if let Some(c) = (0..snap.n).find(|c| x0[*c] == w) {
                            told.insert(v, c);
                            taken.insert(c);
                        }
                    }
                }
            }
            let rest: Vec<usize> = (0..nv).filter(|v| res.vars.contains_key(v) && !told.contains_key(v)).collect();
            let free: Vec<usize> = by_name.iter().flatten().copied().filter(|c| !taken.contains(c)).collect();
            for (i, v) in rest.iter().enumerate() {
                by_init[*v] = free.get(i).copied();
            }
            for (v, c) in told {
                by_init[v] = Some(c);
            }
        }
        [by_final, by_name, by_init]
    };
}

thread_local! { static INIT: RefCell<BTreeMap<usize, f64>> = const { RefCell::new(BTreeMap::new()) }; }

fn loc_of(snap: &Snap, seed: u64, no: usize, bits: u64) -> Option<(usize, usize)> {
    for (w, len) in [(0, snap.n), (1, snap.na), (2, snap.nf), (3, snap.n), (4, snap.n)] {
        for k in 0..len {
            if answer(seed, no, w, k).to_bits() == bits {
                return Some((w, k));
            }
        }
    }
    None
}

fn solve(env: &mut Env, m: usize, out: u32) {
    let s = sim();
    let sc = env.sc.clone();
    let no = env.solves;
    env.solves += 1;
    s.logs(&format!("solve {} of model {} with outcome {}", no, m, out));
    let tap = Tap { seed: sc.seed, no, out, snap: RefCell::new(None), calls: Cell::new(0), nest: mix(sc.seed, 31 + no as u64) % 9 == 0, params: HashMap::new() };
    let model = &mut env.models[m];
    let r = sut(|| model.solve(&tap));
    if dead() {
        return;
    }
    let calls = tap.calls.get();
    let snap = tap.snap.into_inner();
    let res = match read(env, m) {
        Caught::Ok(r) => r,
        Caught::Panic(e) => {
            s.violate(&["C13"], "read-panic", format!("reading results panicked: {}", e));
            return;
        }
    };
    env.res[m] = res.clone();
    let rec = env.rec;
    let record = |r: Option<Record>| {
        if rec {
            RECS.lock().unwrap().entry(me()).or_default().push(r);
        }
    };
    let snap = match snap {
        None => {
            match &r {
                Caught::Panic(e) => s.violate(&["C14"], "pose-panic", format!("posing the problem panicked: {}", e)),
                _ => s.violate(&["C14"], "not-posed", "a solve did not pose its problem to the solver".into()),
            }
            if res != Res::default() {
                s.violate(&["C13"], "stale", format!("after a failed solve the model has results: {:?}", res));
            }
            record(None);
            return;
        }
        Some(Err(e)) => {
            s.violate(&["C14"], "malformed-problem", e);
            record(None);
            return;
        }
        Some(Ok(s)) => s,
    };
    if calls > 1 {
        s.violate(&["C13"], "solved-twice", format!("the solver was called {} times in one solve", calls));
    }
    let mut hash = 1u64;
    for v in [&snap.a, &snap.b, &snap.l, &snap.u].into_iter().flatten().chain(snap.evals.iter().flat_map(|e| e.g.iter().chain(&e.f).chain(&e.j).chain(&e.hphi))) {
        hash = mix(hash, v.to_bits());
    }
    s.logs(&format!("posed {:?} with {} columns, {} and {} rows, digest {:016x}", snap.kind, snap.n, snap.na, snap.nf, hash));
    s.probe(match snap.kind {
        PKind::Lp => "posed an lp",
        PKind::Milp => "posed a milp",
        PKind::Nlp => "posed an nlp",
        PKind::Minlp => "posed a minlp",
    });
    // an answer of odd shape may be refused, but only as a whole
    let odd = out == 6 && !matches!(r, Caught::Ok(Ok(())));
    if odd {
        s.probe("odd answer refused");
        if res != Res::default() {
            s.violate(&["C13"], "stale", format!("after a failed solve the model has results: {:?}", res));
        }
        INIT.with(|i| *i.borrow_mut() = env.st[m].init.clone());
        record(None);
        return;
    }
    if out == 6 {
        s.probe("odd answer accepted");
    }
    let good = out < 4 || out == 6;
    if !good {
        s.probe(if out == 4 { "solver refused" } else { "solver panicked" });
        match (&r, out) {
            (Caught::Ok(Ok(_)), _) => s.violate(&["C13"], "error-lost", "a solve returned normally although the solver failed".into()),
            (Caught::Panic(e), 4) => s.violate(&["C13"], "error-panic", format!("a solver's error became a panic: {}", e)),
            _ => (),
        }
        if res != Res::default() {
            s.violate(&["C13"], "stale", format!("after a failed solve the model has results: {:?}", res));
        }
        // what was posed must be right all the same
        INIT.with(|i| *i.borrow_mut() = env.st[m].init.clone());
        record(None);
        return;
    }
    match r {
        Caught::Ok(Ok(())) => (),
        Caught::Ok(Err(e)) => {
            s.violate(&["C13"], "spurious-error", format!("a solve failed although the solver answered: {}", e));
            if res != Res::default() {
                s.violate(&["C13"], "stale", format!("after a failed solve the model has results: {:?}", res));
            }
            record(None);
            return;
        }
        Caught::Panic(e) => {
            s.violate(&["C13", "C15"], "result-panic", format!("taking over the solver's answer panicked: {}", e));
            if res != Res::default() {
                s.violate(&["C13"], "stale", format!("after a failed solve the model has results: {:?}", res));
            }
            record(None);
            return;
        }
    }
    // C13: exactly this solve's results
    let want = format!("{:?}", status_of(out));
    if res.status.as_deref() != Some(&want) {
        s.violate(&["C13"], "status", format!("the solver reported {} and the model has {:?}", want, res.status));
    }
    let mut whole = true;
    let mut seen: BTreeSet<usize> = BTreeSet::new();
    for b in res.vars.values().chain(res.others.iter().map(|(_, b)| b)) {
        match (0..snap.n).find(|c| answer(sc.seed, no, 0, *c).to_bits() == *b) {
            Some(c) => {
                if !seen.insert(c) {
                    s.violate(&["C15", "C13"], "value-twice", format!("two variables carry the value of column {}", c));
                    whole = false;
                }
            }
            None => {
                s.violate(&["C13", "C15"], "value-not-this", format!("a variable has value {} which the solver did not report in this solve", f64::from_bits(*b)));
                whole = false;
            }
        }
    }
    if whole && seen.len() != snap.n {
        s.violate(&["C13", "C15"], "value-missing", format!("{} of {} columns of the posed problem have no value in the model", snap.n - seen.len(), snap.n));
        whole = false;
    }
    for (c, b) in &res.duals {
        if !env.st[m].cons.contains(c) {
            s.violate(&["C13", "C15"], "dual-foreign", format!("the model has a multiplier for constraint {} which is not its own", c));
            whole = false;
        }
        match loc_of(&snap, sc.seed, no, *b) {
            Some((0, _)) | None => {
                s.violate(&["C13", "C15"], "dual-not-this", format!("a constraint has multiplier {} which the solver did not report in this solve", f64::from_bits(*b)));
                whole = false;
            }
            _ => (),
        }
    }
    if !res.foreign.is_empty() {
        s.violate(&["C13", "C15"], "dual-foreign", "the model has a multiplier for an unknown constraint".into());
        whole = false;
    }
    if !whole {
        record(None);
        return;
    }
    // C14: equivalence, by the columns the results point at
    INIT.with(|i| *i.borrow_mut() = env.st[m].init.clone());
    let maps = mapping(env, &snap, no, &res);
    let ms = env.st[m].clone();
    let fit = match Judge::new(&sc, &ms, &snap, &maps[0], sc.seed).check() {
        Ok(f) => f,
        Err(e) if e == "budget" => {
            record(None);
            return;
        }
        Err(e) => {
            let other = (1..3).any(|k| maps[k] != maps[0] && Judge::new(&sc, &ms, &snap, &maps[k], sc.seed).check().is_ok());
            if other {
                s.violate(&["C15"], "values-exchanged", format!("the posed problem fits the model, but values went to other variables: {:?}", res.vars));
            } else {
                s.violate(&["C14"], "not-equivalent", e);
            }
            record(None);
            return;
        }
    };
    if fit.tied {
        s.probe("tied bounds");
    }
    // C15: multipliers
    let nc = ms.cons.len();
    let mut at: Vec<Option<Loc>> = vec![None; nc];
    for i in 0..nc {
        if let Some(b) = res.duals.get(&ms.cons[i]) {
            at[i] = loc_of(&snap, sc.seed, no, *b);
        }
    }
    for i in 0..nc {
        let con = &sc.cons[ms.cons[i]];
        let name = || format!("constraint {} ({:?} {:?} {:?})", ms.cons[i], con.lhs, con.rel, con.rhs);
        match at[i] {
            None => {
                let ok = match &fit.bounds[i] {
                    None => false,
                    Some((loc, v, t)) => (0..nc).any(|k| {
                        k != i
                            && at[k] == Some(*loc)
                            && match &fit.bounds[k] {
                                Some((l2, v2, t2)) => l2 == loc && if loc.0 == 3 { *v2 <= v + t + t2 } else { *v2 >= v - t - t2 },
                                None => false,
                            }
                    }),
                };
                if ok {
                    s.probe("redundant bound without multiplier");
                } else {
                    s.violate(&["C15"], "dual-missing", format!("{} has no multiplier", name()));
                }
            }
            Some(l) => {
                if (0..i).any(|k| at[k] == Some(l) && ms.cons[k] != ms.cons[i]) {
                    s.violate(&["C15"], "dual-twice", format!("{} carries the multiplier of another constraint", name()));
                }
                let mut ok = fit.rows[i].contains(&l);
                if let Some((loc, v, t)) = &fit.bounds[i] {
                    let force = if loc.0 == 3 { snap.u[loc.1] } else { snap.l[loc.1] };
                    ok |= *loc == l && (force - v).abs() <= *t;
                }
                if !ok {
                    let w = ["x", "lam", "nu", "mu", "pi"][l.0];
                    s.violate(&["C15"], "dual-wrong", format!("{} carries {}[{}], its own places are {:?} {:?}", name(), w, l.1, fit.rows[i], fit.bounds[i]));
                }
            }
        }
    }
    record(Some(Record { snap, mag: fit.mag, res }));
}

fn describe(sc: &Script, st: &Step) -> String {
    let side = |x: Side| match x {
        Side::Node(k) => sc.dag.show(k, &sc.names),
        Side::Num(c) => format!("{}", c),
    };
    let con = |k: usize| {
        let c = &sc.cons[k];
        let r = match c.rel {
            Rel::Le => "<=",
            Rel::Ge => ">=",
            Rel::Eq => "==",
        };
        format!("[{}] {} {} {}", k, side(c.lhs), r, side(c.rhs))
    };
    match st {
        Step::New => "another model".into(),
        Step::Read(m) => format!("model {}: read and display", m),
        Step::Add(m, v, many) => format!("model {}: add {}{}", m, if *many { "together " } else { "" }, v.iter().map(|k| con(*k)).collect::<Vec<_>>().join(" and ")),
        Step::Obj(m, Obj::Empty) => format!("model {}: no objective", m),
        Step::Obj(m, Obj::Min(k)) => format!("model {}: minimise {}", m, sc.dag.show(*k, &sc.names)),
        Step::Obj(m, Obj::Max(k)) => format!("model {}: maximise {}", m, sc.dag.show(*k, &sc.names)),
        Step::Init(m, v) => format!("model {}: start from {:?}", m, v.iter().map(|(k, x)| (sc.names[*k].clone(), *x)).collect::<Vec<_>>()),
        Step::Solve(m, o) => format!("model {}: solve, the solver {}", m, ["solves it", "finds it infeasible", "does not know", "reports an error", "fails", "panics", "answers with vectors of odd lengths"][*o as usize % 7]),
    }
}

fn step(env: &mut Env, st: &Step) {
    let s = sim();
    let sc = env.sc.clone();
    if s.trace {
        let d = format!("caller {} {}", me(), describe(&sc, st));
        s.say(d);
    }
    match st {
        Step::New => add_model(env),
        Step::Read(m) => {
            for _ in 0..2 {
                let _ = read(env, *m);
            }
            let model = &env.models[*m];
            if let Caught::Panic(e) = sut(|| {
                let t = format!("{}", model);
                drop(t);
            }) {
                s.violate(&["C13"], "show-panic", format!("displaying a model panicked: {}", e));
            }
        }
        Step::Add(m, v, many) => {
            let (model, cons) = (&mut env.models[*m], &env.cons);
            let r = sut(|| {
                if *many {
                    let c: Vec<&Constraint> = v.iter().map(|k| &cons[*k]).collect();
                    model.add_constraints(&c);
                } else {
                    for k in v {
                        model.add_constraint(&cons[*k]);
                    }
                }
            });
            if let Caught::Panic(e) = r {
                s.violate(&["C14"], "edit-panic", format!("adding constraints panicked: {}", e));
            }
            env.st[*m].cons.extend(v.iter());
        }
        Step::Obj(m, o) => {
            let (model, nodes, vars, cur) = (&mut env.models[*m], &env.nodes, &env.vars, &mut env.objs[*m]);
            let mut d = sc.dag.clone();
            d.ops.truncate(sc.built);
            let r = sut(|| {
                let fresh = if sc.lean { d.nodes(vars, sc.style) } else { vec![] };
                let get = |k: usize| if sc.lean { &fresh[k] } else { &nodes[k] };
                *cur = None;
                model.set_objective(match *o {
                    Obj::Empty => Objective::empty(),
                    Obj::Min(k) => Objective::minimize(get(k)),
                    Obj::Max(k) => Objective::maximize(get(k)),
                });
                if let Obj::Min(k) | Obj::Max(k) = *o {
                    *cur = Some(get(k).clone());
                }
            });
            if let Caught::Panic(e) = r {
                s.violate(&["C14"], "edit-panic", format!("setting the objective panicked: {}", e));
            }
            env.st[*m].obj = Some(*o);
        }
        Step::Init(m, v) => {
            let (model, vars) = (&mut env.models[*m], &env.vars);
            let r = sut(|| {
                let mut h: HashMap<&Node, f64> = HashMap::new();
                for (k, x) in v {
                    h.insert(&vars[*k], *x);
                }
                model.set_init_primals(&h);
            });
            if let Caught::Panic(e) = r {
                s.violate(&["C14"], "edit-panic", format!("setting initial values panicked: {}", e));
            }
            env.st[*m].init = v.iter().copied().collect();
        }
        Step::Solve(m, out) => {
            solve(env, *m, *out);
            unchanged(env, Some(*m), "a solve of another model");
            judge_edit(env, *m);
            return;
        }
    }
    let _ = sc;
    let m = match st {
        Step::Add(m, ..) | Step::Obj(m, ..) | Step::Init(m, ..) | Step::Read(m) => *m,
        _ => 0,
    };
    judge_edit(env, m);
    unchanged(env, None, match st {
        Step::Add(..) => "adding constraints",
        Step::Obj(..) => "setting the objective",
        Step::Init(..) => "setting initial values",
        Step::Read(_) => "reading",
        _ => "creating another model",
    });
}

fn body(list: Vec<(Arc<Script>, bool)>, noise_seed: u64) {
    let mut junk = vec![];
    for (sc, rec) in &list {
        if !dead() {
            junk = one_script(sc.clone(), *rec, noise_seed, junk);
        }
    }
    {
        let _g = Sut::enter();
        drop(junk);
    }
    if list.iter().any(|l| l.1) {
        compare();
    }
}

fn one_script(sc: Arc<Script>, rec: bool, noise_seed: u64, junk: Vec<Vec<u8>>) -> Vec<Vec<u8>> {
    let mut env = Env { sc: sc.clone(), vars: vec![], nodes: vec![], cons: vec![], models: vec![], st: vec![], res: vec![], solves: 0, noise: noise_seed, junk, objs: vec![], rec };
    noise(&mut env);
    if build(&mut env) {
        add_model(&mut env);
        for st in &sc.steps {
            if dead() {
                break;
            }
            noise(&mut env);
            yield_point("model step");
            step(&mut env, st);
        }
    }
    {
        let Env { vars, nodes, cons, models, junk, objs, .. } = env;
        let _g = Sut::enter();
        drop(objs);
        drop(models);
        drop(cons);
        drop(nodes);
        drop(vars);
        junk
    }
}

// ---------------------------------------------------------------- two environments

fn compare() {
    let s = sim();
    let g = RECS.lock().unwrap();
    let done = s.callers.iter().enumerate().filter(|(i, c)| *i != me() && c.state == CState::Done).count();
    if done + 1 != s.callers.len() {
        return;
    }
    let ids: Vec<usize> = g.keys().copied().collect();
    for w in ids.windows(2) {
        let (a, b) = (&g[&w[0]], &g[&w[1]]);
        if a.len() != b.len() {
            s.violate(&["C16"], "histories", format!("{} solves in one environment, {} in the other", a.len(), b.len()));
            return;
        }
        for (k, (x, y)) in a.iter().zip(b).enumerate() {
            match (x, y) {
                (Some(x), Some(y)) => {
                    if let Some(e) = differ(x, y) {
                        s.violate(&["C16"], "environment", format!("solve {}: {}", k, e));
                        return;
                    }
                    s.probe("problems compared");
                }
                (None, None) => (),
                _ => {
                    s.violate(&["C16"], "one-fails", format!("solve {} went wrong in one environment only", k));
                    return;
                }
            }
        }
    }
}

fn differ(x: &Record, y: &Record) -> Option<String> {
    let (a, b) = (&x.snap, &y.snap);
    if a.kind != b.kind || a.n != b.n || a.na != b.na || a.nf != b.nf {
        return Some(format!("kind {:?} with {} columns, {} and {} rows, against {:?}, {}, {} and {}", a.kind, a.n, a.na, a.nf, b.kind, b.n, b.na, b.nf));
    }
    let close = |p: &[f64], q: &[f64], t: f64| p.len() == q.len() && p.iter().zip(q).all(|(u, v)| u == v || u.is_nan() && v.is_nan() || (u - v).abs() <= t * (u.abs() + v.abs()) + t);
    if !close(&a.a, &b.a, 1e-12) {
        return Some(format!("linear rows {:?} against {:?}", a.a, b.a));
    }
    if !close(&a.b, &b.b, 1e-12) {
        return Some(format!("right-hand sides {:?} against {:?}", a.b, b.b));
    }
    if !close(&a.l, &b.l, 1e-12) || !close(&a.u, &b.u, 1e-12) {
        return Some(format!("bounds {:?} {:?} against {:?} {:?}", a.l, a.u, b.l, b.u));
    }
    if a.p != b.p {
        return Some(format!("integers {:?} against {:?}", a.p, b.p));
    }
    if a.x0 != b.x0 {
        return Some(format!("start {:?} against {:?}", a.x0, b.x0));
    }
    if let (Some(c), Some(d)) = (&a.c, &b.c) {
        if !close(c, d, 1e-12) {
            return Some(format!("objective {:?} against {:?}", c, d));
        }
    }
    for (k, (e, f)) in a.evals.iter().zip(&b.evals).enumerate() {
        let m = x.mag[k].max(y.mag[k]);
        if !m.is_finite() {
            continue;
        }
        let ok = |p: &[f64], q: &[f64]| p.len() == q.len() && p.iter().zip(q).all(|(u, v)| (u - v).abs() <= 1e-9 * (m + u.abs()));
        if !ok(&[e.phi], &[f.phi]) {
            return Some(format!("objective {} against {}", e.phi, f.phi));
        }
        if !ok(&e.g, &f.g) || !ok(&e.hphi, &f.hphi) {
            return Some("objective derivatives".into());
        }
        if !ok(&e.f, &f.f) || !ok(&e.j, &f.j) || e.h.iter().zip(&f.h).any(|(p, q)| !ok(p, q)) {
            return Some(format!("nonlinear rows {:?} against {:?}", e.f, f.f));
        }
    }
    if x.res.status != y.res.status || x.res.vars != y.res.vars || x.res.duals != y.res.duals {
        return Some(format!("results {:?} against {:?}", x.res, y.res));
    }
    None
}

pub fn setup(s: &mut Sim, prop: &str) -> Vec<CallerSpec> {
    RECS.lock().unwrap_or_else(|e| e.into_inner()).clear();
    s.switch_rate = *s.tape.pick(&[4, 2, 8]);
    let mut specs = Vec::new();
    let twin = prop == "C16";
    let n = if twin { 2 } else { 1 + s.tape.one_in(4) as usize };
    // several scripts one after the other, everything dropped between them
    let scripts = |s: &mut Sim| -> Vec<(Arc<Script>, bool)> {
        let k = *s.tape.pick(&[1, 1, 1, 2, 1, 3]);
        (0..k).map(|_| (Arc::new(gen_script(&mut s.tape, prop)), twin)).collect()
    };
    let mut list = scripts(s);
    let together = s.tape.one_in(3);
    let mut proc = s.add_proc("/work");
    for i in 0..n {
        if i > 0 {
            if !together {
                proc = s.add_proc("/work");
            }
            if !twin {
                list = scripts(s);
            }
        }
        let hash_seed = s.tape.u32() as u64;
        let pad = 16 * s.tape.draw(300) as usize;
        let noise_seed = if s.tape.one_in(2) { s.tape.u32() as u64 } else { 0 };
        let mut c = list.clone();
        if twin && s.tape.one_in(3) {
            // one of them has done something else before
            c.insert(0, (Arc::new(gen_script(&mut s.tape, prop)), false));
        }
        specs.push(CallerSpec { proc, after: None, rng_seed: 17 + s.tape.draw(1000) as u64, hash_seed, pad, body: Box::new(move || body(c, noise_seed)) });
    }
    specs
}
