//! World B: the native Ipopt library as a simulated peer. The harness defines the C entry points
//! itself; the code under test calls them, and the simulated peer drives its callbacks in orders
//! the Ipopt interface allows (C09), with malformed requests in between (C10), with creation,
//! options and the solve failing (C11), and with every status and vector it can return (C12, C17).

use crate::arena::{Host, Sut};
use crate::cmd::{begin_solve, check_params, cleanup_checks, end_solve, param_step, params_of, Any, PKind, Params, PV};
use crate::expr::{point, same};
use crate::sim::*;
use crate::truth::{self, Expect, Truth};
use crate::worker::{get_phase, phase};
use libc::{c_char, c_double, c_int, c_void};
use numopt::problem::base::{Problem, ProblemSol};
use numopt::problem::minlp::ProblemMinlp;
use numopt::solver::base::{SolverParam, SolverStatus};
use numopt::solver::ipopt::SolverIpopt;
use std::collections::BTreeMap;
use std::ffi::CStr;

type FnF = extern "C" fn(c_int, *const c_double, c_int, *mut c_double, *mut c_void) -> c_int;
type FnGrad = FnF;
type FnG = extern "C" fn(c_int, *const c_double, c_int, c_int, *mut c_double, *mut c_void) -> c_int;
type FnJac = extern "C" fn(c_int, *const c_double, c_int, c_int, c_int, *mut c_int, *mut c_int, *mut c_double, *mut c_void) -> c_int;
type FnH = extern "C" fn(c_int, *const c_double, c_int, c_double, c_int, *const c_double, c_int, c_int, *mut c_int, *mut c_int, *mut c_double, *mut c_void) -> c_int;

const BASE: usize = 0x6e00_0000_0000;

pub struct NProb {
    addr: usize,
    n: i32,
    m: i32,
    nj: i32,
    nh: i32,
    style: i32,
    f: FnF,
    g: FnG,
    grad: FnGrad,
    jac: FnJac,
    h: FnH,
    opts: BTreeMap<String, PV>,
    freed: u32,
    solve: usize,
}

/// What one caller's solve under way is about.
struct Plan {
    k: usize,
    truth: Truth,
    params: Params,
    malformed: u32, // one request in so many is malformed (0: none)
    calls: u32,
    made: Vec<usize>,
    create_refused: bool,
    opt_refused: bool,
    ran: u32,
    status: i32,
    x: Vec<f64>,
    mult: Vec<f64>,
    zl: Vec<f64>,
    zu: Vec<f64>,
    bad_seen: bool,
    stop: bool,
}

#[derive(Default)]
pub struct Native {
    probs: Vec<NProb>,
    plans: BTreeMap<usize, Box<Plan>>,
    uniq: u64,
}

fn plan() -> Option<&'static mut Plan> {
    sim().native.plans.get_mut(&me()).map(|b| &mut **b)
}

fn enter(op: &str) -> usize {
    let s = sim();
    let m = me();
    let ph = get_phase();
    yield_point(op);
    phase(ph);
    let k = s.callers[m].solve;
    if let Some(k) = k {
        s.solves[k].native += 1;
    }
    k.unwrap_or(usize::MAX)
}

fn props(base: &[&'static str], k: usize) -> Vec<&'static str> {
    let s = sim();
    let mut p = base.to_vec();
    if k < s.solves.len() && s.solves[k].overlapped {
        p.push("C06");
    }
    p
}

fn find(h: *mut c_void, op: &str) -> Option<usize> {
    let s = sim();
    let i = s.native.probs.iter().position(|p| p.addr == h as usize);
    match i {
        None => {
            s.violate(&["C11"], "unknown-problem", format!("{} was called with {}", op, if h.is_null() { "a null problem" } else { "a problem that was never created" }));
            None
        }
        Some(i) if s.native.probs[i].freed > 0 => {
            s.violate(&["C11"], if op == "FreeIpoptProblem" { "double-free" } else { "use-after-free" }, format!("{} was called on a native problem that had been released", op));
            None
        }
        i => i,
    }
}

// ---------------------------------------------------------------- the C interface

#[no_mangle]
pub extern "C" fn CreateIpoptProblem(n: c_int, xl: *const c_double, xu: *const c_double, m: c_int, gl: *const c_double, gu: *const c_double, nj: c_int, nh: c_int, style: c_int, f: FnF, g: FnG, grad: FnGrad, jac: FnJac, h: FnH) -> *mut c_void {
    let _h = Host::enter();
    let k = enter("CreateIpoptProblem");
    let s = sim();
    let p = match plan() {
        Some(p) => p,
        None => return std::ptr::null_mut(),
    };
    s.logs(&format!("c{} create n={} m={} nj={} nh={}", me(), n, m, nj, nh));
    let t = &p.truth;
    if n as usize != t.n || m as usize != t.na + t.nf || nj < 0 || nh < 0 {
        s.violate(&props(&["C12"], k), "dimensions", format!("the native problem is created with {} variables, {} constraints, {} and {} non-zeros; posed were {} variables and {}+{} constraints", n, m, nj, nh, t.n, t.na, t.nf));
    }
    let rd = |p: *const c_double, n: usize| -> Vec<f64> { if p.is_null() { vec![] } else { (0..n).map(|i| unsafe { *p.add(i) }).collect() } };
    let nn = t.n.min(n.max(0) as usize);
    let mm = (t.na + t.nf).min(m.max(0) as usize);
    let same = |a: &[f64], b: &[f64]| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x == y);
    if !same(&rd(xl, nn), &t.l[..nn]) || !same(&rd(xu, nn), &t.u[..nn]) {
        s.violate(&props(&["C12"], k), "bounds", format!("the native problem is created with variable bounds {:?} {:?} instead of {:?} {:?}", rd(xl, nn), rd(xu, nn), t.l, t.u));
    }
    let z = vec![0.; mm];
    if mm > 0 && (!same(&rd(gl, mm), &z) || !same(&rd(gu, mm), &z)) {
        s.violate(&props(&["C12"], k), "constraint-bounds", format!("the native problem is created with constraint bounds {:?} {:?}", rd(gl, mm), rd(gu, mm)));
    }
    if n < 1 || m < 0 || nj < 0 || nh < 0 || xl.is_null() || xu.is_null() || m > 0 && (gl.is_null() || gu.is_null()) || s.fault(F::NativeCreateNull) {
        p.create_refused = true;
        return std::ptr::null_mut();
    }
    let addr = BASE + (s.native.probs.len() + 1) * 64;
    p.made.push(s.native.probs.len());
    s.native.probs.push(NProb { addr, n, m, nj, nh, style, f, g, grad, jac, h, opts: BTreeMap::new(), freed: 0, solve: k });
    addr as *mut c_void
}

#[no_mangle]
pub extern "C" fn FreeIpoptProblem(h: *mut c_void) {
    let _h = Host::enter();
    enter("FreeIpoptProblem");
    let s = sim();
    s.logs(&format!("c{} free", me()));
    if let Some(i) = find(h, "FreeIpoptProblem") {
        s.native.probs[i].freed += 1;
        let k = s.callers[me()].solve;
        if Some(s.native.probs[i].solve) != k {
            s.violate(&props(&["C11"], k.unwrap_or(usize::MAX)), "foreign-free", "a solve released the native problem of another one".into());
        }
    }
}

fn option(h: *mut c_void, key: *const c_char, v: PV, op: &str) -> c_int {
    let _h = Host::enter();
    enter(op);
    let s = sim();
    let i = match find(h, op) {
        Some(i) => i,
        None => return 0,
    };
    let p = match plan() {
        Some(p) => p,
        None => return 0,
    };
    let key = if key.is_null() { String::new() } else { unsafe { CStr::from_ptr(key) }.to_string_lossy().into_owned() };
    s.logs(&format!("c{} option {} {:?}", me(), key, v));
    let ok = match (key.as_str(), &v) {
        ("print_level", PV::I(x)) => (0..=12).contains(x),
        ("sb", PV::S(x)) => x.eq_ignore_ascii_case("yes") || x.eq_ignore_ascii_case("no"),
        ("print_level", _) | ("sb", _) => false,
        _ => true,
    };
    if !ok {
        // a value nobody asked for does not make an honest refusal
        let same = match (p.params.get(&key), &v) {
            (Some(PV::S(a)), PV::S(b)) => a.eq_ignore_ascii_case(b),
            (Some(a), b) => a == b,
            (None, _) => true,
        };
        if !same {
            s.violate(&props(&["C17"], p.k), "option", format!("the native solver was handed {} = {:?} although the parameter is {:?}", key, v, p.params.get(&key)));
        }
    }
    if !ok || s.fault(F::NativeOptionRefused) {
        s.probe("native.option_refused");
        p.opt_refused = true;
        return 0;
    }
    s.native.probs[i].opts.insert(key, v);
    1
}

#[no_mangle]
pub extern "C" fn AddIpoptIntOption(h: *mut c_void, key: *const c_char, v: c_int) -> c_int {
    option(h, key, PV::I(v), "AddIpoptIntOption")
}
#[no_mangle]
pub extern "C" fn AddIpoptNumOption(h: *mut c_void, key: *const c_char, v: c_double) -> c_int {
    option(h, key, PV::F(v), "AddIpoptNumOption")
}
#[no_mangle]
pub extern "C" fn AddIpoptStrOption(h: *mut c_void, key: *const c_char, v: *const c_char) -> c_int {
    let t = {
        let _h = Host::enter();
        if v.is_null() { String::new() } else { unsafe { CStr::from_ptr(v) }.to_string_lossy().into_owned() }
    };
    let r = {
        let _h = Host::enter();
        option(h, key, PV::S(t.clone()), "AddIpoptStrOption")
    };
    let _h = Host::enter();
    drop(t);
    r
}
#[no_mangle]
pub extern "C" fn SetIpoptProblemScaling(_h: *mut c_void, _o: c_double, _x: *const c_double, _g: *const c_double) -> c_int {
    1
}
#[no_mangle]
pub extern "C" fn SetIntermediateCallback(_h: *mut c_void, _f: *const c_void) -> c_int {
    1
}
#[no_mangle]
pub extern "C" fn OpenIpoptOutputFile(_h: *mut c_void, _f: *const c_char, _l: c_int) -> c_int {
    1
}

fn unique(n: usize) -> Vec<f64> {
    let s = sim();
    (0..n)
        .map(|_| {
            s.native.uniq += 1;
            let v = s.native.uniq as f64 + 0.0625 + 1e-7 / s.native.uniq as f64;
            match s.tape.draw(12) {
                0 => 0.,
                1 | 2 | 3 => -v,
                4 => v * 1e9,
                _ => v,
            }
        })
        .collect()
}

#[no_mangle]
pub extern "C" fn IpoptSolve(h: *mut c_void, x: *mut c_double, g: *mut c_double, obj: *mut c_double, mult: *mut c_double, zl: *mut c_double, zu: *mut c_double, data: *mut c_void) -> c_int {
    let _h = Host::enter();
    let k = enter("IpoptSolve");
    let s = sim();
    let i = match find(h, "IpoptSolve") {
        Some(i) => i,
        None => return -199,
    };
    let p = match plan() {
        Some(p) => p,
        None => return -199,
    };
    p.ran += 1;
    s.logs(&format!("c{} IpoptSolve", me()));
    let (n, m) = (p.truth.n, p.truth.na + p.truth.nf);
    // options in force against the parameters
    for (name, dflt) in [("print_level", PV::I(5)), ("sb", PV::S("no".into()))] {
        let got = s.native.probs[i].opts.get(name).cloned().unwrap_or(dflt);
        if let Some(want) = p.params.get(name) {
            let eq = match (&got, want) {
                (PV::S(a), PV::S(b)) => a.eq_ignore_ascii_case(b),
                (a, b) => a == b,
            };
            if !eq {
                s.violate(&props(&["C17"], k), "option", format!("the native solver runs with {} = {:?} although the parameter is {:?}", name, got, want));
            }
        }
    }
    if s.native.probs[i].n as usize != n || s.native.probs[i].m as usize != m {
        return -199; // already reported
    }
    if x.is_null() || data.is_null() {
        s.violate(&props(&["C12"], k), "null-argument", "the native solve was started without a point or without the problem".into());
        return -13;
    }
    let start: Vec<f64> = (0..n).map(|j| unsafe { *x.add(j) }).collect();
    let want = p.truth.x0.clone().unwrap_or(vec![0.; n]);
    if start != want {
        s.violate(&props(&["C12"], k), "start", format!("the native solve starts at {:?} instead of {:?}", start, want));
    }
    let early = s.tape.one_in(20);
    if !early {
        drive(s, i, p, data, &start);
    }
    let p = plan().unwrap();
    if s.fatal {
        return -199;
    }
    p.status = if early {
        *s.tape.pick(&[-11, -12, -10, -102, -13, -199])
    } else if s.fault(F::NativeBadStatus) {
        *s.tape.pick(&[2, 3, 4, 5, 6, -1, -2, -3, -4, -5, -10, -11, -12, -13, -100, -101, -102, -103, -199, 1])
    } else if s.tape.one_in(4) {
        1
    } else {
        0
    };
    if !early {
        let put = |d: *mut c_double, v: &[f64]| {
            if !d.is_null() {
                for (j, y) in v.iter().enumerate() {
                    unsafe { *d.add(j) = *y };
                }
            }
        };
        // a solve that went wrong may leave anything in the vectors
        let wild = s.tape.one_in(6);
        let wild = |n: usize| -> Vec<f64> {
            let mut v = unique(n);
            if wild && n > 0 {
                let j = sim().tape.draw(n as u32) as usize;
                v[j] = *sim().tape.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::NAN, -0., 1e308, 5e-324]);
            }
            v
        };
        put(x, &wild(n));
        put(mult, &wild(m));
        put(zl, &wild(n));
        put(zu, &wild(n));
        put(g, &unique(m));
        put(obj, &unique(1));
    }
    let get = |d: *const c_double, n: usize| -> Vec<f64> { if d.is_null() { vec![f64::from_bits(NOT_ASKED); n] } else { (0..n).map(|j| unsafe { *d.add(j) }).collect() } };
    p.x = get(x, n);
    p.mult = get(mult, m);
    p.zl = get(zl, n);
    p.zu = get(zu, n);
    s.logs(&format!("c{} IpoptSolve returns {} {:?} {:?}", me(), p.status, p.x, p.mult));
    p.status
}

// ---------------------------------------------------------------- driving the callbacks

const GUARD: usize = 16;
const NOT_ASKED: u64 = 0x7ff8_0000_00a5_ced0;
fn poison_f(k: usize) -> f64 {
    f64::from_bits(0x7ff8_dead_0000_0000 | k as u64)
}
fn poison_i(k: usize) -> i32 {
    0x5a5a_0000u32 as i32 | k as i32 & 0xffff
}

/// An output buffer between guards.
struct Out<T> {
    v: Vec<T>,
    n: usize,
}
impl Out<f64> {
    fn new(n: usize) -> Self {
        Out { v: (0..n + 2 * GUARD).map(poison_f).collect(), n }
    }
    fn touched(&self, k: usize) -> bool {
        self.v[k].to_bits() != poison_f(k).to_bits()
    }
}
impl Out<i32> {
    fn new(n: usize) -> Self {
        Out { v: (0..n + 2 * GUARD).map(poison_i).collect(), n }
    }
    fn touched(&self, k: usize) -> bool {
        self.v[k] != poison_i(k)
    }
}
trait Touch {
    fn t(&self, k: usize) -> bool;
}
impl Touch for Out<f64> {
    fn t(&self, k: usize) -> bool {
        self.touched(k)
    }
}
impl Touch for Out<i32> {
    fn t(&self, k: usize) -> bool {
        self.touched(k)
    }
}
impl<T: Copy> Out<T>
where
    Out<T>: Touch,
{
    fn ptr(&mut self) -> *mut T {
        unsafe { self.v.as_mut_ptr().add(GUARD) }
    }
    fn all_written(&self) -> bool {
        (0..self.n).all(|k| self.t(GUARD + k))
    }
    fn guards_ok(&self) -> bool {
        (0..GUARD).all(|k| !self.t(k) && !self.t(GUARD + self.n + k))
    }
    fn untouched(&self) -> bool {
        (0..self.v.len()).all(|k| !self.t(k))
    }
    fn get(&self) -> &[T] {
        &self.v[GUARD..GUARD + self.n]
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Req {
    F,
    Grad,
    G,
    JacS,
    JacV,
    HessS,
    HessV,
}

struct Drive {
    last: Option<Vec<f64>>,
    lam: Option<Vec<f64>>,
    force_x: bool,
    force_l: bool,
    jac: Option<Vec<(i32, i32)>>,
    hess: Option<Vec<(i32, i32)>>,
    pts: Vec<(Vec<f64>, Expect)>,
    dead: bool,
    /// a refused request that named a point was taken to have had no effect
    relied: bool,
}

fn drive(s: &mut Sim, i: usize, p: &mut Plan, data: *mut c_void, start: &[f64]) {
    let k = p.k;
    let (n, m) = (p.truth.n, p.truth.na + p.truth.nf);
    let mut seed = s.tape.u32() as u64 + 1;
    let mut d = Drive { last: None, lam: None, force_x: true, force_l: true, jac: None, hess: None, pts: vec![], dead: false, relied: false };
    if let Some(e) = p.truth.expect(start) {
        d.pts.push((start.to_vec(), e));
    }
    for _ in 0..12 {
        if d.pts.len() >= 4 {
            break;
        }
        let mut x: Vec<f64> = (0..n).map(|_| point(&mut seed)).collect();
        if !d.pts.is_empty() && s.tape.one_in(3) {
            let q = s.tape.draw(d.pts.len() as u32) as usize;
            x = truth::near(&mut s.tape, &d.pts[q].0);
        } else if d.pts.len() > 1 && s.tape.one_in(2) {
            // differs from an earlier point in one place only
            let q = d.pts[d.pts.len() - 1].0.clone();
            let j = s.tape.draw(n as u32) as usize;
            let v = x[j];
            x = q;
            x[j] = v;
        }
        if d.pts.iter().any(|q| q.0 == x) {
            continue;
        }
        if let Some(e) = p.truth.expect(&x) {
            d.pts.push((x, e));
        }
    }
    if d.pts.is_empty() {
        s.probe("native.no_finite_point");
        return;
    }
    let ops = 3 + s.tape.draw(22);
    for _ in 0..ops {
        if p.stop || d.dead {
            break;
        }
        let ph = get_phase();
        yield_point("native step");
        phase(ph);
        let mut r = match s.tape.draw(17) {
            0..=2 => Req::F,
            3 | 4 => Req::Grad,
            5..=7 => Req::G,
            8 => Req::JacS,
            9..=11 => Req::JacV,
            12 => Req::HessS,
            _ => Req::HessV,
        };
        let bad = p.malformed > 0 && s.tape.one_in(p.malformed);
        if !bad {
            if r == Req::JacV && d.jac.is_none() {
                r = Req::JacS;
            }
            if r == Req::HessV && d.hess.is_none() {
                r = Req::HessS;
            }
        }
        request(s, i, p, &mut d, r, bad, data, n, m, k);
    }
    // memory handed to the callbacks does not outlive the solve
    for q in d.pts.iter_mut() {
        q.0.iter_mut().for_each(|v| *v = f64::NAN);
    }
}

#[allow(clippy::too_many_arguments)]
fn request(s: &mut Sim, i: usize, p: &mut Plan, d: &mut Drive, r: Req, bad: bool, data: *mut c_void, n: usize, m: usize, k: usize) {
    let pr = &s.native.probs[i];
    let (nj, nh, style) = (pr.nj as usize, pr.nh as usize, pr.style);
    let (cf, cg, cgr, cj, ch) = (pr.f, pr.g, pr.grad, pr.jac, pr.h);
    let structure = matches!(r, Req::JacS | Req::HessS);
    // the point asked about
    let q = match s.tape.draw(8) {
        0..=3 => d.last.as_ref().and_then(|l| d.pts.iter().position(|q| &q.0 == l)).unwrap_or(0),
        _ => s.tape.draw(d.pts.len() as u32) as usize,
    };
    let (x, e) = d.pts[q].clone();
    let unchanged = !d.force_x && d.last.as_ref() == Some(&x);
    let new_x = !unchanged || s.tape.one_in(4);
    // multipliers
    let lam: Vec<f64> = match (&d.lam, s.tape.draw(3)) {
        (Some(l), 1 | 2) => l.clone(),
        _ => {
            let mut seed = s.tape.u32() as u64;
            let zero = s.tape.one_in(6);
            (0..m).map(|_| if zero || s.tape.one_in(6) { 0. } else { point(&mut seed) }).collect()
        }
    };
    let l_unchanged = !d.force_l && d.lam.as_ref() == Some(&lam);
    let new_l = !l_unchanged || s.tape.one_in(4);
    let factor = *s.tape.pick(&[1., 0., -1., 0.5, 2.25, 1e-3, 40.]);
    // what goes over the wire
    let mut xb = x.clone();
    let mut lb = lam.clone();
    lb.push(f64::NAN);
    let (mut an, mut am, mut anj, mut anh) = (n as i32, m as i32, nj as i32, nh as i32);
    let (mut ax, mut al, mut adata) = (if structure { std::ptr::null() } else { xb.as_ptr() }, if structure { std::ptr::null() } else { lb.as_ptr() }, data);
    let fx: c_int = if structure { 0 } else { new_x as c_int };
    let fl: c_int = if structure { 0 } else { new_l as c_int };
    let mut o1 = Out::<f64>::new(1);
    let mut on = Out::<f64>::new(n);
    let mut om = Out::<f64>::new(m);
    let cnt = if matches!(r, Req::JacS | Req::JacV) { nj } else { nh };
    let mut ov = Out::<f64>::new(cnt);
    let mut oi = Out::<i32>::new(cnt);
    let mut oj = Out::<i32>::new(cnt);
    let (mut p1, mut pn, mut pm, mut pv, mut pi, mut pj) = (o1.ptr(), on.ptr(), om.ptr(), ov.ptr(), oi.ptr(), oj.ptr());
    if structure {
        pv = std::ptr::null_mut();
    } else {
        pi = std::ptr::null_mut();
        pj = std::ptr::null_mut();
    }
    let mut what = String::new();
    let mut lenient = false;
    if bad {
        // one thing (sometimes two) wrong with the request
        let wrong = |s: &mut Sim, v: i32| -> i32 {
            loop {
                let c = match s.tape.draw(8) {
                    0 => v + 1,
                    1 => v - 1,
                    2 => -1,
                    3 => 0,
                    4 => i32::MAX,
                    5 => -v,
                    6 => i32::MIN,
                    _ => v * 2 + 3,
                };
                if c != v {
                    return c;
                }
            }
        };
        let mut kinds: Vec<&str> = vec!["n", "data"];
        match r {
            Req::F | Req::Grad | Req::G => kinds.push("out"),
            _ => (),
        }
        if r == Req::G && m == 0 {
            kinds.retain(|k| *k != "out");
        }
        if !matches!(r, Req::F | Req::Grad) {
            kinds.push("m");
        }
        if matches!(r, Req::JacS | Req::JacV) {
            kinds.push("nj");
        }
        if matches!(r, Req::HessS | Req::HessV) {
            kinds.push("nh");
        }
        if structure && cnt > 0 {
            kinds.push("irow");
            kinds.push("jcol");
        }
        let judged = match r {
            Req::JacV => d.jac.is_some(),
            Req::HessV => d.hess.is_some(),
            _ => true,
        };
        if !structure && (new_x || judged) {
            kinds.push("x");
        }
        if r == Req::HessV && p.truth.nf > 0 && (new_l || judged) {
            kinds.push("lambda");
        }
        let c = kinds[s.tape.draw(kinds.len() as u32) as usize];
        what = c.to_string();
        match c {
            "n" => an = wrong(s, an),
            "m" => am = wrong(s, am),
            "nj" => anj = wrong(s, anj),
            "nh" => anh = wrong(s, anh),
            "data" => adata = std::ptr::null_mut(),
            // one that is not announced as new may be remembered instead of being refused
            "x" => {
                ax = std::ptr::null();
                lenient = !new_x;
            }
            "lambda" => {
                al = std::ptr::null();
                lenient = !new_l;
            }
            "irow" => pi = std::ptr::null_mut(),
            "jcol" => pj = std::ptr::null_mut(),
            _ => {
                p1 = std::ptr::null_mut();
                pn = std::ptr::null_mut();
                pm = std::ptr::null_mut();
            }
        }
        s.note_fault(F::NativeMalformedCall);
        p.bad_seen = true;
    }
    s.logs(&format!("c{} ask {:?} point {} new_x {} factor {} new_lambda {}{}", me(), r, q, fx, factor, fl, if bad { format!(" MALFORMED {} (n {} m {} nj {} nh {})", what, an, am, anj, anh) } else { String::new() }));
    s.probe(match r {
        Req::F => "ask.f",
        Req::Grad => "ask.grad",
        Req::G => "ask.g",
        Req::JacS => "ask.jac_structure",
        Req::JacV => "ask.jac_values",
        Req::HessS => "ask.hess_structure",
        Req::HessV => "ask.hess_values",
    });
    if r == Req::HessV && fx == 0 && fl == 0 {
        s.probe("ask.hess_nothing_new");
    }
    if p.truth.na > 0 && p.truth.nf > 0 {
        s.probe("ask.mixed_rows");
    }
    let ph = get_phase();
    phase(if bad { 2 } else { 1 });
    let ret = {
        let _s = Sut::enter();
        match r {
            Req::F => cf(an, ax, fx, p1, adata),
            Req::Grad => cgr(an, ax, fx, pn, adata),
            Req::G => cg(an, ax, fx, am, pm, adata),
            Req::JacS | Req::JacV => cj(an, ax, fx, am, anj, pi, pj, pv, adata),
            Req::HessS | Req::HessV => ch(an, ax, fx, if structure { 0. } else { factor }, am, al, fl, anh, pi, pj, pv, adata),
        }
    };
    phase(ph);
    let intact = |a: &[f64], b: &[f64]| a.iter().zip(b).all(|(x, y)| x == y);
    let in_ok = intact(&xb, &x) && intact(&lb[..m], &lam);
    xb.iter_mut().for_each(|v| *v = f64::NAN);
    lb.iter_mut().for_each(|v| *v = f64::NAN);
    p.calls += 1;
    if bad && lenient {
        s.probe("ask.unneeded_null");
    }
    if bad && !(lenient && ret != 0) {
        let pp = props(&["C10"], k);
        if ret != 0 {
            s.violate(&pp, "malformed-accepted", format!("a {:?} request with wrong {} (n {}, m {}, non-zeros {} {}) was answered with success", r, what, an, am, anj, anh));
            p.stop = true;
        }
        if !(o1.untouched() && on.untouched() && om.untouched() && ov.untouched() && oi.untouched() && oj.untouched()) {
            s.violate(&pp, "malformed-wrote", format!("a {:?} request with wrong {} wrote into its buffers", r, what));
        }
        // a refused request has no effect: the point and multipliers in force stay what they were
        // (half the time the caller does not rely on it and announces them anew)
        let rely = ret == 0 && s.tape.one_in(2);
        if fx != 0 && !rely {
            d.force_x = true;
        }
        if fl != 0 && !rely {
            d.force_l = true;
        }
        d.relied |= rely && (fx != 0 || fl != 0);
        return;
    }
    if fx != 0 {
        d.relied = false;
    }
    let mut base = if d.relied { vec![] } else { vec!["C09"] };
    if !structure {
        d.last = Some(x.clone());
        d.force_x = false;
        if r == Req::HessV {
            d.lam = Some(lam.clone());
            d.force_l = false;
        }
    }
    if p.bad_seen {
        base.push("C10");
    }
    let pp = props(&base, k);
    let head = format!("{:?} request (point {:?}, new_x {}, factor {}, multipliers {:?}, new_lambda {}; {} linear and {} nonlinear rows)", r, x, fx, factor, lam, fl, p.truth.na, p.truth.nf);
    if ret != 1 && !structure && !Truth::tame(&e) {
        // a point where something is not finite may be refused
        s.probe("native.refused_point");
        d.force_x = true;
        d.force_l = true;
        return;
    }
    if !Truth::tame(&e) {
        s.probe("native.not_finite");
    }
    if ret != 1 {
        s.violate(&pp, &format!("refused-{:?}", r), format!("{} was answered with failure", head));
        p.stop = true;
        return;
    }
    if !in_ok {
        s.violate(&pp, "input-changed", format!("{} changed its input vectors", head));
    }
    if !(o1.guards_ok() && on.guards_ok() && om.guards_ok() && ov.guards_ok() && oi.guards_ok() && oj.guards_ok()) {
        s.violate(&pp, "overrun", format!("{} wrote outside the buffer supplied", head));
        p.stop = true;
        return;
    }
    let complete = match r {
        Req::F => o1.all_written(),
        Req::Grad => on.all_written(),
        Req::G => om.all_written(),
        Req::JacS | Req::HessS => oi.all_written() && oj.all_written(),
        _ => ov.all_written(),
    };
    if !complete {
        let mut pp = pp.clone();
        if structure {
            pp.push("C12");
        }
        s.violate(&pp, &format!("incomplete-{:?}", r), format!("{} was answered incompletely", head));
        p.stop = true;
        return;
    }
    let mut wrong: Option<String> = None;
    match r {
        Req::F => {
            if !(if p.truth.linear() { same(o1.get()[0], e.phi, e.mphi) } else { truth::exact(o1.get()[0], e.phi) }) {
                wrong = Some(format!("objective {} instead of {}", o1.get()[0], e.phi));
            }
        }
        Req::Grad => {
            if !truth::exactly(on.get(), &e.g) {
                wrong = Some(format!("gradient {:?} instead of {:?}", on.get(), e.g));
            }
        }
        Req::G => {
            for (j, (v, sz)) in p.truth.rows(&e, &x).iter().enumerate() {
                if !truth::alike(om.get()[j], *v, *sz) {
                    wrong = Some(format!("constraint {} is {} instead of {}", j, om.get()[j], v));
                }
            }
        }
        Req::JacS | Req::HessS => {
            let st: Vec<(i32, i32)> = oi.get().iter().zip(oj.get()).map(|(a, b)| (a - style, b - style)).collect();
            let rows = if r == Req::JacS { m } else { n } as i32;
            if let Some(b) = st.iter().find(|c| c.0 < 0 || c.0 >= rows || c.1 < 0 || c.1 >= n as i32) {
                wrong = Some(format!("entry {:?} out of range", b));
            }
            let old = if r == Req::JacS { &mut d.jac } else { &mut d.hess };
            if old.is_some() && old.as_ref() != Some(&st) {
                wrong = Some("a structure that differs from the one announced before".into());
            }
            if r == Req::JacS && wrong.is_none() {
                // rows of entries must be able to carry the true derivative: checked with values
            }
            *old = Some(st);
        }
        Req::JacV => {
            let mut got: BTreeMap<(usize, usize), (f64, f64)> = BTreeMap::new();
            for (c, v) in d.jac.as_ref().unwrap().iter().zip(ov.get()) {
                let q = got.entry((c.0 as usize, c.1 as usize)).or_insert((0., 0.));
                q.0 += v;
                q.1 += v.abs();
            }
            wrong = truth::sums_differ(&got, &p.truth.jacobian(&e)).map(|w| format!("Jacobian {}", w));
        }
        Req::HessV => {
            let mut got: BTreeMap<(usize, usize), (f64, f64)> = BTreeMap::new();
            for (c, v) in d.hess.as_ref().unwrap().iter().zip(ov.get()) {
                let q = got.entry((c.0.max(c.1) as usize, c.0.min(c.1) as usize)).or_insert((0., 0.));
                q.0 += v;
                q.1 += v.abs();
            }
            wrong = truth::sums_differ(&got, &p.truth.lagrangian(&e, factor, &lam[p.truth.na..])).map(|w| format!("Hessian {}", w));
        }
    }
    if let Some(w) = wrong {
        s.violate(&pp, &format!("wrong-{:?}", r), format!("{} was answered with {}", head, w));
        if structure {
            p.stop = true;
        }
    }
}

// ---------------------------------------------------------------- callers

struct Cfg {
    ops: u32,
    shared: bool,
    params: u32,
    param_fault: u32,
    unsupported: u32,
    malformed: u32,
}

fn base_of(p: &mut Problem) -> &mut ProblemMinlp {
    match p {
        Problem::Lp(x) => x.as_mut_minlp(),
        Problem::Milp(x) => x.as_mut_minlp(),
        Problem::Nlp(x) => x.as_mut_minlp(),
        Problem::Minlp(x) => x,
    }
}

fn one_solve(any: &Any, model: &Params, held: &mut Vec<(Truth, Option<Problem>)>, cfg: &Cfg, broken: Option<&'static str>) {
    let s = sim();
    let idx = if !held.is_empty() && s.tape.one_in(3) {
        s.tape.draw(held.len() as u32) as usize
    } else {
        let kind = if cfg.unsupported > 0 && s.tape.one_in(cfg.unsupported) {
            *s.tape.pick(&[PKind::Minlp, PKind::Milp])
        } else if s.tape.one_in(4) {
            PKind::Lp
        } else {
            PKind::Nlp
        };
        let t = truth::gen(&mut s.tape, kind, 5);
        held.push((t, None));
        held.len() - 1
    };
    let (t, prob) = &mut held[idx];
    if prob.is_none() {
        match sut(|| t.build()) {
            Caught::Ok(p) => *prob = Some(p),
            Caught::Panic(m) => crate::worker::harness_error(&format!("cannot build a problem: {}", m)),
        }
    }
    let supported = any.supports(t.kind);
    s.probe(if supported { "solve.supported" } else { "solve.unsupported" });
    let k = begin_solve(None, "ipopt", None);
    let m = me();
    let mut params = model.clone();
    if broken.is_some() {
        params.clear();
    }
    s.native.plans.insert(m, Box::new(Plan { k, truth: t.clone(), params, malformed: cfg.malformed, calls: 0, made: vec![], create_refused: false, opt_refused: false, ran: 0, status: 0, x: vec![], mult: vec![], zl: vec![], zu: vec![], bad_seen: false, stop: false }));
    let pb = prob.as_mut().unwrap();
    phase(3);
    let r = sut(|| any.dy().solve(pb).map_err(|e| e.as_str().to_string()));
    phase(0);
    end_solve(k);
    let p = s.native.plans.remove(&m).unwrap();
    judge(k, &p, &r, supported, broken, model);
    cleanup_checks(k, supported);
    if let Some(w) = p.truth.data_differs(base_of(pb)) {
        s.violate(if supported { &["C12"] } else { &["C18"] }, "problem-changed", format!("solving changed the problem object: {}", w));
        let _g = Sut::enter();
        *prob = None;
    }
    let _g = Sut::enter();
    drop(r);
}

fn judge(k: usize, p: &Plan, r: &Caught<Result<(SolverStatus, ProblemSol), String>>, supported: bool, broken: Option<&'static str>, model: &Params) {
    let s = sim();
    let rec = s.solves[k].clone();
    let t = &p.truth;
    let what = format!("ipopt solve {} of a {:?} with {} variables, {}+{} rows (faults {:?}, parameters {:?}{})", k, t.kind, t.n, t.na, t.nf, rec.faults, model, broken.map(|b| format!(", {}", b)).unwrap_or_default());
    // the native problem
    for i in &p.made {
        if s.native.probs[*i].freed == 0 {
            let how = match r {
                Caught::Panic(m) => format!("panicked ({})", m),
                Caught::Ok(Ok(_)) => "succeeded".into(),
                Caught::Ok(Err(e)) => format!("returned an error ({})", e),
            };
            s.violate(&["C11"], "leak", format!("{} {} without releasing its native problem", what, how));
        }
    }
    let nul = matches!(model.get("sb"), Some(PV::S(v)) if v.contains('\0'));
    let failed = p.create_refused || p.opt_refused || broken.is_some() || nul;
    match r {
        Caught::Panic(m) => {
            s.logs("result panic");
            let b: &[&'static str] = if supported { &["C11"] } else { &["C18"] };
            s.violate(b, "panic", format!("{} panicked: {}", what, m));
        }
        Caught::Ok(Err(e)) => {
            s.logs(&format!("result error {}", e));
            s.probe("result.err");
            if supported && !failed {
                let mut b = vec!["C12"];
                if rec.native == 0 {
                    b.push("C18");
                }
                s.violate(&props(&b, k), "spurious-error", format!("{} returned an error though the native library refused nothing: {}", what, e));
            }
        }
        Caught::Ok(Ok((st, sol))) => {
            s.logs(&format!("result {:?}", st));
            if !supported {
                s.violate(&["C18"], "not-refused", format!("{}: a problem kind that is not supported was accepted", what));
                return;
            }
            if failed {
                s.violate(&["C11"], "failure-ignored", format!("{} returned {:?} although {}", what, st, if p.create_refused { "the native problem could not be created" } else if p.opt_refused { "an option was refused" } else { "a parameter could not be passed on" }));
                return;
            }
            if p.ran == 0 {
                s.violate(&props(&["C12"], k), "not-run", format!("{} returned {:?} without running the native solver", what, st));
                return;
            }
            s.probe("result.ok");
            let want = match p.status {
                0 | 1 => "solved",
                2 => "infeasible",
                _ => "neither",
            };
            let got = match st {
                SolverStatus::Solved => "solved",
                SolverStatus::Infeasible => "infeasible",
                _ => "neither",
            };
            if want != got {
                s.violate(&props(&["C12"], k), "status", format!("{} returned {:?} for native status {}", what, st, p.status));
            }
            let eq = |a: &[f64], b: &[f64]| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x == y || y.is_nan() && (x.is_nan() || y.abs().to_bits() == NOT_ASKED));
            let neg: Vec<f64> = p.mult.iter().map(|v| -v).collect();
            let mut bad = None;
            for (name, g, w) in [("x", &sol.x, &p.x[..]), ("lam", &sol.lam, &neg[..t.na]), ("nu", &sol.nu, &neg[t.na..]), ("pi", &sol.pi, &p.zl[..]), ("mu", &sol.mu, &p.zu[..])] {
                if !eq(g, w) {
                    bad = Some(format!("{} came back as {:?} instead of {:?}", name, g, w));
                }
            }
            if let Some(b) = bad {
                s.violate(&props(&["C12"], k), "solution", format!("{}: {}", what, b));
            }
        }
    }
}

fn body(cfg: Cfg) {
    let mut held: Vec<(Truth, Option<Problem>)> = Vec::new();
    let mut own: Option<(Any, Params)> = None;
    let proc = sim().callers[me()].proc;
    truth::YIELD.with(|y| y.set(true));
    for _ in 0..cfg.ops {
        let s = sim();
        if cfg.shared {
            let key = 1000 + proc;
            if !s.shared.contains_key(&key) {
                let lv = s.tape.draw(3) as i32;
                if let Caught::Ok(b) = sut(|| {
                    let mut a = Any::Ipopt(SolverIpopt::new());
                    let _ = a.dym().set_param("print_level", SolverParam::IntParam(lv));
                    Box::into_raw(Box::new(a)) as usize
                }) {
                    s.shared.insert(key, b);
                }
            }
            if let Some(b) = s.shared.get(&key) {
                let a = unsafe { &*(*b as *const Any) };
                let m = params_of(a.dy());
                one_solve(a, &m, &mut held, &cfg, None);
                check_params(a.dy(), &m, "after a solve");
            }
            continue;
        }
        if own.is_none() {
            if let Caught::Ok(a) = sut(|| Any::Ipopt(SolverIpopt::new())) {
                let m = params_of(a.dy());
                for w in ["print_level", "sb"] {
                    if !m.contains_key(w) {
                        s.violate(&["C17"], "known", format!("the documented parameter {} is not known", w));
                    }
                }
                own = Some((a, m));
            }
        }
        let (mut any, mut model) = match own.take() {
            Some(o) => o,
            None => return,
        };
        if cfg.params > 0 {
            let n = s.tape.draw(cfg.params + 1);
            for _ in 0..n {
                param_step(any.dym(), &mut model);
            }
        }
        let mut broken = None;
        if cfg.param_fault > 0 && s.tape.one_in(cfg.param_fault) {
            let name = *s.tape.pick(&["print_level", "sb"]);
            let f = *s.tape.pick(&[F::ParamRemoved, F::ParamWrongType, F::ParamNul]);
            s.fired[f as usize] += 1;
            s.logs(&format!("fault {:?} {}", f, name));
            match f {
                F::ParamNul => {
                    let v = format!("no\0{}", if s.tape.one_in(2) { "yes" } else { "" });
                    let v2 = v.clone();
                    let _ = sut(|| any.dym().set_param("sb", SolverParam::StrParam(v2)));
                    model.insert("sb".into(), PV::S(v));
                }
                _ => {
                    broken = Some(if f == F::ParamRemoved { "a parameter is missing" } else { "a parameter has the wrong type" });
                    let a = &mut any;
                    let _ = sut(|| {
                        let m = a.dym().get_params_mut();
                        m.remove(name);
                        if f == F::ParamWrongType {
                            m.insert(name.to_string(), SolverParam::FloatParam(1.));
                        }
                    });
                }
            }
        }
        one_solve(&any, &model, &mut held, &cfg, broken);
        if broken.is_some() {
            let a = &mut any;
            let m = &model;
            let _ = sut(|| {
                for (k, v) in m {
                    let v = match v {
                        PV::I(i) => SolverParam::IntParam(*i),
                        PV::F(f) => SolverParam::FloatParam(*f),
                        PV::S(s) => SolverParam::StrParam(s.clone()),
                    };
                    a.dym().get_params_mut().insert(k.clone(), v);
                }
            });
        }
        if matches!(model.get("sb"), Some(PV::S(v)) if v.contains('\0')) && s.tape.one_in(2) {
            let _ = sut(|| any.dym().set_param("sb", SolverParam::StrParam("no".into())));
            model.insert("sb".into(), PV::S("no".into()));
        }
        check_params(any.dy(), &model, "after a solve");
        own = Some((any, model));
    }
    truth::YIELD.with(|y| y.set(false));
    let _g = Sut::enter();
    drop(own);
    for h in held.iter_mut() {
        h.1 = None;
    }
}

pub fn setup(s: &mut Sim, prop: &str) -> Vec<CallerSpec> {
    let mut specs: Vec<CallerSpec> = Vec::new();
    let alone = s.tape.one_in(2) && prop != "C06";
    let nproc = if alone { 1 } else { 1 + s.tape.draw(2) as usize };
    s.switch_rate = *s.tape.pick(&[4, 2, 8, 1]);
    let (mut create, mut opt, mut stat) = (0, 0, *s.tape.pick(&[8, 0, 2]));
    match prop {
        "C11" => {
            create = *s.tape.pick(&[0, 4, 2]);
            opt = *s.tape.pick(&[0, 6, 3]);
            stat = 2;
        }
        "C12" => stat = *s.tape.pick(&[2, 1, 4]),
        _ => (),
    }
    s.faults.rate[F::NativeCreateNull as usize] = create;
    s.faults.rate[F::NativeOptionRefused as usize] = opt;
    s.faults.rate[F::NativeBadStatus as usize] = stat;
    s.faults.budget = 8;
    for p in 0..nproc {
        let proc = s.add_proc("/work");
        let nt = if alone { 1 } else { 1 + s.tape.draw(2) as usize + (nproc == 1) as usize };
        for th in 0..nt {
            let cfg = Cfg {
                ops: 1 + s.tape.draw(3),
                shared: s.tape.one_in(4),
                params: match prop {
                    "C17" => 3,
                    "C11" => s.tape.draw(3),
                    "C18" => 1,
                    _ => (s.tape.one_in(4)) as u32,
                },
                param_fault: if prop == "C11" { *s.tape.pick(&[0, 2, 4]) } else if prop == "C17" { *s.tape.pick(&[0, 4]) } else { 0 },
                unsupported: match prop {
                    "C18" => 2,
                    "C11" => 10,
                    _ => 0,
                },
                malformed: match prop {
                    "C10" => *s.tape.pick(&[3, 2, 6]),
                    "C11" | "C12" => *s.tape.pick(&[0, 0, 8]),
                    _ => 0,
                },
            };
            specs.push(CallerSpec { proc, after: None, rng_seed: 5 + p as u64, hash_seed: s.tape.u32() as u64 + th as u64, pad: 0, body: Box::new(move || body(cfg)) });
        }
    }
    specs
}
