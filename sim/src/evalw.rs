//! World D: histories of evaluations and Hessian combinations on problems of every kind, through
//! every view, with the user's function panicking part-way, evaluating another problem, or being
//! preempted; the values read back are compared with the reference after every step (C19).

use crate::arena::{Host, Sut};
use crate::cmd::PKind;
use crate::expr::{point, same};
use crate::sim::*;
use crate::tape::mix;
use crate::truth::{self, sums_differ, Expect, Truth};
use numopt::matrix::coo::CooMat;
use numopt::problem::base::Problem;
use numopt::problem::minlp::ProblemMinlp;
use std::collections::BTreeMap;

#[derive(Clone)]
struct Cfg {
    most: u32,
    ops: u32,
    panics: u32,
    nest: u32,
    probs: u32,
}

/// What one evaluated object should hold.
#[derive(Default)]
struct Ref {
    last: Option<(Vec<f64>, Expect)>,
    fresh: bool, // an evaluation has been completed since the last interruption
    comb: Option<BTreeMap<(usize, usize), (f64, f64)>>,
    evals: u32,
}

struct Held {
    t: Truth,
    p: Box<Problem>,
    refs: [Ref; 2],
}

struct Got {
    phi: f64,
    g: Vec<f64>,
    f: Vec<f64>,
    hphi: Vec<f64>,
    j: Vec<f64>,
    h: Vec<Vec<f64>>,
    comb: Vec<(usize, usize, f64)>,
    dims: (usize, usize, usize),
    data: Vec<Vec<f64>>,
}

fn trip(m: &CooMat<f64>) -> Vec<(usize, usize, f64)> {
    (0..m.data().len()).map(|k| (m.row_inds()[k], m.col_inds()[k], m.data()[k])).collect()
}

macro_rules! grab {
    ($m: expr) => {{
        let m = $m;
        let _h = Host::enter();
        Got {
            phi: m.phi(),
            g: m.gphi().to_vec(),
            f: m.f().to_vec(),
            hphi: m.hphi().data().to_vec(),
            j: m.j().data().to_vec(),
            h: m.h().iter().map(|h| h.data().to_vec()).collect(),
            comb: trip(m.hcomb()),
            dims: (m.nx(), m.na(), m.nf()),
            data: vec![m.b().to_vec(), m.l().to_vec(), m.u().to_vec(), m.x0().map(|x| x.to_vec()).unwrap_or_default()],
        }
    }};
}

fn views(k: PKind) -> u32 {
    match k {
        PKind::Lp => 4,
        PKind::Milp => 1,
        PKind::Nlp => 2,
        PKind::Minlp => 1,
    }
}
/// Which object a view leads to (an LP has two: one behind its MILP and MINLP views, one behind
/// its NLP view).
fn object(k: PKind, v: u32) -> usize {
    (k == PKind::Lp && v >= 2) as usize
}

macro_rules! through {
    ($p: expr, $v: expr, $m: ident => $e: expr) => {
        match $p {
            Problem::Lp(q) => match $v {
                0 => {
                    let $m = q.as_mut_minlp();
                    $e
                }
                1 => {
                    let $m = q.as_mut_milp().as_mut_minlp();
                    $e
                }
                2 => {
                    let $m = q.as_mut_nlp();
                    $e
                }
                _ => {
                    let $m = q.as_mut_nlp().as_mut_minlp();
                    $e
                }
            },
            Problem::Milp(q) => {
                let $m = q.as_mut_minlp();
                $e
            }
            Problem::Nlp(q) => match $v {
                0 => {
                    let $m = &mut *q;
                    $e
                }
                _ => {
                    let $m = q.as_mut_minlp();
                    $e
                }
            },
            Problem::Minlp(q) => {
                let $m = &mut *q;
                $e
            }
        }
    };
}

fn object_of(p: &mut Problem, o: usize) -> &mut ProblemMinlp {
    match p {
        Problem::Lp(q) => {
            if o == 1 {
                q.as_mut_nlp().as_mut_minlp()
            } else {
                q.as_mut_minlp()
            }
        }
        Problem::Milp(q) => q.as_mut_minlp(),
        Problem::Nlp(q) => q.as_mut_minlp(),
        Problem::Minlp(q) => q,
    }
}

fn find_point(t: &Truth, h: &mut Held2) -> Option<(Vec<f64>, Expect)> {
    let s = sim();
    for _ in 0..12 {
        let x: Vec<f64> = match s.tape.draw(8) {
            0 if s.tape.one_in(3) => vec![0.; t.n],
            0 if !h.seen.is_empty() => {
                let q = s.tape.draw(h.seen.len() as u32) as usize;
                truth::near(&mut s.tape, &h.seen[q])
            }
            1 if !h.seen.is_empty() => h.seen[s.tape.draw(h.seen.len() as u32) as usize].clone(),
            2 if !h.seen.is_empty() => {
                // an earlier point with one coordinate changed
                let mut x = h.seen[s.tape.draw(h.seen.len() as u32) as usize].clone();
                let k = s.tape.draw(t.n as u32) as usize;
                let mut r = s.tape.u32() as u64;
                x[k] = point(&mut r);
                x
            }
            _ => {
                let mut r = s.tape.u32() as u64;
                (0..t.n).map(|_| point(&mut r)).collect()
            }
        };
        if let Some(e) = t.expect(&x) {
            h.seen.push(x.clone());
            return Some((x, e));
        }
    }
    None
}
struct Held2 {
    seen: Vec<Vec<f64>>,
}

/// Compares everything one object holds with its reference.
fn judge(i: usize, h: &mut Held, v: u32, after: &str) {
    let s = sim();
    let o = object(h.t.kind, v);
    let p = &mut *h.p;
    let g = match sut(|| through!(p, v, m => grab!(m))) {
        Caught::Ok(g) => g,
        Caught::Panic(e) => {
            s.violate(&["C19"], "read-panic", format!("reading values panicked: {}", e));
            return;
        }
    };
    let t = &h.t;
    let r = &h.refs[o];
    let who = format!("problem {} ({:?}, view {}) after {}", i, t.kind, v, after);
    if g.dims != (t.n, t.na, t.nf) || g.g.len() != t.n || g.f.len() != t.nf || g.h.len() != t.nf {
        s.violate(&["C19"], "dimensions", format!("{}: dimensions {:?} instead of {:?}", who, g.dims, (t.n, t.na, t.nf)));
        return;
    }
    if g.data[0] != t.b || g.data[1] != t.l || g.data[2] != t.u || g.data[3] != t.x0.clone().unwrap_or_default() {
        s.violate(&["C19"], "data-altered", format!("{}: right-hand side, bounds or start are not those posed", who));
    }
    if let (Some((x, e)), true) = (&r.last, r.fresh) {
        let lin = t.linear();
        let ok = |a: &Vec<f64>, b: &Vec<f64>| truth::exactly(a, b);
        let phi = if lin { same(g.phi, e.phi, e.mphi) } else { truth::exact(g.phi, e.phi) };
        let bad = if !phi {
            Some(("phi", format!("{} instead of {}", g.phi, e.phi)))
        } else if !ok(&g.g, &e.g) {
            Some(("gphi", format!("{:?} instead of {:?}", g.g, e.g)))
        } else if !ok(&g.f, &e.f) {
            Some(("f", format!("{:?} instead of {:?}", g.f, e.f)))
        } else if !ok(&g.hphi, &e.hphi) {
            Some(("hphi", format!("{:?} instead of {:?}", g.hphi, e.hphi)))
        } else if !ok(&g.j, &e.j) {
            Some(("j", format!("{:?} instead of {:?}", g.j, e.j)))
        } else if g.h.len() != e.h.len() || g.h.iter().zip(&e.h).any(|(a, b)| !ok(a, b)) {
            Some(("h", format!("{:?} instead of {:?}", g.h, e.h)))
        } else {
            None
        };
        if let Some((w, m)) = bad {
            s.violate(&["C19"], &format!("stale-{}", w), format!("{}: {} is {} (last evaluated at {:?})", who, w, m, x));
        }
    }
    if let Some(w) = &r.comb {
        let mut m = BTreeMap::new();
        for (a, b, d) in &g.comb {
            if *a >= t.n || *b >= t.n {
                s.violate(&["C19"], "comb-pattern", format!("{}: the combined Hessian has an entry at ({}, {})", who, a, b));
                return;
            }
            let q = m.entry((*a.max(b), *a.min(b))).or_insert((0., 0.));
            q.0 += d;
            q.1 += d.abs();
        }
        if let Some(e) = sums_differ(&m, w) {
            s.violate(&["C19"], "combined", format!("{}: combined Hessian: {}", who, e));
        }
    }
    // everything else the problem says about itself
    let kind_ok = match p {
        Problem::Lp(q) => {
            let a: Vec<(usize, usize, f64)> = trip(q.a());
            q.c() == &t.c[..] && q.as_mut_milp().c() == &t.c[..] && q.b() == &t.b[..] && q.l() == &t.l[..] && q.u() == &t.u[..] && q.x0() == t.x0.as_deref() && a == t.trip && q.nx() == t.n && q.na() == t.na
        }
        Problem::Milp(q) => {
            let a: Vec<(usize, usize, f64)> = trip(q.a());
            q.c() == &t.c[..] && q.b() == &t.b[..] && q.l() == &t.l[..] && q.u() == &t.u[..] && q.x0() == t.x0.as_deref() && q.p() == &t.p[..] && a == t.trip
        }
        Problem::Nlp(q) => trip(q.a()) == t.trip && q.l() == &t.l[..] && q.u() == &t.u[..],
        Problem::Minlp(_) => true,
    };
    if !kind_ok {
        s.violate(&["C19"], "data-altered", format!("{}: coefficients, bounds, start or integrality are not those posed", who));
    }
    for o in 0..2 {
        if o == 1 && t.kind != PKind::Lp {
            break;
        }
        let m = object_of(p, o);
        if let Some(d) = t.data_differs(m) {
            s.violate(&["C19"], "data-altered", format!("{}: {} changed", who, d));
        }
        if m.hcomb().rows() != t.n || m.hcomb().cols() != t.n {
            s.violate(&["C19"], "comb-pattern", format!("{}: the combined Hessian is {} by {}", who, m.hcomb().rows(), m.hcomb().cols()));
        }
    }
}

fn body(cfg: Cfg) {
    let s = sim();
    let mut held: Vec<Held> = Vec::new();
    let mut seen: Vec<Held2> = Vec::new();
    truth::YIELD.with(|y| y.set(true));
    for _ in 0..cfg.probs {
        let kind = *s.tape.pick(&[PKind::Nlp, PKind::Minlp, PKind::Lp, PKind::Milp, PKind::Nlp, PKind::Minlp]);
        let t = truth::gen(&mut s.tape, kind, cfg.most);
        match sut(|| Box::new(t.build())) {
            Caught::Ok(p) => {
                held.push(Held { t, p, refs: Default::default() });
                seen.push(Held2 { seen: vec![] });
            }
            Caught::Panic(e) => {
                s.violate(&["C19"], "build-panic", format!("creating a problem panicked: {}", e));
            }
        }
    }
    for _ in 0..cfg.ops {
        if held.is_empty() || dead() {
            break;
        }
        yield_point("evaluation step");
        let i = s.tape.draw(held.len() as u32) as usize;
        let v = s.tape.draw(views(held[i].t.kind));
        let o = object(held[i].t.kind, v);
        let what = s.tape.draw(10);
        let mut also: Option<(usize, u32)> = None;
        let did;
        match what {
            0..=4 => {
                let t = held[i].t.clone();
                let (x, e) = match find_point(&t, &mut seen[i]) {
                    Some(q) => q,
                    None => continue,
                };
                let stage = if !t.linear() && cfg.panics > 0 && s.tape.one_in(cfg.panics) { s.tape.draw(7) as i32 } else { -1 };
                let mut nested: Option<(usize, Vec<f64>, Expect)> = None;
                if !t.linear() && cfg.nest > 0 && held.len() > 1 && s.tape.one_in(cfg.nest) {
                    let k = (i + 1 + s.tape.draw(held.len() as u32 - 1) as usize) % held.len();
                    let tk = held[k].t.clone();
                    if let Some((y, ey)) = find_point(&tk, &mut seen[k]) {
                        nested = Some((k, y, ey));
                    }
                }
                truth::PANIC_AT.with(|p| p.set(-1));
                if let Some((k, y, _)) = &nested {
                    let q = object_of(&mut held[*k].p, 0) as *mut ProblemMinlp as usize;
                    let y = y as *const Vec<f64> as usize;
                    truth::NEST.with(|n| n.set((q, y)));
                }
                let will_fail = stage == 0 || stage > 0 && nested.is_none() && !(stage == 6 && t.nf == 0);
                if nested.is_none() {
                    truth::PANIC_AT.with(|p| p.set(stage));
                }
                let will_fail = will_fail && nested.is_none();
                s.logs(&format!("evaluate {} through view {} at point {:016x}{}", i, v, x.iter().fold(0, |a, b| mix(a, b.to_bits())), if will_fail { " and fail" } else { "" }));
                if will_fail {
                    s.note_fault(F::EvalPanic);
                }
                let p = &mut *held[i].p;
                let r = sut(|| through!(p, v, m => m.evaluate(&x)));
                truth::PANIC_AT.with(|p| p.set(-1));
                truth::NEST.with(|n| n.set((0, 0)));
                let rf = &mut held[i].refs[o];
                match (r, will_fail) {
                    (Caught::Ok(()), false) => {
                        rf.last = Some((x, e));
                        rf.fresh = true;
                        rf.evals += 1;
                        if let Some((k, y, ey)) = nested {
                            s.probe("nested evaluation");
                            let q = &mut held[k].refs[0];
                            q.last = Some((y, ey));
                            q.fresh = true;
                            also = Some((k, 0));
                        }
                        did = "an evaluation";
                    }
                    (Caught::Panic(_), true) => {
                        s.probe("evaluation interrupted");
                        rf.fresh = false;
                        did = "an interrupted evaluation";
                    }
                    (Caught::Ok(()), true) => {
                        s.violate(&["C19"], "panic-lost", "a panic of the user's function did not reach the caller of evaluate".into());
                        rf.fresh = false;
                        did = "an interrupted evaluation";
                    }
                    (Caught::Panic(m), false) => {
                        s.violate(&["C19"], "eval-panic", format!("evaluating panicked: {}", m));
                        rf.fresh = false;
                        did = "an evaluation";
                    }
                }
            }
            5 | 6 | 7 => {
                let t = &held[i].t;
                let nu: Vec<f64> = (0..t.nf)
                    .map(|_| {
                        if s.tape.one_in(4) {
                            0.
                        } else {
                            let mut r = s.tape.u32() as u64;
                            point(&mut r)
                        }
                    })
                    .collect();
                let rf = &held[i].refs[o];
                let known = rf.fresh && rf.last.is_some();
                let want = match &rf.last {
                    Some((_, e)) if known => {
                        let z = Expect { hphi: vec![0.; t.hphi.r.len()], ..e.clone() };
                        Some(t.lagrangian(&z, 0., &nu))
                    }
                    _ => None,
                };
                s.logs(&format!("combine {} through view {}", i, v));
                let p = &mut *held[i].p;
                match sut(|| through!(p, v, m => m.combine_h(&nu))) {
                    Caught::Ok(()) => held[i].refs[o].comb = want,
                    Caught::Panic(e) => {
                        s.violate(&["C19"], "combine-panic", format!("combining Hessians panicked: {}", e));
                        held[i].refs[o].comb = None;
                    }
                }
                s.probe("combined");
                did = "a combination";
            }
            8 => {
                // the problem moves in memory
                let h = &mut held[i];
                let _g = Sut::enter();
                let old = std::mem::replace(&mut h.p, Box::new(Problem::Lp(numopt::problem::lp::ProblemLp::new(vec![], CooMat::from_nnz((0, 0), 0), vec![], vec![], vec![], None))));
                h.p = Box::new(*old);
                did = "a move";
            }
            _ => did = "a look",
        }
        judge(i, &mut held[i], v, did);
        if s.tape.one_in(3) {
            let v2 = s.tape.draw(views(held[i].t.kind));
            judge(i, &mut held[i], v2, did);
        }
        if let Some((k, v)) = also {
            judge(k, &mut held[k], v, "a nested evaluation");
        }
        if held.len() > 1 && s.tape.one_in(3) {
            let k = s.tape.draw(held.len() as u32) as usize;
            let v = s.tape.draw(views(held[k].t.kind));
            judge(k, &mut held[k], v, "work on another problem");
        }
    }
    truth::YIELD.with(|y| y.set(false));
    let _g = Sut::enter();
    for h in held {
        let Held { p, .. } = h;
        drop(p);
    }
}

pub fn setup(s: &mut Sim, _prop: &str) -> Vec<CallerSpec> {
    s.switch_rate = *s.tape.pick(&[4, 2, 8]);
    let n = 1 + s.tape.draw(2) as usize;
    let together = s.tape.one_in(2);
    let mut proc = s.add_proc("/work");
    let mut specs = Vec::new();
    for i in 0..n {
        if i > 0 && !together {
            proc = s.add_proc("/work");
        }
        let cfg = Cfg { most: *s.tape.pick(&[3, 5, 1]), ops: 3 + s.tape.draw(14), panics: *s.tape.pick(&[0, 4, 2]), nest: *s.tape.pick(&[0, 4]), probs: 1 + s.tape.draw(3) };
        specs.push(CallerSpec { proc, after: None, rng_seed: 3, hash_seed: s.tape.u32() as u64, pad: 16 * s.tape.draw(100) as usize, body: Box::new(move || body(cfg)) });
    }
    specs
}
