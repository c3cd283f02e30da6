//! Random optimization problems together with what they should evaluate to, shared by the
//! Ipopt world and the evaluation world.

use crate::arena::Host;
use crate::cmd::{coo, number, PKind};
use crate::expr::{gen_affine, gen_any, same, Dag};
use crate::tape::{mix, Tape};
use numopt::matrix::coo::CooMat;
use numopt::problem::base::Problem;
use numopt::problem::lp::ProblemLp;
use numopt::problem::milp::ProblemMilp;
use numopt::problem::minlp::ProblemMinlp;
use numopt::problem::nlp::ProblemNlp;
use std::cell::Cell;
use std::collections::BTreeMap;

thread_local! {
    /// The stage of its work at which the user's evaluation function panics (-1: never).
    pub static PANIC_AT: Cell<i32> = const { Cell::new(-1) };
    /// Another problem (and point) the user's function evaluates on the way.
    pub static NEST: Cell<(usize, usize)> = const { Cell::new((0, 0)) };
    /// Whether the scheduler may switch callers while the user's function runs.
    pub static YIELD: Cell<bool> = const { Cell::new(false) };
}

/// A sparsity pattern; the entry k of the data is `w[k]` times the true derivative there.
#[derive(Clone, Default, Debug)]
pub struct Pat {
    pub r: Vec<usize>,
    pub c: Vec<usize>,
    pub w: Vec<f64>,
}

#[derive(Clone, Debug)]
pub struct Truth {
    pub kind: PKind,
    pub n: usize,
    pub na: usize,
    pub nf: usize,
    pub c: Vec<f64>,
    pub dag: Dag,
    pub phi: usize,
    pub f: Vec<usize>,
    pub trip: Vec<(usize, usize, f64)>,
    pub b: Vec<f64>,
    pub l: Vec<f64>,
    pub u: Vec<f64>,
    pub p: Vec<bool>,
    pub x0: Option<Vec<f64>>,
    pub hphi: Pat,
    pub j: Pat,
    pub h: Vec<Pat>,
    /// If not zero, the user's functions are rough: every value is scaled (and now and then
    /// replaced by an infinity or NaN) as a hash of the point and this number says.
    pub rough: u64,
}

/// Everything a problem should hold after an evaluation.
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Expect {
    pub phi: f64,
    pub mphi: f64,
    pub g: Vec<f64>,
    pub f: Vec<f64>,
    pub hphi: Vec<f64>,
    pub j: Vec<f64>,
    pub h: Vec<Vec<f64>>,
}

fn small(t: &mut Tape) -> f64 {
    let v = (1 + t.draw(63)) as f64 / 8.;
    if t.one_in(2) { -v } else { v }
}

fn shuffle(t: &mut Tape, p: &mut Pat) {
    for i in (1..p.r.len()).rev() {
        let j = t.draw(i as u32 + 1) as usize;
        p.r.swap(i, j);
        p.c.swap(i, j);
        p.w.swap(i, j);
    }
}

fn cell(t: &mut Tape, p: &mut Pat, r: usize, c: usize) {
    if t.one_in(8) {
        let w = *t.pick(&[0.25, 0.5, 2., -1.]);
        for w in [w, 1. - w] {
            p.r.push(r);
            p.c.push(c);
            p.w.push(w);
        }
    } else {
        p.r.push(r);
        p.c.push(c);
        p.w.push(1.);
    }
}

fn hpat(t: &mut Tape, d: &Dag, k: usize, affine: bool) -> Pat {
    let mut p = Pat::default();
    let vs = d.vars(k);
    let mut on: Vec<(usize, usize)> = Vec::new();
    if !affine {
        for i in &vs {
            for j in &vs {
                if j <= i {
                    on.push((*i, *j));
                }
            }
        }
    }
    if t.one_in(4) {
        let i = t.draw(d.nv as u32) as usize;
        let j = t.draw(i as u32 + 1) as usize;
        if !on.contains(&(i, j)) {
            on.push((i, j));
        }
    }
    for (i, j) in on {
        cell(t, &mut p, i, j);
    }
    if t.one_in(2) {
        shuffle(t, &mut p);
    }
    p
}

pub fn gen(t: &mut Tape, kind: PKind, most: u32) -> Truth {
    let n = 1 + t.draw(most) as usize;
    let na = *t.pick(&[0, 1, 2, 3, 0, 1, 4]) as usize;
    let linear = matches!(kind, PKind::Lp | PKind::Milp);
    let nf = if linear { 0 } else { *t.pick(&[1, 0, 2, 3, 1, 2]) as usize };
    let mut dag = Dag::new(n);
    let c: Vec<f64> = (0..n).map(|_| if t.one_in(5) { 0. } else { number(t) }).collect();
    let phi = if linear {
        0
    } else if t.one_in(5) {
        gen_affine(t, &mut dag, 3)
    } else {
        gen_any(t, &mut dag, 6, 40)
    };
    let f: Vec<usize> = (0..nf).map(|_| if t.one_in(6) { gen_affine(t, &mut dag, 3) } else { gen_any(t, &mut dag, 6, 40) }).collect();
    let mut trip = Vec::new();
    for i in 0..na {
        for _ in 0..t.draw(n as u32 + 2) {
            let j = t.draw(n as u32) as usize;
            let v = if t.one_in(9) { 0. } else if t.one_in(3) { number(t) } else { small(t) };
            trip.push((i, j, v));
        }
    }
    if t.one_in(2) {
        for i in (1..trip.len()).rev() {
            let j = t.draw(i as u32 + 1) as usize;
            trip.swap(i, j);
        }
    }
    let b = (0..na).map(|_| small(t)).collect();
    let mut l = Vec::new();
    let mut u = Vec::new();
    for _ in 0..n {
        let (a, e) = (small(t), small(t));
        let (a, e) = match t.draw(6) {
            0 => (f64::NEG_INFINITY, f64::INFINITY),
            1 => (-1e8, 1e8),
            2 => (a, f64::INFINITY),
            3 => (a, a),
            _ => (a.min(e), a.max(e)),
        };
        l.push(a);
        u.push(e);
    }
    let ints = matches!(kind, PKind::Milp | PKind::Minlp);
    let p = (0..n).map(|_| ints && t.one_in(2)).collect();
    let x0 = if t.one_in(3) { None } else { Some((0..n).map(|_| small(t)).collect()) };
    let (mut hphi, mut j, mut h) = (Pat::default(), Pat::default(), Vec::new());
    if !linear {
        let a = dag.affine(phi);
        hphi = hpat(t, &dag, phi, a);
        for (i, k) in f.iter().enumerate() {
            for v in dag.vars(*k) {
                cell(t, &mut j, i, v);
            }
            if t.one_in(5) {
                let v = t.draw(n as u32) as usize;
                if !dag.vars(*k).contains(&v) {
                    cell(t, &mut j, i, v);
                }
            }
            let a = dag.affine(*k);
            h.push(hpat(t, &dag, *k, a));
        }
        if t.one_in(2) {
            shuffle(t, &mut j);
        }
    }
    let rough = if !linear && t.one_in(3) { 1 + t.u32() as u64 } else { 0 };
    Truth { kind, n, na, nf, c, dag, phi, f, trip, b, l, u, p, x0, hphi, j, h, rough }
}

impl Truth {
    pub fn linear(&self) -> bool {
        matches!(self.kind, PKind::Lp | PKind::Milp)
    }

    pub fn expect(&self, x: &[f64]) -> Option<Expect> {
        let mut e = Expect::default();
        if self.linear() {
            e.g = self.c.clone();
            e.phi = self.c.iter().zip(x).map(|(a, b)| a * b).sum();
            e.mphi = self.c.iter().zip(x).map(|(a, b)| (a * b).abs()).sum();
            return if e.phi.is_finite() { Some(e) } else { None };
        }
        let js = self.dag.jets(x);
        let p = &js[self.phi];
        e.phi = p.v;
        e.g = p.g.clone();
        e.hphi = (0..self.hphi.r.len()).map(|k| self.hphi.w[k] * p.hess(self.hphi.r[k], self.hphi.c[k])).collect();
        e.f = self.f.iter().map(|k| js[*k].v).collect();
        e.j = (0..self.j.r.len()).map(|k| self.j.w[k] * js[self.f[self.j.r[k]]].g[self.j.c[k]]).collect();
        e.h = self.h.iter().zip(&self.f).map(|(p, f)| (0..p.r.len()).map(|k| p.w[k] * js[*f].hess(p.r[k], p.c[k])).collect()).collect();
        let ok = |v: &Vec<f64>| v.iter().all(|x| x.is_finite() && x.abs() < 1e60);
        if e.phi.is_finite() && e.phi.abs() < 1e60 && ok(&e.g) && ok(&e.hphi) && ok(&e.f) && ok(&e.j) && e.h.iter().all(ok) {
            if self.rough != 0 {
                self.roughen(x, &mut e);
            }
            Some(e)
        } else {
            None
        }
    }

    /// Are all values at a point finite?
    pub fn tame(e: &Expect) -> bool {
        let ok = |v: &Vec<f64>| v.iter().all(|x| x.is_finite());
        e.phi.is_finite() && ok(&e.g) && ok(&e.hphi) && ok(&e.f) && ok(&e.j) && e.h.iter().all(ok)
    }

    fn roughen(&self, x: &[f64], e: &mut Expect) {
        let mut z = self.rough;
        for v in x {
            z = mix(z, (*v + 0.).to_bits());
        }
        let mut k = 0;
        let mut scale = |v: &mut f64| {
            k += 1;
            *v *= 1. + (mix(z, k) % 64) as f64 / 64.;
        };
        scale(&mut e.phi);
        e.mphi *= 2.;
        e.g.iter_mut().chain(e.f.iter_mut()).chain(e.hphi.iter_mut()).chain(e.j.iter_mut()).for_each(&mut scale);
        e.h.iter_mut().flatten().for_each(&mut scale);
        if z % 5 == 0 {
            let odd = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY][(z >> 8) as usize % 3];
            let pick = |v: &mut Vec<f64>| {
                if !v.is_empty() {
                    let k = (z >> 24) as usize % v.len();
                    v[k] = odd;
                }
            };
            match (z >> 16) % 6 {
                0 => e.phi = odd,
                1 => pick(&mut e.g),
                2 => pick(&mut e.f),
                3 => pick(&mut e.hphi),
                4 => pick(&mut e.j),
                _ => {
                    if !e.h.is_empty() {
                        let k = (z >> 40) as usize % e.h.len();
                        pick(&mut e.h[k]);
                    }
                }
            }
        }
    }

    fn mat(&self, rows: usize, p: &Pat) -> CooMat<f64> {
        CooMat::new((rows, self.n), p.r.clone(), p.c.clone(), vec![0.; p.r.len()])
    }

    /// The problem, built with the code under test (which must be switched on).
    pub fn build(&self) -> Problem {
        let a = coo((self.na, self.n), &self.trip);
        let (c, b, l, u, p, x0) = (self.c.clone(), self.b.clone(), self.l.clone(), self.u.clone(), self.p.clone(), self.x0.clone());
        match self.kind {
            PKind::Lp => return Problem::Lp(ProblemLp::new(c, a, b, l, u, x0)),
            PKind::Milp => return Problem::Milp(ProblemMilp::new(c, a, b, l, u, p, x0)),
            _ => (),
        }
        let me = self.clone();
        let ev = Box::new(move |phi: &mut f64, gphi: &mut Vec<f64>, hphi: &mut CooMat<f64>, f: &mut Vec<f64>, j: &mut CooMat<f64>, h: &mut Vec<CooMat<f64>>, x: &[f64]| {
            assert_eq!(x.len(), me.n);
            let stage = PANIC_AT.with(|p| p.get());
            let step = |k: i32| {
                if stage == k {
                    panic!("the user's function fails");
                }
            };
            step(0);
            if YIELD.with(|y| y.get()) {
                let _h = Host::enter();
                let ph = crate::worker::get_phase();
                crate::sim::yield_point("evaluate");
                crate::worker::phase(ph);
            }
            let (q, y) = NEST.with(|n| n.replace((0, 0)));
            if q != 0 {
                let (q, y) = unsafe { (&mut *(q as *mut ProblemMinlp), &*(y as *const Vec<f64>)) };
                q.evaluate(y);
            }
            let e = match me.expect(x) {
                Some(e) => e,
                None => {
                    // not a point the driver asked for: answer something recognisable
                    *phi = f64::NAN;
                    return;
                }
            };
            *phi = e.phi;
            step(1);
            gphi.copy_from_slice(&e.g);
            step(2);
            f.copy_from_slice(&e.f);
            step(3);
            j.data_mut().copy_from_slice(&e.j);
            step(4);
            hphi.data_mut().copy_from_slice(&e.hphi);
            step(5);
            for (k, hh) in h.iter_mut().enumerate() {
                hh.data_mut().copy_from_slice(&e.h[k]);
                if k == 0 {
                    step(6);
                }
            }
        });
        let hp = self.mat(self.n, &self.hphi);
        let j = self.mat(self.nf, &self.j);
        let h: Vec<CooMat<f64>> = self.h.iter().map(|p| self.mat(self.n, p)).collect();
        match self.kind {
            PKind::Nlp => Problem::Nlp(ProblemNlp::new(hp, a, b, j, h, l, u, x0, ev)),
            _ => Problem::Minlp(ProblemMinlp::new(hp, a, b, j, h, l, u, p, x0, ev)),
        }
    }

    /// Is the data of a problem (seen as a MINLP) still what was posed?
    pub fn data_differs(&self, m: &ProblemMinlp) -> Option<String> {
        let pat = |q: &CooMat<f64>, p: &Pat| q.row_inds() == &p.r[..] && q.col_inds() == &p.c[..];
        if m.nx() != self.n || m.na() != self.na || m.nf() != self.nf {
            return Some(format!("dimensions {} {} {} instead of {} {} {}", m.nx(), m.na(), m.nf(), self.n, self.na, self.nf));
        }
        if m.b() != &self.b[..] {
            return Some("right-hand side".into());
        }
        if m.l() != &self.l[..] || m.u() != &self.u[..] {
            return Some("bounds".into());
        }
        if m.p() != &self.p[..] {
            return Some("integrality".into());
        }
        if m.x0() != self.x0.as_deref() {
            return Some("initial point".into());
        }
        let mut a: Vec<(usize, usize, f64)> = m.a().iter().map(|(r, c, v)| (*r, *c, *v)).collect();
        let mut w = self.trip.clone();
        a.sort_by(|x, y| x.partial_cmp(y).unwrap());
        w.sort_by(|x, y| x.partial_cmp(y).unwrap());
        if a != w {
            return Some("linear constraint matrix".into());
        }
        if !pat(m.hphi(), &self.hphi) || !pat(m.j(), &self.j) || m.h().len() != self.h.len() || m.h().iter().zip(&self.h).any(|(q, p)| !pat(q, p)) {
            return Some("sparsity pattern".into());
        }
        None
    }

    /// Dense lower triangle of `factor` times the objective's Hessian plus the weighted sum of
    /// the constraints', with the size of what was added.
    pub fn lagrangian(&self, e: &Expect, factor: f64, nu: &[f64]) -> BTreeMap<(usize, usize), (f64, f64)> {
        let mut m = BTreeMap::new();
        let mut add = |p: &Pat, d: &Vec<f64>, s: f64| {
            for k in 0..p.r.len() {
                let q = m.entry((p.r[k].max(p.c[k]), p.r[k].min(p.c[k]))).or_insert((0., 0.));
                // what zero times an infinity is, is left open
                let open = s == 0. && !d[k].is_finite();
                q.0 += if open { 0. } else { s * d[k] };
                q.1 += if open { f64::NEG_INFINITY } else { (s * d[k]).abs() };
            }
        };
        if !self.linear() {
            add(&self.hphi, &e.hphi, factor);
            for i in 0..self.nf {
                add(&self.h[i], &e.h[i], nu[i]);
            }
        }
        m
    }
    pub fn jacobian(&self, e: &Expect) -> BTreeMap<(usize, usize), (f64, f64)> {
        let mut m = BTreeMap::new();
        let mut add = |r: usize, c: usize, v: f64| {
            let q = m.entry((r, c)).or_insert((0., 0.));
            q.0 += v;
            q.1 += v.abs();
        };
        for (r, c, v) in &self.trip {
            add(*r, *c, *v);
        }
        for k in 0..self.j.r.len() {
            add(self.na + self.j.r[k], self.j.c[k], e.j[k]);
        }
        m
    }
    /// Constraint values: linear rows, then nonlinear ones, with sizes.
    pub fn rows(&self, e: &Expect, x: &[f64]) -> Vec<(f64, f64)> {
        let mut g: Vec<(f64, f64)> = self.b.iter().map(|b| (-b, b.abs())).collect();
        for (r, c, v) in &self.trip {
            g[*r].0 += v * x[*c];
            g[*r].1 += (v * x[*c]).abs();
        }
        g.extend(e.f.iter().map(|v| (*v, v.abs())));
        g
    }
}

/// The same value up to rounding; what is not finite must be so in the same way.
pub fn alike(a: f64, b: f64, m: f64) -> bool {
    if b.is_finite() { same(a, b, m) } else { exact(a, b) }
}
pub fn exact(a: f64, b: f64) -> bool {
    a == b || a.is_nan() && b.is_nan()
}
pub fn exactly(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| exact(*a, *b))
}

/// A point next to another one: as close as can be, or only just further away.
pub fn near(t: &mut Tape, x: &[f64]) -> Vec<f64> {
    let mut y = x.to_vec();
    let j = t.draw(x.len() as u32) as usize;
    y[j] = match t.draw(5) {
        0 => f64::from_bits(y[j].to_bits() + 1),
        1 => y[j] + 1e-12,
        2 => y[j] * (1. + 1e-9) + 1e-12,
        3 => y[j] + 1e-6,
        _ => y[j] - 1e-9,
    };
    y
}

/// Compares two sparse sums; absent entries are zero.
pub fn sums_differ(got: &BTreeMap<(usize, usize), (f64, f64)>, want: &BTreeMap<(usize, usize), (f64, f64)>) -> Option<String> {
    let keys: std::collections::BTreeSet<_> = got.keys().chain(want.keys()).collect();
    for k in keys {
        let (g, w) = (got.get(k).copied().unwrap_or((0., 0.)), want.get(k).copied().unwrap_or((0., 0.)));
        if w.1 == f64::NEG_INFINITY {
            continue;
        }
        if !alike(g.0, w.0, g.1 + w.1) {
            return Some(format!("entry {:?} is {} instead of {}", k, g.0, w.0));
        }
    }
    None
}
