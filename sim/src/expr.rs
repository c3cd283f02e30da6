//! Reference expressions: a small DAG, its value, gradient and Hessian by forward differentiation
//! together with the size of the intermediate results (for tolerances), and the same expression
//! built with the operators of the code under test.

use crate::tape::Tape;
use numopt::model::constant::ConstantScalar;
use numopt::model::node::Node;
use numopt::model::node_func::NodeFunc;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Const(f64),
    Var(usize),
    Add(usize, usize),
    Sub(usize, usize),
    Mul(usize, usize),
    Div(usize, usize),
    Neg(usize),
    Sin(usize),
    Cos(usize),
    AddS(usize, f64),
    SAdd(f64, usize),
    SubS(usize, f64),
    SSub(f64, usize),
    MulS(usize, f64),
    SMul(f64, usize),
    DivS(usize, f64),
    SDiv(f64, usize),
}

#[derive(Clone, Default, Debug)]
pub struct Dag {
    pub nv: usize,
    pub ops: Vec<Op>,
}

/// Value, gradient, Hessian (lower triangle used), each with a bound on the size of what was
/// added up to get it.
#[derive(Clone, Debug)]
pub struct Jet {
    pub v: f64,
    pub g: Vec<f64>,
    pub h: Vec<f64>,
    pub mv: f64,
    pub mg: Vec<f64>,
    pub mh: Vec<f64>,
    /// worst conditioning met on the way (divisors close to zero)
    pub bad: f64,
}

fn hi(n: usize, i: usize, j: usize) -> usize {
    i.max(j) * n + i.min(j)
}

impl Jet {
    pub fn con(n: usize, v: f64) -> Jet {
        Jet { v, g: vec![0.; n], h: vec![0.; n * n], mv: v.abs(), mg: vec![0.; n], mh: vec![0.; n * n], bad: 0. }
    }
    pub fn var(n: usize, k: usize, v: f64) -> Jet {
        let mut j = Jet::con(n, v);
        j.g[k] = 1.;
        j.mg[k] = 1.;
        j
    }
    pub fn hess(&self, i: usize, j: usize) -> f64 {
        self.h[hi(self.g.len(), i, j)]
    }
    pub fn mhess(&self, i: usize, j: usize) -> f64 {
        self.mh[hi(self.g.len(), i, j)]
    }
    pub fn lin(a: &Jet, s: f64, b: &Jet, t: f64) -> Jet {
        let n = a.g.len();
        let z = |x: &Vec<f64>, y: &Vec<f64>, s: f64, t: f64| -> Vec<f64> { (0..x.len()).map(|i| s * x[i] + t * y[i]).collect() };
        let _ = n;
        Jet { v: s * a.v + t * b.v, g: z(&a.g, &b.g, s, t), h: z(&a.h, &b.h, s, t), mv: s.abs() * a.mv + t.abs() * b.mv, mg: z(&a.mg, &b.mg, s.abs(), t.abs()), mh: z(&a.mh, &b.mh, s.abs(), t.abs()), bad: a.bad.max(b.bad) }
    }
    fn mul(a: &Jet, b: &Jet) -> Jet {
        let n = a.g.len();
        let mut r = Jet::con(n, a.v * b.v);
        r.mv = a.mv * b.mv;
        r.bad = a.bad.max(b.bad);
        for i in 0..n {
            r.g[i] = a.g[i] * b.v + a.v * b.g[i];
            r.mg[i] = a.mg[i] * b.mv + a.mv * b.mg[i];
            for j in 0..=i {
                let k = hi(n, i, j);
                r.h[k] = a.h[k] * b.v + a.v * b.h[k] + a.g[i] * b.g[j] + a.g[j] * b.g[i];
                r.mh[k] = a.mh[k] * b.mv + a.mv * b.mh[k] + a.mg[i] * b.mg[j] + a.mg[j] * b.mg[i];
            }
        }
        r
    }
    /// f(a) given f, f', f'' at a and bounds on the size of their computation
    fn chain(a: &Jet, f: [f64; 3], m: [f64; 3]) -> Jet {
        let n = a.g.len();
        let mut r = Jet::con(n, f[0]);
        r.mv = m[0];
        r.bad = a.bad;
        for i in 0..n {
            r.g[i] = f[1] * a.g[i];
            r.mg[i] = m[1] * a.mg[i];
            for j in 0..=i {
                let k = hi(n, i, j);
                r.h[k] = f[1] * a.h[k] + f[2] * a.g[i] * a.g[j];
                r.mh[k] = m[1] * a.mh[k] + m[2] * a.mg[i] * a.mg[j];
            }
        }
        r
    }
    fn inv(b: &Jet) -> Jet {
        let (v, q) = (b.v, b.mv / b.v.abs());
        let q2 = q * q;
        let a = v.abs();
        let mut r = Jet::chain(b, [1. / v, -1. / (v * v), 2. / (v * v * v)], [q / a, q2 / (a * a), 2. * q2 * q / (a * a * a)]);
        let cond = if a < 1e-3 { f64::INFINITY } else { q };
        r.bad = b.bad.max(cond);
        r
    }
}

impl Dag {
    pub fn new(nv: usize) -> Dag {
        Dag { nv, ops: (0..nv).map(Op::Var).collect() }
    }
    pub fn push(&mut self, o: Op) -> usize {
        self.ops.push(o);
        self.ops.len() - 1
    }
    /// Jets of every op at a point.
    pub fn jets(&self, x: &[f64]) -> Vec<Jet> {
        let n = self.nv;
        let mut v: Vec<Jet> = Vec::with_capacity(self.ops.len());
        for o in &self.ops {
            let one = |c: f64| Jet::con(n, c);
            let j = match *o {
                Op::Const(c) => one(c),
                Op::Var(k) => Jet::var(n, k, x[k]),
                Op::Add(a, b) => Jet::lin(&v[a], 1., &v[b], 1.),
                Op::Sub(a, b) => Jet::lin(&v[a], 1., &v[b], -1.),
                Op::Mul(a, b) => Jet::mul(&v[a], &v[b]),
                Op::Div(a, b) => Jet::mul(&v[a], &Jet::inv(&v[b])),
                Op::Neg(a) => Jet::lin(&v[a], -1., &v[a], 0.),
                Op::Sin(a) => {
                    let (s, c) = v[a].v.sin_cos();
                    let m = 1. + v[a].mv;
                    Jet::chain(&v[a], [s, c, -s], [m, m, m])
                }
                Op::Cos(a) => {
                    let (s, c) = v[a].v.sin_cos();
                    let m = 1. + v[a].mv;
                    Jet::chain(&v[a], [c, -s, -c], [m, m, m])
                }
                Op::AddS(a, c) | Op::SAdd(c, a) => Jet::lin(&v[a], 1., &one(c), 1.),
                Op::SubS(a, c) => Jet::lin(&v[a], 1., &one(c), -1.),
                Op::SSub(c, a) => Jet::lin(&one(c), 1., &v[a], -1.),
                Op::MulS(a, c) | Op::SMul(c, a) => Jet::lin(&v[a], c, &v[a], 0.),
                Op::DivS(a, c) => Jet::lin(&v[a], 1. / c, &v[a], 0.),
                Op::SDiv(c, a) => Jet::mul(&one(c), &Jet::inv(&v[a])),
            };
            v.push(j);
        }
        v
    }
    /// The expression in ordinary notation.
    pub fn show(&self, k: usize, names: &[String]) -> String {
        let f = |a: usize| self.show(a, names);
        match self.ops[k] {
            Op::Const(c) => format!("{}", c),
            Op::Var(v) => format!("{:?}", names[v]).replace('"', ""),
            Op::Add(a, b) => format!("({} + {})", f(a), f(b)),
            Op::Sub(a, b) => format!("({} - {})", f(a), f(b)),
            Op::Mul(a, b) => format!("({} * {})", f(a), f(b)),
            Op::Div(a, b) => format!("({} / {})", f(a), f(b)),
            Op::Neg(a) => format!("(-{})", f(a)),
            Op::Sin(a) => format!("sin({})", f(a)),
            Op::Cos(a) => format!("cos({})", f(a)),
            Op::AddS(a, c) => format!("({} + {})", f(a), c),
            Op::SAdd(c, a) => format!("({} + {})", c, f(a)),
            Op::SubS(a, c) => format!("({} - {})", f(a), c),
            Op::SSub(c, a) => format!("({} - {})", c, f(a)),
            Op::MulS(a, c) => format!("({} * {})", f(a), c),
            Op::SMul(c, a) => format!("({} * {})", c, f(a)),
            Op::DivS(a, c) => format!("({} / {})", f(a), c),
            Op::SDiv(c, a) => format!("({} / {})", c, f(a)),
        }
    }
    pub fn args(&self, k: usize) -> Vec<usize> {
        match self.ops[k] {
            Op::Const(_) | Op::Var(_) => vec![],
            Op::Add(a, b) | Op::Sub(a, b) | Op::Mul(a, b) | Op::Div(a, b) => vec![a, b],
            Op::Neg(a) | Op::Sin(a) | Op::Cos(a) | Op::AddS(a, _) | Op::SAdd(_, a) | Op::SubS(a, _) | Op::SSub(_, a) | Op::MulS(a, _) | Op::SMul(_, a) | Op::DivS(a, _) | Op::SDiv(_, a) => vec![a],
        }
    }
    pub fn vars(&self, k: usize) -> Vec<usize> {
        let mut seen = vec![false; self.ops.len()];
        let mut st = vec![k];
        let mut out = vec![false; self.nv];
        while let Some(i) = st.pop() {
            if seen[i] {
                continue;
            }
            seen[i] = true;
            if let Op::Var(v) = self.ops[i] {
                out[v] = true;
            }
            st.extend(self.args(i));
        }
        (0..self.nv).filter(|i| out[*i]).collect()
    }
    /// Number of ways from an op down to variables (the cost of differentiating it).
    pub fn paths(&self, k: usize) -> u64 {
        let mut c = vec![0u64; k + 1];
        for i in 0..=k {
            let a = self.args(i);
            c[i] = if a.is_empty() { 1 } else { a.iter().map(|j| c[*j]).sum::<u64>().min(1 << 40) };
        }
        c[k]
    }
    pub fn depth(&self, k: usize) -> u32 {
        let mut c = vec![0u32; k + 1];
        for i in 0..=k {
            c[i] = self.args(i).iter().map(|j| c[*j] + 1).max().unwrap_or(0);
        }
        c[k]
    }
    /// Built of constants, variables, sums and products with constants only.
    pub fn affine(&self, k: usize) -> bool {
        let mut s: Vec<(bool, bool)> = Vec::with_capacity(k + 1); // (affine, constant)
        for i in 0..=k {
            let r = match self.ops[i] {
                Op::Const(_) => (true, true),
                Op::Var(_) => (true, false),
                Op::Add(a, b) | Op::Sub(a, b) => (s[a].0 && s[b].0, s[a].1 && s[b].1),
                Op::Mul(a, b) => (s[a].0 && s[b].1 || s[b].0 && s[a].1, s[a].1 && s[b].1),
                Op::Div(a, b) => (s[a].0 && s[b].1, s[a].1 && s[b].1),
                Op::Sin(a) | Op::Cos(a) => (s[a].1, s[a].1),
                Op::SDiv(_, a) => (s[a].1, s[a].1),
                _ => s[self.args(i)[0]],
            };
            s.push(r);
        }
        s[k].0
    }

    /// Are all sums in a polynomial expression exact, in whatever order they are formed?
    pub fn dyadic(&self, k: usize) -> bool {
        let fine = |c: f64| (c * 1024.).fract() == 0. && c.abs() < 1e4;
        let mut on = vec![false; k + 1];
        on[k] = true;
        for i in (0..=k).rev() {
            if !on[i] {
                continue;
            }
            let ok = match self.ops[i] {
                Op::Const(c) | Op::AddS(_, c) | Op::SAdd(c, _) | Op::SubS(_, c) | Op::SSub(c, _) | Op::MulS(_, c) | Op::SMul(c, _) => fine(c),
                Op::DivS(_, c) => fine(1. / c) && fine(c),
                Op::Div(..) | Op::SDiv(..) | Op::Sin(_) | Op::Cos(_) => false,
                _ => true,
            };
            if !ok {
                return false;
            }
            for a in self.args(i) {
                on[a] = true;
            }
        }
        true
    }

    /// The same expressions, built with the code under test.
    pub fn nodes(&self, vars: &[Node], style: u64) -> Vec<Node> {
        let mut v: Vec<Node> = Vec::with_capacity(self.ops.len());
        for (i, o) in self.ops.iter().enumerate() {
            let st = (style.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> (i % 60)) & 3;
            macro_rules! two {
                ($a: expr, $op: tt, $b: expr) => {
                    match st {
                        0 => &v[$a] $op &v[$b],
                        1 => v[$a].clone() $op &v[$b],
                        2 => &v[$a] $op v[$b].clone(),
                        _ => v[$a].clone() $op v[$b].clone(),
                    }
                };
            }
            macro_rules! ns {
                ($a: expr, $op: tt, $c: expr) => {
                    if st & 1 == 0 { &v[$a] $op $c } else { v[$a].clone() $op $c }
                };
            }
            macro_rules! sn {
                ($c: expr, $op: tt, $a: expr) => {
                    if st & 1 == 0 { $c $op &v[$a] } else { $c $op v[$a].clone() }
                };
            }
            let n = match *o {
                Op::Const(c) => ConstantScalar::new(c),
                Op::Var(k) => vars[k].clone(),
                Op::Add(a, b) => two!(a, +, b),
                Op::Sub(a, b) => two!(a, -, b),
                Op::Mul(a, b) => two!(a, *, b),
                Op::Div(a, b) => two!(a, /, b),
                Op::Neg(a) => {
                    if st & 1 == 0 {
                        -&v[a]
                    } else {
                        -v[a].clone()
                    }
                }
                Op::Sin(a) => v[a].sin(),
                Op::Cos(a) => v[a].cos(),
                Op::AddS(a, c) => ns!(a, +, c),
                Op::SAdd(c, a) => sn!(c, +, a),
                Op::SubS(a, c) => ns!(a, -, c),
                Op::SSub(c, a) => sn!(c, -, a),
                Op::MulS(a, c) => ns!(a, *, c),
                Op::SMul(c, a) => sn!(c, *, a),
                Op::DivS(a, c) => ns!(a, /, c),
                Op::SDiv(c, a) => sn!(c, /, a),
            };
            v.push(n);
        }
        v
    }
}

pub fn coef(t: &mut Tape) -> f64 {
    let v = match t.draw(8) {
        0 => 1.,
        1 => 2.,
        2 => 5.,
        3 => 0.5,
        4 => 3.25,
        5 => 10.,
        6 => 1. / 3.,
        _ => (1 + t.draw(400)) as f64 / 16.,
    };
    if t.one_in(3) { -v } else { v }
}

/// An affine expression, written in some way.
pub fn gen_affine(t: &mut Tape, d: &mut Dag, most: u32) -> usize {
    let n = 1 + t.draw(most) as usize;
    let mut acc: Option<usize> = None;
    for _ in 0..n {
        let k = t.draw(d.nv as u32) as usize;
        let c = coef(t);
        let term = match t.draw(8) {
            0 | 1 => k,
            2 => d.push(Op::SMul(c, k)),
            3 => d.push(Op::MulS(k, c)),
            4 => d.push(Op::Neg(k)),
            5 => d.push(Op::DivS(k, c)),
            6 => {
                let q = d.push(Op::Const(c));
                if t.one_in(2) { d.push(Op::Mul(q, k)) } else { d.push(Op::Mul(k, q)) }
            }
            _ => {
                let s = d.push(Op::AddS(k, c));
                let e = coef(t);
                d.push(Op::SMul(e, s))
            }
        };
        acc = Some(match acc {
            None => term,
            Some(a) => match t.draw(4) {
                0 => d.push(Op::Sub(a, term)),
                1 => d.push(Op::Add(term, a)),
                _ => d.push(Op::Add(a, term)),
            },
        });
        if t.one_in(4) {
            let c = coef(t);
            let a = acc.unwrap();
            acc = Some(match t.draw(5) {
                0 => d.push(Op::AddS(a, c)),
                1 => d.push(Op::SubS(a, c)),
                2 => d.push(Op::SSub(c, a)),
                3 => d.push(Op::SAdd(c, a)),
                _ => d.push(Op::SMul(c, a)),
            });
        }
    }
    acc.unwrap()
}

/// An expression over many variables.
pub fn gen_wide(t: &mut Tape, d: &mut Dag, curved: bool) -> usize {
    let skip = t.draw(3);
    let mut acc: Option<usize> = None;
    for k in 0..d.nv {
        if skip > 0 && t.one_in(4) {
            continue;
        }
        let c = coef(t);
        let o = t.draw(d.nv as u32) as usize;
        let term = match t.draw(if curved { 8 } else { 3 }) {
            0 => k,
            1 => d.push(Op::SMul(c, k)),
            2 => d.push(Op::DivS(k, c)),
            3 => d.push(Op::Sin(k)),
            4 => {
                let a = d.push(Op::AddS(o, c));
                d.push(Op::Mul(k, a))
            }
            5 => d.push(Op::Mul(k, k)),
            _ => d.push(Op::Mul(k, o)),
        };
        acc = Some(match acc {
            None => term,
            Some(a) if t.one_in(4) => d.push(Op::Sub(a, term)),
            Some(a) => d.push(Op::Add(a, term)),
        });
    }
    acc.unwrap_or(0)
}

/// Any expression of modest size.
pub fn gen_any(t: &mut Tape, d: &mut Dag, size: u32, max_paths: u64) -> usize {
    let mut pool: Vec<usize> = (0..d.nv).collect();
    // subexpressions may be shared with earlier ones (but not constants: dividing by a constant
    // that folds to zero is refused by design)
    let lo = d.ops.len().saturating_sub(6).max(d.nv);
    for k in lo..d.ops.len() {
        if d.paths(k) * 3 <= max_paths && !d.vars(k).is_empty() && t.one_in(3) {
            pool.push(k);
        }
    }
    let n = 1 + t.draw(size);
    let mut last = pool[t.draw(pool.len() as u32) as usize];
    for _ in 0..n {
        let a = if t.one_in(3) { pool[t.draw(pool.len() as u32) as usize] } else { last };
        let b = pool[t.draw(pool.len() as u32) as usize];
        let c = coef(t);
        let o = match t.draw(18) {
            0 | 1 => Op::Add(a, b),
            2 => Op::Sub(a, b),
            3 | 4 | 5 => Op::Mul(a, b),
            6 => Op::Div(a, b),
            7 => Op::Sin(a),
            8 => Op::Cos(a),
            9 => Op::Neg(a),
            10 => Op::AddS(a, c),
            11 => Op::SSub(c, a),
            12 => Op::SMul(c, a),
            13 => Op::DivS(a, c),
            14 => Op::SDiv(c, a),
            15 => Op::Mul(b, a),
            16 => Op::SubS(a, c),
            _ => Op::MulS(a, c),
        };
        let k = d.push(o);
        if d.paths(k) > max_paths {
            d.ops.pop();
            continue;
        }
        pool.push(k);
        last = k;
    }
    last
}

/// Are two numbers equal up to rounding, given the size of what was added up?
pub fn same(a: f64, b: f64, m: f64) -> bool {
    a == b || (a - b).abs() <= 1e-9 * m + 1e-290
}

pub fn point(r: &mut u64) -> f64 {
    let z = crate::tape::splitmix(r);
    let v = match z % 8 {
        0 => 1.,
        1 => 2.,
        _ => ((z >> 20) % 4000) as f64 / 1000. + 0.05,
    };
    if (z >> 9) % 3 == 0 { -v } else { v }
}
