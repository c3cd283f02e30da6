//! Reference linear problem, and an independent reader of the LP file format.

use std::collections::BTreeMap;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Lp {
    pub c: Vec<f64>,
    pub rows: Vec<BTreeMap<usize, f64>>, // repeated entries summed, zeros dropped
    pub b: Vec<f64>,
    pub l: Vec<f64>,
    pub u: Vec<f64>,
    pub int: Vec<bool>,
}

/// What a solver reads from a file: keyed by names.
#[derive(Clone, Debug, Default)]
pub struct Parsed {
    pub maximize: bool,
    pub obj: BTreeMap<String, f64>,
    pub rows: Vec<(String, BTreeMap<String, f64>, char, f64)>,
    pub bounds: BTreeMap<String, (f64, f64)>,
    pub ints: Vec<String>,
    pub cols: Vec<String>, // in order of first appearance
    pub ended: bool,
}

#[derive(Clone, Debug, PartialEq)]
enum T {
    Num(f64),
    Name(String),
    Op(char), // + - < > = :
}

fn tokens(s: &str) -> Result<Vec<T>, String> {
    let mut v = Vec::new();
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        let ch = b[i] as char;
        if ch.is_ascii_whitespace() {
            i += 1;
        } else if ch == '+' || ch == '-' || ch == ':' {
            v.push(T::Op(ch));
            i += 1;
        } else if ch == '<' || ch == '>' || ch == '=' {
            let mut k = ch;
            i += 1;
            while i < b.len() && (b[i] == b'=' || b[i] == b'<' || b[i] == b'>') {
                if b[i] != b'=' {
                    k = b[i] as char;
                }
                i += 1;
            }
            v.push(T::Op(k));
        } else if ch.is_ascii_digit() || ch == '.' {
            let st = i;
            while i < b.len() && (b[i].is_ascii_digit() || b[i] == b'.') {
                i += 1;
            }
            if i < b.len() && (b[i] == b'e' || b[i] == b'E') {
                let mut j = i + 1;
                if j < b.len() && (b[j] == b'+' || b[j] == b'-') {
                    j += 1;
                }
                if j < b.len() && b[j].is_ascii_digit() {
                    while j < b.len() && b[j].is_ascii_digit() {
                        j += 1;
                    }
                    i = j;
                }
            }
            v.push(T::Num(s[st..i].parse().map_err(|_| format!("bad number {:?}", &s[st..i]))?));
        } else if ch.is_ascii_alphabetic() || "!\"#$%&(),;?@_'`{}~".contains(ch) {
            let st = i;
            while i < b.len() && !b[i].is_ascii_whitespace() && !b"+-:<>=".contains(&b[i]) {
                i += 1;
            }
            v.push(T::Name(s[st..i].to_string()));
        } else {
            return Err(format!("unexpected character {:?}", ch));
        }
    }
    Ok(v)
}

fn is_inf(n: &str) -> bool {
    let n = n.to_ascii_lowercase();
    n == "inf" || n == "infinity"
}

pub fn parse(text: &[u8]) -> Result<Parsed, String> {
    let text = std::str::from_utf8(text).map_err(|_| "not text".to_string())?;
    let mut p = Parsed::default();
    // sections
    let mut sec = "";
    let mut bodies: BTreeMap<&str, Vec<&str>> = BTreeMap::new();
    for line in text.lines() {
        let line = match line.find('\\') {
            Some(i) => &line[..i],
            None => line,
        };
        let w = line.trim().to_ascii_lowercase();
        let s = match w.as_str() {
            "minimize" | "minimise" | "minimum" | "min" => "obj",
            "maximize" | "maximise" | "maximum" | "max" => {
                p.maximize = true;
                "obj"
            }
            "subject to" | "such that" | "st" | "s.t." | "st." => "st",
            "bounds" | "bound" => "bounds",
            "general" | "generals" | "gen" | "integer" | "integers" | "int" => "gen",
            "binary" | "binaries" | "bin" => "bin",
            "end" => "end",
            _ => "",
        };
        if s == "end" {
            p.ended = true;
            break;
        }
        if !s.is_empty() {
            sec = s;
            bodies.entry(sec).or_default();
        } else if !w.is_empty() {
            if sec.is_empty() {
                return Err("text before the first section".into());
            }
            bodies.entry(sec).or_default().push(line);
        }
    }
    if !bodies.contains_key("obj") {
        return Err("no objective section".into());
    }
    let seen = std::cell::RefCell::new(std::collections::BTreeSet::new());
    let see = |p: &mut Parsed, n: &str| {
        if seen.borrow_mut().insert(n.to_string()) {
            p.cols.push(n.to_string());
        }
    };
    // objective
    {
        let t = tokens(&bodies.get("obj").map(|v| v.join("\n")).unwrap_or_default())?;
        let mut i = 0;
        if t.len() >= 2 && matches!(t[0], T::Name(_)) && t[1] == T::Op(':') {
            i = 2;
        }
        let (terms, k, used) = linear(&t[i..])?;
        if i + used != t.len() {
            return Err("bad objective".into());
        }
        if k != 0. {
            return Err("constant in objective".into());
        }
        for (n, v) in terms {
            see(&mut p, &n);
            if p.obj.insert(n.clone(), v).is_some() {
                // the real programs refuse such a file
                return Err(format!("{} appears twice in the objective", n));
            }
        }
    }
    // rows
    {
        let t = tokens(&bodies.get("st").map(|v| v.join("\n")).unwrap_or_default())?;
        let mut i = 0;
        while i < t.len() {
            let mut name = format!("R{}", p.rows.len());
            if i + 1 < t.len() && t[i + 1] == T::Op(':') {
                if let T::Name(n) = &t[i] {
                    name = n.clone();
                    i += 2;
                }
            }
            let (terms, k, used) = linear(&t[i..])?;
            i += used;
            let op = match t.get(i) {
                Some(T::Op(o)) if "<>=".contains(*o) => *o,
                _ => return Err(format!("row {} has no relation", name)),
            };
            i += 1;
            let mut sg = 1.;
            while let Some(T::Op(o)) = t.get(i) {
                match o {
                    '-' => sg = -sg,
                    '+' => (),
                    _ => return Err(format!("row {}: bad right-hand side", name)),
                }
                i += 1;
            }
            let rhs = match t.get(i) {
                Some(T::Num(v)) => sg * v,
                Some(T::Name(n)) if is_inf(n) => sg * f64::INFINITY,
                _ => return Err(format!("row {} has no right-hand side", name)),
            };
            i += 1;
            let mut m = BTreeMap::new();
            for (n, v) in terms {
                see(&mut p, &n);
                if m.insert(n.clone(), v).is_some() {
                    return Err(format!("{} appears twice in row {}", n, name));
                }
            }
            p.rows.push((name, m, op, rhs - k));
        }
    }
    // bounds
    for line in bodies.get("bounds").cloned().unwrap_or_default() {
        let t = tokens(line)?;
        let mut i = 0;
        // [num rel] name [rel num | free]
        let num = |i: &mut usize| -> Result<Option<f64>, String> {
            let mut sg = 1.;
            let st = *i;
            while let Some(T::Op(o)) = t.get(*i) {
                match o {
                    '-' => sg = -sg,
                    '+' => (),
                    _ => break,
                }
                *i += 1;
            }
            match t.get(*i) {
                Some(T::Num(v)) => {
                    *i += 1;
                    Ok(Some(sg * v))
                }
                Some(T::Name(n)) if is_inf(n) => {
                    *i += 1;
                    Ok(Some(sg * f64::INFINITY))
                }
                _ => {
                    *i = st;
                    Ok(None)
                }
            }
        };
        let first = num(&mut i)?;
        let mut rel1 = ' ';
        if first.is_some() {
            rel1 = match t.get(i) {
                Some(T::Op(o)) => *o,
                _ => return Err(format!("bad bound {:?}", line)),
            };
            i += 1;
        }
        let name = match t.get(i) {
            Some(T::Name(n)) => n.clone(),
            _ => return Err(format!("bad bound {:?}", line)),
        };
        i += 1;
        see(&mut p, &name);
        let e = p.bounds.entry(name).or_insert((0., f64::INFINITY));
        let set = |e: &mut (f64, f64), rel: char, v: f64, var_left: bool| {
            let r = if var_left { rel } else { match rel { '<' => '>', '>' => '<', x => x } };
            match r {
                '<' => e.1 = v,
                '>' => e.0 = v,
                _ => *e = (v, v),
            }
        };
        if let Some(v) = first {
            set(e, rel1, v, false);
        }
        match t.get(i) {
            None => (),
            Some(T::Name(n)) if n.to_ascii_lowercase() == "free" => {
                *e = (f64::NEG_INFINITY, f64::INFINITY);
                i += 1;
            }
            Some(T::Op(o)) => {
                let o = *o;
                i += 1;
                match num(&mut i)? {
                    Some(v) => set(e, o, v, true),
                    None => return Err(format!("bad bound {:?}", line)),
                }
            }
            _ => return Err(format!("bad bound {:?}", line)),
        }
        if i != t.len() {
            return Err(format!("bad bound {:?}", line));
        }
    }
    for (k, bin) in [("gen", false), ("bin", true)] {
        for t in tokens(&bodies.get(k).map(|v| v.join("\n")).unwrap_or_default())? {
            match t {
                T::Name(n) => {
                    see(&mut p, &n);
                    if bin {
                        p.bounds.insert(n.clone(), (0., 1.));
                    }
                    p.ints.push(n);
                }
                _ => return Err("bad integer section".into()),
            }
        }
    }
    if !p.ended {
        return Err("no End".into());
    }
    Ok(p)
}

/// Reads a linear expression; returns terms, constant and tokens used.
fn linear(t: &[T]) -> Result<(Vec<(String, f64)>, f64, usize), String> {
    let mut i = 0;
    let mut terms = Vec::new();
    let mut k = 0.;
    loop {
        let st = i;
        let mut sg = 1.;
        let mut signed = false;
        while let Some(T::Op(o)) = t.get(i) {
            match o {
                '-' => sg = -sg,
                '+' => (),
                _ => break,
            }
            signed = true;
            i += 1;
        }
        match t.get(i) {
            Some(T::Num(v)) => {
                let v = *v;
                i += 1;
                match t.get(i) {
                    Some(T::Name(n)) if t.get(i + 1) != Some(&T::Op(':')) => {
                        terms.push((n.clone(), sg * v));
                        i += 1;
                    }
                    _ => k += sg * v,
                }
            }
            Some(T::Name(n)) => {
                if t.get(i + 1) == Some(&T::Op(':')) {
                    if signed {
                        return Err("dangling sign".into());
                    }
                    return Ok((terms, k, st));
                }
                terms.push((n.clone(), sg));
                i += 1;
            }
            _ => {
                if signed {
                    return Err("dangling sign".into());
                }
                return Ok((terms, k, st));
            }
        }
    }
}

pub fn index_of(name: &str, prefix: char) -> Option<usize> {
    let rest = name.strip_prefix(prefix)?;
    let rest = rest.strip_prefix('_').unwrap_or(rest);
    if rest.is_empty() || (rest.len() > 1 && rest.starts_with('0')) {
        return None;
    }
    rest.parse().ok()
}

pub fn close(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= 1e-9 * a.abs().max(b.abs()) || (a.abs() >= 1e30 && b.abs() >= 1e30 && a.signum() == b.signum())
}

/// Does the file, as read, denote the posed problem? Returns the first difference.
pub fn differs(p: &Parsed, q: &Lp) -> Option<String> {
    if p.maximize {
        return Some("maximises".into());
    }
    let nx = q.c.len();
    let mut known = vec![false; nx];
    for n in &p.cols {
        match index_of(n, 'x') {
            Some(i) if i < nx => known[i] = true,
            _ => return Some(format!("unknown variable {}", n)),
        }
    }
    let mut obj = vec![0.; nx];
    for (n, v) in &p.obj {
        obj[index_of(n, 'x').unwrap()] += v;
    }
    let mut ints = vec![false; nx];
    for n in &p.ints {
        ints[index_of(n, 'x').unwrap()] = true;
    }
    for i in 0..nx {
        let v = obj[i];
        if !close(v, q.c[i]) {
            return Some(format!("objective coefficient of x_{} is {} instead of {}", i, v, q.c[i]));
        }
    }
    if p.rows.len() != q.rows.len() {
        return Some(format!("{} rows instead of {}", p.rows.len(), q.rows.len()));
    }
    let mut seen = vec![false; q.rows.len()];
    for (name, m, op, rhs) in &p.rows {
        let i = match index_of(name, 'c') {
            Some(i) if i < q.rows.len() && !seen[i] => i,
            _ => return Some(format!("unknown or repeated row {}", name)),
        };
        seen[i] = true;
        if *op != '=' {
            return Some(format!("row {} is not an equality", name));
        }
        if !close(*rhs, q.b[i]) {
            return Some(format!("row {} has right-hand side {} instead of {}", name, rhs, q.b[i]));
        }
        let mut m2: BTreeMap<usize, f64> = BTreeMap::new();
        for (n, v) in m {
            *m2.entry(index_of(n, 'x').unwrap()).or_insert(0.) += v;
        }
        for j in m2.keys().chain(q.rows[i].keys()) {
            let (a, b) = (m2.get(j).copied().unwrap_or(0.), q.rows[i].get(j).copied().unwrap_or(0.));
            if !close(a, b) {
                return Some(format!("row {} has coefficient {} for x_{} instead of {}", name, a, j, b));
            }
        }
    }
    let mut bd: BTreeMap<usize, (f64, f64)> = BTreeMap::new();
    for (n, v) in &p.bounds {
        bd.insert(index_of(n, 'x').unwrap(), *v);
    }
    for j in 0..nx {
        // a variable without any entry and bound line is unknown to the solver
        if !known[j] {
            return Some(format!("variable x_{} is missing", j));
        }
        let (l, u) = bd.get(&j).copied().unwrap_or((0., f64::INFINITY));
        if !close(l, q.l[j]) || !close(u, q.u[j]) {
            return Some(format!("x_{} has bounds [{}, {}] instead of [{}, {}]", j, l, u, q.l[j], q.u[j]));
        }
        let int = ints[j];
        if int != q.int[j] {
            return Some(format!("x_{} integer: {} instead of {}", j, int, q.int[j]));
        }
    }
    None
}
