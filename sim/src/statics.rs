//! Per-process static variables of the code under test.
//!
//! All simulated processes live in one real process. The writable statics of the crate under test
//! are found in the symbol table of this executable; each simulated process has its own copy,
//! swapped in when one of its threads runs, and every run starts from the pristine contents.

use std::collections::BTreeMap;

struct St {
    ranges: Vec<(usize, usize)>,
    pristine: Vec<Vec<u8>>,
    saved: BTreeMap<usize, Vec<Vec<u8>>>,
    cur: usize,
}
static mut ST: Option<St> = None;

fn rd<T: Copy>(b: &[u8], o: usize) -> T {
    assert!(o + std::mem::size_of::<T>() <= b.len());
    unsafe { std::ptr::read_unaligned(b.as_ptr().add(o) as *const T) }
}

fn load_base() -> usize {
    // the executable's first mapping
    let m = std::fs::read_to_string("/proc/self/maps").unwrap_or_default();
    let exe = std::fs::read_link("/proc/self/exe").map(|p| p.to_string_lossy().into_owned()).unwrap_or_default();
    for l in m.lines() {
        if l.ends_with(&exe) {
            let a = l.split('-').next().unwrap_or("0");
            return usize::from_str_radix(a, 16).unwrap_or(0);
        }
    }
    0
}

pub fn names() -> Vec<String> {
    find().2
}

fn find() -> (Vec<(usize, usize)>, usize, Vec<String>) {
    let b = std::fs::read("/proc/self/exe").expect("own executable");
    let ty: u16 = rd(&b, 16);
    let base = if ty == 3 { load_base() } else { 0 };
    let shoff: u64 = rd(&b, 40);
    let shnum: u16 = rd(&b, 60);
    let sec = |i: usize| shoff as usize + i * 64;
    let shstr: u16 = rd(&b, 62);
    let stroff: u64 = rd(&b, sec(shstr as usize) + 24);
    let sname = |i: usize| -> String {
        let n: u32 = rd(&b, sec(i));
        let o = stroff as usize + n as usize;
        let e = b[o..].iter().position(|c| *c == 0).unwrap();
        String::from_utf8_lossy(&b[o..o + e]).into_owned()
    };
    let mut v = Vec::new();
    let mut nm = Vec::new();
    let mut total = 0;
    for i in 0..shnum as usize {
        let t: u32 = rd(&b, sec(i) + 4);
        if t != 2 {
            continue;
        }
        total += 1;
        let off: u64 = rd(&b, sec(i) + 24);
        let size: u64 = rd(&b, sec(i) + 32);
        let link: u32 = rd(&b, sec(i) + 40);
        let so: u64 = rd(&b, sec(link as usize) + 24);
        for k in 0..(size / 24) as usize {
            let o = off as usize + k * 24;
            let info: u8 = rd(&b, o + 4);
            let shndx: u16 = rd(&b, o + 6);
            let value: u64 = rd(&b, o + 8);
            let sz: u64 = rd(&b, o + 16);
            if info & 15 != 1 || sz == 0 || shndx == 0 || shndx as usize >= shnum as usize {
                continue;
            }
            let n: u32 = rd(&b, o);
            let so2 = so as usize + n as usize;
            let e = b[so2..].iter().position(|c| *c == 0).unwrap();
            let name = String::from_utf8_lossy(&b[so2..so2 + e]);
            if !name.contains("6numopt") {
                continue;
            }
            let flags: u64 = rd(&b, sec(shndx as usize) + 8);
            let secn = sname(shndx as usize);
            if flags & 1 == 0 || flags & 0x400 != 0 || secn.starts_with(".data.rel.ro") {
                continue;
            }
            v.push((base + value as usize, sz as usize));
            nm.push(format!("{} {} {}", secn, sz, name));
        }
    }
    assert!(total > 0, "this executable has no symbol table");
    v.sort();
    v.dedup();
    (v, base, nm)
}

#[allow(static_mut_refs)]
fn st() -> &'static mut St {
    unsafe {
        if ST.is_none() {
            let (ranges, _, _) = find();
            let pristine = grab(&ranges);
            ST = Some(St { ranges, pristine, saved: BTreeMap::new(), cur: 0 });
        }
        ST.as_mut().unwrap()
    }
}

fn grab(r: &[(usize, usize)]) -> Vec<Vec<u8>> {
    r.iter().map(|(a, n)| unsafe { std::slice::from_raw_parts(*a as *const u8, *n).to_vec() }).collect()
}
fn put(r: &[(usize, usize)], d: &[Vec<u8>]) {
    for ((a, n), v) in r.iter().zip(d) {
        unsafe { std::ptr::copy_nonoverlapping(v.as_ptr(), *a as *mut u8, *n) };
    }
}

/// Every simulated process starts with untouched statics.
pub fn begin_run() {
    let s = st();
    s.saved.clear();
    s.cur = 0;
    put(&s.ranges, &s.pristine);
}

pub fn switch(proc: usize) {
    let s = st();
    if s.cur == proc || s.ranges.is_empty() {
        s.cur = proc;
        return;
    }
    let now = grab(&s.ranges);
    let c = s.cur;
    s.saved.insert(c, now);
    match s.saved.remove(&proc) {
        Some(d) => put(&s.ranges, &d),
        None => put(&s.ranges, &s.pristine),
    }
    s.cur = proc;
}

/// Whether an address belongs to a static of the crate under test.
pub fn owns(a: usize) -> bool {
    st().ranges.iter().any(|(b, n)| a >= *b && a < b + n)
}
