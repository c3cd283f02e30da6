//! Thread flags and the deterministic allocator.
//!
//! While `ARENA` is set on a thread, allocations come from a fixed-address arena with size-class
//! free lists, so that object addresses (and with them pointer hashes and hash-map iteration
//! orders in the code under test) are a pure function of the run. Freed and fresh memory is
//! filled with recognisable garbage.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    pub static ARENA: Cell<bool> = const { Cell::new(false) };
    pub static SEAM: Cell<bool> = const { Cell::new(false) };
    pub static SLOT: Cell<usize> = const { Cell::new(0) };
}

const BASE: usize = 0x2000_0000_0000;
const SLOT_SIZE: usize = 256 << 20;
pub const SLOTS: usize = 16;
const CLASSES: usize = 48;

struct Slot {
    top: usize,
    end: usize,
    free: [usize; CLASSES],
    high: usize,
}

struct State {
    mapped: bool,
    slots: [Slot; SLOTS],
}

const EMPTY: Slot = Slot { top: 0, end: 0, free: [0; CLASSES], high: 0 };
static mut ST: State = State { mapped: false, slots: [EMPTY; SLOTS] };

pub struct Alloc;

fn class_of(size: usize) -> (usize, usize) {
    // 16-byte steps up to 256, then powers of two with two sub-steps
    let s = size.max(1);
    if s <= 256 {
        let c = (s + 15) / 16;
        (c - 1, c * 16)
    } else {
        let mut c = 16;
        let mut cap = 384usize;
        let mut half = false;
        while cap < s {
            cap = if half { cap / 2 * 3 } else { cap / 3 * 4 };
            half = !half;
            c += 1;
        }
        (c.min(CLASSES - 1), cap)
    }
}

#[allow(static_mut_refs)]
pub fn map() {
    unsafe {
        if ST.mapped {
            return;
        }
        let p = libc::mmap(
            BASE as *mut libc::c_void,
            SLOT_SIZE * SLOTS,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE,
            -1,
            0,
        );
        if p as usize != BASE {
            eprintln!("sim: cannot map the arena at a fixed address");
            libc::_exit(3);
        }
        ST.mapped = true;
    }
}

/// Starts the arena slot of one simulated thread afresh, at a given offset.
#[allow(static_mut_refs)]
pub fn reset(slot: usize, pad: usize) {
    unsafe {
        let b = BASE + slot * SLOT_SIZE;
        let s = &mut ST.slots[slot];
        // give back memory of exceptionally large runs
        if s.high > b + (8 << 20) {
            libc::madvise((b + (8 << 20)) as *mut libc::c_void, s.high - b - (8 << 20), libc::MADV_DONTNEED);
        }
        s.top = b + 64 + (pad & !15);
        s.end = b + SLOT_SIZE;
        s.high = s.top;
        s.free = [0; CLASSES];
    }
}

unsafe fn arena_alloc(layout: Layout, zero: bool) -> *mut u8 {
    let slot = SLOT.with(|s| s.get());
    #[allow(static_mut_refs)]
    let s = &mut ST.slots[slot];
    let (c, cap) = class_of(layout.size());
    let al = layout.align().max(16);
    let p;
    if s.free[c] != 0 && al == 16 && c < CLASSES - 1 {
        p = s.free[c];
        s.free[c] = *(p as *const usize);
    } else {
        let a = (s.top + al - 1) & !(al - 1);
        if a + cap > s.end {
            return std::ptr::null_mut();
        }
        p = a;
        s.top = a + cap;
        if s.top > s.high {
            s.high = s.top;
        }
    }
    let fill = if zero { 0 } else { 0xCD };
    std::ptr::write_bytes(p as *mut u8, fill, if zero { layout.size() } else { layout.size().min(4096) });
    p as *mut u8
}

unsafe fn arena_free(p: *mut u8, layout: Layout) {
    if SLOT.with(|s| s.get()) == usize::MAX {
        return; // a simulated thread past its end
    }
    let slot = (p as usize - BASE) / SLOT_SIZE;
    std::ptr::write_bytes(p, 0xDD, layout.size().min(4096));
    #[allow(static_mut_refs)]
    let s = &mut ST.slots[slot];
    let (c, _) = class_of(layout.size());
    if layout.align() <= 16 && c < CLASSES - 1 {
        *(p as *mut usize) = s.free[c];
        s.free[c] = p as usize;
    }
}

#[inline]
fn in_arena(p: *mut u8) -> bool {
    (p as usize) >= BASE && (p as usize) < BASE + SLOT_SIZE * SLOTS
}

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if ARENA.with(|a| a.get()) { arena_alloc(l, false) } else { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if ARENA.with(|a| a.get()) { arena_alloc(l, true) } else { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if in_arena(p) { arena_free(p, l) } else { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if in_arena(p) || ARENA.with(|a| a.get()) {
            let nl = Layout::from_size_align_unchecked(new, l.align());
            let q = self.alloc(nl);
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
                self.dealloc(p, l);
            }
            q
        } else {
            System.realloc(p, l, new)
        }
    }
}

/// Runs harness code on a simulated thread: real libc, ordinary heap.
pub struct Host(bool, bool);
impl Host {
    pub fn enter() -> Host {
        Host(ARENA.with(|a| a.replace(false)), SEAM.with(|a| a.replace(false)))
    }
}
impl Drop for Host {
    fn drop(&mut self) {
        ARENA.with(|a| a.set(self.0));
        SEAM.with(|a| a.set(self.1));
    }
}
/// Runs the code under test: interposed libc, arena heap.
pub struct Sut(bool, bool);
impl Sut {
    pub fn enter() -> Sut {
        Sut(ARENA.with(|a| a.replace(true)), SEAM.with(|a| a.replace(true)))
    }
}
impl Drop for Sut {
    fn drop(&mut self) {
        ARENA.with(|a| a.set(self.0));
        SEAM.with(|a| a.set(self.1));
    }
}
