//! Counts the memory the code under test has in use: a small header before each
//! block says whether it was allocated by a simulated thread outside the simulator.
//! Such blocks are filled with rubbish when they are made and when they are freed, and
//! are kept for a while after that, to see whether something still uses them.
use crate::rt::live;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicIsize, Ordering::*};

pub struct Counting;
static BYTES: AtomicIsize = AtomicIsize::new(0);
static BLOCKS: AtomicIsize = AtomicIsize::new(0);
static MISUSED: AtomicBool = AtomicBool::new(false);
static BUSY: AtomicBool = AtomicBool::new(false);
static mut NEXT: usize = 0;
static mut KEPT: [(*mut u8, usize, usize); KEEP] = [(std::ptr::null_mut(), 0, 0); KEEP];
const KEEP: usize = 4096;
/// larger blocks are freed at once
const LARGE: usize = 512;
const OTHER: u64 = 0x0f0f_a110_c8ed_0000;
const OURS: u64 = 0x0f0f_a110_c8ed_0001;
const FREED: u64 = 0x0f0f_a110_c8ed_0002;

/// a block was written to or freed after it had been freed
pub fn misused() -> bool {
    MISUSED.load(Relaxed)
}
unsafe fn intact(p: *mut u8, size: usize) -> bool {
    *(p.sub(8) as *mut u64) == FREED && std::slice::from_raw_parts(p, size).iter().all(|b| *b == 0xdd)
}
/// Looks at all blocks that are kept.
pub fn sweep() {
    unsafe {
        for (p, size, _) in KEPT.iter() {
            if !p.is_null() && !intact(*p, *size) {
                MISUSED.store(true, Relaxed);
            }
        }
    }
}
unsafe fn keep(p: *mut u8, l: Layout) {
    while BUSY.compare_exchange(false, true, Acquire, Relaxed).is_err() {
        std::hint::spin_loop();
    }
    let (q, size, align) = KEPT[NEXT];
    KEPT[NEXT] = (p, l.size(), l.align());
    NEXT = (NEXT + 1) % KEEP;
    BUSY.store(false, Release);
    if !q.is_null() {
        let l = Layout::from_size_align_unchecked(size, align);
        if !intact(q, size) {
            MISUSED.store(true, Relaxed);
        }
        let (o, pad) = outer(l);
        System.dealloc(q.sub(pad), o)
    }
}

/// (blocks, bytes) in use
pub fn in_use() -> (isize, isize) {
    (BLOCKS.load(Relaxed), BYTES.load(Relaxed))
}
unsafe fn add(blocks: isize, bytes: isize) {
    BLOCKS.fetch_add(blocks, Relaxed);
    BYTES.fetch_add(bytes, Relaxed);
}
fn outer(l: Layout) -> (Layout, usize) {
    let pad = l.align().max(16);
    (unsafe { Layout::from_size_align_unchecked(l.size() + pad, pad) }, pad)
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let (o, pad) = outer(l);
        let p = System.alloc(o);
        if p.is_null() {
            return p;
        }
        let counted = live();
        *(p.add(pad - 8) as *mut u64) = if counted { OURS } else { OTHER };
        if counted {
            add(1, l.size() as isize);
            std::ptr::write_bytes(p.add(pad), 0xcd, l.size().min(LARGE));
        }
        p.add(pad)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let (o, pad) = outer(l);
        match *(p.sub(8) as *mut u64) {
            OTHER => {}
            OURS => {
                add(-1, -(l.size() as isize));
                *(p.sub(8) as *mut u64) = FREED;
                std::ptr::write_bytes(p, 0xdd, l.size().min(LARGE));
                if l.size() <= LARGE {
                    return keep(p, l);
                }
            }
            // freed twice, or something wrote in front of it
            _ => return MISUSED.store(true, Relaxed),
        }
        System.dealloc(p.sub(pad), o)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, size: usize) -> *mut u8 {
        let (o, pad) = outer(l);
        if *(p.sub(8) as *mut u64) == OURS {
            add(0, size as isize - l.size() as isize);
        }
        let q = System.realloc(p.sub(pad), o, size + pad);
        if q.is_null() {
            return q;
        }
        q.add(pad)
    }
}
