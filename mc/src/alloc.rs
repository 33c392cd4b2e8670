//! Allocator for the explorer: small blocks come from per-thread free lists, so
//! that the workers do not queue for the C library's heap lock. It also measures
//! the memory a call holds at most.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;
use std::ptr::null_mut;

const STEP: usize = 16;
const CLASSES: usize = 64; // up to 1024 bytes
const SLAB: usize = 1 << 18;

struct Local {
    free: [*mut u8; CLASSES],
    at: *mut u8,
    left: usize,
    live: isize,
    peak: isize,
}
thread_local! {
    static LOCAL: UnsafeCell<Local> = const { UnsafeCell::new(Local { free: [null_mut(); CLASSES], at: null_mut(), left: 0, live: 0, peak: 0 }) };
}

pub struct Pool;

/// the most memory that `f` holds at a time in this thread, beyond what there was
pub fn peak<T>(f: impl FnOnce() -> T) -> (T, usize) {
    LOCAL.with(|x| unsafe {
        (*x.get()).live = 0;
        (*x.get()).peak = 0;
    });
    let r = f();
    (r, LOCAL.with(|x| unsafe { (*x.get()).peak }).max(0) as usize)
}
#[inline]
fn count(n: isize) {
    LOCAL.with(|x| unsafe {
        let x = &mut *x.get();
        x.live += n;
        x.peak = x.peak.max(x.live);
    })
}
#[inline]
fn class(l: &Layout) -> Option<usize> {
    let n = l.size().max(1);
    if n <= STEP * CLASSES && l.align() <= STEP {
        Some((n - 1) / STEP)
    } else {
        None
    }
}
unsafe impl GlobalAlloc for Pool {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(l.size() as isize);
        let Some(c) = class(&l) else { return System.alloc(l) };
        LOCAL.with(|x| {
            let x = &mut *x.get();
            let p = x.free[c];
            if !p.is_null() {
                x.free[c] = *(p as *mut *mut u8);
                return p;
            }
            let n = (c + 1) * STEP;
            if x.left < n {
                let s = System.alloc(Layout::from_size_align_unchecked(SLAB, STEP));
                if s.is_null() {
                    return s;
                }
                x.at = s;
                x.left = SLAB;
            }
            let p = x.at;
            x.at = p.add(n);
            x.left -= n;
            p
        })
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        count(-(l.size() as isize));
        let Some(c) = class(&l) else { return System.dealloc(p, l) };
        LOCAL.with(|x| {
            let x = &mut *x.get();
            *(p as *mut *mut u8) = x.free[c];
            x.free[c] = p;
        })
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let to = Layout::from_size_align_unchecked(n, l.align());
        match (class(&l), class(&to)) {
            (Some(a), Some(b)) if a == b => {
                count(n as isize - l.size() as isize);
                p
            }
            (None, None) => {
                count(n as isize - l.size() as isize);
                System.realloc(p, l, n)
            }
            _ => {
                let q = self.alloc(to);
                if !q.is_null() {
                    std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                    self.dealloc(p, l);
                }
                q
            }
        }
    }
}
