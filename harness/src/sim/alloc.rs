//! Global allocator. Outside a simulation it is the system allocator. Inside one it is a
//! deterministic size-class arena at a fixed address (so that nothing derived from an
//! address differs between runs), and every allocation is a potential preemption point.
//! Only the thread that holds the simulator's baton ever allocates from the arena, so it
//! needs no locking.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};

pub struct SimAlloc;

const BASE: usize = 0x2a00_0000_0000;
const SIZE: usize = 64 << 30;
pub static ARENA_ON: AtomicBool = AtomicBool::new(false);
static NEXT: AtomicUsize = AtomicUsize::new(0);
pub static LIMIT: AtomicUsize = AtomicUsize::new(3 << 30);
const NCLASS: usize = 64 + 4 * 40;
static mut FREE: [usize; NCLASS] = [0; NCLASS];

pub fn init() {
    unsafe {
        let p = libc::mmap(
            BASE as *mut _,
            SIZE,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE,
            -1,
            0,
        );
        if p as usize != BASE {
            super::fatal("cannot map the arena");
        }
    }
    NEXT.store(BASE + 4096, Relaxed);
    ARENA_ON.store(true, Relaxed);
}

pub fn used() -> usize {
    NEXT.load(Relaxed).saturating_sub(BASE)
}

#[inline]
fn class_of(size: usize) -> (usize, usize) {
    // returns (class, rounded size)
    if size <= 1024 {
        let c = (size.max(1) + 15) / 16; // 1..=64
        (c - 1, c * 16)
    } else {
        // 4 classes per power of two
        let lg = (usize::BITS - 1 - (size - 1).leading_zeros()) as usize; // 2^lg <= size-1 < 2^(lg+1)
        let step = 1usize << (lg - 2);
        let base = 1usize << lg;
        let k = (size - base).div_ceil(step); // 1..=4
        (64 + (lg - 10) * 4 + (k - 1), base + k * step)
    }
}

unsafe fn arena_alloc(l: Layout) -> *mut u8 {
    let align = l.align();
    let mut size = l.size();
    if align > 16 {
        size += align;
    }
    let (c, rs) = class_of(size);
    unsafe {
        let head = FREE[c];
        let p;
        if head != 0 {
            FREE[c] = *(head as *const usize);
            p = head;
        } else {
            let n = NEXT.load(Relaxed);
            if n + rs - BASE > LIMIT.load(Relaxed) {
                super::on_oom();
                return std::ptr::null_mut();
            }
            NEXT.store(n + rs, Relaxed);
            p = n;
        }
        if align > 16 {
            // store the block start just below the aligned address
            let a = (p + align) & !(align - 1);
            let a = if a - p < 8 { a + align } else { a };
            *((a - 8) as *mut usize) = p;
            a as *mut u8
        } else {
            p as *mut u8
        }
    }
}
unsafe fn arena_free(p: *mut u8, l: Layout) {
    let align = l.align();
    let mut size = l.size();
    let mut start = p as usize;
    unsafe {
        if align > 16 {
            size += align;
            start = *((p as usize - 8) as *const usize);
        }
        let (c, _) = class_of(size);
        *(start as *mut usize) = FREE[c];
        FREE[c] = start;
    }
}
#[inline]
fn in_arena(p: *mut u8) -> bool {
    let a = p as usize;
    (BASE..BASE + SIZE).contains(&a)
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if ARENA_ON.load(Relaxed) && super::is_sim_thread() {
            super::sched::alloc_point();
            unsafe { arena_alloc(l) }
        } else {
            unsafe { System.alloc(l) }
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if in_arena(p) {
            unsafe { arena_free(p, l) }
        } else {
            unsafe { System.dealloc(p, l) }
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if in_arena(p) {
            let extra = if l.align() > 16 { l.align() } else { 0 };
            let (_, rs) = class_of(l.size() + extra);
            let (_, rn) = class_of(new + extra);
            if rn == rs {
                return p;
            }
        } else if !(ARENA_ON.load(Relaxed) && super::is_sim_thread()) {
            return unsafe { System.realloc(p, l, new) };
        }
        unsafe {
            let nl = Layout::from_size_align_unchecked(new, l.align());
            let q = self.alloc(nl);
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
                self.dealloc(p, l);
            }
            q
        }
    }
}
