//! A checking global allocator: canaries, poisoning and a quarantine make double frees, invalid
//! frees, small overflows and uses after free deterministic; a per-thread live counter finds leaks.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};

pub struct Checked;

const LIVE: u64 = 0x4c49_5645_c0de_0001;
const DEAD: u64 = 0xdead_dead_c0de_0002;
const TAIL: u64 = 0x7461_696c_c0de_0003;
const RING: usize = 512;
const FILL: usize = 1024;

struct Ring {
    at: usize,
    slots: [(*mut u8, usize, usize); RING],
}

thread_local! {
    static LIVE_COUNT: Cell<i64> = const { Cell::new(0) };
    static RING_TL: UnsafeCell<Ring> =
        const { UnsafeCell::new(Ring { at: 0, slots: [(std::ptr::null_mut(), 0, 0); RING] }) };
}

/// Number of live allocations made minus freed by this thread.
pub fn live() -> i64 {
    LIVE_COUNT.with(|c| c.get())
}

/// Aborts if any block freed by this thread and still in quarantine was written to since.
pub fn check_quarantine() {
    RING_TL.with(|r| unsafe {
        let r = &mut *r.get();
        for s in r.slots.iter_mut() {
            let (p, size, al) = *s;
            if p.is_null() {
                continue;
            }
            *s = (std::ptr::null_mut(), 0, 0);
            let u = p.add(al);
            if (u.sub(16) as *mut u64).read() != DEAD {
                die("CHECKED-ALLOC: write to freed memory (header)\n");
            }
            let n = (size - al - 8).min(FILL);
            if std::slice::from_raw_parts(u, n).iter().any(|b| *b != 0xdd) {
                die("CHECKED-ALLOC: write to freed memory\n");
            }
            System.dealloc(p, Layout::from_size_align_unchecked(size, al));
        }
    });
}

fn die(msg: &str) -> ! {
    // No allocation here.
    let b = msg.as_bytes();
    unsafe {
        write(2, b.as_ptr(), b.len());
    }
    std::process::abort()
}

extern "C" {
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
}

#[inline]
fn pad(l: &Layout) -> usize {
    l.align().max(16)
}

unsafe impl GlobalAlloc for Checked {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let pd = pad(&l);
        let full = Layout::from_size_align_unchecked(pd + l.size() + 8, pd);
        let p = System.alloc(full);
        if p.is_null() {
            return p;
        }
        let u = p.add(pd);
        (u.sub(16) as *mut u64).write(LIVE);
        (u.sub(8) as *mut u64).write(l.size() as u64);
        (u.add(l.size()) as *mut u64).write_unaligned(TAIL);
        std::ptr::write_bytes(u, 0xa5, l.size().min(FILL));
        let _ = LIVE_COUNT.try_with(|c| c.set(c.get() + 1));
        u
    }

    unsafe fn dealloc(&self, u: *mut u8, l: Layout) {
        let pd = pad(&l);
        let magic = (u.sub(16) as *mut u64).read();
        if magic == DEAD {
            die("CHECKED-ALLOC: double free\n");
        }
        if magic != LIVE {
            die("CHECKED-ALLOC: free of a pointer that is not an allocation\n");
        }
        if (u.sub(8) as *mut u64).read() != l.size() as u64 {
            die("CHECKED-ALLOC: free with a wrong size\n");
        }
        if (u.add(l.size()) as *mut u64).read_unaligned() != TAIL {
            die("CHECKED-ALLOC: write past the end of an allocation\n");
        }
        (u.sub(16) as *mut u64).write(DEAD);
        std::ptr::write_bytes(u, 0xdd, l.size().min(FILL));
        let _ = LIVE_COUNT.try_with(|c| c.set(c.get() - 1));
        let base = u.sub(pd);
        let size = pd + l.size() + 8;
        if size > 65536 {
            System.dealloc(base, Layout::from_size_align_unchecked(size, pd));
            return;
        }
        let old = RING_TL.try_with(|r| {
            let r = &mut *r.get();
            let old = r.slots[r.at];
            r.slots[r.at] = (base, size, pd);
            r.at = (r.at + 1) % RING;
            old
        });
        match old {
            Ok((p, size, al)) => {
                if !p.is_null() {
                    System.dealloc(p, Layout::from_size_align_unchecked(size, al));
                }
            }
            Err(_) => System.dealloc(base, Layout::from_size_align_unchecked(size, pd)),
        }
    }
}
