//! Global allocator that checks how memory is used: every block carries a header with its layout
//! and canaries on both sides; releases are checked against the layout of the allocation and freed
//! memory is poisoned. Errors are recorded, never raised from inside the allocator.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct CheckedAlloc;

const MAGIC: u64 = 0x51ab_77c3_90de_12f4;
const FREED: u64 = 0xdead_51ab_77c3_90de;
const CANARY: u8 = 0xa7;
const POISON: u8 = 0xd9;
const TAIL: usize = 32;

#[repr(C)]
struct Header {
    size: usize,
    align: usize,
    magic: u64,
    canary: [u8; 8],
}

pub const BAD_LAYOUT: u64 = 1;
pub const UNDERRUN: u64 = 2;
pub const OVERRUN: u64 = 4;
pub const BAD_FREE: u64 = 8;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static BYTES: Cell<i64> = const { Cell::new(0) };
    // Refuse allocations from this number of bytes on.
    static REFUSE: Cell<usize> = const { Cell::new(usize::MAX) };
    // Bit set of detected errors since the last call to `take_errors`.
    static ERRORS: Cell<u64> = const { Cell::new(0) };
}

/// Number of live blocks (allocated minus released) by this thread.
pub fn live() -> i64 {
    LIVE.with(|x| x.get())
}

/// Number of allocations (including moves by realloc) made by this thread.
pub fn count() -> u64 {
    COUNT.with(|x| x.get())
}

pub fn live_bytes() -> i64 {
    BYTES.with(|x| x.get())
}

/// Refuse allocations of at least that many bytes, until called with `usize::MAX`.
pub fn refuse(bytes: usize) {
    REFUSE.with(|x| x.set(bytes));
}

fn error(bit: u64) {
    let _ = ERRORS.try_with(|x| x.set(x.get() | bit));
}

pub fn take_errors() -> u64 {
    ERRORS.with(|x| x.replace(0))
}

pub fn describe(errors: u64) -> String {
    let mut s = String::new();
    for (bit, name) in [
        (BAD_LAYOUT, "released with a layout different from the allocation; "),
        (UNDERRUN, "memory before a block was overwritten; "),
        (OVERRUN, "memory after a block was overwritten; "),
        (BAD_FREE, "released twice or never allocated; "),
    ] {
        if errors & bit != 0 {
            s.push_str(name);
        }
    }
    s
}

fn lead(align: usize) -> usize {
    // Keep room for a block of canary bytes before the header.
    (std::mem::size_of::<Header>() + 16).next_multiple_of(align.max(16))
}

fn full(size: usize, align: usize) -> Option<Layout> {
    Layout::from_size_align(size.checked_add(lead(align) + TAIL)?, align.max(16)).ok()
}

impl CheckedAlloc {
    unsafe fn check(&self, ptr: *mut u8, layout: Layout) -> Option<(usize, usize)> {
        unsafe {
            let header = (ptr as *mut Header).sub(1);

            if (*header).magic != MAGIC {
                let bit = if (*header).magic == FREED { BAD_FREE } else { UNDERRUN };
                error(bit);
                return None;
            }

            let (size, align) = ((*header).size, (*header).align);

            if size != layout.size() || align != layout.align() {
                error(BAD_LAYOUT);
            }

            if (*header).canary != [CANARY; 8] {
                error(UNDERRUN);
            }

            let tail = std::slice::from_raw_parts(ptr.add(size), TAIL);

            if tail.iter().any(|&x| x != CANARY) {
                error(OVERRUN);
            }

            Some((size, align))
        }
    }
}

unsafe impl GlobalAlloc for CheckedAlloc {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        unsafe {
            if layout.size() >= REFUSE.try_with(|x| x.get()).unwrap_or(usize::MAX) {
                return std::ptr::null_mut();
            }
            let Some(full) = full(layout.size(), layout.align()) else {
                return std::ptr::null_mut();
            };
            let start = System.alloc(full);

            if start.is_null() {
                return start;
            }

            let ptr = start.add(lead(layout.align()));
            let header = (ptr as *mut Header).sub(1);

            header.write(Header {
                size: layout.size(),
                align: layout.align(),
                magic: MAGIC,
                canary: [CANARY; 8],
            });
            std::ptr::write_bytes(ptr, POISON, layout.size().min(4096));
            std::ptr::write_bytes(ptr.add(layout.size()), CANARY, TAIL);

            let _ = LIVE.try_with(|x| x.set(x.get() + 1));
            let _ = COUNT.try_with(|x| x.set(x.get() + 1));
            let _ = BYTES.try_with(|x| x.set(x.get() + layout.size() as i64));

            ptr
        }
    }

    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        unsafe {
            // On a bad release, leak the block rather than corrupt the real allocator.
            let Some((size, align)) = self.check(ptr, layout) else { return };
            let header = (ptr as *mut Header).sub(1);

            (*header).magic = FREED;
            std::ptr::write_bytes(ptr, POISON, size.min(4096));

            let _ = LIVE.try_with(|x| x.set(x.get() - 1));
            let _ = BYTES.try_with(|x| x.set(x.get() - size as i64));

            System.dealloc(ptr.sub(lead(align)), full(size, align).unwrap());
        }
    }
}
