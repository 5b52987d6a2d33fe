//! Elements with life-cycle accounting and fault injection.
//!
//! Each `Tracked` instance has a label (what the reference model knows it by) and a unique serial
//! number. A per-thread registry knows which serials are live, so double drops, uses after drop and
//! leaks are all visible. Every user callback (clone, drop, closure) passes through `tick`, which
//! panics at the chosen call number.

use std::cell::{Cell, RefCell};

#[derive(Default)]
struct Registry {
    live: Vec<bool>,
    labels: Vec<u32>,
    errors: Vec<String>,
    clones: usize,
    drops: usize,
}

thread_local! {
    static REG: RefCell<Registry> = RefCell::new(Registry::default());
    static TICKS: Cell<u32> = const { Cell::new(0) };
    static FAULT: Cell<u32> = const { Cell::new(u32::MAX) };
    static KINDS: Cell<u32> = const { Cell::new(0) };
    static ZLIVE: Cell<i64> = const { Cell::new(0) };
}

pub const CLONE: u32 = 1;
pub const DROP: u32 = 2;
pub const CALL: u32 = 4;
pub const ALL: u32 = 7;

/// Start a fresh run: forget all instances, and panic at callback number `fault` (counted from 0
/// over the kinds of callbacks in `kinds`), if reached.
pub fn reset(fault: Option<u32>, kinds: u32) {
    REG.with(|r| {
        let mut r = r.borrow_mut();
        r.live.clear();
        r.labels.clear();
        // Never grow during a case, which would look like a leaked allocation.
        r.live.reserve(4096);
        r.labels.reserve(4096);
        r.errors.clear();
        r.clones = 0;
        r.drops = 0;
    });
    TICKS.with(|x| x.set(0));
    FAULT.with(|x| x.set(fault.unwrap_or(u32::MAX)));
    KINDS.with(|x| x.set(kinds));
    ZLIVE.with(|x| x.set(0));
}

/// Arm fault injection from here on (restarts the callback count).
pub fn arm(fault: Option<u32>, kinds: u32) {
    TICKS.with(|x| x.set(0));
    FAULT.with(|x| x.set(fault.unwrap_or(u32::MAX)));
    KINDS.with(|x| x.set(kinds));
}

/// Stop injecting faults and counting callbacks; returns the number of callbacks counted.
pub fn disarm() -> u32 {
    FAULT.with(|x| x.set(u32::MAX));
    KINDS.with(|x| x.set(0));
    TICKS.with(|x| x.get())
}

pub fn tick(kind: u32) {
    if KINDS.with(|x| x.get()) & kind != 0 {
        let n = TICKS.with(|x| {
            x.set(x.get() + 1);
            x.get() - 1
        });
        if n == FAULT.with(|x| x.get()) && !std::thread::panicking() {
            FAULT.with(|x| x.set(u32::MAX));
            RAISED.with(|x| x.set(true));
            std::panic::panic_any(Injected);
        }
    }
}

thread_local! {
    static PLAN: Cell<(u32, u32)> = const { Cell::new((u32::MAX, 0)) };
    static RAISED: Cell<bool> = const { Cell::new(false) };
}

/// Choose what `start` does: panic at callback number `fault` of the given kinds.
pub fn plan(fault: Option<u32>, kinds: u32) {
    PLAN.with(|x| x.set((fault.unwrap_or(u32::MAX), kinds)));
    RAISED.with(|x| x.set(false));
}

/// The operation under test begins: arm as planned.
pub fn start() {
    let (fault, kinds) = PLAN.with(|x| x.get());
    TICKS.with(|x| x.set(0));
    FAULT.with(|x| x.set(fault));
    KINDS.with(|x| x.set(kinds));
}

/// The planned fault was raised.
pub fn raised() -> bool {
    RAISED.with(|x| x.get())
}

/// Payload of an injected panic.
pub struct Injected;

pub fn errors() -> Vec<String> {
    REG.with(|r| std::mem::take(&mut r.borrow_mut().errors))
}

pub fn live_count() -> usize {
    REG.with(|r| r.borrow().live.iter().filter(|x| **x).count()) + ZLIVE.with(|x| x.get()) as usize
}

pub fn live_labels() -> Vec<u32> {
    REG.with(|r| {
        let r = r.borrow();
        (0..r.live.len()).filter(|&i| r.live[i]).map(|i| r.labels[i]).collect()
    })
}

pub fn created() -> usize {
    REG.with(|r| r.borrow().live.len())
}

fn error(msg: String) {
    REG.with(|r| {
        let mut r = r.borrow_mut();
        if r.errors.len() < 8 {
            r.errors.push(msg);
        }
    })
}

fn register(label: u32) -> u32 {
    REG.with(|r| {
        let mut r = r.borrow_mut();
        r.live.push(true);
        r.labels.push(label);
        (r.live.len() - 1) as u32
    })
}

#[repr(C)]
pub struct Tracked {
    label: u32,
    serial: u32,
    check: u32,
}

fn seal(label: u32, serial: u32) -> u32 {
    (label.wrapping_mul(0x9e37_79b1) ^ serial.wrapping_mul(0x85eb_ca6b)) | 1
}

impl Tracked {
    pub fn new(label: u32) -> Self {
        let serial = register(label);

        Self { label, serial, check: seal(label, serial) }
    }

    fn valid(&self, what: &str) -> bool {
        if self.check != seal(self.label, self.serial) {
            error(format!("{what} of memory that is not an initialized element"));
            return false;
        }
        let ok = REG.with(|r| r.borrow().live.get(self.serial as usize).copied());
        match ok {
            Some(true) => true,
            Some(false) => {
                error(format!("{what} of element {} after it was dropped", self.label));
                false
            }
            None => {
                error(format!("{what} of an unknown element"));
                false
            }
        }
    }

    /// Label, checking that the element is live.
    pub fn get(&self) -> u32 {
        if self.valid("read") { self.label } else { u32::MAX }
    }
}

impl Clone for Tracked {
    fn clone(&self) -> Self {
        tick(CLONE);
        let label = self.get();
        Self::new(label)
    }
}

impl Drop for Tracked {
    fn drop(&mut self) {
        if self.valid("drop") {
            REG.with(|r| {
                let mut r = r.borrow_mut();
                r.live[self.serial as usize] = false;
                r.drops += 1;
            });
        }
        tick(DROP);
    }
}

impl PartialEq for Tracked {
    fn eq(&self, other: &Self) -> bool {
        self.get() == other.get()
    }
}

impl std::fmt::Debug for Tracked {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.get().fmt(f)
    }
}

/// Zero-sized element with a live count.
pub struct Zst;

impl Zst {
    pub fn make() -> Self {
        ZLIVE.with(|x| x.set(x.get() + 1));
        Zst
    }
}

impl Clone for Zst {
    fn clone(&self) -> Self {
        tick(CLONE);
        Self::make()
    }
}

impl Drop for Zst {
    fn drop(&mut self) {
        ZLIVE.with(|x| x.set(x.get() - 1));
        if ZLIVE.with(|x| x.get()) < 0 {
            error("more zero-sized elements dropped than created".into());
        }
        tick(DROP);
    }
}

/// What the explorers need of an element type.
pub trait Elem: Clone + 'static {
    const ZST: bool;
    const TRACKED: bool = true;
    const NAME: &'static str;
    fn make(label: u32) -> Self;
    fn label(&self) -> u32;
}

impl Elem for Tracked {
    const ZST: bool = false;
    const NAME: &'static str = "tracked";
    fn make(label: u32) -> Self {
        Tracked::new(label)
    }
    fn label(&self) -> u32 {
        self.get()
    }
}

impl Elem for Zst {
    const ZST: bool = true;
    const NAME: &'static str = "zero-sized";
    fn make(_: u32) -> Self {
        Zst::make()
    }
    fn label(&self) -> u32 {
        0
    }
}

/// Plain data that can be copied as bytes and needs no drop.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Plain(u32);

impl Elem for Plain {
    const ZST: bool = false;
    const TRACKED: bool = false;
    const NAME: &'static str = "plain";
    fn make(label: u32) -> Self {
        Plain(label)
    }
    fn label(&self) -> u32 {
        self.0
    }
}

/// Plain data, large and aligned.
#[derive(Clone, Copy, Debug, PartialEq)]
#[repr(align(64))]
pub struct Wide([u64; 11]);

impl Elem for Wide {
    const ZST: bool = false;
    const TRACKED: bool = false;
    const NAME: &'static str = "wide";
    fn make(label: u32) -> Self {
        Wide(std::array::from_fn(|i| label as u64 + i as u64))
    }
    /// The label, if all parts belong together.
    fn label(&self) -> u32 {
        let x = self.0[0] as u32;
        if self as *const Self as usize % 64 == 0 && *self == Wide::make(x) { x } else { u32::MAX }
    }
}
