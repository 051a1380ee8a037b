//! The seams: everything nondeterministic that kms can meet inside a node goes through this file.
//!
//! * SanitizerCoverage callbacks of the instrumented crates: steps, preemption points, crash points
//! * interposed C functions: futexes, entropy, clocks, sleeping, yielding, process id
//! * the global allocator: deterministic addresses, allocation failure, inspection of released memory
//! * the scheduler: the threads of a node run one at a time and this file decides which one
#![allow(static_mut_refs)]

use std::alloc::{GlobalAlloc, Layout};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicU8, Ordering::*};

// ---------------------------------------------------------------------------------- raw system calls
/// sixth argument of a system call that the simulator makes for itself (see host.rs)
pub const PASS: i64 = 0x4b53494d;
pub unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
unsafe fn seterr(e: i32) {
    *libc::__errno_location() = e;
}
unsafe fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        seterr((-r) as i32);
        -1
    } else {
        r
    }
}
unsafe fn futex_wait_raw(w: &AtomicU32, v: u32) {
    raw(libc::SYS_futex, w as *const _ as i64, libc::FUTEX_WAIT as i64, v as i64, 0, 0, 0);
}
unsafe fn futex_wake_raw(w: &AtomicU32) {
    raw(libc::SYS_futex, w as *const _ as i64, libc::FUTEX_WAKE as i64, 1, 0, 0, 0);
}
pub fn wall() -> f64 {
    unsafe {
        let mut t: libc::timespec = std::mem::zeroed();
        raw(libc::SYS_clock_gettime, 1, &mut t as *mut _ as i64, 0, 0, 0, 0);
        t.tv_sec as f64 + t.tv_nsec as f64 / 1e9
    }
}
pub fn exit_now(code: i32) -> ! {
    unsafe {
        raw(libc::SYS_exit_group, code as i64, 0, 0, 0, 0, 0);
    }
    unreachable!()
}

pub const X_CRASH: i32 = 77;
pub const X_HANG: i32 = 78;
pub const X_UNSUPPORTED: i32 = 79;
pub const X_DEADLOCK: i32 = 80;

// ---------------------------------------------------------------------------------- shared memory
pub const NFAULT: usize = 64;
pub const NSET: usize = 1 << 20;

/// State shared by all workers of a check (statistics) ...
#[repr(C)]
pub struct Shared {
    pub next_run: AtomicU64,
    pub min_fail: AtomicU64,
    pub runs: AtomicU64,
    pub nontrivial: AtomicU64,
    pub calls: AtomicU64,
    pub judged: AtomicU64,
    pub steps: AtomicU64,
    pub sim_ns: AtomicU64,
    pub nodes: AtomicU64,
    pub switches: AtomicU64,
    pub flaky: AtomicU64,
    pub harness_errors: AtomicU64,
    pub fault: [AtomicU64; NFAULT],
    pub probe: [AtomicU64; NFAULT],
    pub edge: [AtomicU8; 1 << 16],
    /// distinct values (hash sets): 0 = runs (trace hash), 1 = schedules, 2 = coverage states
    pub sets: [[AtomicU64; NSET]; 3],
    pub set_n: [AtomicU64; 3],
}

impl Shared {
    pub fn insert(&self, set: usize, v: u64) -> bool {
        let v = v | 1;
        let mut i = (v >> 3) as usize % NSET;
        for _ in 0..64 {
            let c = self.sets[set][i].load(Relaxed);
            if c == v {
                return false;
            }
            if c == 0 && self.sets[set][i].compare_exchange(0, v, Relaxed, Relaxed).is_ok() {
                self.set_n[set].fetch_add(1, Relaxed);
                return true;
            }
            if c == 0 {
                continue;
            }
            i = (i + 1) % NSET;
        }
        false
    }
}

/// ... and the simulated operating system of one run: shared by all its nodes.
#[repr(C)]
pub struct Os {
    pub salt: AtomicU64,
    pub pos: AtomicU64,
    pub now_ns: AtomicU64,
    pub next_pid: AtomicU32,
}

pub static mut SHARED: *const Shared = std::ptr::null();
pub static mut OS: *const Os = std::ptr::null();
pub fn sh() -> &'static Shared {
    unsafe { &*SHARED }
}
pub fn os() -> &'static Os {
    unsafe { &*OS }
}
pub unsafe fn map_shared(n: usize) -> *mut u8 {
    let r = raw(libc::SYS_mmap, 0, n as i64, 3, (libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE) as i64, -1, 0);
    if r < 0 && r > -4096 {
        exit_now(2);
    }
    r as *mut u8
}

// ---------------------------------------------------------------------------------- node state
pub static mut NODE: bool = false;
pub static mut SIM_PID: u32 = 1;
static mut STEP: u64 = 0;
static mut NEXT: u64 = u64::MAX;
static mut CRASH_AT: u64 = u64::MAX;
static mut BUDGET_AT: u64 = u64::MAX;
static mut ALLOCS: u64 = 0;
static mut ALLOC_FAIL_AT: u64 = u64::MAX;
/// set while harness code runs inside a node: nothing is counted and nothing can be preempted
static mut QUIET: bool = true;
pub fn in_call() -> bool {
    unsafe { NODE && !QUIET }
}
static mut SEEN: [u8; 1 << 16] = [0; 1 << 16];
static mut GUARDS: u32 = 0;
pub static mut COVER: u64 = 0;

pub fn guards() -> u32 {
    unsafe { GUARDS }
}
pub fn steps() -> u64 {
    unsafe { STEP }
}
pub fn allocs() -> u64 {
    unsafe { ALLOCS }
}
pub fn fault(i: usize) {
    sh().fault[i].fetch_add(1, Relaxed);
}

pub struct Limits {
    pub crash_in: u64,
    pub budget: u64,
    pub alloc_fail_in: u64,
}

pub fn begin(l: &Limits) {
    unsafe {
        CRASH_AT = if l.crash_in == 0 { u64::MAX } else { STEP + l.crash_in };
        BUDGET_AT = if l.budget == 0 { u64::MAX } else { STEP + l.budget };
        ALLOC_FAIL_AT = if l.alloc_fail_in == 0 { u64::MAX } else { ALLOCS + l.alloc_fail_in };
        QUIET = false;
        S.yields = 0;
        renext();
    }
}
pub fn end() {
    unsafe {
        QUIET = true;
        CRASH_AT = u64::MAX;
        BUDGET_AT = u64::MAX;
        ALLOC_FAIL_AT = u64::MAX;
        NEXT = u64::MAX;
    }
}

unsafe fn renext() {
    NEXT = CRASH_AT.min(BUDGET_AT);
    if S.on && S.next_switch < NEXT {
        NEXT = S.next_switch;
    }
}

#[inline(always)]
unsafe fn tick() {
    STEP += 1;
    if STEP >= NEXT {
        slow();
    }
}

#[cold]
#[inline(never)]
unsafe fn slow() {
    if QUIET {
        return;
    }
    if STEP >= CRASH_AT {
        fault(F_CRASH);
        exit_now(X_CRASH);
    }
    if STEP >= BUDGET_AT {
        exit_now(X_HANG);
    }
    if S.on && STEP >= S.next_switch {
        S.preempt();
    }
    renext();
}

pub const F_CRASH: usize = 0;
pub const F_OOM: usize = 1;
pub const F_EINTR: usize = 2;
pub const F_SHORT: usize = 3;
pub const F_ENTFAIL: usize = 4;
pub const F_NOGETRANDOM: usize = 5;
pub const F_OPENFAIL: usize = 6;
pub const F_PREEMPT: usize = 7;
pub const F_SPURIOUS: usize = 8;
pub const F_CLOCK: usize = 9;
pub const F_FORK: usize = 10;
pub const F_RESTART: usize = 11;
pub const F_TORN: usize = 12;
pub const F_LOST: usize = 13;
pub const F_BITROT: usize = 14;
pub const F_DROP: usize = 15;
pub const F_DUP: usize = 16;
pub const F_DELAY: usize = 17;
pub const F_REORDER: usize = 18;
pub const F_CORRUPT: usize = 19;
pub const F_BACKEND: usize = 20;
pub const F_BACKPANIC: usize = 21;
pub const F_SINKFULL: usize = 22;
pub const F_SINKSHORT: usize = 23;
pub const F_SINKINT: usize = 24;
pub const F_SINKPANIC: usize = 25;
pub const F_CBPANIC: usize = 26;
pub const F_UNWIND: usize = 27;
pub const F_THREADEXIT: usize = 28;
pub const F_STALL: usize = 29;
pub const F_STALE: usize = 30;
pub const F_FLIPENT: usize = 31;
pub const F_REFUSED: usize = 32;
pub const F_PARTITION: usize = 33;
pub const F_MACHINE: usize = 34;
/// no fault, but worth a count: the kernel would not filter system calls
pub const F_UNWATCHED: usize = 35;
pub const FAULT_NAMES: [&str; 36] = [
    "process crash at an instrumented step", "allocation failure (abort)", "entropy EINTR", "entropy short read", "entropy source error",
    "getrandom unavailable (falls back to device)", "entropy device cannot be opened", "preemption", "spurious futex wake-up", "clock jump",
    "process fork", "process restart", "torn sector write", "lost unsynced write", "stored bytes damaged", "message dropped",
    "message duplicated", "message delayed", "message reordered", "message damaged", "key backend error", "key backend panic",
    "sink full or failing", "sink short write", "sink interrupted", "sink panic", "callback panic", "owner unwound by a panic",
    "thread exit with live secrets", "thread stalled", "stale replica", "operating-system entropy bit flipped", "malformed argument refused",
    "link partitioned", "another machine (environment, files, processors, user, addresses, memory contents)",
    "(system calls could not be watched)",
];

// ---------------------------------------------------------------------------------- sancov callbacks
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(a: *mut u32, b: *mut u32) {
    let mut p = a;
    while p < b {
        if *p == 0 {
            GUARDS += 1;
            *p = GUARDS & 0xffff;
        }
        p = p.add(1);
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    let i = *g as usize & 0xffff;
    if SEEN[i] == 0 {
        new_edge(i);
    }
    tick();
}
#[cold]
#[inline(never)]
unsafe fn new_edge(i: usize) {
    SEEN[i] = 1;
    if NODE && !QUIET {
        (*SHARED).edge[i].store(1, Relaxed);
        COVER = (COVER.rotate_left(5) ^ i as u64).wrapping_mul(0x9E3779B97F4A7C15);
        if S.on && S.edge_p > 0 && (S.rng() & 0xff) < S.edge_p as u64 {
            S.next_switch = STEP + 1;
            renext();
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_indir(_: usize) {}
/// the program's own writable static memory: what the code under test touches there is shared by its threads
/// and outlives the call
static mut SEG: (usize, usize) = (0, 0);
/// (counting?, stores to static or thread-local memory, loads from it)
pub static mut TOUCH: (bool, u64, u64) = (false, 0, 0);
pub fn find_statics() {
    extern "C" {
        static __data_start: u8;
        static _end: u8;
    }
    unsafe {
        let (a, b) = (&__data_start as *const u8 as usize, &_end as *const u8 as usize);
        if a < b {
            SEG = (a, b - a);
        }
    }
}
unsafe fn own_static(a: usize) -> bool {
    if a.wrapping_sub(SEG.0) < SEG.1 {
        return true;
    }
    // thread-local memory of the program lies just below the thread pointer
    let fs: usize;
    std::arch::asm!("mov {}, fs:0", out(reg) fs, options(nostack, readonly));
    a < fs && fs - a < 4096
}
#[cold]
#[inline(never)]
unsafe fn shared_access() {
    if S.on && !QUIET && S.touch_p > 0 && (S.rng() & 0xff) < S.touch_p as u64 {
        if S.mode == 1 {
            let c = S.cur;
            S.th[c].prio = S.rng() % 100;
        }
        S.next_switch = STEP + 1;
        renext();
    }
}
/// which thread allocated each 16 bytes of the heap, plus one
static mut OWNER: usize = 0;
/// Heap memory that another thread made. Reads of it are common (word lists), so that few of them count.
unsafe fn foreign(a: usize, store: bool) -> bool {
    let at = a.wrapping_sub(ARENAS[WHICH].base);
    if OWNER == 0 || QUIET || at >= ARENA_SIZE {
        return false;
    }
    let o = *((OWNER + at / 16) as *const u8);
    o != S.cur as u8 + 1 && (store || S.rng() & 3 == 0)
}
/// Notes the maker of a block while threads run.
unsafe fn made_by(p: usize, n: usize) {
    if OWNER == 0 {
        let r = raw(libc::SYS_mmap, 0, (ARENA_SIZE / 16) as i64, 3, (libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE) as i64, -1, 0);
        if r < 0 && r > -4096 {
            return;
        }
        OWNER = r as usize;
    }
    let at = p.wrapping_sub(ARENAS[WHICH].base);
    if at < ARENA_SIZE {
        std::ptr::write_bytes((OWNER + at / 16) as *mut u8, S.cur as u8 + 1, n.div_ceil(16));
    }
}
macro_rules! mem {
    ($k:tt $($n:ident)*) => { $(#[no_mangle] pub unsafe extern "C" fn $n(p: *const u8) {
        tick();
        if TOUCH.0 && own_static(p as usize) {
            TOUCH.$k += 1;
        }
        if (p as usize).wrapping_sub(SEG.0) < SEG.1 || (S.on && S.touch_p > 0 && foreign(p as usize, $k == 1)) {
            shared_access();
        }
    })* };
}
mem!(2 __sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16);
mem!(1 __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16);

/// constants the code compares with, gathered in a warm-up run
pub const DICT: usize = 4096;
pub struct Dict {
    pub on: bool,
    pub n: usize,
    pub v: [(u8, u64); DICT],
}
pub static mut DICTIONARY: Dict = Dict { on: false, n: 0, v: [(0, 0); DICT] };
#[cold]
#[inline(never)]
unsafe fn learn(w: u8, c: u64) {
    let d = &mut DICTIONARY;
    if d.n < DICT && !d.v[..d.n].contains(&(w, c)) {
        d.v[d.n] = (w, c);
        d.n += 1;
    }
}
macro_rules! cmp {
    ($($n:ident $t:ty, $w:expr;)*) => { $(#[no_mangle] pub unsafe extern "C" fn $n(a: $t, _b: $t) { if DICTIONARY.on { learn($w, a as u64) } })* };
}
cmp!(__sanitizer_cov_trace_const_cmp1 u8, 1; __sanitizer_cov_trace_const_cmp2 u16, 2; __sanitizer_cov_trace_const_cmp4 u32, 4; __sanitizer_cov_trace_const_cmp8 u64, 8;);
macro_rules! nop2 {
    ($($n:ident $t:ty;)*) => { $(#[no_mangle] pub unsafe extern "C" fn $n(_a: $t, _b: $t) {})* };
}
nop2!(__sanitizer_cov_trace_cmp1 u8; __sanitizer_cov_trace_cmp2 u16; __sanitizer_cov_trace_cmp4 u32; __sanitizer_cov_trace_cmp8 u64;);
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_switch(_v: u64, cases: *const u64) {
    if DICTIONARY.on {
        let n = *cases as usize;
        let w = (*cases.add(1) / 8) as u8;
        for i in 0..n.min(64) {
            learn(w, *cases.add(2 + i));
        }
    }
}

// ---------------------------------------------------------------------------------- allocator
pub struct SimAlloc;
const ARENA_SIZE: usize = 8 << 30;
const ARENA_AT: [usize; 2] = [0x2000_0000_0000, 0x1000_0000_0000];
struct Arena {
    base: usize,
    top: usize,
    free: [usize; 96],
}
static mut ARENAS: [Arena; 2] = [Arena { base: 0, top: 0, free: [0; 96] }, Arena { base: 0, top: 0, free: [0; 96] }];
static mut WHICH: usize = 0;
static LOCK: AtomicBool = AtomicBool::new(false);

fn class(n: usize) -> (usize, usize) {
    let n = n.max(16);
    if n <= 1024 {
        let c = (n + 15) / 16;
        (c, c * 16)
    } else {
        let p = n.next_power_of_two();
        (54 + p.trailing_zeros() as usize, p)
    }
}
unsafe fn arena(i: usize) -> &'static mut Arena {
    let a = &mut ARENAS[i];
    if a.base == 0 {
        let r = raw(libc::SYS_mmap, ARENA_AT[i] as i64, ARENA_SIZE as i64, 3,
            (libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE) as i64, -1, 0);
        if r != ARENA_AT[i] as i64 {
            exit_now(2);
        }
        a.base = r as usize;
        a.top = r as usize;
    }
    a
}
/// what new memory holds
static mut FILL: u8 = 0;
/// Moves what is allocated from now on, and fills it.
pub unsafe fn relocate(by: usize, fill: u8) {
    arena(WHICH).top += by * 16;
    // free blocks would be given out again at their old places
    ARENAS[WHICH].free = [0; 96];
    FILL = fill | 1;
}
unsafe fn a_alloc(l: Layout) -> *mut u8 {
    while LOCK.compare_exchange_weak(false, true, Acquire, Relaxed).is_err() {
        std::hint::spin_loop();
    }
    let (c, sz) = class(l.size().max(l.align()));
    let a = arena(WHICH);
    let p = if a.free[c] != 0 {
        let p = a.free[c];
        a.free[c] = *(p as *const usize);
        p
    } else {
        let al = l.align().max(16);
        let p = (a.top + al - 1) & !(al - 1);
        a.top = p + sz;
        if a.top > a.base + ARENA_SIZE {
            LOCK.store(false, Release);
            return std::ptr::null_mut();
        }
        p
    };
    LIVE[WHICH] += sz;
    PEAK = PEAK.max(LIVE[1]);
    MADE = MADE.wrapping_add(sz as u64);
    LOCK.store(false, Release);
    p as *mut u8
}
/// the most bytes a node ever had in use, how many it ever allocated, and how many it moved about
pub static mut PEAK: usize = 0;
pub static mut MADE: u64 = 0;
static mut MOVED: u64 = 0;
/// What `remove`, `insert` and `drain` come down to.
#[no_mangle]
pub unsafe extern "C" fn memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    MOVED = MOVED.wrapping_add(n as u64);
    if n >= 2048 && NODE && !QUIET {
        // a loop around it must not outlast the budget
        STEP += n as u64 / 16;
    }
    if (d as usize).wrapping_sub(s as usize) >= n {
        std::arch::asm!("rep movsb", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _, options(nostack, preserves_flags));
    } else {
        std::arch::asm!("std", "rep movsb", "cld", inout("rcx") n => _, inout("rdi") d.wrapping_add(n).wrapping_sub(1) => _, inout("rsi") s.wrapping_add(n).wrapping_sub(1) => _, options(nostack));
    }
    d
}
/// bytes in use, by arena
pub static mut LIVE: [usize; 2] = [0; 2];
/// the memory a node has used for its heap
pub unsafe fn heap() -> (usize, usize) {
    (ARENAS[WHICH].base, ARENAS[WHICH].top)
}
/// the simulator's own large static areas, by address
pub unsafe fn own() -> Vec<(usize, usize)> {
    use std::mem::size_of_val as sz;
    macro_rules! r {
        ($($x:ident),*) => { vec![$({ let p = &raw const $x; (p as usize, p as usize + sz(&*p)) }),*] };
    }
    let mut v = r!(SEEN, DICTIONARY, WATCHES, SCAN, KNOWN, RECS, PRINTED, DECS, LIST);
    v.sort();
    v
}
/// the program's static memory, and this thread's thread-local memory
pub unsafe fn statics() -> [(usize, usize); 2] {
    let fs: usize;
    std::arch::asm!("mov {}, fs:0", out(reg) fs, options(nostack, readonly));
    // the program's own part lies just below the thread pointer
    unsafe extern "C" fn first(i: *mut libc::dl_phdr_info, _: usize, n: *mut libc::c_void) -> i32 {
        let i = &*i;
        for k in 0..i.dlpi_phnum as usize {
            let h = &*i.dlpi_phdr.add(k);
            if h.p_type == libc::PT_TLS {
                *(n as *mut usize) = (h.p_memsz as usize).next_multiple_of((h.p_align as usize).max(1));
            }
        }
        1
    }
    let mut n = 0usize;
    libc::dl_iterate_phdr(Some(first), &mut n as *mut usize as *mut libc::c_void);
    [(SEG.0, SEG.0 + SEG.1), (fs - n, fs)]
}
unsafe fn a_free(p: *mut u8, l: Layout) {
    while LOCK.compare_exchange_weak(false, true, Acquire, Relaxed).is_err() {
        std::hint::spin_loop();
    }
    let (c, sz) = class(l.size().max(l.align()));
    let i = if (p as usize) < ARENA_AT[0] { 1 } else { 0 };
    LIVE[i] -= sz;
    let a = arena(i);
    *(p as *mut usize) = a.free[c];
    a.free[c] = p as usize;
    LOCK.store(false, Release);
}
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if NODE && !QUIET {
            ALLOCS += 1;
            if ALLOCS >= ALLOC_FAIL_AT {
                ALLOC_FAIL_AT = u64::MAX;
                fault(F_OOM);
                return std::ptr::null_mut();
            }
            tick();
        }
        let p = a_alloc(l);
        if FILL != 0 && !p.is_null() {
            std::ptr::write_bytes(p, FILL, l.size());
        }
        if NODE && S.on && S.touch_p > 0 && !p.is_null() {
            made_by(p as usize, l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = self.alloc(l);
        if !p.is_null() {
            std::ptr::write_bytes(p, 0, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if NODE {
            if !QUIET {
                tick();
            }
            released(p, l.size());
            std::ptr::write_bytes(p, 0xDD, l.size());
        }
        a_free(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if class(l.size().max(l.align())).1 == class(n.max(l.align())).1 && n >= l.size() {
            return p;
        }
        let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
}

// watched memory
pub const NWATCH: usize = 512;
#[derive(Clone, Copy)]
pub struct Watch {
    pub ptr: usize,
    pub len: usize,
    pub label: u8,
    /// 0 = live, 1 = released clean, 2 = released with data, 3 = no longer watched, 4 = kept with data after its owner
    pub state: u8,
    pub left: u32,
    pub thread: u8,
    pub data: [u8; 256],
}
pub static mut WATCHES: [Watch; NWATCH] = [Watch { ptr: 0, len: 0, label: 0, state: 3, left: 0, thread: 0, data: [0; 256] }; NWATCH];
pub static mut NW: usize = 0;
static mut LIVE_W: usize = 0;
pub static mut SCAN: (bool, u8, usize, [u8; 512]) = (false, 0, 0, [0; 512]);
/// length of the pieces looked for; 0 = only the whole
static mut PIECE: usize = 0;
pub static mut SCAN_HITS: u32 = 0;
pub static mut SCAN_FREED: u32 = 0;
pub static mut WATCH_OVERFLOW: bool = false;

pub fn hook(kind: u8, ptr: *const u8, len: usize, label: u8) -> u32 {
    unsafe {
        match kind {
            0 => {
                if NW >= NWATCH || len > 256 || len == 0 {
                    WATCH_OVERFLOW = true;
                    return 0;
                }
                let w = &mut WATCHES[NW];
                *w = Watch { ptr: ptr as usize, len, label, state: 0, left: 0, thread: me(), data: [0; 256] };
                std::ptr::copy_nonoverlapping(ptr, w.data.as_mut_ptr(), len);
                NW += 1;
                LIVE_W += 1;
            }
            1 => {
                for w in WATCHES[..NW].iter_mut() {
                    if w.state == 0 && w.ptr == ptr as usize {
                        w.state = 3;
                        LIVE_W -= 1;
                    }
                }
            }
            2 => {
                if len <= 512 && telling(ptr, len) {
                    SCAN.0 = true;
                    SCAN.1 = me();
                    SCAN.2 = len;
                    PIECE = if label == b'T' { 24 } else { 0 };
                    std::ptr::copy_nonoverlapping(ptr, SCAN.3.as_mut_ptr(), len);
                }
            }
            4 => {
                let t = me() as usize;
                if t < NREC {
                    RECS[t].on = true;
                    RECS[t].used = 0;
                    RECS[t].n = 0;
                    RECORDING = RECS.iter().filter(|r| r.on).count();
                }
            }
            5 => {
                let t = me() as usize;
                if t < NREC {
                    RECS[t].on = false;
                    RECORDING = RECS.iter().filter(|r| r.on).count();
                }
            }
            6 => {
                let t = me() as usize;
                let pat = std::slice::from_raw_parts(ptr, len);
                if t < NREC && telling(ptr, len) {
                    // a key record lies in its owner itself, so that a move leaves bytes of it behind on
                    // the stack, from where other moves may pick them up: only its own making counts
                    if label != b'k' {
                        know(pat);
                    }
                    let r = &RECS[t];
                    let mut at = 0;
                    for i in 0..r.n {
                        let b = &r.data[at..at + r.len[i] as usize];
                        at += b.len();
                        if holds_known(b) || (label == b'k' && b.len() >= len && b.windows(len).any(|w| w == pat)) {
                            SCAN_HITS += 1;
                            REC_HIT = label;
                        }
                    }
                    SCAN_FREED += r.n as u32;
                }
            }
            // what the process holds: heap bytes, open files, threads
            20 => return LIVE[1] as u32,
            21 => return (0..1024).filter(|f| raw(libc::SYS_fcntl, *f, libc::F_GETFD as i64, 0, 0, 0, 0) >= 0).count() as u32,
            22 => return S.extra as u32,
            // what a call costs: steps, the most memory beyond what was in use before, bytes allocated and moved
            23 => return STEP as u32,
            24 => PEAK = LIVE[1],
            25 => return PEAK as u32,
            26 => return (MADE.wrapping_add(MOVED) / 16) as u32,
            _ => SCAN.0 = false,
        }
    }
    0
}
/// All owners are gone: watched memory that was never released must not hold the whole secret either.
pub unsafe fn kept() {
    for w in WATCHES[..NW].iter_mut() {
        if w.state == 0 && std::slice::from_raw_parts(w.ptr as *const u8, w.len) == &w.data[..w.len] && telling(w.data.as_ptr(), w.len) {
            w.state = 4;
            w.left = w.len as u32;
        }
    }
}
/// what is short or uniform would be found by chance
unsafe fn telling(p: *const u8, n: usize) -> bool {
    let mut kinds = [false; 256];
    std::slice::from_raw_parts(p, n).iter().for_each(|b| kinds[*b as usize] = true);
    n >= 16 && kinds.iter().filter(|k| **k).count() >= 8
}
/// whole secrets the library was given or made so far
const NKNOWN: usize = 48;
static mut KNOWN: [(usize, [u8; 256]); NKNOWN] = [(0, [0; 256]); NKNOWN];
static mut NKNOW: usize = 0;
unsafe fn know(p: &[u8]) {
    let within = |a: &[u8], b: &[u8]| !a.is_empty() && b.windows(a.len()).any(|w| w == a);
    // a secret that is part of another one would be found in an unfinished copy of the other
    if p.len() > 256 || NKNOW >= NKNOWN || KNOWN[..NKNOW].iter().any(|k| within(p, &k.1[..k.0])) {
        return;
    }
    for k in KNOWN[..NKNOW].iter_mut() {
        if within(&k.1[..k.0], p) {
            k.0 = 0;
        }
    }
    KNOWN[NKNOW].0 = p.len();
    KNOWN[NKNOW].1[..p.len()].copy_from_slice(p);
    NKNOW += 1;
}
unsafe fn holds_known(b: &[u8]) -> bool {
    KNOWN[..NKNOW].iter().any(|(n, k)| {
        let first = k[0];
        *n > 0 && b.len() >= *n && (0..=b.len() - n).any(|i| b[i] == first && b[i..i + n] == k[..*n])
    })
}
/// threads whose own variables are being destroyed
static mut LEAVING: [bool; NREC] = [false; NREC];
pub fn leaving(t: usize, on: bool) {
    unsafe {
        if t < NREC {
            LEAVING[t] = on && NKNOW > 0;
        }
    }
}
/// copies of the blocks a thread released while an object was made
const NREC: usize = 9;
struct Rec {
    on: bool,
    used: usize,
    n: usize,
    len: [u16; 512],
    data: [u8; 65536],
}
static mut RECS: [Rec; NREC] = [const { Rec { on: false, used: 0, n: 0, len: [0; 512], data: [0; 65536] } }; NREC];
static mut RECORDING: usize = 0;
pub static mut REC_HIT: u8 = 0;
unsafe fn record(p: *mut u8, n: usize) {
    let t = me() as usize;
    if t >= NREC || !RECS[t].on || n < 16 || n > 8192 {
        return;
    }
    let r = &mut RECS[t];
    if r.n < 512 && r.used + n <= r.data.len() {
        std::ptr::copy_nonoverlapping(p, r.data.as_mut_ptr().add(r.used), n);
        r.len[r.n] = n as u16;
        r.n += 1;
        r.used += n;
    }
}

#[inline(never)]
unsafe fn scan_block(p: *mut u8, n: usize) {
    let m = SCAN.2;
    SCAN_FREED += 1;
    if m == 0 || (n < m && PIECE == 0) {
        return;
    }
    let b = std::slice::from_raw_parts(p, n);
    let pat = &SCAN.3[..m];
    if PIECE > 0 {
        if n >= PIECE && b.windows(PIECE).any(|w| pat.windows(PIECE).any(|p| p == w)) {
            SCAN_HITS += 1;
        }
        return;
    }
    for i in 0..=n - m {
        if b[i] == pat[0] && &b[i..i + m] == pat {
            SCAN_HITS += 1;
            return;
        }
    }
}

unsafe fn released(p: *mut u8, n: usize) {
    if SCAN.0 && SCAN.1 == me() {
        scan_block(p, n);
    }
    if RECORDING > 0 {
        record(p, n);
    }
    if NKNOW > 0 {
        let t = me() as usize;
        if t < NREC && LEAVING[t] {
            SCAN_FREED += 1;
            if holds_known(std::slice::from_raw_parts(p, n)) {
                SCAN_HITS += 1;
            }
        }
    }
    if LIVE_W == 0 {
        return;
    }
    let a = p as usize;
    for w in WATCHES[..NW].iter_mut() {
        if w.state == 0 && w.ptr < a + n && a < w.ptr + w.len {
            let cur = std::slice::from_raw_parts(w.ptr as *const u8, w.len);
            let mut left = 0;
            for i in 0..w.len {
                // bytes a wipe could have written are not evidence
                if cur[i] == w.data[i] && w.data[i] != 0 && w.data[i] != 0xff {
                    left += 1;
                }
            }
            // a uniform fill is a wipe, whatever the value
            if w.len > 3 && cur.iter().all(|b| *b == cur[0]) && !w.data[..w.len].iter().all(|b| *b == w.data[0]) {
                left = 0;
            }
            w.left = left;
            w.thread = me();
            w.state = if left == 0 { 1 } else { 2 };
            LIVE_W -= 1;
        }
    }
}

// ---------------------------------------------------------------------------------- entropy, clock
pub struct Ent {
    /// 0 = getrandom works, 1 = getrandom missing (device fallback), 2 = both fail
    pub mode: u8,
    pub script: [u8; 64],
    pub slen: usize,
    pub spos: usize,
    pub default: u8,
    /// private position in the stream (flip experiments), u64::MAX = the shared one
    pub own_pos: u64,
    pub flip: [u64; 2],
    pub drawn: u64,
    pub calls: u64,
    pub failed: u64,
    pub served: u64,
}
pub static mut ENT: Ent = Ent { mode: 0, script: [0; 64], slen: 0, spos: 0, default: 255, own_pos: u64::MAX, flip: [u64::MAX; 2], drawn: 0, calls: 0, failed: 0, served: 0 };

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn stream(salt: u64, pos: u64) -> u8 {
    (mix(mix(salt ^ 0xA5A5_0F0F).wrapping_add((pos / 8).wrapping_mul(0xD1342543DE82EF95))) >> (8 * (pos % 8))) as u8
}

/// bit i set: thread i is refused entropy
pub static mut REFUSED: u32 = 0;

/// Serves `n` bytes of simulated entropy; negative errno on failure.
unsafe fn entropy(buf: *mut u8, n: usize, dev: bool) -> i64 {
    let e = &mut ENT;
    e.calls += 1;
    if REFUSED != 0 && me() < 32 && REFUSED >> me() & 1 == 1 {
        e.failed += 1;
        fault(F_ENTFAIL);
        return -(libc::EIO as i64);
    }
    if e.mode == 2 {
        e.failed += 1;
        fault(F_ENTFAIL);
        return -(libc::EIO as i64);
    }
    let act = if e.spos < e.slen {
        e.spos += 1;
        e.script[e.spos - 1]
    } else {
        e.default
    };
    let k = match act {
        255 => n,
        254 => {
            fault(F_EINTR);
            return -(libc::EINTR as i64);
        }
        0 => {
            e.failed += 1;
            fault(F_ENTFAIL);
            return -(libc::EIO as i64);
        }
        253 => {
            e.failed += 1;
            fault(F_ENTFAIL);
            return -(libc::EAGAIN as i64);
        }
        252 => {
            e.failed += 1;
            fault(F_ENTFAIL);
            return -(if dev { libc::EBADF } else { libc::EPERM } as i64);
        }
        251 if dev => {
            // a device at end of file
            e.failed += 1;
            fault(F_ENTFAIL);
            return 0;
        }
        k => {
            if (k as usize) < n {
                fault(F_SHORT);
            }
            n.min(k as usize)
        }
    };
    let salt = os().salt.load(Relaxed);
    let pos = if e.own_pos != u64::MAX {
        let p = e.own_pos;
        e.own_pos += k as u64;
        p
    } else {
        os().pos.fetch_add(k as u64, Relaxed)
    };
    for i in 0..k {
        let mut b = stream(salt, pos + i as u64);
        for f in e.flip {
            if f / 8 == pos + i as u64 {
                b ^= 1 << (f % 8);
            }
        }
        *buf.add(i) = b;
    }
    e.drawn += k as u64;
    e.served += 1;
    k as i64
}

unsafe fn getrandom_sim(buf: *mut u8, n: usize) -> i64 {
    if ENT.mode != 0 {
        if n > 0 || ENT.mode == 1 {
            fault(F_NOGETRANDOM);
        }
        ENT.calls += 1;
        ENT.failed += 1;
        return -(if ENT.mode == 1 { libc::ENOSYS } else { libc::EPERM } as i64);
    }
    if n == 0 {
        return 0;
    }
    entropy(buf, n, false)
}

static mut URFD: [i32; 256] = [-1; 256];
/// the simulated entropy device
pub unsafe fn is_device(fd: i32) -> bool {
    URFD.contains(&fd)
}

// ---------------------------------------------------------------------------------- interposed C functions
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if NODE {
        match n {
            libc::SYS_getrandom => {
                tick_sys();
                return ret(getrandom_sim(a as *mut u8, b as usize));
            }
            libc::SYS_futex => return ret(futex(a as usize, b as i32, c as u32, d as *const libc::timespec)),
            libc::SYS_getpid => return SIM_PID as i64,
            _ => {}
        }
    }
    ret(raw(n, a, b, c, d, e, f))
}
unsafe fn tick_sys() {
    if !QUIET {
        tick();
        if S.on {
            shared_access();
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, n: usize, fl: u32) -> isize {
    if NODE {
        tick_sys();
        return ret(getrandom_sim(buf, n)) as isize;
    }
    ret(raw(libc::SYS_getrandom, buf as i64, n as i64, fl as i64, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn getentropy(buf: *mut u8, n: usize) -> i32 {
    let r = getrandom(buf, n, 0);
    if r == n as isize {
        0
    } else {
        if r >= 0 {
            seterr(libc::EIO);
        }
        -1
    }
}
unsafe fn open_any(p: *const libc::c_char, fl: i32, m: u32) -> i32 {
    if NODE && !p.is_null() {
        let s = std::ffi::CStr::from_ptr(p).to_bytes();
        if s == b"/dev/urandom" || s == b"/dev/random" {
            tick_sys();
            ENT.calls += 1;
            if ENT.mode == 2 {
                fault(F_OPENFAIL);
                ENT.failed += 1;
                seterr(libc::ENOENT);
                return -1;
            }
            let fd = raw(libc::SYS_open, c"/dev/null".as_ptr() as i64, libc::O_RDONLY as i64, 0, 0, 0, PASS) as i32;
            for u in URFD.iter_mut() {
                if *u < 0 {
                    *u = fd;
                    break;
                }
            }
            return fd;
        }
    }
    ret(raw(libc::SYS_openat, libc::AT_FDCWD as i64, p as i64, fl as i64, m as i64, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const libc::c_char, fl: i32, m: u32) -> i32 {
    open_any(p, fl, m)
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const libc::c_char, fl: i32, m: u32) -> i32 {
    open_any(p, fl, m)
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, buf: *mut u8, n: usize) -> isize {
    if NODE && fd >= 0 && URFD.contains(&fd) {
        tick_sys();
        return ret(entropy(buf, n, true)) as isize;
    }
    ret(raw(libc::SYS_read, fd as i64, buf as i64, n as i64, 0, 0, 0)) as isize
}
/// What the library printed to its standard output and error since the last look.
pub static mut PRINTED: [u8; 4096] = [0; 4096];
pub static mut NPRINTED: usize = 0;
unsafe fn print(b: *const u8, n: usize) {
    for i in 0..n {
        if NPRINTED < PRINTED.len() {
            PRINTED[NPRINTED] = *b.add(i);
            NPRINTED += 1;
        }
    }
}
pub fn printed() -> Vec<u8> {
    unsafe {
        let v = PRINTED[..NPRINTED].to_vec();
        NPRINTED = 0;
        v
    }
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, buf: *const u8, n: usize) -> isize {
    if NODE && (fd == 1 || fd == 2) {
        tick_sys();
        print(buf, n);
        return n as isize;
    }
    ret(raw(libc::SYS_write, fd as i64, buf as i64, n as i64, 0, 0, if in_call() { 0 } else { PASS })) as isize
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, v: *const libc::iovec, k: i32) -> isize {
    if NODE && (fd == 1 || fd == 2) {
        tick_sys();
        let mut t = 0;
        for i in 0..k.max(0) as usize {
            let x = &*v.add(i);
            print(x.iov_base as *const u8, x.iov_len);
            t += x.iov_len;
        }
        return t as isize;
    }
    ret(raw(libc::SYS_writev, fd as i64, v as i64, k as i64, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    for u in URFD.iter_mut() {
        if *u == fd && fd >= 0 {
            *u = -1;
        }
    }
    ret(raw(libc::SYS_close, fd as i64, 0, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn poll(p: *mut libc::pollfd, n: u64, t: i32) -> i32 {
    if NODE && n == 1 && URFD.contains(&(*p).fd) {
        (*p).revents = libc::POLLIN;
        return 1;
    }
    ret(raw(libc::SYS_poll, p as i64, n as i64, t as i64, 0, 0, 0)) as i32
}
unsafe fn sim_now() -> u64 {
    os().now_ns.fetch_add(1000, Relaxed) + 1000
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(c: i32, t: *mut libc::timespec) -> i32 {
    if NODE {
        crate::host::told(c"the clock");
        let n = sim_now();
        (*t).tv_sec = (n / 1_000_000_000) as i64;
        (*t).tv_nsec = (n % 1_000_000_000) as i64;
        return 0;
    }
    ret(raw(libc::SYS_clock_gettime, c as i64, t as i64, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(t: *mut libc::timeval, _z: *mut u8) -> i32 {
    let mut x: libc::timespec = std::mem::zeroed();
    clock_gettime(0, &mut x);
    (*t).tv_sec = x.tv_sec;
    (*t).tv_usec = x.tv_nsec / 1000;
    0
}
#[no_mangle]
pub unsafe extern "C" fn time(p: *mut i64) -> i64 {
    let mut x: libc::timespec = std::mem::zeroed();
    clock_gettime(0, &mut x);
    if !p.is_null() {
        *p = x.tv_sec;
    }
    x.tv_sec
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> i32 {
    if NODE {
        // the library may ask for it: a forked copy of a process needs fresh entropy
        return SIM_PID as i32;
    }
    raw(libc::SYS_getpid, 0, 0, 0, 0, 0, 0) as i32
}
/// The C library's mutexes would block the whole node, so they are replaced by ones that wait in the
/// simulated futex (0 free, 1 locked, 2 locked with waiters, in the first word of the mutex).
#[no_mangle]
pub unsafe extern "C" fn pthread_mutex_lock(m: *mut AtomicU32) -> i32 {
    let w = &*m;
    tick_sys();
    if w.compare_exchange(0, 1, SeqCst, SeqCst).is_ok() {
        return 0;
    }
    while w.swap(2, SeqCst) != 0 {
        syscall(libc::SYS_futex, m as i64, 128, 2, 0, 0, 0);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn pthread_mutex_trylock(m: *mut AtomicU32) -> i32 {
    tick_sys();
    if (*m).compare_exchange(0, 1, SeqCst, SeqCst).is_ok() {
        0
    } else {
        libc::EBUSY
    }
}
#[no_mangle]
pub unsafe extern "C" fn pthread_mutex_unlock(m: *mut AtomicU32) -> i32 {
    if (*m).swap(0, SeqCst) == 2 {
        syscall(libc::SYS_futex, m as i64, 129, 1, 0, 0, 0);
    }
    tick_sys();
    0
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(c: i32, f: i32, t: *const libc::timespec, r: *mut libc::timespec) -> i32 {
    if NODE {
        let ns = ((*t).tv_sec as u64).wrapping_mul(1_000_000_000).wrapping_add((*t).tv_nsec as u64);
        let now = os().now_ns.load(Relaxed);
        let until = if f & libc::TIMER_ABSTIME != 0 { ns } else { now + ns };
        sleep_until(until);
        return 0;
    }
    (-raw(libc::SYS_clock_nanosleep, c as i64, f as i64, t as i64, r as i64, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(t: *const libc::timespec, r: *mut libc::timespec) -> i32 {
    if NODE {
        return clock_nanosleep(0, 0, t, r);
    }
    ret(raw(libc::SYS_nanosleep, t as i64, r as i64, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if NODE {
        tick_sys();
        if S.on && !QUIET {
            S.yields += 1;
            if S.yields > YIELDS {
                exit_now(X_HANG);
            }
            // a stall ends, and priorities stop mattering, when others only wait
            if S.yields % 2048 == 2047 {
                S.unstall();
            }
            let t = S.pick(if S.mode == 1 && S.yields % 4 == 3 { b'Y' } else { b'y' }, true);
            S.switch(t);
        } else if !QUIET {
            S.yields += 1;
            if S.yields > YIELDS {
                exit_now(X_HANG);
            }
        }
        return 0;
    }
    raw(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as i32
}
unsafe fn sleep_until(until: u64) {
    tick_sys();
    if S.on {
        let c = S.cur;
        S.th[c].state = BLOCKED;
        S.th[c].addr = 0;
        S.th[c].deadline = until;
        let t = S.pick_blocked();
        S.switch(t);
    } else if os().now_ns.load(Relaxed) < until {
        os().now_ns.store(until, Relaxed);
    }
}

unsafe fn futex(addr: usize, op: i32, val: u32, to: *const libc::timespec) -> i64 {
    let cmd = op & 0x7f;
    match cmd {
        0 | 9 => {
            // WAIT, WAIT_BITSET
            tick_sys();
            let cur = (*(addr as *const AtomicU32)).load(SeqCst);
            if cur != val {
                return -(libc::EAGAIN as i64);
            }
            let deadline = if to.is_null() {
                u64::MAX
            } else {
                let ns = ((*to).tv_sec as u64).wrapping_mul(1_000_000_000).wrapping_add((*to).tv_nsec as u64);
                if cmd == 0 {
                    os().now_ns.load(Relaxed) + ns
                } else {
                    ns
                }
            };
            if !S.on {
                if deadline == u64::MAX {
                    exit_now(X_DEADLOCK);
                }
                if os().now_ns.load(Relaxed) < deadline {
                    os().now_ns.store(deadline, Relaxed);
                }
                return -(libc::ETIMEDOUT as i64);
            }
            if S.exiting {
                exit_now(X_UNSUPPORTED);
            }
            if S.spurious() {
                fault(F_SPURIOUS);
                return 0;
            }
            let c = S.cur;
            S.th[c].state = BLOCKED;
            S.th[c].addr = addr;
            S.th[c].deadline = deadline;
            S.th[c].timed_out = false;
            let t = S.pick_blocked();
            S.switch(t);
            if S.th[c].timed_out {
                return -(libc::ETIMEDOUT as i64);
            }
            0
        }
        1 | 10 => {
            tick_sys();
            let mut n = 0;
            if S.on {
                let mut order = [0usize; NTH];
                let mut k = 0;
                for i in 0..NTH {
                    if S.th[i].state == BLOCKED && S.th[i].addr == addr {
                        order[k] = i;
                        k += 1;
                    }
                }
                while k > 0 && n < val as i64 {
                    let j = S.choose(b'w', k);
                    S.th[order[j]].state = RUN;
                    S.th[order[j]].deadline = u64::MAX;
                    order[j] = order[k - 1];
                    k -= 1;
                    n += 1;
                }
            }
            n
        }
        _ => {
            // requeue and friends are not used by std
            exit_now(X_UNSUPPORTED)
        }
    }
}

// ---------------------------------------------------------------------------------- scheduler
const NONE: u8 = 0;
const RUN: u8 = 1;
const BLOCKED: u8 = 2;
const DONE: u8 = 3;
/// slots: 0.. the threads of a group, FIRST_EXTRA.. threads the code under test creates, MAIN the node's
/// own thread (only while such threads exist outside a group)
const NTH: usize = 32;
const FIRST_EXTRA: usize = 14;
const MAIN: usize = NTH - 1;
pub const NDEC: usize = 65536;
/// a group of calls that yields more often than this does not finish
const YIELDS: u32 = 60_000;

struct Th {
    state: u8,
    addr: usize,
    deadline: u64,
    timed_out: bool,
    word: AtomicU32,
    prio: u64,
    stalled: bool,
    handle: u64,
    owner: u8,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Dec {
    pub step: u64,
    pub kind: u8,
    pub val: u8,
}
pub struct Sched {
    pub on: bool,
    exiting: bool,
    cur: usize,
    th: [Th; NTH],
    /// live threads created by the code under test itself
    extra: usize,
    group: bool,
    next_switch: u64,
    mainw: AtomicU32,
    seed: u64,
    base: u64,
    /// mean gap between preemptions; 0 = never
    gap: u64,
    edge_p: u32,
    /// probability (of 256) of a preemption at an access to static memory or a system call
    touch_p: u32,
    /// 0 = random, 1 = priorities with change points, 2 = explicit list
    mode: u8,
    changes: [u64; 8],
    nchanges: usize,
    spur_p: u32,
    stall_at: u64,
    list_n: usize,
    list_i: usize,
    pub dec_n: usize,
    yields: u32,
    stalled_at: u64,
    since: u64,
    pub hash: u64,
}
const TH0: Th = Th { state: NONE, addr: 0, deadline: u64::MAX, timed_out: false, word: AtomicU32::new(0), prio: 0, stalled: false, handle: 0, owner: 255 };
static mut S: Sched = Sched {
    on: false, exiting: false, cur: 0, th: [TH0; NTH], extra: 0, group: false, next_switch: u64::MAX, mainw: AtomicU32::new(0), seed: 0, base: 0, gap: 0, edge_p: 0, touch_p: 0,
    mode: 0, changes: [0; 8], nchanges: 0, spur_p: 0, stall_at: 0, list_n: 0, list_i: 0, dec_n: 0, yields: 0, stalled_at: 0, since: 0, hash: 0,
};
static mut DECS: [Dec; NDEC] = [Dec { step: 0, kind: 0, val: 0 }; NDEC];
static mut LIST: [Dec; NDEC] = [Dec { step: 0, kind: 0, val: 0 }; NDEC];

thread_local! { static ME: Cell<u8> = const { Cell::new(255) }; }

/// Registered first in every simulated thread, so destroyed last: until then the thread's other
/// thread-local destructors run under the scheduler like everything else.
struct Leave;
impl Drop for Leave {
    fn drop(&mut self) {
        unsafe {
            leaving(me() as usize, false);
            S.exiting = true;
            S.mainw.store(1, SeqCst);
            futex_wake_raw(&S.mainw);
        }
    }
}
thread_local! { static LEAVE: std::cell::RefCell<Option<Leave>> = const { std::cell::RefCell::new(None) }; }
fn me() -> u8 {
    ME.try_with(|m| m.get()).unwrap_or(255)
}

#[derive(Clone, Default, Debug, PartialEq)]
pub struct SchedCfg {
    pub mode: u8,
    pub seed: u64,
    pub gap: u64,
    pub edge_p: u32,
    pub touch_p: u32,
    pub spur_p: u32,
    /// number of priority change points and the length they are spread over
    pub depth: u32,
    pub span: u64,
    /// step at which the running thread stalls until nobody else can run; 0 = never
    pub stall_at: u64,
    pub list: Vec<Dec>,
}

impl Sched {
    unsafe fn rng(&mut self) -> u64 {
        self.seed = self.seed.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.seed)
    }
    unsafe fn rel(&self) -> u64 {
        STEP - self.base
    }
    unsafe fn record(&mut self, kind: u8, val: u8) {
        let r = self.rel();
        if self.dec_n < NDEC {
            DECS[self.dec_n] = Dec { step: r, kind, val };
            self.dec_n += 1;
        }
        self.hash = mix(self.hash ^ r.wrapping_mul(31) ^ ((kind as u64) << 56) ^ ((val as u64) << 48));
    }
    /// explicit decision for (this step, kind), if listed
    unsafe fn listed(&mut self, kind: u8) -> Option<u8> {
        let r = self.rel();
        while self.list_i < self.list_n && LIST[self.list_i].step < r {
            self.list_i += 1;
        }
        let mut j = self.list_i;
        while j < self.list_n && LIST[j].step == r {
            if LIST[j].kind == kind {
                let v = LIST[j].val;
                self.list_i = j + 1;
                return Some(v);
            }
            j += 1;
        }
        None
    }
    unsafe fn choose(&mut self, kind: u8, k: usize) -> usize {
        if k <= 1 {
            return 0;
        }
        let v = if self.mode == 2 { self.listed(kind).unwrap_or(0) as usize % k } else { (self.rng() >> 20) as usize % k };
        self.record(kind, v as u8);
        v
    }
    unsafe fn spurious(&mut self) -> bool {
        let v = if self.mode == 2 {
            self.listed(b's').is_some()
        } else {
            self.spur_p > 0 && (self.rng() >> 20 & 0xff) < self.spur_p as u64
        };
        if v {
            self.record(b's', 1);
        }
        v
    }
    unsafe fn plan_next(&mut self) {
        let r = self.rel();
        self.next_switch = match self.mode {
            2 => {
                let mut j = self.list_i;
                let mut n = u64::MAX;
                while j < self.list_n {
                    if LIST[j].kind == b'p' && LIST[j].step > r {
                        n = self.base + LIST[j].step;
                        break;
                    }
                    j += 1;
                }
                n.min(STEP + 4_000_000)
            }
            1 => {
                let mut n = u64::MAX;
                for i in 0..self.nchanges {
                    if self.changes[i] > r && self.base + self.changes[i] < n {
                        n = self.base + self.changes[i];
                    }
                }
                if self.stall_at > r && self.base + self.stall_at < n {
                    n = self.base + self.stall_at;
                }
                n.min(STEP + 4_000_000)
            }
            _ => {
                let g = if self.gap == 0 {
                    4_000_000
                } else {
                    // roughly geometric: many short slices, some long
                    let x = self.rng();
                    let k = (x >> 60) & 3;
                    1 + (x >> 8) % (self.gap << k)
                };
                let mut n = STEP + g.min(4_000_000);
                if self.stall_at > r && self.base + self.stall_at < n {
                    n = self.base + self.stall_at;
                }
                n
            }
        };
    }
    unsafe fn runnable(&self, out: &mut [usize; NTH], but: usize) -> usize {
        let mut k = 0;
        for i in 0..NTH {
            if self.th[i].state == RUN && i != but && !self.th[i].stalled {
                out[k] = i;
                k += 1;
            }
        }
        if k == 0 {
            for i in 0..NTH {
                if self.th[i].state == RUN && i != but {
                    out[k] = i;
                    k += 1;
                }
            }
        }
        k
    }
    /// Picks another runnable thread (or the current one if there is none).
    unsafe fn pick(&mut self, kind: u8, but_cur: bool) -> usize {
        let mut o = [0; NTH];
        let k = self.runnable(&mut o, if but_cur { self.cur } else { 99 });
        if k == 0 {
            return self.cur;
        }
        let t = match self.mode {
            2 => match self.listed(kind) {
                Some(v) if o[..k].contains(&(v as usize)) => v as usize,
                _ => {
                    // default: the next one in turn
                    let mut t = o[0];
                    for i in 0..k {
                        if o[i] > self.cur {
                            t = o[i];
                            break;
                        }
                    }
                    t
                }
            },
            1 if kind != b'Y' => {
                let mut t = o[0];
                for i in 1..k {
                    if self.th[o[i]].prio > self.th[t].prio {
                        t = o[i];
                    }
                }
                t
            }
            _ => o[(self.rng() >> 16) as usize % k],
        };
        self.record(kind, t as u8);
        t
    }
    /// The current thread cannot run: choose who does, advancing simulated time if need be.
    unsafe fn pick_blocked(&mut self) -> usize {
        let mut o = [0; NTH];
        if self.runnable(&mut o, 99) > 0 {
            return self.pick(b'b', false);
        }
        // nobody is runnable: the earliest sleeper wakes up
        let mut best = usize::MAX;
        for i in 0..NTH {
            if self.th[i].state == BLOCKED && self.th[i].deadline != u64::MAX && (best == usize::MAX || self.th[i].deadline < self.th[best].deadline) {
                best = i;
            }
        }
        if best == usize::MAX {
            exit_now(X_DEADLOCK);
        }
        if os().now_ns.load(Relaxed) < self.th[best].deadline {
            os().now_ns.store(self.th[best].deadline, Relaxed);
        }
        self.th[best].state = RUN;
        self.th[best].timed_out = true;
        self.th[best].deadline = u64::MAX;
        best
    }
    /// The node's own thread is scheduled like the threads its calls have created.
    unsafe fn alone(&mut self) {
        self.th[MAIN] = TH0;
        self.th[MAIN].state = RUN;
        self.cur = MAIN;
        self.mode = 0;
        self.seed = mix(STEP ^ 0x7412EAD);
        self.gap = 3000;
        self.edge_p = 0;
        self.spur_p = 0;
        self.touch_p = 40;
        self.stall_at = 0;
        self.list_n = 0;
        self.list_i = 0;
        self.nchanges = 0;
        self.base = STEP;
        self.stalled_at = STEP;
        self.since = STEP;
        self.exiting = false;
        self.on = true;
        self.plan_next();
        renext();
    }
    unsafe fn unstall(&mut self) {
        for i in 0..NTH {
            self.th[i].stalled = false;
        }
    }
    unsafe fn preempt(&mut self) {
        if self.exiting {
            self.next_switch = u64::MAX;
            return;
        }
        if STEP - self.stalled_at > 6_000_000 {
            self.unstall();
        }
        let r = self.rel();
        if self.stall_at != 0 && self.mode != 2 && r >= self.stall_at {
            self.stall_at = 0;
            let c = self.cur;
            self.th[c].stalled = true;
            self.stalled_at = STEP;
            fault(F_STALL);
        }
        if self.mode == 1 {
            for i in 0..self.nchanges {
                if self.changes[i] <= r && self.changes[i] != 0 {
                    self.changes[i] = 0;
                    let c = self.cur;
                    self.th[c].prio = (8 - i) as u64;
                }
            }
            // fairness: a thread that runs very long without blocking loses its priority
            if STEP - self.since > 3_000_000 {
                let c = self.cur;
                self.th[c].prio = 0;
            }
        }
        let t = self.pick(b'p', self.mode != 1);
        if t != self.cur {
            fault(F_PREEMPT);
        }
        self.plan_next();
        self.switch(t);
    }
    unsafe fn switch(&mut self, t: usize) {
        let c = self.cur;
        if t == c {
            return;
        }
        (*SHARED).switches.fetch_add(1, Relaxed);
        self.cur = t;
        self.since = STEP;
        self.th[t].word.store(1, SeqCst);
        futex_wake_raw(&self.th[t].word);
        let w = &self.th[c].word;
        while w.load(SeqCst) == 0 {
            futex_wait_raw(w, 0);
        }
        w.store(0, SeqCst);
    }
}

pub fn thread_index() -> usize {
    me() as usize
}

pub fn decisions() -> Vec<Dec> {
    unsafe { DECS[..S.dec_n].to_vec() }
}
pub fn sched_hash() -> u64 {
    unsafe { S.hash }
}

/// Runs `n` threads of `body` under the scheduler. Returns when all have ended.
pub fn run_threads<F: Fn(usize) + Send + Sync + Clone + 'static>(n: usize, cfg: &SchedCfg, lim: &Limits, body: F) {
    unsafe {
        if n > FIRST_EXTRA {
            exit_now(X_UNSUPPORTED);
        }
        S.group = true;
        S.th[MAIN].state = NONE;
        S.mode = cfg.mode;
        S.seed = cfg.seed;
        S.gap = cfg.gap;
        S.edge_p = if cfg.mode == 2 { 0 } else { cfg.edge_p };
        S.touch_p = if cfg.mode == 2 { 0 } else { cfg.touch_p };
        S.spur_p = cfg.spur_p;
        S.stall_at = cfg.stall_at;
        S.list_n = cfg.list.len().min(NDEC);
        LIST[..S.list_n].copy_from_slice(&cfg.list[..S.list_n]);
        S.list_i = 0;
        S.dec_n = 0;
        S.hash = 0;
        S.exiting = false;
        S.base = STEP;
        S.stalled_at = STEP;
        S.nchanges = if cfg.mode == 1 { cfg.depth.min(7) as usize } else { 0 };
        for i in 0..n {
            S.th[i] = TH0;
            S.th[i].state = RUN;
            S.th[i].prio = 100 + S.rng() % 1000;
        }
        for i in 0..S.nchanges {
            S.changes[i] = 1 + S.rng() % cfg.span.max(1);
        }
        let mut hs = vec![];
        static READY: AtomicU32 = AtomicU32::new(0);
        for i in 0..n {
            READY.store(0, SeqCst);
            OWN_SPAWN = true;
            let b = body.clone();
            let h = std::thread::Builder::new().stack_size(1 << 20).spawn(move || {
                ME.with(|m| m.set(i as u8));
                LEAVE.with(|l| *l.borrow_mut() = Some(Leave));
                READY.store(1, SeqCst);
                futex_wake_raw(&READY);
                let w = &S.th[i].word;
                while w.load(SeqCst) == 0 {
                    futex_wait_raw(w, 0);
                }
                w.store(0, SeqCst);
                b(i);
                drop(b);
                leaving(i, true);
            });
            OWN_SPAWN = false;
            match h {
                Ok(h) => hs.push(Some(h)),
                Err(_) => exit_now(2),
            }
            while READY.load(SeqCst) == 0 {
                futex_wait_raw(&READY, 0);
            }
        }
        begin(lim);
        S.on = true;
        S.cur = 0;
        S.since = STEP;
        S.mainw.store(0, SeqCst);
        S.plan_next();
        // the first thread is a decision, too
        S.cur = n; // none
        let t = S.pick(b'f', false);
        S.cur = t;
        renext();
        S.th[t].word.store(1, SeqCst);
        futex_wake_raw(&S.th[t].word);
        let mut left = n;
        loop {
            while S.mainw.load(SeqCst) == 0 {
                futex_wait_raw(&S.mainw, 0);
            }
            let c = S.cur;
            OWN_JOIN = true;
            let _ = hs[c].take().unwrap().join();
            OWN_JOIN = false;
            S.mainw.store(0, SeqCst);
            S.exiting = false;
            S.th[c].state = DONE;
            left -= 1;
            if left == 0 {
                break;
            }
            let t = S.pick_blocked();
            S.cur = t;
            S.since = STEP;
            S.plan_next();
            renext();
            S.th[t].word.store(1, SeqCst);
            futex_wake_raw(&S.th[t].word);
        }
        S.group = false;
        if S.extra > 0 {
            S.alone();
        } else {
            S.on = false;
        }
        end();
    }
}

// threads created by the code under test
type Start = extern "C" fn(*mut u8) -> *mut u8;
static mut OWN_SPAWN: bool = false;
static mut OWN_JOIN: bool = false;
static mut STARTS: [(Option<Start>, usize); NTH] = [(None, 0); NTH];
pub static mut SPAWNED: u64 = 0;
type Create = unsafe extern "C" fn(*mut u64, *const u8, Start, *mut u8) -> i32;
type Join = unsafe extern "C" fn(u64, *mut *mut u8) -> i32;
static mut REAL: (usize, usize) = (0, 0);
unsafe fn real() -> (Create, Join) {
    if REAL.0 == 0 {
        REAL.0 = libc::dlsym(libc::RTLD_NEXT, b"pthread_create\0".as_ptr() as *const libc::c_char) as usize;
        REAL.1 = libc::dlsym(libc::RTLD_NEXT, b"pthread_join\0".as_ptr() as *const libc::c_char) as usize;
        if REAL.0 == 0 || REAL.1 == 0 {
            exit_now(X_UNSUPPORTED);
        }
    }
    (std::mem::transmute::<usize, Create>(REAL.0), std::mem::transmute::<usize, Join>(REAL.1))
}
struct LeaveExtra;
impl Drop for LeaveExtra {
    fn drop(&mut self) {
        unsafe {
            let c = S.cur;
            S.th[c].state = DONE;
            S.extra -= 1;
            let me = &S.th[c] as *const Th as usize;
            for i in 0..NTH {
                if S.th[i].state == BLOCKED && S.th[i].addr == me {
                    S.th[i].state = RUN;
                }
            }
            let t = S.pick_blocked();
            if t == MAIN && S.extra == 0 && !S.group {
                S.on = false;
            }
            S.cur = t;
            S.since = STEP;
            S.plan_next();
            renext();
            S.th[t].word.store(1, SeqCst);
            futex_wake_raw(&S.th[t].word);
        }
    }
}
thread_local! { static LEAVE_EXTRA: std::cell::RefCell<Option<LeaveExtra>> = const { std::cell::RefCell::new(None) }; }
extern "C" fn trampoline(a: *mut u8) -> *mut u8 {
    unsafe {
        let i = a as usize;
        let w = &S.th[i].word;
        while w.load(SeqCst) == 0 {
            futex_wait_raw(w, 0);
        }
        w.store(0, SeqCst);
        // answers for what its creator does
        ME.with(|m| m.set(S.th[i].owner));
        LEAVE_EXTRA.with(|l| *l.borrow_mut() = Some(LeaveExtra));
        let (f, arg) = STARTS[i];
        f.unwrap()(arg as *mut u8)
    }
}
#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut u64, attr: *const u8, f: Start, arg: *mut u8) -> i32 {
    if !NODE || OWN_SPAWN {
        return real().0(t, attr, f, arg);
    }
    tick_sys();
    if S.exiting {
        exit_now(X_UNSUPPORTED);
    }
    let Some(i) = (FIRST_EXTRA..MAIN).find(|i| S.th[*i].state == NONE || S.th[*i].state == DONE) else { exit_now(X_UNSUPPORTED) };
    if !S.on {
        S.alone();
    }
    S.th[i] = TH0;
    S.th[i].owner = me();
    S.th[i].prio = 100 + S.rng() % 1000;
    STARTS[i] = (Some(f), arg as usize);
    let mut h = 0u64;
    let rc = real().0(&mut h, attr, trampoline, i as *mut u8);
    if rc != 0 {
        return rc;
    }
    *t = h;
    S.th[i].handle = h;
    S.th[i].state = RUN;
    S.extra += 1;
    SPAWNED += 1;
    renext();
    tick_sys();
    0
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(h: u64, r: *mut *mut u8) -> i32 {
    if NODE && S.on && !OWN_JOIN {
        tick_sys();
        if let Some(i) = (FIRST_EXTRA..MAIN).find(|i| S.th[*i].handle == h && (S.th[*i].state == RUN || S.th[*i].state == BLOCKED)) {
            while S.th[i].handle == h && S.th[i].state != DONE {
                let c = S.cur;
                S.th[c].state = BLOCKED;
                S.th[c].addr = &S.th[i] as *const Th as usize;
                S.th[c].deadline = u64::MAX;
                let t = S.pick_blocked();
                S.switch(t);
            }
        }
    }
    real().1(h, r)
}

/// Turns this (freshly forked, single-threaded) process into a node.
pub fn become_node(pid: u32) {
    unsafe {
        WHICH = 1;
        SIM_PID = pid;
        NODE = true;
        STEP = 0;
        ALLOCS = 0;
        COVER = 0;
        QUIET = true;
        sut::life::HOOK = Some(hook);
    }
}
/// Only the calling thread goes on in a forked copy.
pub fn forked() {
    unsafe {
        for t in S.th.iter_mut() {
            t.state = NONE;
            t.stalled = false;
        }
        S.extra = 0;
        S.group = false;
        S.on = false;
        S.exiting = false;
        S.cur = 0;
        S.next_switch = u64::MAX;
        renext();
    }
}
pub fn cover() -> u64 {
    unsafe { COVER }
}
