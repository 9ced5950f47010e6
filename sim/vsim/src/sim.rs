//! Talking to simio, the preloaded seam (see simio.c), and the allocator seam.

use serde::{Deserialize, Serialize};
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering::Relaxed};

pub struct SimAlloc;
pub static LIVE: AtomicI64 = AtomicI64::new(0);
pub static ALLOCS: AtomicU64 = AtomicU64::new(0);
pub static ALLOC_LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);
/// What fresh and freed memory looks like; 0 leaves it alone.
pub static HEAP_NOISE: AtomicU64 = AtomicU64::new(0);
static YIELD_ON: AtomicBool = AtomicBool::new(false);
static YIELD: AtomicUsize = AtomicUsize::new(0);

#[inline]
fn step() {
    let n = ALLOCS.fetch_add(1, Relaxed);
    if n > ALLOC_LIMIT.load(Relaxed) {
        unsafe { libc::_exit(87) }
    }
    // with instrumented code around them only some allocations are scheduling points
    if YIELD_ON.load(Relaxed) && (n % 16 == 0 || NGUARDS.load(Relaxed) == 0) {
        let f: extern "C" fn() = unsafe { std::mem::transmute(YIELD.load(Relaxed)) };
        f()
    }
}
fn junk(p: *mut u8, n: usize) {
    let s = HEAP_NOISE.load(Relaxed);
    if s != 0 && !p.is_null() {
        // doubles made of this pattern are tiny, huge or NaN depending on the seed
        unsafe { std::ptr::write_bytes(p, (s as u8) | 1, n.min(1 << 16)) }
    }
}
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        step();
        let p = System.alloc(l);
        LIVE.fetch_add(l.size() as i64, Relaxed);
        junk(p, l.size());
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        junk(p, l.size());
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        step();
        LIVE.fetch_add(l.size() as i64, Relaxed);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        step();
        LIVE.fetch_add(n as i64 - l.size() as i64, Relaxed);
        let q = System.realloc(p, l, n);
        if n > l.size() && !q.is_null() {
            junk(q.add(l.size()), n - l.size());
        }
        q
    }
}

/// Instrumentation of the library (see build.sh): every basic block has a counter and calls here.
/// The first executions of a block are scheduling points, and then ever fewer of them, so that rare code - where
/// the state shared between threads is touched - is not drowned by the inner loops.
static GUARDS: AtomicUsize = AtomicUsize::new(0);
pub static NGUARDS: AtomicUsize = AtomicUsize::new(0);
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(a: *mut u32, b: *mut u32) {
    GUARDS.store(a as usize, Relaxed);
    NGUARDS.store(b.offset_from(a) as usize, Relaxed);
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if YIELD_ON.load(Relaxed) {
        let c = (*g).wrapping_add(1);
        *g = c;
        let k = (32 - c.leading_zeros()).clamp(5, 18) - 5;
        if c & ((1u32 << k) - 1) == 0 {
            let f: extern "C" fn() = std::mem::transmute(YIELD.load(Relaxed));
            f()
        }
    }
}
/// The statics of this program: what threads of the library can share without being given it.
static DATA: [AtomicUsize; 4] = [const { AtomicUsize::new(0) }; 4];
pub static TOUCHES: AtomicU64 = AtomicU64::new(0);
static TOUCH: AtomicUsize = AtomicUsize::new(0);
#[inline(always)]
fn access(a: usize) {
    let [lo, hi, glo, ghi] = [0, 1, 2, 3].map(|i| DATA[i].load(Relaxed));
    if a.wrapping_sub(lo) < hi - lo && a.wrapping_sub(glo) >= ghi - glo && YIELD_ON.load(Relaxed) {
        TOUCHES.fetch_add(1, Relaxed);
        let f: extern "C" fn() = unsafe { std::mem::transmute(TOUCH.load(Relaxed)) };
        f()
    }
}
macro_rules! accesses { ($($n:ident)*) => { $(#[no_mangle] pub extern "C" fn $n(p: *const u8) { access(p as usize) })* } }
accesses! { __sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
__sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16 }
/// Finds the writable segment of the executable, without the part that is read-only after relocation.
unsafe extern "C" fn segment(i: *mut libc::dl_phdr_info, _: usize, done: *mut libc::c_void) -> i32 {
    let done = &mut *(done as *mut bool);
    if *done {
        return 0;
    }
    *done = true;
    let hs = std::slice::from_raw_parts((*i).dlpi_phdr, (*i).dlpi_phnum as usize);
    let base = (*i).dlpi_addr as usize;
    let (mut lo, mut hi) = (usize::MAX, 0);
    for h in hs.iter().filter(|h| h.p_type == libc::PT_LOAD && h.p_flags & libc::PF_W != 0) {
        lo = lo.min(base + h.p_vaddr as usize);
        hi = hi.max(base + (h.p_vaddr + h.p_memsz) as usize);
    }
    for h in hs.iter().filter(|h| h.p_type == libc::PT_GNU_RELRO) {
        lo = lo.max(base + (h.p_vaddr + h.p_memsz) as usize);
    }
    DATA[0].store(lo, Relaxed);
    DATA[1].store(hi.max(lo), Relaxed);
    let g = GUARDS.load(Relaxed);
    DATA[2].store(g, Relaxed);
    DATA[3].store(g + 4 * NGUARDS.load(Relaxed), Relaxed);
    0
}
pub fn guards() -> &'static mut [u32] { unsafe { std::slice::from_raw_parts_mut(std::ptr::NonNull::new(GUARDS.load(Relaxed) as *mut u32).unwrap_or(std::ptr::NonNull::dangling()).as_ptr(), NGUARDS.load(Relaxed)) } }

macro_rules! syms {
    ($($name:ident : fn($($t:ty),*) $(-> $r:ty)?;)*) => {
        #[allow(non_snake_case, dead_code)]
        pub struct Sim { $(pub $name: unsafe extern "C" fn($($t),*) $(-> $r)?,)* }
        impl Sim {
            fn load() -> Sim {
                unsafe {
                    Sim { $($name: {
                        let n = concat!(stringify!($name), "\0");
                        let p = libc::dlsym(libc::RTLD_DEFAULT, n.as_ptr() as *const _);
                        if p.is_null() { eprintln!("vsim: {} not found, is libsimio.so preloaded?", stringify!($name)); libc::_exit(2) }
                        std::mem::transmute::<*mut libc::c_void, unsafe extern "C" fn($($t),*) $(-> $r)?>(p)
                    },)* }
                }
            }
        }
    };
}
syms! {
    sim_reset: fn();
    sim_plan: fn(*const libc::c_char);
    sim_active: fn(i32);
    sim_ops: fn() -> u64;
    sim_outside: fn() -> u64;
    sim_add_fault_rel: fn(*const libc::c_char);
    sim_clear_faults: fn();
    sim_fired: fn() -> i32;
    sim_open_fds: fn() -> i32;
    sim_mark: fn(*const libc::c_char, i64, i64);
    sim_track_std: fn();
    sim_clock_reads: fn() -> u64;
    sim_clock_ns: fn() -> u64;
    sim_rand_reads: fn() -> u64;
    sim_live_threads: fn() -> i32;
    sim_sched_start: fn();
    sim_sched_stop: fn();
    sim_sched_steps: fn() -> u64;
    sim_sched_switches: fn() -> u64;
    sim_sched_hash: fn() -> u64;
    sim_sched_futex: fn() -> u64;
    sim_sched_list: fn(*mut u64, i32) -> i32;
    sim_yield_point: fn();
    sim_touch: fn();
}

static mut SIM: Option<Sim> = None;
pub fn init() {
    let s = Sim::load();
    YIELD.store(s.sim_yield_point as usize, Relaxed);
    TOUCH.store(s.sim_touch as usize, Relaxed);
    let mut done = false;
    unsafe { libc::dl_iterate_phdr(Some(segment), &mut done as *mut bool as *mut _) };
    unsafe { *(&raw mut SIM) = Some(s) }
}
pub fn sim() -> &'static Sim { unsafe { (*(&raw const SIM)).as_ref().unwrap() } }
pub fn plan(text: &str) {
    let c = std::ffi::CString::new(text).unwrap();
    unsafe { (sim().sim_plan)(c.as_ptr()) }
}
pub fn faults_rel(text: &str) {
    let c = std::ffi::CString::new(text).unwrap();
    unsafe { (sim().sim_add_fault_rel)(c.as_ptr()) }
}
pub fn active(on: bool) { unsafe { (sim().sim_active)(on as i32) } }
pub fn yield_on(on: bool) { YIELD_ON.store(on, Relaxed) }

/// One injected fault, at one numbered operation.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Fault {
    pub op: u64,
    pub what: F,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum F {
    /// The operation fails.
    Errno(i32),
    /// It and all later ones of its kind on the same file fail.
    Dead(i32),
    /// Only so many bytes are transferred.
    Short(usize),
    /// The file ends here.
    Eof,
    /// The process is killed before / after the operation, or after a part of a write.
    Crash,
    CrashAfter,
    Torn(usize),
    /// The disk has room for so many more bytes of this write, and is full from then on.
    Full(usize),
    /// Somebody atomically renames a prepared file over another before the operation.
    Publish(String, String),
    /// So many allocations after the operation, one is refused.
    NoMem(u64),
}
pub fn enc(s: &str) -> String {
    let mut o = String::new();
    for b in s.bytes() {
        if b <= b' ' || b == b'%' || b >= 127 {
            o.push_str(&format!("%{b:02x}"));
        } else {
            o.push(b as char);
        }
    }
    o
}
pub fn dec(s: &str) -> String {
    let b = s.as_bytes();
    let mut o = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() {
            o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap_or(b'?'));
            i += 3;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8_lossy(&o).into_owned()
}
pub fn fault_text(fs: &[Fault]) -> String {
    let mut o = String::new();
    for f in fs {
        let w = match &f.what {
            F::Errno(e) => format!("errno {e}"),
            F::Dead(e) => format!("errnos {e}"),
            F::Short(n) => format!("short {n}"),
            F::Eof => "eof 0".into(),
            F::Crash => "crash 0".into(),
            F::CrashAfter => "crasha 0".into(),
            F::Torn(n) => format!("torn {n}"),
            F::Full(n) => format!("full {n}"),
            F::NoMem(n) => format!("nomem {}", n.max(&1)),
            F::Publish(a, b) => format!("pub {} {}", enc(a), enc(b)),
        };
        o.push_str(&format!("fault {} {}\n", f.op, w));
    }
    o
}

/// Everything around the bytes that must not matter.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Noise {
    pub seed: u64,
    /// 0 off, 1 tiny, 2 mixed, 3 halves, 4 blocks, 5 single bytes
    pub chunk: u8,
    pub chunk_writes: bool,
    /// per mille of reads (mask 1), writes (2), opens (4) interrupted
    pub eintr: u32,
    pub eintr_mask: u8,
    pub clock: bool,
    pub rand: bool,
    pub heap: u8,
    pub env: bool,
    /// file times and unrelated files
    pub meta: bool,
}
impl Noise {
    pub fn text(&self) -> String {
        let mut o = String::new();
        if self.chunk > 0 {
            o.push_str(&format!("chunk {} {} {}\n", self.seed & 0xffff_ffff, self.chunk, self.chunk_writes as u8));
        }
        if self.eintr > 0 {
            o.push_str(&format!("eintr {} {} {}\n", (self.seed >> 7) & 0xffff_ffff, self.eintr, self.eintr_mask));
        }
        if self.clock {
            let base = 1_000_000_000u64 * (1 + (self.seed >> 5) % 4_000_000_000);
            o.push_str(&format!("clock {} {} {}\n", base, 1 + (self.seed >> 11) % 50_000_000, (self.seed >> 3) & 0xffff_fff));
        } else {
            o.push_str("clock 1700000000000000000 1000 0\n");
        }
        o.push_str(&format!("rand {}\n", if self.rand { self.seed & 0xffff_ffff } else { 1 }));
        o
    }
}

/// One line of the operation trace.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Op {
    pub n: u64,
    pub kind: String,
    pub file: String,
    pub arg: i64,
    pub ret: i64,
    pub note: String,
}
pub fn parse_trace(b: &[u8]) -> Vec<Op> {
    let mut v = Vec::new();
    for l in String::from_utf8_lossy(b).lines() {
        let w: Vec<&str> = l.split(' ').collect();
        if w.len() == 6 {
            v.push(Op {
                n: w[0].parse().unwrap_or(0),
                kind: w[1].into(),
                file: dec(w[2]),
                arg: w[3].parse().unwrap_or(0),
                ret: w[4].parse().unwrap_or(0),
                note: dec(w[5]),
            });
        }
    }
    v
}
