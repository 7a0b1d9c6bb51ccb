//! Counting the work done by the code under test: the number of instrumented branches that the
//! current thread has taken, with a limit. The code is built with LLVM's coverage callbacks.
use std::arch::global_asm;
use std::cell::RefCell;

global_asm!(
    ".section .tbss,\"awT\",@nobits",
    ".p2align 3",
    ".globl vh_work",
    ".hidden vh_work",
    ".type vh_work,@object",
    ".size vh_work,8",
    "vh_work: .zero 8",
    ".globl vh_map",
    ".hidden vh_map",
    ".type vh_map,@object",
    ".size vh_map,{size}",
    "vh_map: .zero {size}",
    ".globl vh_marks",
    ".hidden vh_marks",
    ".type vh_marks,@object",
    ".size vh_marks,8",
    "vh_marks: .zero 8",
    ".text",
    ".globl __sanitizer_cov_trace_pc",
    ".type __sanitizer_cov_trace_pc,@function",
    "__sanitizer_cov_trace_pc:",
    "decq %fs:vh_work@tpoff",
    "je 2f",
    "cmpb $0, %fs:vh_marks@tpoff",
    "jne 3f",
    "ret",
    "2: jmp {out}",
    // Counts how often this place was reached.
    "3: movq (%rsp), %rax",
    "imull $0x9E3779B1, %eax, %eax",
    "shrl ${shift}, %eax",
    "incb %fs:vh_map@tpoff(%rax)",
    "ret",
    ".size __sanitizer_cov_trace_pc, .-__sanitizer_cov_trace_pc",
    ".globl vh_work_get",
    "vh_work_get: movq %fs:vh_work@tpoff, %rax",
    "ret",
    ".globl vh_work_set",
    "vh_work_set: movq %rdi, %fs:vh_work@tpoff",
    "ret",
    ".globl vh_marks_set",
    "vh_marks_set: movb %dil, %fs:vh_marks@tpoff",
    "ret",
    ".globl vh_map_get",
    "vh_map_get: movq %fs:0, %rax",
    "leaq vh_map@tpoff(%rax), %rax",
    "ret",
    out = sym out,
    size = const PLACES,
    shift = const 32 - PLACES.trailing_zeros(),
    options(att_syntax)
);
extern "C" {
    fn vh_work_get() -> u64;
    fn vh_work_set(v: u64);
    fn vh_marks_set(v: u8);
    fn vh_map_get() -> *mut u8;
}
/// Entries of the map of places.
const PLACES: usize = 1 << 16;

/// Which places the code has reached, and about how often, in the cases of one thread so far.
pub struct Reached {
    seen: Vec<u8>,
    pub places: usize,
}
impl Reached {
    pub fn new() -> Self {
        Self { seen: vec![0; PLACES], places: 0 }
    }
    /// Runs a case and tells whether it went where, or so often where, none has before.
    pub fn by<T>(&mut self, f: impl FnOnce() -> T) -> (T, bool) {
        // The map of this thread, which lives as long as the thread.
        let map = unsafe { std::slice::from_raw_parts_mut(vh_map_get(), PLACES) };
        map.fill(0);
        unsafe { vh_marks_set(1) };
        let r = f();
        unsafe { vh_marks_set(0) };
        let mut new = false;
        for (m, s) in map.chunks_exact(8).zip(self.seen.chunks_exact_mut(8)) {
            if m == [0; 8] {
                continue;
            }
            for (m, s) in m.iter().zip(s) {
                let b = match *m {
                    0 => 0,
                    1 => 1,
                    2 => 2,
                    3 => 4,
                    4..=7 => 8,
                    8..=15 => 16,
                    16..=31 => 32,
                    32..=127 => 64,
                    _ => 128u8,
                };
                if b & !*s != 0 {
                    new = true;
                    self.places += usize::from(*s == 0);
                    *s |= b;
                }
            }
        }
        (r, new)
    }
}
/// Enough never to run out.
const PLENTY: u64 = 1 << 62;

fn get() -> u64 {
    unsafe { vh_work_get() }
}
fn set(v: u64) {
    unsafe { vh_work_set(v) }
}

thread_local! {
    static CASE: RefCell<Option<(&'static str, &'static str, Vec<u32>)>> = const { RefCell::new(None) };
    static INPUT: RefCell<String> = const { RefCell::new(String::new()) };
}
/// More than any case takes that is not limited otherwise.
const CASE_LIMIT: u64 = 30_000_000_000;

/// Notes the case that is about to run.
pub fn begin(id: &'static str, family: &'static str, d: &[u32]) {
    CASE.with(|c| *c.borrow_mut() = Some((id, family, d.to_vec())));
    NOW.with(|n| n.set((family.as_ptr(), family.len(), d.as_ptr(), d.len())));
    set(CASE_LIMIT);
}
/// After the case.
pub fn end() {
    NOW.with(|n| n.set((std::ptr::null(), 0, std::ptr::null(), 0)));
    set(PLENTY);
}

/// Runs code that may do at most `limit` units of work and returns how much it did. Running out
/// is a violation, which ends the process.
pub fn limited<T>(limit: u64, input: &str, f: impl FnOnce() -> T) -> (T, u64) {
    INPUT.with(|i| {
        let mut i = i.borrow_mut();
        i.clear();
        i.push_str(input);
    });
    let before = get();
    set(limit);
    let r = f();
    let left = get();
    set(before);
    (r, limit.wrapping_sub(left))
}
/// Whether the code is instrumented at all.
pub fn works() -> bool {
    let (_, n) = limited(PLENTY, "", || {
        pcore::entry::entries().iter().find(|e| e.name == "Name").unwrap().run("abc").is_ok()
    });
    n > 0 && n < PLENTY
}

extern "C" fn out() {
    set(PLENTY);
    let Some((id, family, d)) = CASE.with(|c| c.borrow().clone()) else {
        println!("error: out of work outside of a case");
        std::process::exit(3);
    };
    let input = INPUT.with(|i| i.borrow().clone());
    crate::run::out_of_work(id, family, d, &input);
}

// ---- memory ----

/// Counts the bytes that a thread allocates.
struct Counting;
thread_local! {
    static BYTES: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
fn count(n: usize) {
    let _ = BYTES.try_with(|b| b.set(b.get().wrapping_add(n as u64)));
}
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        count(l.size());
        std::alloc::System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        count(l.size());
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        count(n);
        std::alloc::System.realloc(p, l, n)
    }
}
#[global_allocator]
static COUNTING: Counting = Counting;
/// How many bytes this thread has allocated so far.
pub fn allocated() -> u64 {
    BYTES.with(|b| b.get())
}

// ---- crashes ----

thread_local! {
    static NOW: std::cell::Cell<(*const u8, usize, *const u32, usize)> =
        const { std::cell::Cell::new((std::ptr::null(), 0, std::ptr::null(), 0)) };
}
static mut CRASH_PATH: [u8; 512] = [0; 512];
extern "C" {
    fn signal(n: i32, h: usize) -> usize;
    fn open(p: *const i8, flags: i32, ...) -> i32;
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn _exit(c: i32) -> !;
}
/// The exit code after a crash whose case has been noted.
pub const CRASHED: i32 = 77;

/// The process aborts (out of memory, stack overflow, a second panic): notes the case.
extern "C" fn aborted(_: i32) {
    unsafe {
        let (f, fl, d, dl) = NOW.with(|n| n.get());
        if f.is_null() {
            _exit(3);
        }
        let fd = open(std::ptr::addr_of!(CRASH_PATH) as *const i8, 0o1 | 0o100 | 0o1000, 0o644);
        write(fd, b"family=".as_ptr(), 7);
        write(fd, f, fl);
        write(fd, b"\nchoices=".as_ptr(), 9);
        for i in 0..dl {
            let mut v = *d.add(i);
            let mut b = [0u8; 12];
            let mut k = 12;
            loop {
                k -= 1;
                b[k] = b'0' + (v % 10) as u8;
                v /= 10;
                if v == 0 {
                    break;
                }
            }
            if i > 0 {
                k -= 1;
                b[k] = b',';
            }
            write(fd, b.as_ptr().add(k), 12 - k);
        }
        write(fd, b"\n".as_ptr(), 1);
        _exit(CRASHED);
    }
}
/// Makes aborts note their case in this file.
pub fn watch(path: &str) {
    let n = path.len().min(511);
    unsafe {
        let p = std::ptr::addr_of_mut!(CRASH_PATH) as *mut u8;
        std::ptr::copy_nonoverlapping(path.as_ptr(), p, n);
        signal(6, aborted as *const () as usize);
    }
}
