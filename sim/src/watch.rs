//! Watched RAM: memory whose every single load and store by the code under test is seen by the simulator.
//! One block of memory is mapped twice. The code under test gets addresses in the `view`, which is closed
//! (no access) while an operation is being watched; the simulator itself uses the `alias`. An access to
//! the closed view faults, is recorded, optionally lets the simulator run another context just before or
//! just after it, and is then let through alone (one instruction with the page open).
use std::ffi::c_void;

extern "C" {
    fn mmap(a: *mut c_void, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut c_void;
    fn mprotect(a: *mut c_void, l: usize, p: i32) -> i32;
    fn memfd_create(n: *const u8, f: u32) -> i32;
    fn ftruncate(fd: i32, l: i64) -> i32;
    fn close(fd: i32) -> i32;
    fn sigaction(sig: i32, act: *const SigAction, old: *mut SigAction) -> i32;
}
#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}
const SIGSEGV: i32 = 11;
const SA_SIGINFO: i32 = 4;
const TF: u64 = 0x100;
const EFL: usize = 5 + 17;
const ERR: usize = 5 + 19;
const PAGE: usize = 4096;
pub const PAGE_CELLS: usize = PAGE / 4;
/// cells of watched RAM, including a wide margin on both sides
pub const CELLS: usize = 320 * PAGE_CELLS;
const BYTES: usize = CELLS * 4;
const SNAP: usize = 8;

/// One recorded access.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Acc {
    /// byte offset in the watched RAM
    pub at: usize,
    pub write: bool,
    /// value of the cell after the access
    pub after: u32,
    /// the access changed something outside the cell it addresses
    pub spill: bool,
}
impl Acc {
    pub fn cell(&self) -> usize {
        self.at / 4
    }
    pub fn aligned(&self) -> bool {
        self.at % 4 == 0
    }
}

struct W {
    view: *mut u8,
    alias: *mut u8,
    active: bool,
    limit: usize,
    overrun: bool,
    log: Vec<Acc>,
    pending: bool,
    at: usize,
    write: bool,
    open: [usize; 4],
    nopen: usize,
    snap: [u32; 2 * SNAP + 1],
    hook: Option<*mut dyn FnMut(u64)>,
}
static mut WS: W = W {
    view: std::ptr::null_mut(),
    alias: std::ptr::null_mut(),
    active: false,
    limit: 0,
    overrun: false,
    log: Vec::new(),
    pending: false,
    at: 0,
    write: false,
    open: [0; 4],
    nopen: 0,
    snap: [0; 2 * SNAP + 1],
    hook: None,
};
fn w() -> &'static mut W {
    unsafe { &mut *std::ptr::addr_of_mut!(WS) }
}
impl W {
    unsafe fn protect(&self, from: usize, len: usize, open: bool) {
        if mprotect(self.view.add(from) as *mut c_void, len, if open { 3 } else { 0 }) != 0 {
            std::process::abort();
        }
    }
    fn cell(&self, c: isize) -> u32 {
        if c < 0 || c as usize >= CELLS {
            0
        } else {
            unsafe { (self.alias as *const u32).offset(c).read_volatile() }
        }
    }
    fn finish(&mut self) {
        let c = (self.at / 4) as isize;
        let mut spill = false;
        if self.write {
            for (k, s) in self.snap.iter().enumerate() {
                let d = k as isize - SNAP as isize;
                if d != 0 && self.cell(c + d) != *s {
                    spill = true;
                }
            }
        }
        let after = self.cell(c);
        self.log.push(Acc { at: self.at, write: self.write, after, spill });
        self.pending = false;
    }
}

unsafe extern "C" fn on_segv(_sig: i32, info: *const u8, ctx: *mut u64) {
    let s = w();
    let addr = *(info.add(16) as *const usize);
    let base = s.view as usize;
    if !s.active || base == 0 || addr < base || addr >= base + BYTES {
        // not ours: die of it
        let act = SigAction { handler: 0, mask: [0; 16], flags: 0, restorer: 0 };
        sigaction(SIGSEGV, &act, std::ptr::null_mut());
        return;
    }
    let off = addr - base;
    if !s.pending {
        if s.log.len() >= s.limit {
            // let the operation run on unwatched
            s.overrun = true;
            s.active = false;
            s.protect(0, BYTES, true);
            return;
        }
        if let Some(h) = s.hook {
            (*h)(2 * s.log.len() as u64 + 1);
        }
        s.pending = true;
        s.at = off;
        s.write = *ctx.add(ERR) & 2 != 0;
        s.nopen = 0;
        let c = (off / 4) as isize;
        for k in 0..2 * SNAP + 1 {
            s.snap[k] = s.cell(c + k as isize - SNAP as isize);
        }
    } else {
        // a second page or a second operand of the same instruction: an access of its own
        let c = (off / 4) as isize;
        let after = s.cell(c);
        s.log.push(Acc { at: off, write: *ctx.add(ERR) & 2 != 0, after, spill: false });
        if s.nopen >= 4 {
            std::process::abort();
        }
    }
    let page = off / PAGE * PAGE;
    s.open[s.nopen] = page;
    s.nopen += 1;
    s.protect(page, PAGE, true);
    *ctx.add(EFL) |= TF;
}

/// Called by the trap handler; true when the trap belonged to a watched access.
pub unsafe fn on_trap(ctx: *mut u64) -> bool {
    let s = w();
    if !s.pending {
        return false;
    }
    for k in 0..s.nopen {
        s.protect(s.open[k], PAGE, false);
    }
    s.nopen = 0;
    s.finish();
    *ctx.add(EFL) &= !TF;
    if let Some(h) = s.hook {
        (*h)(2 * s.log.len() as u64);
    }
    true
}

fn install() {
    let s = w();
    if !s.view.is_null() {
        return;
    }
    unsafe {
        let fd = memfd_create(b"ram\0".as_ptr(), 0);
        assert!(fd >= 0, "harness: memfd_create");
        assert_eq!(ftruncate(fd, BYTES as i64), 0, "harness: ftruncate");
        s.view = mmap(std::ptr::null_mut(), BYTES, 3, 1, fd, 0) as *mut u8;
        s.alias = mmap(std::ptr::null_mut(), BYTES, 3, 1, fd, 0) as *mut u8;
        close(fd);
        assert!(s.view as isize != -1 && s.alias as isize != -1, "harness: mmap");
        crate::stepper::install();
        let act = SigAction { handler: on_segv as *const () as usize, mask: [0; 16], flags: SA_SIGINFO, restorer: 0 };
        assert_eq!(sigaction(SIGSEGV, &act, std::ptr::null_mut()), 0, "harness: sigaction");
        s.log.reserve(4096);
    }
}

pub fn view() -> *mut f32 {
    install();
    w().view as *mut f32
}
pub fn alias() -> *mut f32 {
    install();
    w().alias as *mut f32
}

/// From here on every access to the view is recorded (at most `limit` of them).
pub fn begin(limit: usize) {
    install();
    let s = w();
    s.log.clear();
    s.limit = limit;
    s.overrun = false;
    s.pending = false;
    s.hook = None;
    unsafe { s.protect(0, BYTES, false) };
    s.active = true;
}
/// The accesses since `begin`, and whether the limit was exceeded.
pub fn end() -> (&'static [Acc], bool) {
    let s = w();
    if s.active {
        s.active = false;
        unsafe { s.protect(0, BYTES, true) };
    }
    s.hook = None;
    (&s.log, s.overrun)
}
/// Runs `f` watched; `hook(2n+1)` runs just before access n (counted from 0), `hook(2n+2)` just after it.
pub fn watched(limit: usize, hook: &mut dyn FnMut(u64), f: &mut dyn FnMut()) -> (&'static [Acc], bool) {
    begin(limit);
    w().hook = Some(unsafe { std::mem::transmute::<*mut dyn FnMut(u64), *mut (dyn FnMut(u64) + 'static)>(hook as *mut dyn FnMut(u64)) });
    f();
    end()
}
/// Called from the panic hook.
pub fn disarm() {
    if w().active {
        end();
    }
}

/// The seam must work before any verdict is given.
pub fn self_test() -> bool {
    let (v, a) = (view(), alias());
    let at = 100 * PAGE_CELLS + 7;
    unsafe { a.add(at).write_volatile(1.5) };
    let mut seen = vec![];
    let mut hook = |n: u64| {
        seen.push(n);
        if n == 3 {
            unsafe { a.add(at).write_volatile(4.0) };
        }
    };
    let mut got = 0.0;
    let (log, over) = watched(100, &mut hook, &mut || unsafe {
        got = v.add(at).read_volatile();
        got += v.add(at).read_volatile();
        v.add(at + 1).write_volatile(got);
        v.add(at + 1).write_volatile(got);
    });
    !over
        && got == 5.5
        && log.len() == 4
        && log.iter().map(|x| (x.cell() - at, x.write, x.spill)).eq([(0, false, false), (0, false, false), (1, true, false), (1, true, false)])
        && seen == [1, 2, 3, 4, 5, 6, 7, 8]
        && log[2].after == 5.5f32.to_bits()
}
