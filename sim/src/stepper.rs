//! Instruction-level preemption: runs a closure with the x86 trap flag set, so that a hook of the
//! simulator runs at every machine-instruction boundary. Who runs at which boundary is the
//! simulator's decision; the hook plays the interrupt handler (or the power failure).
use std::arch::asm;

#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}
extern "C" {
    fn sigaction(sig: i32, act: *const SigAction, old: *mut SigAction) -> i32;
}
const SIGTRAP: i32 = 5;
const SA_SIGINFO: i32 = 4;
const TF: u64 = 0x100;
const EFL: usize = 5 + 17; // index of EFLAGS in ucontext_t seen as u64s
const RIP: usize = 5 + 16;
const RDI: usize = 5 + 8;

// eat_enter(f, data, save) calls f(data) with the trap flag set and returns 0; the trap handler makes it
// return 1 at once by continuing at eat_leave with the saved registers.
std::arch::global_asm!(
    ".globl eat_enter",
    "eat_enter:",
    "mov [rdx], rbx",
    "mov [rdx+8], rbp",
    "mov [rdx+16], r12",
    "mov [rdx+24], r13",
    "mov [rdx+32], r14",
    "mov [rdx+40], r15",
    "mov [rdx+48], rsp",
    "sub rsp, 8",
    "mov rax, rdi",
    "mov rdi, rsi",
    "pushfq",
    "or qword ptr [rsp], 0x100",
    "popfq",
    "call rax",
    "pushfq",
    "and qword ptr [rsp], -257",
    "popfq",
    "add rsp, 8",
    "xor eax, eax",
    "ret",
    ".globl eat_leave",
    "eat_leave:",
    "cld",
    "mov rbx, [rdi]",
    "mov rbp, [rdi+8]",
    "mov r12, [rdi+16]",
    "mov r13, [rdi+24]",
    "mov r14, [rdi+32]",
    "mov r15, [rdi+40]",
    "mov rsp, [rdi+48]",
    "mov eax, 1",
    "ret",
);
extern "C" {
    fn eat_enter(f: extern "C-unwind" fn(*mut u8), data: *mut u8, save: *mut u64) -> u32;
    fn eat_leave();
}
static mut SAVED: [u64; 8] = [0; 8];
extern "C-unwind" fn call_it(d: *mut u8) {
    let f = unsafe { &mut *(d as *mut &mut dyn FnMut()) };
    f();
}

struct State {
    active: bool,
    count: u64,
    limit: u64,
    overrun: bool,
    /// leave the function under test at the limit instead of letting it run on
    abandon: bool,
    hook: Option<*mut dyn FnMut(u64)>,
    installed: bool,
}
static mut ST: State = State {
    active: false,
    count: 0,
    limit: 0,
    overrun: false,
    abandon: false,
    hook: None,
    installed: false,
};

fn st() -> &'static mut State {
    unsafe { &mut *std::ptr::addr_of_mut!(ST) }
}

unsafe extern "C" fn on_trap(_sig: i32, _info: *mut u8, ctx: *mut u64) {
    if crate::watch::on_trap(ctx) {
        return;
    }
    let s = st();
    if !s.active {
        *ctx.add(EFL) &= !TF;
        return;
    }
    s.count += 1;
    if s.count > s.limit {
        s.overrun = true;
        s.active = false;
        *ctx.add(EFL) &= !TF;
        if s.abandon {
            *ctx.add(RIP) = eat_leave as *const () as u64;
            *ctx.add(RDI) = std::ptr::addr_of!(SAVED) as u64;
        }
        return;
    }
    if let Some(h) = s.hook {
        (*h)(s.count);
    }
}

pub fn install() {
    let s = st();
    if s.installed {
        return;
    }
    let act = SigAction {
        handler: on_trap as *const () as usize,
        mask: [0; 16],
        flags: SA_SIGINFO,
        restorer: 0,
    };
    let r = unsafe { sigaction(SIGTRAP, &act, std::ptr::null_mut()) };
    assert_eq!(r, 0, "sigaction");
    s.installed = true;
}

/// Called from the panic hook: a panic inside the stepped window must unwind at full speed.
pub fn disarm() {
    st().active = false;
    crate::watch::disarm();
}

#[inline(never)]
unsafe fn go(f: &mut dyn FnMut()) {
    asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
    f();
    asm!("pushfq", "and qword ptr [rsp], 0xfffffffffffffeff", "popfq");
}

/// Runs `f` one instruction at a time, calling `hook(n)` after the n-th one, for at most `limit`
/// instructions (then it runs on at full speed). Returns (instructions stepped, limit exceeded).
pub fn stepped(limit: u64, hook: &mut dyn FnMut(u64), f: &mut dyn FnMut()) -> (u64, bool) {
    install();
    let s = st();
    s.count = 0;
    s.limit = limit;
    s.overrun = false;
    s.hook = Some(unsafe { std::mem::transmute::<*mut dyn FnMut(u64), *mut (dyn FnMut(u64) + 'static)>(hook as *mut dyn FnMut(u64)) });
    s.active = true;
    unsafe { go(f) };
    s.active = false;
    s.hook = None;
    (s.count, s.overrun)
}

/// Runs `f` one instruction at a time and leaves it for good after `limit` instructions (nothing it holds
/// is dropped; whatever it works on must not be used again). Returns (instructions, finished).
/// A panic inside `f` must be caught inside `f`.
pub fn measured(limit: u64, hook: &mut dyn FnMut(u64), f: &mut dyn FnMut()) -> (u64, bool) {
    install();
    let s = st();
    s.count = 0;
    s.limit = limit;
    s.overrun = false;
    s.abandon = true;
    s.hook = Some(unsafe { std::mem::transmute::<*mut dyn FnMut(u64), *mut (dyn FnMut(u64) + 'static)>(hook as *mut dyn FnMut(u64)) });
    s.active = true;
    let mut r: &mut dyn FnMut() = f;
    unsafe { eat_enter(call_it, std::ptr::addr_of_mut!(r) as *mut u8, std::ptr::addr_of_mut!(SAVED) as *mut u64) };
    s.active = false;
    s.abandon = false;
    s.hook = None;
    (s.count, !s.overrun)
}

/// The seam must work before any verdict is given.
pub fn self_test() -> bool {
    let mut n = 0u64;
    let mut x = 0u64;
    let mut hook = |_c: u64| n += 1;
    let (c, over) = stepped(10_000, &mut hook, &mut || {
        for i in 0..10u64 {
            x = std::hint::black_box(x + i);
        }
    });
    let mut none = |_c: u64| {};
    let mut y = 0u64;
    let (d, fin) = measured(1_000, &mut none, &mut || loop {
        y = std::hint::black_box(y + 1);
    });
    let (e, fin2) = measured(1_000, &mut none, &mut || y = std::hint::black_box(1));
    c > 20 && !over && x == 45 && n == c && d == 1_001 && !fin && e > 1 && e < 100 && fin2 && y == 1
}
