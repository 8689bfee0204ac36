//! C02: two execution contexts on shared memory; the second one preempts the first at any instruction.
use crate::core::*;
use crate::rng::Rng;
use crate::stepper::stepped;
use embedded_audio_tools::memory_access::*;
use embedded_audio_tools::{AllPass, Comb, DelayLine};
use std::hint::black_box;

pub struct C02;

// operations of the main context
const ASSIGN: u8 = 0;
const GET: u8 = 1;
const WRAP: u8 = 2;
const FOUR: u8 = 3;
const LERP: u8 = 4;
const WLERP: u8 = 5;
const LAGR: u8 = 6;
const LAG4: u8 = 7;
const DWRITE: u8 = 8;
const DREAD: u8 = 9;
const DTAP: u8 = 10;
const DLERP: u8 = 11;
const SEQ: u8 = 12;
const POLL: u8 = 13;
const TWICE: u8 = 14;
const MAILBOX: u8 = 15;
const RDBACK: u8 = 16;
const VIACOPY: u8 = 17;
const COMB: u8 = 18;
const APASS: u8 = 19;
const RAW: u8 = 20;
const DSEQ: u8 = 21;
const NMAIN: u8 = 22;
// operations of the preempting context
const I_ASSIGN: u8 = 22;
const I_GET: u8 = 23;
const I_LERP: u8 = 24;
const I_DTICK: u8 = 25;
const I_HIT: u8 = 26; // assign to exactly the cell the main operation addresses
const OPS: [&str; 27] = [
    "assign", "get", "get-wrapped", "get-four-wrapped", "lerp", "lerp-wrapped", "lagrange-wrapped", "lagrange-four",
    "line-write-and-advance", "line-read", "line-tap", "line-lerp-tap", "store-sequence", "poll", "read-twice", "mailbox",
    "store-then-read", "via-copy-and-sub-slice", "comb-tick", "all-pass-tick", "unchecked", "line-write-twice",
    "isr-assign", "isr-get", "isr-lerp", "isr-line-tick", "isr-hit",
];

/// set by the preempted code between two steps of its program, watched by the hook
static mut MARK: u32 = 0;
#[inline(always)]
fn mark(v: u32) {
    unsafe { std::ptr::addr_of_mut!(MARK).write_volatile(v) }
}
/// Like `mark`, but the compiler is told that no memory is involved: accesses around it are as free to
/// be merged or hoisted as in a firmware's own loop (volatile ones must stay where they are).
#[inline(always)]
fn mark_free(v: u32) {
    unsafe {
        std::arch::asm!("mov dword ptr [{p}], {v:e}", p = in(reg) std::ptr::addr_of_mut!(MARK), v = in(reg) v, options(nomem, nostack, preserves_flags));
    }
}
/// a few instructions in which nothing touches memory
#[inline(always)]
fn idle() {
    unsafe { std::arch::asm!("nop", "nop", "nop", "nop", "nop", options(nomem, nostack, preserves_flags)) }
}
const POLLS: u32 = 60;
macro_rules! poll_fn {
    ($name:ident, $m:ty, |$h:ident, $i:ident| $read:expr) => {
        #[inline(never)]
        fn $name($h: &MemorySlice<$m>, $i: usize, want: f32) -> u32 {
            let mut n = 0;
            while n < POLLS {
                n += 1;
                mark_free(n + 3);
                idle();
                if $read == want {
                    break;
                }
            }
            n
        }
    };
}
poll_fn!(poll_get, Mutable, |h, i| h.get(i).unwrap_or(0.0));
poll_fn!(poll_get_const, NonMutable, |h, i| h.get(i).unwrap_or(0.0));
poll_fn!(poll_wrapped, NonMutable, |h, i| h.get_wrapped(i as isize));
poll_fn!(poll_raw, Mutable, |h, i| unsafe { h.get_unchecked(i) });
poll_fn!(poll_lerp, NonMutable, |h, i| h.lerp(i as f32).unwrap_or(0.0));
poll_fn!(poll_lerp_wrapped, Mutable, |h, i| h.lerp_wrapped(i as f32));
poll_fn!(poll_four, Mutable, |h, i| h.get_slice_of_four_wrapped(i as isize)[0]);
#[inline(never)]
fn poll_line(l: &DelayLine, want: f32, how: u64) -> u32 {
    let mut n = 0;
    while n < POLLS {
        n += 1;
        mark_free(n + 3);
        idle();
        let v = match how {
            0 => l.read(),
            1 => l.read_wrapped_at(0),
            _ => l.read_lerp_wrapped_at(0.0),
        };
        if v == want {
            break;
        }
    }
    n
}
macro_rules! twice_fn {
    ($name:ident, $m:ty, |$h:ident, $i:ident| $read:expr) => {
        #[inline(never)]
        fn $name($h: &MemorySlice<$m>, $i: usize) -> (f32, f32) {
            let a = $read;
            idle();
            mark_free(1);
            idle();
            let b = $read;
            (a, b)
        }
    };
}
twice_fn!(twice_get, Mutable, |h, i| h.get(i).unwrap_or(0.0));
twice_fn!(twice_wrapped, NonMutable, |h, i| h.get_wrapped(i as isize));
twice_fn!(twice_raw, Mutable, |h, i| unsafe { h.get_unchecked(i) });
twice_fn!(twice_lerp, NonMutable, |h, i| h.lerp_wrapped(i as f32));
twice_fn!(twice_checked_lerp, Mutable, |h, i| h.lerp(i as f32).unwrap_or(0.0));
twice_fn!(twice_four, NonMutable, |h, i| h.get_slice_of_four_wrapped(i as isize)[0]);
#[inline(never)]
fn twice_line(l: &DelayLine, how: u64) -> (f32, f32) {
    let rd = |l: &DelayLine| match how {
        0 => l.read(),
        1 => l.read_wrapped_at(0),
        _ => l.read_lerp_wrapped_at(0.0),
    };
    let a = rd(l);
    idle();
    mark_free(1);
    idle();
    let b = rd(l);
    (a, b)
}
#[inline(never)]
fn comb_twice(c: &mut Comb, a: f32, b: f32) -> (f32, f32) {
    (c.tick(a), c.tick(b))
}
#[inline(never)]
fn all_pass_twice(c: &mut AllPass, a: f32, b: f32) -> (f32, f32) {
    (c.tick(a), c.tick(b))
}
// store sequences on their own, so that the optimiser sees nothing but the stores
#[inline(never)]
fn seq_assign(h: &mut MemorySlice<Mutable>, i: usize, j: usize, v: [f32; 3]) {
    let _ = h.assign(i, v[0]);
    let _ = h.assign(i, v[1]);
    let _ = h.assign(j, v[2]);
    let _ = h.assign(i, v[0]);
}
#[inline(never)]
fn seq_raw(h: &mut MemorySlice<Mutable>, i: usize, j: usize, v: [f32; 3]) {
    unsafe {
        h.assign_unchecked(i, v[0]);
        h.assign_unchecked(i, v[1]);
        h.assign_unchecked(j, v[2]);
        h.assign_unchecked(i, v[0]);
    }
}
#[inline(never)]
fn seq_copies(h: &MemorySlice<Mutable>, i: usize, j: usize, v: [f32; 3]) {
    let (mut a, mut b) = (*h, *h);
    let _ = a.assign(i, v[0]);
    let _ = b.assign(i, v[1]);
    let _ = a.assign(j, v[2]);
    let _ = b.assign(i, v[0]);
}
#[inline(never)]
fn line_twice(line: &mut DelayLine, a: f32, b: f32) {
    line.write_and_advance(a);
    line.write_and_advance(b);
}
fn marked() -> u32 {
    unsafe { std::ptr::addr_of!(MARK).read_volatile() }
}

/// Unique small integers: interpolating between them is exact enough to tell every mixture apart.
fn val(c: &mut u64) -> f32 {
    *c += 1;
    let v = (*c % 8_000_000) as f32;
    if *c & 1 == 1 { -v } else { v }
}

struct Hist {
    /// (instruction number, bits); entry 0 is the value before the operation
    v: Vec<(u64, u32)>,
}

struct Ctx {
    base: *mut u32,
    off: usize,
    n: usize,
    shadow: Vec<u32>,
    hist: Vec<Hist>,
    stores: Vec<(usize, u32)>,
    first_store: u64,
    mark_at: [u64; 4],
    fired_mark: u32,
    fired: bool,
    err: Option<(&'static str, String)>,
}
impl Ctx {
    fn cell(&self, c: usize) -> u32 {
        unsafe { self.base.add(self.off + c).read_volatile() }
    }
    /// what did the main context change since the last boundary
    fn scan(&mut self, now: u64) {
        for c in 0..self.n {
            let v = self.cell(c);
            if v != self.shadow[c] {
                self.shadow[c] = v;
                self.hist[c].v.push((now, v));
                self.stores.push((c, v));
                if self.first_store == 0 {
                    self.first_store = now;
                }
            }
        }
        let m = marked() as usize;
        if m > 0 && m < 4 && self.mark_at[m] == 0 {
            self.mark_at[m] = now;
        }
    }
    fn fail(&mut self, class: &'static str, d: String) {
        if self.err.is_none() {
            self.err = Some((class, d));
        }
    }
}

/// candidate values of a cell: those it held at some moment in [from, to]
fn cands(h: &Hist, from: u64, to: u64) -> Vec<f32> {
    let mut o: Vec<f32> = vec![];
    for (i, &(at, b)) in h.v.iter().enumerate() {
        let until = h.v.get(i + 1).map(|x| x.0).unwrap_or(u64::MAX);
        let dead = until < from || (until == from && from > 0 && i + 1 < h.v.len());
        if at <= to && !dead {
            o.push(f32::from_bits(b));
        }
    }
    o
}
fn explain(sets: &[Vec<f32>], f: &dyn Fn(&[f64]) -> f64, got: f64, tol: f64) -> bool {
    let mut ix = vec![0usize; sets.len()];
    loop {
        let v: Vec<f64> = ix.iter().zip(sets).map(|(i, s)| s[*i] as f64).collect();
        let scale = v.iter().fold(1.0f64, |m, x| m.max(x.abs()));
        if (f(&v) - got).abs() <= tol * scale || (f(&v) == got) {
            return true;
        }
        let mut k = 0;
        loop {
            if k == ix.len() {
                return false;
            }
            ix[k] += 1;
            if ix[k] < sets[k].len() {
                break;
            }
            ix[k] = 0;
            k += 1;
        }
    }
}
fn lagrange(v: &[f64], x: f64) -> f64 {
    let mut y = 0.0;
    for i in 0..v.len() {
        let mut t = v[i];
        for j in 0..v.len() {
            if i != j {
                t *= (x - j as f64) / (i as f64 - j as f64);
            }
        }
        y += t;
    }
    y
}

struct Isr<'a> {
    st: &'a Step,
    done: bool,
}

impl Prop for C02 {
    fn id(&self) -> &'static str {
        "C02"
    }
    fn ops(&self) -> &'static [&'static str] {
        &OPS
    }
    fn runs(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 40_000 } else { 2_400_000 }
    }
    fn gen(&self, r: &mut Rng, _t: Tier) -> Scen {
        let n = r.pick(&[1, 2, 3, 4, 5, 7, 9, 12]);
        // cfg[7]: preemption points are machine instructions (0) or memory accesses (1)
        let wm = r.chance(0.3);
        let mo = r.below(n) as f64;
        let ml = (r.below(n - mo as u64) + 1) as f64;
        let io = r.below(n) as f64;
        let il = (r.below(n - io as u64) + 1) as f64;
        // mostly fully shared
        let (mo, ml) = if r.chance(0.6) { (0.0, n as f64) } else { (mo, ml) };
        let (io, il) = if r.chance(0.7) { (0.0, n as f64) } else { (io, il) };
        let cfg = vec![n as f64, mo, ml, io, il, r.below(1000) as f64, r.below(n) as f64, wm as u64 as f64];
        let mut steps = vec![];
        let nmain = r.range(1, 8);
        for t in 0..nmain {
            let op = r.below(NMAIN as u64) as u8;
            let a = [
                r.range(-3, n as i64 + 3) as f64,
                match r.below(3) {
                    0 => r.range(-2, n as i64 + 2) as f64,
                    _ => r.f32v(-1.5 * n as f64, 2.5 * n as f64),
                },
                r.below(if op == POLL || op == TWICE { 10 } else { 4 }) as f64,
                r.below(6) as f64,
            ];
            steps.push(Step { t: t as u64, task: AUDIO, op, a });
            for _ in 0..r.pick(&[0, 1, 1, 1, 1, 2, 2, 3]) {
                let k = match r.below(8) {
                    _ if wm => match r.below(4) {
                        0 => 0,
                        1 => r.range(1, 24),
                        _ => r.range(1, 5),
                    },
                    0 | 1 => r.range(1, 40),
                    2 | 3 => r.range(1, 120),
                    4 => r.range(1, 500),
                    5 => 0,
                    _ => -r.range(1, 6),
                };
                let op = r.pick(&[I_ASSIGN, I_ASSIGN, I_HIT, I_HIT, I_HIT, I_GET, I_LERP, I_DTICK]);
                steps.push(Step { t: t as u64, task: ISR, op, a: [r.range(-1, n as i64) as f64, r.f32v(-8.0, 16.0), k as f64, 0.0] });
            }
        }
        Scen { cfg, steps }
    }

    fn run(&self, s: &Scen, st: &mut Stats) -> Result<(), Viol> {
        let c = |i: usize| s.cfg.get(i).copied().unwrap_or(0.0).abs() as usize;
        let n = c(0).clamp(1, 16);
        let mo = c(1).min(n - 1);
        let ml = c(2).clamp(1, n - mo);
        let io = c(3).min(n - 1);
        let il = c(4).clamp(1, n - io);
        let watched = c(7) == 1;
        let mut ar = if watched { Arena::watched() } else { Arena::new(256) };
        let off = if watched { ar.alloc_at_page(n, c(5) & 1 == 0) } else { ar.alloc(n, 20) };
        let (base, back) = (ar.base(), ar.back());
        let mut ctr = c(5) as u64 * 1000;
        // where stores are recorded and not told by value, equal, zero and tiny values take part
        let val = |c: &mut u64| {
            let v = val(c);
            match *c % 8 {
                0 if watched => [0.0, 1e-25, 0.25, 0.0][(*c / 8 % 4) as usize],
                _ => v,
            }
        };
        for i in 0..n {
            ar.set(off + i, val(&mut ctr));
        }
        let mk = |o: usize, l: usize| {
            let mut h = null_mut();
            unsafe { h.change_mut_slice_unchecked(base.add(off + o), l) };
            h
        };
        // the other context's way to the same memory (its accesses are not recorded)
        let mkb = |o: usize, l: usize| {
            let mut h = null_mut();
            unsafe { h.change_mut_slice_unchecked(back.add(off + o), l) };
            h
        };
        let mkc = |o: usize, l: usize| {
            let mut h = null();
            unsafe { h.change_slice_unchecked(base.add(off + o), l) };
            h
        };
        let mut h = mk(mo, ml);
        let hc = mkc(mo, ml);
        let mut line = DelayLine::new(mk(mo, ml));
        let mut head = 0usize;
        let mut comb = Comb::new(mk(mo, ml));
        let mut chead = 0usize;
        let mut ap = AllPass::new(mk(mo, ml));
        let mut ahead = 0usize;
        comb.set_feedback(0.5);
        comb.set_dampening(0.5);
        let mut cstate = 0.0f64;
        let mut ih = mkb(io, il);
        let ihc = {
            let mut h = null();
            unsafe { h.change_slice_unchecked(back.add(off + io), il) };
            h
        };
        let mut iline = DelayLine::new(mkb(io, il));
        let mut ihead = 0usize;
        for _ in 0..c(6) % ml {
            line.advance();
            head = (head + 1) % ml;
        }

        let mut si = 0;
        while si < s.steps.len() {
            let stp = &s.steps[si];
            let here = si;
            si += 1;
            if stp.op >= NMAIN {
                continue;
            }
            let mut isrs: Vec<Isr> = vec![];
            while si < s.steps.len() && s.steps[si].op >= NMAIN {
                if isrs.len() < 3 {
                    isrs.push(Isr { st: &s.steps[si], done: false });
                }
                si += 1;
            }
            let ia = stp.a[0].clamp(-1e6, 1e6) as isize;
            let fa = stp.a[1].clamp(-1e3, 1e3) as f32;
            let variant = stp.a[2].abs() as u64;
            let wsel = stp.a[3].abs() as usize;
            let wrap = |i: isize| mo + i.rem_euclid(ml as isize) as usize;
            let inb = ia >= 0 && (ia as usize) < ml;
            let (v1, v2, v3) = (val(&mut ctr), val(&mut ctr), val(&mut ctr));
            // ISR values are drawn before the run so that they do not depend on when it fires
            let ivals: Vec<f32> = isrs.iter().map(|_| val(&mut ctr)).collect();
            st.inc(OPSTAT[stp.op as usize]);

            let mut cx = Ctx {
                base: back as *mut u32,
                off,
                n,
                shadow: vec![],
                hist: vec![],
                stores: Vec::with_capacity(64),
                first_store: 0,
                mark_at: [0; 4],
                fired_mark: u32::MAX,
                fired: false,
                err: None,
            };
            for i in 0..n {
                let v = cx.cell(i);
                cx.shadow.push(v);
                let mut hv = Vec::with_capacity(32);
                hv.push((0, v));
                cx.hist.push(Hist { v: hv });
            }
            let two = variant & 1 == 1;
            // the cell the main operation is about (for "hit" interrupts)
            let via_line = (stp.op == POLL || stp.op == TWICE) && variant % 10 >= 7;
            let target = match stp.op {
                _ if via_line => mo + head,
                ASSIGN | GET | SEQ | POLL | TWICE | RDBACK | VIACOPY | RAW => {
                    if stp.op == ASSIGN || stp.op == GET { if inb { mo + ia as usize } else { mo } } else { wrap(ia) }
                }
                MAILBOX => mo,
                DWRITE | DREAD | DSEQ => mo + head,
                DTAP => wrap(head as isize + ia),
                DLERP => wrap(head as isize + fa.floor() as isize),
                LERP => mo + (fa.clamp(0.0, (ml - 1) as f32) as usize),
                COMB => mo + chead,
                APASS => mo + ahead,
                WRAP | FOUR => wrap(ia),
                _ => wrap(fa.floor() as isize),
            };
            // in a polling or mailbox run the first hit stores the awaited value
            let await_v = v1;
            mark(0);
            let mut fire = |cx: &mut Ctx, k: usize, now: u64| {
                let e = &mut isrs[k];
                e.done = true;
                cx.fired = true;
                let (mut op, mut i) = (e.st.op, e.st.a[0].clamp(-1e6, 1e6) as isize);
                let mut v = ivals[k];
                if op == I_HIT {
                    if target < io || target >= io + il {
                        return;
                    }
                    op = I_ASSIGN;
                    i = (target - io) as isize;
                    if stp.op == POLL && k == 0 {
                        v = await_v;
                    }
                    if stp.op == MAILBOX && ml > 1 && mo + 1 < io + il && mo + 1 >= io {
                        // producer: data first, then the flag
                        if ih.assign(mo + 1 - io, v3).is_err() {
                            cx.fail("isr-assign", "in-range assignment failed".into());
                        }
                        let b = v3.to_bits();
                        cx.shadow[mo + 1] = b;
                        cx.hist[mo + 1].v.push((now, b));
                        v = await_v;
                    }
                }
                match op {
                    I_ASSIGN => {
                        let ok = ih.assign(i as usize, v).is_ok();
                        if ok != (i >= 0 && (i as usize) < il) {
                            cx.fail("isr-assign", format!("assign({i}) on {il} elements: ok={ok}"));
                        }
                        if ok {
                            let cc = io + i as usize;
                            cx.shadow[cc] = v.to_bits();
                            cx.hist[cc].v.push((now, v.to_bits()));
                        }
                    }
                    I_GET => {
                        for (got, w) in [(ih.get_wrapped(i), "get_wrapped"), (ihc.get_wrapped(i), "const get_wrapped")] {
                            let want = cx.shadow[io + i.rem_euclid(il as isize) as usize];
                            if got.to_bits() != want {
                                cx.fail("isr-read-stale", format!("{w}({i}) gave {got} not {}", f32::from_bits(want)));
                            }
                        }
                    }
                    I_LERP => {
                        let x = e.st.a[1].clamp(-1e3, 1e3) as f32;
                        let got = ih.lerp_wrapped(x);
                        let f = x.floor();
                        let a = f32::from_bits(cx.shadow[io + (f as isize).rem_euclid(il as isize) as usize]) as f64;
                        let b = f32::from_bits(cx.shadow[io + (f as isize + 1).rem_euclid(il as isize) as usize]) as f64;
                        let want = a + (b - a) * (x as f64 - f as f64);
                        if (got as f64 - want).abs() > 1e-5 * (1.0 + a.abs().max(b.abs())) {
                            cx.fail("isr-read-stale", format!("lerp_wrapped({x}) gave {got} not {want}"));
                        }
                    }
                    _ => {
                        let got = iline.read();
                        let cc = io + ihead;
                        if got.to_bits() != cx.shadow[cc] {
                            cx.fail("isr-read-stale", format!("line read gave {got} not {}", f32::from_bits(cx.shadow[cc])));
                        }
                        iline.write_and_advance(v);
                        ihead = (ihead + 1) % il;
                        cx.shadow[cc] = v.to_bits();
                        cx.hist[cc].v.push((now, v.to_bits()));
                    }
                }
                // only what the interrupt stored may have changed
                for q in 0..cx.n {
                    if cx.cell(q) != cx.shadow[q] {
                        let d = format!("cell {q} holds {} instead of {}", f32::from_bits(cx.cell(q)), f32::from_bits(cx.shadow[q]));
                        cx.fail("isr-store-wrong", d);
                        cx.shadow[q] = cx.cell(q);
                    }
                }
                cx.fired_mark = marked();
            };

            let mut out = [0.0f32; 8];
            let mut okflag = true;
            let mut exact: Vec<(usize, u32)> = vec![];
            let mut outside: Option<i64> = None;
            let total;
            {
                let mut hook = |now: u64| {
                    cx.scan(now);
                    let mut k = 0;
                    while k < isr_len(&s.steps, here) && k < 3 {
                        let e = &s.steps[here + 1 + k];
                        let kk = e.a[2] as i64;
                        let due = if kk > 0 {
                            now >= kk as u64
                        } else if kk == 0 {
                            marked() >= 1
                        } else {
                            cx.first_store > 0 && now as i64 >= cx.first_store as i64 - kk - 1
                        };
                        if due && !done_mask(&cx, k) {
                            set_done(&mut cx, k);
                            fire(&mut cx, k, now);
                        }
                        k += 1;
                    }
                };
                let ia = black_box(ia);
                let fa = black_box(fa);
                let op = stp.op;
                let mut f = || match op {
                    ASSIGN => okflag = h.assign(ia as usize, v1).is_ok(),
                    GET => match if variant & 1 == 0 { h.get(ia as usize) } else { hc.get(ia as usize) } {
                        Ok(v) => out[0] = v,
                        Err(_) => okflag = false,
                    },
                    WRAP => out[0] = if variant & 1 == 0 { h.get_wrapped(ia) } else { hc.get_wrapped(ia) },
                    FOUR => out[..4].copy_from_slice(&if variant & 1 == 0 { h.get_slice_of_four_wrapped(ia) } else { hc.get_slice_of_four_wrapped(ia) }),
                    LERP => match h.lerp(fa) {
                        Ok(v) => out[0] = v,
                        Err(_) => okflag = false,
                    },
                    WLERP => out[0] = if variant & 1 == 0 { h.lerp_wrapped(fa) } else { hc.lerp_wrapped(fa) },
                    LAGR => out[0] = h.lagrange_wrapped(fa, 2 * (1 + wsel % 4)),
                    LAG4 => out[0] = h.lagrange_four_points_wrapped(fa),
                    DWRITE => line.write_and_advance(v1),
                    DREAD => out[0] = line.read(),
                    DTAP => out[0] = line.read_wrapped_at(ia),
                    DLERP => out[0] = line.read_lerp_wrapped_at(fa),
                    SEQ => {
                        let i = ia.rem_euclid(ml as isize) as usize;
                        let j = (i + 1) % ml;
                        match variant % 3 {
                            0 => seq_assign(&mut h, i, j, [v1, v2, v3]),
                            1 => seq_raw(&mut h, i, j, [v1, v2, v3]),
                            _ => seq_copies(&h, i, j, [v1, v2, v3]),
                        }
                    }
                    POLL => {
                        let i = ia.rem_euclid(ml as isize) as usize;
                        let n = match variant % 10 {
                            0 => poll_get(&h, i, v1),
                            1 => poll_get_const(&hc, i, v1),
                            2 => poll_wrapped(&hc, i, v1),
                            3 => poll_raw(&h, i, v1),
                            4 => poll_lerp(&hc, i, v1),
                            5 => poll_lerp_wrapped(&h, i, v1),
                            6 => poll_four(&h, i, v1),
                            k => poll_line(&line, v1, k - 7),
                        };
                        out[0] = n as f32;
                        out[1] = if n < POLLS { 1.0 } else { 0.0 };
                    }
                    TWICE => {
                        let i = ia.rem_euclid(ml as isize) as usize;
                        (out[0], out[1]) = match variant % 10 {
                            0 => twice_get(&h, i),
                            1 => twice_wrapped(&hc, i),
                            2 => twice_raw(&h, i),
                            3 => twice_lerp(&hc, i),
                            4 => twice_checked_lerp(&h, i),
                            5 | 6 => twice_four(&hc, i),
                            k => twice_line(&line, k - 7),
                        };
                    }
                    MAILBOX => {
                        // consumer: flag first, then the data
                        out[0] = hc.get_wrapped(0);
                        mark(1);
                        out[1] = hc.get_wrapped(1);
                    }
                    RDBACK => {
                        let i = ia.rem_euclid(ml as isize) as usize;
                        let _ = h.assign(i, v1);
                        mark(1);
                        out[0] = h.get(i).unwrap_or(0.0);
                    }
                    VIACOPY => {
                        let i = ia.rem_euclid(ml as isize) as usize;
                        let mut c2 = h;
                        if variant & 1 == 1 && i < ml {
                            if let Ok(mut sub) = h.get_sub_slice(i, 1.min(ml - i)) {
                                let _ = sub.assign(0, v1);
                            } else {
                                let _ = c2.assign(i, v1);
                            }
                        } else {
                            let _ = c2.assign(i, v1);
                        }
                        mark(1);
                        out[0] = h.get_wrapped(ia);
                    }
                    COMB if two => (out[0], out[1]) = comb_twice(&mut comb, v1, v2),
                    APASS if two => (out[0], out[1]) = all_pass_twice(&mut ap, v1, v2),
                    COMB => out[0] = comb.tick(v1),
                    APASS => out[0] = ap.tick(v1),
                    RAW => {
                        let i = ia.rem_euclid(ml as isize) as usize;
                        unsafe {
                            out[0] = h.get_unchecked(i);
                            mark(1);
                            h.assign_unchecked(i, v1);
                            mark(2);
                            out[1] = h.get_wrapped_unchecked(ia);
                        }
                    }
                    _ => {
                        line_twice(&mut line, v1, v2);
                    }
                };
                let (cnt, over);
                if watched {
                    let (log, ov) = crate::watch::watched(2000, &mut hook, &mut f);
                    cnt = 2 * log.len() as u64;
                    over = ov;
                    for a in log {
                        let rel = a.at as i64 - 4 * (off + mo) as i64;
                        if rel < 0 || rel >= 4 * ml as i64 {
                            outside = Some(rel);
                        }
                        if a.write {
                            exact.push((a.cell().wrapping_sub(off), a.after));
                            if !a.aligned() || a.spill {
                                outside = Some(rel);
                            }
                        }
                    }
                } else {
                    (cnt, over) = stepped(40_000, &mut hook, &mut f);
                }
                total = cnt;
                if over {
                    return viol("operation-does-not-end", here, format!("{} still running after {cnt} instructions", OPS[stp.op as usize]));
                }
            }
            st.add(if watched { "watched_accesses" } else { "instructions_stepped" }, if watched { total / 2 } else { total });
            let fired_during = cx.fired;
            cx.scan(total + 1);
            let end = total + 1;
            if let Some(b) = outside {
                return viol("access-not-to-one-element", here, format!("{} accessed byte {b} of a handle of length {ml} in a way that is not one load or store of one of its elements", OPS[stp.op as usize]));
            }
            if watched {
                cx.stores = exact;
            }
            // late interrupts: after the operation
            for k in 0..isr_len(&s.steps, here).min(3) {
                if !done_mask(&cx, k) {
                    set_done(&mut cx, k);
                    st.inc("fault.preempt-after-operation");
                    let stores = cx.stores.len();
                    fire(&mut cx, k, end + 1);
                    debug_assert!(stores == cx.stores.len());
                } else {
                    st.inc(if watched { "fault.preempt-at-memory-access" } else { "fault.preempt-inside-operation" });
                }
            }
            if let Some((cl, d)) = cx.err.take() {
                return viol(cl, here, format!("while preempting {}: {d}", OPS[stp.op as usize]));
            }

            // ---- stores in program order, each exactly once
            let name = OPS[stp.op as usize];
            let wi = if via_line { target } else { wrap(ia) };
            let wj = mo + (ia.rem_euclid(ml as isize) as usize + 1) % ml;
            let b = |v: f32| Some(v.to_bits());
            let exp: Vec<(usize, Option<u32>)> = match stp.op {
                ASSIGN => {
                    if okflag != inb {
                        return viol("assign-verdict", here, format!("assign({ia}) on {ml} elements: ok={okflag}"));
                    }
                    if inb { vec![(mo + ia as usize, b(v1))] } else { vec![] }
                }
                DWRITE => vec![(mo + head, b(v1))],
                SEQ => vec![(wi, b(v1)), (wi, b(v2)), (wj, b(v3)), (wi, b(v1))],
                RDBACK | VIACOPY | RAW => vec![(wi, b(v1))],
                COMB if two => vec![(mo + chead, None), (mo + (chead + 1) % ml, None)],
                APASS if two => vec![(mo + ahead, None), (mo + (ahead + 1) % ml, None)],
                COMB => vec![(mo + chead, None)],
                APASS => vec![(mo + ahead, None)],
                DSEQ => vec![(mo + head, b(v1)), (mo + (head + 1) % ml, b(v2))],
                _ => vec![],
            };
            let same = if stp.op == SEQ && ml == 1 {
                // one cell: v1 v2 v3 v1
                cx.stores.len() == 4
            } else {
                cx.stores.len() == exp.len()
            } && cx.stores.iter().zip(&exp).all(|(g, e)| g.0 == e.0 && e.1.map(|x| x == g.1).unwrap_or(true));
            if !same {
                let f = |v: &[(usize, Option<u32>)]| v.iter().map(|(c, b)| format!("[{c}]={}", b.map(f32::from_bits).map(|x| x.to_string()).unwrap_or("?".into()))).collect::<Vec<_>>().join(" ");
                let got: Vec<(usize, Option<u32>)> = cx.stores.iter().map(|x| (x.0, Some(x.1))).collect();
                return viol("stores-differ", here, format!("{name}: memory saw {{{}}}, program order is {{{}}}", f(&got), f(&exp)));
            }

            // ---- reads are explained by values the cells held
            let all = |cells: &[usize]| -> Vec<Vec<f32>> { cells.iter().map(|&q| cands(&cx.hist[q], 0, end)).collect() };
            let check = |cells: Vec<usize>, f: &dyn Fn(&[f64]) -> f64, got: f32, tol: f64| -> Result<(), Viol> {
                let sets = all(&cells);
                if !explain(&sets, f, got as f64, tol) {
                    return viol("read-not-explained", here, format!("{name}: gave {got}, but cells {cells:?} held {sets:?}"));
                }
                Ok(())
            };
            let id = |v: &[f64]| v[0];
            match stp.op {
                GET => {
                    if okflag != inb {
                        return viol("get-verdict", here, format!("get({ia}) on {ml} elements: ok={okflag}"));
                    }
                    if inb {
                        check(vec![mo + ia as usize], &id, out[0], 0.0)?;
                    }
                }
                WRAP => check(vec![wi], &id, out[0], 0.0)?,
                FOUR => {
                    for k in 0..4 {
                        check(vec![wrap(ia + k)], &id, out[k as usize], 0.0)?;
                    }
                }
                LERP => {
                    if okflag {
                        let f = fa.floor();
                        let (p, q) = (f as isize, (f as isize + 1).min(ml as isize - 1));
                        let x = fa as f64 - f as f64;
                        check(vec![mo + p as usize, mo + q as usize], &|v| v[0] + (v[1] - v[0]) * x, out[0], 1e-6)?;
                    }
                }
                WLERP | DLERP => {
                    // the head of a line is added to whole samples
                    let f = fa.floor() as isize + if stp.op == WLERP { 0 } else { head as isize };
                    let x = fa as f64 - fa.floor() as f64;
                    if ml == 1 {
                        // both neighbours are the same element, read twice
                        let set = all(&[mo])[0].clone();
                        if !explain(&[set.clone(), set.clone()], &|v| v[0] + (v[1] - v[0]) * x, out[0] as f64, 1e-6) {
                            return viol("read-not-explained", here, format!("{name}: gave {}, the element held {set:?}", out[0]));
                        }
                    } else {
                        check(vec![wrap(f), wrap(f + 1)], &|v| v[0] + (v[1] - v[0]) * x, out[0], 1e-6)?;
                    }
                }
                LAGR => {
                    let w = 2 * (1 + wsel % 4) as isize;
                    let f = fa.floor();
                    let x = (w / 2 - 1) as f64 + fa as f64 - f as f64;
                    let cells: Vec<usize> = (0..w).map(|k| wrap(f as isize - w / 2 + 1 + k)).collect();
                    check(cells, &|v| lagrange(v, x), out[0], 2e-5)?;
                }
                LAG4 => {
                    let f = fa.floor();
                    let cells: Vec<usize> = (0..4).map(|k| wrap(f as isize + k)).collect();
                    check(cells, &|v| lagrange(v, fa as f64 - f as f64), out[0], 2e-5)?;
                }
                DREAD => check(vec![mo + head], &id, out[0], 0.0)?,
                DTAP => check(vec![wrap(head as isize + ia)], &id, out[0], 0.0)?,
                POLL => {
                    st.inc("probe.poll");
                    let fm = cx.fired_mark;
                    let hit = cx.hist[wi].v.last().map(|x| f32::from_bits(x.1)) == Some(v1) && fired_during;
                    if hit && fm >= 4 {
                        let at = fm - 3;
                        st.inc("probe.poll-store-arrived");
                        if at < 58 && out[0] as u32 > at + 2 {
                            return viol("poll-misses-store", here, format!("store made during read {at} of the polling loop, loop left after read {}", out[0]));
                        }
                    }
                    if out[1] == 1.0 && !cx.hist[wi].v.iter().any(|x| x.1 == v1.to_bits()) {
                        return viol("poll-invented-value", here, format!("polling saw {v1}, which nobody stored"));
                    }
                }
                TWICE | MAILBOX => {
                    let m = cx.mark_at[1];
                    let (ca, cb) = if stp.op == TWICE { (wi, wi) } else { (mo, wrap(1)) };
                    let s1 = cands(&cx.hist[ca], 0, m.max(1));
                    let s2 = cands(&cx.hist[cb], m, end);
                    if m == 0 {
                        return viol("marker-lost", here, "harness: marker not seen".into());
                    }
                    if !s1.contains(&out[0]) {
                        return viol("read-not-explained", here, format!("{name}: first read gave {}, cell held {s1:?}", out[0]));
                    }
                    if !s2.contains(&out[1]) {
                        return viol("read-stale", here, format!("{name}: second read gave {}, from then on the cell held {s2:?}", out[1]));
                    }
                    if s1.len() + s2.len() > 2 {
                        st.inc("probe.raced-read");
                    }
                }
                RDBACK | VIACOPY => {
                    let s2 = cands(&cx.hist[wi], cx.mark_at[1], end);
                    if !s2.contains(&out[0]) {
                        return viol("read-stale", here, format!("{name}: read after the store gave {}, the cell held {s2:?}", out[0]));
                    }
                }
                RAW => {
                    let s1 = cands(&cx.hist[wi], 0, cx.mark_at[1].max(1));
                    let s2 = cands(&cx.hist[wi], cx.mark_at[2], end);
                    if !s1.contains(&out[0]) {
                        return viol("read-not-explained", here, format!("{name}: read gave {}, the cell held {s1:?}", out[0]));
                    }
                    if !s2.contains(&out[1]) {
                        return viol("read-stale", here, format!("{name}: read after the store gave {}, the cell held {s2:?}", out[1]));
                    }
                }
                COMB => {
                    for k in 0..1 + two as usize {
                        let x = if k == 0 { v1 } else { v2 } as f64;
                        check(vec![mo + (chead + k) % ml], &id, out[k], 0.0)?;
                        let y = out[k] as f64;
                        cstate = y * 0.5 + cstate * 0.5;
                        let want = x + cstate * 0.5;
                        let got = f32::from_bits(cx.stores[k].1) as f64;
                        if (got - want).abs() > 1e-5 * (1.0 + x.abs() + y.abs() + cstate.abs()) {
                            return viol("stores-differ", here, format!("{name}: stored {got}, expected {want}"));
                        }
                    }
                }
                APASS => {
                    for k in 0..1 + two as usize {
                        let x = if k == 0 { v1 } else { v2 } as f64;
                        let cell = mo + (ahead + k) % ml;
                        // one and the same sample explains output and stored value
                        let got = f32::from_bits(cx.stores[k].1);
                        let set = all(&[cell])[0].clone();
                        let ok = set.iter().any(|&v| {
                            let (v, tol) = (v as f64, 1e-6 * (v.abs() as f64).max(x.abs()).max(1.0));
                            (v - x - out[k] as f64).abs() <= tol && (x + v * 0.5 - got as f64).abs() <= tol
                        });
                        if !ok {
                            return viol("read-not-explained", here, format!("{name}: input {x} gave {} and stored {got}, but cell {cell} held {set:?}", out[k]));
                        }
                    }
                }
                _ => {}
            }
            match stp.op {
                DWRITE => head = (head + 1) % ml,
                DSEQ => head = (head + 2) % ml,
                COMB => chead = (chead + 1 + two as usize) % ml,
                APASS => ahead = (ahead + 1 + two as usize) % ml,
                _ => {}
            }
            for i in 0..n {
                st.log(cx.shadow[i] as u64);
            }
            for v in out {
                st.logf(v);
            }
            if let Some(g) = ar.check_near_guards() {
                return viol("write-outside", here, format!("guard cell {g}"));
            }
            st.nontrivial |= fired_during;
            for k in 0..isr_len(&s.steps, here).min(3) {
                let e = &s.steps[here + 1 + k];
                st.state(stp.op as u64 | (e.op as u64) << 8 | ((e.a[2] as i64 + 16).clamp(0, 600) as u64) << 16 | variant << 32);
            }
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "a case is one schedule of up to 8 handle / delay-line operations of the main context, each executed one machine instruction (or, in 30% of the cases, one recorded memory access) at a time with up to three interrupts (other handles on the same memory) placed at chosen instructions or accesses; non-trivial when an interrupt fired inside an operation; distinct by full event log; states are (operation, interrupt operation, instruction, variant)"
    }
    fn real(&self) -> &'static str {
        "MemorySlice<Mutable>, MemorySlice<NonMutable>, DelayLine, Comb, AllPass in both contexts (compiled optimised)"
    }
    fn stub(&self) -> &'static str {
        "memory, the interrupt controller (x86 trap flag, or page faults on every memory access; the simulator decides where the handler runs)"
    }
}

fn isr_len(steps: &[Step], main: usize) -> usize {
    steps[main + 1..].iter().take_while(|s| s.op >= NMAIN).count()
}
// which interrupts have fired: bits in mark_at[0]
fn done_mask(cx: &Ctx, k: usize) -> bool {
    cx.mark_at[0] >> k & 1 == 1
}
fn set_done(cx: &mut Ctx, k: usize) {
    cx.mark_at[0] |= 1 << k;
}
const OPSTAT: [&str; 22] = [
    "op.assign", "op.get", "op.get-wrapped", "op.get-four-wrapped", "op.lerp", "op.lerp-wrapped", "op.lagrange-wrapped", "op.lagrange-four",
    "op.line-write", "op.line-read", "op.line-tap", "op.line-lerp-tap", "op.store-sequence", "op.poll", "op.read-twice", "op.mailbox",
    "op.store-then-read", "op.via-copy", "op.comb-tick", "op.all-pass-tick", "op.unchecked", "op.line-write-twice",
];
