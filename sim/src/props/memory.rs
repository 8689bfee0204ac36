//! C18 handle graph, C01 containment of every component.
use super::delay::{handle, same, special, uniq};
use crate::core::*;
use crate::rng::Rng;
use embedded_audio_tools::errors::MemSliceError;
use embedded_audio_tools::memory_access::*;
use embedded_audio_tools::oscillator::*;
use embedded_audio_tools::{AllPass, Comb, DelayLine};

// ------------------------------------------------------------------ C18
pub struct C18;
const GET: u8 = 0;
const SETV: u8 = 1;
const WRAP: u8 = 2;
const FOUR: u8 = 3;
const LERP: u8 = 4;
const SUB: u8 = 5;
const COPY: u8 = 6;
const REPOINT: u8 = 7;
const NULL: u8 = 8;
const POKE: u8 = 9;
const SHAPE: u8 = 10;
const WRAPLERP: u8 = 11;

const H_OPS: [&str; 13] = ["get", "assign", "get-wrapped", "get-four-wrapped", "lerp", "sub-slice", "copy", "re-point", "null", "poke", "shape", "lerp-wrapped", "unchecked"];

#[derive(Clone, Copy)]
enum Hd {
    M(MemorySlice<Mutable>),
    N(MemorySlice<NonMutable>),
}
macro_rules! both {
    ($h:expr, $x:ident => $e:expr) => {
        match $h {
            Hd::M($x) => $e,
            Hd::N($x) => $e,
        }
    };
}
#[derive(Clone, Copy)]
struct HM {
    h: Hd,
    off: usize,
    len: usize,
}
/// special index encodings: awkward values that do not fit a small literal
fn decode(kind: f64, v: f64, len: usize) -> i128 {
    let l = len as i128;
    let v = v as i128;
    match kind as u64 {
        0 => v,
        1 => l + v,
        2 => usize::MAX as i128 - v.abs(),
        3 => isize::MAX as i128 + v,
        4 => isize::MIN as i128 + v,
        5 => (1i128 << 32) + v,
        6 => l * v,
        7 => -(1i128 << 32) + v,
        8 => l * 1_000_003 + v,
        _ => (1i128 << 63) / l.max(1) * l.max(1) + v,
    }
}
fn gen_idx(r: &mut Rng, len: u64, signed: bool) -> (f64, f64) {
    let k = r.weighted(&[10, 8, 1, 1, if signed { 2 } else { 0 }, 1, if signed { 2 } else { 0 }, if signed { 1 } else { 0 }, 1, 1]) as f64;
    let v = match k as u64 {
        0 => if signed { r.range(-(2 * len as i64) - 4, 2 * len as i64 + 4) } else { r.below(len + 3) as i64 },
        1 => r.range(-3, 3),
        6 => r.range(-1000, 1000),
        _ => r.range(-5, 5),
    };
    (k, v as f64)
}

impl Prop for C18 {
    fn id(&self) -> &'static str {
        "C18"
    }
    fn ops(&self) -> &'static [&'static str] {
        &H_OPS
    }
    fn runs(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 4_500_000 } else { 60_000_000 }
    }
    fn gen(&self, r: &mut Rng, _t: Tier) -> Scen {
        let big = r.chance(0.0004);
        let n = match r.below(5) {
            _ if big => r.pick(&[32_769, 65_535, 65_536, 65_537, 69_999]),
            0 => r.range(1, 6) as u64,
            1 => 1 << r.range(0, 8),
            _ => r.range(4, 120) as u64,
        };
        let w: Vec<u32> = (0..13).map(|i| if r.chance(0.2) { 0 } else { [5, 6, 5, 4, 4, 6, 2, 2, 1, 2, 1, 2, 2][i] }).collect();
        let w = if w.iter().sum::<u32>() == 0 { vec![1; 13] } else { w };
        let k = if big { 10 } else { r.range(5, 60) };
        let mut steps = vec![];
        for i in 0..k {
            let op = r.weighted(&w) as u8;
            let h = r.below(12) as f64;
            let a = match op {
                GET | SETV => {
                    let (k, v) = gen_idx(r, n, false);
                    [h, k, v, 0.0]
                }
                WRAP | FOUR => {
                    let (k, v) = gen_idx(r, n, true);
                    [h, k, v, 0.0]
                }
                LERP | WRAPLERP => {
                    let x = match r.below(8) {
                        0 => r.below(n + 2) as f64,
                        1 => n as f64 - 1.0 + r.pick(&[0.0, 1e-6, -1e-6, 0.5, -0.5, 1.0]),
                        2 => r.pick(&[-0.0, 0.0, -1e-9, -1.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 1e30, 4294967296.0]),
                        _ => r.frange(-0.5, n as f64 + 1.0),
                    };
                    // position relative to the handle's own length when a[2] is 1
                    [h, x as f32 as f64, r.below(2) as f64, 0.0]
                }
                SUB => {
                    // [handle, offset kind/value packed, length kind, length value]
                    let ok = r.weighted(&[6, 4, 1, 1]) as f64;
                    let ov = if ok == 0.0 { r.below(n) as f64 } else { r.range(-3, 2) as f64 };
                    let lk = r.weighted(&[5, 8, 1, 1]) as f64;
                    let lv = if lk == 0.0 { r.below(n + 1) as f64 } else { r.range(-3, 2) as f64 };
                    [h, ok * 65536.0 + ov + 1024.0, lk, lv]
                }
                REPOINT => [h, r.below(n) as f64, if r.chance(0.12) { 0.0 } else { r.below(n) as f64 + 1.0 }, 0.0],
                POKE => [h, r.below(n) as f64, 0.0, 0.0],
                _ => [h, r.below(64) as f64, 0.0, 0.0],
            };
            let task = match op {
                POKE => FAULT,
                SUB | COPY | REPOINT | NULL => MEMMAN,
                _ => [AUDIO, UI, PROBE][(h as usize) % 3],
            };
            steps.push(Step { t: i as u64, task, op, a });
        }
        // cfg[2]: bit 0 order of the first two handles, bit 1 every memory access recorded
        let w = (r.chance(0.02) && !big) as u64;
        Scen { cfg: vec![n as f64, r.below(1 << 20) as f64, (r.below(2) + 2 * w) as f64], steps }
    }
    fn run(&self, s: &Scen, st: &mut Stats) -> Result<(), Viol> {
        let n = (s.cfg[0] as usize).clamp(1, 70_000);
        let mut ctr = s.cfg[1] as u64 * 64;
        let watched = s.cfg[2] as u64 & 2 != 0;
        let mut ar = if watched { Arena::watched() } else { Arena::new(n + 300) };
        let base = if watched { ar.alloc_at_page(n, s.cfg[1] as u64 & 1 == 0) } else { ar.alloc(n, 64) };
        let mut m: Vec<f32> = vec![];
        for i in 0..n {
            ctr += 1;
            m.push(special(ctr, uniq(ctr)));
            ar.set(base + i, m[i]);
        }
        let p0 = unsafe { ar.base().add(base) };
        let all: &mut [f32] = unsafe { std::slice::from_raw_parts_mut(p0, n) };
        let mut hs: Vec<HM> = vec![HM { h: Hd::M(from_slice_mut(all)), off: 0, len: n }, HM { h: Hd::N(from_slice(all)), off: 0, len: n }];
        if s.cfg[2] as u64 & 1 != 0 {
            hs.swap(0, 1);
        }
        for (si, stp) in s.steps.iter().enumerate() {
            let hi = stp.a[0] as usize % hs.len();
            let HM { h, off, len } = hs[hi];
            let li = len as i128;
            let kind = both!(h, _x => 0) + matches!(h, Hd::N(_)) as u64;
            st.inc(match stp.op {
                GET => "op.get",
                SETV => "op.assign",
                WRAP => "op.get-wrapped",
                FOUR => "op.get-four-wrapped",
                LERP => "op.lerp",
                SUB => "op.sub-slice",
                COPY => "op.copy",
                REPOINT => "fault.handle-repointed",
                NULL => "fault.handle-nulled",
                POKE => "fault.memory-scribbled",
                SHAPE => "op.shape",
                WRAPLERP => "op.lerp-wrapped",
                _ => "op.unchecked",
            });
            let mut hit = 0u64;
            let mut target = None;
            if watched {
                crate::watch::begin(4000);
            }
            match stp.op {
                GET => {
                    let i = decode(stp.a[1], stp.a[2], len).clamp(0, usize::MAX as i128) as usize;
                    let g = both!(h, x => x.get(i));
                    if i < len {
                        hit = 1;
                        match g {
                            Ok(v) if same(v, m[off + i]) => st.logf(v),
                            _ => return viol("get-wrong", si, format!("get({i}) of length {len} gave {g:?}, element holds {:e}", m[off + i])),
                        }
                    } else if g != Err(MemSliceError::IndexOutOfBound) {
                        return viol("get-out-of-bounds-accepted", si, format!("get({i}) of length {len} gave {g:?}"));
                    }
                }
                SETV => {
                    if let Hd::M(mut x) = h {
                        let i = decode(stp.a[1], stp.a[2], len).clamp(0, usize::MAX as i128) as usize;
                        ctr += 1;
                        let v = special(ctr, uniq(ctr));
                        let g = x.assign(i, v);
                        if i < len {
                            hit = 1;
                            if g != Ok(()) {
                                return viol("assign-refused", si, format!("assign({i}) of length {len} gave {g:?}"));
                            }
                            m[off + i] = v;
                            target = Some(base + off + i);
                        } else if g != Err(MemSliceError::IndexOutOfBound) {
                            return viol("assign-out-of-bounds-accepted", si, format!("assign({i}) of length {len} gave {g:?}"));
                        }
                    }
                }
                WRAP | FOUR => {
                    let i = decode(stp.a[1], stp.a[2], len).clamp(isize::MIN as i128, isize::MAX as i128) as isize;
                    if len == 0 {
                        let v = if stp.op == WRAP { both!(h, x => x.get_wrapped(i)) } else { both!(h, x => x.get_slice_of_four_wrapped(i)).iter().sum() };
                        if v != 0.0 {
                            return viol("empty-handle-not-silent", si, format!("wrapped read of an empty handle gave {v:e}"));
                        }
                    } else {
                        let at = |k: i128| m[off + (i as i128 + k).rem_euclid(li) as usize];
                        hit = 1 + (i < 0) as u64 + 2 * (i as i128 >= li) as u64;
                        if stp.op == WRAP {
                            let v = both!(h, x => x.get_wrapped(i));
                            st.logf(v);
                            if !same(v, at(0)) {
                                return viol("wrapped-wrong-element", si, format!("get_wrapped({i}) of length {len} gave {v:e}, expected {:e}", at(0)));
                            }
                            if li * 2 > i.unsigned_abs() as i128 {
                                let v = both!(h, x => unsafe { x.get_wrapped_unchecked(i) });
                                if !same(v, at(0)) {
                                    return viol("wrapped-wrong-element", si, format!("get_wrapped_unchecked({i}) of length {len} gave {v:e}"));
                                }
                            }
                        } else {
                            let v = both!(h, x => x.get_slice_of_four_wrapped(i));
                            for k in 0..4 {
                                st.logf(v[k]);
                                if !same(v[k], at(k as i128)) {
                                    return viol("four-wrong-element", si, format!("get_slice_of_four_wrapped({i})[{k}] of length {len} gave {:e}, expected {:e}", v[k], at(k as i128)));
                                }
                            }
                        }
                    }
                }
                LERP => {
                    let mut x = stp.a[1] as f32;
                    if stp.a[2] != 0.0 && x.is_finite() {
                        x = x - n as f32 + len as f32;
                    }
                    let g = both!(h, y => y.lerp(x));
                    let inside = x >= 0.0 && x as f64 <= len as f64 - 1.0;
                    if !inside {
                        if g != Err(MemSliceError::IndexOutOfBound) {
                            return viol("lerp-outside-accepted", si, format!("lerp({x}) of length {len} gave {g:?}"));
                        }
                    } else {
                        hit = 1;
                        let f = x.floor() as usize;
                        let (a, b) = (m[off + f] as f64, m[off + (f + 1).min(len - 1)] as f64);
                        let t = x as f64 - f as f64;
                        let w = a * (1.0 - t) + b * t;
                        match g {
                            // nothing can be said about a blend with a value that is no number
                            Ok(_) if !(a.abs() + b.abs() < 1e38) => hit = 2,
                            Ok(v) if (v as f64 - w).abs() <= 3e-7 * (a.abs() + b.abs()) + 1e-40 => st.logf(v),
                            _ => return viol("lerp-wrong", si, format!("lerp({x}) of length {len} gave {g:?}, expected {w:e}")),
                        }
                    }
                }
                WRAPLERP => {
                    let mut x = stp.a[1] as f32;
                    if stp.a[2] != 0.0 && x.is_finite() {
                        x = x - n as f32 + len as f32;
                    }
                    if len > 0 && x.abs() < 1e6 {
                        let v = both!(h, y => y.lerp_wrapped(x)) as f64;
                        let f = (x as f64).floor();
                        let at = |k: i128| m[off + (f as i128 + k).rem_euclid(li) as usize] as f64;
                        let t = x as f64 - f;
                        let w = at(0) * (1.0 - t) + at(1) * t;
                        if at(0).abs() + at(1).abs() < 1e38 && !((v - w).abs() <= 3e-7 * (at(0).abs() + at(1).abs()) + 1e-40) {
                            return viol("lerp-wrapped-wrong", si, format!("lerp_wrapped({x}) of length {len} gave {v:e}, expected {w:e}"));
                        }
                        hit = 1 + (x < 0.0) as u64;
                    }
                }
                SUB => {
                    let ok = (stp.a[1] / 65536.0).floor();
                    let ov = stp.a[1] - ok * 65536.0 - 1024.0;
                    let o = decode(ok, ov, len).clamp(0, usize::MAX as i128);
                    let rest = (li - o).max(0);
                    let l = match stp.a[2] as u64 {
                        0 => stp.a[3] as i128,
                        1 => rest + stp.a[3] as i128,
                        2 => usize::MAX as i128 - (stp.a[3] as i128).abs(),
                        _ => usize::MAX as i128 + 1 - o + stp.a[3] as i128,
                    }
                    .clamp(0, usize::MAX as i128);
                    let want = if o >= li {
                        Err(MemSliceError::IndexOutOfBound)
                    } else if o + l > li {
                        Err(MemSliceError::LengthOutOfBound)
                    } else {
                        Ok(())
                    };
                    let got: Result<Hd, MemSliceError> = match h {
                        Hd::M(x) => x.get_sub_slice(o as usize, l as usize).map(Hd::M),
                        Hd::N(x) => x.get_sub_slice(o as usize, l as usize).map(Hd::N),
                    };
                    match (got, want) {
                        (Ok(g), Ok(())) => {
                            hit = 1;
                            st.inc("probe.sub-slice-made");
                            if o + l == li {
                                st.inc("probe.sub-slice-to-the-end");
                            }
                            let nm = HM { h: g, off: off + o as usize, len: l as usize };
                            if both!(g, x => x.len()) != nm.len {
                                return viol("sub-slice-length", si, format!("sub-slice({o},{l}) of length {len} has length {}", both!(g, x => x.len())));
                            }
                            if hs.len() < 12 {
                                hs.push(nm);
                            } else {
                                hs[hi] = nm;
                            }
                        }
                        (Err(a), Err(b)) if a == b => {}
                        (g, w) => {
                            return viol("sub-slice-wrong-verdict", si, format!("sub-slice({o},{l}) of length {len}: {:?}, expected {w:?}", g.map(|_| ())));
                        }
                    }
                }
                COPY => {
                    if hs.len() < 12 {
                        // a copy is a copy, whether by plain copy or by clone()
                        let mut c = hs[hi];
                        if stp.a[1] as u64 % 2 == 1 {
                            #[allow(clippy::clone_on_copy)]
                            match &mut c.h {
                                Hd::M(x) => *x = x.clone(),
                                Hd::N(x) => *x = x.clone(),
                            }
                        }
                        hs.push(c);
                    }
                }
                REPOINT => {
                    let o = stp.a[1] as usize % n;
                    let l = (stp.a[2] as usize).min(n - o);
                    let p = unsafe { p0.add(o) };
                    match &mut hs[hi].h {
                        Hd::M(x) => unsafe {
                            if stp.a[1] as u64 % 2 == 0 {
                                x.change_mut_slice_unchecked(p, l)
                            } else {
                                x.change_slice_unchecked(p, l)
                            }
                        },
                        Hd::N(x) => unsafe { x.change_slice_unchecked(p, l) },
                    }
                    hs[hi].off = o;
                    hs[hi].len = l;
                }
                NULL => {
                    hs[hi] = HM { h: if kind == 0 { Hd::M(null_mut()) } else { Hd::N(null()) }, off: 0, len: 0 };
                }
                POKE => {
                    ctr += 1;
                    let i = stp.a[1] as usize % n;
                    m[i] = special(ctr, uniq(ctr));
                    ar.set(base + i, m[i]);
                }
                SHAPE => {
                    let (l, p) = both!(h, x => (x.len(), x.as_slice()));
                    if l != len || p.len() != len || (len > 0 && p as *const f32 != unsafe { p0.add(off) } as *const f32) {
                        return viol("wrong-shape", si, format!("handle of length {len} at {off} describes {l}/{}", p.len()));
                    }
                    if let Hd::M(mut x) = h {
                        let p = x.as_slice_mut();
                        if p.len() != len || (len > 0 && p as *mut f32 != unsafe { p0.add(off) }) {
                            return viol("wrong-shape", si, "as_slice_mut".into());
                        }
                    }
                }
                _ => {
                    if len > 0 {
                        let i = stp.a[1] as usize % len;
                        let v = both!(h, x => unsafe { x.get_unchecked(i) });
                        if !same(v, m[off + i]) {
                            return viol("unchecked-wrong-element", si, format!("get_unchecked({i}) gave {v:e}"));
                        }
                        if let Hd::M(mut x) = h {
                            ctr += 1;
                            m[off + i] = special(ctr, uniq(ctr));
                            unsafe { x.assign_unchecked(i, m[off + i]) };
                            target = Some(base + off + i);
                        }
                    }
                }
            }
            if watched {
                let (log, _) = crate::watch::end();
                st.add("watched_accesses", log.len() as u64);
                let name = H_OPS[stp.op as usize];
                for a in log {
                    let c = a.cell();
                    if c < base + off || c >= base + off + len {
                        return viol("access-outside-handle", si, format!("{name} on a handle of length {len} accessed element {}", c as i64 - (base + off) as i64));
                    }
                    if a.write && (target != Some(c) || !a.aligned() || a.spill) {
                        return viol("wrong-element-written", si, format!("{name} on a handle of length {len} stored to element {}", c - base - off));
                    }
                }
                if (stp.op == GET || stp.op == SETV) && hit == 0 && !log.is_empty() {
                    return viol("memory-touched-on-failure", si, format!("refused {name} on a handle of length {len} accessed element {}", log[0].cell() - base - off));
                }
            }
            // memory is exactly the model, and every handle sees it
            for i in 0..n {
                if !same(ar.get(base + i), m[i]) {
                    return viol("wrong-element-changed", si, format!("element {i} holds {:e}, expected {:e} after {}", ar.get(base + i), m[i], H_OPS[stp.op as usize]));
                }
            }
            for x in &hs {
                if x.len > 0 {
                    for i in [0, x.len - 1] {
                        if !both!(x.h, y => y.get(i)).is_ok_and(|v| same(v, m[x.off + i])) {
                            return viol("handle-stale", si, format!("handle of length {} sees another value at {i}", x.len));
                        }
                    }
                }
            }
            if let Some(g) = ar.check_near_guards() {
                return viol("write-outside", si, format!("guard cell {g}"));
            }
            let lb = 64 - (len as u64).leading_zeros() as u64;
            st.state(stp.op as u64 | hit << 4 | kind << 8 | lb << 12 | (stp.a[1] as u64 & 15) << 20 | (off > 0) as u64 | 0 << 30);
            st.nontrivial = true;
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "a case is one schedule of reads, writes, sub-slicing, copying, re-pointing and nulling over up to 12 aliasing handles (in 2% of the cases with every load and store recorded); non-trivial when at least one step ran; distinct by full event log"
    }
    fn real(&self) -> &'static str {
        "MemorySlice<Mutable>, MemorySlice<NonMutable>"
    }
    fn stub(&self) -> &'static str {
        "memory, its other writers"
    }
}

// ------------------------------------------------------------------ C01
pub struct C01;
const CREATE: u8 = 0;
const TICK1: u8 = 1;
const TAPS: u8 = 2;
const REBUF: u8 = 3;
const RESTART: u8 = 4;
const SCRIB: u8 = 5;
const ADVANCE: u8 = 6;
const EXTREME: u8 = 7;
const CTRL: u8 = 8;
const DUP: u8 = 9;
const SUBS: u8 = 10;

enum Comp {
    D(DelayLine),
    C(Comb),
    A(AllPass),
    W(WavetableOscillator<SoftPhaseAccumulator>),
    H(MemorySlice<Mutable>),
}
struct Slot {
    c: Comp,
    /// index into regions; None = empty buffer
    reg: Option<usize>,
}
fn mk(kind: u64, ar: &mut Arena, reg: Option<usize>) -> Slot {
    let h = match reg {
        Some(i) => {
            let r = ar.regions[i];
            handle(ar, r)
        }
        None => null_mut(),
    };
    let c = match kind % 5 {
        0 => Comp::D(DelayLine::new(h)),
        1 => Comp::C(Comb::new(h)),
        2 => Comp::A(AllPass::new(h)),
        3 => {
            let mut t = null();
            if let Some(i) = reg {
                unsafe { t.change_slice_unchecked(ar.base().add(ar.regions[i].0), ar.regions[i].1) };
            }
            Comp::W(WavetableOscillator::new(t, <SoftPhaseAccumulator as PhaseAccumulator>::new(1234.5, 48_000.0)))
        }
        _ => Comp::H(h),
    };
    Slot { c, reg }
}

impl Prop for C01 {
    fn id(&self) -> &'static str {
        "C01"
    }
    fn ops(&self) -> &'static [&'static str] {
        &["create", "tick", "taps", "change-buffer", "restart", "scribble", "advance", "extreme-taps", "control", "duplicate", "sub-slices"]
    }
    fn runs(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 300_000 } else { 16_000_000 }
    }
    fn gen(&self, r: &mut Rng, _t: Tier) -> Scen {
        let nreg = r.range(1, 5);
        // 0: poisoned memory; 1, 2: every access recorded, buffers ending / starting at a page boundary
        let mode = if r.chance(0.07) { r.range(1, 2) } else { 0 };
        let mut cfg = vec![(nreg + 8 * mode) as f64, r.below(1 << 20) as f64];
        let huge = if mode > 0 && r.chance(0.05) { r.below(nreg as u64) as i64 } else { -1 };
        for k in 0..nreg {
            if k == huge {
                cfg.push(r.pick(&[4095, 4097, 32769, 65535, 65536, 65537, 70_001]) as f64);
                continue;
            }
            cfg.push(match r.below(8) {
                0 => 1,
                1 => 2,
                2 => r.range(2, 6) as u64,
                7 => r.range(40, 400) as u64,
                _ => r.range(3, 40) as u64,
            } as f64);
        }
        let mut steps = vec![];
        let mut t = 0u64;
        let first = r.range(1, 4);
        let empty_p = r.pick(&[0.0, 0.15, 0.5]);
        for _ in 0..first {
            steps.push(Step { t, task: MEMMAN, op: CREATE, a: [r.below(5) as f64, if r.chance(empty_p) { -1.0 } else { r.below(nreg as u64) as f64 }, 0.0, 0.0] });
        }
        let n = r.range(4, 60);
        for _ in 0..n {
            let op = r.weighted(&[1, 12, 6, 5, 1, 2, 4, 3, 3, 1, 2]) as u8;
            let c = r.below(6) as f64;
            let a = match op {
                CREATE => [r.below(5) as f64, if r.chance(empty_p) { -1.0 } else { r.below(nreg as u64) as f64 }, 0.0, 0.0],
                TICK1 | ADVANCE => [c, (match r.below(4) { 0 => 1, 1 => r.below(8) + 1, _ => r.below(120) + 1 }) as f64, 0.0, 0.0],
                TAPS => [c, r.range(-500, 500) as f64, r.f32v(-300.0, 300.0), r.below(9) as f64],
                EXTREME => [c, r.range(-4, 4) as f64 * r.pick(&[1e3, 4294967296.0, 1e12, 1.1e18, 4e18]), r.pick(&[0.0, -0.0, 1e6, -1e6, 8388608.0, -8388607.5, 1e-38, -1e-38, 3e9, -3e9, 1e20, -1e20, 3.4e38, f64::INFINITY, f64::NEG_INFINITY, f64::NAN]), r.range(0, 130) as f64],
                // offset, length: from the front / from the end / absurd
                SUBS => [c, r.range(-1, 12) as f64, r.range(-3, 40) as f64, r.below(1 << 12) as f64],
                REBUF => [c, if r.chance(empty_p + 0.05) { -1.0 } else { r.below(nreg as u64) as f64 }, 0.0, 0.0],
                CTRL => [c, r.below(3) as f64, r.f32v(0.0, 1.0), 0.0],
                SCRIB => [c, r.below(400) as f64, r.f32v(-1.0, 1.0), 0.0],
                _ => [c, 0.0, 0.0, 0.0],
            };
            let task = match op {
                TICK1 => AUDIO,
                REBUF | CREATE | DUP => MEMMAN,
                SCRIB | RESTART => FAULT,
                CTRL => UI,
                SUBS => MEMMAN,
                ADVANCE => TIMER,
                _ => PROBE,
            };
            steps.push(Step { t, task, op, a });
            if op == TICK1 || op == ADVANCE {
                t += a[1] as u64;
            }
        }
        Scen { cfg, steps }
    }
    fn run(&self, s: &Scen, st: &mut Stats) -> Result<(), Viol> {
        let nreg = (s.cfg[0] as usize % 8).clamp(1, 5);
        let mode = (s.cfg[0] as usize / 8).min(2);
        let seed = s.cfg[1] as u64;
        let mut ar = if mode > 0 { Arena::watched() } else { Arena::new(3000) };
        let mut left = 80_000usize;
        let mut content: Vec<Vec<f32>> = vec![];
        for k in 0..nreg {
            let mut len = (s.cfg.get(2 + k).copied().unwrap_or(1.0) as usize).clamp(1, if mode > 0 { 80_000 } else { 400 });
            if len > 400 {
                len = len.min(left);
                left = 400;
            }
            if mode > 0 {
                let o = ar.alloc_at_page(len, mode == 1);
                for i in 0..len {
                    ar.set(o + i, sig(3, 1.0, seed + k as u64, i as u64));
                }
            } else {
                ar.alloc(len, 30 + k);
            }
            content.push((0..len).map(|i| sig(3, 1.0, seed + k as u64, i as u64)).collect());
        }
        // all of memory is poison except the buffer of the component that is running
        let load = |ar: &mut Arena, k: usize, content: &[Vec<f32>]| {
            let o = ar.regions[k].0;
            for (i, v) in content[k].iter().enumerate() {
                ar.set(o + i, *v);
            }
        };
        let mut sl: Vec<Slot> = vec![];
        let mut idx = 0u64;
        for (si, stp) in s.steps.iter().enumerate() {
            if stp.op == CREATE {
                st.inc("op.create");
                let reg = if stp.a[1] < 0.0 { None } else { Some(stp.a[1] as usize % nreg) };
                if reg.is_none() {
                    st.inc("fault.buffer-not-assigned-yet");
                }
                if sl.len() < 6 {
                    let x = mk(stp.a[0] as u64, &mut ar, reg);
                    sl.push(x);
                }
                continue;
            }
            if sl.is_empty() {
                continue;
            }
            let ci = stp.a[0] as usize % sl.len();
            let reg = sl[ci].reg;
            let what = match sl[ci].c {
                Comp::D(_) => "delay line",
                Comp::C(_) => "comb",
                Comp::A(_) => "all-pass",
                Comp::W(_) => "wavetable",
                Comp::H(_) => "handle",
            };
            let len = reg.map(|k| content[k].len()).unwrap_or(0);
            if let (Some(k), 0) = (reg, mode) {
                load(&mut ar, k, &content);
            }
            if mode > 0 {
                crate::watch::begin(3000);
            }
            let mut bad: Option<(f32, String)> = None;
            // a value that left the component: must be a number, and what an all-zero delay gives if empty
            let mut see = |st: &mut Stats, v: f32, zero: f32, ctx: &str| {
                st.logf(v);
                if bad.is_none() && (v.is_nan() || (len == 0 && v != zero)) {
                    bad = Some((v, ctx.to_string()));
                }
            };
            match stp.op {
                TICK1 => {
                    st.inc("op.tick");
                    let n = (stp.a[1] as u64).min(5000);
                    for _ in 0..n {
                        let x = sig(3, 0.5, seed, idx);
                        idx += 1;
                        match &mut sl[ci].c {
                            Comp::D(d) => {
                                let v = d.read();
                                see(st, v, 0.0, "read");
                                d.write_and_advance(x);
                            }
                            Comp::C(c) => {
                                let v = c.tick(x);
                                see(st, v, 0.0, "tick");
                            }
                            Comp::A(a) => {
                                let v = a.tick(x);
                                see(st, v, -x, "tick");
                            }
                            Comp::W(w) => {
                                let v = w.next();
                                see(st, v, 0.0, "next");
                            }
                            Comp::H(h) => {
                                let r = h.assign((idx % 997) as usize, x);
                                if r.is_ok() != (((idx % 997) as usize) < len) {
                                    see(st, f32::NAN, 0.0, "assign verdict");
                                }
                                if let Ok(v) = h.get((idx % 991) as usize) {
                                    see(st, v, f32::NAN, "get");
                                }
                            }
                        }
                    }
                    st.time(n, 48_000.0);
                }
                ADVANCE => {
                    if let Comp::D(d) = &mut sl[ci].c {
                        st.inc("op.advance");
                        for _ in 0..(stp.a[1] as u64).min(5000) {
                            d.advance();
                        }
                        let v = d.read();
                        see(st, v, 0.0, "read after advance");
                    }
                }
                TAPS | EXTREME => {
                    st.inc(if stp.op == TAPS { "op.taps" } else { "op.extreme-taps" });
                    // saturates at isize::MIN / MAX
                    let k = stp.a[1] as isize;
                    let f = stp.a[2] as f32;
                    // no position can be told from such a number: only the accesses matter
                    let fits = f.abs() < 2e9;
                    let w = stp.a[3] as usize;
                    match &mut sl[ci].c {
                        Comp::D(d) => {
                            let v = d.read_wrapped_at(k);
                            see(st, v, 0.0, "wrapped tap");
                            let v = d.read_lerp_wrapped_at(f);
                            if fits { see(st, v, 0.0, "lerp tap"); }
                            let v = d.read_lagrange_wrapped_at(f);
                            if fits { see(st, v, 0.0, "lagrange tap"); }
                            if d.len() != len {
                                see(st, f32::NAN, 0.0, "len");
                            }
                        }
                        Comp::H(h) => {
                            let v = h.get_wrapped(k);
                            see(st, v, 0.0, "get_wrapped");
                            for v in h.get_slice_of_four_wrapped(k) {
                                see(st, v, 0.0, "get_slice_of_four_wrapped");
                            }
                            let v = h.lerp_wrapped(f);
                            if fits { see(st, v, 0.0, "lerp_wrapped"); }
                            let v = h.lagrange_wrapped(f, w);
                            if fits { see(st, v, 0.0, "lagrange_wrapped"); }
                            let v = h.lagrange_four_points_wrapped(f);
                            if fits { see(st, v, 0.0, "lagrange_four_points_wrapped"); }
                            if let Ok(v) = h.lerp(f) {
                                see(st, v, f32::NAN, "lerp");
                            }
                            if let Ok(v) = h.get(k as usize) {
                                see(st, v, f32::NAN, "get");
                            }
                            let _ = h.get_sub_slice(k.unsigned_abs() % 64, w).map(|mut x| {
                                let n = x.len();
                                if n > 0 {
                                    let v = x.get(n - 1).unwrap_or(f32::NAN);
                                    see(st, v, f32::NAN, "get of sub-slice");
                                    let _ = x.assign(n - 1, 0.25);
                                }
                                see(st, x.get(n).unwrap_or(1.0), if len == 0 { 1.0 } else { f32::NAN }, "end of sub-slice");
                            });
                        }
                        _ => {}
                    }
                }
                SUBS => {
                    st.inc("op.sub-slices");
                    let len0 = match &sl[ci].c {
                        Comp::H(h) => h.len(),
                        _ => 0,
                    };
                    let abs = stp.a[3] as u64;
                    // one argument in several is absurd, the rest lie around both ends of the handle
                    let num = |v: f64, how: u64| -> usize {
                        match how % 16 {
                            0 => usize::MAX,
                            1 => usize::MAX - v.abs() as usize,
                            2 => isize::MAX as usize,
                            3 => (isize::MAX as usize).wrapping_add(1),
                            4 => usize::MAX / 4 + 1 - v.abs() as usize,
                            5 | 6 | 7 => len0.wrapping_add_signed(v as isize - 2),
                            _ => v.abs() as usize,
                        }
                    };
                    let (o, l) = (num(stp.a[1], abs), num(stp.a[2], abs >> 4));
                    let f = (abs >> 8) as f32 * 3.3 - 20.0;
                    if let Comp::H(h) = &mut sl[ci].c {
                        if let Ok(x) = h.get_sub_slice(o, l) {
                            let mut x = x;
                            let n = x.len();
                            for i in [0, 1, n.wrapping_sub(1), n, n.wrapping_add(1), len0, len0 + 1, 4096 + len0, usize::MAX] {
                                if let Ok(v) = x.get(i) {
                                    see(st, v, f32::NAN, "get of sub-slice");
                                    let _ = x.assign(i, 0.125);
                                }
                            }
                            for k in [-1isize, 0, n as isize, len0 as isize, -4099, 5001] {
                                see(st, x.get_wrapped(k), 0.0, "get_wrapped of sub-slice");
                                for v in x.get_slice_of_four_wrapped(k) {
                                    see(st, v, 0.0, "get_slice_of_four_wrapped of sub-slice");
                                }
                            }
                            see(st, x.lerp_wrapped(f), 0.0, "lerp_wrapped of sub-slice");
                            see(st, x.lagrange_four_points_wrapped(f), 0.0, "lagrange_four_points_wrapped of sub-slice");
                            if let Ok(v) = x.lerp(f) {
                                see(st, v, f32::NAN, "lerp of sub-slice");
                            }
                            if let Ok(y) = x.get_sub_slice(n / 2, n - n / 2) {
                                see(st, y.get_wrapped(n as isize), 0.0, "get_wrapped of sub-sub-slice");
                                see(st, y.get(n / 2).unwrap_or(1.0), if len == 0 { 1.0 } else { f32::NAN }, "get of sub-sub-slice");
                            }
                        }
                    }
                }
                REBUF => {
                    let nr = if stp.a[1] < 0.0 { None } else { Some(stp.a[1] as usize % nreg) };
                    let nl = nr.map(|k| content[k].len()).unwrap_or(0);
                    st.inc(if nl == 0 { "fault.buffer-taken-away" } else if nl < len { "fault.buffer-shrunk" } else if nl > len { "fault.buffer-grown" } else { "fault.buffer-replaced" });
                    let h = match nr {
                        Some(k) => {
                            let r = ar.regions[k];
                            handle(&mut ar, r)
                        }
                        None => null_mut(),
                    };
                    match &mut sl[ci].c {
                        Comp::D(d) => d.change_buffer(h),
                        Comp::C(c) => c.change_buffer(h),
                        Comp::A(a) => a.change_buffer(h),
                        Comp::H(x) => *x = h,
                        Comp::W(_) => {
                            let x = mk(3, &mut ar, nr);
                            sl[ci].c = x.c;
                        }
                    }
                    let l2 = match &mut sl[ci].c {
                        Comp::D(d) => d.get_ptr_slice_mut().len(),
                        Comp::C(d) => d.get_ptr_slice_mut().len(),
                        Comp::A(d) => d.get_ptr_slice_mut().len(),
                        Comp::H(d) => d.as_slice_mut().len(),
                        Comp::W(_) => nl,
                    };
                    if l2 != nl {
                        return viol("buffer-not-taken", si, format!("{what} given {nl} elements describes {l2}"));
                    }
                    sl[ci].reg = nr;
                }
                RESTART => {
                    st.inc("fault.restart");
                    let k = match sl[ci].c {
                        Comp::D(_) => 0,
                        Comp::C(_) => 1,
                        Comp::A(_) => 2,
                        Comp::W(_) => 3,
                        Comp::H(_) => 4,
                    };
                    let x = mk(k, &mut ar, reg);
                    sl[ci] = x;
                }
                SCRIB => {
                    if let Some(k) = reg {
                        st.inc("fault.memory-scribbled");
                        let i = stp.a[1] as usize % len;
                        ar.set(ar.regions[k].0 + i, stp.a[2] as f32);
                    }
                }
                CTRL => {
                    st.inc("op.control");
                    match &mut sl[ci].c {
                        Comp::C(c) => {
                            if stp.a[1] == 0.0 { c.set_feedback(stp.a[2] as f32 * 0.95) } else { c.set_dampening(stp.a[2] as f32) }
                        }
                        Comp::W(w) => match stp.a[1] as u64 {
                            0 => w.set_freq_unchecked(stp.a[2] as f32 * 48_000.0),
                            1 => w.set_phase_shift_unchecked(stp.a[2] as f32),
                            _ => w.set_phase_shift_unchecked(1.0),
                        },
                        _ => {}
                    }
                }
                _ => {
                    st.inc("op.duplicate");
                    let c = match &sl[ci].c {
                        Comp::D(d) => Some(Comp::D(*d)),
                        Comp::C(d) => Some(Comp::C(*d)),
                        Comp::A(d) => Some(Comp::A(*d)),
                        Comp::H(d) => Some(Comp::H(*d)),
                        _ => None,
                    };
                    if let (Some(c), true) = (c, sl.len() < 6) {
                        sl.push(Slot { c, reg });
                    }
                }
            }
            if mode > 0 {
                let (log, over) = crate::watch::end();
                // the buffer held while the operation ran
                let (o, l) = reg.map(|k| ar.regions[k]).unwrap_or((0, 0));
                for a in log {
                    if a.at < o * 4 || a.at >= (o + l) * 4 {
                        return viol(
                            if a.write { "write-outside-buffer" } else { "read-outside-buffer" },
                            si,
                            format!("{what} with {len} elements accessed byte {} of its buffer", a.at as i64 - 4 * o as i64),
                        );
                    }
                }
                st.add("watched_accesses", log.len() as u64);
                if over {
                    st.inc("probe.watch-limit-reached");
                }
            }
            if let Some((v, ctx)) = bad {
                return viol(
                    if len == 0 { "empty-buffer-not-silent" } else { "read-outside-buffer" },
                    si,
                    format!("{what} with {len} elements: {ctx} gave {v}"),
                );
            }
            // collect what the component wrote, put the poison back, look for damage anywhere else
            if let (Some(k), 0) = (reg, mode) {
                let o = ar.regions[k].0;
                for i in 0..len {
                    let v = ar.get(o + i);
                    if v.is_nan() {
                        return viol("poison-stored", si, format!("{what} stored a value read outside its buffer"));
                    }
                    content[k][i] = v;
                    ar.set(o + i, f32::from_bits(POISON));
                }
            }
            let g = if mode > 0 {
                ar.check_near_guards()
            } else {
                let save = std::mem::take(&mut ar.regions);
                let g = ar.check_guards();
                ar.regions = save;
                g
            };
            if let Some(g) = g {
                return viol("write-outside-buffer", si, format!("{what} with {len} elements changed memory cell {g} outside it"));
            }
            let lb = 64 - (len as u64).leading_zeros() as u64;
            let k = what.len() as u64;
            st.state(stp.op as u64 | k << 4 | lb << 12 | (sl[ci].reg.map(|k| content[k].len().min(7)).unwrap_or(8) as u64) << 20);
            st.nontrivial = true;
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "a case is one schedule of ticks, taps, control, buffer replacement (longer, shorter, empty), restart and duplication over up to 6 components sharing up to 5 buffers; in 7% of the cases every single load and store is recorded and must lie in the buffer held; non-trivial when a component ran; distinct by full event log"
    }
    fn real(&self) -> &'static str {
        "DelayLine, Comb, AllPass, WavetableOscillator + SoftPhaseAccumulator, MemorySlice"
    }
    fn stub(&self) -> &'static str {
        "memory (everything but the running component's buffer is poisoned NaN), memory manager, other contexts"
    }
}
