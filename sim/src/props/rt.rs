//! C20: every operation finishes within a bounded number of machine instructions.
use super::delay::handle;
use super::reentry::{make, pure_fn, step, KIND, M, NKIND, NOPS, NPURE, PURE};
use crate::core::*;
use crate::rng::{mix, Rng};
use crate::stepper::measured;
use embedded_audio_tools::filter::{Biquad, BiquadCoeffs, Butterworth};
use embedded_audio_tools::memory_access::*;
use embedded_audio_tools::oscillator::*;
use embedded_audio_tools::{AllPass, Comb, DelayLine};
use std::hint::black_box;

pub struct C20;
const MEASURE: u8 = 0; // one operation with any arguments, counted
const ISR: u8 = 1; // operation of the interrupt that preempts the counted one before it, counted too
const LIFE: u8 = 2; // many ordinary operations at full speed
const BUFFER: u8 = 3; // another buffer
const FILL: u8 = 4; // contents
const SCAN: u8 = 5; // ordinary operations, each one counted
const OPS: [&str; 6] = ["counted-operation", "isr-operation", "long-life", "change-buffer", "fill", "counted-ticks"];

/// No operation of the crate comes near this on the unchanged tree (the worst is about a fifteenth), and no
/// loop over a buffer, a history or an argument's magnitude stays below it.
const BOUND: u64 = 10_000;
const PER_POINT2: u64 = 60; // windowed interpolation: per pair of points

const NW: [u64; NKIND] = [8, 6, 3, 14, 12, 8, 8, 8, 13, PURE as u64];
const HUGE: u64 = 100_000;

pub fn wild(r: &mut Rng) -> f64 {
    match r.below(14) {
        0 => 0.0,
        1 => -0.0,
        2 => r.pick(&[1.0, -1.0, 0.5, 2.0, -2.0]),
        3 => f64::NAN,
        4 => r.pick(&[f64::INFINITY, f64::NEG_INFINITY]),
        5 => r.pick(&[f32::MAX as f64, f32::MIN as f64, f32::MIN_POSITIVE as f64, 1e-40]),
        6 => r.pick(&[16_777_216.0, 2147483648.0, -2147483648.0, 4294967296.0, 9.3e18, -9.3e18]),
        7 | 8 => {
            let m = r.logrange(1e-30, 1e30) as f32 as f64;
            if r.chance(0.5) { m } else { -m }
        }
        9 => (r.logrange(1.0, 3e9) as f32 as f64) * if r.chance(0.5) { 1.0 } else { -1.0 },
        10 => r.f32v(-100_000.0, 100_000.0),
        11 => r.f32v(0.0, 1.0),
        12 => r.f32v(0.0, 20_000.0),
        _ => r.f32v(-2.0, 2.0),
    }
}

/// One public operation with arguments of any kind; returns what has to be kept alive and the bound.
fn any(m: &mut M, op: u64, x: f32, y: f32, other: MemorySlice<Mutable>, sink: &mut u64) {
    let b = |v: f32| v.to_bits() as u64;
    let i = x as isize;
    *sink ^= match m {
        M::D(d) => match op {
            0 => b(d.read()),
            1 => {
                d.write_and_advance(x);
                0
            }
            2 => b(d.read_wrapped_at(i)),
            3 => b(d.read_lerp_wrapped_at(x)),
            4 => b(d.read_lagrange_wrapped_at(x)),
            5 => {
                d.advance();
                d.len() as u64
            }
            6 => {
                d.change_buffer(other);
                0
            }
            _ => {
                let mut n = DelayLine::new(other);
                n.get_ptr_slice_mut().len() as u64 ^ b(n.read())
            }
        },
        M::C(c) => match op {
            0 | 1 => b(c.tick(x)),
            2 => {
                c.set_feedback(x);
                0
            }
            3 => {
                c.set_dampening(x);
                0
            }
            4 => {
                c.change_buffer(other);
                0
            }
            _ => b(Comb::new(other).tick(y)),
        },
        M::A(a) => match op {
            0 => b(a.tick(x)),
            1 => {
                a.change_buffer(other);
                0
            }
            _ => b(AllPass::new(other).tick(y)),
        },
        M::B(q) => {
            let (fc, qq, g, sr) = (x, y, x * y, if op % 2 == 0 { 48_000.0 } else { y });
            let c = &mut q.coeffs;
            match op {
                0 => c.lowpass(fc, qq, sr),
                1 => c.highpass(fc, qq, 48_000.0),
                2 => c.allpass(fc, qq, sr),
                3 => c.notch(fc, qq, sr),
                4 => c.bell(fc, qq, g, sr),
                5 => c.low_shelf(fc, qq, g, sr),
                6 => c.bell_boost_only(fc, qq, g, sr),
                7 => c.bell_cut_only(fc, qq, g, sr),
                8 => c.low_shelf_boost_only(fc, qq, g, sr),
                9 => c.low_shelf_cut_only(fc, qq, g, sr),
                10 => c.lowpass(1000.0, 0.7, y),
                11 => *q = Biquad::new(BiquadCoeffs::<Butterworth>::new()),
                _ => *sink ^= b(q.process(x)),
            }
            0
        }
        M::E(e) => {
            match op {
                0 | 1 => *sink ^= b(e.tick()),
                2 => e.trigger_on(),
                3 => e.trigger_off(),
                4 => e.reset(),
                5 => e.set_attack(x),
                6 => e.set_decay(x),
                7 => e.set_sustain(x),
                8 => e.set_release(x),
                9 => e.set_slope(x),
                10 => e.set_sr(rate(x)),
                _ => *e = embedded_audio_tools::envelopes::AudioRateADSR::new(x, y, x * y, y, x, rate(y)),
            }
            e.get_state() as u64
        }
        M::F(o) => {
            match op {
                0 | 1 => *sink ^= b(o.next()),
                2 => o.set_freq_unchecked(x),
                3 => o.set_phase_shift_unchecked(x),
                4 => o.set_sr_unchecked(x),
                5 => o.set_wave(Waveform::Sine),
                6 => o.set_wave(Waveform::Triangle),
                _ => *o = FunctionalOscillator::new(<SoftPhaseAccumulator as PhaseAccumulator>::new(x, y)),
            }
            0
        }
        M::W(o) => {
            match op {
                0..=2 => *sink ^= b(o.next()),
                3 => o.set_freq_unchecked(x),
                4 => o.set_phase_shift_unchecked(x),
                5 => o.set_sr_unchecked(x),
                _ => *o = WavetableOscillator::new(as_const(&other), <SoftPhaseAccumulator as PhaseAccumulator>::new(x, y)),
            }
            0
        }
        M::S(a) => match op {
            0 => a.next_value() as u64,
            1 => b(a.next_value_normalized()),
            2 => {
                a.set_freq_unchecked(x);
                0
            }
            3 => {
                a.set_phase_shift(x as u32);
                0
            }
            4 => {
                a.set_sr_unchecked(x);
                0
            }
            5 => a.set_freq(x).is_ok() as u64,
            _ => {
                *a = <SoftPhaseAccumulator as PhaseAccumulator>::new(x, y);
                0
            }
        },
        M::H(h) => match op {
            0 => h.get(x as usize).map(b).unwrap_or(1),
            1 => h.assign(x as usize, y).is_ok() as u64,
            2 => b(h.get_wrapped(i)),
            3 => b(h.get_slice_of_four_wrapped(i)[1]),
            4 => h.lerp(x).map(b).unwrap_or(1),
            5 => b(h.lerp_wrapped(x)),
            6 => b(h.lagrange_four_points_wrapped(x)),
            7 => h.get_sub_slice(x as usize, y as usize).map(|s| s.len() as u64).unwrap_or(9),
            8 => {
                *h = other;
                h.as_slice_mut().len() as u64
            }
            9 => b(h.lagrange_wrapped(x, y as usize)),
            _ => b(h.lagrange_wrapped(x, 2 + 2 * (y.abs() as usize % 8))),
        },
        M::P => pure_fn(op % NPURE, if x.abs() <= 1.0 { x } else { 0.5 }, if (0.0..1.0).contains(&y) { y } else { 0.25 }),
    };
}
fn as_const(h: &MemorySlice<Mutable>) -> MemorySlice<NonMutable> {
    let mut c = null();
    let s = h.as_slice();
    unsafe { c.change_slice_unchecked(s as *const f32, h.len()) };
    c
}
/// an envelope's sample rate: anything from 1 Hz on
fn rate(x: f32) -> f32 {
    if x.is_finite() { x.abs().clamp(1.0, 1e7) } else { 48_000.0 }
}
fn bound(m: &M, op: u64, y: f32) -> u64 {
    match (m, op) {
        (M::H(_), 9) => {
            let w = (y as u64).clamp(2, 100);
            BOUND + PER_POINT2 * w * w
        }
        // the sine integral sums a fixed, large number of points
        (M::P, _) if op % NPURE == 1 => 1_000_000,
        _ => BOUND,
    }
}

impl Prop for C20 {
    fn id(&self) -> &'static str {
        "C20"
    }
    fn ops(&self) -> &'static [&'static str] {
        &OPS
    }
    fn runs(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 7_000 } else { 400_000 }
    }
    fn gen(&self, r: &mut Rng, _t: Tier) -> Scen {
        let n = r.range(1, 3) as usize;
        let big = r.chance(0.25);
        let len = |r: &mut Rng| match r.below(if big { 9 } else { 6 }) {
            0 => r.below(3),
            1 | 2 => r.below(40),
            3 | 4 => r.pick(&[31, 32, 33, 64, 100, 1000, 1024, 1025]),
            5 => r.below(5000),
            _ => HUGE - r.below(3),
        } as f64;
        let mut cfg = vec![n as f64, r.below(1 << 20) as f64, len(r), len(r), len(r)];
        let mut kinds = vec![];
        let same = r.chance(0.3); // instances of one kind share whatever that kind shares
        for i in 0..3 {
            let k = if same && i > 0 { kinds[0] } else { r.below(NKIND as u64) };
            kinds.push(k);
            cfg.push(k as f64);
        }
        let mut steps = vec![];
        for t in 0..r.range(2, 24) as u64 {
            let m = r.idx(n);
            let k = kinds[m] as usize;
            let mut push = |task: u8, op: u8, a: [f64; 4]| steps.push(Step { t, task, op, a });
            if k < 3 && r.chance(0.15) {
                // bring the head near the end of the buffer, then count the ticks across it
                let i = r.below(3);
                let l = cfg[2 + i as usize];
                push(MEMMAN, BUFFER, [m as f64, i as f64, 1.0, 0.0]);
                push(AUDIO, LIFE, [m as f64, 0.0, (l - r.below(8) as f64).max(0.0), r.unit()]);
                if r.chance(0.2) {
                    push(MEMMAN, BUFFER, [m as f64, r.below(3) as f64, 0.0, 0.0]);
                }
                push(AUDIO, SCAN, [m as f64, 0.0, 10.0, r.unit()]);
                continue;
            }
            match r.weighted(&[12, 3, 1, 1, 4]) {
                0 => {
                    let mut op = r.below(NW[k]);
                    if k == PURE && op == 1 && r.chance(0.95) {
                        op = 0; // the sine integral is slow to count
                    }
                    // wide windows are slow to count
                    let y = if k == 8 && op == 9 {
                        if r.chance(0.1) { wild(r) } else { r.below(24) as f64 }
                    } else {
                        wild(r)
                    };
                    push(AUDIO, MEASURE, [m as f64, op as f64, wild(r), y]);
                    if r.chance(if same { 0.6 } else { 0.3 }) {
                        let m2 = if k == PURE && r.chance(0.5) { m } else { r.idx(n) };
                        if m2 != m || k == PURE {
                            let k2 = kinds[m2] as usize;
                            let top = NW[k2] + if k2 == 8 { 2 } else { 0 }; // windows of every width
                            let mut op2 = if k2 == k && r.chance(0.5) { op } else { r.below(top) };
                            if k2 == PURE && op2 == 1 {
                                op2 = 0; // the sine integral again
                            }
                            push(crate::core::ISR, ISR, [m2 as f64, op2 as f64, r.below(1 << 16) as f64, wild(r)]);
                        }
                    }
                }
                1 => {
                    let cnt = if r.chance(0.05) { r.below(200_000) } else if r.chance(0.3) { r.below(5_000) } else { r.below(200) };
                    let op = if r.chance(0.7) { 0 } else { r.below(NOPS[k]) };
                    push(AUDIO, LIFE, [m as f64, op as f64, cnt as f64, r.unit()]);
                }
                2 => push(MEMMAN, BUFFER, [m as f64, r.below(3) as f64, 0.0, 0.0]),
                3 => push(FAULT, FILL, [r.below(3) as f64, r.below(1 << 16) as f64, wild(r), r.below(300) as f64]),
                _ => {
                    let op = if r.chance(0.6) { 0 } else { r.below(NOPS[k]) };
                    let op = if k == PURE && op == 1 { 0 } else { op };
                    push(AUDIO, SCAN, [m as f64, op as f64, r.range(1, 12) as f64, r.unit()]);
                }
            }
        }
        Scen { cfg, steps }
    }
    fn run(&self, s: &Scen, st: &mut Stats) -> Result<(), Viol> {
        let n = s.cfg[0] as usize;
        let seed = s.cfg[1] as u64;
        let lens: Vec<usize> = (0..3).map(|i| s.cfg[2 + i] as usize).collect();
        let kinds: Vec<usize> = (0..3).map(|i| s.cfg[5 + i] as usize).collect();
        let mut ar = Arena::new(lens.iter().sum::<usize>() + 400);
        let offs: Vec<usize> = (0..3).map(|i| ar.alloc(lens[i], 7)).collect();
        for i in 0..3 {
            for k in 0..lens[i] {
                let h = mix(seed.wrapping_add((i as u64) << 40 | k as u64));
                ar.set(offs[i] + k, (h >> 40) as f32 / (1u64 << 23) as f32 - 1.0);
            }
        }
        let hs: Vec<MemorySlice<Mutable>> = (0..3).map(|i| handle(&mut ar, (offs[i], lens[i]))).collect();
        let mut cur: Vec<usize> = (0..3).collect();
        let mut ms: Vec<M> = (0..n).map(|i| make(kinds[i], seed + i as u64, hs[i], as_const(&hs[i]))).collect();
        let mut sink = 0u64;
        let mut si = 0;
        while si < s.steps.len() {
            let p = &s.steps[si];
            let here = si;
            si += 1;
            let m = p.a[0] as usize;
            match p.op {
                MEASURE | SCAN => {
                    let (op, x, y) = (p.a[1] as u64, p.a[2] as f32, p.a[3] as f32);
                    let isr = s.steps.get(si).filter(|q| q.op == ISR && p.op == MEASURE).copied();
                    if isr.is_some() {
                        si += 1;
                    }
                    let isr = isr.filter(|q| (q.a[0] as usize) < n && q.a[0] as usize != m);
                    if m >= n {
                        continue;
                    }
                    let other = hs[(cur[m] + 1) % 3];
                    let times = if p.op == SCAN { p.a[2] as u64 } else { 1 };
                    let lim = if p.op == SCAN && kinds[m] != PURE { BOUND } else { bound(&ms[m], op, y) };
                    for j in 0..times {
                        let at = isr.map(|q| 1 + mix(seed ^ q.a[2] as u64) % 220);
                        let base: *mut M = ms.as_mut_ptr();
                        let mut panicked = false;
                        let mut isr_panicked = false;
                        let mut hit = false;
                        let mut sink2 = 0u64;
                        let (cnt, fin) = {
                            let mut hook = |now: u64| {
                                if Some(now) == at {
                                    let q = isr.unwrap();
                                    let m2 = unsafe { &mut *base.add(q.a[0] as usize) };
                                    hit = true;
                                    isr_panicked = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| any(m2, q.a[1] as u64, q.a[3] as f32, 0.5, other, &mut sink2))).is_err();
                                }
                            };
                            let mut f = || {
                                let m = unsafe { &mut *base.add(m) };
                                panicked = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                                    let (op, x, y) = black_box((op, x, y));
                                    if p.op == SCAN {
                                        let v = unit(seed ^ p.a[3].to_bits() ^ j);
                                        sink ^= step(m, op, v.0, v.1);
                                    } else {
                                        any(m, op, x, y, other, &mut sink)
                                    }
                                }))
                                .is_err();
                            };
                            measured(lim, &mut hook, &mut f)
                        };
                        st.add("instructions_stepped", cnt);
                        st.inc("op.counted");
                        if x.is_nan() || x.is_infinite() || x.abs() > 1e9 {
                            st.inc("fault.extreme-argument");
                        }
                        if hit {
                            st.inc("fault.preempted-while-counted");
                        }
                        if lens[cur[m]] > 100_000 {
                            st.inc("rare.huge-buffer");
                        }
                        st.state(kinds[m] as u64 | op << 4 | (p.op as u64) << 12 | (cnt / 16) << 16);
                        st.log(kinds[m] as u64 | op << 4);
                        if panicked || isr_panicked {
                            let e = crate::runner::panic_msg().take().unwrap_or_default();
                            return viol("never-returns", here, format!("{} operation {op} with ({x:e}, {y:e}) panicked: {e}", KIND[kinds[m]]));
                        }
                        if !fin {
                            return viol(
                                "unbounded-time",
                                here,
                                format!("{} on {} cells: operation {op}{} with ({x:e}, {y:e}) still runs after {lim} instructions", KIND[kinds[m]], lens[cur[m]], if p.op == SCAN { " (ordinary)" } else { "" }),
                            );
                        }
                        st.nontrivial = true;
                        MAXI.with(|mx| {
                            let mut mx = mx.borrow_mut();
                            let e = mx.entry((kinds[m], op, p.op)).or_insert(0);
                            if cnt > *e {
                                *e = cnt;
                                if std::env::var("EAT_MAX").is_ok() {
                                    eprintln!("{} {op} {} {cnt} ({x:e}, {y:e})", KIND[kinds[m]], p.op);
                                }
                            }
                        });
                        if kinds[m] == 8 && p.op == MEASURE && op == 8 {
                            cur[m] = (cur[m] + 1) % 3;
                        }
                    }
                    if p.op == MEASURE {
                        match (&ms[m], op) {
                            (M::D(_), 6) | (M::C(_), 4) | (M::A(_), 1) => cur[m] = (cur[m] + 1) % 3,
                            _ => {}
                        }
                    }
                }
                LIFE => {
                    if m >= n {
                        continue;
                    }
                    for j in 0..p.a[2] as u64 {
                        let v = unit(seed ^ p.a[3].to_bits() ^ j);
                        sink ^= step(&mut ms[m], p.a[1] as u64, v.0, v.1);
                    }
                    st.time(p.a[2] as u64, 48_000.0);
                    st.inc("op.long-life");
                }
                BUFFER => {
                    if m >= n {
                        continue;
                    }
                    let i = p.a[1] as usize % 3;
                    cur[m] = i;
                    if p.a[2] == 1.0 {
                        // a new instance, its head at the start
                        ms[m] = make(kinds[m], seed + m as u64, hs[i], as_const(&hs[i]));
                    }
                    match &mut ms[m] {
                        M::D(d) => d.change_buffer(hs[i]),
                        M::C(d) => d.change_buffer(hs[i]),
                        M::A(d) => d.change_buffer(hs[i]),
                        M::H(d) => *d = hs[i],
                        _ => {}
                    }
                    st.inc("fault.buffer-replaced");
                }
                _ => {
                    let i = p.a[0] as usize % 3;
                    for k in 0..(p.a[3] as usize).min(lens[i]) {
                        ar.set(offs[i] + (p.a[1] as usize + k) % lens[i], p.a[2] as f32);
                    }
                    st.inc("fault.memory-scribbled");
                }
            }
        }
        black_box(sink);
        
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "a case is one history of up to 24 steps on up to 3 instances of any kind; every counted operation runs one machine instruction at a time, with arguments of any size including NaN and infinities, on buffers of 0 to 100000 cells, after up to 200000 full-speed operations, and some are preempted by another one; non-trivial when an operation was counted; states are (kind, operation, instructions / 16)"
    }
    fn real(&self) -> &'static str {
        "every public operation of DelayLine, Comb, AllPass, Biquad, BiquadCoeffs, AudioRateADSR, FunctionalOscillator, WavetableOscillator, SoftPhaseAccumulator and MemorySlice; the stateless functions with ordinary arguments"
    }
    fn stub(&self) -> &'static str {
        "memory, the interrupt controller; time is counted in machine instructions of the x86-64 build"
    }
}
thread_local! {
    static MAXI: std::cell::RefCell<std::collections::BTreeMap<(usize, u64, u8), u64>> = Default::default();
}
fn unit(h: u64) -> (f32, f32) {
    let a = mix(h);
    ((a >> 40) as f32 / (1u64 << 23) as f32 - 1.0, ((a & 0xff_ffff) as f32 / (1u64 << 24) as f32).min(0.999))
}
