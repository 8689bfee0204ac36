//! C03: instances do not influence each other and every operation is re-entrant.
use super::delay::handle;
use crate::core::*;
use crate::rng::{mix, Rng};
use crate::stepper::stepped;
use embedded_audio_tools::convert::*;
use embedded_audio_tools::dynamics::digital_clip;
use embedded_audio_tools::envelopes::*;
use embedded_audio_tools::filter::{Biquad, BiquadCoeffs, Butterworth};
use embedded_audio_tools::fixed_point::math::sin_i16;
use embedded_audio_tools::float::*;
use embedded_audio_tools::memory_access::*;
use embedded_audio_tools::oscillator::*;
use embedded_audio_tools::stereo::*;
use embedded_audio_tools::{AllPass, Comb, DelayLine};
use std::hint::black_box;

pub struct C03;
const DO: u8 = 0; // operation of the main context
const ISR_DO: u8 = 1; // operation of the interrupt that preempts the step before it
const FRESH: u8 = 2; // builds and drops extra instances in between
const OPS: [&str; 3] = ["do", "isr-do", "build-and-drop-others"];

pub const NKIND: usize = 10;
pub const KIND: [&str; NKIND] = [
    "delay line", "comb", "all-pass", "biquad", "envelope", "functional oscillator", "wavetable oscillator", "phase accumulator", "memory handle", "stateless functions",
];
const KSTAT: [&str; NKIND] = [
    "op.delay-line", "op.comb", "op.all-pass", "op.biquad", "op.envelope", "op.functional-oscillator", "op.wavetable-oscillator", "op.phase-accumulator", "op.memory-handle", "op.stateless-function",
];
pub const PURE: usize = 9;
pub const NOPS: [u64; NKIND] = [6, 4, 2, 8, 9, 7, 4, 5, 8, NPURE];
pub const NPURE: u64 = 36;

pub enum M {
    D(DelayLine),
    C(Comb),
    A(AllPass),
    B(Biquad<Butterworth>),
    E(AudioRateADSR),
    F(FunctionalOscillator<SoftPhaseAccumulator>),
    W(WavetableOscillator<SoftPhaseAccumulator>),
    S(SoftPhaseAccumulator),
    H(MemorySlice<Mutable>),
    P,
}
fn acc(f: f32) -> SoftPhaseAccumulator {
    <SoftPhaseAccumulator as PhaseAccumulator>::new(f, 48_000.0)
}
pub fn make(kind: usize, seed: u64, h: MemorySlice<Mutable>, t: MemorySlice<NonMutable>) -> M {
    let q = |k: u64| ((mix(seed + k) >> 40) as f32) / ((1u64 << 24) as f32);
    match kind {
        0 => M::D(DelayLine::new(h)),
        1 => M::C(Comb::new(h)),
        2 => M::A(AllPass::new(h)),
        3 => {
            let mut b = Biquad::new(BiquadCoeffs::<Butterworth>::new());
            b.coeffs.lowpass(500.0 + 3000.0 * q(1), 0.7, 48_000.0);
            M::B(b)
        }
        4 => M::E(AudioRateADSR::new(if q(6) < 0.5 { 0.0 } else { 0.0004 * q(1) }, 0.0008 * q(2), q(3), 0.0008 * q(4), 0.5 + q(5), 48_000.0)),
        5 => M::F(FunctionalOscillator::new(acc(50.0 + 9000.0 * q(1)))),
        6 => M::W(WavetableOscillator::new(t, acc(50.0 + 9000.0 * q(1)))),
        7 => M::S(acc(1.0 + 20000.0 * q(1))),
        8 => M::H(h),
        _ => M::P,
    }
}
fn b(x: f32) -> u64 {
    x.to_bits() as u64
}
fn r<E>(x: Result<f32, E>) -> u64 {
    match x {
        Ok(v) => b(v),
        Err(_) => 1 << 40,
    }
}
fn two(x: (f32, f32)) -> u64 {
    b(x.0) << 32 | b(x.1)
}

/// One public operation; x in [-1,1], y in [0,1).
#[inline(never)]
pub fn step(m: &mut M, op: u64, x: f32, y: f32) -> u64 {
    match m {
        M::D(d) => match op {
            0 | 1 => {
                let v = d.read();
                d.write_and_advance(x);
                b(v)
            }
            2 => b(d.read_wrapped_at((x * 100.0) as isize)),
            3 => b(d.read_lerp_wrapped_at(x * 50.0)),
            4 => b(d.read_lagrange_wrapped_at(x * 50.0)),
            _ => {
                d.advance();
                b(d.read())
            }
        },
        M::C(c) => match op {
            0 | 1 => b(c.tick(x)),
            2 => {
                c.set_feedback(x * 0.9);
                0
            }
            _ => {
                c.set_dampening(y);
                0
            }
        },
        M::A(a) => b(a.tick(x)),
        M::B(q) => match op {
            0 | 1 => b(q.process(x)),
            2 => {
                q.coeffs.lowpass(100.0 + 9000.0 * y, 0.7, 48_000.0);
                b(q.process(x))
            }
            3 => {
                q.coeffs.highpass(100.0 + 9000.0 * y, 1.5, 48_000.0);
                b(q.process(x))
            }
            4 => {
                q.coeffs.allpass(100.0 + 9000.0 * y, 0.9, 48_000.0);
                b(q.process(x))
            }
            5 => {
                q.coeffs.notch(100.0 + 9000.0 * y, 1.1, 48_000.0);
                b(q.process(x))
            }
            6 => {
                q.coeffs.bell(100.0 + 9000.0 * y, 1.0, 3.0 * x, 44_100.0);
                b(q.process(x))
            }
            _ => {
                q.coeffs.low_shelf(100.0 + 9000.0 * y, 1.0, 3.0 * x, 44_100.0);
                b(q.process(x))
            }
        },
        M::E(e) => match op {
            0..=2 => b(e.tick()) | (e.get_state() as u64) << 32,
            3 => {
                e.trigger_on();
                b(e.tick())
            }
            4 => {
                e.trigger_off();
                b(e.tick())
            }
            5 => {
                e.set_sustain(y);
                e.set_slope(0.1 + 3.0 * y);
                b(e.tick())
            }
            6 => {
                e.set_attack(0.002 * y);
                e.set_decay(0.002 * (1.0 - y));
                b(e.tick())
            }
            7 => {
                e.set_release(0.002 * y);
                b(e.tick())
            }
            _ => {
                e.set_sr(20_000.0 + 40_000.0 * y);
                b(e.tick())
            }
        },
        M::F(o) => match op {
            0..=2 => b(o.next()),
            3 => {
                o.set_freq_unchecked(10_000.0 * y);
                b(o.next())
            }
            4 => {
                o.set_phase_shift_unchecked(y);
                b(o.next())
            }
            5 => {
                o.set_wave(match (y * 4.0) as u32 {
                    0 => Waveform::Sine,
                    1 => Waveform::Sawtooth,
                    2 => Waveform::Rectangle,
                    _ => Waveform::Triangle,
                });
                b(o.next())
            }
            _ => {
                o.set_sr_unchecked(8_000.0 + 40_000.0 * y);
                b(o.next())
            }
        },
        M::W(o) => match op {
            0 | 1 => b(o.next()),
            2 => {
                o.set_freq_unchecked(10_000.0 * y);
                b(o.next())
            }
            _ => {
                o.set_phase_shift_unchecked(y);
                b(o.next())
            }
        },
        M::S(a) => match op {
            0 => a.next_value() as u64,
            1 => b(a.next_value_normalized()),
            2 => {
                a.set_freq_unchecked(20_000.0 * y);
                a.next_value() as u64
            }
            3 => {
                a.set_phase_shift((y * 4e9) as u32);
                a.next_value() as u64
            }
            _ => {
                a.set_sr_unchecked(8_000.0 + 40_000.0 * y);
                a.next_value() as u64
            }
        },
        M::H(h) => match op {
            0 => r(h.get((y * 40.0) as usize)),
            1 => h.assign((y * 40.0) as usize, x).is_ok() as u64,
            2 => b(h.get_wrapped((x * 200.0) as isize)),
            3 => h.get_slice_of_four_wrapped((x * 200.0) as isize).iter().fold(0, |a, v| mix(a ^ b(*v))),
            4 => r(h.lerp(y * 20.0)),
            5 => b(h.lerp_wrapped(x * 60.0)),
            6 => b(h.lagrange_wrapped(x * 60.0, 2 + 2 * (y * 4.0) as usize)),
            _ => b(h.lagrange_four_points_wrapped(x * 60.0)),
        },
        M::P => pure_fn(op, x, y),
    }
}
#[inline(never)]
pub fn pure_fn(op: u64, x: f32, y: f32) -> u64 {
    match op {
        0 => b(AdditionalF32Ext::sinc(&(x * 20.0))),
        1 => b(AdditionalF32Ext::si(&(x * 3.0))),
        2 => b(AdditionalF32Ext::sinh(&x)),
        3 => b(AdditionalF32Ext::cosh(&x)),
        4 => b(AdditionalF32Ext::fast_tan(&y)),
        5 => b(AdditionalF32Ext::tanh(&x)),
        6 => b(AdditionalF32Ext::lookup_sin(&(x * 10.0))),
        // midpoints of a 1/1000 grid: clear of the table's last entry
        7 => b(AdditionalF32Ext::lookup_bl_rect(&(((y * 1000.0).floor() + 0.5) / 1000.0))),
        8 => b(AdditionalF32Ext::fixed_point_sin(&(x * 10.0))),
        9 => b(AdditionalF32Ext::fixed_point_cos(&(x * 10.0))),
        10 => r(bit_reduce(x, (y * 32.0) as u8)),
        11 => r(bit_reduce_exp(x, (y * 25.0) as u8)),
        12 => r(lerp(x, y, y * 1.1)),
        13 => {
            let a = [x, y, x * y, -x, y - x, 0.5];
            b(lagrange(&a[..2 + (y * 5.0) as usize], y))
        }
        14 => b(unsafe { lagrange_only_4_elements(&[x, y, -x, -y], 3.0 * y) }),
        15 => stereo_pan(x * 1.1, (x, y)).map(two).unwrap_or(1),
        16 => mono_pan(x * 1.1, y).map(two).unwrap_or(1),
        17 => two(stereo_pan_unchecked(x, (y, x))),
        18 => two(mono_pan_unchecked(x, y)),
        19 => b(crossfade_correlated_unchecked(x, (y, x))),
        20 => b(digital_clip(x * 2.0)),
        21 => r(Decibels::to_decibels(&x)),
        22 => r(Decibels::to_decibels_checked(&y)),
        23 => b(Decibels::to_volt_ratio(&(x * 30.0))),
        24 => ToRawBytes::to_raw_word(&x) as u64,
        25 => sin_i16((x * 32767.0) as i16, (y * 6.0) as u8) as u16 as u64,
        26 => b(DSPUtility::samples_to_seconds(&(x * 1e5), 48_000.0)),
        27 => b(DSPUtility::millis_to_samples(&(x * 1e3), 48_000.0)),
        28 => b(F32Ext::sin(x * 9.0)),
        29 => b(F32Ext::powf(y, 1.0 + x)),
        30 => b(F32Ext::exp(x)),
        31 => b(lerp_unchecked(x, y, y)),
        32 => {
            let mut c = BiquadCoeffs::<Butterworth>::new();
            c.bell(1000.0 + 5000.0 * y, 0.8, 2.0 * x, 48_000.0);
            let mut q = Biquad::new(c);
            b(q.process(1.0)) << 32 | b(q.process(0.0))
        }
        33 => b(DSPUtility::samples_to_millis(&(x * 1e5), 44_100.0)),
        34 => b(DSPUtility::seconds_to_samples(&x, 44_100.0)),
        _ => {
            let mut e = AudioRateADSR::new(0.001 * y, 0.001, 0.5, 0.001, 1.0, 8000.0);
            e.trigger_on();
            b(e.tick()) << 32 | b(e.tick())
        }
    }
}

type Cells = Vec<Vec<f32>>;
fn image(ar: &Arena, offs: &[usize], lens: &[usize]) -> Cells {
    offs.iter().zip(lens).map(|(o, l)| (0..*l).map(|k| ar.get(o + k)).collect()).collect()
}
fn put(ar: &mut Arena, offs: &[usize], lens: &[usize], im: &Cells) {
    for (i, (o, l)) in offs.iter().zip(lens).enumerate() {
        for k in 0..*l {
            ar.set(o + k, im[i][k]);
        }
    }
}
/// Runs operation `a` on one instance preempted by operation `z` on the other at a few more instructions,
/// each time from the same starting point, and compares with running one after the other.
fn elsewhere(
    start: &(M, M, Cells), same: bool, a: (u64, f32, f32), z: (u64, f32, f32), salt: u64, st: &mut Stats, put: &mut dyn FnMut(&Cells), here: usize,
) -> Result<(), Viol> {
    // results of both operations and of what the instances do next
    let mut go = |at: u64| -> ([u64; 8], u64) {
        put(&start.2);
        let mut p = unsafe { (std::ptr::read(&start.0), std::ptr::read(&start.1)) };
        let mut o = [0u64; 8];
        let mut hit = false;
        let mut v2 = 0;
        let (pm, pz): (*mut M, *mut M) = (&mut p.0, &mut p.1);
        let cnt = {
            let mut hook = |now: u64| {
                if now == at {
                    hit = true;
                    v2 = step(unsafe { &mut *pz }, z.0, z.1, z.2);
                }
            };
            let a = black_box(a);
            let mut g = || o[0] = step(unsafe { &mut *pm }, a.0, a.1, a.2);
            stepped(if at == 0 { 2_000 } else { at }, &mut hook, &mut g).0
        };
        o[1] = if hit { v2 } else { step(&mut p.1, z.0, z.1, z.2) };
        for i in 0..3 {
            o[2 + 2 * i] = step(&mut p.0, 0, 0.3, 0.7);
            if !same {
                o[3 + 2 * i] = step(&mut p.1, 0, 0.3, 0.7);
            }
        }
        (o, cnt)
    };
    let (want, len) = go(0);
    if len >= 2_000 {
        return Ok(());
    }
    for j in 0..if len < 300 { 5 } else { 2 } {
        let at = 1 + mix(salt + j) % len;
        let (got, _) = go(at);
        st.inc("fault.preempt-elsewhere");
        st.add("instructions_stepped", at);
        if got != want {
            return viol("result-differs-when-preempted", here, format!("operation {} preempted at instruction {at} of {len} by operation {}: {got:x?}, one after the other {want:x?}", a.0, z.0));
        }
    }
    Ok(())
}

impl Prop for C03 {
    fn id(&self) -> &'static str {
        "C03"
    }
    fn ops(&self) -> &'static [&'static str] {
        &OPS
    }
    fn runs(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 40_000 } else { 2_500_000 }
    }
    fn gen(&self, r: &mut Rng, _t: Tier) -> Scen {
        let n = r.range(2, 5) as usize;
        let mut cfg = vec![n as f64, r.below(1 << 16) as f64];
        // often several instances of the same kind
        let fav = r.below(NKIND as u64);
        let mut kinds = vec![];
        for _ in 0..n {
            let k = if r.chance(0.5) { fav } else { r.below(NKIND as u64) };
            kinds.push(k as usize);
            cfg.push(k as f64);
        }
        while cfg.len() < 7 {
            cfg.push(0.0);
        }
        let mut steps = vec![];
        // twins: identical instances that run the same program, each at its own place in it
        let twins = r.chance(0.35);
        cfg.push(twins as u64 as f64);
        if twins {
            for k in kinds.iter_mut() {
                *k = fav as usize;
            }
            for i in 0..n {
                cfg[2 + i] = fav as f64;
            }
        }
        let mut program: Vec<(u64, f64, f64)> = vec![];
        let mut pc = vec![0usize; n];
        // two of them in lockstep while a third one, elsewhere in the program, interrupts
        let formation = twins && n >= 3 && r.chance(0.7);
        let lead = r.below(12) as usize;
        let off_at = r.range(1, 8) as usize;
        let plain = r.chance(0.6);
        if formation && fav != PURE as u64 {
            for i in 0..=lead.max(off_at) {
                let op = match (fav, i) {
                    (4, 0) => 3,
                    (4, i) if i == off_at => 4,
                    _ if plain || r.chance(0.7) => 0,
                    _ => r.below(NOPS[fav as usize]),
                };
                program.push((op, r.f32v(-1.0, 1.0), r.f32v(0.0, 0.999)));
            }
            for i in 0..lead {
                let (op, x, y) = program[i];
                steps.push(Step { t: 0, task: AUDIO, op: DO, a: [2.0, op as f64, x, y] });
            }
            pc[2] = lead;
        }
        let mut t = 0u64;
        let mut stepped_ops = 0;
        let few_args: Option<(f64, f64)> = if r.chance(0.3) { Some((r.f32v(-1.0, 1.0), r.f32v(0.0, 0.999))) } else { None };
        let favop = r.below(NPURE);
        // arguments that are nearly, but not quite, those another instance was given
        let near = if r.chance(0.35) { r.pick(&[1e-7, 1e-6, 1e-5, 1e-4, 1e-3]) } else { 0.0 };
        let nudge = |m: usize, x: f64, y: f64| {
            if near == 0.0 || m == 0 {
                (x, y)
            } else {
                ((x + m as f64 * near).clamp(-1.0, 1.0) as f32 as f64, (y + m as f64 * near).clamp(0.0, 0.999) as f32 as f64)
            }
        };
        for i in 0..r.range(3, 60) as usize {
            t += 1;
            let m = if formation && r.chance(0.95) { i % 2 } else { r.idx(n) };
            let arg = |r: &mut Rng| match few_args {
                Some(a) if r.chance(0.6) => a,
                _ => {
                    if r.chance(0.1) {
                        (r.pick(&[0.0, -1.0, 1.0, -0.5, 0.25]), r.pick(&[0.0, 0.5, 0.25, 0.75]))
                    } else {
                        (r.f32v(-1.0, 1.0), r.f32v(0.0, 0.999))
                    }
                }
            };
            let (x, y) = arg(r);
            let opof = |r: &mut Rng, k: usize| {
                let op = if k == PURE && r.chance(0.4) { favop } else { r.below(NOPS[k]) };
                // si() runs 1000 terms: keep it rare
                if k == PURE && op == 1 && !r.chance(0.1) { 0 } else { op }
            };
            let (mut op, mut x, mut y) = (opof(r, kinds[m]), x, y);
            if twins {
                if pc[m] == program.len() {
                    // mostly the plain operation: the one that is repeated in real use
                    if kinds[m] != PURE && (plain || r.chance(0.6)) {
                        op = if kinds[m] == 4 && program.is_empty() { 3 } else { 0 };
                    }
                    program.push((op, x, y));
                }
                (op, x, y) = program[pc[m]];
                pc[m] += 1;
            }
            (x, y) = nudge(m, x, y);
            steps.push(Step { t, task: AUDIO, op: DO, a: [m as f64, op as f64, x, y] });
            if r.chance(0.45) && stepped_ops < 10 {
                stepped_ops += 1;
                let m2 = if formation { 2 } else { r.idx(n) };
                let k = match r.below(5) {
                    0 => r.range(1, 20),
                    1 | 2 => r.range(1, 80),
                    3 => r.range(1, 250),
                    _ => r.range(1, 900),
                };
                let (x2, y2) = arg(r);
                let mut op2 = if kinds[m2] == kinds[m] && r.chance(0.5) { op } else { opof(r, kinds[m2]) };
                let (mut x2, mut y2) = (x2, y2);
                if twins {
                    if pc[m2] == program.len() {
                        program.push((op2, x2, y2));
                    }
                    (op2, x2, y2) = program[pc[m2]];
                    pc[m2] += 1;
                }
                (x2, y2) = nudge(m2, x2, y2);
                steps.push(Step { t, task: ISR, op: ISR_DO, a: [m2 as f64, (op2 + 64 * k as u64) as f64, x2, y2] });
            } else if r.chance(0.05) {
                steps.push(Step { t, task: MEMMAN, op: FRESH, a: [r.below(NKIND as u64) as f64, if r.chance(0.015) { r.below(200_000) } else { r.below(20) } as f64, if r.chance(0.02) { 66_000 + r.below(4000) } else { r.pick(&[0, 0, 0, 300]) } as f64, 0.0] });
            }
        }
        Scen { cfg, steps }
    }
    fn run(&self, s: &Scen, st: &mut Stats) -> Result<(), Viol> {
        let c = |i: usize| s.cfg.get(i).copied().unwrap_or(0.0).abs() as usize;
        let n = c(0).clamp(1, 5);
        let seed = c(1) as u64;
        let kinds: Vec<usize> = (0..n).map(|i| c(2 + i) % NKIND).collect();
        let twins = c(7) % 2 == 1;
        let who = |i: usize| if twins { 0 } else { i as u64 };
        // every machine on its own memory, whose length depends on the machine
        let lens: Vec<usize> = (0..n).map(|i| 1 + (mix(seed ^ who(i) << 8) % 30) as usize).collect();
        let fill = |ar: &mut Arena, o: usize, i: usize| {
            for k in 0..lens[i] {
                ar.set(o + k, sig(3, 1.0, seed + who(i), k as u64));
            }
        };
        let build = |ar: &mut Arena, o: usize, i: usize| -> M {
            let h = handle(ar, (o, lens[i]));
            let mut t = null();
            unsafe { t.change_slice_unchecked(ar.base().add(o), lens[i]) };
            make(kinds[i], seed + who(i), h, t)
        };
        // per step: machine, op, x, y, result
        let mut log: Vec<(usize, u64, f32, f32, u64, usize)> = vec![];
        let mut arm = Arena::new(512);
        let mut offs = vec![];
        for i in 0..n {
            let o = arm.alloc(lens[i], 9);
            fill(&mut arm, o, i);
            offs.push(o);
        }
        let mut ms: Vec<M> = (0..n).map(|i| build(&mut arm, offs[i], i)).collect();
        let dec = |stp: &Step| -> (usize, u64, f32, f32, u64) {
            let m = stp.a[0].abs() as usize % n;
            let raw = stp.a[1].abs() as u64;
            (m, raw % 64 % NOPS[kinds[m]], (stp.a[2] as f32).clamp(-1.0, 1.0), (stp.a[3] as f32).clamp(0.0, 0.999), (raw / 64).max(1))
        };
        let mut si = 0;
        while si < s.steps.len() {
            let stp = &s.steps[si];
            let here = si;
            si += 1;
            match stp.op {
                FRESH => {
                    st.inc("op.build-and-drop-others");
                    let k = stp.a[0].abs() as usize % NKIND;
                    // two of them, one after the other, with the same life
                    let life = |long: u64| {
                        let mut scratch = [0.25f32; 16];
                        let t2 = [0.5f32; 8];
                        let mut m = make(k, seed ^ 77, from_slice_mut(&mut scratch[..]), from_slice(&t2[..]));
                        let mut d = 0u64;
                        for j in 0..long {
                            // bursts of noise with silence in between
                            let x = if j < 64 { 0.3 } else if j / 700 % 2 == 0 { 0.0 } else { sig(3, 0.3, seed, j) };
                            d = mix(d ^ step(&mut m, if j < 64 { j % NOPS[k].min(6) } else { 0 }, x, 0.7));
                        }
                        d
                    };
                    let long = (stp.a[1].abs() as u64).min(200_000);
                    if long > 1000 {
                        st.inc("op.long-life-of-others");
                    }
                    let (d1, d2) = (life(long), life(long));
                    st.log(d1);
                    // a crowd of them, one after the other, each with the same short life
                    let crowd = (stp.a[2].abs() as u64).min(200_000);
                    if crowd > 0 {
                        st.inc("op.crowd-of-others");
                        let one = || {
                            let mut scratch = [0.25f32; 2];
                            let t2 = [0.5f32, -0.5];
                            let mut m = make(k, seed ^ 77, from_slice_mut(&mut scratch[..]), from_slice(&t2[..]));
                            let mut d = 0u64;
                            for j in 0..4 {
                                d = mix(d ^ step(&mut m, if k == 4 && j == 0 { 3 } else { 0 }, 0.5, 0.7));
                            }
                            d
                        };
                        let d1 = one();
                        for _ in 1..crowd {
                            if one() != d1 {
                                return viol("same-history-differs", here, format!("of {crowd} {}s built and used one after the other with the same arguments, one gave different results", KIND[k]));
                            }
                        }
                    }
                    if d1 != d2 {
                        return viol("same-history-differs", here, format!("two {}s given the same {long} operations one after the other gave different results", KIND[k]));
                    }
                }
                ISR_DO => {
                    // an interrupt without anything to preempt: runs on its own
                    let (m, op, x, y, _) = dec(stp);
                    let v = step(&mut ms[m], op, x, y);
                    log.push((m, op, x, y, v, here));
                }
                _ => {
                    let (m, op, x, y, _) = dec(stp);
                    st.inc(KSTAT[kinds[m]]);
                    let isr = s.steps.get(si).filter(|q| q.op == ISR_DO).map(|q| dec(q));
                    match isr {
                        Some((m2, op2, x2, y2, k)) if m2 != m || kinds[m] == PURE => {
                            si += 1;
                            let same = m2 == m;
                            let copy = |i: usize, ms: &[M]| unsafe { std::ptr::read(&ms[i]) };
                            let before = (copy(m, &ms), copy(m2, &ms), image(&arm, &offs, &lens));
                            let mut hit = false;
                            let mut v2 = 0u64;
                            let mut v = 0u64;
                            let main: *mut M = &mut ms[m];
                            let other: *mut M = &mut ms[m2];
                            let cnt;
                            {
                                let mut hook = |now: u64| {
                                    if now == k {
                                        hit = true;
                                        v2 = step(unsafe { &mut *other }, op2, x2, y2);
                                    }
                                };
                                let (op, x, y) = (black_box(op), black_box(x), black_box(y));
                                let mut g = || v = step(unsafe { &mut *main }, op, x, y);
                                // after the interrupt has run the rest needs no stepping
                                cnt = stepped(k, &mut hook, &mut g).0;
                            }
                            log.push((m, op, x, y, v, here));
                            if !hit {
                                st.inc("fault.preempt-after-operation");
                                v2 = step(unsafe { &mut *other }, op2, x2, y2);
                            } else {
                                st.inc("fault.preempt-inside-operation");
                                st.nontrivial = true;
                            }
                            st.add("instructions_stepped", cnt.min(k));
                            log.push((m2, op2, x2, y2, v2, here + 1));
                            st.state(kinds[m] as u64 | op << 4 | (kinds[m2] as u64) << 12 | op2 << 16 | k.min(cnt) << 24);
                            // the same preemption at other instructions, on copies of both instances
                            if mix(seed ^ k ^ (here as u64) << 32) % 3 == 0 {
                                let after = image(&arm, &offs, &lens);
                                let e = elsewhere(&before, same, (op, x, y), (op2, x2, y2), mix(seed ^ k), st, &mut |im| put(&mut arm, &offs, &lens, im), here);
                                put(&mut arm, &offs, &lens, &after);
                                e?;
                            }
                        }
                        _ => {
                            let v = step(&mut ms[m], op, x, y);
                            log.push((m, op, x, y, v, here));
                        }
                    }
                }
            }
        }
        if let Some(g) = arm.check_guards() {
            return viol("write-outside", s.steps.len(), format!("guard cell {g}"));
        }
        // each machine's history alone: twice, and in both orders of machines
        for round in 0..2 {
            let mut ars = Arena::new(512);
            let mut order: Vec<usize> = (0..n).collect();
            if round == 1 {
                order.reverse();
            }
            for &i in &order {
                let o = ars.alloc(lens[i], 5 + round);
                fill(&mut ars, o, i);
                let mut m = build(&mut ars, o, i);
                let mut mine: Vec<&(usize, u64, f32, f32, u64, usize)> = log.iter().filter(|e| e.0 == i).collect();
                if kinds[i] == PURE && round == 1 {
                    mine.reverse();
                }
                for e in mine {
                    let v = step(&mut m, e.1, e.2, e.3);
                    if v != e.4 {
                        return viol(
                            "result-differs",
                            e.5,
                            format!("{} {i}, operation {} with ({:e}, {:e}): {:#x} together with others, {:#x} alone", KIND[kinds[i]], e.1, e.2, e.3, e.4, v),
                        );
                    }
                }
                for k in 0..lens[i] {
                    let (a, z) = (arm.get(offs[i] + k), ars.get(o + k));
                    if a.to_bits() != z.to_bits() {
                        return viol("memory-differs", s.steps.len(), format!("{} {i}: cell {k} holds {a} together with others, {z} alone", KIND[kinds[i]]));
                    }
                }
            }
        }
        for e in &log {
            st.log(e.4);
        }
        Ok(())
    }
    fn inherits(&self, i: u64) -> bool {
        i % 2 == 1
    }
    fn rule(&self) -> &'static str {
        "a case is one interleaving of up to 60 operations on up to 5 instances (any kinds, often the same kind), up to 10 of them preempted at a chosen machine instruction by an operation on another instance; non-trivial when a preemption happened inside an operation; distinct by all results; states are (operation, preempting operation, instruction)"
    }
    fn real(&self) -> &'static str {
        "DelayLine, Comb, AllPass, Biquad + Butterworth designs, AudioRateADSR, FunctionalOscillator, WavetableOscillator, SoftPhaseAccumulator, MemorySlice, and the stateless float / stereo / decibel / fixed-point / clipping functions, in both contexts"
    }
    fn stub(&self) -> &'static str {
        "memory, the interrupt controller (x86 trap flag + simulator decides where the handler runs)"
    }
}
