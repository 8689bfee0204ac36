//! The instrument both devices run: the same source is compiled into the simulator (64-bit) and into the
//! freestanding 32-bit program. Everything is decided by the encoded history.
use embedded_audio_tools::convert::*;
use embedded_audio_tools::dynamics::digital_clip;
use embedded_audio_tools::envelopes::*;
use embedded_audio_tools::filter::{Biquad, BiquadCoeffs, Butterworth};
use embedded_audio_tools::fixed_point::math::sin_i16;
use embedded_audio_tools::float::*;
use embedded_audio_tools::memory_access::*;
use embedded_audio_tools::oscillator::*;
use embedded_audio_tools::stereo::*;
use embedded_audio_tools::{AllPass, Comb, DelayLine};

pub const MACHINES: usize = 4;
pub const MAX_LEN: usize = 4097;
pub const GAP: usize = 32;
pub const RAM_CELLS: usize = (2 * MACHINES + 1) * (MAX_LEN + GAP) + GAP;
/// words before the steps: per machine kind and length, then table length and seed
pub const HEADER: usize = 2 * MACHINES + 2;
/// words per step: operation, machine, which, integer, x, y
pub const STEP: usize = 6;
const POISON: u32 = 0x7fc5_a5a5;

pub const ANY: u32 = 0;
pub const TICKS: u32 = 1;
pub const REBOOT: u32 = 2;
pub const SCRIBBLE: u32 = 3;
pub const MOVE: u32 = 4;

type Acc = SoftPhaseAccumulator;
enum M {
    D(DelayLine),
    C(Comb),
    A(AllPass),
    B(Biquad<Butterworth>),
    E(AudioRateADSR),
    F(FunctionalOscillator<Acc>),
    W(WavetableOscillator<Acc>),
    S(Acc),
    H(MemorySlice<Mutable>),
    P,
}
pub const KINDS: u32 = 10;
pub const NW: [u64; KINDS as usize] = [8, 6, 3, 13, 12, 8, 8, 8, 15, 36];

fn b(v: f32) -> u64 {
    // which of the not-a-numbers it is says nothing
    (if v.is_nan() { 0x7fc0_0000 } else { v.to_bits() }) as u64
}
fn r<E>(x: Result<f32, E>) -> u64 {
    x.map(b).unwrap_or(1 << 40)
}
fn two(x: (f32, f32)) -> u64 {
    b(x.0) << 32 | b(x.1)
}
fn fold(h: u64, x: u64) -> u64 {
    (h ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(29)
}
fn mix(seed: u32, i: u32) -> u32 {
    (fold(fold(seed as u64, i as u64 + 1), 77) >> 32) as u32
}
/// positions beyond the 32-bit index range address nothing on the device
fn far(x: f32) -> bool {
    !(x.abs() < 2147483648.0)
}

struct Dev {
    ram: *mut u32,
    kind: [u32; MACHINES],
    len: [usize; MACHINES],
    at: [usize; MACHINES],
    table: usize,
    seed: u32,
}
impl Dev {
    fn place(&self, m: usize, k: usize) -> usize {
        GAP + (2 * m + k) * (MAX_LEN + GAP)
    }
    fn hold(&self, m: usize) -> MemorySlice<Mutable> {
        let mut h = null_mut();
        unsafe { h.change_mut_slice_unchecked(self.ram.add(self.place(m, self.at[m])) as *mut f32, self.len[m]) };
        h
    }
    fn wave(&self) -> MemorySlice<NonMutable> {
        let mut h = null();
        unsafe { h.change_slice_unchecked(self.ram.add(self.place(MACHINES, 0)) as *const f32, self.table) };
        h
    }
    fn boot(&self, m: usize) -> M {
        let acc = || <Acc as PhaseAccumulator>::new(20.0 + (mix(self.seed, m as u32) % 9000) as f32, 48_000.0);
        match self.kind[m] {
            0 => M::D(DelayLine::new(self.hold(m))),
            1 => M::C(Comb::new(self.hold(m))),
            2 => M::A(AllPass::new(self.hold(m))),
            3 => {
                let mut q = Biquad::new(BiquadCoeffs::<Butterworth>::new());
                q.coeffs.lowpass(500.0 + (mix(self.seed, 5) % 3000) as f32, 0.7, 48_000.0);
                M::B(q)
            }
            4 => M::E(AudioRateADSR::new(0.0004, 0.0008, 0.5, 0.0008, 1.3, 48_000.0)),
            5 => M::F(FunctionalOscillator::new(acc())),
            6 => M::W(WavetableOscillator::new(self.wave(), acc())),
            7 => M::S(acc()),
            8 => M::H(self.hold(m)),
            _ => M::P,
        }
    }
    fn set(&self, i: usize, v: u32) {
        unsafe { self.ram.add(i).write_volatile(v) }
    }
    fn get(&self, i: usize) -> u32 {
        unsafe { self.ram.add(i).read_volatile() }
    }
}

pub fn run(w: &[u32], ram: *mut u32, out: &mut dyn FnMut(u32)) {
    let mut d = Dev { ram, kind: [0; MACHINES], len: [0; MACHINES], at: [0; MACHINES], table: w[2 * MACHINES] as usize, seed: w[2 * MACHINES + 1] };
    for i in 0..RAM_CELLS {
        d.set(i, POISON);
    }
    for m in 0..MACHINES {
        d.kind[m] = w[2 * m];
        d.len[m] = w[2 * m + 1] as usize;
        for k in 0..2 * d.len[m] {
            d.set(d.place(m, k % 2) + k / 2, 0);
        }
    }
    for k in 0..d.table {
        let v = (mix(d.seed, k as u32) >> 8) as f32 / 8388608.0 - 1.0;
        d.set(d.place(MACHINES, 0) + k, v.to_bits());
    }
    let mut ms = [d.boot(0), d.boot(1), d.boot(2), d.boot(3)];
    for s in w[HEADER..].chunks_exact(STEP) {
        let m = s[1] as usize % MACHINES;
        let (k, i, x, y) = (s[2], s[3] as i32, f32::from_bits(s[4]), f32::from_bits(s[5]));
        let h = match s[0] {
            ANY => any(&mut ms[m], k % NW[d.kind[m] as usize] as u32, i, x, y, &d, m),
            TICKS => {
                let mut h = 0;
                for j in 0..k.min(5000) {
                    let v = match i % 4 {
                        0 => x,
                        1 => if j == 0 { x } else { 0.0 },
                        2 => ((mix(d.seed, j) >> 8) as f32 / 8388608.0 - 1.0) * x,
                        _ => ((j % 97) as f32 / 48.0 - 1.0) * x,
                    };
                    h = fold(h, tick(&mut ms[m], v, y, j));
                }
                h
            }
            REBOOT => {
                ms[m] = d.boot(m);
                0
            }
            SCRIBBLE => {
                if d.len[m] > 0 {
                    for j in 0..k % 40 {
                        let c = d.place(m, d.at[m]) + (i as u32 as usize % d.len[m] + j as usize) % d.len[m];
                        d.set(c, if j % 2 == 0 { x } else { y }.to_bits());
                    }
                }
                0
            }
            _ => {
                let (from, to) = (d.place(m, d.at[m]), d.place(m, 1 - d.at[m]));
                for j in 0..d.len[m] {
                    d.set(to + j, d.get(from + j));
                }
                d.at[m] = 1 - d.at[m];
                match &mut ms[m] {
                    M::D(u) => u.change_buffer(d.hold(m)),
                    M::C(u) => u.change_buffer(d.hold(m)),
                    M::A(u) => u.change_buffer(d.hold(m)),
                    M::H(u) => *u = d.hold(m),
                    _ => {}
                }
                0
            }
        };
        out((h ^ (h >> 32)) as u32);
    }
    let mut h = 0;
    for i in 0..RAM_CELLS {
        h = fold(h, b(f32::from_bits(d.get(i))));
    }
    out((h ^ (h >> 32)) as u32);
}

/// ordinary use, one sample
fn tick(m: &mut M, x: f32, y: f32, j: u32) -> u64 {
    match m {
        M::D(u) => {
            let at = y.abs() * u.len() as f32 * ((j % 64) as f32 / 32.0 - 1.0);
            let v = if j % 2 == 0 { u.read_lerp_wrapped_at(at) } else { u.read_lagrange_wrapped_at(at) };
            let o = u.read();
            u.write_and_advance(x + 0.5 * v);
            two((v, o))
        }
        M::C(u) => b(u.tick(x)),
        M::A(u) => b(u.tick(x)),
        M::B(u) => b(u.process(x)),
        M::E(u) => b(u.tick()) ^ (u.get_state() as u64) << 40,
        M::F(u) => b(u.next()),
        M::W(u) => b(u.next()),
        M::S(u) => u.next_value() as u64 ^ b(u.next_value_normalized()) << 32,
        M::H(u) => {
            let i = j as usize % (u.len() + 3);
            let a = u.assign(i, x).is_ok() as u64;
            a ^ r(u.get(i)) << 1 ^ b(u.lerp_wrapped(x * 50.0)) << 7
        }
        M::P => pure_fn(j as u64 % 36, if x.abs() <= 1.0 { x } else { 0.5 }, if (0.0..1.0).contains(&y) { y } else { 0.25 }),
    }
}
fn rate(x: f32) -> f32 {
    if x.is_finite() { x.abs().clamp(1.0, 1e7) } else { 48_000.0 }
}

/// one public operation with any arguments
fn any(m: &mut M, op: u32, n: i32, x: f32, y: f32, d: &Dev, me: usize) -> u64 {
    let i = n as isize;
    // results of positions outside the index range are computed, and not compared
    let near = |v: f32| if far(x) { 0 } else { b(v) };
    match m {
        M::D(u) => match op {
            0 => b(u.read()),
            1 => {
                u.write_and_advance(x);
                0
            }
            2 => b(u.read_wrapped_at(i)),
            3 => near(u.read_lerp_wrapped_at(x)),
            4 => near(u.read_lagrange_wrapped_at(x)),
            5 => {
                u.advance();
                u.len() as u64
            }
            6 => u.get_ptr_slice_mut().len() as u64,
            _ => {
                let mut l = DelayLine::new(d.hold(me));
                l.advance();
                b(l.read_wrapped_at(i))
            }
        },
        M::C(u) => match op {
            0 | 1 => b(u.tick(x)),
            2 => {
                u.set_feedback(x);
                0
            }
            3 => {
                u.set_dampening(x);
                0
            }
            4 => u.get_ptr_slice_mut().len() as u64,
            _ => b(Comb::new(d.hold(me)).tick(y)),
        },
        M::A(u) => match op {
            0 => b(u.tick(x)),
            1 => u.get_ptr_slice_mut().len() as u64,
            _ => b(AllPass::new(d.hold(me)).tick(y)),
        },
        M::B(q) => {
            let (fc, qq, g, sr) = (x, y, x * y, if n % 2 == 0 { 48_000.0 } else { y });
            let c = &mut q.coeffs;
            match op {
                0 => c.lowpass(fc, qq, sr),
                1 => c.highpass(fc, qq, 48_000.0),
                2 => c.allpass(fc, qq, sr),
                3 => c.notch(fc, qq, sr),
                4 => c.bell(fc, qq, g, sr),
                5 => c.low_shelf(fc, qq, g, sr),
                6 => c.bell_boost_only(fc, qq, g, sr),
                7 => c.bell_cut_only(fc, qq, g, sr),
                8 => c.low_shelf_boost_only(fc, qq, g, sr),
                9 => c.low_shelf_cut_only(fc, qq, g, sr),
                10 => c.lowpass(1000.0, 0.7, y),
                11 => *q = Biquad::new(BiquadCoeffs::<Butterworth>::new()),
                _ => {}
            }
            b(q.process(x))
        }
        M::E(e) => {
            let mut v = 0;
            match op {
                0 | 1 => v = b(e.tick()),
                2 => e.trigger_on(),
                3 => e.trigger_off(),
                4 => e.reset(),
                5 => e.set_attack(x),
                6 => e.set_decay(x),
                7 => e.set_sustain(x),
                8 => e.set_release(x),
                9 => e.set_slope(x),
                10 => e.set_sr(rate(x)),
                _ => *e = AudioRateADSR::new(x, y, x * y, y, x, rate(y)),
            }
            v << 8 | e.get_state() as u64
        }
        M::F(o) => match op {
            0 | 1 => b(o.next()),
            2 => {
                o.set_freq_unchecked(x);
                0
            }
            3 => {
                o.set_phase_shift_unchecked(x);
                0
            }
            4 => {
                o.set_sr_unchecked(x);
                0
            }
            5 => {
                o.set_wave(match n.rem_euclid(4) {
                    0 => Waveform::Sine,
                    1 => Waveform::Sawtooth,
                    2 => Waveform::Rectangle,
                    _ => Waveform::Triangle,
                });
                0
            }
            6 => b(o.next()),
            _ => {
                *o = FunctionalOscillator::new(<Acc as PhaseAccumulator>::new(x, y));
                0
            }
        },
        M::W(o) => match op {
            0..=2 => b(o.next()),
            3 => {
                o.set_freq_unchecked(x);
                0
            }
            4 => {
                o.set_phase_shift_unchecked(x);
                0
            }
            5 => {
                o.set_sr_unchecked(x);
                0
            }
            _ => {
                *o = WavetableOscillator::new(d.wave(), <Acc as PhaseAccumulator>::new(x, y));
                0
            }
        },
        M::S(a) => match op {
            0 => a.next_value() as u64,
            1 => b(a.next_value_normalized()),
            2 => {
                a.set_freq_unchecked(x);
                0
            }
            3 => {
                a.set_phase_shift(n as u32);
                0
            }
            4 => {
                a.set_sr_unchecked(x);
                0
            }
            5 => a.set_freq(x).is_ok() as u64,
            6 => {
                a.set_phase_shift(x as u32);
                0
            }
            _ => {
                *a = <Acc as PhaseAccumulator>::new(x, y);
                0
            }
        },
        M::H(h) => match op {
            0 => r(h.get(n as u32 as usize)),
            1 => h.assign(n as u32 as usize, y).is_ok() as u64,
            2 => b(h.get_wrapped(i)),
            3 => h.get_slice_of_four_wrapped(i).iter().fold(0, |k, v| fold(k, b(*v))),
            4 => r(h.lerp(x)),
            5 => near(h.lerp_wrapped(x)),
            6 => near(h.lagrange_four_points_wrapped(x)),
            7 => h.get_sub_slice(n as u32 as usize, y as usize).map(|s| s.len() as u64).unwrap_or(9),
            8 => h.get_sub_slice(x as usize, n as u32 as usize).map(|s| s.len() as u64).unwrap_or(9),
            9 => near(h.lagrange_wrapped(x, y as usize)),
            10 => near(h.lagrange_wrapped(x, n as u32 as usize)),
            12 => match h.get_sub_slice(n as u32 as usize, y as usize) {
                // a window of a window, read as the whole is
                Ok(s) => {
                    let w = s.get_sub_slice(s.len() / 3, s.len() / 2).map(|w| fold(b(w.get_wrapped(-i)), w.len() as u64)).unwrap_or(5);
                    w ^ b(s.get_wrapped(i)) ^ s.get_slice_of_four_wrapped(i).iter().fold(0, |k, v| fold(k, b(*v)))
                }
                Err(_) => 7,
            },
            13 => {
                // the same memory through a handle that cannot write
                let mut c = null();
                let all = h.as_slice();
                unsafe { c.change_slice_unchecked(all as *const f32, h.len()) };
                b(c.get_wrapped(i)) ^ near(c.lerp_wrapped(x)) << 3 ^ near(c.lagrange_wrapped(x, 4)) << 9
            }
            11 => h.as_slice_mut().len() as u64 ^ (h.len() as u64) << 16,
            _ => r(h.get(x as usize)),
        },
        M::P => pure_fn(op as u64, if x.abs() <= 1.0 { x } else { 0.5 }, if (0.0..1.0).contains(&y) { y } else { 0.25 }),
    }
}

fn pure_fn(op: u64, x: f32, y: f32) -> u64 {
    match op {
        0 => b(AdditionalF32Ext::sinc(&(x * 20.0))),
        1 => b(AdditionalF32Ext::si(&(x * 3.0))),
        2 => b(AdditionalF32Ext::sinh(&x)),
        3 => b(AdditionalF32Ext::cosh(&x)),
        4 => b(AdditionalF32Ext::fast_tan(&y)),
        5 => b(AdditionalF32Ext::tanh(&x)),
        6 => b(AdditionalF32Ext::lookup_sin(&(x * 1e4 * y))),
        7 => b(AdditionalF32Ext::lookup_bl_rect(&y)),
        8 => b(AdditionalF32Ext::fixed_point_sin(&(x * 10.0))),
        9 => b(AdditionalF32Ext::fixed_point_cos(&(x * 1e5 * y))),
        10 => r(bit_reduce(x, (y * 36.0) as u8)),
        11 => r(bit_reduce_exp(x, (y * 36.0) as u8)),
        12 => r(lerp(x, y, y * 1.1)),
        13 => {
            let a = [x, y, x * y, -x, y - x, 0.5];
            b(lagrange(&a[..2 + (y * 5.0) as usize], y))
        }
        14 => b(unsafe { lagrange_only_4_elements(&[x, y, -x, -y], 3.0 * y) }),
        15 => stereo_pan(x * 1.1, (x, y)).map(two).unwrap_or(1),
        16 => mono_pan(x * 1.1, y).map(two).unwrap_or(1),
        17 => two(stereo_pan_unchecked(x, (y, x))),
        18 => two(mono_pan_unchecked(x, y)),
        19 => b(crossfade_correlated_unchecked(x, (y, x))),
        20 => b(digital_clip(x * 2.0)),
        // + 0.0: no negative zero, micromath's logarithm does not take it
        21 => r(Decibels::to_decibels(&(x + 0.0))),
        22 => r(Decibels::to_decibels_checked(&y)),
        23 => b(Decibels::to_volt_ratio(&(x * 30.0))),
        24 => ToRawBytes::to_raw_word(&x) as u64,
        25 => sin_i16((x * 32767.0) as i16, (y * 6.0) as u8) as u16 as u64,
        26 => b(DSPUtility::samples_to_seconds(&(x * 1e5), 48_000.0)),
        27 => b(DSPUtility::millis_to_samples(&(x * 1e3), 48_000.0)),
        28 => b(DSPUtility::samples_to_millis(&(x * 1e5), 44_100.0)),
        29 => b(DSPUtility::seconds_to_samples(&x, 44_100.0)),
        30 => b(lerp_unchecked(x, y, y)),
        31 => {
            let c = x.to_f32_components();
            two((f32::from_f32_components(c), f32::from_raw_word(x.to_raw_word())))
        }
        32 => {
            let mut c = BiquadCoeffs::<Butterworth>::new();
            c.bell(1000.0 + 5000.0 * y, 0.8, 2.0 * x, 48_000.0);
            let mut q = Biquad::new(c);
            two((q.process(1.0), q.process(0.0)))
        }
        33 => b(bit_reduce_unchecked(x, (y * 32.0) as u8)),
        34 => b(bit_reduce_exp_unchecked(x, (y * 32.0) as u8)),
        _ => {
            let mut e = AudioRateADSR::new(0.001 * y, 0.001, 0.5, 0.001, 1.0, 8000.0);
            e.trigger_on();
            two((e.tick(), e.tick()))
        }
    }
}
