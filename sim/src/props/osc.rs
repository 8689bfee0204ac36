//! C12 phase accumulator, C13 functional oscillator, C14 wavetable oscillator.
use crate::core::*;
use crate::rng::Rng;
use embedded_audio_tools::errors::FrequencyError;
use embedded_audio_tools::memory_access::*;
use embedded_audio_tools::oscillator::*;
use std::cell::RefCell;
use std::rc::Rc;

type Acc = SoftPhaseAccumulator;

/// Calls the checked frequency setter whether it takes the accumulator by value or by reference.
pub struct ByVal;
pub struct ByRef;
pub trait CallSet<M> {
    fn call(self, a: &mut Acc, f: f32) -> Result<(), FrequencyError>;
}
impl<F: Fn(Acc, f32) -> Result<(), FrequencyError>> CallSet<ByVal> for F {
    fn call(self, a: &mut Acc, f: f32) -> Result<(), FrequencyError> {
        // the accumulator is plain data: hand over a bitwise copy
        self(unsafe { std::ptr::read(a) }, f)
    }
}
impl<F: Fn(&mut Acc, f32) -> Result<(), FrequencyError>> CallSet<ByRef> for F {
    fn call(self, a: &mut Acc, f: f32) -> Result<(), FrequencyError> {
        self(a, f)
    }
}
/// 0 applied, 1 zero, 2 negative, 3 bigger than Nyquist
fn set_freq_checked(a: &mut Acc, f: f32) -> u32 {
    match CallSet::call(SoftPhaseAccumulator::set_freq, a, f) {
        Ok(()) => 0,
        Err(FrequencyError::Zero) => 1,
        Err(FrequencyError::Negative) => 2,
        Err(FrequencyError::BiggerThanNyquist) => 3,
    }
}
fn new_acc(f: f32, sr: f32) -> Acc {
    <SoftPhaseAccumulator as PhaseAccumulator>::new(f, sr)
}

fn gen_freq(r: &mut Rng, sr: f64) -> f64 {
    let f = match r.below(9) {
        0 => r.pick(&[0.0, 1.0, 440.0, 0.01, 1e-6, 1e-40]),
        1 => sr / (1u64 << r.below(20)) as f64,
        2 => r.logrange(1e-4, sr),
        3 => r.frange(0.0, sr),
        4 => sr * r.pick(&[1.0, 0.5, 0.25, 0.75, 0.999_999]),
        5 => r.logrange(0.05, 20.0),
        _ => r.logrange(20.0, sr / 2.0),
    };
    f.min(sr) as f32 as f64
}
fn gen_shift(r: &mut Rng) -> f64 {
    match r.below(7) {
        0 => 0.0,
        1 => 0.5,
        2 => r.pick(&[0.25, 0.75, 1.0]),
        3 => 1.0 - r.logrange(1e-8, 0.1),
        4 => r.logrange(1e-9, 0.1),
        _ => r.unit(),
    }
}
const RATES: [f64; 9] = [8000.0, 16000.0, 22050.0, 44100.0, 48000.0, 96000.0, 192000.0, 44099.3, 1000.0];

// ------------------------------------------------------------------ C12
pub struct C12;
const RAW: u8 = 0;
const NORM: u8 = 1;
const FREQ: u8 = 2;
const FREQC: u8 = 3;
const SRATE: u8 = 4;
const SHIFT: u8 = 5;
const BADF: u8 = 6;

impl Prop for C12 {
    fn id(&self) -> &'static str {
        "C12"
    }
    fn ops(&self) -> &'static [&'static str] {
        &["read-raw", "read-normalised", "set-freq", "set-freq-checked", "set-sample-rate", "set-shift", "set-bad-freq", "rewrite-same"]
    }
    fn runs(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 6_000_000 } else { 60_000_000 }
    }
    fn gen(&self, r: &mut Rng, _t: Tier) -> Scen {
        let sr = r.pick(&RATES) as f32 as f64;
        let horizon = match r.below(30) {
            0 => r.below(100_000) + 1,
            1..=5 => r.below(10_000) + 1,
            _ => r.below(800) + 20,
        };
        let mean = r.pick(&[2, 20, 200, 2000]);
        let rates = r.chance(0.4);
        let mut cur_sr = sr;
        let mode = r.below(3);
        let mut tasks = vec![Task {
            id: UI,
            next: r.below(mean),
            wake: Box::new(move |r: &mut Rng, o: &mut Vec<(u8, [f64; 4])>| {
                let op = FREQ + r.weighted(&[4, 4, if rates { 2 } else { 0 }, 4, 2, 1]) as u8;
                let a = match op {
                    FREQ => gen_freq(r, cur_sr),
                    FREQC => gen_freq(r, cur_sr).max(r.pick(&[1.4e-45, 1e-40, 1.17e-38, 1e-6])) as f32 as f64,
                    SRATE => {
                        cur_sr = r.pick(&RATES) as f32 as f64;
                        cur_sr
                    }
                    SHIFT => match r.below(5) {
                        0 => 0.0,
                        1 => u32::MAX as f64 - r.below(300) as f64,
                        2 => (1u64 << r.below(32)) as f64,
                        _ => r.below(1 << 32) as f64,
                    },
                    BADF => r.pick(&[0.0, -0.0, -1.0, -1e-30, -48000.0, f64::NEG_INFINITY]),
                    _ => 0.0,
                };
                let a = if op == SHIFT { a } else { a as f32 as f64 };
                o.push((op, [a, 0.0, 0.0, 0.0]));
                if op == SRATE {
                    // a host that changes the rate re-sends the frequency within the new range
                    o.push((FREQ, [gen_freq(r, cur_sr), 0.0, 0.0, 0.0]));
                }
                delay(r, mean)
            }),
        }];
        let tl = Timeline::build(r, horizon, 120, 0.05, RAW, |_, n| [n as f64, 0.0, 0.0, 0.0], &mut tasks);
        drop(tasks);
        let mut steps = tl.steps;
        if r.chance(0.001) {
            marathon(r, &mut steps, RAW, 0, 66_000, 1 << 25);
        }
        for s in steps.iter_mut() {
            if s.op == RAW && (mode == 1 || mode == 2 && r.chance(0.5)) {
                s.op = NORM;
            }
        }
        Scen { cfg: vec![gen_freq(r, sr), sr, 1.0], steps }
    }
    fn run(&self, s: &Scen, st: &mut Stats) -> Result<(), Viol> {
        let sr0 = (s.cfg[1] as f32).max(1.0);
        let f0 = (s.cfg[0] as f32).clamp(0.0, sr0);
        // the twin gets the same calls but is always read raw, so it shows the phase behind a normalised read
        let mut acc = new_acc(f0, sr0);
        let mut twin = new_acc(f0, sr0);
        let (mut freq, mut sr, mut shift) = (f0 as f64, sr0 as f64, 0u32);
        let mut phase = 0u32;
        let mut delta: Option<u32> = None;
        let mut wraps = 0u64;
        for (si, stp) in s.steps.iter().enumerate() {
            let v = stp.a[0] as f32;
            match stp.op {
                RAW | NORM => {
                    st.inc(if stp.op == RAW { "op.read-raw" } else { "op.read-normalised" });
                    let n = (stp.a[0] as u64).min(1 << 26);
                    for _ in 0..n {
                        let tw = twin.next_value();
                        let raw = if stp.op == RAW {
                            let r = acc.next_value();
                            st.log(r as u64);
                            if r != tw {
                                return viol("twins-disagree", si, format!("{r:#x} and {tw:#x} after the same history"));
                            }
                            r
                        } else {
                            let x = acc.next_value_normalized();
                            st.logf(x);
                            if !(x >= 0.0 && x < 1.0) {
                                return viol("normalised-out-of-range", si, format!("{x:e} for raw {tw:#x}"));
                            }
                            let want = tw as f64 / 4294967296.0;
                            if !((x as f64 - want).abs() <= 1e-7) {
                                return viol("normalised-not-raw", si, format!("normalised {x}, raw/2^32 {want}"));
                            }
                            tw
                        };
                        let np = raw.wrapping_sub(shift);
                        let d = np.wrapping_sub(phase);
                        if np < phase {
                            wraps += 1;
                        }
                        phase = np;
                        if let Some(d0) = delta {
                            if d != d0 {
                                return viol("step-not-constant", si, format!("step {d:#x} after {d0:#x} with freq {freq} sr {sr}"));
                            }
                        } else {
                            let ideal = freq / sr * 4294967296.0;
                            let tol = 3e-7 * ideal + 2.0;
                            let mut e = d as f64 - ideal;
                            if e < -2147483648.0 {
                                e += 4294967296.0;
                            }
                            if !(e.abs() <= tol) {
                                return viol("wrong-step", si, format!("step {d} for freq {freq} sr {sr}, expected {ideal:.1} +- {tol:.1}"));
                            }
                            delta = Some(d);
                        }
                    }
                    st.time(n, sr);
                }
                FREQ => {
                    st.inc("op.set-freq");
                    let v = v.clamp(0.0, sr as f32);
                    acc.set_freq_unchecked(v);
                    twin.set_freq_unchecked(v);
                    freq = v as f64;
                    delta = None;
                }
                FREQC => {
                    st.inc("op.set-freq-checked");
                    let v = v.clamp(f32::from_bits(1), sr as f32);
                    let (a, b) = (set_freq_checked(&mut acc, v), set_freq_checked(&mut twin, v));
                    if freq > 0.0 && (v as f64) > sr / 2.0 && a == 3 && b == 3 {
                        // rejecting above Nyquist is a documented error too: nothing may change
                    } else {
                        if a != 0 || b != 0 {
                            return viol("valid-frequency-rejected", si, format!("{v} at sr {sr}"));
                        }
                        freq = v as f64;
                        delta = None;
                    }
                }
                BADF => {
                    st.inc("fault.bad-frequency");
                    let v = if v > 0.0 { -v } else { v };
                    let want = if v == 0.0 { 1 } else { 2 };
                    let (a, b) = (set_freq_checked(&mut acc, v), set_freq_checked(&mut twin, v));
                    if a != want || b != want {
                        return viol("bad-frequency-accepted", si, format!("{v}: result {a}, expected {want}"));
                    }
                    // must leave the accumulator as it was: same step continues
                }
                SRATE => {
                    st.inc("fault.sample-rate-switch");
                    let v = v.max(1.0);
                    acc.set_sr_unchecked(v);
                    twin.set_sr_unchecked(v);
                    sr = v as f64;
                    if freq > sr {
                        freq = sr;
                        acc.set_freq_unchecked(v);
                        twin.set_freq_unchecked(v);
                    }
                    delta = None;
                }
                SHIFT => {
                    st.inc("op.set-shift");
                    shift = stp.a[0].clamp(0.0, u32::MAX as f64) as u32;
                    acc.set_phase_shift(shift);
                    twin.set_phase_shift(shift);
                }
                _ => {
                    st.inc("op.rewrite-same");
                    acc.set_freq_unchecked(freq as f32);
                    acc.set_sr_unchecked(sr as f32);
                    acc.set_phase_shift(shift);
                    // same values again: nothing may change, the step stays
                }
            }
            st.state(stp.op as u64 | (phase >> 29) as u64 | ((shift >> 29) as u64) << 8 | ((freq / sr * 16.0) as u64) << 16 | (wraps.min(2)) << 24 | (delta.is_some() as u64) << 28);
            st.nontrivial |= delta.is_some();
        }
        st.add("probe.phase-wraps", wraps);
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "a case is one schedule of raw/normalised reads, frequency, rate and shift changes and rejected settings on a pair of accumulators; non-trivial when at least one tick ran; distinct by full event log"
    }
    fn real(&self) -> &'static str {
        "SoftPhaseAccumulator"
    }
    fn stub(&self) -> &'static str {
        "knobs, sample-rate switch, audio interrupt"
    }
}

// ------------------------------------------------------------------ simulated hardware timer
#[derive(Default)]
struct TimerState {
    /// raw phase the timer shows at the next read
    raw: u32,
    step: u32,
    reads: u64,
    log: Vec<(u8, f32, u32)>,
    behaviour: u64,
    rng: u64,
}
struct SimTimer {
    s: Rc<RefCell<TimerState>>,
}
impl TimerState {
    fn advance(&mut self) -> u32 {
        self.reads += 1;
        self.rng = crate::rng::mix(self.rng);
        let h = self.rng;
        match self.behaviour {
            1 => {}                                                // stalled
            2 => self.raw = (h >> 20) as u32,                      // jumps anywhere
            3 => self.raw = self.raw.wrapping_add(self.step).wrapping_add((h & 0xffff) as u32), // jitter
            4 => self.raw = self.raw.wrapping_sub(self.step),      // backwards
            5 => {
                // missed interrupts: several steps at once
                self.raw = self.raw.wrapping_add(self.step.wrapping_mul((h % 7) as u32))
            }
            6 => {
                // edge values
                self.raw = [0, 1, 0x3fff_ffff, 0x4000_0000, 0x7fff_ff00, 0x8000_0000, 0x8000_0100, 0xc000_0000, 0xffff_ff00, 0xffff_ffff][(h % 10) as usize]
            }
            _ => self.raw = self.raw.wrapping_add(self.step),
        }
        self.raw
    }
}
fn norm(raw: u32) -> f32 {
    ((raw >> 8) as f32) / 16777216.0
}
impl PhaseAccumulator for SimTimer {
    type Object = SimTimer;
    fn new(_f: f32, _sr: f32) -> SimTimer {
        SimTimer { s: Default::default() }
    }
    fn set_sr_unchecked(&mut self, sr: f32) {
        self.s.borrow_mut().log.push((0, sr, 0));
    }
    fn set_freq_unchecked(&mut self, f: f32) {
        self.s.borrow_mut().log.push((1, f, 0));
    }
    fn set_phase_shift(&mut self, shift: u32) {
        self.s.borrow_mut().log.push((2, 0.0, shift));
    }
    fn next_value(&mut self) -> u32 {
        self.s.borrow_mut().advance() & !0xff
    }
    fn next_value_normalized(&mut self) -> f32 {
        norm(self.s.borrow_mut().advance())
    }
}

const O_TICK: u8 = 0;
const O_WAVE: u8 = 1;
const O_FREQ: u8 = 2;
const O_SHIFT: u8 = 3;
const O_SR: u8 = 4;
const O_BEHAVE: u8 = 5;
const O_TABLE: u8 = 6;
const O_OPS: [&str; 8] = ["sample", "set-wave", "set-freq", "set-shift", "set-sample-rate", "timer-fault", "rewrite-table", "replace-oscillator"];

fn gen_osc(r: &mut Rng, table: bool) -> Scen {
    let sr = r.pick(&RATES) as f32 as f64;
    let soft = r.chance(0.5);
    let horizon = match r.below(8) {
        0 => r.below(20_000) + 1,
        1 => r.below(4000) + 1,
        _ => r.below(300) + 10,
    };
    let mean = r.pick(&[2, 10, 60, 300]);
    let len = if table { gen_len(r, 4096) } else { 0 };
    let mut tasks = vec![
        Task {
            id: UI,
            next: r.below(mean),
            wake: Box::new(move |r: &mut Rng, o: &mut Vec<(u8, [f64; 4])>| {
                let op = O_WAVE + r.weighted(&[if table { 0 } else { 5 }, 3, 4, 1]) as u8;
                let a = match op {
                    O_WAVE => r.below(4) as f64,
                    O_FREQ => gen_freq(r, sr),
                    O_SHIFT => gen_shift(r) as f32 as f64,
                    _ => r.pick(&RATES) as f32 as f64,
                };
                o.push((op, [a, 0.0, 0.0, 0.0]));
                delay(r, mean)
            }),
        },
        Task {
            id: TIMER,
            next: if soft { u64::MAX } else { r.below(mean) },
            wake: Box::new(move |r, o| {
                o.push((O_BEHAVE, [r.below(7) as f64, match r.below(3) { 0 => r.below(1 << 32), 1 => 1u64 << r.below(32), _ => r.below(1 << 28) } as f64, r.below(1 << 32) as f64, 0.0]));
                delay(r, mean * 2)
            }),
        },
        Task {
            id: FAULT,
            next: if table { r.below(mean * 2) } else { u64::MAX },
            wake: Box::new(move |r, o| {
                o.push((O_TABLE, [r.below(len.max(1)) as f64, r.f32v(-1.0, 1.0), 0.0, 0.0]));
                delay(r, mean)
            }),
        },
    ];
    let tl = Timeline::build(r, horizon, 120, 0.05, O_TICK, |_, n| [n as f64, 0.0, 0.0, 0.0], &mut tasks);
    drop(tasks);
    let mut tl = tl;
    if r.chance(0.002) {
        marathon(r, &mut tl.steps, O_TICK, 0, 66_000, 2_000_000);
    }
    Scen { cfg: vec![soft as u64 as f64, gen_freq(r, sr), sr, r.below(4) as f64, len as f64, r.below(1 << 20) as f64], steps: tl.steps }
}

fn wave(k: u64) -> Waveform {
    match k & 3 {
        0 => Waveform::Sine,
        1 => Waveform::Rectangle,
        2 => Waveform::Sawtooth,
        _ => Waveform::Triangle,
    }
}
const WN: [&str; 4] = ["sine", "rectangle", "sawtooth", "triangle"];

/// What the controls of the oscillator under test did to the accumulator.
enum Src {
    Sim(Rc<RefCell<TimerState>>),
    /// a twin accumulator given the same settings directly
    Soft(Acc),
}
enum Osc {
    FSim(FunctionalOscillator<SimTimer>),
    FSoft(FunctionalOscillator<Acc>),
    WSim(WavetableOscillator<SimTimer>),
    WSoft(WavetableOscillator<Acc>),
}
impl Osc {
    fn next(&mut self) -> f32 {
        match self {
            Osc::FSim(o) => o.next(),
            Osc::FSoft(o) => o.next(),
            Osc::WSim(o) => o.next(),
            Osc::WSoft(o) => o.next(),
        }
    }
    fn set(&mut self, op: u8, v: f32) {
        macro_rules! go {
            ($o:expr) => {
                match op {
                    O_FREQ => $o.set_freq_unchecked(v),
                    O_SHIFT => $o.set_phase_shift_unchecked(v),
                    _ => $o.set_sr_unchecked(v),
                }
            };
        }
        match self {
            Osc::FSim(o) => go!(o),
            Osc::FSoft(o) => go!(o),
            Osc::WSim(o) => go!(o),
            Osc::WSoft(o) => go!(o),
        }
    }
    fn wave(&mut self, k: u64) {
        match self {
            Osc::FSim(o) => o.set_wave(wave(k)),
            Osc::FSoft(o) => o.set_wave(wave(k)),
            _ => {}
        }
    }
}

/// Runs one oscillator schedule; `judge(raw phase/2^32 exact, f32 phase, wave, table, output)`.
fn run_osc(s: &Scen, st: &mut Stats, table_osc: bool) -> Result<(), Viol> {
    let soft = s.cfg[0] != 0.0;
    let (f0, sr0) = (s.cfg[1] as f32, (s.cfg[2] as f32).max(1.0));
    let mut wv = s.cfg[3] as u64 & 3;
    let len = (s.cfg[4] as usize).max(1);
    let seed = s.cfg[5] as u64;
    let mut ar = Arena::new(len + 200);
    let off = ar.alloc(len, 50);
    let mut tab: Vec<f32> = (0..len).map(|i| sig(3, 1.0, seed, i as u64)).collect();
    for (i, v) in tab.iter().enumerate() {
        ar.set(off + i, *v);
    }
    let mut h = null();
    unsafe { h.change_slice_unchecked(ar.base().add(off), len) };
    let ts: Rc<RefCell<TimerState>> = Default::default();
    ts.borrow_mut().step = (f0 as f64 / sr0 as f64 * 4294967296.0) as u32;
    ts.borrow_mut().rng = seed;
    let mut osc = match (table_osc, soft) {
        (false, false) => Osc::FSim(FunctionalOscillator::new(SimTimer { s: ts.clone() })),
        (false, true) => Osc::FSoft(FunctionalOscillator::new(new_acc(f0, sr0))),
        (true, false) => Osc::WSim(WavetableOscillator::new(h, SimTimer { s: ts.clone() })),
        (true, true) => Osc::WSoft(WavetableOscillator::new(h, new_acc(f0, sr0))),
    };
    if !table_osc {
        // a new oscillator is a sine until told otherwise
        wv = if s.cfg[3] >= 4.0 { wv } else { 0 };
    }
    let mut src = if soft { Src::Soft(new_acc(f0, sr0)) } else { Src::Sim(ts) };
    for (si, stp) in s.steps.iter().enumerate() {
        let v = stp.a[0] as f32;
        match stp.op {
            O_TICK => {
                st.inc("op.sample");
                let n = (stp.a[0] as u64).min(4_000_000);
                for _ in 0..n {
                    let reads0 = if let Src::Sim(t) = &src { t.borrow().reads } else { 0 };
                    let y = osc.next();
                    st.logf(y);
                    // exact phase p, and how far the phase handed over may be from it
                    let (p, dp) = match &mut src {
                        Src::Sim(t) => {
                            let t = t.borrow();
                            if t.reads != reads0 + 1 {
                                return viol("accumulator-not-advanced-once", si, format!("{} reads for one sample", t.reads - reads0));
                            }
                            if !t.log.is_empty() {
                                return viol("sample-touches-settings", si, "a setter was called while producing a sample".into());
                            }
                            ((t.raw & !0xff) as f64 / 4294967296.0, 1e-9)
                        }
                        Src::Soft(a) => (a.next_value() as f64 / 4294967296.0, 1.3e-7),
                    };
                    if table_osc {
                        if !y.is_finite() || y.abs() > 1.0001 {
                            return viol("read-outside-table", si, format!("{y} at phase {p} of a {len}-entry table"));
                        }
                        let pos = p * len as f64;
                        let f = pos.floor();
                        let x = pos - f;
                        let at = |i: i64| tab[i.rem_euclid(len as i64) as usize] as f64;
                        let fi = f as i64;
                        let want = at(fi) * (1.0 - x) + at(fi + 1) * x;
                        let d = (dp + 1.3e-7) * len as f64 + 1e-7;
                        let mut sl = 0.0f64;
                        for k in -1..=1 {
                            sl = sl.max((at(fi + k + 1) - at(fi + k)).abs());
                        }
                        let tol = sl * d * 2.0 + 1e-6;
                        if !((y as f64 - want).abs() <= tol) {
                            return viol("not-the-interpolated-table", si, format!("phase {p} of {len} entries: {y}, expected {want} +- {tol:.1e}"));
                        }
                        if fi + 1 == len as i64 {
                            st.inc("probe.last-segment");
                        }
                        st.state(((p * 8.0) as u64) << 8 | (64 - (len as u64).leading_zeros() as u64) << 16 | soft as u64);
                    } else {
                        let lim = if wv == 0 { 1.0001 } else { 1.0 };
                        if !(y.abs() <= lim) {
                            return viol("waveform-out-of-range", si, format!("{} at phase {p}: {y}", WN[wv as usize]));
                        }
                        let y = y as f64;
                        // next to an edge of the waveform either side is right, on it only when p itself is an estimate
                        let near = |e: f64| (p - e).abs() <= dp + 6e-8 && (soft || p != e);
                        let ok = match wv {
                            0 => (y - (p * std::f64::consts::TAU).sin()).abs() <= 5e-4,
                            1 => {
                                let w = if p < 0.5 { -1.0 } else { 1.0 };
                                y == w || (y.abs() == 1.0 && (near(0.5) || near(0.0) || near(1.0)))
                            }
                            2 => (y - (2.0 * p - 1.0)).abs() <= 1e-5 || (y.abs() >= 1.0 - 1e-5 && (near(0.0) || near(1.0))),
                            _ => (y - if p < 0.5 { 4.0 * p - 1.0 } else { 3.0 - 4.0 * p }).abs() <= 1e-5,
                        };
                        if !ok {
                            return viol("wrong-waveform", si, format!("{} at phase {p}: {y}", WN[wv as usize]));
                        }
                        if p == 0.5 || p == 0.0 { st.inc("probe.phase-on-edge"); }
                        st.state(wv | ((p * 16.0) as u64) << 8 | (soft as u64) << 4);
                    }
                    st.nontrivial = true;
                }
                st.time(n, sr0 as f64);
            }
            O_WAVE => {
                st.inc("op.set-wave");
                wv = stp.a[0] as u64 & 3;
                osc.wave(wv);
            }
            O_FREQ | O_SHIFT | O_SR => {
                st.inc(match stp.op { O_FREQ => "op.set-freq", O_SHIFT => "op.set-shift", _ => "fault.sample-rate-switch" });
                let v = if stp.op == O_SR { v.max(1.0) } else if stp.op == O_SHIFT { v.clamp(0.0, 1.0) } else { v.max(0.0) };
                osc.set(stp.op, v);
                match &mut src {
                    Src::Sim(t) => {
                        let mut t = t.borrow_mut();
                        let l = std::mem::take(&mut t.log);
                        let ok = l.len() == 1
                            && match (stp.op, l[0]) {
                                (O_FREQ, (1, x, _)) => x == v,
                                (O_SR, (0, x, _)) => x == v,
                                (O_SHIFT, (2, _, x)) => {
                                    let mut d = x as f64 - v as f64 * 4294967296.0;
                                    if d < -2147483648.0 { d += 4294967296.0 }
                                    d.abs() <= 600.0
                                }
                                _ => false,
                            };
                        if !ok {
                            return viol("setting-not-passed-on", si, format!("{} {v} reached the accumulator as {l:?}", O_OPS[stp.op as usize]));
                        }
                    }
                    Src::Soft(a) => match stp.op {
                        O_FREQ => a.set_freq_unchecked(v),
                        O_SR => a.set_sr_unchecked(v),
                        // the same conversion as specified: s full turns, saturating at the last step
                        _ => a.set_phase_shift((v as f64 * 4294967296.0).min(4294967295.0) as u32),
                    },
                }
            }
            O_BEHAVE => {
                if let Src::Sim(t) = &src {
                    let mut t = t.borrow_mut();
                    t.behaviour = stp.a[0] as u64 % 7;
                    t.step = stp.a[1].min(4294967295.0) as u32;
                    t.rng ^= stp.a[2] as u64;
                    st.inc(["op.timer-regular", "fault.timer-stall", "fault.timer-jump", "fault.timer-jitter", "fault.timer-reverse", "fault.timer-missed-ticks", "fault.timer-edge-phases"][t.behaviour as usize]);
                }
            }
            O_TABLE => {
                st.inc("fault.table-rewritten");
                let i = stp.a[0] as usize % len;
                tab[i] = (stp.a[1] as f32).clamp(-1.0, 1.0);
                ar.set(off + i, tab[i]);
            }
            _ => {}
        }
        for (i, t) in tab.iter().enumerate().step_by(1 + len / 64) {
            if ar.get(off + i).to_bits() != t.to_bits() {
                return viol("table-modified", si, format!("entry {i}"));
            }
        }
        if let Some(g) = ar.check_near_guards() {
            return viol("write-outside-table", si, format!("guard cell {g}"));
        }
    }
    Ok(())
}

pub struct C13;
impl Prop for C13 {
    fn id(&self) -> &'static str {
        "C13"
    }
    fn ops(&self) -> &'static [&'static str] {
        &O_OPS
    }
    fn runs(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 1_200_000 } else { 50_000_000 }
    }
    fn gen(&self, r: &mut Rng, _t: Tier) -> Scen {
        gen_osc(r, false)
    }
    fn run(&self, s: &Scen, st: &mut Stats) -> Result<(), Viol> {
        run_osc(s, st, false)
    }
    fn rule(&self) -> &'static str {
        "a case is one schedule of samples, control changes and timer faults on one oscillator (software or simulated hardware accumulator); non-trivial when at least one sample was produced; distinct by full event log"
    }
    fn real(&self) -> &'static str {
        "FunctionalOscillator, SoftPhaseAccumulator (half of the runs), fixed-point sine"
    }
    fn stub(&self) -> &'static str {
        "hardware timer (simulated PhaseAccumulator, half of the runs), knobs, audio interrupt"
    }
}
pub struct C14;
impl Prop for C14 {
    fn id(&self) -> &'static str {
        "C14"
    }
    fn ops(&self) -> &'static [&'static str] {
        &O_OPS
    }
    fn runs(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 1_200_000 } else { 50_000_000 }
    }
    fn gen(&self, r: &mut Rng, _t: Tier) -> Scen {
        gen_osc(r, true)
    }
    fn run(&self, s: &Scen, st: &mut Stats) -> Result<(), Viol> {
        run_osc(s, st, true)
    }
    fn rule(&self) -> &'static str {
        "a case is one schedule of samples, control changes, table rewrites and timer faults on one wavetable oscillator; non-trivial when at least one sample was produced; distinct by full event log"
    }
    fn real(&self) -> &'static str {
        "WavetableOscillator, MemorySlice<NonMutable>, SoftPhaseAccumulator (half of the runs)"
    }
    fn stub(&self) -> &'static str {
        "hardware timer (simulated PhaseAccumulator, half of the runs), table memory and its writer, knobs"
    }
}
