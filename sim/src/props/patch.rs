//! C21: a whole instrument, built from the real blocks, played by simulated players on a faulty device.
//! Two devices render the same score: one sample by sample, the other in blocks, with its blocks of code
//! run in another order, moved about in memory and its delay memory placed elsewhere.
use super::delay::handle;
use crate::core::*;
use crate::rng::{mix, Rng};
use embedded_audio_tools::dynamics::digital_clip;
use embedded_audio_tools::envelopes::*;
use embedded_audio_tools::filter::{Biquad, BiquadCoeffs, Butterworth};
use embedded_audio_tools::memory_access::*;
use embedded_audio_tools::oscillator::*;
use embedded_audio_tools::stereo::mono_pan_unchecked;
use embedded_audio_tools::{AllPass, Comb, DelayLine};

pub struct C21;
const PLAY: u8 = 0;
const NOTE_ON: u8 = 1;
const NOTE_OFF: u8 = 2;
const KNOB: u8 = 3;
const FILTER: u8 = 4;
const FXKNOB: u8 = 5;
const SCRIBBLE: u8 = 6;
const MOVE: u8 = 7;
const REBOOT: u8 = 8;
const TABLE: u8 = 9;
const QUIET: u8 = 10;
const OPS: [&str; 11] = ["play", "note-on", "note-off", "knob", "filter", "fx-knob", "scribble", "move-buffer", "reboot-fx", "rewrite-table", "quiet"];

type Acc = SoftPhaseAccumulator;
enum Osc {
    F(FunctionalOscillator<Acc>),
    W(WavetableOscillator<Acc>),
}
struct Voice {
    osc: Osc,
    env: AudioRateADSR,
    flt: Biquad<Butterworth>,
    pan: f32,
}
enum Unit {
    C(Comb),
    A(AllPass),
    D(DelayLine, f32),
    X(DelayLine, f32, FunctionalOscillator<Acc>, bool),
}
impl Osc {
    fn next(&mut self) -> f32 {
        match self {
            Osc::F(o) => o.next(),
            Osc::W(o) => o.next(),
        }
    }
}
impl Unit {
    fn new(kind: u64, h: MemorySlice<Mutable>, sr: f32, k: u64) -> Unit {
        match kind {
            0 => Unit::C(Comb::new(h)),
            1 => Unit::A(AllPass::new(h)),
            2 => Unit::D(DelayLine::new(h), 0.5),
            _ => Unit::X(DelayLine::new(h), h.len() as f32 * 0.4, FunctionalOscillator::new(<Acc as PhaseAccumulator>::new(sr * 0.002, sr)), k & 1 == 1),
        }
    }
    fn next(&mut self, x: f32) -> f32 {
        match self {
            Unit::C(c) => c.tick(x),
            Unit::A(a) => a.tick(x),
            Unit::D(d, fb) => {
                let y = d.read();
                d.write_and_advance(x + *fb * y);
                0.5 * x + 0.5 * y
            }
            Unit::X(d, depth, lfo, lag) => {
                let at = (lfo.next() + 1.0) * *depth;
                let y = if *lag { d.read_lagrange_wrapped_at(at) } else { d.read_lerp_wrapped_at(at) };
                d.write_and_advance(x);
                0.5 * x + 0.5 * y
            }
        }
    }
    fn change(&mut self, h: MemorySlice<Mutable>) {
        match self {
            Unit::C(c) => c.change_buffer(h),
            Unit::A(a) => a.change_buffer(h),
            Unit::D(d, _) => d.change_buffer(h),
            Unit::X(d, ..) => d.change_buffer(h),
        }
    }
}

struct Rig {
    ar: Arena,
    sr: f32,
    table: usize,
    ntable: usize,
    kinds: Vec<u64>,
    lens: Vec<usize>,
    /// two equally long places per effect, and the one in use
    place: Vec<[usize; 2]>,
    at: Vec<usize>,
    voices: Vec<Moving<Voice>>,
    fx: Vec<Moving<Unit>>,
    seed: u64,
    cells: usize,
}
/// Memory for the components, at addresses the simulator decides: each lives in a cell of its own and
/// can be moved to another place in it, as a value may be moved at any time.
const CELL: usize = 512;
#[repr(align(4096))]
#[allow(dead_code)]
struct Slab([u8; 16 * CELL]);
static mut SLAB: Slab = Slab([0; 16 * CELL]);
struct Moving<T> {
    cell: usize,
    at: usize,
    p: *mut T,
}
impl<T> Moving<T> {
    fn new(cell: usize, v: T) -> Self {
        assert!(std::mem::size_of::<T>() + 128 <= CELL && cell < 16, "harness: cell");
        let mut m: Moving<T> = Moving { cell, at: 0, p: std::ptr::null_mut() };
        m.p = m.place(0);
        unsafe { m.p.write(v) };
        m
    }
    fn place(&self, at: usize) -> *mut T {
        let al = std::mem::align_of::<T>();
        unsafe { (std::ptr::addr_of_mut!(SLAB) as *mut u8).add(self.cell * CELL + at % (128 / al) * al) as *mut T }
    }
    fn set(&mut self, v: T) {
        unsafe { self.p.write(v) }
    }
    fn relocate(&mut self) {
        self.at = self.at.wrapping_mul(5) + 3;
        unsafe {
            let v = self.p.read();
            self.p = self.place(self.at);
            self.p.write(v);
        }
    }
}
impl<T> std::ops::Deref for Moving<T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.p }
    }
}
impl<T> std::ops::DerefMut for Moving<T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.p }
    }
}
impl Rig {
    fn new(s: &Scen, gap: usize, cells: usize) -> Rig {
        let c = &s.cfg;
        let (nv, nf) = (c[0] as usize, c[1] as usize);
        let seed = c[2] as u64;
        let sr = c[3] as f32;
        let ntable = c[4] as usize;
        let lens: Vec<usize> = (0..nf).map(|i| c[5 + 2 * i] as usize).collect();
        let kinds: Vec<u64> = (0..nf).map(|i| c[6 + 2 * i] as u64).collect();
        let mut ar = Arena::new(lens.iter().sum::<usize>() * 2 + ntable + 20 * gap + 200);
        let table = ar.alloc(ntable, gap);
        for k in 0..ntable {
            ar.set(table + k, (mix(seed + k as u64) >> 40) as f32 / (1u64 << 23) as f32 - 1.0);
        }
        let mut place = vec![];
        for l in &lens {
            let p = [ar.alloc(*l, gap), ar.alloc(*l, gap)];
            for k in 0..*l {
                ar.set(p[0] + k, 0.0);
                ar.set(p[1] + k, 0.0);
            }
            place.push(p);
        }
        let mut rig = Rig { ar, sr, table, ntable, kinds, lens, place, at: vec![0; nf], voices: vec![], fx: vec![], seed, cells };
        for i in 0..nf {
            rig.boot(i);
        }
        for i in 0..nv {
            let acc = <Acc as PhaseAccumulator>::new(sr * 0.01, sr);
            let osc = if mix(seed ^ i as u64) % 3 == 0 {
                let mut t = null();
                unsafe { t.change_slice_unchecked(rig.ar.base().add(table), ntable) };
                Osc::W(WavetableOscillator::new(t, acc))
            } else {
                Osc::F(FunctionalOscillator::new(acc))
            };
            let mut co = BiquadCoeffs::<Butterworth>::new();
            co.lowpass(sr * 0.1, 0.7, sr);
            let v = Voice { osc, env: AudioRateADSR::new(0.002, 0.004, 0.6, 0.005, 1.0, sr), flt: Biquad::new(co), pan: 0.0 };
            rig.voices.push(Moving::new(cells + i, v));
        }
        rig
    }
    fn hold(&mut self, i: usize) -> MemorySlice<Mutable> {
        handle(&mut self.ar, (self.place[i][self.at[i]], self.lens[i]))
    }
    fn boot(&mut self, i: usize) {
        let h = self.hold(i);
        let u = Unit::new(self.kinds[i], h, self.sr, self.seed ^ i as u64);
        if i < self.fx.len() {
            self.fx[i].set(u);
        } else {
            self.fx.push(Moving::new(self.cells + 4 + i, u));
        }
    }
    fn event(&mut self, p: &Step, moves: bool) {
        let sr = self.sr;
        let i = p.a[0] as usize;
        let (k, x, y) = (p.a[1], p.a[2] as f32, p.a[3] as f32);
        match p.op {
            NOTE_ON | NOTE_OFF | KNOB | FILTER => {
                let n = self.voices.len();
                let v = &mut self.voices[i % n];
                match p.op {
                    NOTE_ON => {
                        match &mut v.osc {
                            Osc::F(o) => o.set_freq_unchecked(x * sr),
                            Osc::W(o) => o.set_freq_unchecked(x * sr),
                        }
                        v.env.trigger_on();
                    }
                    NOTE_OFF => v.env.trigger_off(),
                    KNOB => match k as u64 {
                        0 => v.env.set_attack(x * 0.02),
                        1 => v.env.set_decay(x * 0.02),
                        2 => v.env.set_sustain(x),
                        3 => v.env.set_release(x * 0.02),
                        4 => v.env.set_slope(0.3 + 3.0 * x),
                        5 => v.pan = 2.0 * x - 1.0,
                        6 => match &mut v.osc {
                            Osc::F(o) => o.set_phase_shift_unchecked(x),
                            Osc::W(o) => o.set_phase_shift_unchecked(x),
                        },
                        _ => {
                            if let Osc::F(o) = &mut v.osc {
                                o.set_wave(match (x * 4.0) as u32 {
                                    0 => Waveform::Sine,
                                    1 => Waveform::Sawtooth,
                                    2 => Waveform::Rectangle,
                                    _ => Waveform::Triangle,
                                })
                            }
                        }
                    },
                    _ => {
                        let (fc, q) = (x * sr, y);
                        let c = &mut v.flt.coeffs;
                        match k as u64 {
                            0 => c.lowpass(fc, q, sr),
                            1 => c.highpass(fc, q, sr),
                            2 => c.allpass(fc, q, sr),
                            3 => c.notch(fc, q, sr),
                            4 => c.bell(fc, q.min(1.5), 2.0, sr),
                            5 => c.bell(fc, q.min(1.5), -2.0, sr),
                            _ => c.low_shelf(fc, q.min(1.5), 2.0, sr),
                        }
                    }
                }
            }
            TABLE => {
                let c = self.table + k as usize % self.ntable;
                self.ar.set(c, x.clamp(-1.0, 1.0))
            }
            _ => {
                if self.fx.is_empty() {
                    return;
                }
                let i = i % self.fx.len();
                match p.op {
                    FXKNOB => match &mut *self.fx[i] {
                        Unit::C(c) if k == 0.0 => c.set_feedback(0.8 * (2.0 * x - 1.0)),
                        Unit::C(c) => c.set_dampening(0.9 * x),
                        Unit::D(_, fb) => *fb = 0.8 * (2.0 * x - 1.0),
                        Unit::X(_, depth, ..) => *depth = x * self.lens[i] as f32,
                        _ => {}
                    },
                    SCRIBBLE => {
                        for j in 0..p.a[3] as usize {
                            let c = self.place[i][self.at[i]] + (k as usize + j) % self.lens[i];
                            self.ar.set(c, if j % 2 == 0 { x } else { -x });
                        }
                    }
                    MOVE if moves => {
                        let (from, to) = (self.place[i][self.at[i]], self.place[i][1 - self.at[i]]);
                        for c in 0..self.lens[i] {
                            let v = self.ar.get(from + c);
                            self.ar.set(to + c, v);
                        }
                        self.at[i] = 1 - self.at[i];
                        let h = self.hold(i);
                        self.fx[i].change(h);
                    }
                    REBOOT => self.boot(i),
                    _ => {}
                }
            }
        }
    }
    /// sample by sample, voices in order
    fn play(&mut self, n: usize, out: &mut Vec<(f32, f32)>) {
        for _ in 0..n {
            let (mut l, mut r) = (0.0f32, 0.0f32);
            for v in self.voices.iter_mut() {
                let o = v.osc.next();
                let e = v.env.tick();
                let s = v.flt.process(o * e);
                let p = mono_pan_unchecked(v.pan, s);
                l += p.0;
                r += p.1;
            }
            for u in self.fx.iter_mut() {
                l = u.next(l);
            }
            out.push((l, r));
        }
    }
    /// in blocks, one block of code after the other, voices from the last to the first, everything moved
    fn play_blocks(&mut self, n: usize, block: usize, out: &mut Vec<(f32, f32)>) {
        let mut done = 0;
        while done < n {
            let m = block.min(n - done);
            let nv = self.voices.len();
            let mut parts = vec![vec![(0.0f32, 0.0f32); m]; nv];
            for vi in (0..nv).rev() {
                let v = &mut self.voices[vi];
                v.relocate();
                let mut buf: Vec<f32> = (0..m).map(|_| v.env.tick()).collect();
                for b in buf.iter_mut() {
                    let o = v.osc.next();
                    *b = o * *b;
                }
                for (b, p) in buf.iter_mut().zip(parts[vi].iter_mut()) {
                    *p = mono_pan_unchecked(v.pan, v.flt.process(*b));
                }
            }
            let mut mixed: Vec<(f32, f32)> = (0..m)
                .map(|j| {
                    let (mut l, mut r) = (0.0f32, 0.0f32);
                    for p in &parts {
                        l += p[j].0;
                        r += p[j].1;
                    }
                    (l, r)
                })
                .collect();
            for u in self.fx.iter_mut() {
                u.relocate();
                for s in mixed.iter_mut() {
                    s.0 = u.next(s.0);
                }
            }
            out.extend(mixed);
            done += m;
        }
    }
}

impl Prop for C21 {
    fn id(&self) -> &'static str {
        "C21"
    }
    fn ops(&self) -> &'static [&'static str] {
        &OPS
    }
    fn runs(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 12_000 } else { 700_000 }
    }
    fn gen(&self, r: &mut Rng, _t: Tier) -> Scen {
        let nv = r.range(1, 3) as u64;
        let nf = r.range(0, 3) as u64;
        let mut cfg = vec![nv as f64, nf as f64, r.below(1 << 20) as f64, r.pick(&[8000.0, 22_050.0, 44_100.0, 48_000.0, 96_000.0]), r.pick(&[1.0, 2.0, 7.0, 16.0, 64.0, 100.0])];
        let roomy = r.chance(0.04);
        for _ in 0..3 {
            cfg.push(gen_len(r, if roomy { 4000 } else { 150 }) as f64);
            cfg.push(r.below(4) as f64);
        }
        let block = r.pick(&[1, 2, 8, 16, 17, 32, 64, 100, 128]) as f64;
        let horizon = if roomy { r.range(500, 12_000) } else { r.range(20, 1500) } as u64;
        let mut filters = 0;
        let mut tasks = [
            Task {
                id: MIDI,
                next: 0,
                wake: Box::new(move |r, o| {
                    let v = r.below(nv) as f64;
                    if r.chance(0.2) {
                        // unison: the same note on every voice, perhaps slightly detuned
                        let f = r.logrange(0.0005, 0.4);
                        let d = r.pick(&[0.0, 1e-7, 1e-5, 1e-3]);
                        for v in 0..nv {
                            o.push((NOTE_ON, [v as f64, 0.0, (f * (1.0 + d * v as f64)) as f32 as f64, 0.0]));
                        }
                        if r.chance(0.3) {
                            o.push((KNOB, [v, 6.0, r.logrange(1e-8, 0.01) as f32 as f64, 0.0]));
                        }
                    } else if r.chance(0.6) { o.push((NOTE_ON, [v, 0.0, r.logrange(0.0005, 0.4) as f32 as f64, 0.0])) } else { o.push((NOTE_OFF, [v, 0.0, 0.0, 0.0])) }
                    delay(r, if roomy { 700 } else { 120 })
                }),
            },
            Task {
                id: UI,
                next: 0,
                wake: Box::new(move |r, o| {
                    let v = r.below(nv) as f64;
                    if r.chance(0.25) && filters < 12 {
                        filters += 1;
                        o.push((FILTER, [v, r.below(7) as f64, r.logrange(0.006, 0.3) as f32 as f64, r.logrange(0.3, 4.0) as f32 as f64]));
                    } else if nf > 0 && r.chance(0.4) {
                        o.push((FXKNOB, [r.below(nf) as f64, r.below(2) as f64, r.unit() as f32 as f64, 0.0]));
                    } else {
                        o.push((KNOB, [v, r.below(8) as f64, match r.below(4) { 0 => 0.0, 1 => 0.999, _ => r.unit().min(0.999) as f32 as f64 }, 0.0]));
                    }
                    delay(r, if roomy { 500 } else { 90 })
                }),
            },
            Task {
                id: FAULT,
                next: r.below(horizon),
                wake: Box::new(move |r, o| {
                    let f = r.below(nf.max(1)) as f64;
                    match r.below(4) {
                        0 => o.push((SCRIBBLE, [f, r.below(150) as f64, r.pick(&[1.0, -100.0, 1e-20, 3.0]), r.range(1, 20) as f64])),
                        1 => o.push((MOVE, [f, 0.0, 0.0, 0.0])),
                        2 => o.push((REBOOT, [f, 0.0, 0.0, 0.0])),
                        _ => o.push((TABLE, [0.0, r.below(100) as f64, r.f32v(-1.0, 1.0), 0.0])),
                    }
                    delay(r, 300)
                }),
            },
        ];
        let tl = Timeline::build(r, horizon, 60, 0.1, PLAY, |_, n| [n as f64, block, 0.0, 0.0], &mut tasks);
        let mut steps = tl.steps;
        if r.chance(0.005) {
            marathon(r, &mut steps, PLAY, 0, 66_000, 150_000);
        }
        let now = steps.last().map_or(tl.now, |s| s.t.max(tl.now));
        if r.chance(0.4) {
            steps.push(Step { t: now, task: PROBE, op: QUIET, a: [0.0, block, 0.0, 0.0] });
        }
        Scen { cfg, steps }
    }
    fn run(&self, s: &Scen, st: &mut Stats) -> Result<(), Viol> {
        let mut a = Rig::new(s, 9, 0);
        let mut b = Rig::new(s, 30, 8);
        let mut oa: Vec<(f32, f32)> = vec![];
        let mut ob: Vec<(f32, f32)> = vec![];
        for (si, p) in s.steps.iter().enumerate() {
            let from = oa.len();
            let mut quiet = 0;
            match p.op {
                PLAY => {
                    a.play(p.a[0] as usize, &mut oa);
                    b.play_blocks(p.a[0] as usize, (p.a[1] as usize).max(1), &mut ob);
                    st.inc("op.play");
                    st.nontrivial = true;
                }
                QUIET => {
                    for r in [&mut a, &mut b] {
                        for v in r.voices.iter_mut() {
                            v.env.trigger_off();
                        }
                    }
                    // release, filters, then every pass of every effect
                    quiet = (0.021 * a.sr) as usize + 8000 + a.lens.iter().map(|l| 120 * (l + 60)).sum::<usize>();
                    a.play(quiet, &mut oa);
                    b.play_blocks(quiet, 256, &mut ob);
                    st.inc("probe.quiet");
                }
                _ => {
                    a.event(p, true);
                    b.event(p, false);
                    match p.op {
                        SCRIBBLE => st.inc("fault.memory-scribbled"),
                        MOVE => st.inc("fault.buffer-moved"),
                        REBOOT => st.inc("fault.effect-restarted"),
                        TABLE => st.inc("fault.table-rewritten"),
                        NOTE_ON | NOTE_OFF => st.inc("op.gate"),
                        _ => st.inc("op.control"),
                    }
                }
            }
            st.time((oa.len() - from) as u64, a.sr as f64);
            for j in from..oa.len() {
                let (x, y) = (oa[j], ob[j]);
                for (ch, u, v) in [("left", x.0, y.0), ("right", x.1, y.1)] {
                    if !u.is_finite() {
                        return viol("not-finite", si, format!("{ch} sample {j}: {u}"));
                    }
                    if u.to_bits() != v.to_bits() {
                        return viol("schedule-changes-audio", si, format!("{ch} sample {j}: {u:e} sample by sample, {v:e} in blocks with everything moved"));
                    }
                    let c = digital_clip(u);
                    if !(-1.0..=1.0).contains(&c) || (u.abs() <= 0.5 && c != u) {
                        return viol("clip", si, format!("{ch} sample {j}: {u} clipped to {c}"));
                    }
                }
                st.logf(x.0);
                st.logf(x.1);
            }
            if quiet > 0 {
                for j in oa.len() - 64..oa.len() {
                    if oa[j].0.abs() > 1e-3 || oa[j].1.abs() > 1e-3 {
                        return viol("not-silent", si, format!("{:?} {} samples after the last note ended", oa[j], quiet));
                    }
                }
            }
            if si % 8 == 0 {
                for r in [&a, &b] {
                    if let Some(g) = r.ar.check_near_guards() {
                        return viol("write-outside", si, format!("guard cell {g}"));
                    }
                }
            }
            st.state((p.op as u64) << 32 | (p.a[1] as u64) << 16 | a.kinds.first().copied().unwrap_or(9) << 8 | a.voices.len() as u64);
        }
        for i in 0..a.lens.len() {
            for k in 0..a.lens[i] {
                let (x, y) = (a.ar.get(a.place[i][a.at[i]] + k), b.ar.get(b.place[i][b.at[i]] + k));
                if x.to_bits() != y.to_bits() {
                    return viol("schedule-changes-memory", s.steps.len(), format!("effect {i} cell {k}: {x:e} / {y:e}"));
                }
            }
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "a case is one score (up to 60 note, knob, filter, effect and fault events over up to 1500, sometimes 12000 or more, samples, in two fifths of the cases followed by silence) played by an instrument of 1..3 voices and 0..3 effects on two devices with different block sizes, orders, places and buffer moves; non-trivial when audio was rendered; distinct by all samples"
    }
    fn real(&self) -> &'static str {
        "FunctionalOscillator, WavetableOscillator, SoftPhaseAccumulator, AudioRateADSR, Biquad with Butterworth designs, Comb, AllPass, DelayLine with fractional taps, mono_pan_unchecked, digital_clip, MemorySlice"
    }
    fn stub(&self) -> &'static str {
        "memory, players, block scheduler, memory manager, corruption"
    }
}
