//! C09 range, C10 stages and timing, C11 gate continuity of the ADSR envelope.
use crate::core::*;
use crate::rng::Rng;
use embedded_audio_tools::envelopes::{AudioRateADSR, EnvelopeState};
use embedded_audio_tools::float::F32Ext;

const TICK: u8 = 0;
const ON: u8 = 1;
const OFF: u8 = 2;
const RESET: u8 = 3;
const ATT: u8 = 4;
const DEC: u8 = 5;
const SUS: u8 = 6;
const REL: u8 = 7;
const SLOPE: u8 = 8;
const SR: u8 = 9;
const OPS: [&str; 10] = ["tick", "gate-on", "gate-off", "reset", "set-attack", "set-decay", "set-sustain", "set-release", "set-slope", "set-sample-rate"];

pub const RATES: [f64; 7] = [8000.0, 16000.0, 22050.0, 44100.0, 48000.0, 96000.0, 192000.0];

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Range,
    Stages,
    Edges,
}

fn gen_time(r: &mut Rng, mode: Mode, base: f64, sr: f64) -> f64 {
    let t = match (mode, r.below(12)) {
        (_, 0) => 0.0,
        (Mode::Range, 1) => r.pick(&[1e-30, 1e-9, 1e9, 3e38, f64::from(f32::MIN_POSITIVE)]),
        (Mode::Range, 2) => r.logrange(1e-7, 1e4),
        (_, 3) => r.range(1, 4) as f64 / sr,
        (_, 4) => r.logrange(1e-5, 0.1),
        _ => base * r.frange(0.2, 2.0) / sr,
    };
    let t = if mode == Mode::Range { t } else { t.min(2.0) };
    t as f32 as f64
}
fn gen_slope(r: &mut Rng, mode: Mode) -> f64 {
    let s = match (mode, r.below(8)) {
        (Mode::Range, 0) => r.pick(&[0.0, -1.0, -0.0, 1e30, 1e-30, 21.0, 0.049, 3.4e38, -3.4e38]),
        (_, 1) => 1.0,
        (_, 2) => r.pick(&[0.05, 20.0, 0.5, 2.0]),
        (_, 3) => r.logrange(0.05, 20.0),
        _ => r.logrange(0.25, 4.0),
    };
    s as f32 as f64
}
fn gen_sus(r: &mut Rng, mode: Mode) -> f64 {
    let s = match (mode, r.below(8)) {
        (Mode::Range, 0) => r.pick(&[-1.0, 2.0, 1e30, -1e30, 1.0000001, -1e-30]),
        (_, 1) => 0.0,
        (_, 2) => 1.0,
        (_, 3) => r.pick(&[0.5, 1e-4, 0.999, 1e-8]),
        _ => r.f32v(0.0, 1.0),
    };
    s as f32 as f64
}

fn gen(r: &mut Rng, mode: Mode) -> Scen {
    let sr = r.pick(&RATES);
    let base = match r.below(8) {
        0 => 1.0,
        1 => 3.0,
        2 => r.frange(5.0, 40.0),
        3..=5 => r.frange(40.0, 400.0),
        6 => r.frange(400.0, 4000.0),
        _ => {
            if r.chance(0.1) { sr } else { r.frange(1000.0, 8000.0) }
        }
    };
    let cfg = vec![gen_time(r, mode, base, sr), gen_time(r, mode, base, sr), gen_sus(r, mode), gen_time(r, mode, base, sr), gen_slope(r, mode), sr];
    let horizon = (base * r.frange(2.0, 10.0)) as u64 + 12;
    let gate_mean = match r.below(4) {
        0 => 2,
        1 => (base * 0.3) as u64 + 1,
        2 => (base * 1.5) as u64 + 1,
        _ => (base * 4.0) as u64 + 1,
    };
    let knob_mean = r.pick(&[3, base as u64 + 1, 3 * base as u64 + 1]);
    let knobs = r.chance(0.7);
    let resets = r.chance(0.3);
    // swarm: which knobs exist in this run
    let kw: Vec<u32> = (0..6).map(|_| r.chance(0.6) as u32).collect();
    let kw = if kw.iter().sum::<u32>() == 0 { vec![1; 6] } else { kw };
    // gate edges and knob moves that meet the stage changes
    let meet = r.chance(0.3);
    let mut gate = false;
    let mut tasks = vec![
        Task {
            id: MIDI,
            next: r.below(3),
            wake: Box::new(move |r: &mut Rng, o: &mut Vec<(u8, [f64; 4])>| {
                if resets && r.chance(0.08) {
                    o.push((RESET, [0.0; 4]));
                }
                // mostly alternating, sometimes repeated edges and same-sample bursts
                let k = if r.chance(0.1) { r.range(2, 4) } else { 1 };
                for _ in 0..k {
                    if r.chance(0.85) {
                        gate = !gate;
                    }
                    o.push((if gate { ON } else { OFF }, [0.0; 4]));
                }
                delay(r, gate_mean)
            }),
        },
        Task {
            id: UI,
            next: if knobs { r.below(knob_mean + 1) } else { u64::MAX },
            wake: Box::new(move |r, o| {
                let op = ATT + r.weighted(&kw) as u8;
                let v = match op {
                    ATT | DEC | REL => gen_time(r, mode, base, sr),
                    SUS => gen_sus(r, mode),
                    SLOPE => gen_slope(r, mode),
                    _ => {
                        if mode == Mode::Range { r.pick(&RATES) } else { r.pick(&[sr, sr * 2.0, sr * 0.5, 48000.0]) as f32 as f64 }
                    }
                };
                o.push((op, [v, 0.0, 0.0, 0.0]));
                delay(r, knob_mean)
            }),
        },
    ];
    let tl = Timeline::build(r, horizon.min(120_000), 160, 0.04, TICK, |r, n| [n as f64, if meet && r.chance(0.5) { r.range(1, 3) as f64 } else { 0.0 }, 0.0, 0.0], &mut tasks);
    drop(tasks);
    let mut steps = tl.steps;
    if r.chance(0.05) {
        // a clock that drifts: the rate follows in many small steps, at once or a few samples apart
        let at = r.idx(steps.len().max(1)).min(steps.len());
        let rest = steps.split_off(at);
        let t = steps.last().map_or(0, |s| s.t);
        let n = r.range(30, 200);
        let d = (sr * r.logrange(1e-5, 5e-3)).min(sr / (2.0 * n as f64)) * if r.chance(0.5) { 1.0 } else { -1.0 };
        let apart = r.chance(0.3);
        for i in 1..=n {
            steps.push(Step { t, task: FAULT, op: SR, a: [(sr + d * i as f64) as f32 as f64, 0.0, 0.0, 0.0] });
            if apart {
                steps.push(Step { t, task: AUDIO, op: TICK, a: [r.range(1, 4) as f64, 0.0, 0.0, 0.0] });
            }
        }
        steps.extend(rest);
    }
    if mode == Mode::Stages && r.chance(0.8) {
        // gate traffic stops: the envelope must settle
        let hold = r.chance(0.5);
        steps.push(Step { t: tl.now, task: MIDI, op: if hold { ON } else { OFF }, a: [0.0; 4] });
        steps.push(Step { t: tl.now, task: AUDIO, op: TICK, a: [(base * 5.0).min(60_000.0).trunc() + 10.0, 0.0, 0.0, 0.0] });
    }
    if r.chance(0.003) {
        marathon(r, &mut steps, TICK, 0, 66_000, 500_000);
    }
    Scen { cfg, steps }
}

/// Ends an audio block early, 0 or more samples after a stage change.
struct Until {
    after: u64,
    left: Option<u64>,
}
impl Until {
    fn new(x: f64) -> Until {
        Until { after: x.abs() as u64, left: None }
    }
    fn done(&mut self, changed: bool) -> bool {
        if changed && self.after > 0 {
            self.left = Some(self.after - 1);
        }
        match self.left {
            Some(0) => true,
            Some(n) => {
                self.left = Some(n - 1);
                false
            }
            None => false,
        }
    }
}

fn stepname(op: u8) -> &'static str {
    match op {
        TICK => "op.tick",
        ON => "op.gate-on",
        OFF => "op.gate-off",
        RESET => "fault.reset",
        ATT => "op.set-attack",
        DEC => "op.set-decay",
        SUS => "op.set-sustain",
        REL => "op.set-release",
        SLOPE => "op.set-slope",
        _ => "fault.sample-rate-switch",
    }
}
struct P {
    a: f64,
    d: f64,
    s: f32,
    r: f64,
    slope: f64,
    sr: f64,
}
impl P {
    fn new(c: &[f64]) -> P {
        let g = |i: usize| c.get(i).copied().unwrap_or(1.0);
        P { a: g(0).max(0.0), d: g(1).max(0.0), s: (g(2) as f32).clamp(0.0, 1.0), r: g(3).max(0.0), slope: g(4).clamp(0.05, 20.0), sr: g(5).max(1.0) }
    }
    fn apply(&mut self, op: u8, v: f64) {
        match op {
            ATT => self.a = v.max(0.0),
            DEC => self.d = v.max(0.0),
            REL => self.r = v.max(0.0),
            SUS => self.s = (v as f32).clamp(0.0, 1.0),
            SLOPE => self.slope = v.clamp(0.05, 20.0),
            SR => self.sr = v.max(1.0),
            _ => {}
        }
    }
    fn rate(&self, t: f64) -> f64 {
        (1.0 / (t * self.sr)).max(0.5 / self.sr).min(1e3)
    }
}
fn real_op(e: &mut AudioRateADSR, op: u8, v: f64) {
    let v = v as f32;
    match op {
        ON => e.trigger_on(),
        OFF => e.trigger_off(),
        RESET => e.reset(),
        ATT => e.set_attack(v.max(0.0)),
        DEC => e.set_decay(v.max(0.0)),
        SUS => e.set_sustain(v),
        REL => e.set_release(v.max(0.0)),
        SLOPE => e.set_slope(v),
        SR => e.set_sr(v.max(1.0)),
        _ => {}
    }
}
fn make(c: &[f64]) -> AudioRateADSR {
    let g = |i: usize| c.get(i).copied().unwrap_or(1.0) as f32;
    AudioRateADSR::new(g(0).max(0.0), g(1).max(0.0), g(2), g(3).max(0.0), g(4), g(5).max(1.0))
}
fn sidx(s: EnvelopeState) -> u64 {
    match s {
        EnvelopeState::Idle => 0,
        EnvelopeState::Attack => 1,
        EnvelopeState::Decay => 2,
        EnvelopeState::Release => 3,
        EnvelopeState::Sustain => 4,
    }
}
const SN: [&str; 5] = ["idle", "attack", "decay", "release", "sustain"];

/// t^e with the accuracy of either exact arithmetic or the crate's math backend: (min, max)
fn pow_band(t: f64, e: f64) -> (f64, f64) {
    let t = t.clamp(0.0, 1.0);
    let x = t.powf(e);
    let m = if t <= 0.0 { 0.0 } else { F32Ext::powf(t as f32, e as f32) as f64 };
    let m = if m.is_finite() { m } else { x };
    (x.min(m), x.max(m))
}

const REAL: &str = "AudioRateADSR (and the math backend it uses)";
const STUB: &str = "gate source, knobs, sample-rate switch, audio interrupt";
const RULE: &str = "a case is one schedule of gate edges, bursts, resets, knob moves, rate switches and audio blocks on one envelope; non-trivial when the envelope left idle; distinct by full event log";

// ------------------------------------------------------------------ C09
pub struct C09;
impl Prop for C09 {
    fn id(&self) -> &'static str {
        "C09"
    }
    fn ops(&self) -> &'static [&'static str] {
        &OPS
    }
    fn runs(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 900_000 } else { 20_000_000 }
    }
    fn gen(&self, r: &mut Rng, _t: Tier) -> Scen {
        gen(r, Mode::Range)
    }
    fn run(&self, s: &Scen, st: &mut Stats) -> Result<(), Viol> {
        let mut e = make(&s.cfg);
        let mut p = P::new(&s.cfg);
        let mut sounding = false;
        for (si, stp) in s.steps.iter().enumerate() {
            st.inc(stepname(stp.op));
            if stp.op != TICK {
                real_op(&mut e, stp.op, stp.a[0]);
                p.apply(stp.op, stp.a[0]);
                st.state(sidx(e.get_state()) | (stp.op as u64) << 4);
                continue;
            }
            let n = (stp.a[0] as u64).min(1_000_000);
            let mut until = Until::new(stp.a[1]);
            for _ in 0..n {
                let before = e.get_state();
                let v = e.tick();
                st.logf(v);
                let after = e.get_state();
                if !v.is_finite() {
                    return viol("level-not-finite", si, format!("{v} in {}", SN[sidx(before) as usize]));
                }
                if !(0.0..=1.0).contains(&v) {
                    return viol("level-out-of-range", si, format!("{v:e} in {}", SN[sidx(before) as usize]));
                }
                if (before == EnvelopeState::Idle || after == EnvelopeState::Idle) && v != 0.0 {
                    return viol("idle-not-zero", si, format!("{v:e} while idle"));
                }
                if (before == EnvelopeState::Sustain || after == EnvelopeState::Sustain) && v != p.s {
                    return viol("sustain-level", si, format!("{v:e} while sustaining at {:e}", p.s));
                }
                sounding |= v > 0.0;
                st.state(sidx(before) | sidx(after) << 4 | ((v * 8.0) as u64) << 8 | 1 << 20);
                if until.done(before != after) {
                    break;
                }
            }
            st.time(n, p.sr);
        }
        st.nontrivial = sounding;
        Ok(())
    }
    fn rule(&self) -> &'static str {
        RULE
    }
    fn real(&self) -> &'static str {
        REAL
    }
    fn stub(&self) -> &'static str {
        STUB
    }
}

// ------------------------------------------------------------------ C10
pub struct C10;
impl Prop for C10 {
    fn id(&self) -> &'static str {
        "C10"
    }
    fn ops(&self) -> &'static [&'static str] {
        &OPS
    }
    fn runs(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 400_000 } else { 8_000_000 }
    }
    fn gen(&self, r: &mut Rng, _t: Tier) -> Scen {
        gen(r, Mode::Stages)
    }
    fn run(&self, s: &Scen, st: &mut Stats) -> Result<(), Viol> {
        use EnvelopeState::*;
        let mut e = make(&s.cfg);
        let mut p = P::new(&s.cfg);
        let mut state = Idle;
        // progress through the stage, slack from its fastest rate, level the stage started from
        let (mut t, mut slack, mut from) = (0.0f64, 0.0f64, 0.0f64);
        let mut acc = 0.0f64;
        let mut last = 0.0f64; // last output
        let mut constant = true; // parameters unchanged since the stage began
        let mut sounding = false;
        const INAUD: f64 = 3.5e-4;
        for (si, stp) in s.steps.iter().enumerate() {
            st.inc(stepname(stp.op));
            if stp.op != TICK {
                real_op(&mut e, stp.op, stp.a[0]);
                p.apply(stp.op, stp.a[0]);
                let ns = match (stp.op, state) {
                    (ON, _) => Attack,
                    (OFF, Attack | Decay | Sustain) => Release,
                    (RESET, _) => Idle,
                    (_, x) => x,
                };
                if stp.op >= ATT {
                    constant = false;
                }
                if stp.op == ON {
                    from = if state == Attack || state == Idle { 0.0 } else { last };
                }
                if stp.op == OFF && ns != state {
                    from = last;
                }
                if stp.op == RESET {
                    last = 0.0;
                }
                if ns != state || stp.op == ON {
                    (t, slack, constant) = (0.0, 0.0, true);
                    acc = 0.0;
                }
                st.state(sidx(state) | (stp.op as u64) << 4 | sidx(ns) << 8);
                state = ns;
                if e.get_state() != state {
                    return viol("wrong-stage-after-event", si, format!("{} after {}, expected {}", SN[sidx(e.get_state()) as usize], OPS[stp.op as usize], SN[sidx(state) as usize]));
                }
                continue;
            }
            let n = (stp.a[0] as u64).min(1_000_000);
            let mut until = Until::new(stp.a[1]);
            for _ in 0..n {
                let v = e.tick() as f64;
                st.logf(v as f32);
                let after = e.get_state();
                let (rate, next) = match state {
                    Attack => (p.rate(p.a), Decay),
                    Decay => (p.rate(p.d), Sustain),
                    Release => (p.rate(p.r), Idle),
                    Idle => (0.0, Idle),
                    Sustain => (0.0, Sustain),
                };
                if after != state && after != next {
                    return viol("illegal-transition", si, format!("{} -> {}", SN[sidx(state) as usize], SN[sidx(after) as usize]));
                }
                match state {
                    Idle | Sustain => {
                        let w = if state == Idle { 0.0 } else { p.s as f64 };
                        if v != w {
                            return viol("steady-level", si, format!("{v:e} in {}, expected {w:e}", SN[sidx(state) as usize]));
                        }
                    }
                    _ => {
                        let sn = SN[sidx(state) as usize];
                        t += rate;
                        slack = slack.max(3.0 * rate);
                        // single-precision accumulation rounds every step
                        acc += t.min(1.0) * 6e-8 + 1e-12;
                        let (lo, hi) = (t * 0.998 - slack - acc, t * 1.002 + slack + acc);
                        let (target, free) = match state {
                            Attack => (1.0, from > 0.0),
                            Decay => (p.s as f64, false),
                            _ => (0.0, false),
                        };
                        if after == state {
                            if lo >= 1.0 {
                                return viol("stage-overdue", si, format!("{sn} still running at {:.4} of its configured time (slope {}, sr {})", t, p.slope, p.sr));
                            }
                        } else {
                            if v != target {
                                return viol("stage-end-level", si, format!("{sn} ended at {v:e}, expected {target:e}"));
                            }
                            // what is left of the curve under the parameters now in force
                            let remain = match state {
                                Attack => 1.0 - pow_band(hi, 1.0 / p.slope).1,
                                Decay => (1.0 - p.s as f64) * (1.0 - pow_band(hi, p.slope).1),
                                _ => from * (1.0 - pow_band(hi, p.slope).1),
                            };
                            if hi < 1.0 && !free && remain > INAUD && (last - target).abs() > INAUD {
                                return viol("stage-too-short", si, format!("{sn} ended at {:.4} of its configured time, last level {last:e} (slope {}, sr {})", t, p.slope, p.sr));
                            }
                        }
                        // level follows the curve
                        let (bl, bh) = if state == Attack {
                            if free {
                                (from - 1e-4, 1.0)
                            } else {
                                (pow_band(lo, 1.0 / p.slope).0, pow_band(hi, 1.0 / p.slope).1)
                            }
                        } else {
                            let (x0, x1) = (pow_band(lo, p.slope).0, pow_band(hi, p.slope).1);
                            if state == Decay {
                                let s = p.s as f64;
                                (s + (1.0 - s) * (1.0 - x1), s + (1.0 - s) * (1.0 - x0))
                            } else {
                                (from * (1.0 - x1), from * (1.0 - x0))
                            }
                        };
                        if !(v >= bl - 0.003 && v <= bh + 0.003) {
                            return viol("off-curve", si, format!("{sn} at {:.4} of its time: level {v}, expected {bl:.4}..{bh:.4} (slope {}, sr {}, from {from})", t, p.slope, p.sr));
                        }
                        if constant && t > rate * 1.5 {
                            let up = v - last;
                            if (state == Attack && up < -5e-5) || (state != Attack && up > 5e-5) {
                                return viol("not-monotonic", si, format!("{sn}: {last} then {v} (slope {})", p.slope));
                            }
                        }
                    }
                }
                let changed = after != state;
                if changed {
                    st.state(sidx(state) | 0xf0 | sidx(after) << 8 | ((from * 3.0) as u64) << 12);
                    st.inc(match state { Attack => "probe.attack-completed", Decay => "probe.decay-completed", _ => "probe.release-completed" });
                    (t, slack, constant) = (0.0, 0.0, true);
                    acc = 0.0;
                    state = after;
                }
                last = v;
                sounding |= v > 0.0;
                if until.done(changed) {
                    st.inc("probe.event-at-stage-change");
                    break;
                }
            }
            st.time(n, p.sr);
        }
        st.nontrivial = sounding;
        Ok(())
    }
    fn rule(&self) -> &'static str {
        RULE
    }
    fn real(&self) -> &'static str {
        REAL
    }
    fn stub(&self) -> &'static str {
        STUB
    }
}

// ------------------------------------------------------------------ C11
pub struct C11;
impl Prop for C11 {
    fn id(&self) -> &'static str {
        "C11"
    }
    fn ops(&self) -> &'static [&'static str] {
        &OPS
    }
    fn runs(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 2_200_000 } else { 40_000_000 }
    }
    fn gen(&self, r: &mut Rng, _t: Tier) -> Scen {
        gen(r, Mode::Edges)
    }
    fn run(&self, s: &Scen, st: &mut Stats) -> Result<(), Viol> {
        use EnvelopeState::*;
        let mut e = make(&s.cfg);
        let mut p = P::new(&s.cfg);
        let mut last = 0.0f64;
        // an edge happened since the last tick; the attack in progress started from this level
        let mut edge = false;
        // the attack about to run starts from zero
        let mut zero = false;
        let mut from: Option<f64> = None;
        let mut edges = 0;
        for (si, stp) in s.steps.iter().enumerate() {
            st.inc(stepname(stp.op));
            if stp.op != TICK {
                let before = e.get_state();
                real_op(&mut e, stp.op, stp.a[0]);
                p.apply(stp.op, stp.a[0]);
                match (stp.op, before) {
                    // in the attack a deliberate restart from zero
                    (ON, Attack | Idle) => {
                        from = None;
                        edge = false;
                        zero = true;
                    }
                    (ON, _) | (OFF, Attack | Decay | Sustain) => {
                        zero = false;
                        edge = true;
                        from = Some(last);
                    }
                    (RESET, _) => {
                        last = 0.0;
                        from = None;
                        edge = false;
                        zero = false;
                    }
                    _ => {}
                }
                continue;
            }
            let n = (stp.a[0] as u64).min(1_000_000);
            let mut until = Until::new(stp.a[1]);
            for _ in 0..n {
                let before = e.get_state();
                let v = e.tick() as f64;
                st.logf(v as f32);
                if edge {
                    edges += 1;
                    st.state(sidx(before) | ((last * 8.0) as u64) << 4 | ((p.slope.log2() + 5.0) as u64) << 8);
                    if last > 0.01 && last < 0.99 {
                        st.inc("probe.edge-at-intermediate-level");
                    }
                    // one sample of the curve of the stage just entered
                    let (what, d) = match before {
                        Release => ("gate-off", last * pow_band(p.rate(p.r), p.slope).1),
                        _ => ("gate-on", pow_band(p.rate(p.a), 1.0 / p.slope).1),
                    };
                    let d = d * 1.02 + 2e-4;
                    if (v - last).abs() > d {
                        return viol("jump-at-gate-edge", si, format!("{what}: {last} then {v}, one sample of the curve is {d:.5}"));
                    }
                }
                if zero {
                    st.inc("probe.attack-from-zero");
                    let d = pow_band(p.rate(p.a), 1.0 / p.slope).1 * 1.02 + 2e-4;
                    if v > d {
                        return viol("attack-not-from-zero", si, format!("first value {v} after gate-on, one sample of the curve is {d:.5} (last {last})"));
                    }
                }
                (edge, zero) = (false, false);
                if let Some(f) = from {
                    match before {
                        Release if v > f + 1e-6 => return viol("release-rises-above-start", si, format!("started at {f}, now {v}")),
                        Attack if v < f - 1e-4 => return viol("retriggered-attack-falls-below-start", si, format!("started at {f}, now {v}")),
                        Release | Attack => {}
                        _ => from = None,
                    }
                    if e.get_state() != before {
                        from = None;
                    }
                }
                last = v;
                if until.done(e.get_state() != before) {
                    st.inc("probe.event-at-stage-change");
                    break;
                }
            }
            st.time(n, p.sr);
        }
        st.nontrivial = edges > 0;
        st.add("probe.gate-edges-while-sounding", edges);
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "a case is one schedule of gate edges, bursts, resets, knob moves, rate switches and audio blocks on one envelope; non-trivial when a gate edge hit a sounding envelope; distinct by full event log"
    }
    fn real(&self) -> &'static str {
        REAL
    }
    fn stub(&self) -> &'static str {
        STUB
    }
}
