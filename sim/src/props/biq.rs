//! C15 biquad recurrence, C16 finite and ringing out, C17 settled response.
use crate::core::*;
use crate::rng::Rng;
use embedded_audio_tools::filter::{Biquad, BiquadCoeffs, Butterworth};

const TICK: u8 = 0;
const DESIGN: u8 = 1;
const FIELD: u8 = 2;
const REPLACE: u8 = 3;
const REST: u8 = 4;
const PROBE_OP: u8 = 5;
const OPS: [&str; 6] = ["tick", "design", "write-coefficient", "replace-coefficients", "rest", "probe-tones"];
const RATES: [f64; 7] = [8000.0, 16000.0, 22050.0, 44100.0, 48000.0, 96000.0, 192000.0];

/// design op arguments: [type + 8*sr index + 1024 when the boost-only / cut-only form is called, fc/sr, q, gain]
fn gen_design(r: &mut Rng, lo: f64, hi: f64, qlo: f64, qhi: f64, sri: usize) -> [f64; 4] {
    let ty = r.below(6);
    let mut fc = match r.below(6) {
        0 => lo,
        1 => hi,
        2 => r.frange(lo, hi),
        _ => r.logrange(lo, hi),
    };
    let q = match r.below(6) {
        0 => 0.707,
        1 => 1.0,
        2 => r.pick(&[qlo, qhi]),
        _ => r.logrange(qlo, qhi),
    };
    let g = match r.below(5) {
        0 => 1.0,
        1 => r.pick(&[0.1, 16.0]),
        _ => r.logrange(0.1, 16.0),
    } * if r.chance(0.5) { 1.0 } else { -1.0 };
    if ty == 5 && g < 0.0 {
        // the poles of a cutting shelf sit at fc*sqrt(|g|)
        fc = fc.max(lo / (-g as f64).sqrt().min(1.0)).min(hi);
    }
    let only = if ty >= 4 && r.chance(0.3) { 1024 } else { 0 };
    [(ty + 8 * sri as u64 + only) as f64, fc, q as f32 as f64, g as f32 as f64]
}
/// A request that has something in common with an earlier one of the same history: the same again, or
/// one or two parameters changed.
fn again(r: &mut Rng, a: [f64; 4], seen: &mut Vec<[f64; 4]>) -> [f64; 4] {
    let mut a = a;
    if !seen.is_empty() && r.chance(0.35) {
        let b = seen[r.idx(seen.len())];
        let (ty, rest) = ((a[0] as u64) % 8, b[0] as u64);
        match r.below(4) {
            0 | 1 => a = b,
            2 => {
                // another design with the same parameters
                let only = if ty >= 4 { rest & 1024 } else { 0 };
                a = [((rest % 1024) / 8 * 8 + ty + only) as f64, b[1], b[2], b[3]];
            }
            _ => {
                let i = r.range(1, 3) as usize;
                let v = a[i];
                a = b;
                a[i] = v;
            }
        }
    }
    seen.push(a);
    a
}
/// Inside the claimed range? (Only the minimiser can leave it.)
fn in_range(a: &[f64; 4], lo: f64) -> bool {
    let (ty, f, q, g) = (a[0] as u64 % 8 % 6, a[1], a[2], a[3]);
    let need = if ty == 5 && g < 0.0 { lo / g.abs().sqrt().min(1.0) } else { lo };
    f >= need * 0.999 && f <= 0.4501 && (0.0999..=20.01).contains(&q) && (ty < 4 || (0.0999..=16.01).contains(&g.abs()))
}
/// Applies the design op; returns (type, fc/sr, q, gain) as seen in f64
fn design(b: &mut Biquad<Butterworth>, a: &[f64; 4]) -> (u64, f64, f64, f64) {
    let ty = a[0] as u64 % 8 % 6;
    let sr = RATES[(a[0] as usize % 1024 / 8) % RATES.len()] as f32;
    let only = a[0] >= 1024.0;
    let fc = (a[1] * sr as f64) as f32;
    let q = (a[2] as f32).max(0.1);
    let g = a[3] as f32;
    let c = &mut b.coeffs;
    match ty {
        0 => c.lowpass(fc, q, sr),
        1 => c.highpass(fc, q, sr),
        2 => c.allpass(fc, q, sr),
        3 => c.notch(fc, q, sr),
        4 if only && g > 0.0 => c.bell_boost_only(fc, q, g, sr),
        4 if only && g < 0.0 => c.bell_cut_only(fc, q, g, sr),
        4 => c.bell(fc, q, g, sr),
        5 if only && g > 0.0 => c.low_shelf_boost_only(fc, q, g, sr),
        5 if only && g < 0.0 => c.low_shelf_cut_only(fc, q, g, sr),
        _ => c.low_shelf(fc, q, g, sr),
    }
    (ty, fc as f64 / sr as f64, q as f64, g as f64)
}
fn write_field(b: &mut Biquad<Butterworth>, stp: &Step) {
    let v = stp.a[1] as f32;
    match stp.a[0] as u64 % 5 {
        0 => b.coeffs.b0 = v,
        1 => b.coeffs.b1 = v,
        2 => b.coeffs.b2 = v,
        3 => b.coeffs.a1 = v,
        _ => b.coeffs.a2 = v,
    }
}
const DN: [&str; 6] = ["lowpass", "highpass", "allpass", "notch", "bell", "low-shelf"];

/// Radius of the slowest pole the requested design calls for (exact arithmetic).
fn pole_radius(d: (u64, f64, f64, f64)) -> f64 {
    let (ty, f, q, g) = d;
    let k = (std::f64::consts::PI * f).tan();
    let (mut kq, mut k2) = (k / q, k * k);
    if g.is_sign_negative() {
        if ty == 4 {
            kq *= -g;
        }
        if ty == 5 {
            kq = (2.0 * -g * k2).sqrt();
            k2 *= -g;
        }
    }
    let n = 1.0 / (1.0 + kq + k2);
    let a1 = n * 2.0 * (k2 - 1.0);
    let a2 = n * (1.0 - kq + k2);
    let disc = a1 * a1 / 4.0 - a2;
    if disc < 0.0 {
        a2.max(0.0).sqrt()
    } else {
        (a1.abs() / 2.0 + disc.sqrt()).max(a2.abs().sqrt())
    }
}

fn bits(b: &Biquad<Butterworth>) -> [u32; 5] {
    let c = &b.coeffs;
    [c.b0, c.b1, c.b2, c.a1, c.a2].map(f32::to_bits)
}
fn new_bq() -> Biquad<Butterworth> {
    Biquad::new(BiquadCoeffs::new())
}

// ------------------------------------------------------------------ C15
pub struct C15;
impl Prop for C15 {
    fn id(&self) -> &'static str {
        "C15"
    }
    fn ops(&self) -> &'static [&'static str] {
        &OPS
    }
    fn runs(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 6_000_000 } else { 60_000_000 }
    }
    fn gen(&self, r: &mut Rng, _t: Tier) -> Scen {
        let horizon = match r.below(6) {
            0 => r.below(6000) + 10,
            _ => r.below(400) + 10,
        };
        let mean = r.pick(&[1, 3, 20, 100]);
        let kind = r.below(NSIG);
        let amp = r.pick(&[1.0, 1.0, 1e-3, 1000.0]);
        let sri = r.idx(RATES.len());
        let direct = r.chance(0.5);
        let mut tasks = vec![Task {
            id: UI,
            next: r.below(mean),
            wake: Box::new(move |r: &mut Rng, o: &mut Vec<(u8, [f64; 4])>| {
                if direct && r.chance(0.6) {
                    if r.chance(0.2) {
                        // all five at once: zeroed, or any (a[2] their largest size), in place or by a new filter
                        o.push((REPLACE, [r.below(4) as f64, r.below(1 << 20) as f64, r.pick(&[1.0, 4.0, 30.0]), 0.0]));
                    } else {
                        let f = r.below(5);
                        let v = match r.below(5) { 0 => 0.0, 1 => 1.0, _ => if f >= 3 { r.f32v(-0.95, 0.95) } else { r.f32v(-2.0, 2.0) } };
                        o.push((FIELD, [f as f64, v, 0.0, 0.0]));
                    }
                } else {
                    o.push((DESIGN, gen_design(r, 1.0 / 2400.0, 0.45, 0.1, 20.0, sri)));
                }
                delay(r, mean)
            }),
        }];
        let tl = Timeline::build(r, horizon, 150, 0.05, TICK, |r, n| [n as f64, if r.chance(0.7) { kind } else { r.below(NSIG) } as f64, amp, r.below(1 << 20) as f64], &mut tasks);
        drop(tasks);
        let mut tl = tl;
        if r.chance(0.002) {
            marathon(r, &mut tl.steps, TICK, 0, 66_000, 400_000);
        }
        Scen { cfg: vec![], steps: tl.steps }
    }
    fn run(&self, s: &Scen, st: &mut Stats) -> Result<(), Viol> {
        let mut b = new_bq();
        // the last two samples: input, output, coefficients in force
        let mut h: [(f64, f64, [f64; 5]); 2] = [(0.0, 0.0, [0.0; 5]); 2];
        let mut idx = 0u64;
        let mut changes = 0u64;
        let mut set = bits(&b); // what the last change put in place
        for (si, stp) in s.steps.iter().enumerate() {
            match stp.op {
                TICK => {
                    st.inc("op.tick");
                    let n = (stp.a[0] as u64).min(1_000_000);
                    for _ in 0..n {
                        let x = sig(stp.a[1] as u64, stp.a[2] as f32, stp.a[3] as u64, idx);
                        idx += 1;
                        if bits(&b) != set {
                            return viol("coefficients-altered", si, format!("before sample {idx}: {:?}, put in place: {:?}", bits(&b).map(f32::from_bits), set.map(f32::from_bits)));
                        }
                        let c = &b.coeffs;
                        let co = [c.b0 as f64, c.b1 as f64, c.b2 as f64, c.a1 as f64, c.a2 as f64];
                        let y = b.process(x);
                        st.logf(y);
                        let x = x as f64;
                        let terms = [co[0] * x, h[0].2[1] * h[0].0, -h[0].2[3] * h[0].1, h[1].2[2] * h[1].0, -h[1].2[4] * h[1].1];
                        let want: f64 = terms.iter().sum();
                        let mag: f64 = terms.iter().map(|t| t.abs()).sum();
                        let tol = 6e-7 * mag + 1e-42;
                        if !((y as f64 - want).abs() <= tol) {
                            return viol("not-the-recurrence", si, format!("sample {idx}: {y:e}, expected {want:e} +- {tol:.1e}"));
                        }
                        h[1] = h[0];
                        h[0] = (x, y as f64, co);
                        if y.abs() > 1e34 {
                            st.inc("probe.blow-up-stopped");
                            return Ok(());
                        }
                        st.nontrivial |= y != 0.0;
                    }
                    st.time(n, 48_000.0);
                }
                DESIGN => {
                    changes += 1;
                    let d = design(&mut b, &stp.a);
                    set = bits(&b);
                    st.inc("op.design");
                    st.state(d.0 | ((d.1.log2() + 12.0) as u64) << 4 | ((d.2.log2() + 4.0) as u64) << 8 | (changes.min(20)) << 16);
                }
                FIELD => {
                    changes += 1;
                    st.inc("op.write-coefficient");
                    write_field(&mut b, stp);
                    set = bits(&b);
                    st.state(stp.a[0] as u64 | 1 << 30 | (changes.min(20)) << 16);
                }
                _ => {
                    changes += 1;
                    st.inc("fault.coefficients-zeroed");
                    let mut c = BiquadCoeffs::<Butterworth>::new();
                    let how = stp.a[0] as u64;
                    if how >= 1 {
                        let v = |k: u64| {
                            let h = crate::rng::mix(stp.a[1] as u64 * 8 + k);
                            let u = (h >> 40) as f64 / (1u64 << 23) as f64 - 1.0;
                            (u * if k < 3 { stp.a[2] } else { 0.95 }) as f32
                        };
                        (c.b0, c.b1, c.b2, c.a1, c.a2) = (v(0), v(1), v(2), v(3), v(4));
                    }
                    if how >= 2 {
                        // a new filter starts from silence
                        set = [c.b0, c.b1, c.b2, c.a1, c.a2].map(f32::to_bits);
                        b = Biquad::new(c);
                        if how == 3 {
                            let d = design(&mut b, &[(stp.a[1] as u64 % 6) as f64, 0.1, 0.7, 2.0]);
                            set = bits(&b);
                            let c = std::mem::replace(&mut b.coeffs, BiquadCoeffs::new());
                            b = Biquad::new(c);
                            st.state(d.0 | 1 << 31);
                        }
                        h = [(0.0, 0.0, [0.0; 5]); 2];
                        st.inc("fault.filter-replaced");
                    } else {
                        b.coeffs = c;
                        set = bits(&b);
                    }
                }
            }
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "a case is one schedule of audio blocks, designs, direct coefficient writes and coefficient replacement on one filter; non-trivial when a non-zero output was produced; distinct by full event log"
    }
    fn real(&self) -> &'static str {
        "Biquad, Butterworth designs"
    }
    fn stub(&self) -> &'static str {
        "audio source, control task"
    }
}

// ------------------------------------------------------------------ C16
pub struct C16;
impl Prop for C16 {
    fn id(&self) -> &'static str {
        "C16"
    }
    fn ops(&self) -> &'static [&'static str] {
        &OPS
    }
    fn runs(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 2_000_000 } else { 20_000_000 }
    }
    fn gen(&self, r: &mut Rng, _t: Tier) -> Scen {
        let mean = r.pick(&[1, 5, 50, 500]);
        let kind = r.below(NSIG);
        let sri = r.idx(RATES.len());
        let low = r.pick(&[1.0 / 2400.0, 1.0 / 200.0, 1.0 / 200.0, 1.0 / 50.0, 0.05]);
        let nev = r.range(1, 16) as usize;
        let mut steps = vec![];
        let mut t = 0;
        let mut seen = vec![];
        for _ in 0..nev {
            let si = if r.chance(0.1) { r.idx(RATES.len()) } else { sri };
            let a = gen_design(r, low, 0.45, 0.1, 20.0, si);
            let b = again(r, a, &mut seen);
            steps.push(Step { t, task: UI, op: DESIGN, a: if in_range(&b, low) { b } else { a } });
            let n = delay(r, mean);
            if n > 0 && !r.chance(0.03) {
                steps.push(Step { t, task: AUDIO, op: TICK, a: [n as f64, if r.chance(0.7) { kind } else { r.below(NSIG) } as f64, 1.0, r.below(1 << 20) as f64] });
                t += n;
            }
        }
        if r.chance(0.5) {
            steps.push(Step { t, task: AUDIO, op: TICK, a: [(r.below(2000) + 1) as f64, r.pick(&[1.0, 2.0, 3.0, 4.0]), 1.0, r.below(1 << 20) as f64] });
        }
        if r.chance(0.003) {
            marathon(r, &mut steps, TICK, 0, 66_000, 300_000);
            t = steps.last().map_or(t, |s| s.t.max(t));
        }
        steps.push(Step { t, task: PROBE, op: REST, a: [0.0; 4] });
        Scen { cfg: vec![], steps }
    }
    fn run(&self, s: &Scen, st: &mut Stats) -> Result<(), Viol> {
        let mut b = new_bq();
        let mut cur = None;
        let mut idx = 0u64;
        let mut peak = 0.0f64;
        let mut evs = 0;
        for (si, stp) in s.steps.iter().enumerate() {
            match stp.op {
                DESIGN => {
                    evs += 1;
                    if evs > 16 || !in_range(&stp.a, 1.0 / 2400.0) {
                        return Ok(());
                    }
                    st.inc("op.design");
                    let d = design(&mut b, &stp.a);
                    st.state(d.0 | ((d.1.log2() + 12.0) as u64) << 4 | ((d.2.log2() + 4.0) as u64) << 8 | ((d.3.abs().log2() + 4.0) as u64) << 12 | (d.3 > 0.0) as u64);
                    cur = Some(d);
                }
                TICK => {
                    st.inc("op.tick");
                    let n = (stp.a[0] as u64).min(1_000_000);
                    for _ in 0..n {
                        let x = sig(stp.a[1] as u64, stp.a[2] as f32, stp.a[3] as u64, idx);
                        idx += 1;
                        let y = b.process(x);
                        st.logf(y);
                        if !y.is_finite() {
                            return viol("not-finite", si, format!("{y} at sample {idx}"));
                        }
                        peak = peak.max(y.abs() as f64);
                    }
                    st.time(n, 48_000.0);
                }
                _ => {
                    let Some(d) = cur else { continue };
                    st.inc("probe.rest");
                    let r = pole_radius(d);
                    let tau = 1.0 / (1.0 - r).max(1e-9);
                    // level: what the filter still puts out right after the input stopped
                    let w = (2.0 * tau) as u64 + 4;
                    let mut level = 0.0f64;
                    for _ in 0..w {
                        let y = b.process(0.0);
                        if !y.is_finite() {
                            return viol("not-finite", si, "while ringing out".into());
                        }
                        level = level.max(y.abs() as f64);
                    }
                    let quiet = (3.0 * 12.0 * tau) as u64 + 64;
                    for _ in 0..quiet {
                        b.process(0.0);
                    }
                    let mut left = 0.0f64;
                    for _ in 0..w.min(100_000) {
                        let y = b.process(0.0);
                        if !y.is_finite() {
                            return viol("not-finite", si, "while ringing out".into());
                        }
                        left = left.max(y.abs() as f64);
                    }
                    st.logf(left as f32);
                    st.time(2 * w + quiet, 48_000.0);
                    if !(left <= 1e-3 * level + 1e-30) {
                        return viol("does-not-ring-out", si, format!("{} fc/sr {:.6} q {} gain {}: {left:e} left of {level:e} after {} silent samples", DN[d.0 as usize], d.1, d.2, d.3, w + quiet));
                    }
                    st.nontrivial |= level > 0.0;
                    if peak > 1e3 { st.inc("probe.transient-above-1000"); }
                }
            }
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "a case is one burst of up to 16 reconfigurations interleaved with audio blocks, then silence; non-trivial when the filter still sounded when the input stopped; distinct by full event log"
    }
    fn real(&self) -> &'static str {
        "Biquad, Butterworth designs, fast_tan"
    }
    fn stub(&self) -> &'static str {
        "audio source, control task"
    }
}

// ------------------------------------------------------------------ C17
pub struct C17;
/// expected magnitude of the design at DC (0), Nyquist (1), centre (2); None = not specified
fn expect(d: (u64, f64, f64, f64), at: usize) -> Option<f64> {
    let (ty, _, q, g) = d;
    let ga = if g >= 0.0 { g } else { 1.0 / -g };
    match (ty, at) {
        (0, 0) | (1, 1) => Some(1.0),
        (0, 1) | (1, 0) => Some(0.0),
        (0, _) | (1, _) => Some(q),
        (2, _) => Some(1.0),
        (3, 2) => Some(0.0),
        (3, _) => Some(1.0),
        (4, 2) => Some(ga),
        (4, _) => Some(1.0),
        (_, 0) => Some(ga),
        (_, 1) => Some(1.0),
        _ => None,
    }
}
/// complex response of the second-order prototype at f (both relative to the sample rate)
fn prototype(d: (u64, f64, f64, f64), f: f64) -> (f64, f64) {
    let (ty, fc, q, g) = d;
    let w = (std::f64::consts::PI * f).tan() / (std::f64::consts::PI * fc).tan();
    let (w2, wq, ga) = (w * w, w / q, g.abs());
    // a quadratic a*s^2 + b*s + c at s = jw: (c - a*w^2, b*w)
    let plain = (1.0 - w2, wq);
    let (num, den) = match ty {
        0 => ((1.0, 0.0), plain),
        1 => ((-w2, 0.0), plain),
        2 => ((1.0 - w2, -wq), plain),
        3 => ((1.0 - w2, 0.0), plain),
        4 => ((1.0 - w2, ga * wq), plain),
        _ => ((ga - w2, (2.0 * ga).sqrt() * w), plain),
    };
    let (num, den) = if ty >= 4 && g < 0.0 { (den, num) } else { (num, den) };
    let m = den.0 * den.0 + den.1 * den.1;
    ((num.0 * den.0 + num.1 * den.1) / m, (num.1 * den.0 - num.0 * den.1) / m)
}
impl Prop for C17 {
    fn id(&self) -> &'static str {
        "C17"
    }
    fn ops(&self) -> &'static [&'static str] {
        &OPS
    }
    fn runs(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 700_000 } else { 15_000_000 }
    }
    fn gen(&self, r: &mut Rng, _t: Tier) -> Scen {
        let mean = r.pick(&[1, 10, 100]);
        let sri = r.idx(RATES.len());
        let nev = r.range(0, 8) as usize;
        let mut steps = vec![];
        let mut t = 0;
        let kind = r.below(NSIG);
        let fields = r.chance(0.25);
        let mut seen = vec![];
        for i in 0..=nev {
            let last = i == nev;
            let a = if last {
                let mut a = gen_design(r, 1.0 / 200.0, 0.3, 0.1, 20.0, sri);
                if r.chance(0.3) {
                    a[1] = r.logrange(1.0 / 200.0, 0.3);
                }
                a
            } else {
                let si = if r.chance(0.2) { r.idx(RATES.len()) } else { sri };
                gen_design(r, 1.0 / 1000.0, 0.45, 0.1, 20.0, si)
            };
            let a = match again(r, a, &mut seen) {
                b if last && (!in_range(&b, 1.0 / 200.0) || b[1] > 0.3) => a,
                b if !in_range(&b, 1.0 / 1000.0) => a,
                b => b,
            };
            if fields && r.chance(0.5) {
                // other code writes the coefficients itself, or starts over with fresh ones
                if r.chance(0.2) {
                    steps.push(Step { t, task: UI, op: REPLACE, a: [0.0; 4] });
                } else {
                    let f = r.below(5);
                    steps.push(Step { t, task: UI, op: FIELD, a: [f as f64, if f >= 3 { 0.0 } else { r.f32v(-1.0, 1.0) }, 0.0, 0.0] });
                }
                let n = delay(r, mean);
                if r.chance(0.5) && n > 0 {
                    steps.push(Step { t, task: AUDIO, op: TICK, a: [n as f64, kind as f64, 1.0, r.below(1 << 20) as f64] });
                    t += n;
                }
            }
            steps.push(Step { t, task: UI, op: DESIGN, a });
            let n = delay(r, mean);
            if n > 0 && !last {
                steps.push(Step { t, task: AUDIO, op: TICK, a: [n as f64, kind as f64, 1.0, r.below(1 << 20) as f64] });
                t += n;
            }
        }
        if r.chance(0.003) {
            marathon(r, &mut steps, TICK, 0, 66_000, 300_000);
            t = steps.last().map_or(t, |s| s.t.max(t));
        }
        steps.push(Step { t, task: PROBE, op: PROBE_OP, a: [if r.chance(0.5) { r.f32v(0.002, 0.49) } else { 0.0 }, r.f32v(-1.5, 1.5), 0.0, 0.0] });
        Scen { cfg: vec![], steps }
    }
    fn run(&self, s: &Scen, st: &mut Stats) -> Result<(), Viol> {
        let mut b = new_bq();
        let mut cur = None;
        let mut idx = 0u64;
        let mut peak = 1.0f64;
        for (si, stp) in s.steps.iter().enumerate() {
            match stp.op {
                DESIGN => {
                    st.inc("op.design");
                    if !in_range(&stp.a, 1.0 / 1000.0) {
                        return Ok(());
                    }
                    cur = Some(design(&mut b, &stp.a));
                }
                TICK => {
                    st.inc("op.tick");
                    let n = (stp.a[0] as u64).min(1_000_000);
                    for _ in 0..n {
                        let y = b.process(sig(stp.a[1] as u64, stp.a[2] as f32, stp.a[3] as u64, idx));
                        idx += 1;
                        st.logf(y);
                        peak = peak.max(y.abs() as f64);
                    }
                    st.time(n, 48_000.0);
                }
                FIELD => {
                    st.inc("op.write-coefficient");
                    write_field(&mut b, stp);
                }
                REPLACE => {
                    st.inc("op.replace-coefficients");
                    b.coeffs = BiquadCoeffs::new();
                }
                PROBE_OP => {
                    let Some(d) = cur else { continue };
                    if !(peak < 1e20) || d.1 > 0.3001 || d.1 < 0.00499 {
                        continue; // outside the claimed range (only reachable while minimising)
                    }
                    let r = pole_radius(d);
                    let tau = 1.0 / (1.0 - r).max(1e-9);
                    st.state(d.0 | ((d.1.log2() + 12.0) as u64) << 4 | ((d.2.log2() + 4.0) as u64) << 8 | ((d.3.abs().log2() + 4.0) as u64) << 12 | (d.3 > 0.0) as u64);
                    // anywhere, or around the centre
                    let probe = if stp.a[0] != 0.0 { stp.a[0] } else { d.1 * stp.a[1].exp2() }.clamp(0.002, 0.49);
                    for at in 0..4usize {
                        let want = match (at, d.0) {
                            (3, _) => 0.0,
                            _ => match expect(d, at) {
                                Some(w) => w,
                                None => continue,
                            },
                        };
                        let f = match at {
                            0 => 0.0,
                            1 => 0.5,
                            2 => d.1,
                            _ => probe,
                        };
                        let settle = ((peak * 1e8).ln() * 1.2 * tau) as u64 + 200;
                        let win = if at < 2 { 64 } else { (12.0 / f.min(0.5 - f).max(0.002)) as u64 + 512 };
                        let (mut ss, mut sc, mut cc, mut ys, mut yc) = (0.0, 0.0, 0.0, 0.0, 0.0);
                        let mut acc = 0.0f64;
                        for i in 0..settle + win {
                            let ph = std::f64::consts::TAU * ((i as f64 * f) % 1.0);
                            let x = match at {
                                0 => 1.0,
                                1 => if i & 1 == 0 { 1.0 } else { -1.0 },
                                _ => ph.sin() as f32,
                            };
                            let y = b.process(x) as f64;
                            if i >= settle {
                                if at < 2 {
                                    acc += y * x as f64;
                                } else {
                                    let (sn, cn) = ph.sin_cos();
                                    ss += sn * sn;
                                    sc += sn * cn;
                                    cc += cn * cn;
                                    ys += y * sn;
                                    yc += y * cn;
                                }
                            }
                        }
                        peak = peak.clamp(1.0, 20.0);
                        let mut cplx = (0.0, 0.0);
                        let got = if at < 2 {
                            acc / win as f64
                        } else {
                            let det = ss * cc - sc * sc;
                            let p = (ys * cc - yc * sc) / det;
                            let q = (yc * ss - ys * sc) / det;
                            cplx = (p, q);
                            (p * p + q * q).sqrt()
                        };
                        st.time(settle + win, 48_000.0);
                        st.logf(got as f32);
                        st.inc(["probe.dc-gain", "probe.nyquist-gain", "probe.centre-gain", "probe.random-response"][at]);
                        if at == 3 {
                            let want = prototype(d, f);
                            let mag = want.0.hypot(want.1);
                            // the shelf's damping comes from an approximate square root
                            // and a sharp resonance magnifies the error of the approximate tangent
                            let sharp = if d.0 == 4 && d.3 < 0.0 { d.2 / d.3.abs().min(1.0) } else { d.2 };
                            let tol = (if d.0 == 5 { 0.1 } else { 0.02 } + 2e-3 * sharp) * mag + 3e-3f64.max(1e-3 * d.2);
                            let off = (cplx.0 - want.0).hypot(cplx.1 - want.1);
                            if !(off <= tol) {
                                return viol("response", si, format!("{} fc/sr {:.5} q {} gain {} at f/sr {f:.5}: measured {:.5}{:+.5}j, expected {:.5}{:+.5}j +- {tol:.4}", DN[d.0 as usize], d.1, d.2, d.3, cplx.0, cplx.1, want.0, want.1));
                            }
                            st.nontrivial = true;
                            continue;
                        }
                        let got = if at == 2 || d.0 == 2 { got.abs() } else { got };
                        let tol = if want == 0.0 { 3e-3f64.max(1e-3 * d.2) } else { 0.02 * want };
                        if !((got - want).abs() <= tol) {
                            return viol(["dc-gain", "nyquist-gain", "centre-gain"][at], si, format!("{} fc/sr {:.5} q {} gain {} at f/sr {f:.5}: measured {got:.5}, expected {want:.5} +- {tol:.4}", DN[d.0 as usize], d.1, d.2, d.3));
                        }
                        st.nontrivial = true;
                    }
                }
                _ => {}
            }
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "a case is one reconfiguration history followed by probe tones; non-trivial when at least one gain was measured; distinct by full event log"
    }
    fn real(&self) -> &'static str {
        "Biquad, Butterworth designs, fast_tan"
    }
    fn stub(&self) -> &'static str {
        "audio source, control task"
    }
}
