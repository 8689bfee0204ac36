//! C04 ring behaviour of the delay line, C05 interpolated taps.
use crate::core::*;
use crate::rng::Rng;
use embedded_audio_tools::memory_access::*;
use embedded_audio_tools::DelayLine;

/// Unique, awkward sample values: every counter value gives another bit pattern.
pub fn uniq(c: u64) -> f32 {
    match c % 23 {
        0 => f32::from_bits(1 + (c as u32 & 0x3f_ffff)), // denormal
        1 => -f32::from_bits(1 + (c as u32 & 0x3f_ffff)),
        2 => 1e30 + c as f32 * 1e24,
        3 => -1e-20 * (c as f32),
        _ => {
            let h = crate::rng::mix(c) as u32;
            let m = (h & 0x000f_ff00) ^ (c as u32 & 0x7f_ffff);
            f32::from_bits(0x3f00_0000 | (h & 0x8000_0000) | m)
        }
    }
}
pub fn special(c: u64, v: f32) -> f32 {
    match c % 97 {
        11 => 0.0,
        12 => -0.0,
        13 => f32::INFINITY,
        14 => f32::NEG_INFINITY,
        15 => f32::MAX,
        16 => f32::NAN,
        _ => v,
    }
}
/// The same sample: bit for bit, or both not a number.
pub fn same(a: f32, b: f32) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}

pub fn handle(a: &mut Arena, reg: (usize, usize)) -> MemorySlice<Mutable> {
    let mut h = null_mut();
    unsafe { h.change_mut_slice_unchecked(a.base().add(reg.0), reg.1) };
    h
}

pub struct C04;
const W: u8 = 0;
const ADV: u8 = 1;
const TAP: u8 = 2;
const FORK: u8 = 3;
const MOVE: u8 = 4;
const SWAP: u8 = 5;
const POKE: u8 = 6;
const RESTART: u8 = 7;
const READS: u8 = 8;
const VIAPTR: u8 = 9;

#[derive(Clone, Copy)]
struct Line {
    real: DelayLine,
    head: usize,
    reg: usize,
}

impl Prop for C04 {
    fn id(&self) -> &'static str {
        "C04"
    }
    fn ops(&self) -> &'static [&'static str] {
        &["write", "advance", "tap", "fork", "move", "swap", "poke", "restart", "read", "poke-via-line"]
    }
    fn runs(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 800_000 } else { 25_000_000 }
    }
    fn gen(&self, r: &mut Rng, _t: Tier) -> Scen {
        let big = r.chance(0.004);
        let l = if big { r.range(65_530, 70_000) as u64 } else { gen_len(r, 3000) };
        let n = if big { r.range(4, 10) } else { r.range(4, 60) } as usize;
        // swarm: per-run operation mix
        let w: Vec<u32> = (0..10).map(|i| if r.chance(0.3) { 0 } else { [8, 3, 8, 1, 2, 1, 2, 1, 2, 1][i] }).collect();
        let w = if w.iter().sum::<u32>() == 0 { vec![1; 10] } else { w };
        let mut steps = vec![];
        let mut t = 0u64;
        for _ in 0..n {
            let op = r.weighted(&w) as u8;
            let line = r.below(6) as f64;
            let cnt = match r.below(8) {
                0 => 1,
                1 => l.saturating_sub(1).max(1),
                2 => l,
                3 => l + 1,
                4 if !big => 2 * l + r.below(3),
                _ => r.below(l.min(200)) + 1,
            } as f64;
            let a = match op {
                W | ADV => [line, cnt, 0.0, 0.0],
                TAP => {
                    let base = match r.below(6) {
                        0 => 0,
                        1 => r.range(-3, 3),
                        2 => r.range(-(l as i64), l as i64),
                        3 => -1,
                        4 => r.range(-5 * l as i64, 5 * l as i64),
                        _ => l as i64 + r.range(-2, 2),
                    };
                    let mult = match r.below(5) {
                        0 => r.range(-1000, 1000),
                        1 => r.range(-(1 << 33), 1 << 33) / (l as i64),
                        2 => r.range(-(1 << 50), 1 << 50) / (l as i64),
                        _ => 0,
                    };
                    let base = if r.chance(0.02) { r.pick(&[1e19, -1e19]) } else { base as f64 };
                    [line, base, mult as f64, 0.0]
                }
                SWAP => [line, gen_len(r, 400) as f64, 0.0, 0.0],
                POKE | VIAPTR => [line, r.below(l) as f64, r.below(1000) as f64, 0.0],
                _ => [line, r.below(5) as f64, 0.0, 0.0],
            };
            let task = match op {
                W => AUDIO,
                ADV => TIMER,
                TAP | READS => PROBE,
                POKE | VIAPTR | RESTART => FAULT,
                _ => MEMMAN,
            };
            steps.push(Step { t, task, op, a });
            if op == W || op == ADV {
                t += a[1] as u64;
            }
        }
        if !big && r.chance(0.003) {
            marathon(r, &mut steps, W, 1, 66_000, 200_000);
        }
        Scen { cfg: vec![l as f64, r.below(1_000_000) as f64], steps }
    }
    fn run(&self, s: &Scen, st: &mut Stats) -> Result<(), Viol> {
        let l0 = (s.cfg[0] as usize).max(1);
        let mut ctr = s.cfg[1] as u64 * 4096;
        let mut ar = Arena::new(if l0 > 10_000 { 3 * l0 + 4000 } else { 40_000 });
        let o = ar.alloc(l0, 33);
        let mut model: Vec<Vec<f32>> = vec![vec![]];
        let next = |c: &mut u64| {
            *c += 1;
            special(*c, uniq(*c))
        };
        for i in 0..l0 {
            let v = next(&mut ctr);
            ar.set(o + i, v);
            model[0].push(v);
        }
        let mut lines = vec![Line { real: DelayLine::new(handle(&mut ar, (o, l0))), head: 0, reg: 0 }];
        let mut wraps = 0u64;
        for (si, stp) in s.steps.iter().enumerate() {
            let li = stp.a[0] as usize % lines.len();
            let ops = self.ops();
            st.inc(match stp.op {
                W => "op.write",
                ADV => "op.advance",
                TAP => "op.tap",
                FORK => "op.fork",
                MOVE => "fault.buffer-moved",
                SWAP => "fault.buffer-replaced",
                POKE => "fault.slot-overwritten",
                RESTART => "fault.restart",
                READS => "op.read",
                _ => "fault.slot-overwritten-via-line",
            });
            match stp.op {
                W | ADV => {
                    let n = (stp.a[1] as usize).min(200_000);
                    for _ in 0..n {
                        let Line { mut real, head, reg } = lines[li];
                        let len = model[reg].len();
                        let want = model[reg][head];
                        let got = real.read();
                        st.logf(got);
                        if !same(got, want) {
                            return viol("read-not-slot-at-head", si, format!("len {len} head {head}: read {got:e}, slot holds {want:e}"));
                        }
                        if stp.op == W {
                            let v = next(&mut ctr);
                            real.write_and_advance(v);
                            model[reg][head] = v;
                        } else {
                            real.advance();
                        }
                        let off = ar.regions[reg].0;
                        for d in [head, (head + 1) % len, (head + len - 1) % len] {
                            if !same(ar.get(off + d), model[reg][d]) {
                                return viol("wrong-slot-changed", si, format!("len {len} head {head}: slot {d} holds {:e}, expected {:e} ({})", ar.get(off + d), model[reg][d], ops[stp.op as usize]));
                            }
                        }
                        let nh = if head + 1 == len { wraps += 1; 0 } else { head + 1 };
                        lines[li] = Line { real, head: nh, reg };
                    }
                    st.time(n as u64, 48_000.0);
                }
                TAP => {
                    let ln = lines[li];
                    let len = model[ln.reg].len() as i128;
                    let k = (stp.a[1] as i128 + stp.a[2] as i128 * len).clamp(isize::MIN as i128, isize::MAX as i128);
                    let want = model[ln.reg][(ln.head as i128 + k).rem_euclid(len) as usize];
                    let got = ln.real.read_wrapped_at(k as isize);
                    st.logf(got);
                    if !same(got, want) {
                        return viol("tap-wrong-slot", si, format!("len {len} head {} offset {k}: tap {got:e}, slot holds {want:e}", ln.head));
                    }
                    if k.abs() > len { st.inc("probe.tap-wraps-many-times"); }
                    if ln.head as i128 + k < 0 { st.inc("probe.tap-behind-start"); }
                }
                READS => {
                    let ln = lines[li];
                    let want = model[ln.reg][ln.head];
                    if !same(ln.real.read(), want) || !same(ln.real.read_wrapped_at(0), want) {
                        return viol("read-not-slot-at-head", si, format!("head {}: {:e} / {:e} expected {want:e}", ln.head, ln.real.read(), ln.real.read_wrapped_at(0)));
                    }
                    if ln.real.len() != model[ln.reg].len() {
                        return viol("wrong-length", si, format!("len() {} for a buffer of {}", ln.real.len(), model[ln.reg].len()));
                    }
                }
                FORK => {
                    if lines.len() < 6 {
                        let mut c = lines[li];
                        // a copy is a copy, whether by plain copy or by clone()
                        if stp.a[1] as u64 % 2 == 1 {
                            #[allow(clippy::clone_on_copy)]
                            let k = c.real.clone();
                            c.real = k;
                        }
                        lines.push(c);
                    }
                }
                MOVE => {
                    let reg = lines[li].reg;
                    let len = model[reg].len();
                    if ar.room(len + 40) {
                        let no = ar.alloc(len, 17);
                        for i in 0..len {
                            ar.set(no + i, model[reg][i]);
                        }
                        let copy = model[reg].clone();
                        model.push(copy);
                        let h = handle(&mut ar, (no, len));
                        lines[li].real.change_buffer(h);
                        lines[li].reg = model.len() - 1;
                    }
                }
                SWAP => {
                    let nl = (stp.a[1] as usize).max(1);
                    if ar.room(nl + 40) {
                        let no = ar.alloc(nl, 21);
                        let mut c = vec![];
                        for i in 0..nl {
                            ctr += 1;
                            let v = f32::from_bits(0x3e00_0000 + (ctr as u32 & 0x7f_ffff));
                            ar.set(no + i, v);
                            c.push(v);
                        }
                        let h = handle(&mut ar, (no, nl));
                        lines[li].real.change_buffer(h);
                        // where the head continues is the library's choice; it must be inside
                        let v = lines[li].real.read();
                        match c.iter().position(|x| x.to_bits() == v.to_bits()) {
                            Some(p) => lines[li].head = p,
                            None => return viol("head-outside-buffer", si, format!("after replacing a buffer of {} by one of {nl}, read gives {v:e} which is not in it", model[lines[li].reg].len())),
                        }
                        model.push(c);
                        lines[li].reg = model.len() - 1;
                    }
                }
                POKE => {
                    let reg = lines[li].reg;
                    let i = stp.a[1] as usize % model[reg].len();
                    let v = next(&mut ctr);
                    ar.set(ar.regions[reg].0 + i, v);
                    model[reg][i] = v;
                }
                VIAPTR => {
                    let reg = lines[li].reg;
                    let p = lines[li].real.get_ptr_slice_mut();
                    if p.len() != model[reg].len() || p as *mut f32 != unsafe { ar.base().add(ar.regions[reg].0) } {
                        return viol("wrong-pointer", si, format!("get_ptr_slice_mut has length {} for {}", p.len(), model[reg].len()));
                    }
                    let i = stp.a[1] as usize % model[reg].len();
                    let v = next(&mut ctr);
                    unsafe { (p as *mut f32).add(i).write_volatile(v) };
                    model[reg][i] = v;
                }
                _ => {
                    let reg = lines[li].reg;
                    let r = ar.regions[reg];
                    lines[li].real = DelayLine::new(handle(&mut ar, r));
                    lines[li].head = 0;
                }
            }
            // nothing anywhere else changed
            if model.iter().map(|m| m.len()).sum::<usize>() < 5000 || si % 4 == 3 || si + 1 == s.steps.len() {
                for (ri, m) in model.iter().enumerate() {
                    let off = ar.regions[ri].0;
                    for (i, v) in m.iter().enumerate() {
                        if !same(ar.get(off + i), *v) {
                            return viol("slot-changed-elsewhere", si, format!("region {ri} slot {i} holds {:e}, expected {v:e}", ar.get(off + i)));
                        }
                    }
                }
            }
            if let Some(g) = ar.check_near_guards() {
                return viol("write-outside-buffer", si, format!("guard cell {g} changed"));
            }
            let lb = 64 - (model[lines[li].reg].len() as u64).leading_zeros() as u64;
            st.state(stp.op as u64 | lb << 8 | (lines.len() as u64) << 16 | (lines[li].head.min(3) as u64) << 24 | (wraps.min(3)) << 28 | ((model.len() as u64).min(7)) << 32);
            st.nontrivial = true;
        }
        st.add("probe.head-wraps", wraps);
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "a case is one schedule of writes, advances, taps, forks, moves, replacements, foreign overwrites and restarts over 1..6 delay lines; non-trivial when at least one step ran; distinct by full event log"
    }
    fn real(&self) -> &'static str {
        "DelayLine, MemorySlice<Mutable>"
    }
    fn stub(&self) -> &'static str {
        "sample RAM (arena with poisoned guards), other holders of the memory, memory manager"
    }
}

// ------------------------------------------------------------------ C05
pub struct C05;
const T_WRITE: u8 = 0;
const T_ADV: u8 = 1;
const T_LERP: u8 = 2;
const T_LAG: u8 = 3;
const T_HLERP: u8 = 4;
const T_H4: u8 = 5;
const T_HW: u8 = 6;
const T_MOD: u8 = 7;
const T_MOVE: u8 = 8;
const T_FILL: u8 = 9;

fn ulp32(x: f64) -> f64 {
    let a = (x.abs() as f32).max(1e-30);
    (f32::from_bits(a.to_bits() + 1) - a) as f64
}
struct View<'a> {
    m: &'a [f32],
}
impl View<'_> {
    fn at(&self, i: i64) -> f64 {
        self.m[i.rem_euclid(self.m.len() as i64) as usize] as f64
    }
    fn lerp(&self, p: f64) -> f64 {
        let f = p.floor();
        let x = p - f;
        self.at(f as i64) * (1.0 - x) + self.at(f as i64 + 1) * x
    }
    /// Lagrange through nodes first..first+n at position p, plus the sum of |basis * sample|
    fn lag(&self, p: f64, first: i64, n: i64) -> (f64, f64) {
        let (mut y, mut s) = (0.0, 0.0);
        for i in 0..n {
            let mut t = self.at(first + i);
            for j in 0..n {
                if i != j {
                    t = t * (p - (first + j) as f64) / (i - j) as f64;
                }
            }
            y += t;
            s += t.abs();
        }
        (y, s)
    }
    fn scale(&self) -> f64 {
        self.m.iter().fold(0.0f64, |a, b| a.max(b.abs() as f64))
    }
    /// (reference, tolerance) of the linear tap at p whose position is known up to d/2
    fn lerp_ref(&self, p: f64, d: f64) -> (f64, f64) {
        let r = self.lerp(p);
        let f = p.floor() as i64;
        let mut slope = 0.0f64;
        for k in -1..=1 {
            slope = slope.max((self.at(f + k + 1) - self.at(f + k)).abs());
        }
        (r, slope * 2.0 * d + 1e-6 * self.scale() + 1e-30)
    }
    /// window of n points starting `back` before floor(p)
    fn lag_ref(&self, p: f64, d: f64, back: i64, n: i64) -> (f64, f64) {
        let d = 2.0 * d;
        let f = p.floor() as i64;
        let (y, s) = self.lag(p, f - back, n);
        // four roundings per pair of points
        let eps = (n as f64 * 4e-7).max(3e-6);
        let mut tol = s * eps;
        for q in [p - d, p + d] {
            let g = q.floor() as i64;
            let (z, s2) = self.lag(q, g - back, n);
            tol = tol.max((z - y).abs() * 1.5 + s2 * eps);
            // inside the same window too (interior extrema)
            let (z, _) = self.lag(q, f - back, n);
            tol = tol.max((z - y).abs() * 1.5 + s2 * eps);
        }
        (y, tol + 1e-6 * self.scale() + 1e-30)
    }
}

impl Prop for C05 {
    fn id(&self) -> &'static str {
        "C05"
    }
    fn ops(&self) -> &'static [&'static str] {
        &["write", "advance", "lerp-tap", "lagrange-tap", "handle-lerp", "handle-lagrange4", "handle-lagrange", "modulated-tap", "move", "fill-polynomial"]
    }
    fn runs(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 350_000 } else { 12_000_000 }
    }
    fn gen(&self, r: &mut Rng, _t: Tier) -> Scen {
        let l = if r.chance(0.004) { [r.range(20_000, 60_000), r.range(65_530, 66_000), r.range(66_000, 140_000)][r.idx(3)] as u64 } else { gen_len(r, 3000) };
        let n = r.range(3, 40);
        let mut steps = vec![];
        let mut t = 0u64;
        for _ in 0..n {
            let op = r.weighted(&[5, 3, 6, 6, 5, 5, 5, 3, 1, 2]) as u8;
            let x = match r.below(8) {
                7 => r.pick(&[-1e-45, -1e-30, -1e-12, -2.9e-8, -3.1e-8, -6e-8, 1e-12, 6e-8, -1.0 - 1.2e-7, 1.0 - 6e-8]) as f32 as f64,
                0 => r.range(-(l as i64) - 2, l as i64 + 2) as f64,
                1 => r.f32v(-1.0, 1.0),
                2 => r.f32v(-(l as f64), l as f64),
                3 => r.f32v(-4.0 * l as f64, 4.0 * l as f64),
                4 => (l as f64 - 1.0 + r.f32v(-1.0, 1.0)) as f32 as f64,
                5 => -(r.f32v(0.0, 3.0)),
                _ => r.range(-3, 3) as f64 + 0.5 * r.below(2) as f64,
            };
            let a = match op {
                T_WRITE | T_ADV => [(r.below(l.min(300)) + 1 + if r.chance(0.1) { l } else { 0 }) as f64, r.below(1000) as f64, 0.0, 0.0],
                T_LERP | T_LAG | T_HLERP | T_H4 => [x, 0.0, 0.0, 0.0],
                T_HW => {
                    let w = if r.chance(0.8) { 2 * r.range(1, 4) } else { r.range(0, 130) };
                    [x, w as f64, 0.0, 0.0]
                }
                T_MOD => [x, r.f32v(0.0, 20.0), r.f32v(0.001, 0.5), r.range(4, 200) as f64],
                T_FILL => [r.below(4) as f64, r.below(1_000_000) as f64, 0.0, 0.0],
                _ => [0.0; 4],
            };
            let task = match op {
                T_WRITE | T_MOD => AUDIO,
                T_ADV => TIMER,
                T_MOVE => MEMMAN,
                T_FILL => FAULT,
                _ => PROBE,
            };
            steps.push(Step { t, task, op, a });
            match op {
                T_WRITE | T_ADV => t += a[0] as u64,
                T_MOD => t += a[3] as u64,
                _ => {}
            }
        }
        Scen { cfg: vec![l as f64, r.below(1_000_000) as f64], steps }
    }
    fn run(&self, s: &Scen, st: &mut Stats) -> Result<(), Viol> {
        let l = (s.cfg[0] as usize).max(1);
        let seed = s.cfg[1] as u64;
        let mut ar = Arena::new(2 * l + 20_000);
        let mut off = ar.alloc(l, 40);
        let mut m: Vec<f32> = (0..l).map(|i| sig(3, 1.0, seed, i as u64)).collect();
        for (i, v) in m.iter().enumerate() {
            ar.set(off + i, *v);
        }
        let mut line = DelayLine::new(handle(&mut ar, (off, l)));
        let mut head = 0usize;
        let mut c = 0u64;
        for (si, stp) in s.steps.iter().enumerate() {
            let check = |st: &mut Stats, what: &str, got: f32, r: (f64, f64), ctx: String| -> Result<(), Viol> {
                st.logf(got);
                if !((got as f64 - r.0).abs() <= r.1) {
                    return viol(what, si, format!("{ctx}: got {got:e}, expected {:e} +- {:.1e}", r.0, r.1));
                }
                Ok(())
            };
            let x = stp.a[0] as f32;
            match stp.op {
                T_WRITE => {
                    st.inc("op.write");
                    for _ in 0..(stp.a[0] as usize).min(200_000) {
                        c += 1;
                        let v = sig(3, 1.0, seed + 7, c);
                        line.write_and_advance(v);
                        m[head] = v;
                        head = (head + 1) % l;
                    }
                    st.time(stp.a[0] as u64, 48_000.0);
                }
                T_ADV => {
                    st.inc("op.advance");
                    for _ in 0..(stp.a[0] as usize).min(200_000) {
                        line.advance();
                        head = (head + 1) % l;
                    }
                }
                T_MOVE => {
                    if ar.room(l + 64) {
                        st.inc("fault.buffer-moved");
                        off = ar.alloc(l, 19);
                        for (i, v) in m.iter().enumerate() {
                            ar.set(off + i, *v);
                        }
                        line.change_buffer(handle(&mut ar, (off, l)));
                    }
                }
                T_FILL => {
                    st.inc("fault.memory-rewritten");
                    for i in 0..l {
                        let u = i as f64 / l as f64 - 0.3;
                        m[i] = match stp.a[0] as u64 {
                            0 => 0.7f64,
                            1 => u,
                            2 => u * u - 0.2,
                            _ => 2.0 * u * u * u - u,
                        } as f32;
                        ar.set(off + i, m[i]);
                    }
                }
                T_LERP | T_LAG | T_MOD => {
                    st.inc(match stp.op { T_LERP => "op.lerp-tap", T_LAG => "op.lagrange-tap", _ => "op.modulated-tap" });
                    let n = if stp.op == T_MOD { (stp.a[3] as u64).min(1000) } else { 1 };
                    for k in 0..n {
                        let off_x = if stp.op == T_MOD {
                            ((stp.a[0] % (l as f64 + 1.0)) + stp.a[1] * (stp.a[2] * k as f64).sin()) as f32
                        } else {
                            x
                        };
                        let v = View { m: &m };
                        let p = head as f64 + off_x as f64;
                        // the head is an integer: only the offset itself is single precision
                        let d = ulp32(off_x.abs().max(1.0) as f64);
                        if p < 0.0 { st.inc("probe.position-before-start"); }
                        if p >= l as f64 - 1.0 { st.inc("probe.position-past-end"); }
                        if off_x.fract() == 0.0 { st.inc("probe.integer-position"); }
                        if stp.op != T_LAG {
                            check(st, "lerp-tap", line.read_lerp_wrapped_at(off_x), v.lerp_ref(p, d), format!("len {l} head {head} offset {off_x}"))?;
                        }
                        if stp.op != T_LERP {
                            check(st, "lagrange-tap", line.read_lagrange_wrapped_at(off_x), v.lag_ref(p, d, 1, 4), format!("len {l} head {head} offset {off_x}"))?;
                        }
                        if stp.op == T_MOD {
                            c += 1;
                            let w = sig(3, 1.0, seed + 9, c);
                            line.write_and_advance(w);
                            m[head] = w;
                            head = (head + 1) % l;
                        }
                    }
                    if stp.op == T_MOD { st.time(n, 48_000.0); }
                }
                T_HLERP => {
                    st.inc("op.handle-lerp");
                    let h = handle(&mut ar, (off, l));
                    let r = View { m: &m }.lerp_ref(x as f64, ulp32(x.abs() as f64 + l as f64));
                    check(st, "handle-lerp-wrapped", h.lerp_wrapped(x), r, format!("len {l} index {x}"))?;
                    if x as f64 >= 0.0 && (x as f64) < l as f64 - 1.0 {
                        if let Ok(g) = h.lerp(x) {
                            check(st, "handle-lerp", g, r, format!("len {l} index {x}"))?;
                        }
                        check(st, "handle-lerp-unchecked", unsafe { h.lerp_unchecked(x) }, r, format!("len {l} index {x}"))?;
                    }
                    let h2 = { let mut n = null(); unsafe { n.change_slice_unchecked(ar.base().add(off), l) }; n };
                    check(st, "handle-lerp-wrapped", h2.lerp_wrapped(x), r, format!("read-only handle len {l} index {x}"))?;
                }
                T_H4 => {
                    st.inc("op.handle-lagrange4");
                    let h = handle(&mut ar, (off, l));
                    let r = View { m: &m }.lag_ref(x as f64, ulp32(x.abs() as f64 + l as f64), 0, 4);
                    check(st, "handle-lagrange-four", h.lagrange_four_points_wrapped(x), r, format!("len {l} index {x}"))?;
                }
                _ => {
                    st.inc("op.handle-lagrange");
                    let h = handle(&mut ar, (off, l));
                    let w = stp.a[1] as usize;
                    let g = h.lagrange_wrapped(x, w);
                    if w % 2 == 0 && (2..=100).contains(&w) {
                        let r = View { m: &m }.lag_ref(x as f64, ulp32(x.abs() as f64 + l as f64), w as i64 / 2 - 1, w as i64);
                        check(st, "handle-lagrange-window", g, r, format!("len {l} index {x} window {w}"))?;
                    }
                }
            }
            for i in [head, (head + l - 1) % l, (head + 1) % l, 0, l - 1] {
                if ar.get(off + i).to_bits() != m[i].to_bits() {
                    return viol("memory-changed", si, format!("slot {i} holds {:e} expected {:e}", ar.get(off + i), m[i]));
                }
            }
            let hb = if head == 0 { 0 } else if head + 1 == l { 1 } else { 2 };
            let xb = (x.fract() == 0.0) as u64 | ((x < 0.0) as u64) << 1 | ((x as f64 + head as f64 >= l as f64) as u64) << 2;
            st.state(stp.op as u64 | hb << 8 | xb << 12 | (64 - (l as u64).leading_zeros() as u64) << 16 | (stp.a[1] as u64 & 15) << 24);
            st.nontrivial = true;
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "a case is one schedule of writes, advances, memory rewrites, moves and fixed or modulated fractional taps on one delay line and handles; non-trivial when at least one step ran; distinct by full event log"
    }
    fn real(&self) -> &'static str {
        "DelayLine taps, MemorySlice interpolation, float::interpolation"
    }
    fn stub(&self) -> &'static str {
        "sample RAM, modulation source"
    }
}
