//! C06 comb recurrence, C07 all-pass recurrence, C08 boundedness and decay.
use super::delay::{handle, same};
use crate::core::*;
use crate::rng::Rng;
use embedded_audio_tools::{AllPass, Comb};

const EPS: f64 = 1.2e-7;

// ops shared by C06 and C07
const TICK: u8 = 0;
const FB: u8 = 1;
const DAMP: u8 = 2;
const MOVE: u8 = 3;
const SCRIB: u8 = 4;
const RESTART: u8 = 5;
const FORK: u8 = 6;
const RESIZE: u8 = 7;

fn gen_recurrence(r: &mut Rng, comb: bool) -> Scen {
    let l = if r.chance(0.002) { r.range(65_530, 66_000) as u64 } else { gen_len(r, 1500) };
    let horizon = match r.below(4) {
        0 => 3 * l + 20,
        1 => 200,
        2 => 8 * l + 50,
        _ => 600,
    };
    let amp_kind = r.below(10);
    let kind = r.below(NSIG);
    let wild = r.chance(0.15);
    let knob = r.below(120) + 1;
    let edge = |r: &mut Rng, lo: f64, hi: f64| match r.below(6) {
        0 => 0.0,
        1 => 1.0,
        2 => 0.5,
        3 => lo,
        _ => r.f32v(lo, hi),
    };
    let (flo, fhi) = if wild { (-1.2, 1.2) } else { (-0.99, 0.99) };
    let (dlo, dhi) = (0.0, 1.0);
    let mut tasks = vec![Task {
        id: MEMMAN,
        next: r.below(horizon + 1),
        wake: Box::new(move |r: &mut Rng, o: &mut Vec<(u8, [f64; 4])>| {
            let u = r.below(6) as f64;
            match r.below(12) {
                0..=4 => o.push((MOVE, [u, 0.0, 0.0, 0.0])),
                5 | 6 => o.push((FORK, [u, 0.0, 0.0, 0.0])),
                7 => o.push((RESTART, [u, 0.0, 0.0, 0.0])),
                8 | 9 => o.push((SCRIB, [u, r.below(l) as f64, r.f32v(-1.0, 1.0), if r.chance(0.1) { r.range(1, 3) as f64 } else { 0.0 }])),
                _ => o.push((RESIZE, [u, if r.chance(0.3) { r.range(1, 3) as u64 } else { gen_len(r, 400.min(2 * l)) } as f64, 0.0, 0.0])),
            }
            delay(r, horizon / 3 + 1)
        }),
    }];
    if comb {
        tasks.push(Task {
            id: UI,
            next: r.below(4) * r.below(knob + 1),
            wake: Box::new(move |r, o| {
                let u = r.below(6) as f64;
                if r.chance(0.5) {
                    o.push((FB, [u, edge(r, flo, fhi), 0.0, 0.0]));
                } else {
                    o.push((DAMP, [u, edge(r, dlo, dhi), 0.0, 0.0]));
                }
                delay(r, knob)
            }),
        });
    }
    let tl = Timeline::build(
        r,
        horizon.min(if l > 60_000 { l + 400 } else { 6000 }),
        300,
        0.05,
        TICK,
        |r, n| {
            let amp = match amp_kind {
                0 => 1e-20,
                1 => 1e6,
                _ => 1.0,
            };
            [n as f64, if r.chance(0.7) { kind } else { r.below(NSIG) } as f64, amp, r.below(1 << 20) as f64]
        },
        &mut tasks,
    );
    drop(tasks);
    let mut tl = tl;
    if l > 60_000 {
        marathon(r, &mut tl.steps, TICK, 0, l, 2 * l);
    } else if r.chance(0.004) {
        marathon(r, &mut tl.steps, TICK, 0, 66_000, 300_000);
    }
    Scen { cfg: vec![l as f64, r.below(1 << 20) as f64, r.below(4) as f64], steps: tl.steps }
}

struct CombM {
    real: Comb,
    head: usize,
    reg: usize,
    fs: f64,
    fs_err: f64,
    fb: f32,
    d: f32,
}

fn fill(ar: &mut Arena, len: usize, seed: u64, kind: u64) -> Option<(usize, Vec<f32>)> {
    if !ar.room(len + 64) {
        return None;
    }
    let off = ar.alloc(len, 23);
    let m: Vec<f32> = (0..len)
        .map(|i| match kind {
            0 => 0.0,
            _ => sig(3, 1.0, seed, i as u64),
        })
        .collect();
    for (i, v) in m.iter().enumerate() {
        ar.set(off + i, *v);
    }
    Some((off, m))
}
fn check_all(ar: &Arena, model: &[Vec<f32>], si: usize) -> Result<(), Viol> {
    for (ri, m) in model.iter().enumerate() {
        let off = ar.regions[ri].0;
        for (i, v) in m.iter().enumerate() {
            if !same(ar.get(off + i), *v) {
                return viol("stored-sample-disturbed", si, format!("region {ri} slot {i} holds {:e}, expected {v:e}", ar.get(off + i)));
            }
        }
    }
    if let Some(g) = ar.check_near_guards() {
        return viol("write-outside-buffer", si, format!("guard cell {g} changed"));
    }
    Ok(())
}
/// Within tolerance, or the same infinity, or both not a number.
fn near(got: f32, want: f64, tol: f64) -> bool {
    if want.is_finite() {
        (got as f64 - want).abs() <= tol
    } else {
        (want.is_nan() && got.is_nan()) || got as f64 == want
    }
}
/// Slot a copy of the unit stores to on its next tick; the memory is left as it was. `None` when it
/// does not store to exactly one slot of its buffer.
fn find_head(ar: &mut Arena, off: usize, m: &[f32], tick: &mut dyn FnMut(f32)) -> Option<usize> {
    let mut head = None;
    // at least one of two different inputs changes what is stored
    for x in [0.625, -21.0] {
        tick(x);
        for i in 0..m.len() {
            if !same(ar.get(off + i), m[i]) {
                ar.set(off + i, m[i]);
                if head.is_some_and(|h| h != i) {
                    return None;
                }
                head = Some(i);
            }
        }
    }
    head
}
/// After one tick at `head`: the head slot took `want` (within tol), its neighbours did not change.
#[allow(clippy::too_many_arguments)]
fn check_tick(ar: &Arena, off: usize, m: &mut [f32], head: usize, want: f64, tol: f64, si: usize, ctx: &str) -> Result<(), Viol> {
    let len = m.len();
    let w = ar.get(off + head);
    if !near(w, want, tol) {
        return viol("stored-value", si, format!("{ctx}: slot {head} of {len} got {w:e}, expected {want:e} +- {tol:.1e}"));
    }
    m[head] = w;
    for d in [(head + 1) % len, (head + len - 1) % len] {
        if !same(ar.get(off + d), m[d]) {
            return viol("stored-sample-disturbed", si, format!("{ctx}: slot {d} of {len} changed to {:e}", ar.get(off + d)));
        }
    }
    Ok(())
}

pub struct C06;
impl Prop for C06 {
    fn id(&self) -> &'static str {
        "C06"
    }
    fn ops(&self) -> &'static [&'static str] {
        &["tick", "set-feedback", "set-dampening", "move", "scribble", "restart", "fork", "resize"]
    }
    fn runs(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 600_000 } else { 25_000_000 }
    }
    fn gen(&self, r: &mut Rng, _t: Tier) -> Scen {
        gen_recurrence(r, true)
    }
    fn run(&self, s: &Scen, st: &mut Stats) -> Result<(), Viol> {
        let l = (s.cfg[0] as usize).max(1);
        let seed = s.cfg[1] as u64;
        let mut ar = Arena::new(if l > 10_000 { 3 * l + 2000 } else { 30_000 });
        let mut model = vec![];
        let (off, m) = fill(&mut ar, l, seed, s.cfg[2] as u64).unwrap();
        model.push(m);
        let fresh = |ar: &mut Arena, off, l, reg| CombM { real: Comb::new(handle(ar, (off, l))), head: 0, reg, fs: 0.0, fs_err: 0.0, fb: 0.5, d: 0.5 };
        let mut us = vec![fresh(&mut ar, off, l, 0)];
        let mut idx = 0u64;
        for (si, stp) in s.steps.iter().enumerate() {
            let ui = stp.a[0] as usize % us.len();
            match stp.op {
                TICK => {
                    st.inc("op.tick");
                    let n = (stp.a[0] as u64).min(400_000);
                    for _ in 0..n {
                        let x = sig(stp.a[1] as u64, stp.a[2] as f32, stp.a[3] as u64, idx);
                        idx += 1;
                        for (k, u) in us.iter_mut().enumerate() {
                            let x = if k % 2 == 1 { -x } else { x };
                            let len = model[u.reg].len();
                            let stored = model[u.reg][u.head];
                            let out = u.real.tick(x);
                            st.logf(out);
                            if !same(out, stored) {
                                return viol("output-not-stored-sample", si, format!("unit {k} len {len} head {}: output {out:e}, stored {stored:e}", u.head));
                            }
                            let (d, o) = (u.d as f64, out as f64);
                            let nfs = o * (1.0 - d) + u.fs * d;
                            u.fs_err = u.fs_err * d.abs() + EPS * ((o * (1.0 - d)).abs() * 2.0 + (u.fs * d).abs() * 2.0 + o.abs()) + 1e-44;
                            u.fs = nfs;
                            let want = x as f64 + nfs * u.fb as f64;
                            let tol = u.fs_err * (u.fb as f64).abs() + 2.0 * EPS * ((x as f64).abs() + (nfs * u.fb as f64).abs() + want.abs()) + 1e-44;
                            let roff = ar.regions[u.reg].0;
                            check_tick(&ar, roff, &mut model[u.reg], u.head, want, tol, si, "comb tick")?;
                            if nfs.is_nan() {
                                // the damping state is not a number and stays so
                                st.inc("probe.not-a-number-circulates");
                            } else if want.is_nan() && x.is_nan() {
                                st.inc("probe.not-a-number-circulates");
                            } else if !(want.abs() < 1e15 && nfs.abs() < 1e15) {
                                st.inc("probe.blow-up-stopped");
                                return Ok(());
                            }
                            u.head = (u.head + 1) % len;
                        }
                    }
                    st.time(n, 48_000.0);
                }
                FB => {
                    st.inc("op.set-feedback");
                    us[ui].fb = stp.a[1] as f32;
                    us[ui].real.set_feedback(stp.a[1] as f32);
                }
                DAMP => {
                    st.inc("op.set-dampening");
                    us[ui].d = stp.a[1] as f32;
                    us[ui].real.set_dampening(stp.a[1] as f32);
                }
                MOVE => {
                    let len = model[us[ui].reg].len();
                    if ar.room(len + 64) {
                        st.inc("fault.buffer-moved");
                        let no = ar.alloc(len, 9);
                        let c = model[us[ui].reg].clone();
                        for (i, v) in c.iter().enumerate() {
                            ar.set(no + i, *v);
                        }
                        model.push(c);
                        us[ui].reg = model.len() - 1;
                        us[ui].real.change_buffer(handle(&mut ar, (no, len)));
                    }
                }
                SCRIB => {
                    st.inc("fault.memory-scribbled");
                    let reg = us[ui].reg;
                    let i = stp.a[1] as usize % model[reg].len();
                    // through the pointer the comb hands out
                    let p = us[ui].real.get_ptr_slice_mut();
                    if p.len() != model[reg].len() || p as *mut f32 != unsafe { ar.base().add(ar.regions[reg].0) } {
                        return viol("wrong-pointer", si, "get_ptr_slice_mut does not describe the buffer".into());
                    }
                    // now and then something that is not a number
                    let v = if stp.a[3] == 3.0 { f32::NAN } else { stp.a[2] as f32 };
                    ar.set(ar.regions[reg].0 + i, v);
                    model[reg][i] = v;
                }
                RESIZE => {
                    let nl = (stp.a[1].abs() as usize).clamp(1, 2000);
                    if let Some((no, m)) = fill(&mut ar, nl, seed ^ si as u64, 1) {
                        st.inc("fault.buffer-replaced");
                        us[ui].real.change_buffer(handle(&mut ar, (no, nl)));
                        if us[ui].fs.is_nan() {
                            // such a unit stores the same whatever its input: a new one
                            us[ui] = fresh(&mut ar, no, nl, 0);
                        }
                        // where it continues is the library's choice: ask a copy of the unit
                        let probe = us[ui].real;
                        let h = find_head(&mut ar, no, &m, &mut |x| {
                            let mut p = probe;
                            p.tick(x);
                        });
                        let Some(h) = h else {
                            return viol("head-outside-buffer", si, format!("after a replacement by a buffer of {nl} a tick does not store to exactly one slot of it"));
                        };
                        model.push(m);
                        us[ui].reg = model.len() - 1;
                        us[ui].head = h;
                    }
                }
                RESTART => {
                    st.inc("fault.restart");
                    let reg = us[ui].reg;
                    let (o, len) = ar.regions[reg];
                    us[ui] = fresh(&mut ar, o, len, reg);
                }
                _ => {
                    // duplicate a unit mid-flight; the copy continues on a copy of the memory
                    let len = model[us[ui].reg].len();
                    if us.len() < 4 && ar.room(len + 64) {
                        st.inc("fault.unit-duplicated");
                        let no = ar.alloc(len, 9);
                        let c = model[us[ui].reg].clone();
                        for (i, v) in c.iter().enumerate() {
                            ar.set(no + i, *v);
                        }
                        model.push(c);
                        #[allow(clippy::clone_on_copy)]
                        let mut real = if si % 2 == 0 { us[ui].real } else { us[ui].real.clone() };
                        real.change_buffer(handle(&mut ar, (no, len)));
                        let u = &us[ui];
                        let n = CombM { real, reg: model.len() - 1, head: u.head, fs: u.fs, fs_err: u.fs_err, fb: u.fb, d: u.d };
                        us.push(n);
                    }
                }
            }
            if l < 5000 || si + 1 == s.steps.len() {
                check_all(&ar, &model, si)?;
            }
            let u = &us[ui];
            let q = |x: f32| if x == 0.0 { 0 } else if x < 0.0 { 1 } else if x < 1.0 { 2 } else { 3 };
            st.state(stp.op as u64 | q(u.fb) << 8 | q(u.d) << 12 | (64 - (l as u64).leading_zeros() as u64) << 16 | (us.len() as u64) << 24 | ((idx / l as u64).min(4)) << 32 | (stp.a[1] as u64 & 7) << 40);
            st.nontrivial = true;
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "a case is one schedule of audio blocks, knob changes, moves, replacements, scribbles, restarts and mid-flight duplications of up to 4 combs; non-trivial when at least one step ran; distinct by full event log"
    }
    fn real(&self) -> &'static str {
        "Comb, DelayLine, MemorySlice"
    }
    fn stub(&self) -> &'static str {
        "sample RAM, audio source, knobs, memory manager"
    }
}

pub struct C07;
struct ApM {
    real: AllPass,
    head: usize,
    reg: usize,
}
impl Prop for C07 {
    fn id(&self) -> &'static str {
        "C07"
    }
    fn ops(&self) -> &'static [&'static str] {
        &["tick", "unused1", "unused2", "move", "scribble", "restart", "fork", "resize"]
    }
    fn runs(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 1_500_000 } else { 40_000_000 }
    }
    fn gen(&self, r: &mut Rng, _t: Tier) -> Scen {
        gen_recurrence(r, false)
    }
    fn run(&self, s: &Scen, st: &mut Stats) -> Result<(), Viol> {
        let l = (s.cfg[0] as usize).max(1);
        let seed = s.cfg[1] as u64;
        let mut ar = Arena::new(if l > 10_000 { 3 * l + 2000 } else { 30_000 });
        let mut model = vec![];
        let (off, m) = fill(&mut ar, l, seed, s.cfg[2] as u64).unwrap();
        model.push(m);
        let mut us = vec![ApM { real: AllPass::new(handle(&mut ar, (off, l))), head: 0, reg: 0 }];
        let mut idx = 0u64;
        for (si, stp) in s.steps.iter().enumerate() {
            let ui = stp.a[0] as usize % us.len();
            match stp.op {
                TICK => {
                    st.inc("op.tick");
                    let n = (stp.a[0] as u64).min(400_000);
                    for _ in 0..n {
                        let x = sig(stp.a[1] as u64, stp.a[2] as f32, stp.a[3] as u64, idx);
                        idx += 1;
                        for (k, u) in us.iter_mut().enumerate() {
                            let x = if k % 2 == 1 { -x } else { x };
                            let len = model[u.reg].len();
                            let stored = model[u.reg][u.head];
                            let out = u.real.tick(x);
                            st.logf(out);
                            let want = stored as f64 - x as f64;
                            if !near(out, want, EPS * want.abs() + 1e-44) {
                                return viol("output", si, format!("unit {k} len {len} head {} input {x:e} stored {stored:e}: output {out:e}, expected {want:e}", u.head));
                            }
                            let w = x as f64 + 0.5 * stored as f64;
                            let tol = EPS * (w.abs() + (stored as f64).abs() * 0.5) + 1e-44;
                            let roff = ar.regions[u.reg].0;
                            check_tick(&ar, roff, &mut model[u.reg], u.head, w, tol, si, "all-pass tick")?;
                            u.head = (u.head + 1) % len;
                        }
                    }
                    st.time(n, 48_000.0);
                }
                MOVE | FORK => {
                    let len = model[us[ui].reg].len();
                    if ar.room(len + 64) && (stp.op == MOVE || us.len() < 4) {
                        st.inc(if stp.op == MOVE { "fault.buffer-moved" } else { "fault.unit-duplicated" });
                        let no = ar.alloc(len, 9);
                        let c = model[us[ui].reg].clone();
                        for (i, v) in c.iter().enumerate() {
                            ar.set(no + i, *v);
                        }
                        model.push(c);
                        if stp.op == FORK {
                            #[allow(clippy::clone_on_copy)]
                            let real = if si % 2 == 0 { us[ui].real } else { us[ui].real.clone() };
                            let n = ApM { real, head: us[ui].head, reg: us[ui].reg };
                            us.push(n);
                        }
                        let k = if stp.op == FORK { us.len() - 1 } else { ui };
                        us[k].reg = model.len() - 1;
                        us[k].real.change_buffer(handle(&mut ar, (no, len)));
                    }
                }
                SCRIB => {
                    st.inc("fault.memory-scribbled");
                    let reg = us[ui].reg;
                    let i = stp.a[1] as usize % model[reg].len();
                    let p = us[ui].real.get_ptr_slice_mut();
                    if p.len() != model[reg].len() || p as *mut f32 != unsafe { ar.base().add(ar.regions[reg].0) } {
                        return viol("wrong-pointer", si, "get_ptr_slice_mut does not describe the buffer".into());
                    }
                    let v = match stp.a[3].abs() as u64 {
                        1 => f32::INFINITY,
                        2 => f32::NEG_INFINITY,
                        3 => f32::NAN,
                        _ => stp.a[2] as f32,
                    };
                    ar.set(ar.regions[reg].0 + i, v);
                    model[reg][i] = v;
                }
                RESIZE => {
                    let nl = (stp.a[1].abs() as usize).clamp(1, 2000);
                    if let Some((no, m)) = fill(&mut ar, nl, seed ^ si as u64, 1) {
                        st.inc("fault.buffer-replaced");
                        us[ui].real.change_buffer(handle(&mut ar, (no, nl)));
                        // where it continues is the library's choice: ask a copy of the unit
                        let probe = us[ui].real;
                        let h = find_head(&mut ar, no, &m, &mut |x| {
                            let mut p = probe;
                            p.tick(x);
                        });
                        let Some(h) = h else {
                            return viol("head-outside-buffer", si, format!("after a replacement by a buffer of {nl} a tick does not store to exactly one slot of it"));
                        };
                        model.push(m);
                        us[ui].reg = model.len() - 1;
                        us[ui].head = h;
                    }
                }
                _ => {
                    st.inc("fault.restart");
                    let reg = us[ui].reg;
                    let (o, len) = ar.regions[reg];
                    us[ui] = ApM { real: AllPass::new(handle(&mut ar, (o, len))), head: 0, reg };
                }
            }
            if l < 5000 || si + 1 == s.steps.len() {
                check_all(&ar, &model, si)?;
            }
            st.state(stp.op as u64 | (64 - (l as u64).leading_zeros() as u64) << 16 | (us.len() as u64) << 24 | ((idx / l as u64).min(6)) << 32 | (stp.a[1] as u64 & 7) << 40);
            st.nontrivial = true;
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "a case is one schedule of audio blocks, moves, replacements by longer or shorter buffers, scribbles (also inf and NaN), restarts and mid-flight duplications of up to 4 all-passes; non-trivial when at least one step ran; distinct by full event log"
    }
    fn real(&self) -> &'static str {
        "AllPass, DelayLine, MemorySlice"
    }
    fn stub(&self) -> &'static str {
        "sample RAM, audio source, memory manager"
    }
}

// ------------------------------------------------------------------ C08
pub struct C08;
const B_TICK: u8 = 0;
const B_FB: u8 = 1;
const B_DAMP: u8 = 2;
const B_MOVE: u8 = 3;
const B_SCRIB: u8 = 4;
const B_DRAIN: u8 = 5;

enum Unit {
    C { real: Comb, fb: f32, d: f32, fmax: f64 },
    A { real: AllPass },
}
struct Node {
    u: Unit,
    reg: usize,
    head: usize,
    len: usize,
    /// bound on content: initial + scribbles
    b0: f64,
    /// biggest input so far
    a: f64,
    /// biggest content so far (observed)
    seen: f64,
}
impl Node {
    fn bound(&self) -> f64 {
        match &self.u {
            Unit::C { fmax, .. } => self.b0.max(self.a / (1.0 - fmax)),
            Unit::A { .. } => self.b0.max(2.0 * self.a),
        }
    }
}

impl Prop for C08 {
    fn id(&self) -> &'static str {
        "C08"
    }
    fn ops(&self) -> &'static [&'static str] {
        &["tick", "set-feedback", "set-dampening", "move", "scribble", "drain"]
    }
    fn runs(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 10_000 } else { 400_000 }
    }
    fn gen(&self, r: &mut Rng, _t: Tier) -> Scen {
        let nu = r.weighted(&[3, 4, 3, 2, 1, 1]) as i64 + 1;
        let parallel = r.below(2);
        let mut cfg = vec![nu as f64, parallel as f64, r.below(1 << 20) as f64, r.below(3) as f64];
        let mut tot = 0u64;
        for _ in 0..nu {
            let comb = r.chance(0.6);
            let l = gen_len(r, 260);
            tot += l;
            cfg.extend([comb as u64 as f64, l as f64, r.f32v(-0.95, 0.95), if r.chance(0.2) { r.pick(&[0.0, 0.95]) } else { r.f32v(0.0, 0.95) } as f32 as f64]);
        }
        let horizon = match r.below(3) {
            0 => 100,
            1 => 3 * tot,
            _ => 3000,
        };
        let knob = r.below(200) + 1;
        let kind = r.below(NSIG);
        let amp = r.pick(&[1.0, 1.0, 0.5, 100.0, 1e-6]) as f32 as f64;
        let scr = r.chance(0.6);
        let mut tasks = vec![
            Task {
                id: UI,
                next: r.below(horizon + 1),
                wake: Box::new(move |r: &mut Rng, o: &mut Vec<(u8, [f64; 4])>| {
                    let u = r.below(6) as f64;
                    if r.chance(0.5) {
                        let f = match r.below(5) { 0 => r.pick(&[0.0, 0.97, -0.97]), 1 => 0.5, _ => r.f32v(-0.97, 0.97) };
                        o.push((B_FB, [u, f as f32 as f64, 0.0, 0.0]));
                    } else {
                        let d = match r.below(5) { 0 => r.pick(&[0.0, 1.0]), _ => r.f32v(0.0, 1.0) };
                        o.push((B_DAMP, [u, d, 0.0, 0.0]));
                    }
                    delay(r, knob)
                }),
            },
            Task {
                id: FAULT,
                next: if scr { r.below(horizon + 1) } else { u64::MAX },
                wake: Box::new(move |r, o| {
                    let u = r.below(6) as f64;
                    if r.chance(0.5) {
                        o.push((B_SCRIB, [u, r.below(300) as f64, r.f32v(-10.0, 10.0) * if r.chance(0.2) { 100.0 } else { 1.0 }, 0.0]));
                    } else {
                        o.push((B_MOVE, [u, 0.0, 0.0, 0.0]));
                    }
                    delay(r, horizon / 4 + 1)
                }),
            },
        ];
        let tl = Timeline::build(r, horizon, 200, 0.05, B_TICK, |r, n| [n as f64, if r.chance(0.7) { kind } else { r.below(NSIG) } as f64, amp, r.below(1 << 20) as f64], &mut tasks);
        drop(tasks);
        let mut steps = tl.steps;
        if r.chance(0.02) {
            marathon(r, &mut steps, B_TICK, 0, 66_000, 200_000);
        }
        let end = steps.last().map_or(tl.now, |s| s.t.max(tl.now));
        steps.push(Step { t: end, task: PROBE, op: B_DRAIN, a: [0.0; 4] });
        Scen { cfg, steps }
    }
    fn run(&self, s: &Scen, st: &mut Stats) -> Result<(), Viol> {
        let nu = (s.cfg[0] as usize).clamp(1, 6);
        let par = s.cfg[1] != 0.0;
        let seed = s.cfg[2] as u64;
        let content = s.cfg[3] as u64;
        let mut ar = Arena::new(60_000);
        let mut ns: Vec<Node> = vec![];
        for i in 0..nu {
            let c = |k: usize| s.cfg.get(4 + 4 * i + k).copied().unwrap_or(1.0);
            let len = (c(1) as usize).max(1);
            let off = ar.alloc(len, 29);
            let mut b0 = 0.0f64;
            for k in 0..len {
                let v = if content == 0 { 0.0 } else { sig(3, if content == 2 { 5.0 } else { 0.5 }, seed + i as u64, k as u64) };
                ar.set(off + k, v);
                b0 = b0.max(v.abs() as f64);
            }
            let h = handle(&mut ar, (off, len));
            let u = if c(0) != 0.0 {
                let mut real = Comb::new(h);
                let (fb, d) = ((c(2) as f32).clamp(-0.97, 0.97), (c(3) as f32).clamp(0.0, 1.0));
                real.set_feedback(fb);
                real.set_dampening(d);
                Unit::C { real, fb, d, fmax: fb.abs() as f64 }
            } else {
                Unit::A { real: AllPass::new(h) }
            };
            ns.push(Node { u, reg: i, head: 0, len, b0, a: 0.0, seen: b0 });
        }
        let mut idx = 0u64;
        // one sample through the network; returns its output
        let pass = |ns: &mut Vec<Node>, ar: &Arena, x: f32, si: usize| -> Result<f32, Viol> {
            let mut sig_in = x;
            let mut sum = 0.0f32;
            let mut have_sum = false;
            for (k, n) in ns.iter_mut().enumerate() {
                let is_comb = matches!(n.u, Unit::C { .. });
                // parallel bank: combs all take x and are summed, all-passes follow in series
                if par && !is_comb && have_sum {
                    sig_in = sum;
                    sum = 0.0;
                    have_sum = false;
                }
                let inp = if par && is_comb { x } else { sig_in };
                n.a = n.a.max(inp.abs() as f64);
                let out = match &mut n.u {
                    Unit::C { real, .. } => real.tick(inp),
                    Unit::A { real } => real.tick(inp),
                };
                let w = ar.get(ar.regions[n.reg].0 + n.head).abs() as f64;
                let b = n.bound() * (1.0 + 1e-4) + 1e-38;
                if !(w <= b) {
                    return viol("content-exceeds-bound", si, format!("unit {k} ({}) stored {w:e}, bound {b:e} (input {:e}, before {:e})", if is_comb { "comb" } else { "all-pass" }, n.a, n.b0));
                }
                let ob = if is_comb { b } else { b + n.a * (1.0 + 1e-4) };
                if !((out.abs() as f64) <= ob) {
                    return viol("output-exceeds-bound", si, format!("unit {k} output {out:e}, bound {ob:e}"));
                }
                n.seen = n.seen.max(w);
                n.head = (n.head + 1) % n.len;
                if par && is_comb {
                    sum += out;
                    have_sum = true;
                } else {
                    sig_in = out;
                }
            }
            Ok(if have_sum { sum } else { sig_in })
        };
        for (si, stp) in s.steps.iter().enumerate() {
            let ui = stp.a[0] as usize % nu;
            match stp.op {
                B_TICK => {
                    st.inc("op.tick");
                    let n = (stp.a[0] as u64).min(400_000);
                    for _ in 0..n {
                        let x = sig(stp.a[1] as u64, stp.a[2] as f32, stp.a[3] as u64, idx);
                        idx += 1;
                        let y = pass(&mut ns, &ar, x, si)?;
                        st.logf(y);
                    }
                    st.time(n, 48_000.0);
                }
                B_FB => {
                    if let Unit::C { real, fb, fmax, .. } = &mut ns[ui].u {
                        st.inc("op.set-feedback");
                        *fb = (stp.a[1] as f32).clamp(-0.97, 0.97);
                        real.set_feedback(*fb);
                        *fmax = fmax.max(fb.abs() as f64);
                    }
                }
                B_DAMP => {
                    if let Unit::C { real, d, .. } = &mut ns[ui].u {
                        st.inc("op.set-dampening");
                        *d = (stp.a[1] as f32).clamp(0.0, 1.0);
                        real.set_dampening(*d);
                    }
                }
                B_MOVE => {
                    let n = &mut ns[ui];
                    if ar.room(n.len + 64) {
                        st.inc("fault.buffer-moved");
                        let (o, len) = ar.regions[n.reg];
                        let no = ar.alloc(len, 11);
                        for k in 0..len {
                            let v = ar.get(o + k);
                            ar.set(no + k, v);
                        }
                        n.reg = ar.regions.len() - 1;
                        let h = handle(&mut ar, (no, len));
                        match &mut n.u {
                            Unit::C { real, .. } => real.change_buffer(h),
                            Unit::A { real } => real.change_buffer(h),
                        }
                    }
                }
                B_SCRIB => {
                    st.inc("fault.memory-scribbled");
                    let n = &mut ns[ui];
                    let o = ar.regions[n.reg].0;
                    ar.set(o + stp.a[1] as usize % n.len, stp.a[2] as f32);
                    n.b0 = n.b0.max(n.bound()).max(stp.a[2].abs());
                    n.seen = n.seen.max(stp.a[2].abs());
                }
                _ => {
                    // faults stop: silence in, nothing changes any more
                    st.inc("probe.drain");
                    for n in ns.iter_mut() {
                        if let Unit::C { real, d, .. } = &mut n.u {
                            if *d > 0.95 {
                                *d = 0.95;
                                real.set_dampening(0.95);
                            }
                        }
                    }
                    let mut total = 0u64;
                    let mut lens = 0u64;
                    let mut gain = 1.0f64;
                    let mut level = 0.0f64;
                    for n in &ns {
                        let (f, m) = match &n.u {
                            Unit::C { fb, d, .. } => {
                                let f = fb.abs() as f64;
                                let m = if *d == 0.0 { 0.0 } else { (((1.0 - f) / 4.0).min(0.02)).ln() / (*d as f64).ln() };
                                (f * (1.0 + (1.0 - f) / 4.0), m)
                            }
                            Unit::A { .. } => (0.5, 0.0),
                        };
                        gain *= 4.0 / (1.0 - f);
                        level = level.max(n.bound());
                        let rounds = (1e-6 / gain).ln() / f.max(0.01).ln();
                        total += ((rounds + 3.0) * (n.len as f64 + m) * 2.0) as u64;
                        lens += n.len as u64;
                    }
                    level = level.max(1e-20);
                    for _ in 0..total {
                        pass(&mut ns, &ar, 0.0, si)?;
                    }
                    let mut worst = 0.0f64;
                    for _ in 0..lens {
                        let y = pass(&mut ns, &ar, 0.0, si)?;
                        st.logf(y);
                        worst = worst.max(y.abs() as f64);
                    }
                    st.time(total + lens, 48_000.0);
                    if !(worst <= 1e-4 * level + 1e-36) {
                        return viol("does-not-die-away", si, format!("{worst:e} left of {level:e} after {total} silent samples"));
                    }
                }
            }
            if let Some(g) = ar.check_near_guards() {
                return viol("write-outside-buffer", si, format!("guard cell {g} changed"));
            }
            let k = match &ns[ui].u {
                Unit::C { fb, d, .. } => 1 | ((fb.abs() * 4.0) as u64) << 1 | ((d * 4.0) as u64) << 4,
                _ => 0,
            };
            st.state(stp.op as u64 | k << 8 | (nu as u64) << 16 | (par as u64) << 20 | (64 - (ns[ui].len as u64).leading_zeros() as u64) << 24);
            st.nontrivial = true;
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "a case is one schedule over a chain or bank of 1..6 combs/all-passes followed by a silent drain; non-trivial when at least one step ran; distinct by full event log"
    }
    fn real(&self) -> &'static str {
        "Comb, AllPass, DelayLine, MemorySlice"
    }
    fn stub(&self) -> &'static str {
        "sample RAM, audio source, knobs, fault injector"
    }
}
