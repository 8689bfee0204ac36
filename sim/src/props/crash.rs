//! C19: power loss at any instruction; what survives is the sample memory.
use super::delay::{handle, uniq};
use crate::core::*;
use crate::rng::Rng;
use crate::stepper::stepped;
use embedded_audio_tools::memory_access::*;
use embedded_audio_tools::{AllPass, Comb, DelayLine};
use std::hint::black_box;

pub struct C19;
const TICK: u8 = 0; // write_and_advance / tick
const ADV: u8 = 1;
const READ: u8 = 2;
const TAPS: u8 = 3;
const KNOB: u8 = 4;
const REBUF: u8 = 5;
const BUILD: u8 = 6;
const COPY: u8 = 7;
const CRASH: u8 = 9; // power fails at instruction a[1] of the next operation
const FAST: u8 = 10; // a run of ticks at full speed
const OPS: [&str; 11] = [
    "write", "advance", "read", "taps", "knob", "change-buffer", "build-another", "copy-move-drop", "look", "power-loss-at", "write-run",
];
const STAT: [&str; 11] = [
    "op.write", "op.advance", "op.read", "op.taps", "op.knob", "op.change-buffer", "op.build-another", "op.copy-move-drop", "op.look",
    "fault.power-loss-armed", "op.write-run",
];
const KIND: [&str; 3] = ["delay line", "comb", "all-pass"];

#[derive(Clone, Copy)]
enum Unit {
    D(DelayLine),
    C(Comb),
    A(AllPass),
}
fn build(kind: usize, h: MemorySlice<Mutable>) -> Unit {
    match kind {
        0 => Unit::D(DelayLine::new(h)),
        1 => Unit::C(Comb::new(h)),
        _ => Unit::A(AllPass::new(h)),
    }
}
/// the sample in the slot at the head, as playback shows it; then moves on
fn play(u: &mut Unit) -> f32 {
    match u {
        Unit::D(d) => {
            let v = d.read();
            d.advance();
            v
        }
        Unit::C(c) => c.tick(0.0),
        Unit::A(a) => a.tick(0.0),
    }
}

impl Prop for C19 {
    fn id(&self) -> &'static str {
        "C19"
    }
    fn ops(&self) -> &'static [&'static str] {
        &OPS
    }
    fn runs(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 90_000 } else { 2_600_000 }
    }
    fn gen(&self, r: &mut Rng, _t: Tier) -> Scen {
        let kind = r.below(3);
        let l1 = r.pick(&[1, 2, 3, 4, 5, 8, 11, 16, 24]);
        let l2 = r.pick(&[1, 2, 3, 5, 7, 16, 33]);
        let w = r.chance(0.3);
        // a long buffer now and then
        let (l1, l2) = if !w && r.chance(0.02) { (r.range(900, 3000), r.pick(&[l2, 1001, 1024])) } else { (l1, l2) };
        // cfg[4]: 0 = one machine instruction at a time, 1 = one memory access at a time
        let cfg = vec![kind as f64, l1 as f64, l2 as f64, r.below(10_000) as f64, w as u64 as f64];
        let mut steps = vec![];
        let n = r.range(2, 16);
        for t in 0..n {
            let op = r.weighted(&[10, 2, 2, 3, 2, 2, 2, 2, 1, 0, 3]) as u8;
            if r.chance(0.35) {
                let k = match r.below(4) {
                    _ if w => r.range(1, 6),
                    0 => r.range(1, 12),
                    1 | 2 => r.range(1, 60),
                    _ => r.range(1, 300),
                };
                steps.push(Step { t: t as u64, task: FAULT, op: CRASH, a: [k as f64, 0.0, 0.0, 0.0] });
            }
            let a = match op {
                TAPS => [r.range(-40, 40) as f64, r.f32v(-50.0, 50.0), r.below(3) as f64, 0.0],
                KNOB => [r.below(2) as f64, r.f32v(0.0, 1.0), 0.0, 0.0],
                REBUF => [r.below(4) as f64, 0.0, 0.0, 0.0],
                BUILD | COPY => [r.below(3) as f64, r.below(2) as f64, 0.0, 0.0],
                FAST => [r.range(1, 40) as f64, 0.0, 0.0, 0.0],
                _ => [0.0; 4],
            };
            let task = match op {
                TICK | FAST => AUDIO,
                KNOB => UI,
                REBUF | BUILD | COPY => MEMMAN,
                ADV => TIMER,
                _ => PROBE,
            };
            steps.push(Step { t: t as u64, task, op, a });
        }
        Scen { cfg, steps }
    }
    fn run(&self, s: &Scen, st: &mut Stats) -> Result<(), Viol> {
        let c = |i: usize| s.cfg.get(i).copied().unwrap_or(0.0).abs() as usize;
        let kind = c(0) % 3;
        let lens = [c(1).clamp(1, 4096), c(2).clamp(1, 4096)];
        let mut ctr = c(3) as u64;
        let watched = c(4) == 1;
        // sample values: all different and ordinary where changes are told by value
        let mut fresh = || loop {
            ctr += 1;
            if watched {
                return match ctr % 7 {
                    0 => [0.0, -0.0, f32::INFINITY, f32::from_bits(0x7fc1_2345), 1e-30, f32::from_bits(3), -1e-12][(ctr / 7 % 7) as usize],
                    _ => uniq(ctr),
                };
            }
            let v = uniq(ctr);
            if v.abs() < 2.0 && v.abs() > 1e-3 {
                return v;
            }
        };
        let mut ar = if watched { Arena::watched() } else { Arena::new(512 + lens[0] + lens[1]) };
        let mut regs = vec![];
        for (k, l) in lens.iter().enumerate() {
            let o = ar.alloc(*l, 12 + k);
            for i in 0..*l {
                ar.set(o + i, fresh());
            }
            regs.push((o, *l));
        }
        let span = (regs[0].0 - 8, regs[1].0 + regs[1].1 + 8);
        let base = ar.back() as *mut u32;
        let cell = |i: usize| unsafe { base.add(i).read_volatile() };
        let mut cur = 0usize; // region in use
        let mut head = 0usize;
        let mut u = build(kind, handle(&mut ar, regs[0]));
        let mut armed: Option<u64> = None;
        for (si, stp) in s.steps.iter().enumerate() {
            st.inc(STAT[stp.op as usize]);
            if stp.op == CRASH {
                armed = Some(stp.a[0].abs().max(1.0) as u64);
                continue;
            }
            let name = OPS[stp.op as usize];
            let x = fresh();
            let len = lens[cur];
            let slot = regs[cur].0 + head;
            if stp.op == FAST {
                for _ in 0..(stp.a[0].abs() as usize).min(200) {
                    let x = fresh() * 0.5;
                    match &mut u {
                        Unit::D(d) => d.write_and_advance(x),
                        Unit::C(c) => {
                            c.tick(x);
                        }
                        Unit::A(a) => {
                            a.tick(x);
                        }
                    }
                    head = (head + 1) % len;
                }
                continue;
            }
            // may this operation store, and where
            let writes = stp.op == TICK;
            let before: Vec<u32> = (span.0..span.1).map(cell).collect();
            let mut shadow = before.clone();
            let mut stores = 0u32;
            let mut bad: Option<String> = None;
            let mut image: Option<(u64, Vec<u32>)> = None;
            let other = stp.a[0].abs() as usize;
            let (i, f) = (black_box(stp.a[0].clamp(-1e6, 1e6) as isize), black_box(stp.a[1].clamp(-1e4, 1e4) as f32));
            let reg2 = regs[other % 2];
            let (ha, hb) = (handle(&mut ar, regs[cur]), handle(&mut ar, reg2));
            let (cnt, over);
            let mut sink = 0.0f32;
            {
                let mut hook = |now: u64| {
                    for (q, sh) in shadow.iter_mut().enumerate() {
                        let v = unsafe { base.add(span.0 + q).read_volatile() };
                        if v != *sh {
                            stores += 1;
                            if bad.is_none() {
                                if !writes || span.0 + q != slot {
                                    bad = Some(format!("cell {} changed from {} to {} at instruction {now}", q as isize + span.0 as isize - regs[cur].0 as isize, f32::from_bits(*sh), f32::from_bits(v)));
                                } else if stores > 1 {
                                    bad = Some(format!("the slot at the head changed {stores} times (intermediate value {})", f32::from_bits(*sh)));
                                }
                            }
                            *sh = v;
                        }
                    }
                    if armed == Some(now) {
                        image = Some((now, shadow.clone()));
                    }
                };
                let mut g = || match stp.op {
                    TICK => match &mut u {
                        Unit::D(d) => d.write_and_advance(x),
                        Unit::C(c) => sink = c.tick(x),
                        Unit::A(a) => sink = a.tick(x),
                    },
                    ADV => {
                        if let Unit::D(d) = &mut u {
                            d.advance()
                        }
                    }
                    READ => {
                        if let Unit::D(d) = &u {
                            sink = d.read()
                        }
                    }
                    TAPS => match &u {
                        Unit::D(d) => {
                            sink = match stp.a[2] as u64 {
                                0 => d.read_wrapped_at(i),
                                1 => d.read_lerp_wrapped_at(f),
                                _ => d.read_lagrange_wrapped_at(f),
                            }
                        }
                        _ => {
                            sink = match stp.a[2] as u64 {
                                0 => ha.get_wrapped(i),
                                1 => ha.lerp_wrapped(f),
                                _ => ha.get_slice_of_four_wrapped(i)[3],
                            }
                        }
                    },
                    KNOB => {
                        if let Unit::C(c) = &mut u {
                            if i == 0 {
                                c.set_feedback(f)
                            } else {
                                c.set_dampening(f)
                            }
                        }
                    }
                    REBUF => {
                        // directly, or by way of having no buffer for a while
                        for b in [if other >= 2 { Some(null_mut()) } else { None }, Some(hb)].into_iter().flatten() {
                            match &mut u {
                                Unit::D(d) => d.change_buffer(b),
                                Unit::C(c) => c.change_buffer(b),
                                Unit::A(a) => a.change_buffer(b),
                            }
                            if b.len() == 0 {
                                sink = play(&mut u);
                            }
                        }
                    }
                    BUILD => {
                        // another component on the memory in use, or on the other one
                        let mut n = build(other % 3, if f == 0.0 { ha } else { hb });
                        black_box(&mut n);
                    }
                    COPY => {
                        let mut n = u;
                        black_box(&mut n);
                        let m = Box::new(n);
                        drop(black_box(m));
                    }
                    _ => {
                        sink = match &mut u {
                            Unit::D(d) => d.get_ptr_slice_mut().len() as f32 + d.len() as f32,
                            Unit::C(c) => c.get_ptr_slice_mut().len() as f32,
                            Unit::A(a) => a.get_ptr_slice_mut().len() as f32,
                        }
                    }
                };
                if watched {
                    let mut look = |now: u64| {
                        if armed == Some(now) {
                            image = Some((now, (span.0..span.1).map(|i| unsafe { base.add(i).read_volatile() }).collect()));
                        }
                    };
                    let r = crate::watch::watched(2000, &mut look, &mut g);
                    cnt = 2 * r.0.len() as u64;
                    over = r.1;
                    let mut n = 0;
                    for a in r.0.iter().filter(|a| a.write) {
                        n += 1;
                        let rel = a.at as isize - 4 * regs[cur].0 as isize;
                        if !writes || a.at != 4 * slot || a.spill {
                            bad.get_or_insert(format!("byte {rel} of the buffer was stored to"));
                        } else if n > 1 {
                            bad.get_or_insert(format!("the slot at the head was stored to {n} times"));
                        }
                    }
                    shadow = (span.0..span.1).map(|i| unsafe { base.add(i).read_volatile() }).collect();
                    for (q, v) in shadow.iter().enumerate() {
                        if *v != before[q] && (!writes || span.0 + q != slot) {
                            bad.get_or_insert(format!("cell {} changed", q as isize + span.0 as isize - regs[cur].0 as isize));
                        }
                    }
                } else {
                    let r = stepped(40_000, &mut hook, &mut g);
                    cnt = r.0;
                    over = r.1;
                }
            }
            if over {
                return viol("operation-does-not-end", si, format!("{name} still running after {cnt} instructions"));
            }
            st.add(if watched { "watched_accesses" } else { "instructions_stepped" }, if watched { cnt / 2 } else { cnt });
            st.logf(sink);
            // the last instruction may have been the store
            for (q, sh) in shadow.iter_mut().enumerate() {
                let v = cell(span.0 + q);
                if v != *sh {
                    let _ = stores;
                    if !writes || span.0 + q != slot {
                        bad.get_or_insert(format!("cell {} changed", q as isize + span.0 as isize - regs[cur].0 as isize));
                    }
                    *sh = v;
                }
            }
            if let Some(b) = bad {
                return viol("memory-touched", si, format!("{} of {}: {name} with the head at {head}: {b}", KIND[kind], len));
            }
            if writes {
                if let Unit::D(_) = u {
                    if cell(slot) != x.to_bits() {
                        return viol("write-lost", si, format!("wrote {x}, slot {head} of {len} holds {}", f32::from_bits(cell(slot))));
                    }
                }
            }
            match stp.op {
                TICK => head = (head + 1) % len,
                ADV => {
                    if kind == 0 {
                        head = (head + 1) % len
                    }
                }
                REBUF => {
                    let n = other % 2;
                    if len != lens[n] || other >= 2 {
                        // where the head goes then is not specified here; a fresh start is
                        u = build(kind, handle(&mut ar, regs[n]));
                        head = 0;
                    }
                    cur = n;
                }
                _ => {}
            }
            st.nontrivial = true;
            let k = armed.take();
            // ---- power loss: only the memory image survives
            if let Some(k) = k {
                let img = match image {
                    Some((_, im)) => {
                        st.inc("fault.power-loss-inside-operation");
                        im
                    }
                    None => {
                        st.inc("fault.power-loss-after-operation");
                        shadow.clone()
                    }
                };
                st.state(kind as u64 | (stp.op as u64) << 2 | k.min(cnt + 1) << 8 | (lens[cur].min(6) as u64) << 20);
                for (q, v) in img.iter().enumerate() {
                    ar.set(span.0 + q, f32::from_bits(*v));
                    st.log(*v as u64);
                }
                // restart: build over what is there, nothing may change
                let survivors: Vec<f32> = (0..lens[cur]).map(|i| ar.get(regs[cur].0 + i)).collect();
                let hh = handle(&mut ar, regs[cur]);
                u = build(kind, hh);
                for (q, v) in img.iter().enumerate() {
                    if cell(span.0 + q) != *v {
                        return viol("memory-touched", si, format!("building a {} over surviving memory changed cell {}", KIND[kind], q as isize + span.0 as isize - regs[cur].0 as isize));
                    }
                }
                for (i, v) in survivors.iter().enumerate() {
                    let mut got = play(&mut u);
                    if kind == 2 {
                        got += 0.0;
                    }
                    if got != *v && !(got.is_nan() && v.is_nan()) {
                        return viol("playback-differs", si, format!("after restart sample {i} of {} of a {} plays as {got}, memory held {v}", lens[cur], KIND[kind]));
                    }
                }
                // playback of comb and all-pass re-stores; go on from the surviving image
                for (q, v) in img.iter().enumerate() {
                    ar.set(span.0 + q, f32::from_bits(*v));
                }
                u = build(kind, handle(&mut ar, regs[cur]));
                head = 0;
            }
            if let Some(g) = ar.check_near_guards() {
                return viol("memory-touched", si, format!("guard cell {g} changed by {name}"));
            }
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "a case is one schedule of operations on one delay line, comb or all-pass over two buffers, each executed one machine instruction (or, in 30% of the cases, one recorded memory access) at a time with power losses at chosen points, followed by a restart over the surviving memory; non-trivial when an operation was stepped; distinct by full event log; states are (component, operation, crash instruction, length class)"
    }
    fn real(&self) -> &'static str {
        "DelayLine, Comb, AllPass, MemorySlice (compiled optimised)"
    }
    fn stub(&self) -> &'static str {
        "memory (survives), power supply (simulator decides the instruction), boot code"
    }
}
