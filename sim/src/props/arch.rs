//! C22: the same history on a 64-bit host and on a 32-bit device. The 32-bit device is a freestanding
//! i686 program (`/verif/dev32`), started afresh for every run; both execute the same instrument.
use super::rt::wild;
use crate::core::*;
use crate::rng::Rng;
use std::io::{Read, Write};
use std::process::{Command, Stdio};

#[path = "../../../dev32/src/device.rs"]
#[allow(dead_code)]
mod device;
use device::{HEADER, KINDS, MACHINES, NW, RAM_CELLS};

pub struct C22;
const OPS: [&str; 5] = ["any-operation", "ticks", "reboot", "scribble", "move-buffer"];
const ANY: u8 = 0;
const TICKS: u8 = 1;
const REBOOT: u8 = 2;
const SCRIBBLE: u8 = 3;
const MOVE: u8 = 4;
const DEVICE: &str = concat!(env!("CARGO_MANIFEST_DIR"), "/../dev32/target/i686-unknown-linux-gnu/release/dev32");

fn word(x: f64) -> u32 {
    x.clamp(0.0, u32::MAX as f64) as u32
}
/// integers, chosen so that they mean the same position in 32 and in 64 bits
fn int(r: &mut Rng, len: u64) -> f64 {
    let l = len as i64;
    (match r.below(9) {
        0 => 0,
        1 => r.range(-3, 3) as i64,
        2 | 3 => r.range(-(2 * l + 3), 2 * l + 3) as i64,
        4 => l * r.range(-3, 3) as i64 + r.range(-2, 2) as i64,
        5 => i32::MAX as i64 - r.range(0, 4) as i64,
        6 => i32::MIN as i64 + r.range(0, 4) as i64,
        7 => (1i64 << r.range(4, 30)) * if r.chance(0.5) { 1 } else { -1 } + r.range(-1, 1) as i64,
        _ => r.below(1 << 32) as u32 as i32 as i64,
    })
    .clamp(i32::MIN as i64, i32::MAX as i64) as f64
}

/// starts the device, hands it the history; its answers, or how it ended
fn on_device(w: &[u32]) -> Result<Vec<u32>, String> {
    let mut c = Command::new(DEVICE)
        .env_clear()
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap_or_else(|e| panic!("harness: cannot start {DEVICE}: {e}"));
    let bytes: Vec<u8> = w.iter().flat_map(|x| x.to_le_bytes()).collect();
    let sent = c.stdin.take().unwrap().write_all(&bytes);
    let mut back = vec![];
    c.stdout.take().unwrap().read_to_end(&mut back).expect("harness: reading the device");
    let end = c.wait().expect("harness: waiting for the device");
    match end.code() {
        Some(0) if sent.is_ok() => Ok(back.chunks_exact(4).map(|b| u32::from_le_bytes([b[0], b[1], b[2], b[3]])).collect()),
        Some(3) => panic!("harness: history too long"),
        Some(101) => Err("panicked".into()),
        _ => Err(format!("ended with {end}")),
    }
}

impl Prop for C22 {
    fn id(&self) -> &'static str {
        "C22"
    }
    fn ops(&self) -> &'static [&'static str] {
        &OPS
    }
    fn runs(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 150_000 } else { 6_000_000 }
    }
    fn gen(&self, r: &mut Rng, _t: Tier) -> Scen {
        let mut cfg = vec![];
        let memory = r.chance(0.5);
        for _ in 0..MACHINES {
            let k = if memory && r.chance(0.7) { r.pick(&[0.0, 0.0, 1.0, 2.0, 8.0, 8.0]) } else { r.below(KINDS as u64) as f64 };
            cfg.push(k);
            cfg.push(gen_len(r, device::MAX_LEN as u64) as f64);
        }
        if r.chance(0.1) {
            let m = r.idx(MACHINES);
            // no memory at all, for those that accept that
            if [3.0, 4.0, 5.0, 7.0, 8.0, 9.0].contains(&cfg[2 * m]) {
                cfg[2 * m + 1] = 0.0;
            }
        }
        cfg.push(gen_len(r, device::MAX_LEN as u64) as f64);
        cfg.push(r.below(1 << 20) as f64);
        let c = cfg.clone();
        let len = move |m: u64| c[2 * m as usize + 1] as u64;
        let (c2, len2) = (cfg.clone(), len.clone());
        let kind = move |m: u64| c2[2 * m as usize] as usize;
        let plain = r.chance(0.4);
        let which = |r: &mut Rng| r.below(MACHINES as u64);
        let number = move |r: &mut Rng, l: u64| match r.below(4) {
            _ if plain => r.f32v(-2.0, 2.0),
            0 => r.f32v(-2.0, 2.0),
            1 => r.f32v(-3.0 * l as f64 - 3.0, 3.0 * l as f64 + 3.0),
            _ => wild(r) as f32 as f64,
        };
        let horizon = r.range(200, 1500) as u64;
        let mut tasks = [
            Task {
                id: PROBE,
                next: 0,
                wake: Box::new(move |r, o| {
                    let m = which(r);
                    let k = r.below(NW[kind(m)]) as f64;
                    let x = match r.below(3) {
                        0 => int(r, len(m)),
                        _ => number(r, len(m)),
                    };
                    let y = number(r, len(m));
                    o.push((ANY, [m as f64, k, x, y]));
                    delay(r, 40)
                }),
            },
            Task {
                id: FAULT,
                next: r.below(horizon),
                wake: Box::new(move |r, o| {
                    let m = which(r);
                    match r.below(3) {
                        0 => o.push((REBOOT, [m as f64, 0.0, 0.0, 0.0])),
                        1 => {
                            let v = r.pick(&[0.0, 1.0, -100.0, 1e-40, 1e30, f64::NAN, f64::INFINITY]);
                            o.push((SCRIBBLE, [m as f64, r.range(1, 39) as f64, r.below(len2(m) + 1) as f64, v as f32 as f64]))
                        }
                        _ => o.push((MOVE, [m as f64, 0.0, 0.0, 0.0])),
                    }
                    delay(r, 200)
                }),
            },
        ];
        let tl = Timeline::build(
            r,
            horizon,
            60,
            0.1,
            TICKS,
            |r, n| [r.below(MACHINES as u64) as f64, n as f64 * if r.chance(0.05) { 20.0 } else { 1.0 }, r.below(4) as f64, r.f32v(-1.5, 1.5)],
            &mut tasks,
        );
        Scen { cfg, steps: tl.steps }
    }
    fn run(&self, s: &Scen, st: &mut Stats) -> Result<(), Viol> {
        let mut w: Vec<u32> = s.cfg.iter().map(|&x| word(x)).collect();
        assert!(w.len() == HEADER, "harness: header");
        for p in &s.steps {
            let i = (p.a[2] as i64).clamp(i32::MIN as i64, i32::MAX as i64) as i32;
            // the signal of an audio block: its kind, and its amplitude as both numbers
            let x = if p.op == TICKS || p.op == SCRIBBLE { p.a[3] } else { p.a[2] };
            w.extend([p.op as u32, word(p.a[0]), word(p.a[1]), i as u32, (x as f32).to_bits(), (p.a[3] as f32).to_bits()]);
        }
        let mut ram = vec![0u32; RAM_CELLS];
        let mut host = vec![];
        device::run(&w, ram.as_mut_ptr(), &mut |x| host.push(x));
        let dev = match on_device(&w) {
            Ok(d) => d,
            Err(e) => return viol("device-stopped", s.steps.len(), format!("the 32-bit device {e}, the 64-bit host finished the same history")),
        };
        assert!(dev.len() == host.len() && host.len() == s.steps.len() + 1, "harness: answers");
        for (si, p) in s.steps.iter().enumerate() {
            match p.op {
                ANY => st.inc("op.any"),
                TICKS => {
                    st.inc("op.audio-block");
                    st.time(p.a[1] as u64, 48_000.0)
                }
                REBOOT => st.inc("fault.component-restarted"),
                SCRIBBLE => st.inc("fault.memory-scribbled"),
                _ => st.inc("fault.buffer-moved"),
            }
            st.nontrivial |= p.op <= TICKS;
            st.log(host[si] as u64);
            let kind = s.cfg[2 * (word(p.a[0]) as usize % MACHINES)] as u64;
            st.state((p.op as u64) << 16 | kind << 8 | if p.op == ANY { p.a[1] as u64 } else { 0 });
            if dev[si] != host[si] {
                let class = if p.op == TICKS { "audio-differs" } else { "answer-differs" };
                return viol(class, si, format!("{:08x} on the 64-bit host, {:08x} on the 32-bit device", host[si], dev[si]));
            }
        }
        if dev[s.steps.len()] != host[s.steps.len()] {
            return viol("memory-differs", s.steps.len(), "the contents of the memory differ at the end of the same history".into());
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "a case is one history (up to 60 audio blocks, operations with any arguments and faults over up to 1500 and more samples, on four components sharing one memory) executed by a 64-bit device and by a freshly started 32-bit device; non-trivial when an operation was executed; distinct by all answers and the final memory"
    }
    fn real(&self) -> &'static str {
        "the whole crate compiled for x86_64 and, freestanding with core only, for i686: delay line, comb, all-pass, biquad with Butterworth designs, envelope, oscillators, phase accumulator, memory handles, stateless functions"
    }
    fn stub(&self) -> &'static str {
        "device (a static program started per run, memory laid out by the simulator), callers, corruption, restarts"
    }
}
