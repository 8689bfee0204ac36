//! Scenario, statistics, violation, timeline scheduler, arena.
use crate::rng::{mix, Rng};
use std::collections::{BTreeMap, HashSet};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// One step of an execution: at sample time `t`, task `task` performs `op` with arguments `a`.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Step {
    pub t: u64,
    pub task: u8,
    pub op: u8,
    pub a: [f64; 4],
}

/// A complete, explicit schedule. `run` is a pure function of it and the code under test.
#[derive(Clone, Debug)]
pub struct Scen {
    pub cfg: Vec<f64>,
    pub steps: Vec<Step>,
}

pub const TASKS: [&str; 8] = [
    "audio", "ui", "midi", "memory", "probe", "fault", "timer", "isr",
];
pub const AUDIO: u8 = 0;
pub const UI: u8 = 1;
pub const MIDI: u8 = 2;
pub const MEMMAN: u8 = 3;
pub const PROBE: u8 = 4;
pub const FAULT: u8 = 5;
pub const TIMER: u8 = 6;
#[allow(dead_code)]
pub const ISR: u8 = 7;

#[derive(Clone, Debug)]
pub struct Viol {
    /// what is wrong, without run-specific numbers (kept by the minimiser)
    pub class: String,
    pub detail: String,
    pub step: usize,
}
pub fn viol<T>(class: &str, step: usize, detail: String) -> Result<T, Viol> {
    Err(Viol {
        class: class.to_string(),
        detail,
        step,
    })
}

#[derive(Default)]
pub struct Stats {
    pub counters: BTreeMap<&'static str, u64>,
    pub samples: u64,
    /// simulated time in microseconds (samples / sample rate where a rate exists, 48 kHz otherwise)
    pub sim_us: u64,
    pub states: HashSet<u64>,
    pub digest: u64,
    pub nontrivial: bool,
}
impl Stats {
    pub fn inc(&mut self, k: &'static str) {
        self.add(k, 1)
    }
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.counters.entry(k).or_insert(0) += n;
    }
    pub fn state(&mut self, k: u64) {
        if self.states.len() < 200_000 {
            self.states.insert(mix(k));
        }
    }
    #[inline]
    pub fn log(&mut self, x: u64) {
        self.digest = (self.digest ^ x).wrapping_mul(0x0000_0100_0000_01b3).rotate_left(17);
    }
    #[inline]
    pub fn logf(&mut self, x: f32) {
        self.log(x.to_bits() as u64)
    }
    pub fn time(&mut self, samples: u64, sr: f64) {
        self.samples += samples;
        self.sim_us += (samples as f64 * 1e6 / sr) as u64;
    }
}

/// Discrete-event queue over sample time: tasks with virtual timers emit steps; audio samples fill the
/// gaps as `tick` steps, unless the audio interrupt is stalled.
pub struct Timeline {
    pub steps: Vec<Step>,
    pub now: u64,
}
pub struct Task<'a> {
    pub id: u8,
    pub next: u64,
    /// emits zero or more (op, args); returns delay to the next wake-up
    pub wake: Box<dyn FnMut(&mut Rng, &mut Vec<(u8, [f64; 4])>) -> u64 + 'a>,
}
impl Timeline {
    /// Run the tasks until `horizon`. `tick(rng, n)` gives the arguments of the audio step of n samples.
    pub fn build(
        rng: &mut Rng,
        horizon: u64,
        max_steps: usize,
        stall_p: f64,
        tick_op: u8,
        mut tick: impl FnMut(&mut Rng, u64) -> [f64; 4],
        tasks: &mut [Task],
    ) -> Timeline {
        let mut tl = Timeline {
            steps: vec![],
            now: 0,
        };
        let mut out = vec![];
        while tl.steps.len() < max_steps {
            // earliest wake-up; ties are broken by the scheduler's PRNG
            let m = tasks.iter().map(|t| t.next).min().unwrap_or(u64::MAX);
            let due: Vec<usize> = (0..tasks.len()).filter(|&i| tasks[i].next == m).collect();
            let until = m.min(horizon);
            if until > tl.now {
                let n = until - tl.now;
                if !rng.chance(stall_p) {
                    let a = tick(rng, n);
                    tl.steps.push(Step {
                        t: tl.now,
                        task: AUDIO,
                        op: tick_op,
                        a,
                    });
                }
                tl.now = until;
            }
            if m >= horizon {
                break;
            }
            let i = due[rng.idx(due.len())];
            out.clear();
            let d = (tasks[i].wake)(rng, &mut out);
            for (op, a) in out.drain(..) {
                tl.steps.push(Step {
                    t: tl.now,
                    task: tasks[i].id,
                    op,
                    a,
                });
            }
            tasks[i].next = tl.now + d;
        }
        tl
    }
}

/// Virtual timer delay: bursts (0), short, or around `mean`.
pub fn delay(r: &mut Rng, mean: u64) -> u64 {
    match r.below(8) {
        0 => 0,
        1 => 1,
        2 => r.below(4),
        _ => r.below(2 * mean.max(1)) + 1,
    }
}

/// Turns one or two of the audio blocks of a schedule into very long ones, so that whatever counts samples
/// gets far beyond 16 bits; everything after them happens that much later.
pub fn marathon(r: &mut Rng, steps: &mut Vec<Step>, tick_op: u8, arg: usize, lo: u64, hi: u64) {
    let at: Vec<usize> = (0..steps.len()).filter(|&i| steps[i].op == tick_op).collect();
    if at.is_empty() {
        return;
    }
    for _ in 0..r.range(1, 2) {
        let i = at[r.idx(at.len())];
        let n = r.logrange(lo as f64, hi as f64).trunc();
        let more = (n - steps[i].a[arg]).max(0.0) as u64;
        steps[i].a[arg] = n;
        for s in steps[i + 1..].iter_mut() {
            s.t += more;
        }
    }
}

/// Input signals, a pure function of (kind, amp, seed, i).
pub const NSIG: u64 = 8;
pub fn sig(kind: u64, amp: f32, seed: u64, i: u64) -> f32 {
    let h = mix(seed.wrapping_mul(0x9E37).wrapping_add(i));
    let u = ((h >> 40) as f32) / ((1u64 << 24) as f32); // [0,1)
    match kind % NSIG {
        0 => 0.0,
        1 => amp,
        2 => {
            if i == 0 {
                amp
            } else {
                0.0
            }
        }
        3 => (2.0 * u - 1.0) * amp,
        4 => {
            if i & 1 == 0 {
                amp
            } else {
                -amp
            }
        }
        5 => {
            if h % 37 == 0 {
                (2.0 * u - 1.0) * amp
            } else {
                0.0
            }
        }
        6 => ((i % 97) as f32 / 48.0 - 1.0) * amp,
        _ => match h % 5 {
            0 => -0.0,
            // next to nothing, half of the time a subnormal number
            1 if h & 0x1000 == 0 => amp * 1e-30,
            1 => f32::from_bits((h >> 16) as u32 & 0x807f_ffff),
            2 => amp,
            3 => -amp * u,
            _ => 0.0,
        },
    }
}

/// Buffer length: small and awkward ones first.
pub fn gen_len(r: &mut Rng, max: u64) -> u64 {
    let l = match r.weighted(&[3, 4, 4, 3, 3, 3]) {
        0 => 1,
        1 => r.range(2, 5) as u64,
        2 => r.range(2, 24) as u64,
        3 => {
            let k = 1u64 << r.range(1, 12);
            (k as i64 + r.range(-1, 1)) as u64
        }
        4 => r.range(25, 300) as u64,
        _ => r.range(300, 3000) as u64,
    };
    l.clamp(1, max)
}

pub const POISON: u32 = 0x7fd5_a5a5;
pub const MARGIN: usize = 4096;

/// Simulated RAM. All buffers handed to the library live in it, separated by poisoned guards.
pub struct Arena {
    _own: Vec<u32>,
    /// the simulator's own way into the memory
    mem: *mut u32,
    /// the addresses the code under test gets
    view: *mut f32,
    len: usize,
    top: usize,
    /// live regions (offset, len): the only cells the library may write
    pub regions: Vec<(usize, usize)>,
}
impl Arena {
    pub fn new(cap: usize) -> Arena {
        let mut own = vec![POISON; cap + 2 * MARGIN];
        let mem = own.as_mut_ptr();
        Arena { len: own.len(), _own: own, mem, view: mem as *mut f32, top: MARGIN, regions: vec![] }
    }
    /// The watched RAM (one per process; only one such arena may be in use at a time).
    pub fn watched() -> Arena {
        let (view, mem) = (crate::watch::view(), crate::watch::alias() as *mut u32);
        let len = crate::watch::CELLS;
        for i in 0..len {
            unsafe { mem.add(i).write(POISON) };
        }
        Arena { _own: vec![], mem, view, len, top: MARGIN, regions: vec![] }
    }
    pub fn base(&mut self) -> *mut f32 {
        self.view
    }
    /// pointer for the simulator's own accesses and for contexts that are not being watched
    pub fn back(&self) -> *mut f32 {
        self.mem as *mut f32
    }
    pub fn room(&self, len: usize) -> bool {
        self.top + len + 64 + MARGIN <= self.len
    }
    /// Reserve `len` cells after a guard gap; returns offset. Cells start poisoned.
    pub fn alloc(&mut self, len: usize, gap: usize) -> usize {
        assert!(self.room(len), "arena full");
        let off = self.top + gap;
        self.top = off + len;
        self.regions.push((off, len));
        off
    }
    /// Like `alloc`, in watched RAM: the buffer ends (or starts) exactly at a page boundary, with
    /// untouchable pages around it, so that an access of any width that leaves it is seen.
    pub fn alloc_at_page(&mut self, len: usize, end: bool) -> usize {
        let pc = crate::watch::PAGE_CELLS;
        let first = (self.top + pc - 1) / pc + 1;
        let pages = (len + pc - 1) / pc;
        let off = if end { (first + pages) * pc - len } else { first * pc };
        self.top = (first + pages + 1) * pc;
        assert!(self.top + MARGIN <= self.len, "arena full");
        self.regions.push((off, len));
        off
    }
    #[inline]
    pub fn get(&self, i: usize) -> f32 {
        f32::from_bits(unsafe { self.mem.add(i).read_volatile() })
    }
    #[inline]
    pub fn set(&mut self, i: usize, v: f32) {
        unsafe { self.mem.add(i).write_volatile(v.to_bits()) }
    }
    /// first damaged guard cell, if any
    pub fn check_guards(&self) -> Option<usize> {
        let mut rs = self.regions.clone();
        rs.sort();
        let mut i = 0;
        for (o, l) in rs {
            while i < o {
                if unsafe { self.mem.add(i).read_volatile() } != POISON {
                    return Some(i);
                }
                i += 1;
            }
            i = i.max(o + l);
        }
        while i < self.len {
            if unsafe { self.mem.add(i).read_volatile() } != POISON {
                return Some(i);
            }
            i += 1;
        }
        None
    }
    /// cheap variant: up to 32 guard cells on either side of every region
    pub fn check_near_guards(&self) -> Option<usize> {
        for &(o, l) in &self.regions {
            for i in (o.saturating_sub(32)..o).chain(o + l..(o + l + 32).min(self.len)) {
                if unsafe { self.mem.add(i).read_volatile() } != POISON
                    && !self.regions.iter().any(|&(a, b)| i >= a && i < a + b)
                {
                    return Some(i);
                }
            }
        }
        None
    }
}

pub trait Prop: Sync {
    fn id(&self) -> &'static str;
    fn ops(&self) -> &'static [&'static str];
    /// number of runs in this tier
    fn runs(&self, tier: Tier) -> u64;
    fn gen(&self, r: &mut Rng, tier: Tier) -> Scen;
    fn run(&self, s: &Scen, st: &mut Stats) -> Result<(), Viol>;
    /// whether run `i` inherits the process image earlier runs left behind, or gets a pristine one of its
    /// own (a forked process that has not run any of the code under test)
    fn inherits(&self, _i: u64) -> bool {
        true
    }
    /// what a case is and when it is non-trivial
    fn rule(&self) -> &'static str;
    fn real(&self) -> &'static str;
    fn stub(&self) -> &'static str;
}
