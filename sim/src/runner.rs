//! Search over seeds with worker processes, minimisation, replay, evidence.
use crate::core::*;
use crate::props;
use crate::rng::{hash_str, mix, Rng};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::io::{BufRead, Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

const HANG_SECS: u64 = 60;
const RAW_SECS: u64 = 40;

fn root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()))
}
fn seed_env() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}
fn tier_env() -> Tier {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    }
}
fn tier_name(t: Tier) -> &'static str {
    if t == Tier::Quick { "quick" } else { "thorough" }
}
pub fn prop(id: &str) -> &'static dyn Prop {
    for p in props::all() {
        if p.id() == id {
            return p;
        }
    }
    eprintln!("unknown property {id}");
    std::process::exit(2);
}
pub fn run_seed(seed: u64, id: &str, i: u64) -> u64 {
    mix(mix(seed ^ hash_str(id)).wrapping_add(i))
}

static mut PANIC: Option<String> = None;
pub fn panic_msg() -> &'static mut Option<String> {
    unsafe { &mut *std::ptr::addr_of_mut!(PANIC) }
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        crate::stepper::disarm();
        let loc = info.location().map(|l| format!("{}:{}", l.file().rsplit('/').next().unwrap_or(""), l.line())).unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        *panic_msg() = Some(format!("{msg} at {loc}"));
    }));
}

/// Executes a scenario; a panic inside is a violation of its own class. Panics raised by the
/// simulator itself (marked "harness:") are errors of the check.
pub fn exec(p: &dyn Prop, s: &Scen, st: &mut Stats) -> Result<(), Viol> {
    *panic_msg() = None;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| p.run(s, st)));
    match r {
        Ok(r) => r,
        Err(_) => {
            let m = panic_msg().take().unwrap_or_default();
            if m.contains("harness:") || m.contains("arena full") {
                eprintln!("harness error: {m}");
                std::process::exit(3);
            }
            Err(Viol {
                class: "panic".into(),
                detail: m,
                step: s.steps.len(),
            })
        }
    }
}

// ------------------------------------------------------------------ known findings
struct Known {
    prop: String,
    class: String,
    sub: String,
}
fn known() -> Vec<Known> {
    let mut v = vec![];
    if let Ok(t) = std::fs::read_to_string(root().join("known_findings.txt")) {
        for l in t.lines() {
            if let Some(r) = l.strip_prefix("known: ") {
                let mut k = Known { prop: String::new(), class: String::new(), sub: String::new() };
                for part in r.split('|').map(|x| x.trim()) {
                    if let Some(x) = part.strip_prefix("property=") { k.prop = x.into() }
                    if let Some(x) = part.strip_prefix("class=") { k.class = x.into() }
                    if let Some(x) = part.strip_prefix("match=") { k.sub = x.into() }
                }
                v.push(k);
            }
        }
    }
    v
}
fn is_known(ks: &[Known], id: &str, v: &Viol) -> bool {
    ks.iter().any(|k| k.prop == id && k.class == v.class && v.detail.contains(&k.sub))
}

// ------------------------------------------------------------------ worker
extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, opt: i32) -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn close(fd: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

/// What one isolated run reports back.
struct Delta {
    counters: Vec<(String, u64)>,
    states: Vec<u64>,
    samples: u64,
    sim_us: u64,
    digest: u64,
    nontrivial: bool,
}

/// Runs a scenario in a forked copy of this process. Err(3): harness error, Err(-n): ended by signal n.
fn isolated(p: &dyn Prop, s: &Scen) -> Result<(Result<(), Viol>, Delta), i32> {
    use std::os::fd::FromRawFd;
    let mut fds = [0i32; 2];
    assert_eq!(unsafe { pipe(fds.as_mut_ptr()) }, 0, "harness: pipe");
    let pid = unsafe { fork() };
    assert!(pid >= 0, "harness: fork");
    if pid == 0 {
        let code = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            unsafe {
                prctl(1, 9, 0, 0, 0); // dies with the worker
                close(fds[0]);
            }
            let mut f = unsafe { std::fs::File::from_raw_fd(fds[1]) };
            let mut st = Stats::default();
            st.digest = 0xcbf2_9ce4_8422_2325;
            let res = exec(p, s, &mut st);
            let mut v: Vec<u8> = vec![];
            let put = |v: &mut Vec<u8>, x: u64| v.extend_from_slice(&x.to_le_bytes());
            let text = |v: &mut Vec<u8>, t: &str| {
                v.extend_from_slice(&(t.len() as u64).to_le_bytes());
                v.extend_from_slice(t.as_bytes());
            };
            for x in [st.samples, st.sim_us, st.digest, st.nontrivial as u64, st.counters.len() as u64, st.states.len() as u64] {
                put(&mut v, x);
            }
            for (k, n) in &st.counters {
                text(&mut v, k);
                put(&mut v, *n);
            }
            for x in &st.states {
                put(&mut v, *x);
            }
            match &res {
                Ok(()) => put(&mut v, 0),
                Err(w) => {
                    put(&mut v, 1);
                    text(&mut v, &w.class);
                    text(&mut v, &w.detail);
                    put(&mut v, w.step as u64);
                }
            }
            f.write_all(&v).is_ok()
        }))
        .unwrap_or(false);
        unsafe { _exit(if code { 0 } else { 3 }) }
    }
    unsafe { close(fds[1]) };
    let mut v = vec![];
    let ok = unsafe { std::fs::File::from_raw_fd(fds[0]) }.read_to_end(&mut v).is_ok();
    let mut status = 0;
    while unsafe { waitpid(pid, &mut status, 0) } < 0 {}
    if status & 0x7f != 0 {
        return Err(-(status & 0x7f));
    }
    if !ok || status != 0 {
        return Err(3);
    }
    let mut at = 0;
    let take = |at: &mut usize| -> u64 {
        *at += 8;
        u64::from_le_bytes(v[*at - 8..*at].try_into().unwrap())
    };
    let text = |at: &mut usize| -> String {
        let n = take(at) as usize;
        *at += n;
        String::from_utf8_lossy(&v[*at - n..*at]).into_owned()
    };
    let h: Vec<u64> = (0..6).map(|_| take(&mut at)).collect();
    let counters = (0..h[4]).map(|_| (text(&mut at), take(&mut at))).collect();
    let states = (0..h[5]).map(|_| take(&mut at)).collect();
    let res = if take(&mut at) == 0 {
        Ok(())
    } else {
        Err(Viol { class: text(&mut at), detail: text(&mut at), step: take(&mut at) as usize })
    };
    Ok((res, Delta { counters, states, samples: h[0], sim_us: h[1], digest: h[2], nontrivial: h[3] != 0 }))
}

fn merge(st: &mut Stats, d: Delta, keys: &mut HashMap<String, &'static str>) {
    for (k, n) in d.counters {
        let k: &'static str = *keys.entry(k.clone()).or_insert_with(|| Box::leak(k.into_boxed_str()));
        st.add(k, n);
    }
    for x in d.states {
        if st.states.len() < 200_000 {
            st.states.insert(x);
        }
    }
    st.samples += d.samples;
    st.sim_us += d.sim_us;
    st.digest = d.digest;
    st.nontrivial = d.nontrivial;
}

pub fn worker(a: &[String]) -> i32 {
    // ID SEED TIER START STRIDE COUNT CURFILE WALLCAP
    let p = prop(&a[0]);
    let seed: u64 = a[1].parse().unwrap();
    let tier = if a[2] == "thorough" { Tier::Thorough } else { Tier::Quick };
    let (start, stride, count): (u64, u64, u64) = (a[3].parse().unwrap(), a[4].parse().unwrap(), a[5].parse().unwrap());
    let cap = Duration::from_secs(a[7].parse().unwrap());
    install_panic_hook();
    let mut cur = std::fs::OpenOptions::new().write(true).create(true).truncate(true).open(&a[6]).unwrap();
    let ks = known();
    let t0 = Instant::now();
    let mut st = Stats::default();
    let (mut runs, mut nontriv) = (0u64, 0u64);
    let mut digests: HashSet<u64> = HashSet::new();
    let out = std::io::stdout();
    let mut out = std::io::BufWriter::new(out.lock());
    let mut capped = 0;
    let mut keys: HashMap<String, &'static str> = HashMap::new();
    // first the runs that start from a pristine process image (a forked copy of this process, which has
    // not run any of the code under test), then those that inherit what earlier runs left behind
    'all: for pass in 0..2 {
        let mut i = start;
        while i < count {
            let inherits = p.inherits(i);
            if inherits != (pass == 1) {
                i += stride;
                continue;
            }
            if runs % 64 == 0 && t0.elapsed() > cap {
                capped = 1;
                break 'all;
            }
            use std::os::unix::fs::FileExt;
            let _ = cur.write_at(&i.to_le_bytes(), 0);
            let mut r = Rng::new(run_seed(seed, p.id(), i));
            let s = p.gen(&mut r, tier);
            st.digest = 0xcbf2_9ce4_8422_2325;
            st.nontrivial = false;
            let res = if inherits {
                exec(p, &s, &mut st)
            } else {
                match isolated(p, &s) {
                    Ok((res, d)) => {
                        merge(&mut st, d, &mut keys);
                        res
                    }
                    Err(3) => std::process::exit(3),
                    Err(sig) => Err(Viol { class: format!("crash-signal-{}", -sig), detail: format!("process ended by signal {}", -sig), step: 0 }),
                }
            };
            runs += 1;
            st.add("steps", s.steps.len() as u64);
            if let Err(v) = res {
                if is_known(&ks, p.id(), &v) {
                    writeln!(out, "W {}\t{}", v.class, v.detail.replace(['\n', '\t'], " ")).unwrap();
                } else {
                    writeln!(out, "V {} {}\t{}", i, v.class, v.detail.replace(['\n', '\t'], " ")).unwrap();
                    break 'all;
                }
            }
            if st.nontrivial {
                nontriv += 1;
                if digests.len() < 2_000_000 {
                    digests.insert(st.digest);
                }
            }
            i += stride;
        }
    }
    let _ = cur.write_all(&[]);
    writeln!(out, "R {} {} {} {} {}", runs, nontriv, st.samples, st.sim_us, capped).unwrap();
    for (k, v) in &st.counters {
        writeln!(out, "C {} {}", k, v).unwrap();
    }
    for d in &digests {
        writeln!(out, "D {:x}", d).unwrap();
    }
    for d in &st.states {
        writeln!(out, "K {:x}", d).unwrap();
    }
    writeln!(out, "E").unwrap();
    out.flush().unwrap();
    0
}

// ------------------------------------------------------------------ scenario files
pub fn to_text(p: &dyn Prop, s: &Scen, hdr: &str) -> String {
    let mut o = String::new();
    o.push_str("# embedded-audio-tools simulation replay v1\n");
    o.push_str(&format!("property {}\n", p.id()));
    o.push_str(hdr);
    o.push_str(&format!("cfg {}\n", s.cfg.iter().map(|x| format!("{x:?}")).collect::<Vec<_>>().join(" ")));
    for st in &s.steps {
        o.push_str(&step_text(p, st));
        o.push('\n');
    }
    o
}
fn step_text(p: &dyn Prop, st: &Step) -> String {
    format!(
        "step {} {} {} {}",
        st.t,
        TASKS[st.task as usize],
        p.ops()[st.op as usize],
        st.a.iter().map(|x| format!("{x:?}")).collect::<Vec<_>>().join(" ")
    )
}
fn from_text(t: &str) -> Option<(&'static dyn Prop, Scen, BTreeMap<String, String>)> {
    let mut hdr = BTreeMap::new();
    let mut s = Scen { cfg: vec![], steps: vec![] };
    let mut p: Option<&'static dyn Prop> = None;
    for l in t.lines() {
        if l.starts_with('#') || l.trim().is_empty() {
            continue;
        }
        let (k, rest) = l.split_once(' ').unwrap_or((l, ""));
        match k {
            "property" => p = Some(prop(rest.trim())),
            "cfg" => s.cfg = rest.split_whitespace().filter_map(|x| x.parse().ok()).collect(),
            "step" => {
                let w: Vec<&str> = rest.split_whitespace().collect();
                let mut a = [0.0; 4];
                for i in 0..4 {
                    a[i] = w.get(3 + i)?.parse().ok()?;
                }
                s.steps.push(Step {
                    t: w[0].parse().ok()?,
                    task: TASKS.iter().position(|x| *x == w[1])? as u8,
                    op: p?.ops().iter().position(|x| *x == w[2])? as u8,
                    a,
                });
            }
            _ => {
                hdr.insert(k.to_string(), rest.to_string());
            }
        }
    }
    Some((p?, s, hdr))
}

pub fn replay_raw(path: &str) -> i32 {
    install_panic_hook();
    let t = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(_) => return 2,
    };
    let Some((p, s, hdr)) = from_text(&t) else { return 2 };
    // runs whose traces in the process image this one inherits
    if let Some(prior) = hdr.get("prior") {
        let seed = hdr.get("seed").and_then(|x| x.trim().parse().ok()).unwrap_or(1);
        let tier = if hdr.get("tier").map(|x| x.trim()) == Some("thorough") { Tier::Thorough } else { Tier::Quick };
        for i in prior.split_whitespace().filter_map(|x| x.parse().ok()) {
            let q = p.gen(&mut Rng::new(run_seed(seed, p.id(), i)), tier);
            let _ = exec(p, &q, &mut Stats::default());
        }
    }
    let mut st = Stats::default();
    st.digest = 0xcbf2_9ce4_8422_2325;
    match exec(p, &s, &mut st) {
        Ok(()) => {
            println!("RESULT ok digest={:x}", st.digest);
            0
        }
        Err(v) => {
            println!("RESULT class={}\t{}\t{}\t{:x}", v.class, v.step, v.detail.replace(['\n', '\t'], " "), st.digest);
            1
        }
    }
}

/// Runs a scenario in a fresh process: Ok(None) held, Ok(Some(..)) violated (incl. crash and hang).
fn run_file(path: &Path) -> Result<Option<(Viol, String)>, String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let mut ch = Command::new(exe)
        .args(["replay-raw", path.to_str().unwrap()])
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .map_err(|e| e.to_string())?;
    let t0 = Instant::now();
    loop {
        match ch.try_wait().map_err(|e| e.to_string())? {
            Some(stt) => {
                use std::os::unix::process::ExitStatusExt;
                if let Some(sg) = stt.signal() {
                    return Ok(Some((Viol { class: format!("crash-signal-{sg}"), detail: format!("process ended by signal {sg}"), step: 0 }, String::new())));
                }
                let mut o = String::new();
                ch.stdout.take().unwrap().read_to_string(&mut o).map_err(|e| e.to_string())?;
                for l in o.lines() {
                    if let Some(r) = l.strip_prefix("RESULT class=") {
                        let f: Vec<&str> = r.split('\t').collect();
                        return Ok(Some((Viol { class: f[0].into(), step: f[1].parse().unwrap_or(0), detail: f[2].into() }, f[3].into())));
                    }
                    if l.starts_with("RESULT ok") {
                        return Ok(None);
                    }
                }
                return Err(format!("replay process exit {:?}", stt.code()));
            }
            None => {
                if t0.elapsed() > Duration::from_secs(RAW_SECS) {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    return Ok(Some((Viol { class: "hang".into(), detail: "no progress".into(), step: 0 }, String::new())));
                }
                std::thread::sleep(Duration::from_millis(if t0.elapsed().as_millis() < 50 { 1 } else { 20 }));
            }
        }
    }
}

// ------------------------------------------------------------------ minimiser
/// The box of configuration values and operation arguments the generator produces. The minimiser stays
/// inside it, so that a minimised schedule is still one the property speaks about.
struct Ranges {
    cfg: Vec<(f64, f64)>,
    arg: BTreeMap<(u8, usize), (f64, f64)>,
}
impl Ranges {
    fn new(p: &dyn Prop, tier: Tier, s0: &Scen) -> Ranges {
        let mut g = Ranges { cfg: vec![], arg: BTreeMap::new() };
        g.take(s0);
        for i in 0..3000 {
            g.take(&p.gen(&mut Rng::new(run_seed(0, p.id(), i)), tier));
        }
        g
    }
    fn take(&mut self, s: &Scen) {
        for (i, &c) in s.cfg.iter().enumerate() {
            if i >= self.cfg.len() {
                self.cfg.push((c, c));
            }
            let r = &mut self.cfg[i];
            *r = (r.0.min(c), r.1.max(c));
        }
        for st in &s.steps {
            for (j, &x) in st.a.iter().enumerate() {
                let r = self.arg.entry((st.op, j)).or_insert((x, x));
                *r = (r.0.min(x), r.1.max(x));
            }
        }
    }
    fn cfg_ok(&self, j: usize, x: f64) -> bool {
        self.cfg.get(j).map(|r| x >= r.0 && x <= r.1).unwrap_or(false)
    }
    fn arg_ok(&self, op: u8, j: usize, x: f64) -> bool {
        self.arg.get(&(op, j)).map(|r| x >= r.0 && x <= r.1).unwrap_or(false)
    }
}

fn minimise(s0: &Scen, g: &Ranges, class: &str, budget: usize, wall: Duration, eval: &mut dyn FnMut(&Scen) -> Option<String>) -> Scen {
    let t0 = Instant::now();
    let mut s = s0.clone();
    let mut left = budget;
    let mut try_ = |c: &Scen, left: &mut usize| -> bool {
        if *left == 0 || t0.elapsed() > wall {
            return false;
        }
        *left -= 1;
        eval(c).as_deref() == Some(class)
    };
    // 1. drop chunks of steps
    let mut chunk = (s.steps.len() / 2).max(1);
    loop {
        let mut i = 0;
        let mut any = false;
        while i < s.steps.len() {
            let mut c = s.clone();
            let e = (i + chunk).min(c.steps.len());
            c.steps.drain(i..e);
            if try_(&c, &mut left) {
                s = c;
                any = true;
            } else {
                i += chunk;
            }
        }
        if chunk == 1 && !any {
            break;
        }
        if !any {
            chunk = (chunk / 2).max(1);
        }
        if left == 0 {
            break;
        }
    }
    // 2. simplify arguments and configuration
    let cands = |x: f64| -> Vec<f64> {
        let mut v = vec![];
        for c in [0.0, 1.0, 2.0, 0.5, (x / 2.0).trunc(), x - 1.0, (x / 2.0) as f32 as f64, x.trunc()] {
            if c != x && c.abs() <= x.abs() && !v.contains(&c) {
                v.push(c);
            }
        }
        v
    };
    for _round in 0..4 {
        let mut any = false;
        for i in 0..s.steps.len() {
            for j in 0..4 {
                loop {
                    let x = s.steps[i].a[j];
                    let mut hit = false;
                    for c in cands(x) {
                        if !g.arg_ok(s.steps[i].op, j, c) {
                            continue;
                        }
                        let mut t = s.clone();
                        t.steps[i].a[j] = c;
                        if try_(&t, &mut left) {
                            s = t;
                            hit = true;
                            any = true;
                            break;
                        }
                    }
                    if !hit {
                        break;
                    }
                }
            }
        }
        for j in 0..s.cfg.len() {
            for c in cands(s.cfg[j]) {
                if !g.cfg_ok(j, c) {
                    continue;
                }
                let mut t = s.clone();
                t.cfg[j] = c;
                if try_(&t, &mut left) {
                    s = t;
                    any = true;
                    break;
                }
            }
        }
        if !any {
            break;
        }
    }
    s
}

// ------------------------------------------------------------------ check
#[derive(Default)]
struct Total {
    runs: u64,
    nontriv: u64,
    samples: u64,
    sim_us: u64,
    capped: u64,
    counters: BTreeMap<String, u64>,
    digests: HashSet<u64>,
    states: HashSet<u64>,
    known: BTreeMap<String, String>,
}

fn prior_text(seed: u64, tier: Tier, prior: &[u64]) -> String {
    let mut t = format!("seed {seed}\ntier {}\n", tier_name(tier));
    if !prior.is_empty() {
        t += &format!("prior {}\n", prior.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
    }
    t
}

/// The earlier runs a failure needs: the shortest sufficient tail (by doubling), then without those of
/// its members that can be left out.
fn shrink_prior(all: &[u64], wall: Duration, fails: &mut dyn FnMut(&[u64]) -> bool) -> Vec<u64> {
    let t0 = Instant::now();
    let mut n = 1;
    let mut best = all.to_vec();
    while n < all.len() && t0.elapsed() < wall {
        if fails(&all[all.len() - n..]) {
            best = all[all.len() - n..].to_vec();
            break;
        }
        n *= 4;
    }
    let mut chunk = best.len().div_ceil(2);
    while chunk >= 1 && best.len() > 1 && t0.elapsed() < wall {
        let mut at = 0;
        while at < best.len() && t0.elapsed() < wall {
            let mut c = best.clone();
            c.drain(at..(at + chunk).min(c.len()));
            if fails(&c) {
                best = c;
            } else {
                at += chunk;
            }
        }
        if chunk == 1 {
            break;
        }
        chunk = chunk.div_ceil(2);
    }
    best
}

pub fn check(id: &str) -> i32 {
    let t0 = Instant::now();
    let p = prop(id);
    let (seed, tier) = (seed_env(), tier_env());
    println!("property={id} VERIF_SEED={seed} tier={}", tier_name(tier));
    install_panic_hook();
    if !crate::stepper::self_test() {
        eprintln!("harness error: single-step seam not available");
        return 2;
    }
    if !crate::watch::self_test() {
        eprintln!("harness error: watched-memory seam not available");
        return 2;
    }
    let mut count = p.runs(tier);
    if let Some(n) = std::env::var("VERIF_RUNS").ok().and_then(|s| s.parse().ok()) {
        count = n;
    }
    let w = std::env::var("VERIF_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).clamp(2, 8)
    });
    let cap: u64 = std::env::var("VERIF_CAP_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == Tier::Quick { 240 } else { 780 });
    let outdir = root().join("out");
    let tmp = outdir.join(format!("tmp-{}-{}", id, std::process::id()));
    std::fs::create_dir_all(&tmp).expect("tmp dir");
    std::fs::create_dir_all(outdir.join("replays")).expect("replay dir");
    let exe = std::env::current_exe().expect("exe");
    let mut kids = vec![];
    for k in 0..w {
        let cur = tmp.join(format!("cur{k}"));
        let ch = Command::new(&exe)
            .args([
                "worker", id, &seed.to_string(), tier_name(tier), &k.to_string(), &w.to_string(),
                &count.to_string(), cur.to_str().unwrap(), &cap.to_string(),
            ])
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .spawn()
            .expect("spawn worker");
        kids.push((ch, cur));
    }
    // (run index, class, detail)
    let mut viols: Vec<(u64, String, String)> = vec![];
    let mut tot = Total::default();
    let mut harness_err: Option<String> = None;
    let mut readers = vec![];
    let mut procs = vec![];
    for (mut ch, cur) in kids {
        let so = ch.stdout.take().unwrap();
        let mut se = ch.stderr.take().unwrap();
        readers.push((
            std::thread::spawn(move || {
                let mut v = vec![];
                for l in std::io::BufReader::new(so).lines().map_while(Result::ok) {
                    v.push(l);
                }
                v
            }),
            std::thread::spawn(move || {
                let mut s = String::new();
                let _ = se.read_to_string(&mut s);
                s
            }),
        ));
        procs.push((ch, cur, Instant::now(), u64::MAX, false));
    }
    let readcur = |c: &Path| -> u64 {
        std::fs::read(c).ok().and_then(|b| b.get(..8).map(|x| u64::from_le_bytes(x.try_into().unwrap()))).unwrap_or(u64::MAX)
    };
    let mut alive = procs.len();
    while alive > 0 {
        for (ch, cur, last, lastv, done) in procs.iter_mut() {
            if *done {
                continue;
            }
            if let Some(stt) = ch.try_wait().expect("wait") {
                *done = true;
                alive -= 1;
                use std::os::unix::process::ExitStatusExt;
                if let Some(sg) = stt.signal() {
                    if sg == 9 {
                        harness_err = Some("worker killed (signal 9)".into());
                    } else {
                        viols.push((readcur(cur), format!("crash-signal-{sg}"), format!("process ended by signal {sg}")));
                    }
                } else if stt.code() != Some(0) {
                    harness_err = Some(format!("worker exit {:?}", stt.code()));
                }
                continue;
            }
            let v = readcur(cur);
            if v != *lastv {
                *lastv = v;
                *last = Instant::now();
            } else if last.elapsed() > Duration::from_secs(HANG_SECS) && v != u64::MAX {
                let _ = ch.kill();
                let _ = ch.wait();
                *done = true;
                alive -= 1;
                viols.push((v, "hang".into(), "no progress".into()));
            }
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    for (o, e) in readers {
        let es = e.join().unwrap_or_default();
        if !es.trim().is_empty() && harness_err.is_some() {
            eprintln!("{}", es.trim());
        }
        for l in o.join().unwrap_or_default() {
            let (k, r) = l.split_once(' ').unwrap_or((&l, ""));
            match k {
                "V" => {
                    let (a, d) = r.split_once('\t').unwrap_or((r, ""));
                    let (i, c) = a.split_once(' ').unwrap_or((a, "?"));
                    viols.push((i.parse().unwrap_or(0), c.into(), d.into()));
                }
                "W" => {
                    let (c, d) = r.split_once('\t').unwrap_or((r, ""));
                    tot.known.entry(c.into()).or_insert(d.into());
                }
                "R" => {
                    let f: Vec<u64> = r.split(' ').map(|x| x.parse().unwrap_or(0)).collect();
                    tot.runs += f[0];
                    tot.nontriv += f[1];
                    tot.samples += f[2];
                    tot.sim_us += f[3];
                    tot.capped += f[4];
                }
                "C" => {
                    let (n, v) = r.rsplit_once(' ').unwrap();
                    *tot.counters.entry(n.into()).or_insert(0) += v.parse::<u64>().unwrap_or(0);
                }
                "D" => {
                    tot.digests.insert(u64::from_str_radix(r, 16).unwrap_or(0));
                }
                "K" => {
                    tot.states.insert(u64::from_str_radix(r, 16).unwrap_or(0));
                }
                _ => {}
            }
        }
    }
    let _ = std::fs::remove_dir_all(&tmp);
    if viols.is_empty() {
        if let Some(e) = harness_err {
            eprintln!("harness error: {e}");
            return 2;
        }
    }
    viols.sort();
    let mut code = 0;
    let mut nviol = 0;
    for (c, d) in &tot.known {
        println!("KNOWN-FINDING: property={id} {c}: {d}");
    }
    if let Some((i, class, detail)) = viols.first().cloned() {
        nviol = viols.len();
        code = 1;
        let mut r = Rng::new(run_seed(seed, id, i));
        let s = p.gen(&mut r, tier);
        let work = outdir.join("replays").join(format!("{id}-s{seed}-r{i}.tmp"));
        // every candidate runs in a fresh process: the code under test may crash, hang or leak state
        let ask = |c: &Scen, prior: &[u64]| -> Option<(Viol, String)> {
            std::fs::write(&work, to_text(p, c, &prior_text(seed, tier, prior))).ok()?;
            run_file(&work).ok().flatten()
        };
        // a run that inherited the process image of earlier ones may need some of those to fail
        let mut prior: Vec<u64> = vec![];
        if class != "hang" && p.inherits(i) && ask(&s, &[]).is_none() {
            let all: Vec<u64> = (0..i).filter(|j| j % w == i % w && p.inherits(*j)).collect();
            prior = shrink_prior(&all, Duration::from_secs(60), &mut |c| ask(&s, c).is_some_and(|(v, _)| v.class == class));
        }
        let min = if class == "hang" {
            s.clone()
        } else {
            minimise(&s, &Ranges::new(p, tier, &s), &class, 6000, Duration::from_secs(25), &mut |c| ask(c, &prior).map(|(v, _)| v.class))
        };
        let (fin, fv) = match ask(&min, &prior) {
            Some(v) => (min, Some(v)),
            None => (s.clone(), ask(&s, &prior)),
        };
        let _ = std::fs::remove_file(&work);
        let (fclass, fdetail, fstep, fdig) = match &fv {
            Some((v, d)) => (v.class.clone(), v.detail.clone(), v.step, d.clone()),
            None => (class.clone(), format!("{detail} (seen only after earlier runs in the same process)"), 0, String::new()),
        };
        let path = outdir.join("replays").join(format!("{id}-s{seed}-r{i}.scn"));
        let hdr = format!(
            "{}run {i}\nrunseed {:#x}\nclass {fclass}\nat-step {fstep}\ndetail {fdetail}\ndigest {fdig}\noriginal-steps {}\n",
            prior_text(seed, tier, &prior), run_seed(seed, id, i), s.steps.len()
        );
        let _ = std::fs::write(&path, to_text(p, &fin, &hdr));
        println!("run {i} (seed {seed}, run seed {:#x}): {class}: {detail}", run_seed(seed, id, i));
        println!("minimised from {} to {} steps: {fclass}: {fdetail}", s.steps.len(), fin.steps.len());
        println!("VIOLATION property={id} replay={}", path.display());
    }
    let wall = t0.elapsed().as_secs_f64();
    let twice = if code == 0 { repeatable(p, seed, tier, count, &outdir) } else { (0, 0) };
    write_evidence(p, seed, tier, &tot, w, wall, nviol, twice);
    println!(
        "{id}: {} runs ({} distinct non-trivial), {} states, {:.1} s simulated, {:.1} s wall{}",
        tot.runs, tot.digests.len(), tot.states.len(), tot.sim_us as f64 / 1e6, wall,
        if tot.capped > 0 { " (wall cap reached)" } else { "" }
    );
    if code == 0 {
        println!("OK property={id}");
    }
    code
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push(' '),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Executes a few runs of the batch twice more, each time in a fresh process, and compares the digests of
/// everything observed: (compared, identical).
fn repeatable(p: &dyn Prop, seed: u64, tier: Tier, count: u64, outdir: &Path) -> (u64, u64) {
    let f = outdir.join(format!("twice-{}-{}.tmp", p.id(), std::process::id()));
    let (mut n, mut same) = (0, 0);
    for k in 0..8u64 {
        let i = k * (count / 8).max(1);
        if i >= count {
            break;
        }
        let s = p.gen(&mut Rng::new(run_seed(seed, p.id(), i)), tier);
        if std::fs::write(&f, to_text(p, &s, &prior_text(seed, tier, &[]))).is_err() {
            break;
        }
        let once = || {
            let exe = std::env::current_exe().ok()?;
            let o = Command::new(exe).arg("replay-raw").arg(&f).stderr(Stdio::null()).output().ok()?;
            o.status.success().then_some(o.stdout)
        };
        n += 1;
        let (a, b) = (once(), once());
        same += (a.is_some() && a == b) as u64;
    }
    let _ = std::fs::remove_file(&f);
    (n, same)
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(p: &dyn Prop, seed: u64, tier: Tier, t: &Total, w: u64, wall: f64, viols: usize, twice: (u64, u64)) {
    let group = |pre: &str| -> String {
        t.counters
            .iter()
            .filter_map(|(k, v)| k.strip_prefix(pre).map(|k| format!("{}: {}", js(k), v)))
            .collect::<Vec<_>>()
            .join(", ")
    };
    let mut samples = vec![];
    for i in 0..2u64 {
        let mut r = Rng::new(run_seed(seed, p.id(), i));
        let s = p.gen(&mut r, tier);
        let mut o = format!("run {i} seed {:#x} cfg {:?}: ", run_seed(seed, p.id(), i), s.cfg);
        for st in s.steps.iter().take(10) {
            o.push_str(&step_text(p, st));
            o.push_str("; ");
        }
        if s.steps.len() > 10 {
            o.push_str(&format!("... ({} steps)", s.steps.len()));
        }
        samples.push(js(&o));
    }
    let hours = (wall / 3600.0).max(1e-9);
    let other = t
        .counters
        .iter()
        .filter(|(k, _)| !k.contains('.'))
        .map(|(k, v)| format!("{}: {}", js(k), v))
        .collect::<Vec<_>>()
        .join(", ");
    let e = format!(
        "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"workers\": {}, \"wall_capped_workers\": {},\n  \"simulated_runs_per_hour_one_seed_each\": {:.0},\n  \"simulated_samples\": {},\n  \"simulated_seconds\": {:.3},\n  \"faults_injected\": {{{}}},\n  \"rare_conditions_hit\": {{{}}},\n  \"operations\": {{{}}},\n  \"totals\": {{{}}},\n  \"runs_reexecuted_twice_in_fresh_processes\": {}, \"of_those_identical_in_every_observed_value\": {},\n  \"distinct_states\": {}, \"distinct_states_measure\": \"distinct (component/task, operation, state-bucket) tuples reached, see the property's module\",\n  \"distinct_executions_measure\": \"distinct digests of the full event log (every sample and memory value observed)\",\n  \"real_components\": {},\n  \"stubbed_components\": {}\n }},\n \"assumptions\": [\"sampling, not enumeration: a clean batch is evidence, not proof\", \"x86-64 build of the crate (opt-level 3, overflow checks on) stands for the embedded target\"],\n \"wall_s\": {:.3}, \"violations\": {}\n}}\n",
        js(p.id()), js(tier_name(tier)), seed, t.runs, t.digests.len(), js(p.rule()), samples.join(", "), w, t.capped,
        t.runs as f64 / hours, t.samples, t.sim_us as f64 / 1e6,
        group("fault."), group("probe."), group("op."), other, twice.0, twice.1, t.states.len(), js(p.real()), js(p.stub()), wall, viols
    );
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(er) = std::fs::write(dir.join(format!("{}.json", p.id())), e) {
        eprintln!("cannot write evidence: {er}");
    }
}

pub fn replay(path: &str) -> i32 {
    let Ok(t) = std::fs::read_to_string(path) else {
        eprintln!("cannot read {path}");
        return 2;
    };
    let Some((p, _, hdr)) = from_text(&t) else {
        eprintln!("cannot parse {path}");
        return 2;
    };
    match run_file(Path::new(path)) {
        Ok(Some((v, d))) => {
            let same = hdr.get("class").map(|c| c == &v.class).unwrap_or(true) && hdr.get("digest").map(|x| x.trim() == d).unwrap_or(true);
            println!("step {}: {}: {}", v.step, v.class, v.detail);
            println!("{}", if same { "reproduced exactly" } else { "violates, but differently from the recording" });
            println!("VIOLATION property={} replay={}", p.id(), path);
            1
        }
        Ok(None) => {
            println!("not reproduced: property {} holds on this schedule", p.id());
            0
        }
        Err(e) => {
            eprintln!("harness error: {e}");
            2
        }
    }
}

/// Prints one digest per run, for determinism comparisons across processes and worker counts.
pub fn digests(a: &[String]) -> i32 {
    let p = prop(&a[0]);
    let (start, stride, count): (u64, u64, u64) = (a[1].parse().unwrap(), a[2].parse().unwrap(), a[3].parse().unwrap());
    install_panic_hook();
    let mut i = start;
    while i < count {
        let mut r = Rng::new(run_seed(seed_env(), p.id(), i));
        let s = p.gen(&mut r, tier_env());
        let mut st = Stats::default();
        st.digest = 0xcbf2_9ce4_8422_2325;
        let res = exec(p, &s, &mut st);
        println!("{i} {:x} {}", st.digest, if res.is_ok() { "ok" } else { "viol" });
        i += stride;
    }
    0
}

pub fn show(a: &[String]) -> i32 {
    let p = prop(&a[0]);
    let mut r = Rng::new(run_seed(seed_env(), p.id(), a[1].parse().unwrap()));
    let s = p.gen(&mut r, tier_env());
    print!("{}", to_text(p, &s, ""));
    0
}
