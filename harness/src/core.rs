//! Case runner, statistics, evidence, replay and supervision.

use crate::rng::{hash_str, mix, Rng};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::Instant;

pub type R = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)+) => { if !($c) { return Err(format!($($t)+)); } };
}

#[derive(Default, Clone)]
pub struct Stats {
    pub cases: u64,
    pub nontrivial: u64,
    pub fps: HashSet<u64>,
    pub seen: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    /// Calls into the library that were observed.
    pub events: u64,
}

/// What a single case can see and report to.
pub struct Case {
    pub rng: Rng,
    pub thorough: bool,
    pub tiny: bool,
    st: Stats,
    nontrivial: bool,
    fp: u64,
    desc: Option<String>,
    want_desc: bool,
}

impl Case {
    pub fn new(seed: u64, thorough: bool, tiny: bool, want_desc: bool) -> Self {
        Case {
            rng: Rng::new(seed),
            thorough,
            tiny,
            st: Stats::default(),
            nontrivial: false,
            fp: seed,
            desc: None,
            want_desc,
        }
    }
    /// Count an observation.
    pub fn see(&mut self, what: &'static str) {
        *self.st.seen.entry(what).or_insert(0) += 1;
    }
    pub fn see_if(&mut self, c: bool, what: &'static str) {
        if c {
            self.see(what)
        }
    }
    pub fn see_n(&mut self, what: &'static str, n: u64) {
        *self.st.seen.entry(what).or_insert(0) += n;
    }
    pub fn st_events(&mut self, n: u64) {
        self.st.events += n;
    }
    pub fn event(&mut self) {
        self.st.events += 1;
    }
    /// The case exercised what the property is about (by the workload's rule).
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn nontrivial_if(&mut self, c: bool) {
        self.nontrivial |= c;
    }
    /// Fingerprint of the case's input: distinct cases are counted by it.
    pub fn fp(&mut self, parts: &[u64]) {
        let h = mix(parts);
        self.fp = mix(&[self.fp_base(), h]);
    }
    fn fp_base(&self) -> u64 {
        0
    }
    pub fn desc(&mut self, f: impl FnOnce() -> String) {
        if self.want_desc {
            let mut s = f();
            if s.len() > 700 {
                let mut i = 700;
                while !s.is_char_boundary(i) {
                    i -= 1;
                }
                s.truncate(i);
                s.push_str("...");
            }
            self.desc = Some(s);
        }
    }
}

pub struct Workload {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: fn(&mut Case) -> R,
    /// Observations whose absence is noted in the evidence.
    pub need: &'static [&'static str],
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub workloads: Vec<Workload>,
}

pub fn case_seed(seed: u64, prop: &str, wl: &str, idx: u64) -> u64 {
    mix(&[seed, hash_str(prop), hash_str(wl), idx])
}

pub struct Violation {
    pub wl: &'static str,
    pub idx: u64,
    pub msg: String,
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let s = info.to_string();
        LAST_PANIC.with(|l| *l.borrow_mut() = s);
    }));
}

pub fn run_one(wl: &Workload, c: &mut Case) -> R {
    match catch_unwind(AssertUnwindSafe(|| (wl.f)(c))) {
        Ok(r) => r,
        Err(_) => Err(format!("panicked: {}", LAST_PANIC.with(|l| l.borrow().clone()))),
    }
}

fn thread_cpu_clock() -> libc::clockid_t {
    let mut clk: libc::clockid_t = 0;
    #[cfg(not(miri))]
    unsafe {
        libc::pthread_getcpuclockid(libc::pthread_self(), &mut clk);
    }
    clk
}

fn clock_s(clk: libc::clockid_t) -> f64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    #[cfg(not(miri))]
    unsafe {
        libc::clock_gettime(clk, &mut ts);
    }
    ts.tv_sec as f64 + ts.tv_nsec as f64 * 1e-9
}

fn process_cpu_s() -> f64 {
    clock_s(libc::CLOCK_PROCESS_CPUTIME_ID)
}

pub const HANG_CPU_S: f64 = 60.0;
const MAX_FPS: usize = 16_000_000;

/// Run all workloads of a property; `progress` receives (worker, workload, idx) before each case.
pub struct Runner<'a> {
    pub prop: &'a Prop,
    pub seed: u64,
    pub thorough: bool,
    pub threads: usize,
    pub soft_cap_s: f64,
    pub scale: f64,
    pub progress_file: Option<std::fs::File>,
}

pub struct Outcome {
    pub stats: Stats,
    pub per_wl: Vec<(&'static str, u64, u64)>,
    pub violation: Option<Violation>,
    pub capped: bool,
}

struct Slot {
    wl: AtomicUsize,
    idx: AtomicU64,
    start_ms: AtomicU64,
    clk: AtomicU64,
    live: AtomicBool,
}

impl Runner<'_> {
    pub fn run(&self) -> Outcome {
        let t0 = Instant::now();
        let total = Arc::new(Mutex::new(Stats::default()));
        let viol: Arc<Mutex<Option<Violation>>> = Arc::new(Mutex::new(None));
        let stop = Arc::new(AtomicBool::new(false));
        let capped = Arc::new(AtomicBool::new(false));
        let done = Arc::new(AtomicBool::new(false));
        let mut per_wl = vec![];
        let slots: Arc<Vec<Slot>> = Arc::new(
            (0..self.threads)
                .map(|_| Slot {
                    wl: AtomicUsize::new(usize::MAX),
                    idx: AtomicU64::new(0),
                    start_ms: AtomicU64::new(0),
                    clk: AtomicU64::new(0),
                    live: AtomicBool::new(false),
                })
                .collect(),
        );
        std::thread::scope(|sc| {
            let watcher = {
                let (slots, done) = (slots.clone(), done.clone());
                sc.spawn(move || {
                    // Ticks (not wall time: a frozen process does not tick) without any CPU use anywhere.
                    let (mut idle_ticks, mut last_cpu) = (0u32, 0f64);
                    let mut last_prog = (0u64, 0u64);
                    while !done.load(SeqCst) {
                        std::thread::park_timeout(std::time::Duration::from_millis(200));
                        let mut any = None;
                        let mut prog = (0u64, 0u64);
                        for s in slots.iter() {
                            if !s.live.load(SeqCst) {
                                continue;
                            }
                            let (wl, idx, st) = (s.wl.load(SeqCst), s.idx.load(SeqCst), s.start_ms.load(SeqCst));
                            any = Some((wl, idx));
                            prog.0 = prog.0.wrapping_add(idx.wrapping_mul(31).wrapping_add(st));
                            prog.1 += 1;
                            let now = clock_s(s.clk.load(SeqCst) as i64 as libc::clockid_t);
                            if now - st as f64 / 1000.0 > HANG_CPU_S
                                && s.live.load(SeqCst)
                                && s.idx.load(SeqCst) == idx
                                && s.wl.load(SeqCst) == wl
                            {
                                // The stuck thread cannot be ended: report from here.
                                crate::report_hang(wl, idx, "one case used 60 s of CPU time");
                            }
                        }
                        let cpu = process_cpu_s();
                        if any.is_some() && prog == last_prog && cpu - last_cpu < 0.01 {
                            idle_ticks += 1;
                        } else {
                            idle_ticks = 0;
                        }
                        last_prog = prog;
                        last_cpu = cpu;
                        if let (Some((wl, idx)), true) = (any, idle_ticks > 225) {
                            crate::report_hang(wl, idx, "every thread is blocked (deadlock)");
                        }
                    }
                })
            };
            for (wi, wl) in self.prop.workloads.iter().enumerate() {
                let n = if self.thorough { wl.thorough } else { wl.quick };
                let n = ((n as f64 * self.scale).ceil() as u64).max(1);
                // Every workload gets its share of the time.
                let deadline = self.soft_cap_s * (wi + 1) as f64 / self.prop.workloads.len() as f64;
                let next = AtomicU64::new(0);
                let before = {
                    let t = total.lock().unwrap();
                    (t.cases, t.nontrivial)
                };
                std::thread::scope(|s2| {
                    for w in 0..self.threads {
                        let (total, viol, stop, capped, slots) = (&total, &viol, &stop, &capped, &slots);
                        let next = &next;
                        let me = &self;
                        s2.spawn(move || {
                            let slot = &slots[w];
                            let clk = thread_cpu_clock();
                            slot.clk.store(clk as i64 as u64, SeqCst);
                            let mut local = Stats::default();
                            let chunk = (n / (me.threads as u64 * 16)).clamp(1, 64);
                            'outer: loop {
                                let a = next.fetch_add(chunk, SeqCst);
                                if a >= n || stop.load(SeqCst) {
                                    break;
                                }
                                if t0.elapsed().as_secs_f64() > deadline {
                                    capped.store(true, SeqCst);
                                    break;
                                }
                                for idx in a..(a + chunk).min(n) {
                                    slot.wl.store(wi, SeqCst);
                                    slot.idx.store(idx, SeqCst);
                                    slot.start_ms.store((clock_s(clk) * 1000.0) as u64, SeqCst);
                                    slot.live.store(true, SeqCst);
                                    if let Some(f) = &me.progress_file {
                                        use std::os::unix::fs::FileExt;
                                        let mut b = [0u8; 16];
                                        b[..8].copy_from_slice(&(wi as u64 + 1).to_le_bytes());
                                        b[8..].copy_from_slice(&idx.to_le_bytes());
                                        let _ = f.write_at(&b, w as u64 * 16);
                                    }
                                    let want = local.samples.len() < 3;
                                    let mut c = Case::new(
                                        case_seed(me.seed, me.prop.id, wl.name, idx),
                                        me.thorough,
                                        cfg!(miri),
                                        want,
                                    );
                                    let r = run_one(wl, &mut c);
                                    slot.live.store(false, SeqCst);
                                    local.cases += 1;
                                    local.events += c.st.events;
                                    for (k, v) in &c.st.seen {
                                        *local.seen.entry(k).or_insert(0) += v;
                                    }
                                    if c.nontrivial {
                                        local.nontrivial += 1;
                                        // The count of distinct cases is a lower bound beyond this (memory).
                                        if local.fps.len() < MAX_FPS / me.threads {
                                            local.fps.insert(c.fp);
                                        }
                                        if want {
                                            if let Some(d) = c.desc.take() {
                                                local.samples.push(format!("{}#{}: {}", wl.name, idx, d));
                                            }
                                        }
                                    }
                                    if let Err(msg) = r {
                                        stop.store(true, SeqCst);
                                        let mut v = viol.lock().unwrap();
                                        if v.as_ref().map_or(true, |o| o.idx > idx || o.wl != wl.name) {
                                            *v = Some(Violation { wl: wl.name, idx, msg });
                                        }
                                        break 'outer;
                                    }
                                }
                            }
                            if let Some(f) = &me.progress_file {
                                use std::os::unix::fs::FileExt;
                                let _ = f.write_at(&[0u8; 16], w as u64 * 16);
                            }
                            let mut t = total.lock().unwrap();
                            t.cases += local.cases;
                            t.nontrivial += local.nontrivial;
                            t.events += local.events;
                            if t.fps.len() < MAX_FPS {
                                t.fps.extend(local.fps);
                            }
                            for (k, v) in local.seen {
                                *t.seen.entry(k).or_insert(0) += v;
                            }
                            let have = t.samples.len();
                            t.samples.extend(local.samples.into_iter().take(if have < 6 * (wi + 1) { 2 } else { 0 }));
                        });
                    }
                });
                let after = {
                    let t = total.lock().unwrap();
                    (t.cases, t.nontrivial)
                };
                per_wl.push((wl.name, after.0 - before.0, after.1 - before.1));
                if stop.load(SeqCst) {
                    break;
                }
            }
            done.store(true, SeqCst);
            watcher.thread().unpark();
        });
        let stats = std::mem::take(&mut *total.lock().unwrap());
        let violation = viol.lock().unwrap().take();
        Outcome { stats, per_wl, violation, capped: capped.load(SeqCst) }
    }
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
