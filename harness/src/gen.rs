//! Generators: logit values, logits in various prepared states, histories, samplers, resources.

use crate::rng::{mix, Rng};
use llm_samplers::configure::*;
use llm_samplers::prelude::*;
use rand::RngCore;

pub const NI: f32 = f32::NEG_INFINITY;

// ---------------------------------------------------------------- sizes and values

pub fn size(r: &mut Rng, max: usize) -> usize {
    let n = match r.below(100) {
        0..=2 => 0,
        3..=8 => 1,
        9..=17 => 2,
        18..=27 => 3,
        28..=55 => r.range(4, 8),
        56..=77 => r.range(9, 33),
        78..=89 => {
            let k = r.range(3, 7);
            ((1usize << k) + r.below(3)).saturating_sub(1)
        }
        90..=97 => r.range(34, 200),
        98 => r.range(200, 1000),
        _ => r.range(1000, 5000),
    };
    n.min(max)
}

/// A size that is at least one.
pub fn size1(r: &mut Rng, max: usize) -> usize {
    size(r, max).max(1)
}

#[derive(Clone, Copy, Debug)]
pub struct Dom {
    /// Negative infinities may occur (at least one value stays finite).
    pub neg_inf: bool,
    /// Bound on the magnitude of finite values.
    pub max_abs: f32,
}

pub const ANY: Dom = Dom { neg_inf: true, max_abs: f32::MAX };
/// Typical magnitudes.
pub const MILD: Dom = Dom { neg_inf: false, max_abs: 60.0 };
pub const MILD_BAN: Dom = Dom { neg_inf: true, max_abs: 60.0 };

pub fn values(r: &mut Rng, n: usize, d: Dom) -> Vec<f32> {
    let mut v: Vec<f32> = Vec::with_capacity(n);
    let shape = r.below(15);
    let sigma = *r.pick(&[0.05f64, 0.5, 1.0, 2.0, 4.0, 10.0]);
    let base = if r.chance(0.3) { r.frange(-50.0, 50.0) } else { 0.0 };
    match shape {
        0..=3 => {
            for _ in 0..n {
                v.push((base + sigma * r.normal()) as f32)
            }
        }
        4 => {
            let w = r.frange(0.1, 20.0);
            for _ in 0..n {
                v.push(r.frange(-w, w) as f32)
            }
        }
        5 => {
            let k = r.range(1, 4);
            let set: Vec<f32> = (0..k).map(|_| (sigma * r.normal()) as f32).collect();
            for _ in 0..n {
                v.push(*r.pick(&set))
            }
        }
        6 => {
            let x = (sigma * r.normal()) as f32;
            v = vec![x; n];
        }
        7 => {
            let b = *r.pick(&[std::f64::consts::LN_2, 1.0, 0.1, 3.0]);
            for i in 0..n {
                v.push((base - b * (i % 90) as f64) as f32)
            }
            if r.chance(0.7) {
                r.shuffle(&mut v)
            }
        }
        8 => {
            let a = r.frange(0.3, 2.5);
            for i in 0..n {
                v.push((base - a * ((i + 1) as f64).ln()) as f32)
            }
            if r.chance(0.7) {
                r.shuffle(&mut v)
            }
        }
        9 => {
            v = (0..n).map(|_| (r.normal() * 0.3) as f32).collect();
            if n > 0 {
                let i = r.below(n);
                v[i] = r.frange(1.0, 15.0) as f32;
            }
        }
        10 => {
            // Two plateaus.
            let (a, b) = (r.frange(-3.0, 3.0) as f32, r.frange(-3.0, 3.0) as f32);
            v = (0..n).map(|_| if r.chance(0.5) { a } else { b }).collect();
        }
        11 => {
            // Huge spread.
            let e = *r.pick(&[1e2f64, 1e4, 1e10, 3e38]);
            for _ in 0..n {
                v.push(if r.chance(0.03) { *r.pick(&[f32::MAX, f32::MIN]) } else { (e * (2.0 * r.f64() - 1.0)) as f32 })
            }
        }
        12 => {
            // Tiny numbers, zeros of both signs, neighbours.
            for _ in 0..n {
                v.push(*r.pick(&[0.0f32, -0.0, 1e-45, -1e-45, 1e-38, -1e-38, 1.0, 1.0 + f32::EPSILON, -1.0]))
            }
        }
        13 => {
            v = (0..n).map(|i| i as f32 * 0.25).collect();
            if r.chance(0.5) {
                v.reverse()
            }
        }
        _ => {
            // Values close to each other on top of a large offset.
            let off = r.frange(-1000.0, 1000.0);
            for _ in 0..n {
                v.push((off + r.frange(0.0, 0.01)) as f32)
            }
        }
    }
    for x in v.iter_mut() {
        *x = x.clamp(-d.max_abs, d.max_abs);
    }
    if r.chance(0.15) {
        v.sort_by(|a, b| b.total_cmp(a));
    } else if r.chance(0.05) {
        v.sort_by(|a, b| a.total_cmp(b));
    }
    if d.neg_inf && n > 1 && r.chance(0.25) {
        let p = *r.pick(&[0.1, 0.5, 0.9]);
        let keep = r.below(n);
        for (i, x) in v.iter_mut().enumerate() {
            if i != keep && r.chance(p) {
                *x = NI;
            }
        }
    }
    v
}

// ---------------------------------------------------------------- prepared logits

pub type Snap = Vec<Logit>;

pub fn snap(l: &Logits) -> Snap {
    l.to_vec()
}

/// Entry-for-entry identity of everything observable.
pub fn same_all(a: &Logits, b: &Logits) -> Result<(), String> {
    if a.get_sorted() != b.get_sorted() || a.get_softmax() != b.get_softmax() {
        return Err(format!(
            "flags differ: sorted {}/{} softmax {}/{}",
            a.get_sorted(),
            b.get_sorted(),
            a.get_softmax(),
            b.get_softmax()
        ));
    }
    if a.len() != b.len() {
        return Err(format!("lengths differ: {} / {}", a.len(), b.len()));
    }
    for (i, (x, y)) in a.iter().zip(b.iter()).enumerate() {
        if x.token_id != y.token_id || x.logit.to_bits() != y.logit.to_bits() {
            return Err(format!("entry {i} differs: {x:?} / {y:?}"));
        }
        // Without the flag the probability is meaningless.
        if a.get_softmax() && x.prob.to_bits() != y.prob.to_bits() {
            return Err(format!("probability of entry {i} differs: {x:?} / {y:?}"));
        }
    }
    Ok(())
}

pub fn show(l: &[Logit]) -> String {
    let mut s = format!("n={} [", l.len());
    for x in l.iter().take(12) {
        s.push_str(&format!("{}:{:e}", x.token_id, x.logit));
        s.push(' ');
    }
    if l.len() > 12 {
        s.push_str("...");
    }
    s.push(']');
    s
}

pub fn hash_logits(l: &Logits) -> u64 {
    let mut h = mix(&[l.len() as u64, l.get_sorted() as u64, l.get_softmax() as u64]);
    for x in l.iter().take(4096) {
        h = mix(&[h, ((x.token_id as u64) << 32) | x.logit.to_bits() as u64]);
    }
    h
}

pub fn from_values(v: &[f32]) -> Logits {
    Logits::try_from_iter(v.iter().copied()).expect("values have no NaN")
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Prep {
    Fresh,
    Stale,
    Sorted,
    Softmax,
    SortedStale,
}

/// Logits with distinct token ids (not always the positions), truthful flags and possibly meaningless
/// leftover probabilities where the softmax flag is off.
pub fn prep(r: &mut Rng, v: &[f32]) -> (Logits, Prep) {
    let mut l = from_values(v);
    if r.chance(0.4) {
        remap(r, &mut l);
    }
    if r.chance(0.15) {
        r.shuffle(&mut l);
    }
    let p = *r.pick(&[Prep::Fresh, Prep::Stale, Prep::Sorted, Prep::Softmax, Prep::SortedStale]);
    match p {
        Prep::Fresh => {}
        Prep::Stale => garbage(r, &mut l),
        Prep::Sorted | Prep::SortedStale => {
            // Not through the library: its own sorting is judged elsewhere.
            l.sort_by(|a, b| b.logit.partial_cmp(&a.logit).unwrap());
            l.set_sorted(true);
            if p == Prep::SortedStale {
                garbage(r, &mut l);
            }
        }
        Prep::Softmax => {
            let _ = l.ensure_softmax();
        }
    }
    (l, p)
}

/// Distinct pseudo-random token ids, including the extremes.
pub fn remap(r: &mut Rng, l: &mut Logits) {
    let n = l.len() as u64;
    if n == 0 {
        return;
    }
    if r.chance(0.2) {
        // Neighbours differ in one bit only.
        let k = r.below(32);
        for (i, x) in l.iter_mut().enumerate() {
            let (j, bit) = ((i >> 1) as u64, (i & 1) as u64);
            x.token_id = (((j >> k) << (k + 1)) | (bit << k) | (j & ((1 << k) - 1))) as u32;
        }
        return;
    }
    // id = a * i + b (mod 2^32), a odd: distinct.
    let a = if r.chance(0.5) { 1u32 } else { r.u32() | 1 };
    let b = if r.chance(0.4) { u32::MAX.wrapping_sub(a.wrapping_mul(r.below(n as usize) as u32)) } else { r.u32() };
    for (i, x) in l.iter_mut().enumerate() {
        x.token_id = a.wrapping_mul(i as u32).wrapping_add(b);
    }
    if r.chance(0.5) {
        // Break the correlation of id and position.
        let mut ids: Vec<u32> = l.iter().map(|x| x.token_id).collect();
        r.shuffle(&mut ids);
        for (x, id) in l.iter_mut().zip(ids) {
            x.token_id = id;
        }
    }
}

fn garbage(r: &mut Rng, l: &mut Logits) {
    let k = r.below(3);
    for x in l.iter_mut() {
        x.prob = match k {
            0 => r.f32(),
            1 => 1.0,
            _ => *r.pick(&[0.0, 0.5, -1.0, f32::NAN, f32::INFINITY]),
        };
    }
}

/// Token lists for history resources: mixes tokens of the logits and others, with repeats.
pub fn history(r: &mut Rng, l: &Logits, max: usize) -> Vec<u32> {
    let n = match r.below(10) {
        0 => 0,
        1 => 1,
        2..=6 => r.range(2, 12),
        _ => r.range(2, max.max(2)),
    };
    let m = l.len();
    let focus = r.range(1, 6);
    (0..n)
        .map(|_| {
            if m == 0 || r.chance(0.15) {
                if r.chance(0.5) {
                    r.u32()
                } else {
                    r.below(20) as u32
                }
            } else if r.chance(0.6) {
                l[r.below(m.min(focus))].token_id
            } else {
                l[r.below(m)].token_id
            }
        })
        .collect()
}

/// A very large count, also ones that are small (or negative) in narrower types.
pub fn huge(r: &mut Rng) -> usize {
    match r.below(8) {
        0..=2 => usize::MAX,
        3 => usize::MAX - r.below(3),
        4 => (1usize << 32) + r.below(3),
        5 => *r.pick(&[1usize << 63, (1usize << 63) - 1, (1usize << 31) + 1, u32::MAX as usize]),
        6 => (1usize << 32) + r.below(40),
        _ => (r.range(1, 300) << *r.pick(&[16usize, 24, 32, 48])) + r.below(4),
    }
}

/// A window size around the length of the history.
pub fn last_n(r: &mut Rng, hist: usize) -> usize {
    match r.below(10) {
        0 => 0,
        1 => 1,
        2 => hist,
        3 => hist + 1,
        4 => hist.saturating_sub(1),
        5 => huge(r),
        6 => 64,
        _ => r.range(0, hist + 2),
    }
}

// ---------------------------------------------------------------- random streams and resources

#[derive(Clone, Debug)]
pub enum Stream {
    Xo(Rng),
    Const(u64),
    /// Mostly constant extremes, alternating.
    Alt(Vec<u64>, usize),
    /// Extremes for the first draws, then proper randomness (for code that retries).
    Then(Vec<u64>, usize, Rng),
}

impl Stream {
    pub fn next(&mut self) -> u64 {
        match self {
            Stream::Xo(r) => r.u64(),
            Stream::Const(c) => *c,
            Stream::Alt(v, i) => {
                *i += 1;
                v[(*i - 1) % v.len()]
            }
            Stream::Then(v, i, r) => {
                if *i < v.len() {
                    *i += 1;
                    v[*i - 1]
                } else {
                    r.u64()
                }
            }
        }
    }
    pub fn random(r: &mut Rng) -> Stream {
        Stream::Xo(Rng::new(r.u64()))
    }
    /// Including the extremes of what a random source may produce.
    pub fn hostile(r: &mut Rng) -> Stream {
        let ex: &[u64] = &[
            0,
            u64::MAX,
            1,
            1 << 63,
            0xffff_ffff,
            0xffff_ffff_0000_0000,
            0x0000_01ff_0000_01ff,
            0x0000_0200_0000_0200,
            0xffff_feff_ffff_feff,
            0xffff_ff00_ffff_ff00,
        ];
        match r.below(4) {
            0 => Stream::Xo(Rng::new(r.u64())),
            1 => Stream::Const(*r.pick(ex)),
            2 => {
                let v = (0..r.range(1, 4)).map(|_| *r.pick(ex)).collect();
                Stream::Alt(v, 0)
            }
            _ => {
                let v = (0..r.range(1, 4)).map(|_| *r.pick(ex)).collect();
                Stream::Then(v, 0, Rng::new(r.u64()))
            }
        }
    }
}

/// Random source that counts what is drawn from it.
#[derive(Clone, Debug)]
pub struct CountRng {
    pub s: Stream,
    pub draws: u64,
}

impl CountRng {
    pub fn new(s: Stream) -> Self {
        CountRng { s, draws: 0 }
    }
}

impl RngCore for CountRng {
    fn next_u32(&mut self) -> u32 {
        self.draws += 1;
        let x = self.s.next();
        (x >> 32) as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.draws += 1;
        self.s.next()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        self.draws += 1;
        for ch in dest.chunks_mut(8) {
            let b = self.s.next().to_le_bytes();
            ch.copy_from_slice(&b[..ch.len()]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

/// Resources whose every access is observed.
#[derive(Debug, Clone)]
pub struct Res {
    pub rng: Option<CountRng>,
    pub toks: Option<Vec<u32>>,
    pub reads: std::cell::Cell<u64>,
    pub muts: u64,
    pub rng_calls: u64,
}

impl Res {
    pub fn new(rng: Option<Stream>, toks: Option<Vec<u32>>) -> Res {
        Res {
            rng: rng.map(CountRng::new),
            toks,
            reads: Default::default(),
            muts: 0,
            rng_calls: 0,
        }
    }
    pub fn none() -> Res {
        Res::new(None, None)
    }
    pub fn draws(&self) -> u64 {
        self.rng.as_ref().map_or(0, |r| r.draws)
    }
}

impl HasSamplerResources for Res {
    fn with_rng_mut(&mut self, fun: &mut dyn FnMut(&mut dyn RngCore)) -> Result<(), SamplerError> {
        self.rng_calls += 1;
        match self.rng.as_mut() {
            Some(r) => {
                fun(r);
                Ok(())
            }
            None => Err(SamplerError::MissingResource("rng".into())),
        }
    }
    fn with_last_tokens(&self, fun: &mut dyn FnMut(&Vec<u32>)) -> Result<(), SamplerError> {
        self.reads.set(self.reads.get() + 1);
        match self.toks.as_ref() {
            Some(t) => {
                fun(t);
                Ok(())
            }
            None => Err(SamplerError::MissingResource("last_tokens".into())),
        }
    }
    fn with_last_tokens_mut(&mut self, fun: &mut dyn FnMut(&mut Vec<u32>)) -> Result<(), SamplerError> {
        self.muts += 1;
        match self.toks.as_mut() {
            Some(t) => {
                fun(t);
                Ok(())
            }
            None => Err(SamplerError::MissingResource("last_tokens".into())),
        }
    }
}

// ---------------------------------------------------------------- samplers

#[derive(Clone, Debug)]
pub enum Any {
    TopK(SampleTopK),
    TopP(SampleTopP),
    MinP(SampleMinP),
    TopA(SampleTopA),
    TailFree(SampleTailFree),
    LocTyp(SampleLocallyTypical),
    Temp(SampleTemperature),
    Rep(SampleRepetition),
    Freq(SampleFreqPresence),
    Seq(SampleSeqRepetition),
    Bias(SampleFlatBias),
    Greedy(SampleGreedy),
    Rand(SampleRandDistrib),
    Miro1(SampleMirostat1),
    Miro2(SampleMirostat2),
}

macro_rules! each {
    ($me:expr, $s:ident => $e:expr) => {
        match $me {
            Any::TopK($s) => $e,
            Any::TopP($s) => $e,
            Any::MinP($s) => $e,
            Any::TopA($s) => $e,
            Any::TailFree($s) => $e,
            Any::LocTyp($s) => $e,
            Any::Temp($s) => $e,
            Any::Rep($s) => $e,
            Any::Freq($s) => $e,
            Any::Seq($s) => $e,
            Any::Bias($s) => $e,
            Any::Greedy($s) => $e,
            Any::Rand($s) => $e,
            Any::Miro1($s) => $e,
            Any::Miro2($s) => $e,
        }
    };
}

impl Any {
    pub fn s(&mut self) -> &mut dyn Sampler {
        each!(self, s => s)
    }
    pub fn sref(&self) -> &dyn Sampler {
        each!(self, s => s)
    }
    pub fn cfg(&mut self) -> &mut dyn ConfigurableSampler<usize, f32> {
        each!(self, s => s)
    }
    pub fn cref(&self) -> &dyn ConfigurableSampler<usize, f32> {
        each!(self, s => s)
    }
    pub fn boxed(&self) -> Box<dyn Sampler> {
        each!(self.clone(), s => Box::new(s))
    }
    pub fn buildable(&self) -> Box<dyn BuildableSampler<usize, f32>> {
        each!(self.clone(), s => Box::new(s))
    }
    pub fn shared(&self) -> std::sync::Arc<std::sync::Mutex<dyn Sampler>> {
        each!(self.clone(), s => std::sync::Arc::new(std::sync::Mutex::new(s)))
    }
    pub fn push_to(&self, c: &mut SamplerChain, how: usize) {
        each!(self.clone(), s => match how {
            0 => { c.push_sampler(s); }
            1 => *c += s,
            _ => { let t = std::mem::take(c); *c = t + s; }
        })
    }
    pub fn kind(&self) -> &'static str {
        match self {
            Any::TopK(_) => "topk",
            Any::TopP(_) => "topp",
            Any::MinP(_) => "minp",
            Any::TopA(_) => "topa",
            Any::TailFree(_) => "tailfree",
            Any::LocTyp(_) => "loctyp",
            Any::Temp(_) => "temp",
            Any::Rep(_) => "rep",
            Any::Freq(_) => "freq",
            Any::Seq(_) => "seq",
            Any::Bias(_) => "bias",
            Any::Greedy(_) => "greedy",
            Any::Rand(_) => "rand",
            Any::Miro1(_) => "miro1",
            Any::Miro2(_) => "miro2",
        }
    }
    pub fn run(&mut self, res: &mut dyn HasSamplerResources, l: &mut Logits) -> Result<Option<u32>, SamplerError> {
        self.s().sample_token(res, l)
    }
    /// See the function of this name. Not for samplers with learning state.
    pub fn drive(&self, r: &mut Rng, res: &mut dyn HasSamplerResources, l: &mut Logits) -> Result<Option<u32>, SamplerError> {
        each!(self, s => drive(r, s, res, l))
    }
    /// Observable state: option values and the last token.
    pub fn state(&self) -> Vec<String> {
        let mut v: Vec<String> = self
            .cref()
            .sampler_metadata()
            .options
            .iter()
            .map(|o| match self.cref().get_option(o.key) {
                Ok(x) => format!("{}={}", o.key, optval(&x)),
                Err(e) => format!("{}: {e}", o.key),
            })
            .collect();
        if let Any::Bias(b) = self {
            v.extend(b.iter().map(|(t, x)| format!("{t}:{:x}", x.to_bits())));
        }
        v.push(format!("{:?}", self.sref().sampled_token_id()));
        v
    }
    /// Option values that no call may change (mu is learned).
    pub fn params(&self) -> Vec<(&'static str, u64)> {
        self.cref()
            .sampler_metadata()
            .options
            .iter()
            .filter(|o| o.key != "mu")
            .map(|o| {
                (
                    o.key,
                    match self.cref().get_option(o.key) {
                        Ok(SamplerOptionValue::UInt(x)) => x,
                        Ok(SamplerOptionValue::Float(x)) => x.to_bits(),
                        other => panic!("option {} of {self:?} reads as {other:?}", o.key),
                    },
                )
            })
            .collect()
    }
    pub fn min_keep(&self) -> usize {
        match self.cref().get_option("min_keep") {
            Ok(SamplerOptionValue::UInt(v)) => v as usize,
            _ => 0,
        }
    }
    pub fn needs_rng(&self) -> bool {
        matches!(self, Any::Rand(_) | Any::Miro1(_) | Any::Miro2(_))
    }
    pub fn filters(&self) -> bool {
        matches!(
            self,
            Any::TopK(_)
                | Any::TopP(_)
                | Any::MinP(_)
                | Any::TopA(_)
                | Any::TailFree(_)
                | Any::LocTyp(_)
                | Any::Miro1(_)
                | Any::Miro2(_)
        )
    }
}

pub fn optval(v: &SamplerOptionValue) -> String {
    match v {
        SamplerOptionValue::UInt(x) => format!("u{x}"),
        SamplerOptionValue::Float(x) => format!("f{:x}", x.to_bits()),
        SamplerOptionValue::Bool(x) => format!("b{x}"),
        SamplerOptionValue::String(x) => format!("s{x:?}"),
    }
}

pub fn opt_f(a: &Any, k: &str) -> f64 {
    match a.cref().get_option(k) {
        Ok(SamplerOptionValue::Float(v)) => v,
        _ => f64::NAN,
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Lim {
    /// Values stay finite: temperatures and penalties are limited.
    pub tame: bool,
    /// Temperatures may be negative.
    pub neg_temp: bool,
}

pub const TAME: Lim = Lim { tame: true, neg_temp: false };
pub const TAME_NEG: Lim = Lim { tame: true, neg_temp: true };

pub fn keep(r: &mut Rng, n: usize) -> usize {
    match r.below(8) {
        0 => 0,
        1..=3 => 1,
        4 => n,
        5 if r.chance(0.3) => huge(r),
        5 => n + 1,
        _ => r.range(0, n + 1),
    }
}

pub fn p01(r: &mut Rng) -> f32 {
    match r.below(10) {
        0 => 0.0,
        1 => 1.0,
        2 => *r.pick(&[0.5, 0.25, 0.75, 0.125]),
        3 => r.frange(0.9, 1.0) as f32,
        4 => (10f64).powf(r.frange(-6.0, 0.0)) as f32,
        _ => r.f32(),
    }
}

pub fn a_filter(r: &mut Rng, n: usize) -> Any {
    match r.below(6) {
        0 => Any::TopK(SampleTopK::new(
            if r.chance(0.1) { huge(r) } else { r.range(0, n + 2) },
            keep(r, n),
        )),
        1 => Any::TopP(SampleTopP::new(p01(r), keep(r, n))),
        2 => Any::MinP(SampleMinP::new(p01(r), keep(r, n))),
        3 => Any::TopA(SampleTopA::new(
            if r.chance(0.8) { p01(r) } else { r.frange(0.0, 3.0) as f32 },
            *r.pick(&[0.0, 0.5, 1.0, 2.0, 3.0]),
            keep(r, n),
        )),
        4 => Any::TailFree(SampleTailFree::new(p01(r), keep(r, n))),
        _ => Any::LocTyp(SampleLocallyTypical::new(p01(r), keep(r, n))),
    }
}

pub fn a_temp(r: &mut Rng, lim: Lim) -> Any {
    let mut t = match r.below(8) {
        0 => 0.0,
        1 => 1.0,
        2 => 0.5,
        3 => 2.0,
        _ => (10f64).powf(r.frange(-1.3, 1.3)) as f32,
    };
    if !lim.tame && r.chance(0.1) {
        t = *r.pick(&[1e-30, 1e30, 1e-45, f32::MAX]);
    }
    if lim.neg_temp && r.chance(0.3) {
        t = -t;
    }
    Any::Temp(SampleTemperature::new(t))
}

pub fn a_penalty(r: &mut Rng, l: &Logits, hist: usize, lim: Lim) -> Any {
    let m = if lim.tame { 100.0 } else { 1e30 };
    let pen = |r: &mut Rng| match r.below(6) {
        0 => 0.0f32,
        1 => r.frange(-2.0, 2.0) as f32,
        2 => r.frange(-m, m) as f32,
        _ => r.frange(0.0, 3.0) as f32,
    };
    match r.below(4) {
        0 => Any::Rep(SampleRepetition::new(
            match r.below(5) {
                0 => 1.0,
                1 => r.frange(0.0, 1.0) as f32,
                _ => r.frange(1.0, 4.0) as f32,
            },
            last_n(r, hist),
        )),
        1 => Any::Freq(SampleFreqPresence::new(pen(r), pen(r), last_n(r, hist))),
        2 => Any::Seq(SampleSeqRepetition::new(
            pen(r),
            pen(r),
            r.range(0, 5),
            r.below(3),
            r.below(4),
            last_n(r, hist),
        )),
        _ => {
            let k = if r.chance(0.06) { r.range(5, 80) } else { r.range(0, 4) };
            let b = (0..k)
                .map(|_| {
                    let t = if l.is_empty() || r.chance(0.2) { r.u32() } else { l[r.below(l.len())].token_id };
                    (t, pen(r))
                })
                .collect::<Vec<_>>();
            Any::Bias(SampleFlatBias::new(b))
        }
    }
}

pub fn a_select(r: &mut Rng, n: usize) -> Any {
    match r.below(4) {
        0 => Any::Greedy(SampleGreedy::new()),
        1 => Any::Rand(SampleRandDistrib::new()),
        2 => a_miro1(r, n),
        _ => a_miro2(r),
    }
}

/// A learning state: the usual range, now and then one far outside of it.
fn a_mu(r: &mut Rng) -> f32 {
    if r.chance(0.08) {
        *r.pick(&[-0.5f32, -3.0, -100.0, 40.0, 1000.0, 1e6, -1e6, 0.0, -0.0])
    } else {
        r.frange(0.0, 18.0) as f32
    }
}

pub fn a_miro1(r: &mut Rng, n: usize) -> Any {
    let nv = if r.chance(0.5) { n.max(2) } else { r.range(1, 100_000) };
    Any::Miro1(
        SampleMirostat1::new(nv, r.frange(0.2, 9.0) as f32, r.frange(0.0, 0.5) as f32)
            .m(r.range(1, n + 3).min(1000))
            .mu(a_mu(r)),
    )
}

pub fn a_miro2(r: &mut Rng) -> Any {
    Any::Miro2(
        SampleMirostat2::new(r.frange(0.2, 9.0) as f32, r.frange(0.0, 0.5) as f32).mu(a_mu(r)),
    )
}

pub fn any_sampler(r: &mut Rng, l: &Logits, hist: usize, lim: Lim) -> Any {
    match r.below(10) {
        0..=3 => a_filter(r, l.len()),
        4 => a_temp(r, lim),
        5..=7 => a_penalty(r, l, hist, lim),
        _ => a_select(r, l.len()),
    }
}

// ---------------------------------------------------------------- ways of calling

/// Runs a copy of a sampler that has no learning state the way some caller might: directly or through the
/// convenience methods, boxed, as a clone, after any number of earlier calls on other logits. None of it may matter.
pub fn drive<S: Sampler + Clone + 'static>(r: &mut Rng, s: &S, res: &mut dyn HasSamplerResources, l: &mut Logits) -> Result<Option<u32>, SamplerError> {
    let mut s = s.clone();
    let w = r.below(100_000);
    let warm = if cfg!(miri) {
        w % 3
    } else {
        match w {
            0..=1 => 70_000,
            2..=30 => 300,
            31..=25_000 => r.range(1, 3),
            _ => 0,
        }
    };
    if warm > 0 {
        let toks: Vec<u32> = if warm > 3 {
            vec![1, 2, 1, 2, 1]
        } else {
            l.iter().take(3).map(|x| x.token_id).chain([0, 1, 2, 3, 1, 2, 3, 1, 2]).collect()
        };
        let mut other = Res::new((!r.chance(0.1)).then(|| Stream::random(r)), (!r.chance(0.1)).then_some(toks));
        for i in 0..warm {
            let n = if warm > 3 { 3 } else { *r.pick(&[0usize, 1, 2, 3, 8, 40]) };
            let v: Vec<f32> = (0..n).map(|_| r.frange(-5.0, 5.0) as f32).collect();
            let mut o = from_values(&v);
            match (i + n) % 7 {
                0 if n > 0 => o[0].logit = f32::NAN,
                1 => {
                    let _ = o.ensure_softmax();
                }
                2 => {
                    let _ = o.ensure_sorted();
                }
                3 if n > 0 => o[n - 1].logit = NI,
                _ => {}
            }
            let _ = s.sample(&mut other, &mut o);
        }
    }
    match r.below(9) {
        0..=2 => {
            s.sample(res, l)?;
            Ok(s.sampled_token_id())
        }
        3 => s.sample_token(res, l),
        4 => {
            l.sample(res, &mut s)?;
            Ok(s.sampled_token_id())
        }
        5 => l.sample_token(res, &mut s),
        6 => {
            let mut b: Box<dyn Sampler> = Box::new(s);
            b.sample_token(res, l)
        }
        7 => {
            let mut b: Box<dyn Sampler> = Box::new(s);
            l.sample_token(res, &mut b)
        }
        _ => {
            let mut t = s.clone();
            drop(s);
            t.sample_token(res, l)
        }
    }
}

/// Vocabulary sizes of real models, and sizes around powers of two.
pub fn big_len(r: &mut Rng) -> usize {
    if cfg!(miri) {
        return r.range(60, 80);
    }
    match r.below(4) {
        0 => *r.pick(&[32_000usize, 50_257, 100_352, 128_256, 151_936]),
        1 => (1usize << r.range(12, 18)) + r.below(3) - 1,
        _ => r.range(3_000, 70_000),
    }
}

pub fn big_logits(r: &mut Rng, d: Dom) -> Logits {
    let n = big_len(r);
    let v = values(r, n, d);
    prep(r, &v).0
}
