//! C33 memory stays in proportion and is given back.

use crate::alloc::{live, peak};
use crate::core::*;
use crate::gen::*;
use crate::rng::Rng;
use llm_samplers::configure::*;
use llm_samplers::prelude::*;
use std::borrow::Cow;
use std::sync::{Arc, Mutex};

/// A user's sampler with an option of every type.
#[derive(Debug, Clone, Default)]
struct Mine {
    name: Cow<'static, str>,
    on: bool,
    n: usize,
    x: f32,
}

impl Sampler for Mine {
    fn sample<'a>(&mut self, _res: &mut dyn HasSamplerResources, l: &'a mut Logits) -> Result<&'a mut Logits, SamplerError> {
        Ok(l)
    }
}

impl ConfigurableSampler<usize, f32> for Mine {}

impl HasSamplerMetadata<usize, f32> for Mine {
    fn sampler_metadata(&self) -> SamplerMetadata {
        let o = |key, option_type| SamplerOptionMetadata { key, description: None, option_type };
        SamplerMetadata {
            name: "mine",
            description: None,
            options: vec![
                o("name", SamplerOptionType::String),
                o("on", SamplerOptionType::Bool),
                o("n", SamplerOptionType::UInt),
                o("x", SamplerOptionType::Float),
            ],
        }
    }
    fn sampler_options_mut(&mut self) -> SamplerOptions<SamplerOptionValueMut<'_, usize, f32>> {
        let md = self.sampler_metadata().options;
        unsafe {
            SamplerOptions::build_options(
                md,
                [
                    Some(SamplerOptionValueMut::String(&mut self.name)),
                    Some(SamplerOptionValueMut::Bool(&mut self.on)),
                    Some(SamplerOptionValueMut::UInt(&mut self.n)),
                    Some(SamplerOptionValueMut::Float(&mut self.x)),
                ],
            )
        }
    }
    fn sampler_options(&self) -> SamplerOptions<SamplerOptionValue<'_, usize, f32>> {
        unsafe {
            SamplerOptions::build_options(
                self.sampler_metadata().options,
                [
                    Some(SamplerOptionValue::String(self.name.clone())),
                    Some(SamplerOptionValue::Bool(self.on)),
                    Some(SamplerOptionValue::UInt(self.n)),
                    Some(SamplerOptionValue::Float(self.x)),
                ],
            )
        }
    }
}

/// A configuration string for a sampler, right or wrong.
fn text(r: &mut Rng, keys: &[&str]) -> String {
    let mut parts = vec![];
    for _ in 0..r.range(0, 4) {
        let k = if keys.is_empty() || r.chance(0.1) { "nothing" } else { *r.pick(keys) };
        let v = match r.below(8) {
            0 => "wrong".to_string(),
            1 => "inf".into(),
            2 => "true".into(),
            3 => format!("{}", r.f32()),
            4 => "a rather long value that does not fit into a small buffer".into(),
            _ => r.below(9).to_string(),
        };
        parts.push(if r.chance(0.1) { v } else { format!("{k}={v}") });
    }
    parts.join(":")
}

fn keys(s: &dyn ConfigurableSampler<usize, f32>) -> Vec<&'static str> {
    s.sampler_metadata().options.iter().map(|o| o.key).collect()
}

fn some_logits(r: &mut Rng, max: usize) -> Logits {
    let n = size(r, max);
    let mut v = values(r, n, MILD_BAN);
    if n > 0 && r.chance(0.05) {
        let i = r.below(n);
        v[i] = f32::NAN;
    }
    match r.below(3) {
        0 => Logits::try_from_iter_top_k(v, if r.chance(0.1) { huge(r) } else { r.below(n + 2) }).unwrap_or_default(),
        1 => Logits::try_from(v).unwrap_or_default(),
        _ => {
            let mut l = Logits::try_from_iter(v.iter().map(|x| if x.is_nan() { 0.0 } else { *x })).unwrap_or_default();
            if n > 0 && r.chance(0.15) {
                // What cannot be ordered, or turned into probabilities.
                let x = *r.pick(&[f32::NAN, f32::INFINITY, f32::NEG_INFINITY]);
                let all = r.chance(0.5);
                for i in 0..n {
                    if all || r.chance(0.2) {
                        l[i].logit = x;
                    }
                }
                if r.chance(0.3) {
                    let i = r.below(n);
                    l[i].prob = *r.pick(&[f32::NAN, f32::INFINITY, -1.0]);
                }
                l.set_sorted(r.chance(0.5)).set_softmax(r.chance(0.3));
            }
            l
        }
    }
}

fn grow(r: &mut Rng, ch: &mut SamplerChain, depth: usize) {
    let probe = from_values(&[1.0, 2.0, 0.5]);
    for _ in 0..r.range(0, 4) {
        let a = any_sampler(r, &probe, 10, TAME);
        match r.below(7) {
            0 if depth < 3 => {
                let mut sub = SamplerChain::new();
                grow(r, &mut sub, depth + 1);
                *ch += sub;
            }
            1 => *ch += a.boxed(),
            2 => *ch += a.shared(),
            3 => *ch += a.buildable(),
            4 => {
                // Held from two places.
                let s = a.shared();
                *ch += s.clone();
                *ch += s;
            }
            _ => a.push_to(ch, r.below(3)),
        }
    }
}

fn a_builder(r: &mut Rng) -> SamplerChainBuilder<usize, f32> {
    let mut b = SamplerChainBuilder::default();
    let probe = from_values(&[1.0, 2.0, 0.5]);
    for i in 0..r.range(1, 4) {
        let a = any_sampler(r, &probe, 10, TAME);
        let f = move || a.buildable();
        let slot = match r.below(4) {
            0 => SamplerSlot::new_static(f),
            1 => SamplerSlot::new_single(f, None::<Mine>),
            2 => SamplerSlot::new_single(|| Box::new(Mine::default()), Some(Mine::default())),
            _ => SamplerSlot::new_chain(f, []),
        };
        b.push_slot(format!("slot {i}"), slot);
    }
    b
}

/// Made through default() and the builder methods.
fn by_builders(r: &mut Rng, res: &mut Res) {
    let (x, n, k) = (r.f32(), r.below(5), r.range(1, 5));
    let all: Vec<Any> = vec![
        Any::TopK(SampleTopK::default().k(k).min_keep(n)),
        Any::TopP(SampleTopP::default().p(x).min_keep(n)),
        Any::MinP(SampleMinP::default().p(x).min_keep(n)),
        Any::TopA(SampleTopA::default().a1(x).a2(2.0).min_keep(n)),
        Any::TailFree(SampleTailFree::default().z(x).min_keep(n)),
        Any::LocTyp(SampleLocallyTypical::default().p(x).min_keep(n)),
        Any::Temp(SampleTemperature::default().temperature(x)),
        Any::Rep(SampleRepetition::default().penalty(1.0 + x).last_n(n)),
        Any::Freq(SampleFreqPresence::default().frequency(x).presence(-x).last_n(n)),
        Any::Seq(
            SampleSeqRepetition::default().flat_penalty(x).stacking_penalty(x).min_length(2).tolerance(n).max_merge(k).last_n(20 + n),
        ),
        Any::Miro1(SampleMirostat1::default().n_vocab(100).m(n).tau(x * 5.0).eta(x).mu(3.0)),
        Any::Miro2(SampleMirostat2::default().tau(x * 5.0).eta(x).mu(3.0)),
    ];
    for mut a in all {
        let mut l = some_logits(r, 30);
        let _ = a.run(res, &mut l);
        let _ = format!("{a:?}").len() + a.cref().sampler_metadata().options.len() + a.cref().sampler_options().len();
    }
    let mut s = SampleFlatBias::default();
    s.push((1, x));
    let _ = SampleFlatBias::new((0..n as u32).map(|i| (i, x))).sample(res, &mut some_logits(r, 10));
    let mut g = SampleGreedy::new();
    let _ = g.sample_token(res, &mut some_logits(r, 10));
    let _ = g.get_token_id();
}

/// Everything the library offers, used and dropped.
fn scenario(r: &mut Rng) {
    let toks: Vec<u32> = (0..r.range(0, 30)).map(|_| r.below(6) as u32).collect();
    let mut own = Res::new(Some(Stream::random(r)), Some(toks.clone()));
    let mut simple = SimpleSamplerResources::new(
        if r.chance(0.9) { Some(Box::new(CountRng::new(Stream::random(r)))) } else { None },
        if r.chance(0.9) { Some(toks) } else { None },
    );
    for _ in 0..r.range(1, 3) {
        match r.below(5) {
            4 => by_builders(r, &mut own),
            0 => {
                let mut ch = SamplerChain::new();
                grow(r, &mut ch, 0);
                for _ in 0..r.range(1, 3) {
                    let mut l = some_logits(r, 60);
                    let res: &mut dyn HasSamplerResources = if r.chance(0.5) { &mut own } else { &mut simple };
                    let _ = ch.sample_token(res, &mut l);
                    ch.sample_prepend(res);
                    let _ = ch.sampled_token_id();
                }
            }
            1 => {
                let probe = some_logits(r, 20);
                let mut a = any_sampler(r, &probe, 10, TAME);
                let k = keys(a.cref());
                for _ in 0..3 {
                    let t = text(r, &k);
                    let _ = a.cfg().configure(&t);
                    let _ = a.cref().get_option("p");
                    let mut l = some_logits(r, 60);
                    let _ = a.clone().run(&mut simple, &mut l);
                    let _ = a.run(&mut own, &mut l);
                }
            }
            2 => {
                let mut b = a_builder(r);
                for _ in 0..r.range(0, 5) {
                    let name = format!("slot {}", r.below(5));
                    let t = text(r, &["p", "min_keep", "name", "on", "tau", "last_n", "m"]);
                    let _ = b.configure(&name, &t);
                    if r.chance(0.3) {
                        for (_, s) in b.iter_mut() {
                            s.ensure_present();
                        }
                    }
                }
                let mut ch = b.into_chain();
                let mut l = some_logits(r, 60);
                let _ = ch.sample_token(&mut own, &mut l);
            }
            _ => {
                let mut m = Mine::default();
                for _ in 0..4 {
                    let t = text(r, &["name", "on", "n", "x"]);
                    let _ = m.configure(&t);
                    let _ = m.set_option("name", SamplerOptionValue::String(Cow::from(t)));
                    let _ = m.get_option("name");
                }
                let s: Arc<Mutex<dyn Sampler>> = Arc::new(Mutex::new(m));
                let mut ch = SamplerChain::new() + s.clone() + s;
                let mut l = some_logits(r, 10);
                let _ = ch.sample_token(&mut simple, &mut l);
            }
        }
    }
}

const ROUNDS: usize = 7;

fn c33_back(c: &mut Case) -> R {
    let seed = c.rng.u64();
    let mut held = [0i64; ROUNDS + 1];
    held[0] = live();
    for i in 0..ROUNDS {
        let mut r = Rng::new(seed);
        c.event();
        scenario(&mut r);
        held[i + 1] = live();
    }
    c.fp(&[seed]);
    c.nontrivial();
    c.desc(|| format!("scenario {seed:#x}, bytes held before and after each of {ROUNDS} rounds: {held:?}"));
    // Something kept once (tables made on first use) is no leak; something kept every time is.
    let last = &held[ROUNDS - 4..];
    ensure!(
        !last.windows(2).all(|w| w[1] > w[0]),
        "the same use of samplers, chains, builders and strings, with everything dropped at the end, leaves more memory behind every time; bytes held before and after each round: {held:?}"
    );
    c.see("given back");
    Ok(())
}

enum Subject {
    Bare(Any),
    Chain(SamplerChain),
    Config(Any, Vec<&'static str>),
    Mine(Mine),
    Builder(SamplerChainBuilder<usize, f32>),
    Fail(Any),
}

fn c33_steady(c: &mut Case) -> R {
    let r = &mut c.rng;
    let probe = from_values(&[1.0, 2.0, 0.5, 0.25]);
    let mut sub = match r.below(9) {
        0..=2 => {
            let a = any_sampler(r, &probe, 10, TAME);
            Subject::Bare(a)
        }
        3 | 4 => {
            let mut ch = SamplerChain::new();
            grow(r, &mut ch, 0);
            Subject::Chain(ch)
        }
        5 | 6 => match r.below(4) {
            0 => Subject::Mine(Mine::default()),
            1 => {
                // Only slots that do not grow by design.
                let mut b = SamplerChainBuilder::default();
                b.push_slot("s".into(), SamplerSlot::new_single(|| Box::new(Mine::default()), None::<Mine>));
                let a = any_sampler(r, &probe, 10, TAME);
                b.push_slot("t".into(), SamplerSlot::new_single(move || a.buildable(), None::<Mine>));
                Subject::Builder(b)
            }
            _ => {
                let a = any_sampler(r, &probe, 10, TAME);
                let k = keys(a.cref());
                Subject::Config(a, k)
            }
        },
        _ => Subject::Fail(any_sampler(r, &probe, 10, TAME)),
    };
    let what = match &sub {
        Subject::Bare(_) => "one sampler used for long",
        Subject::Chain(_) => "one chain used for long",
        Subject::Config(..) => "one sampler configured often",
        Subject::Mine(_) => "a string option set often",
        Subject::Builder(_) => "a slot configured often",
        Subject::Fail(_) => "failing often",
    };
    let mut text_of = String::new();
    c.see(what);
    match &sub {
        Subject::Bare(a) | Subject::Config(a, _) | Subject::Fail(a) => {
            c.see(a.kind());
            text_of = format!("{a:?}");
        }
        Subject::Chain(ch) => text_of = format!("{ch:?}"),
        _ => {}
    }
    let mut r = c.rng.clone();
    c.fp(&[r.clone().u64()]);
    c.nontrivial();
    let mut res = Res::new(Some(Stream::random(&mut r)), Some((0..16).map(|_| r.below(5) as u32).collect()));
    let phases: &[usize] = if c.tiny { &[4, 8, 16, 32] } else { &[250, 500, 1000, 2000, 4000] };
    let mut held = Vec::with_capacity(8);
    let mut done = 0;
    let fresh = r.chance(0.6);
    c.see_if(fresh, "tokens never seen before");
    for p in phases {
        while done < *p {
            done += 1;
            // Tokens never seen before, or the same ones again and again.
            let base = if fresh { done as u32 * 7 } else { 0 };
            if let Some(t) = res.toks.as_mut() {
                let n = t.len();
                t[done % n] = r.below(6) as u32;
                if fresh {
                    for (i, x) in t.iter_mut().enumerate() {
                        *x = base + if done % 2 == 0 { i as u32 % 3 } else { *x % 6 };
                    }
                }
            }
            let some_logits = |r: &mut Rng, n: usize| {
                let mut l = some_logits(r, n);
                l.iter_mut().for_each(|x| x.token_id = x.token_id.wrapping_add(base));
                l
            };
            match &mut sub {
                Subject::Bare(a) => {
                    let mut l = some_logits(&mut r, 10);
                    let _ = a.run(&mut res, &mut l);
                }
                Subject::Chain(ch) => {
                    let mut l = some_logits(&mut r, 10);
                    if done % 8 == 0 {
                        ch.sample_prepend(&mut res);
                    }
                    let _ = ch.sample_token(&mut res, &mut l);
                }
                Subject::Config(a, k) => {
                    let t = text(&mut r, k);
                    let _ = a.cfg().configure(&t);
                    for key in k.iter() {
                        let _ = a.cref().get_option(key);
                    }
                }
                Subject::Mine(m) => {
                    let t = text(&mut r, &["name", "on", "n", "x"]);
                    let _ = m.configure(&t);
                    // The same length at the end of every phase.
                    let _ = m.set_option("name", SamplerOptionValue::String(Cow::from(if done % 2 == 0 { "short" } else { "not so short" })));
                    let _ = m.get_option("name");
                }
                Subject::Builder(b) => {
                    let t = text(&mut r, &["name", "on", "n", "x", "p", "tau"]);
                    let _ = b.configure("s", &t);
                    let _ = b.configure("t", &t);
                    let _ = b.configure("s", "name=short");
                    let _ = b.configure("nowhere", &t);
                    for (_, s) in b.iter_mut() {
                        s.ensure_present();
                    }
                }
                Subject::Fail(a) => {
                    let mut l = some_logits(&mut r, 10);
                    let bad = *r.pick(&[f32::NAN, f32::NAN, f32::INFINITY, f32::NEG_INFINITY]);
                    for x in l.iter_mut() {
                        x.logit = bad;
                    }
                    l.set_sorted(r.chance(0.5)).set_softmax(false);
                    let _ = a.run(&mut Res::none(), &mut l);
                    let mut l = some_logits(&mut r, 10);
                    let _ = a.run(&mut Res::none(), &mut l);
                }
            }
        }
        held.push(live());
    }
    c.st_events(phases[phases.len() - 1] as u64);
    c.desc(|| format!("{what} {text_of}: bytes held after {phases:?} rounds: {held:?}"));
    // Buffers kept for the next call settle; what grows with every call does not.
    let n = held.len();
    let grows = (n - 3..n - 1).all(|i| held[i + 1] - held[i] >= (phases[i + 1] - phases[i]) as i64 / 2);
    ensure!(!grows, "{what} {text_of}: holds more memory the more it was used; bytes after {phases:?} rounds: {held:?}");
    Ok(())
}

fn c33_proportion(c: &mut Case) -> R {
    const FREE: i64 = 192 << 10;
    let r = &mut c.rng;
    let n = if c.tiny { r.below(5) } else if r.chance(0.001) { big_len(r) } else { size(r, 1000) };
    if r.chance(0.25) {
        // Building.
        let v = values(r, n, ANY);
        let k = if r.chance(0.6) { huge(r) } else { *r.pick(&[0, 1, 10, 1 << 20, 50_000_000, 1 << 28]) };
        c.fp(&[n as u64, k as u64, c.rng.clone().u64()]);
        c.nontrivial_if(n > 0);
        c.desc(|| format!("building from {n} values, k={k}"));
        c.event();
        let (l, p) = match c.rng.below(3) {
            0 => peak(|| Logits::try_from_iter_top_k(v.iter().copied(), k).map(|l| l.len()).unwrap_or(0)),
            1 => peak(|| Logits::try_from_iter(v.iter().copied()).map(|l| l.len()).unwrap_or(0)),
            _ => {
                let mut l = Logits::try_from_iter(v.iter().copied()).unwrap_or_default();
                peak(|| {
                    let _ = l.ensure_softmax();
                    l.len()
                })
            }
        };
        c.see("building");
        ensure!(p <= FREE + 256 * n as i64, "building from {n} values with k={k} ({l} entries) took {p} bytes");
        return Ok(());
    }
    if r.chance(0.1) {
        let mut m = Mine::default();
        let s = if r.chance(0.5) { text(r, &["name", "on", "n", "x"]) } else { format!("name={}", "long ".repeat(r.below(20_000))) };
        c.fp(&[s.len() as u64, c.rng.clone().u64()]);
        c.nontrivial_if(!s.is_empty());
        c.event();
        let (_, p) = peak(|| m.configure(&s).is_ok());
        c.see("configuring");
        ensure!(p <= FREE + 64 * s.len() as i64, "configuring from {} bytes of text took {p} bytes", s.len());
        return Ok(());
    }
    if r.chance(0.1) {
        let m = if c.tiny { r.below(4) } else { size(r, 100) };
        let parts: Vec<(Any, usize)> = (0..m).map(|_| (any_sampler(r, &Logits::default(), 10, TAME), r.below(3))).collect();
        c.fp(&[m as u64, c.rng.clone().u64()]);
        c.nontrivial_if(m > 0);
        c.event();
        let dbg = format!("{m} samplers");
        c.desc(|| format!("chain of {dbg}"));
        let how = c.rng.below(3);
        let (_, p) = peak(|| match how {
            0 => {
                let mut ch = SamplerChain::new();
                for (a, how) in parts {
                    a.push_to(&mut ch, how);
                }
            }
            1 => {
                let mut ch = SamplerChain::new();
                for (a, _) in parts {
                    ch += a.boxed();
                }
            }
            _ => {
                let mut b = SamplerChainBuilder::default();
                for (i, (a, _)) in parts.into_iter().enumerate() {
                    b.push_slot(i.to_string(), SamplerSlot::new_static(move || a.buildable()));
                }
                b.into_chain();
            }
        });
        c.see("chaining");
        ensure!(p <= FREE + 4096 * m as i64, "making a chain of {m} samplers took {p} bytes");
        return Ok(());
    }
    let v = values(r, n, MILD_BAN);
    let mut l = prep(r, &v).0;
    let h = if c.tiny { r.below(8) } else if r.chance(0.01) { 5000 } else { *r.pick(&[0, 10, 60, 200]) };
    let mut toks = history(r, &l, h);
    let mut a = any_sampler(r, &l, toks.len(), TAME);
    // Settings that are too large for any buffer sized by them.
    let big = *r.pick(&[1usize << 22, 10_000_000, 1 << 28, u32::MAX as usize, 1 << 40, usize::MAX]);
    for k in ["k", "min_keep", "last_n", "n_vocab", "m", "tolerance", "max_merge"] {
        if r.chance(0.5) {
            let _ = a.cfg().set_option(k, SamplerOptionValue::UInt(big as u64));
        }
    }
    let mut quad = 0;
    if let Any::Seq(_) = a {
        // Compares every part of the history with every other.
        toks.truncate(60);
        if r.chance(0.5) {
            let _ = a.cfg().set_option("min_length", SamplerOptionValue::UInt(r.range(2, 5) as u64));
        }
        quad = 128 * (toks.len() * toks.len()) as i64;
    }
    let mut given = l.len() + toks.len();
    if let Any::Bias(b) = &mut a {
        if r.chance(0.3) {
            let more = r.below(50);
            b.extend((0..more as u32).map(|i| (u32::MAX - i, 1.0)));
        }
        given += b.len();
    }
    c.fp(&[hash_logits(&l), c.rng.clone().u64()]);
    c.nontrivial_if(n > 0);
    c.see(a.kind());
    c.desc(|| format!("{a:?} on {n} entries, history of {}", toks.len()));
    let mut res = Res::new(Some(Stream::random(&mut c.rng)), Some(toks));
    c.event();
    let text = format!("{a:?}");
    let (_, p) = peak(|| a.run(&mut res, &mut l).is_ok());
    ensure!(p <= FREE + 256 * given as i64 + quad, "{text} on {n} entries and a history of {:?} took {p} bytes", res.toks.map(|t| t.len()));
    Ok(())
}

pub fn c33() -> Prop {
    Prop {
        id: "C33",
        rule: "bytes held by the thread, counted by the allocator: before and after scenarios of building, configuring, chaining, sampling and dropping, repeated identically; during up to 4000 uses of one sampler, chain, string or slot; and at most during single calls with very large settings; non-trivial: every scenario, or a non-empty input",
        workloads: vec![
            Workload { name: "given-back", quick: 60_000, thorough: 2_400_000, f: c33_back, need: &["given back"] },
            Workload {
                name: "steady",
                quick: 4_000,
                thorough: 160_000,
                f: c33_steady,
                need: &[
                    "one sampler used for long", "one chain used for long", "one sampler configured often", "a string option set often",
                    "a slot configured often", "failing often",
                ],
            },
            Workload {
                name: "proportion",
                quick: 300_000,
                thorough: 12_000_000,
                f: c33_proportion,
                need: &[
                    "building", "configuring", "chaining", "topk", "topp", "minp", "topa", "tailfree", "loctyp", "temp", "rep", "freq", "seq", "bias", "greedy",
                    "rand", "miro1", "miro2",
                ],
            },
        ],
    }
}
