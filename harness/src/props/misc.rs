//! C24 no panic, hang or misuse of memory; C25 missing resources; C26 reproducible, no leaking between calls.

use crate::core::*;
use crate::gen::*;
use crate::model::*;
use crate::rng::Rng;
use llm_samplers::configure::*;
use llm_samplers::prelude::*;
use rand::RngCore;
use std::sync::{Arc, Mutex};

// ---------------------------------------------------------------- C24

const EDGE_F: &[f32] = &[
    0.0,
    -0.0,
    1.0,
    -1.0,
    f32::NAN,
    f32::INFINITY,
    f32::NEG_INFINITY,
    f32::MAX,
    f32::MIN,
    f32::MIN_POSITIVE,
    1e-45,
    -1e-45,
    88.8,
    -104.0,
    1e10,
    -1e10,
    0.5,
    16777216.0,
    3e38,
];

const EDGE_U: &[usize] = &[
    0,
    1,
    2,
    3,
    usize::MAX,
    usize::MAX - 1,
    usize::MAX / 2,
    usize::MAX / 2 + 1,
    u32::MAX as usize,
    1 << 32,
    64,
];

fn hf(r: &mut Rng) -> f32 {
    match r.below(3) {
        0 => *r.pick(EDGE_F),
        1 => f32::from_bits(r.u32()),
        _ => r.frange(-3.0, 3.0) as f32,
    }
}

fn hu(r: &mut Rng, n: usize) -> usize {
    match r.below(3) {
        0 => *r.pick(EDGE_U),
        _ => r.range(0, n + 2),
    }
}

fn h_logits(r: &mut Rng, tiny: bool) -> Logits {
    let n = size(r, if tiny { 8 } else { 300 });
    let kind = r.below(6);
    let v: Vec<f32> = match kind {
        0 => values(r, n, ANY),
        1 => {
            let x = *r.pick(EDGE_F);
            vec![x; n]
        }
        2 => (0..n).map(|_| *r.pick(EDGE_F)).collect(),
        3 => {
            let mut v = values(r, n, MILD);
            if n > 0 {
                for _ in 0..r.range(1, 3) {
                    let i = r.below(n);
                    v[i] = *r.pick(EDGE_F);
                }
            }
            v
        }
        4 => (0..n).map(|_| f32::from_bits(r.u32())).collect(),
        _ => values(r, n, MILD_BAN),
    };
    let mut l = from_values(&vec![0.0; n]);
    for (x, v) in l.iter_mut().zip(&v) {
        x.logit = *v;
    }
    match r.below(4) {
        0 => remap(r, &mut l),
        1 => {
            // Duplicated token ids.
            let m = r.range(1, 3) as u32;
            for x in l.iter_mut() {
                x.token_id %= m;
            }
        }
        _ => {}
    }
    // The flags are the caller's to set, truthful or not.
    match r.below(8) {
        0 => {
            l.set_sorted(true);
        }
        1 => {
            l.set_sorted(true).set_softmax(true);
        }
        2 => {
            l.set_softmax(true);
            for x in l.iter_mut() {
                x.prob = *r.pick(EDGE_F);
            }
        }
        3 => {
            let _ = l.ensure_softmax();
        }
        4 => {
            let _ = l.ensure_sorted();
        }
        _ => {}
    }
    l
}

fn h_sampler(r: &mut Rng, l: &Logits, n: usize, hist: usize) -> Any {
    match r.below(15) {
        0 => Any::TopK(SampleTopK::new(hu(r, n), hu(r, n))),
        1 => Any::TopP(SampleTopP::new(hf(r), hu(r, n))),
        2 => Any::MinP(SampleMinP::new(hf(r), hu(r, n))),
        3 => Any::TopA(SampleTopA::new(hf(r), hf(r), hu(r, n))),
        4 => Any::TailFree(SampleTailFree::new(hf(r), hu(r, n))),
        5 => Any::LocTyp(SampleLocallyTypical::new(hf(r), hu(r, n))),
        6 => Any::Temp(SampleTemperature::new(hf(r))),
        7 => Any::Rep(SampleRepetition::new(hf(r), hu(r, hist))),
        8 => Any::Freq(SampleFreqPresence::new(hf(r), hf(r), hu(r, hist))),
        9 => Any::Seq(SampleSeqRepetition::new(
            hf(r),
            hf(r),
            hu(r, 6),
            hu(r, 4),
            hu(r, 4),
            hu(r, hist),
        )),
        10 => Any::Bias(SampleFlatBias::new((0..r.below(4)).map(|_| {
            (
                if l.is_empty() || r.chance(0.2) { r.u32() } else { l[r.below(l.len())].token_id },
                hf(r),
            )
        }))),
        11 => Any::Greedy(SampleGreedy::new()),
        12 => Any::Rand(SampleRandDistrib::new()),
        13 => {
            let mut s = SampleMirostat1::new(hu(r, n), hf(r), hf(r)).m(hu(r, n));
            if r.chance(0.6) {
                s = s.mu(hf(r));
            }
            Any::Miro1(s)
        }
        _ => {
            let mut s = SampleMirostat2::new(hf(r), hf(r));
            if r.chance(0.6) {
                s = s.mu(hf(r));
            }
            Any::Miro2(s)
        }
    }
}

/// Resources that do unusual but permitted things.
#[derive(Debug)]
struct OddRes {
    inner: Res,
    mode: u8,
}

impl HasSamplerResources for OddRes {
    fn with_rng_mut(&mut self, f: &mut dyn FnMut(&mut dyn RngCore)) -> Result<(), SamplerError> {
        match self.mode {
            1 => Ok(()),
            2 => {
                self.inner.with_rng_mut(f)?;
                self.inner.with_rng_mut(f)
            }
            3 => {
                self.inner.with_rng_mut(f)?;
                Err(SamplerError::InternalError("late failure".into()))
            }
            _ => self.inner.with_rng_mut(f),
        }
    }
    fn with_last_tokens(&self, f: &mut dyn FnMut(&Vec<u32>)) -> Result<(), SamplerError> {
        match self.mode {
            1 => Ok(()),
            2 => {
                self.inner.with_last_tokens(f)?;
                self.inner.with_last_tokens(f)
            }
            3 => {
                self.inner.with_last_tokens(f)?;
                Err(SamplerError::InternalError("late failure".into()))
            }
            _ => self.inner.with_last_tokens(f),
        }
    }
}

fn h_history(r: &mut Rng, l: &Logits, tiny: bool) -> Vec<u32> {
    match r.below(5) {
        0 => vec![],
        1 => vec![*r.pick(&[0u32, 1, u32::MAX]); r.range(0, if tiny { 8 } else { 60 })],
        2 => {
            // Repeats with small changes.
            let k = r.range(1, 8);
            let unit: Vec<u32> = (0..k).map(|_| r.below(4) as u32).collect();
            let mut v: Vec<u32> = unit.iter().cycle().take(r.range(0, if tiny { 10 } else { 80 })).copied().collect();
            for _ in 0..r.below(4) {
                if !v.is_empty() {
                    let i = r.below(v.len());
                    v[i] = r.below(4) as u32;
                }
            }
            v
        }
        _ => history(r, l, if tiny { 8 } else { 60 }),
    }
}

fn c24_samplers(c: &mut Case) -> R {
    let mut l = h_logits(&mut c.rng, c.tiny);
    let r = &mut c.rng;
    let toks = h_history(r, &l, c.tiny);
    let stream = Stream::hostile(r);
    let mode = if r.chance(0.7) { 0 } else { r.below(4) as u8 };
    let mut res = OddRes {
        inner: Res::new(r.chance(0.9).then(|| stream), r.chance(0.9).then(|| toks.clone())),
        mode,
    };
    let n = l.len();
    let steps = r.range(1, 4);
    c.fp(&[hash_logits(&l), c.rng.clone().u64()]);
    c.nontrivial_if(n > 0);
    c.see_if(l.iter().any(|x| x.logit.is_nan()), "NaN present");
    c.see_if(l.iter().any(|x| x.logit == f32::INFINITY), "infinity present");
    c.see_if(n == 0, "empty");
    // Formatting floats is what takes the time under Miri.
    let fmt = !cfg!(miri) || c.rng.chance(0.05);
    let text = if fmt { show(&l) } else { String::new() };
    let mut names = vec![];
    if c.rng.chance(0.3) {
        // All in one chain.
        let mut chain = SamplerChain::new();
        for _ in 0..steps {
            let a = h_sampler(&mut c.rng, &l, n, toks.len());
            names.push(if fmt { format!("{a:?}") } else { a.kind().to_string() });
            let how = c.rng.below(3);
            a.push_to(&mut chain, how);
        }
        for _ in 0..2 {
            c.event();
            let got = chain.sample_token(&mut res, &mut l);
            c.see_if(got.is_err(), "error");
            if fmt {
                let _ = format!("{got:?} {:?} {:?}", chain, chain.sampled_token_id());
                if let Err(e) = &got {
                    let _ = e.to_string();
                }
            }
        }
    } else {
        for _ in 0..steps {
            let mut a = h_sampler(&mut c.rng, &l, n, toks.len());
            names.push(if fmt { format!("{a:?}") } else { a.kind().to_string() });
            c.see(a.kind());
            c.event();
            let got = a.run(&mut res, &mut l);
            c.see_if(got.is_err(), "error");
            c.see_if(got.is_ok(), "result");
            let got = got.map(|_| ());
            if fmt {
                let _ = format!("{got:?} {:?} {:?}", a, l);
                if let Err(e) = &got {
                    let _ = e.to_string();
                }
            }
            // The entries are still a subset of what the caller gave in size.
            ensure!(l.len() <= n, "{} entries became {}: {names:?} on {text}", n, l.len());
        }
    }
    c.desc(|| format!("{names:?} on {text}, history of {}", toks.len()));
    Ok(())
}

fn c24_construct(c: &mut Case) -> R {
    let r = &mut c.rng;
    let n = size(r, 2000);
    let v: Vec<f32> = (0..n).map(|_| hf(r)).collect();
    struct Odd<'a>(std::slice::Iter<'a, f32>, (usize, Option<usize>));
    impl Iterator for Odd<'_> {
        type Item = f32;
        fn next(&mut self) -> Option<f32> {
            self.0.next().copied()
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            self.1
        }
    }
    let hint = *r.pick(&[(0usize, None), (0, Some(usize::MAX)), (1, Some(1)), (0, Some(0))]);
    let k = hu(r, n);
    c.fp(&[n as u64, k as u64, c.rng.clone().u64()]);
    c.nontrivial_if(n > 0);
    c.desc(|| format!("n={n} k={k} hint={hint:?}"));
    c.event();
    let a = Logits::try_from_iter(Odd(v.iter(), hint));
    let b = Logits::try_from_iter_top_k(Odd(v.iter(), hint), k);
    let d = Logits::try_from(v.clone());
    let _ = format!("{:?} {:?}", a.as_ref().err(), d.as_ref().err());
    for l in [a, b, d].into_iter().flatten() {
        let mut l = l;
        let _ = l.ensure_sorted().is_ok();
        let _ = l.ensure_softmax().is_ok();
        let _ = l.ensure_sorted().is_ok();
    }
    Ok(())
}

fn c24_config(c: &mut Case) -> R {
    let r = &mut c.rng;
    let l = from_values(&[0.0, 1.0, 2.0]);
    let mut a = h_sampler(r, &l, 3, 8);
    let alphabet: Vec<char> = "=:=:  \t\n0123456789.-+einfNaANtruefalsyo_kmpzτ\u{0}\u{301}\u{1f600}\u{a0}\u{202e}".chars().collect();
    let keys: Vec<&str> = a.cref().sampler_metadata().options.iter().map(|o| o.key).collect();
    let n = r.range(0, 30);
    let mut s = String::new();
    for _ in 0..n {
        if !keys.is_empty() && r.chance(0.15) {
            s.push_str(keys[r.below(keys.len())]);
            s.push('=');
        } else if r.chance(0.05) {
            s.push_str(r.pick(&["18446744073709551615", "-inf", "1e999", "nan", "0x1", "4294967296"]));
            s.push(':');
        } else {
            s.push(*r.pick(&alphabet));
        }
    }
    if r.chance(0.02) {
        s = s.repeat(200);
    }
    c.fp(&[crate::rng::hash_str(&s)]);
    c.nontrivial_if(!keys.is_empty());
    c.desc(|| format!("{} {s:?}", a.kind()));
    c.event();
    let r = &mut c.rng;
    let x = a.cfg().configure(&s);
    let _ = format!("{:?}", x.as_ref().err());
    for t in [SamplerOptionType::UInt, SamplerOptionType::Float, SamplerOptionType::Bool, SamplerOptionType::String] {
        let v = SamplerOptionValue::parse_value(t, &s);
        if let Ok(v) = v {
            let _ = a.cfg().set_option(keys.first().copied().unwrap_or(&s), v);
        }
    }
    let _ = a.cref().get_option(&s).is_ok();
    let k = if keys.is_empty() { &s } else { keys[r.below(keys.len())] };
    let v = match r.below(4) {
        0 => SamplerOptionValue::UInt(*r.pick(EDGE_U) as u64),
        1 => SamplerOptionValue::Float(*r.pick(&[f64::NAN, f64::INFINITY, f64::MAX, -0.0, 1e-320, 3.5e38])),
        2 => SamplerOptionValue::Bool(true),
        _ => SamplerOptionValue::String("x".into()),
    };
    let _ = a.cfg().set_option(k, v).is_ok();
    // Through a slot.
    let proto = a.clone();
    let mut b = SamplerChainBuilder::<usize, f32>::default();
    b.push_slot("s".into(), SamplerSlot::new_single(move || proto.buildable(), None::<SampleTopK>));
    let _ = b.configure("s", &s).is_ok();
    let _ = b.configure(&s, "").is_ok();
    let _ = format!("{b:?}");
    // And it still samples.
    let mut res = Res::new(Some(Stream::random(r)), Some(vec![0, 1, 0, 1, 0, 1]));
    let mut l2 = l.clone();
    let _ = a.run(&mut res, &mut l2);
    let mut ch = b.into_chain();
    let mut l2 = l.clone();
    let _ = ch.sample_token(&mut res, &mut l2);
    Ok(())
}

/// Vocabulary-sized lists and long histories.
fn c24_big(c: &mut Case) -> R {
    let r = &mut c.rng;
    let n = if c.tiny { 50 } else { *r.pick(&[32_000usize, 50_257, 128_000, 200_000]) };
    let v = values(r, n, ANY);
    let mut l = from_values(&v);
    let hist: Vec<u32> = (0..if c.tiny { 20 } else { r.range(100, 1200) })
        .map(|_| r.below(if n > 1000 { 300 } else { 5 }) as u32)
        .collect();
    let mut res = Res::new(Some(Stream::random(r)), Some(hist.clone()));
    let a = any_sampler(r, &l, hist.len(), TAME);
    c.fp(&[hash_logits(&l), c.rng.clone().u64()]);
    c.nontrivial();
    c.desc(|| format!("{a:?} then a usual chain on n={n}, history of {}", hist.len()));
    c.event();
    let mut a = a;
    let _ = a.run(&mut res, &mut l);
    let mut chain = SamplerChain::new() + SampleSeqRepetition::new(0.1, 0.1, 3, 1, 2, 512);
    chain += SampleFreqPresence::new(0.1, 0.1, 256);
    chain += SampleTopK::new(1000, 1);
    chain += SampleTailFree::new(0.95, 1);
    chain += SampleLocallyTypical::new(0.9, 1);
    chain += SampleTopP::new(0.9, 1);
    chain += SampleMinP::new(0.01, 1);
    chain += SampleRandDistrib::new();
    let got = chain.sample_token(&mut res, &mut l);
    let _ = format!("{got:?}");
    Ok(())
}

pub fn c24() -> Prop {
    Prop {
        id: "C24",
        rule: "built-in samplers with arbitrary parameters (all bit patterns, NaN, extremes) one by one and in chains on arbitrary logits (NaN, infinities, duplicated ids, untruthful flags), histories, hostile random streams and odd resources; constructors; option strings; vocabulary-sized inputs; with overflow checks and debug assertions on, and again under Miri and AddressSanitizer; non-trivial: non-empty input",
        workloads: vec![
            Workload {
                name: "samplers",
                quick: 1_200_000,
                thorough: 48_000_000,
                f: c24_samplers,
                need: &["NaN present", "infinity present", "empty", "result"],
            },
            Workload { name: "construct", quick: 240_000, thorough: 9_600_000, f: c24_construct, need: &[] },
            Workload { name: "config", quick: 360_000, thorough: 14_400_000, f: c24_config, need: &[] },
            Workload { name: "big", quick: 120, thorough: 4_800, f: c24_big, need: &[] },
        ],
    }
}

// ---------------------------------------------------------------- C25

/// What a sampler needs for these logits; None where that is not settled by the statement.
fn needs(a: &Any, n: usize) -> Option<&'static str> {
    let f = |k: &str| opt_f(a, k);
    let u = |k: &str| match a.cref().get_option(k) {
        Ok(SamplerOptionValue::UInt(v)) => v,
        _ => 0,
    };
    if n == 0 {
        return if a.needs_rng() { Some("") } else { None };
    }
    Some(match a {
        Any::Rand(_) | Any::Miro2(_) => "rng",
        Any::Miro1(_) => {
            if u("m") == 0 {
                ""
            } else if u("n_vocab") == 0 {
                return None;
            } else {
                "rng"
            }
        }
        Any::Rep(_) => {
            if u("last_n") == 0 || f("penalty") <= 1.0 {
                ""
            } else {
                "last_tokens"
            }
        }
        Any::Freq(_) => {
            if u("last_n") == 0 || (f("frequency_penalty") == 0.0 && f("presence_penalty") == 0.0) {
                ""
            } else {
                "last_tokens"
            }
        }
        Any::Seq(_) => {
            if u("last_n") < u("min_length") || u("min_length") < 2 || (f("flat_penalty") == 0.0 && f("stacking_penalty") == 0.0) {
                ""
            } else {
                "last_tokens"
            }
        }
        _ => "",
    })
}

fn c25_missing(c: &mut Case) -> R {
    let r = &mut c.rng;
    let n = size(r, if c.tiny { 6 } else { 100 });
    let v = values(r, n, MILD);
    let (l0, _) = prep(r, &v);
    let toks = history(r, &l0, 16);
    let mut a = any_sampler(r, &l0, toks.len(), TAME_NEG);
    if r.chance(0.5) {
        a = match r.below(2) {
            0 => a_penalty(r, &l0, toks.len(), TAME),
            _ => a_select(r, n),
        };
    }
    // It may have selected something before.
    if a.needs_rng() && r.chance(0.6) {
        let mut res = Res::new(Some(Stream::random(r)), None);
        let mut l = from_values(&[0.1, 0.2, 0.3]);
        let _ = a.run(&mut res, &mut l);
    }
    let Some(need) = needs(&a, n) else { return Ok(()) };
    let (has_rng, has_toks) = (r.chance(0.4), r.chance(0.4));
    let how = r.below(3);
    let mut l = l0.clone();
    let before = a.clone();
    let st = a.state();
    c.fp(&[hash_logits(&l0), c.rng.clone().u64()]);
    c.nontrivial_if(n > 0);
    c.desc(|| format!("{before:?} with rng={has_rng} history={has_toks} on {}", show(&l0)));
    c.event();
    let stream = Stream::random(&mut c.rng);
    let mut kind = "counting";
    let got = match how {
        _ if has_rng || has_toks || how == 0 => {
            if c.rng.chance(0.5) {
                kind = "simple";
                let mut res = SimpleSamplerResources::new(
                    if has_rng { Some(Box::new(CountRng::new(stream))) } else { None },
                    has_toks.then(|| toks.clone()),
                );
                a.run(&mut res, &mut l)
            } else {
                let mut res = Res::new(has_rng.then(|| stream), has_toks.then(|| toks.clone()));
                a.run(&mut res, &mut l)
            }
        }
        1 => {
            kind = "()";
            a.run(&mut (), &mut l)
        }
        _ => {
            kind = "nil";
            a.run(&mut NilSamplerResources::new(), &mut l)
        }
    };
    let at = |e: String| format!("{before:?} with {kind} resources (random source {has_rng}, history {has_toks}) on {}: {e}", show(&l0));
    let missing = (need == "rng" && !has_rng) || (need == "last_tokens" && !has_toks);
    if !missing {
        c.see_if(need.is_empty() && !has_rng && !has_toks, "needed nothing");
        c.see_if(!need.is_empty(), "resource present");
        if let Err(e) = got {
            return Err(at(format!("failed although everything it needs is there: {e}")));
        }
        return Ok(());
    }
    c.see(if need == "rng" { "missing random source" } else { "missing history" });
    match &got {
        Err(SamplerError::MissingResource(s)) => {
            ensure!(s.contains(need), "{}", at(format!("the error names {s:?}, missing is {need:?}")))
        }
        other => return Err(at(format!("returned {other:?}, expected a missing-resource error for {need:?}"))),
    }
    ensure!(a.sref().sampled_token_id().is_none(), "{}", at(format!("still reports token {:?}", a.sref().sampled_token_id())));
    let now = a.state();
    ensure!(
        now[..now.len() - 1] == st[..st.len() - 1],
        "{}",
        at(format!("its state changed from {st:?} to {now:?}"))
    );
    subset_of(&l, &l0).map_err(at)?;
    if !a.filters() {
        ensure!(l.len() == l0.len(), "{}", at(format!("{} entries left", l.len())));
    }
    flags_truthful(&l).map_err(at)
}

/// A caller's own resources that have only one of the two, or fail in their own way.
#[derive(Debug)]
struct OnlyRng(CountRng);
impl HasSamplerResources for OnlyRng {
    fn with_rng_mut(&mut self, f: &mut dyn FnMut(&mut dyn RngCore)) -> Result<(), SamplerError> {
        f(&mut self.0);
        Ok(())
    }
}

#[derive(Debug)]
struct OnlyToks(Vec<u32>);
impl HasSamplerResources for OnlyToks {
    fn with_last_tokens(&self, f: &mut dyn FnMut(&Vec<u32>)) -> Result<(), SamplerError> {
        f(&self.0);
        Ok(())
    }
}

#[derive(Debug)]
struct Failing {
    kind: u8,
    id: u32,
    rng: Option<CountRng>,
    toks: Option<Vec<u32>>,
}
impl HasSamplerResources for Failing {
    fn with_rng_mut(&mut self, f: &mut dyn FnMut(&mut dyn RngCore)) -> Result<(), SamplerError> {
        match self.rng.as_mut() {
            Some(r) => {
                f(r);
                Ok(())
            }
            None => Err(super::chain::failure(self.kind, self.id)),
        }
    }
    fn with_last_tokens(&self, f: &mut dyn FnMut(&Vec<u32>)) -> Result<(), SamplerError> {
        match &self.toks {
            Some(t) => {
                f(t);
                Ok(())
            }
            None => Err(super::chain::failure(self.kind, self.id)),
        }
    }
}

/// Resources of the caller's own making: what they refuse comes back as they said it, alone or in a chain.
fn c25_own(c: &mut Case) -> R {
    let r = &mut c.rng;
    let n = size(r, if c.tiny { 6 } else { 60 });
    let v = values(r, n, MILD);
    let (l0, _) = prep(r, &v);
    let toks = history(r, &l0, 16);
    let mut a = if r.chance(0.5) { a_penalty(r, &l0, toks.len(), TAME) } else { a_select(r, n) };
    if a.needs_rng() && r.chance(0.6) {
        for _ in 0..r.range(1, 3) {
            let mut l = from_values(&[0.1, 0.2, 0.3]);
            let _ = a.run(&mut Res::new(Some(Stream::random(r)), None), &mut l);
        }
    }
    let Some(need) = needs(&a, n) else { return Ok(()) };
    let stream = Stream::random(r);
    let (has_rng, has_toks) = (r.chance(0.4), r.chance(0.4));
    let (kind, id) = (r.below(8) as u8, r.below(1000) as u32);
    let which = r.below(3);
    let mut res: Box<dyn HasSamplerResources> = match which {
        0 => Box::new(OnlyRng(CountRng::new(stream))),
        1 => Box::new(OnlyToks(toks.clone())),
        _ => Box::new(Failing {
            kind,
            id,
            rng: has_rng.then(|| CountRng::new(stream)),
            toks: has_toks.then(|| toks.clone()),
        }),
    };
    let (has_rng, has_toks) = match which {
        0 => (true, false),
        1 => (false, true),
        _ => (has_rng, has_toks),
    };
    let missing = (need == "rng" && !has_rng) || (need == "last_tokens" && !has_toks);
    c.fp(&[hash_logits(&l0), c.rng.clone().u64()]);
    c.nontrivial_if(missing);
    c.desc(|| format!("{a:?} with own resources {res:?} on {}", show(&l0)));
    let what = format!("{a:?} with own resources {res:?} on {}", show(&l0));
    let at = |e: String| format!("{what}: {e}");
    let st = a.state();
    let mut l = l0.clone();
    c.event();
    let route = c.rng.below(4);
    let (got, tok, after) = match route {
        0 => {
            let g = a.run(&mut *res, &mut l);
            (g, a.sref().sampled_token_id(), Some(a.state()))
        }
        1 => {
            let g = match &mut a {
                Any::Rand(s) => l.sample_token(&mut *res, s),
                Any::Miro1(s) => l.sample_token(&mut *res, s),
                Any::Miro2(s) => l.sample_token(&mut *res, s),
                a => a.run(&mut *res, &mut l),
            };
            (g, a.sref().sampled_token_id(), Some(a.state()))
        }
        2 => {
            let mut b = a.shared();
            let g = b.sample_token(&mut *res, &mut l);
            (g, b.sampled_token_id(), None)
        }
        _ => {
            let mut ch = SamplerChain::new() + SampleTemperature::new(1.0);
            a.push_to(&mut ch, 1);
            let g = ch.sample_token(&mut *res, &mut l);
            (g, ch.sampled_token_id(), None)
        }
    };
    c.see(["alone", "through the logits", "shared", "in a chain"][route]);
    if !missing {
        c.see("not refused");
        return got.map(|_| ()).map_err(|e| at(format!("failed although everything it needs is there: {e}")));
    }
    c.see(["only a random source", "only a history", "refused"][which]);
    if which == 2 {
        let want = format!("{:?}", super::chain::failure(kind, id));
        match &got {
            Err(e) if format!("{e:?}") == want => {}
            other => return Err(at(format!("returned {other:?}, the resource said {want}"))),
        }
    } else {
        match &got {
            Err(SamplerError::MissingResource(s)) if s.contains(need) => {}
            other => return Err(at(format!("returned {other:?}, expected a missing-resource error for {need:?}"))),
        }
    }
    ensure!(tok.is_none(), "{}", at(format!("still reports token {tok:?}")));
    if let Some(now) = after {
        ensure!(now[..now.len() - 1] == st[..st.len() - 1], "{}", at(format!("its state changed from {st:?} to {now:?}")));
    }
    subset_of(&l, &l0).map_err(at)?;
    ensure!(
        a.filters() || l.len() == l0.len(),
        "{}",
        at(format!("{} entries left", l.len()))
    );
    flags_truthful(&l).map_err(at)
}

/// Provided resources are passed through, not modified, and randomness is drawn by chance selection only.
fn c25_through(c: &mut Case) -> R {
    let r = &mut c.rng;
    let n = size(r, if c.tiny { 6 } else { 100 });
    let v = values(r, n, MILD);
    let (mut l, _) = prep(r, &v);
    let mut toks = history(r, &l, 16);
    if !c.tiny && r.chance(0.004) {
        let n = *r.pick(&[300usize, 1025, 2049, 5000, 40_000, 70_000]);
        toks = (0..n).map(|_| if l.is_empty() || r.chance(0.3) { r.u32() } else { l[r.below(l.len())].token_id }).collect();
    }
    let stream = Stream::random(r);
    c.see_if(toks.len() > 1 << 16, "long history");
    let mut reference = CountRng::new(stream.clone());
    let mut simple = SimpleSamplerResources::new(Some(Box::new(CountRng::new(stream.clone()))), Some(toks.clone()));
    let mut counting = Res::new(Some(stream), Some(toks.clone()));
    c.fp(&[hash_logits(&l), c.rng.clone().u64()]);
    c.nontrivial();
    c.desc(|| format!("history {toks:?} on {}", show(&l)));
    for _ in 0..c.rng.range(1, 5) {
        match c.rng.below(5) {
            0 => {
                let x = c.rng.u32();
                let wipe = c.rng.chance(0.1);
                let mut calls = 0;
                simple
                    .with_last_tokens_mut(&mut |t| {
                        calls += 1;
                        if wipe {
                            t.clear()
                        }
                        t.push(x)
                    })
                    .map_err(|e| format!("history is there, yet: {e}"))?;
                ensure!(calls == 1, "with_last_tokens_mut called its function {calls} times");
                if wipe {
                    toks.clear();
                }
                toks.push(x);
                counting.toks = Some(toks.clone());
                c.see("history written");
            }
            1 => {
                let (mut got, mut calls) = (0, 0);
                simple
                    .with_rng_mut(&mut |r| {
                        calls += 1;
                        got = r.next_u64()
                    })
                    .map_err(|e| format!("a random source is there, yet: {e}"))?;
                let want = reference.next_u64();
                ensure!(calls == 1 && got == want, "the random source gave {got:#x}, its next number is {want:#x}");
                if let Some(x) = counting.rng.as_mut() {
                    x.next_u64();
                }
                c.see("random source used directly");
            }
            _ => {
                let mut a = any_sampler(&mut c.rng, &l, toks.len(), TAME_NEG);
                if toks.len() > 2000 && matches!(a, Any::Seq(_)) {
                    // Takes time cubic in the history.
                    continue;
                }
                let chance = a.needs_rng() && !l.is_empty();
                let d0 = counting.draws();
                let mut b = a.clone();
                let mut l2 = l.clone();
                c.event();
                let x = a.run(&mut counting, &mut l).map_err(|e| e.to_string());
                let y = b.run(&mut simple, &mut l2).map_err(|e| e.to_string());
                ensure!(x == y, "{a:?}: {x:?} with one kind of resources, {y:?} with the other");
                same_all(&l, &l2).map_err(|e| format!("{a:?}: differs between kinds of resources: {e}"))?;
                let d = counting.draws() - d0;
                ensure!(chance || d == 0, "{a:?} consumed randomness ({d} draws) without selecting by chance");
                c.see_if(chance, "selection by chance");
                c.see_if(!chance, "no chance involved");
                ensure!(counting.toks.as_ref() == Some(&toks), "{a:?} modified the history");
                ensure!(counting.muts == 0, "{a:?} asked for write access to the history");
                while reference.draws < counting.draws() {
                    reference.next_u64();
                }
                if l.iter().any(|x| !x.logit.is_finite()) {
                    break;
                }
            }
        }
        let (mut seen, mut calls) = (None, 0);
        simple
            .with_last_tokens(&mut |t| {
                calls += 1;
                seen = Some(t.clone())
            })
            .map_err(|e| format!("history is there, yet: {e}"))?;
        ensure!(calls == 1 && seen.as_ref() == Some(&toks), "history reads {seen:?}, it is {toks:?}");
    }
    // Whatever is absent is reported by name.
    let _ = format!("{simple:?}");
    let mut none: Box<dyn HasSamplerResources> = match c.rng.below(3) {
        0 => Box::new(SimpleSamplerResources::new(None, None)),
        1 => Box::new(()),
        _ => Box::new(NilSamplerResources::new()),
    };
    let e1 = none.with_rng_mut(&mut |_| ()).err().map(|e| e.to_string()).unwrap_or_default();
    let e2 = none.with_last_tokens(&mut |_| ()).err().map(|e| e.to_string()).unwrap_or_default();
    let e3 = none.with_last_tokens_mut(&mut |_| ()).err().map(|e| e.to_string()).unwrap_or_default();
    ensure!(
        e1.contains("rng") && e2.contains("last_tokens") && e3.contains("last_tokens"),
        "absent resources give {e1:?}, {e2:?}, {e3:?}"
    );
    Ok(())
}

pub fn c25() -> Prop {
    Prop {
        id: "C25",
        rule: "every built-in sampler with every combination of present and absent resources of four kinds, including settings that need none; resources of a caller's own making that refuse with every kind of error, met alone, boxed and in chains; sequences of direct resource use and sampling with two kinds of resources compared; non-trivial: non-empty logits",
        workloads: vec![
            Workload {
                name: "missing",
                quick: 3_000_000,
                thorough: 120_000_000,
                f: c25_missing,
                need: &["missing random source", "missing history", "needed nothing", "resource present"],
            },
            Workload {
                name: "own",
                quick: 1_500_000,
                thorough: 60_000_000,
                f: c25_own,
                need: &["only a random source", "only a history", "refused", "not refused", "alone", "through the logits", "shared", "in a chain"],
            },
            Workload {
                name: "through",
                quick: 900_000,
                thorough: 36_000_000,
                f: c25_through,
                need: &["history written", "random source used directly", "selection by chance", "no chance involved"],
            },
        ],
    }
}

// ---------------------------------------------------------------- C26

fn c26_logits(r: &mut Rng, tiny: bool) -> Logits {
    let n = size(r, if tiny { 6 } else { 120 });
    let v = values(r, n, MILD_BAN);
    prep(r, &v).0
}

type Seen = Vec<(Logits, Result<Option<u32>, String>)>;

fn play(chain: &mut dyn Sampler, res: &mut Res, inputs: &[Logits]) -> Seen {
    inputs
        .iter()
        .map(|l| {
            let mut l = l.clone();
            let r = chain.sample_token(res, &mut l).map_err(|e| e.to_string());
            (l, r)
        })
        .collect()
}

fn compare(a: &Seen, b: &Seen) -> R {
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        ensure!(x.1 == y.1, "call {i}: {:?} / {:?}", x.1, y.1);
        same_all(&x.0, &y.0).map_err(|e| format!("call {i}: {e}"))?;
    }
    Ok(())
}

/// Two equal runs, one of them possibly in another thread, with other work in between.
fn c26_twin(c: &mut Case) -> R {
    let tiny = c.tiny;
    let r = &mut c.rng;
    let inputs: Vec<Logits> = (0..r.range(1, 4)).map(|_| c26_logits(r, tiny)).collect();
    let toks = history(r, &inputs[0], 40);
    let insts: Vec<Any> = (0..r.range(1, 4)).map(|_| any_sampler(r, &inputs[0], toks.len(), TAME_NEG)).collect();
    let stream = Stream::random(r);
    let other_thread = r.chance(0.05) && !c.tiny;
    let noise = c26_logits(r, tiny);
    let noisy: Vec<Any> = (0..2).map(|_| any_sampler(r, &noise, 5, TAME)).collect();
    c.fp(&[hash_logits(&inputs[0]), c.rng.clone().u64()]);
    c.nontrivial_if(inputs.iter().any(|l| l.len() > 1));
    c.desc(|| format!("{insts:?} on {}", show(&inputs[0])));
    c.see_if(other_thread, "second run in a new thread");
    let run = |noise_between: bool| -> (Seen, Vec<Vec<String>>, u64) {
        let mut insts = insts.clone();
        let mut res = Res::new(Some(stream.clone()), Some(toks.clone()));
        let mut seen: Seen = vec![];
        for l in &inputs {
            let mut l = l.clone();
            let mut out = Ok(None);
            for a in insts.iter_mut() {
                if noise_between {
                    let mut nl = noise.clone();
                    let mut nres = Res::new(Some(Stream::Const(99)), Some(vec![1, 2, 1, 2]));
                    for b in &noisy {
                        let _ = b.clone().run(&mut nres, &mut nl);
                    }
                }
                out = a.run(&mut res, &mut l).map_err(|e| e.to_string());
                if out.is_err() {
                    break;
                }
            }
            seen.push((l, out));
        }
        (seen, insts.iter().map(|a| a.state()).collect(), res.draws())
    };
    let a = run(false);
    let b = if other_thread {
        std::thread::scope(|s| s.spawn(|| run(true)).join()).map_err(|_| "panicked in another thread".to_string())?
    } else {
        run(true)
    };
    c.event();
    compare(&a.0, &b.0).map_err(|e| format!("two equal runs of {insts:?} differ: {e}; input {}", show(&inputs[0])))?;
    ensure!(a.1 == b.1, "two equal runs end in different states: {:?} / {:?}", a.1, b.1);
    ensure!(a.2 == b.2, "two equal runs consume different amounts of randomness: {} / {}", a.2, b.2);
    Ok(())
}

/// A used sampler without learning state is as good as new.
fn c26_reuse(c: &mut Case) -> R {
    let tiny = c.tiny;
    let r = &mut c.rng;
    let target = c26_logits(r, tiny);
    let toks = history(r, &target, 30);
    let a = loop {
        let a = any_sampler(r, &target, toks.len(), TAME_NEG);
        if !matches!(a, Any::Miro1(_) | Any::Miro2(_)) {
            break a;
        }
    };
    let mut used = a.clone();
    c.fp(&[hash_logits(&target), c.rng.clone().u64()]);
    c.nontrivial_if(target.len() > 1);
    c.desc(|| format!("{a:?} on {}", show(&target)));
    c.see(a.kind());
    let calls = if tiny { 2 } else { match c.rng.below(50_000) {
        0..=1 => 70_000,
        2..=50 => 300,
        _ => c.rng.range(1, 4),
    } };
    c.see_if(calls > 4, "used for long before");
    for _ in 0..calls {
        // Anything, including what makes it fail.
        let r = &mut c.rng;
        let mut l = c26_logits(r, tiny || calls > 4);
        let nan = r.chance(0.2);
        if nan {
            for x in l.iter_mut() {
                x.logit = f32::NAN;
            }
            l.set_sorted(false).set_softmax(false);
        }
        let h = history(r, &l, 30);
        let mut res = Res::new(
            r.chance(0.8).then(|| Stream::random(r)),
            r.chance(0.8).then(|| h),
        );
        let got = used.run(&mut res, &mut l);
        c.see_if(got.is_err(), "failed before");
        c.see_if(l.is_empty(), "empty before");
    }
    let stream = Stream::random(&mut c.rng);
    let mut fresh = a.clone();
    let (no_rng, no_toks) = (c.rng.chance(0.15), c.rng.chance(0.1));
    let mk = || Res::new((!no_rng).then(|| stream.clone()), (!no_toks).then(|| toks.clone()));
    let (mut ra, mut rb) = (mk(), mk());
    let (mut la, mut lb) = (target.clone(), target.clone());
    c.event();
    let x = used.run(&mut ra, &mut la).map_err(|e| e.to_string());
    let y = fresh.run(&mut rb, &mut lb).map_err(|e| e.to_string());
    let at = |e: String| format!("{a:?}, used before / new, on {}: {e}", show(&target));
    c.see_if(y.is_err(), "failing after use");
    c.see_if(target.is_empty(), "empty after use");
    ensure!(x == y, "{}", at(format!("{x:?} / {y:?}")));
    same_all(&la, &lb).map_err(at)?;
    ensure!(used.state() == fresh.state(), "{}", at(format!("states {:?} / {:?}", used.state(), fresh.state())));
    ensure!(ra.draws() == rb.draws() && ra.reads.get() == rb.reads.get(), "{}", at("resources used differently".into()));
    Ok(())
}

/// A sampler without learning state is as good as new on every one of very many calls.
fn c26_endurance(c: &mut Case) -> R {
    let tiny = c.tiny;
    let r = &mut c.rng;
    let probe = from_values(&[1.0, 2.0, 0.5, 0.25, -1.0]);
    let a = loop {
        let a = any_sampler(r, &probe, 10, TAME_NEG);
        if !matches!(a, Any::Miro1(_) | Any::Miro2(_)) {
            break a;
        }
    };
    let mut used = a.clone();
    c.fp(&[c.rng.clone().u64()]);
    c.nontrivial();
    c.desc(|| format!("{a:?}"));
    c.see(a.kind());
    let calls = if tiny { 3 } else { 66_000 };
    let mut toks: Vec<u32> = vec![];
    for call in 0..calls {
        let r = &mut c.rng;
        let n = r.range(1, 5);
        let l = from_values(&(0..n).map(|_| r.range(0, 40) as f32 / 8.0 - 2.0).collect::<Vec<_>>());
        if toks.len() > 12 {
            toks.drain(..5);
        }
        toks.push(r.below(5) as u32);
        let stream = Stream::random(r);
        let mk = || Res::new(Some(stream.clone()), Some(toks.clone()));
        let (mut ra, mut rb, mut la, mut lb) = (mk(), mk(), l.clone(), l.clone());
        let mut fresh = a.clone();
        let x = used.run(&mut ra, &mut la).map_err(|e| e.to_string());
        let y = fresh.run(&mut rb, &mut lb).map_err(|e| e.to_string());
        let at = |e: String| format!("call {call} of {a:?} / the first of a new one, on {} with history {toks:?}: {e}", show(&l));
        ensure!(x == y, "{}", at(format!("{x:?} / {y:?}")));
        same_all(&la, &lb).map_err(at)?;
        ensure!(ra.draws() == rb.draws(), "{}", at("resources used differently".into()));
    }
    c.st_events(calls as u64);
    Ok(())
}

/// A learning sampler that cannot pick reports nothing, in particular no token of an earlier call.
fn c26_no_pick(c: &mut Case) -> R {
    let tiny = c.tiny;
    let r = &mut c.rng;
    let mut a = if r.chance(0.5) { a_miro1(r, 20) } else { a_miro2(r) };
    let mut res = Res::new(Some(Stream::random(r)), None);
    c.see(a.kind());
    let mut picked = false;
    for _ in 0..c.rng.range(1, 4) {
        let mut l = c26_logits(&mut c.rng, tiny);
        picked |= matches!(a.run(&mut res, &mut l), Ok(Some(_)));
    }
    let empty = c.rng.chance(0.5);
    let mut l = if empty { Logits::default() } else { c26_logits(&mut c.rng, tiny) };
    if empty && c.rng.chance(0.5) {
        l.set_sorted(true).set_softmax(c.rng.chance(0.5));
    }
    let mut none = Res::none();
    c.fp(&[hash_logits(&l), c.rng.clone().u64()]);
    c.nontrivial_if(picked);
    c.see_if(empty && picked, "empty after a pick");
    c.see_if(!l.is_empty() && picked, "failed after a pick");
    c.desc(|| format!("{a:?} on {}", show(&l)));
    let text = show(&l);
    c.event();
    let got = if c.rng.chance(0.5) {
        a.run(if l.is_empty() { &mut res } else { &mut none }, &mut l)
    } else {
        let mut ch = SamplerChain::new();
        a.push_to(&mut ch, 0);
        let g = ch.sample_token(if l.is_empty() { &mut res } else { &mut none }, &mut l);
        let g2 = a.run(if l.is_empty() { &mut res } else { &mut none }, &mut l);
        ensure!(g.as_ref().ok() == g2.as_ref().ok(), "in a chain {g:?}, alone {g2:?}: {a:?} on {text}");
        ensure!(ch.sampled_token_id().is_none(), "the chain reports token {:?} of an earlier call: {a:?} on {text}", ch.sampled_token_id());
        g
    };
    ensure!(!matches!(got, Ok(Some(_))), "reports {got:?} without having picked: {a:?} on {text}");
    let t = a.sref().sampled_token_id();
    ensure!(t.is_none(), "still reports token {t:?} of an earlier call: {a:?} on {text}");
    Ok(())
}

/// A clone behaves as its original would, and neither affects the other.
fn c26_clone(c: &mut Case) -> R {
    let tiny = c.tiny;
    let r = &mut c.rng;
    let pre: Vec<Logits> = (0..r.range(0, 3)).map(|_| c26_logits(r, tiny)).collect();
    let post: Vec<Logits> = (0..r.range(1, 3)).map(|_| c26_logits(r, tiny)).collect();
    let toks = history(r, &post[0], 30);
    let mut a = if r.chance(0.4) {
        if r.chance(0.5) {
            a_miro1(r, 20)
        } else {
            a_miro2(r)
        }
    } else {
        any_sampler(r, &post[0], toks.len(), TAME_NEG)
    };
    let mut res = Res::new(Some(Stream::random(r)), Some(toks.clone()));
    for l in &pre {
        let mut l = l.clone();
        let _ = a.run(&mut res, &mut l);
    }
    c.fp(&[hash_logits(&post[0]), c.rng.clone().u64()]);
    c.nontrivial_if(post.iter().any(|l| l.len() > 1));
    c.desc(|| format!("{a:?} on {}", show(&post[0])));
    c.see(a.kind());
    let st = a.state();
    let mut b = a.clone();
    ensure!(b.state() == st, "a clone of {st:?} has state {:?}", b.state());
    let stream = Stream::random(&mut c.rng);
    let mk = || Res::new(Some(stream.clone()), Some(toks.clone()));
    c.event();
    let (mut ra, mut rb) = (mk(), mk());
    let sb = play(b.s(), &mut rb, &post);
    ensure!(a.state() == st, "running a clone changed the original from {st:?} to {:?}", a.state());
    let sa = play(a.s(), &mut ra, &post);
    compare(&sa, &sb).map_err(|e| format!("a clone of {st:?} behaves differently: original / clone: {e} on {}", show(&post[0])))?;
    ensure!(a.state() == b.state(), "original ends as {:?}, clone as {:?}", a.state(), b.state());
    // Cloned logits are independent as well.
    let l = post[0].clone();
    let copy = l.clone();
    let mut l2 = l.clone();
    let _ = a.run(&mut ra, &mut l2);
    same_all(&l, &copy).map_err(|e| format!("sampling a clone of logits changed the original: {e}"))
}

/// A chain used before gives what a new one does (no learning samplers in it).
fn c26_chain(c: &mut Case) -> R {
    let tiny = c.tiny;
    let r = &mut c.rng;
    let target = c26_logits(r, tiny);
    let toks = history(r, &target, 30);
    let insts: Vec<Any> = (0..r.range(1, 4))
        .map(|_| loop {
            let a = any_sampler(r, &target, toks.len(), TAME);
            if !matches!(a, Any::Miro1(_) | Any::Miro2(_)) {
                return a;
            }
        })
        .collect();
    let mk_chain = || {
        let mut ch = SamplerChain::new();
        for a in &insts {
            a.push_to(&mut ch, 0);
        }
        ch
    };
    let (mut used, mut fresh) = (mk_chain(), mk_chain());
    let before: Vec<Logits> = (0..r.range(1, 3)).map(|_| c26_logits(r, tiny)).collect();
    let mut res0 = Res::new(r.chance(0.7).then(|| Stream::random(r)), r.chance(0.7).then(|| toks.clone()));
    let pre = play(&mut used, &mut res0, &before);
    c.see_if(pre.iter().any(|x| x.1.is_err()), "chain failed before");
    let stream = Stream::random(&mut c.rng);
    let (no_rng, no_toks) = (c.rng.chance(0.1), c.rng.chance(0.1));
    let mk = || Res::new((!no_rng).then(|| stream.clone()), (!no_toks).then(|| toks.clone()));
    let (mut ra, mut rb) = (mk(), mk());
    c.fp(&[hash_logits(&target), c.rng.clone().u64()]);
    c.nontrivial_if(target.len() > 1);
    c.desc(|| format!("{insts:?} on {}", show(&target)));
    c.event();
    let x = play(&mut used, &mut ra, std::slice::from_ref(&target));
    let y = play(&mut fresh, &mut rb, std::slice::from_ref(&target));
    compare(&x, &y).map_err(|e| format!("chain of {insts:?}, used before / new: {e}; on {}", show(&target)))?;
    c.see_if(x[0].1.is_err(), "chain fails after use");
    ensure!(
        used.sampled_token_id() == fresh.sampled_token_id(),
        "used chain reports token {:?}, a new one {:?} ({insts:?}, result {:?})",
        used.sampled_token_id(),
        fresh.sampled_token_id(),
        x[0].1
    );
    ensure!(ra.draws() == rb.draws(), "used and new chain consume different amounts of randomness");
    // A shared handle is the same sampler, not a copy.
    let sh: Arc<Mutex<dyn Sampler>> = Arc::new(Mutex::new(SampleGreedy::new()));
    let (mut h1, h2) = (sh.clone(), sh);
    if !target.is_empty() {
        let t = h1.sample_token(&mut (), &mut target.clone()).map_err(|e| e.to_string())?;
        ensure!(h2.sampled_token_id() == t, "two handles of one shared sampler disagree");
    }
    Ok(())
}

/// The same work done twice, with something that looks almost the same in between: what was
/// computed for the look-alike (or for the very same buffer, before it changed) must not be used.
fn c26_alike(c: &mut Case) -> R {
    let tiny = c.tiny;
    let r = &mut c.rng;
    let big = !tiny && r.chance(0.03);
    let n = if big { r.range(60, 400) } else { r.range(2, if tiny { 6 } else { 40 }) };
    let v = values(r, n, MILD_BAN);
    let (a, p) = prep(r, &v);
    let toks = history(r, &a, 40);
    // The look-alike: same length, ids and ends, different in the middle.
    let mut b = a.clone();
    let mut toks2 = toks.clone();
    let mut ends_equal = false;
    let n = b.len();
    let how = r.below(8);
    match how {
        // Probability moved between two entries that are neither first nor last in rank.
        6 | 7 if n >= 4 => {
            let mut rank: Vec<usize> = (0..n).collect();
            rank.sort_by(|x, y| b[*y].logit.total_cmp(&b[*x].logit));
            let (hi, lo) = (b[rank[0]].logit as f64, b[rank[n - 1]].logit as f64);
            // Of two sizable ones, mostly.
            let top = if r.chance(0.7) { 5.min(n - 2) } else { n - 2 };
            let (i, j) = (rank[r.range(1, top)], rank[r.range(1, n - 2)]);
            let total = (b[i].logit as f64 - hi).exp() + (b[j].logit as f64 - hi).exp();
            let t = r.frange(0.02, 0.98);
            let (x, y) = ((total * t).ln() + hi, (total * (1.0 - t)).ln() + hi);
            if i != j && lo.is_finite() && x.min(y) > lo && x.max(y) < hi {
                b[i].logit = x as f32;
                b[j].logit = y as f32;
                if a.get_sorted() {
                    b.sort_by(|x, y| y.logit.total_cmp(&x.logit));
                    b.set_sorted(true);
                }
                let (mut x, mut y) = (a.clone(), b.clone());
                let _ = (x.set_softmax(false).ensure_softmax().is_ok(), y.set_softmax(false).ensure_softmax().is_ok());
                let ends = |l: &Logits| (l[0].prob.to_bits(), l[n - 1].prob.to_bits());
                ends_equal = ends(&x) == ends(&y) && x.iter().zip(y.iter()).any(|(x, y)| (x.prob - y.prob).abs() > 0.01);
            }
        }
        // Mass moved between two entries in the middle (and the order kept, where there was one).
        0 | 1 if n >= 4 => {
            let i = r.range(1, n - 3);
            let j = if how == 0 { i + 1 } else { r.range(i + 1, n - 2) };
            if a.get_sorted() {
                // Values between their neighbours.
                let (hi, lo) = (b[i - 1].logit, b[j + 1].logit);
                let m = hi.min(b[i].logit) * 0.5 + lo.max(b[j].logit) * 0.5;
                if m.is_finite() {
                    for x in b[i..=j].iter_mut() {
                        x.logit = m
                    }
                }
            } else {
                let (x, y) = (b[i].logit, b[j].logit);
                b[i].logit = y;
                b[j].logit = x;
            }
        }
        // Two tokens change places.
        2 if n >= 2 => {
            let (i, j) = (r.below(n), r.below(n));
            let (x, y) = (b[i].token_id, b[j].token_id);
            b[i].token_id = y;
            b[j].token_id = x;
        }
        // All values but the ends.
        3 if n >= 3 => {
            if a.get_sorted() {
                let (hi, lo) = (b[0].logit, b[n - 1].logit);
                if hi.is_finite() && lo.is_finite() {
                    let t = r.frange(0.0, 1.0) as f32;
                    let m = hi * t + lo * (1.0 - t);
                    for x in b[1..n - 1].iter_mut() {
                        x.logit = m.clamp(lo, hi)
                    }
                }
            } else {
                let w = values(r, n, MILD);
                for i in 1..n - 1 {
                    b[i].logit = w[i]
                }
            }
        }
        // A history of the same length and with the same ends.
        4 => {
            let m = toks2.len();
            if m > 2 {
                for _ in 0..r.range(1, 3) {
                    toks2[r.range(1, m - 2)] = a[r.below(n)].token_id
                }
            }
        }
        // One value by the smallest amount.
        _ => {
            let i = r.below(n);
            let x = b[i].logit;
            if x.is_finite() && x != 0.0 && !a.get_sorted() {
                b[i].logit = f32::from_bits(x.to_bits() + 1);
            }
        }
    }
    if a.get_softmax() {
        b.set_softmax(false);
        let _ = b.ensure_softmax();
    }
    let s = loop {
        let s = if how >= 6 && r.chance(0.3) { Any::Rand(SampleRandDistrib::new()) } else { any_sampler(r, &a, toks.len(), TAME_NEG) };
        if !matches!(s, Any::Miro1(_) | Any::Miro2(_)) {
            break s;
        }
    };
    let in_place = r.chance(0.5);
    let stream = Stream::random(r);
    c.fp(&[hash_logits(&a), hash_logits(&b), c.rng.clone().u64()]);
    c.nontrivial();
    c.desc(|| format!("{s:?}, {p:?}, history {toks:?} then {toks2:?}, {} then {}", show(&a), show(&b)));
    c.see(s.kind());
    c.see_if(in_place, "in one buffer");
    c.see_if(ends_equal, "first and last probability equal");
    c.see_if(how == 4 && toks != toks2, "other history");
    c.see_if(how != 4 && !same_all(&a, &b).is_ok(), "other logits");
    // Reference runs on look-alike and original, each by an instance of its own.
    let (mut one, mut two, mut shared) = (s.clone(), s.clone(), s.clone());
    let mut go = |x: &mut Any, l: &mut Logits, t: &[u32]| -> (Result<Option<u32>, String>, u64) {
        let mut res = Res::new(Some(stream.clone()), Some(t.to_vec()));
        c.event();
        let got = x.run(&mut res, l).map_err(|e| e.to_string());
        (got, res.draws())
    };
    let mut la = a.clone();
    let ra = go(&mut one, &mut la, &toks);
    let mut lb = b.clone();
    let rb = go(&mut two, &mut lb, &toks2);
    // Now one instance, alternating, in reverse order; the buffer may be the same one throughout.
    let mut buf = b.clone();
    for (i, (src, t, want, wl)) in
        [(&b, &toks2, &rb, &lb), (&a, &toks, &ra, &la), (&b, &toks2, &rb, &lb), (&a, &toks, &ra, &la)].into_iter().enumerate()
    {
        if in_place && buf.len() == src.len() {
            for (x, y) in buf.iter_mut().zip(src.iter()) {
                *x = y.clone();
            }
            buf.set_sorted(src.get_sorted()).set_softmax(src.get_softmax());
        } else {
            buf = src.clone();
        }
        let got = go(&mut shared, &mut buf, t);
        ensure!(
            got == *want,
            "{s:?}: call {i} alternating between look-alikes gives {got:?}, alone {want:?}; on {} with history {t:?}",
            show(src)
        );
        same_all(&buf, wl).map_err(|e| format!("{s:?}: call {i} alternating between look-alikes: {e}; on {} with history {t:?}", show(src)))?;
    }
    Ok(())
}

pub fn c26() -> Prop {
    Prop {
        id: "C26",
        rule: "pairs of executions that must agree bit for bit: equal runs (one with unrelated sampling in between or in a new thread), used against new samplers and chains (after failed, empty and NaN calls), clones against originals, one sampler alternating between look-alike inputs (same length, ids, ends; also in one buffer) against new ones; non-trivial: logits with at least two entries",
        workloads: vec![
            Workload { name: "twin", quick: 370_000, thorough: 14_800_000, f: c26_twin, need: &["second run in a new thread"] },
            Workload { name: "reuse", quick: 620_000, thorough: 24_800_000, f: c26_reuse, need: &["failed before", "empty before", "used for long before"] },
            Workload { name: "endurance", quick: 120, thorough: 4_000, f: c26_endurance, need: &[] },
            Workload {
                name: "no-pick",
                quick: 300_000,
                thorough: 12_000_000,
                f: c26_no_pick,
                need: &["empty after a pick", "failed after a pick", "miro1", "miro2"],
            },
            Workload { name: "clone", quick: 500_000, thorough: 20_000_000, f: c26_clone, need: &["miro1", "miro2"] },
            Workload { name: "chain", quick: 370_000, thorough: 14_800_000, f: c26_chain, need: &["chain failed before"] },
            Workload {
                name: "alike",
                quick: 500_000,
                thorough: 20_000_000,
                f: c26_alike,
                need: &["in one buffer", "other history", "other logits", "first and last probability equal"],
            },
        ],
    }
}
