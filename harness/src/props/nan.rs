//! C30 values without an order or a softmax are refused instead of being ranked or picked.

use crate::core::*;
use crate::gen::*;
use crate::rng::Rng;
use llm_samplers::prelude::*;

fn nan(r: &mut Rng) -> f32 {
    f32::from_bits(*r.pick(&[0x7fc0_0000u32, 0xffc0_0000, 0x7fc0_0001, 0xffff_ffff, 0x7f80_0001, 0xff80_0001]))
}

/// Entry-for-entry identity of ids and values, in order.
fn same_entries(a: &[Logit], b: &[Logit]) -> R {
    ensure!(a.len() == b.len(), "{} entries, then {}", a.len(), b.len());
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        ensure!(x.token_id == y.token_id && x.logit.to_bits() == y.logit.to_bits(), "entry {i} was {x:?}, then {y:?}");
    }
    Ok(())
}

/// The same entries in any order.
fn same_set(a: &[Logit], b: &[Logit]) -> R {
    let key = |l: &[Logit]| {
        let mut v: Vec<(u32, u32)> = l.iter().map(|x| (x.token_id, x.logit.to_bits())).collect();
        v.sort();
        v
    };
    ensure!(key(a) == key(b), "entries {} became {}", show(a), show(b));
    Ok(())
}

/// Put NaN into logits the way a caller, or an earlier sampler, would.
fn spoil(c: &mut Case, l: &mut Logits) {
    let n = l.len();
    let r = &mut c.rng;
    let how = r.below(4);
    let mut kind = "NaN written";
    // A bias list is searched for every entry.
    let many = if r.chance(0.6) { 1 } else { r.range(1, n.min(150)) };
    let places: Vec<usize> = (0..many)
        .map(|_| match r.below(4) {
            0 => 0,
            1 => n - 1,
            _ => r.below(n),
        })
        .collect();
    match how {
        0 => {
            // A ban lifted with an infinite bias.
            kind = "NaN from a bias";
            let ids: Vec<(u32, f32)> = places.iter().map(|i| (l[*i].token_id, f32::NEG_INFINITY)).collect();
            let back: Vec<(u32, f32)> = ids.iter().map(|x| (x.0, f32::INFINITY)).collect();
            let _ = SampleFlatBias::new(ids).sample(&mut (), l);
            let _ = SampleFlatBias::new(back).sample(&mut (), l);
        }
        1 => {
            // An infinite penalty on a zero.
            kind = "NaN from a penalty";
            for i in &places {
                l[*i].logit = 0.0;
            }
            l.set_sorted(false).set_softmax(false);
            let ids = places.iter().map(|i| l[*i].token_id).collect();
            let mut res = Res::new(None, Some(ids));
            let _ = SampleRepetition::new(f32::INFINITY, usize::MAX).sample(&mut res, l);
        }
        _ => {
            for i in places {
                l[i].logit = nan(r);
            }
            l.set_sorted(false).set_softmax(false);
        }
    }
    c.see(kind);
}

/// Logits containing NaN, not claimed to be sorted.
fn c30_nan(c: &mut Case) -> R {
    one_nan(c, false)
}

fn c30_large(c: &mut Case) -> R {
    one_nan(c, true)
}

fn one_nan(c: &mut Case, large: bool) -> R {
    let r = &mut c.rng;
    let mut l0 = if large {
        big_logits(r, MILD_BAN)
    } else {
        let n = size1(r, if c.tiny { 6 } else { 150 });
        let v = values(r, n, MILD_BAN);
        prep(r, &v).0
    };
    let good = l0.clone();
    spoil(c, &mut l0);
    if l0.iter().all(|x| !x.logit.is_nan()) || l0.get_sorted() || l0.get_softmax() {
        // A token listed twice may take the NaN elsewhere.
        return Ok(());
    }
    let all = l0.iter().all(|x| x.logit.is_nan());
    let toks = history(&mut c.rng, &l0, 30);
    c.fp(&[hash_logits(&l0), c.rng.clone().u64()]);
    c.nontrivial();
    c.see_if(all, "nothing but NaN");
    c.see_if(l0.len() > 1 << 16 && l0.iter().position(|x| x.logit.is_nan()) > Some(1 << 16), "a late NaN only");
    // The order and the softmax do not exist.
    let text = show(&l0);
    for soft in [false, true] {
        let mut l = l0.clone();
        c.event();
        let ok = if soft { l.ensure_softmax().is_ok() } else { l.ensure_sorted().is_ok() };
        let what = if soft { "ensure_softmax" } else { "ensure_sorted" };
        ensure!(!ok, "{what} succeeds on {text}");
        ensure!(!l.get_sorted() && !l.get_softmax(), "{what} failed, yet marks sorted={} softmax={} on {text}", l.get_sorted(), l.get_softmax());
        same_entries(&l0, &l).map_err(|e| format!("{what} failed and changed {text}: {e}"))?;
    }
    // Samplers.
    let a = match c.rng.below(5) {
        0 => a_select(&mut c.rng, l0.len().min(1000)),
        _ => any_sampler(&mut c.rng, &l0, if large { toks.len().min(12) } else { toks.len() }, TAME_NEG),
    };
    c.desc(|| format!("{a:?} on {text}"));
    c.see(a.kind());
    judge(c, &a, &good, &l0, &toks)
}

/// One sampler on logits that contain NaN.
fn judge(c: &mut Case, a: &Any, good: &Logits, l0: &Logits, toks: &[u32]) -> R {
    let r = &mut c.rng;
    let mut s = a.clone();
    let mut res = Res::new(Some(Stream::random(r)), Some(toks.to_vec()));
    // It may have picked something before.
    let used = r.chance(0.5) && good.len() < 1000;
    if used {
        let _ = s.run(&mut res, &mut good.clone());
    }
    let params = s.params();
    let mu = if matches!(s, Any::Miro1(_) | Any::Miro2(_)) { opt_f(&s, "mu").to_bits() } else { 0 };
    let mut l = l0.clone();
    let route = c.rng.below(4);
    c.event();
    let (got, tok) = match route {
        0 => {
            let got = s.run(&mut res, &mut l);
            (got, s.sref().sampled_token_id())
        }
        1 => {
            let got = s.s().sample(&mut res, &mut l).map(|_| ());
            let t = s.sref().sampled_token_id();
            (got.map(|_| t), t)
        }
        2 => {
            let mut ch = SamplerChain::new();
            s.push_to(&mut ch, 0);
            let got = ch.sample_token(&mut res, &mut l);
            (got, ch.sampled_token_id())
        }
        _ => {
            let mut b = s.boxed();
            let got = l.sample_token(&mut res, &mut b);
            (got, b.sampled_token_id())
        }
    };
    let at = |e: String| format!("{s:?} (used before: {used}) on {}: {e}", show(l0));
    ensure!(s.params() == params, "{}", at("its settings changed".into()));
    match &s {
        Any::Rand(_) | Any::Miro1(_) | Any::Miro2(_) => {
            ensure!(got.is_err(), "{}", at(format!("gives {got:?}, an error is expected")));
            ensure!(tok.is_none(), "{}", at(format!("failed and reports token {tok:?}")));
            same_entries(l0, &l).map_err(at)?;
            if mu != 0 {
                ensure!(opt_f(&s, "mu").to_bits() == mu, "{}", at("failed and changed mu".into()));
            }
        }
        Any::Greedy(_) => {
            let got = got.map_err(|e| at(format!("fails with {e}")))?;
            same_entries(l0, &l).map_err(at)?;
            let best = l0.iter().filter(|x| !x.logit.is_nan()).map(|x| x.logit).fold(None, |m: Option<f32>, x| Some(m.map_or(x, |m| m.max(x))));
            ensure!(got == tok, "{}", at(format!("returns {got:?} and reports {tok:?}")));
            match (got, best) {
                (None, None) => c.see("greedy without a choice"),
                (Some(t), Some(b)) => ensure!(
                    l0.iter().any(|x| x.token_id == t && x.logit == b),
                    "{}",
                    at(format!("selects {t}, the largest value is {b:e}"))
                ),
                x => return Err(at(format!("selects {:?}, the largest value is {:?}", x.0, x.1))),
            }
        }
        _ if s.filters() => {
            same_set(l0, &l).map_err(|e| at(format!("({:?}) {e}", got.is_ok())))?;
            ensure!(!l.get_sorted() && !l.get_softmax(), "{}", at(format!("marks sorted={} softmax={}", l.get_sorted(), l.get_softmax())));
            ensure!(tok.is_none(), "{}", at(format!("reports token {tok:?}")));
            c.see(if got.is_err() { "a filter failed" } else { "a filter had nothing to do" });
        }
        _ => {
            got.map_err(|e| at(format!("fails with {e}")))?;
            ensure!(l.len() == l0.len(), "{}", at(format!("{} entries became {}", l0.len(), l.len())));
            for (x, y) in l0.iter().zip(l.iter()) {
                ensure!(x.token_id == y.token_id, "{}", at(format!("{x:?} became {y:?}")));
                ensure!(!x.logit.is_nan() || y.logit.is_nan(), "{}", at(format!("NaN of token {} became {}", x.token_id, y.logit)));
            }
            ensure!(!l.get_sorted() && !l.get_softmax(), "{}", at(format!("marks sorted={} softmax={}", l.get_sorted(), l.get_softmax())));
            c.see("values only");
        }
    }
    Ok(())
}

/// Values that have an order and no softmax: an infinity, or nothing but negative infinities.
fn c30_undefined(c: &mut Case) -> R {
    let r = &mut c.rng;
    let n = size1(r, if c.tiny { 6 } else { 150 });
    let mut v = values(r, n, MILD_BAN);
    let banned = r.chance(0.5);
    if banned {
        v.iter_mut().for_each(|x| *x = f32::NEG_INFINITY);
    } else {
        for _ in 0..if r.chance(0.7) { 1 } else { r.range(1, n) } {
            let i = r.below(n);
            v[i] = f32::INFINITY;
        }
    }
    let (mut l0, p) = prep(r, &v);
    if banned && r.chance(0.3) {
        // Banned one by one.
        for x in l0.iter_mut() {
            x.logit = 0.5;
        }
        l0.set_sorted(false).set_softmax(false);
        let b: Vec<(u32, f32)> = l0.iter().map(|x| (x.token_id, f32::NEG_INFINITY)).collect();
        l0.sample(&mut (), &mut SampleFlatBias::new(b)).map_err(|e| e.to_string())?;
    }
    let mut s = match r.below(3) {
        0 => Any::Rand(SampleRandDistrib::new()),
        1 => a_miro1(r, n),
        _ => a_miro2(r),
    };
    let mut res = Res::new(Some(Stream::hostile(r)), None);
    let used = r.chance(0.6);
    if used {
        let _ = s.run(&mut res, &mut from_values(&[0.5, 0.25, 0.0]));
    }
    c.fp(&[hash_logits(&l0), c.rng.clone().u64()]);
    c.nontrivial();
    c.see(s.kind());
    c.see(if banned { "everything banned" } else { "an infinite value" });
    c.see_if(used, "picked before");
    let before = s.params();
    let mu = opt_f(&s, "mu");
    let how = c.rng.below(3);
    let mut l = l0.clone();
    c.desc(|| format!("{s:?} on {} ({p:?})", show(&l0)));
    c.event();
    let (got, tok) = match how {
        0 => {
            let got = s.run(&mut res, &mut l);
            (got, s.sref().sampled_token_id())
        }
        1 => {
            let mut ch = SamplerChain::new();
            s.push_to(&mut ch, 0);
            let got = ch.sample_token(&mut res, &mut l);
            (got, ch.sampled_token_id())
        }
        _ => {
            let got = s.s().sample(&mut res, &mut l).map(|_| None);
            (got, s.sref().sampled_token_id())
        }
    };
    let at = |e: String| format!("{s:?} on {} ({p:?}, used before: {used}): {e}", show(&l0));
    ensure!(got.is_err(), "{}", at(format!("gives {got:?}, there is no softmax")));
    ensure!(tok.is_none(), "{}", at(format!("failed and reports token {tok:?}")));
    ensure!(s.params() == before && opt_f(&s, "mu").to_bits() == mu.to_bits(), "{}", at(format!("failed and changed state: mu was {mu}, is {}", opt_f(&s, "mu"))));
    // And it works again afterwards.
    let mut l = from_values(&[0.5, 0.25, 0.0]);
    let got = s.run(&mut Res::new(Some(Stream::random(&mut c.rng)), None), &mut l);
    ensure!(matches!(got, Ok(Some(0..=2))), "after that, {s:?} gives {got:?} on proper values");
    Ok(())
}

pub fn c30() -> Prop {
    Prop {
        id: "C30",
        rule: "logits of up to 150 entries (and of real vocabulary sizes) with NaN of any kind written or produced by earlier samplers, in any places; every built-in sampler through four routes, new or used; logits with infinities or everything banned for the selectors by chance; non-trivial: there is a NaN, or no softmax",
        workloads: vec![
            Workload {
                name: "nan",
                quick: 2_000_000,
                thorough: 80_000_000,
                f: c30_nan,
                need: &["NaN written", "NaN from a bias", "NaN from a penalty", "nothing but NaN", "greedy without a choice", "a filter failed", "a filter had nothing to do", "values only"],
            },
            Workload { name: "large", quick: 300, thorough: 12_000, f: c30_large, need: &["a late NaN only"] },
            Workload {
                name: "undefined",
                quick: 1_500_000,
                thorough: 60_000_000,
                f: c30_undefined,
                need: &["everything banned", "an infinite value", "picked before", "rand", "miro1", "miro2"],
            },
        ],
    }
}
