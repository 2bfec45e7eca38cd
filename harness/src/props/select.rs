//! C16 greedy selection, C17 random selection.

use super::pipe::in_domain;
use crate::core::*;
use crate::gen::*;
use crate::model::*;

use llm_samplers::prelude::*;
use std::collections::HashMap;

// ---------------------------------------------------------------- C16

fn c16_any(c: &mut Case) -> R {
    let n = size(&mut c.rng, 400);
    c16_check(c, n)
}

fn c16_large(c: &mut Case) -> R {
    let n = big_len(&mut c.rng);
    c16_check(c, n)
}

fn c16_check(c: &mut Case, n: usize) -> R {
    let r = &mut c.rng;
    let mut v = values(r, n, ANY);
    if r.chance(0.15) && n > 0 {
        // Greedy has no need for finite values: infinities of both signs, or nothing but -inf.
        match r.below(3) {
            0 => v = vec![NI; n],
            1 => {
                let i = r.below(n);
                v[i] = f32::INFINITY
            }
            _ => {
                for x in v.iter_mut() {
                    if r.chance(0.5) {
                        *x = *r.pick(&[NI, f32::INFINITY, 0.0, -0.0])
                    }
                }
            }
        }
    }
    let (mut l, _) = if v.iter().any(|x| *x == f32::INFINITY) || v.iter().all(|x| *x == NI) {
        let mut l = from_values(&v);
        remap(r, &mut l);
        (l, Prep::Fresh)
    } else {
        prep(r, &v)
    };
    let pre = if r.chance(0.5) && in_domain(&l) {
        let toks = history(r, &l, 12);
        let mut res = Res::new(Some(Stream::random(r)), Some(toks.clone()));
        for _ in 0..r.range(1, 3) {
            let before = l.clone();
            let mut a = any_sampler(r, &l, toks.len(), TAME_NEG);
            let _ = a.run(&mut res, &mut l);
            if l.iter().any(|x| x.logit.is_nan()) {
                l = before;
            }
        }
        true
    } else {
        false
    };
    c.fp(&[hash_logits(&l)]);
    c.desc(|| format!("sorted={} softmax={} {}", l.get_sorted(), l.get_softmax(), show(&l)));
    c.nontrivial_if(l.len() > 1);
    c.see_if(pre && l.len() > 1, "after other samplers");
    c.see_if(!l.get_sorted() && l.len() > 1, "unsorted");
    c.see_if(l.get_sorted() && l.len() > 1, "sorted");
    let how = c.rng.below(4);
    let mut g = SampleGreedy::new();
    if c.rng.chance(0.5) {
        // It has selected something else before.
        let mut other = from_values(&[1.0, 2.0]);
        other[1].token_id = 77_777;
        let t = g.sample_token(&mut (), &mut other).map_err(|e| e.to_string())?;
        ensure!(t == Some(77_777), "picked {t:?} from two entries");
    }
    let before = l.clone();
    c.event();
    let got = match how {
        0 => g.sample_token(&mut (), &mut l).map_err(|e| format!("failed: {e}"))?,
        1 => {
            g.sample(&mut (), &mut l).map_err(|e| format!("failed: {e}"))?;
            g.sampled_token_id()
        }
        2 => l.sample_token(&mut (), &mut g).map_err(|e| format!("failed: {e}"))?,
        _ => drive(&mut c.rng, &g, &mut (), &mut l).map_err(|e| format!("failed: {e}"))?,
    };
    ensure!(how == 3 || g.get_token_id() == got && g.sampled_token_id() == got && *g == got, "accessors disagree on the selected token");
    same_all(&before, &l).map_err(|e| format!("greedy changed the logits {}: {e}", show(&before)))?;
    if l.is_empty() {
        c.see("empty");
        ensure!(got.is_none(), "selected {got:?} from empty logits");
        return Ok(());
    }
    let max = l.iter().map(|x| x.logit).fold(NI, f32::max);
    let t = got.ok_or_else(|| format!("selected nothing from {}", show(&l)))?;
    match l.iter().find(|x| x.token_id == t) {
        None => Err(format!("selected {t}, which is not present in {}", show(&l))),
        Some(x) => {
            ensure!(
                x.logit >= max,
                "selected token {t} with value {:e} although the largest is {max:e} (sorted={} softmax={}) in {}",
                x.logit,
                l.get_sorted(),
                l.get_softmax(),
                show(&l)
            );
            Ok(())
        }
    }
}

pub fn c16() -> Prop {
    Prop {
        id: "C16",
        rule: "prepared logits (any NaN-free values incl. infinities, all -inf), half of them after 1..3 random samplers incl. negative temperatures; non-trivial: at least two entries",
        workloads: vec![
            Workload {
                name: "any",
                quick: 5_000_000,
                thorough: 200_000_000,
                f: c16_any,
                need: &["after other samplers", "unsorted", "sorted", "empty"],
            },
            Workload { name: "large", quick: 300, thorough: 12_000, f: c16_large, need: &[] },
        ],
    }
}

// ---------------------------------------------------------------- statistics

/// Are the counts plausible for these probabilities? Returns a p-value-like number.
pub fn fit(p: &[f64], counts: &[u64], n: f64) -> f64 {
    // Bins of consecutive entries (most likely first) with enough expectation.
    let mut idx: Vec<usize> = (0..p.len()).collect();
    idx.sort_by(|a, b| p[*b].partial_cmp(&p[*a]).unwrap());
    let (mut x, mut k, mut e, mut o) = (0f64, 0f64, 0f64, 0f64);
    let mut worst = 1f64;
    for (j, i) in idx.iter().enumerate() {
        e += p[*i] * n;
        o += counts[*i] as f64;
        if e >= 40.0 || j + 1 == idx.len() {
            if e >= 40.0 {
                x += (o - e) * (o - e) / e;
                k += 1.0;
            }
            worst = worst.min(binom_bound(n, (e / n).min(1.0), o));
            e = 0.0;
            o = 0.0;
        }
    }
    // A single entry that is picked far too rarely or too often.
    if k > 1.0 {
        worst = worst.min(chi2_tail(x, k - 1.0));
    }
    worst
}

pub const P_LIMIT: f64 = 1e-9;

/// Draw `n` times, compare with `p`; when suspicious, draw twenty times more before deciding.
pub fn check_frequencies(
    c: &mut Case,
    ids: &[u32],
    p: &[f64],
    n: usize,
    mut draw: impl FnMut(&mut Case) -> Result<u32, String>,
) -> R {
    let pos: HashMap<u32, usize> = ids.iter().enumerate().map(|(i, t)| (*t, i)).collect();
    for round in 0..2 {
        let n = if round == 0 { n } else { n * 20 };
        let mut counts = vec![0u64; p.len()];
        for _ in 0..n {
            let t = draw(c)?;
            let i = *pos.get(&t).ok_or_else(|| format!("picked token {t}, which is not a candidate"))?;
            ensure!(p[i] > 1e-47, "picked token {t}, which has probability 0");
            counts[i] += 1;
        }
        c.see_n("draws", n as u64);
        let v = fit(p, &counts, n as f64);
        if v > P_LIMIT {
            return Ok(());
        }
        c.see("suspicious first round");
        if round == 1 {
            let mut top: Vec<usize> = (0..p.len()).collect();
            top.sort_by(|a, b| {
                let d = |i: usize| ((counts[i] as f64 - p[i] * n as f64).powi(2)) / (p[i] * n as f64 + 1.0);
                d(*b).partial_cmp(&d(*a)).unwrap()
            });
            let s: Vec<String> = top
                .iter()
                .take(6)
                .map(|i| format!("token {} picked {} times, expected {:.1}", ids[*i], counts[*i], p[*i] * n as f64))
                .collect();
            return Err(format!("{n} draws do not follow the probabilities (p-value {v:e}): {}", s.join("; ")));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C17

fn simple_l(res: &mut SimpleSamplerResources, s: &mut SampleRandDistrib, l: &mut Logits) -> Result<Option<u32>, SamplerError> {
    s.sample_token(res, l)
}

/// A real vocabulary's worth of candidates.
fn c17_large(c: &mut Case) -> R {
    let r = &mut c.rng;
    let n = big_len(r).min(160_000);
    let v = values(r, n, Dom { neg_inf: true, max_abs: 20.0 });
    let (mut l, _) = prep(r, &v);
    let s = snap(&l);
    let sm = soft_of(&s);
    let ids: Vec<u32> = s.iter().map(|x| x.token_id).collect();
    c.fp(&[hash_logits(&l)]);
    c.desc(|| show(&l));
    c.nontrivial();
    let mut res = Res::new(Some(Stream::random(&mut c.rng)), None);
    let mut samp = SampleRandDistrib::new();
    check_frequencies(c, &ids, &sm.p, if c.tiny { 5 } else { 1500 }, |c| {
        c.event();
        samp.sample_token(&mut res, &mut l).map_err(|e| format!("failed: {e}"))?.ok_or("nothing picked".into())
    })
    .map_err(|e| format!("{e}; on {}", show(&s)))
}

/// So many equally probable candidates (a power of two: the arithmetic is exact) that each is improbable:
/// which part of them a pick comes from is uniform all the same.
fn c17_uniform(c: &mut Case) -> R {
    let r = &mut c.rng;
    let (bits, draws) = if c.tiny { (4, 30) } else { *r.pick(&[(17usize, 6_000usize), (18, 3_000), (20, 700), (21, 300)]) };
    let n = 1usize << bits;
    let v = vec![r.frange(-3.0, 3.0) as f32; n];
    let mut l = from_values(&v);
    c.fp(&[c.rng.clone().u64(), n as u64]);
    c.desc(|| format!("{n} equal entries"));
    c.nontrivial();
    c.see_if(n > 1 << 16, "more than 2^16 candidates");
    let mut res = Res::new(Some(Stream::random(&mut c.rng)), None);
    let mut samp = SampleRandDistrib::new();
    let mut got = Vec::with_capacity(draws);
    for _ in 0..draws {
        c.event();
        let t = samp.sample_token(&mut res, &mut l).map_err(|e| format!("failed on {n} equal entries: {e}"))?.ok_or("nothing picked")?;
        ensure!((t as usize) < n, "picked {t}, not present");
        got.push(t as usize);
    }
    let test = |what: String, k: usize, class: &dyn Fn(usize) -> usize| -> R {
        let mut counts = vec![0u64; k];
        let mut p = vec![0f64; k];
        for i in 0..n {
            p[class(i)] += 1.0 / n as f64;
        }
        for t in &got {
            counts[class(*t)] += 1;
        }
        let f = fit(&p, &counts, got.len() as f64);
        ensure!(f > 1e-11, "{draws} picks from {n} equal entries: by {what} they are {counts:?} (p-value {f:e})");
        Ok(())
    };
    for m in [2usize, 3, 4, 7, 16] {
        test(format!("position mod {m}"), m, &|i| i % m)?;
    }
    for m in [4usize, 16] {
        test(format!("{m}th part"), m, &|i| i * m / n)?;
    }
    Ok(())
}

/// One candidate has nearly all of the probability; how often another one is picked must be right all the same.
fn c17_peaked(c: &mut Case) -> R {
    let r = &mut c.rng;
    let n = if c.tiny { 4 } else { r.range(2, 300) };
    let rest = (10f64).powf(r.frange(-4.3, -2.0));
    let mut v: Vec<f32> = (0..n).map(|_| r.frange(-1.0, 1.0) as f32).collect();
    let at = r.below(n);
    let others: f64 = v.iter().enumerate().filter(|(i, _)| *i != at).map(|(_, x)| (*x as f64).exp()).sum();
    v[at] = (others / rest).ln() as f32;
    let (mut l, _) = prep(r, &v);
    let s = snap(&l);
    let sm = soft_of(&s);
    let top = l.iter().max_by(|a, b| a.logit.total_cmp(&b.logit)).map(|x| x.token_id).unwrap();
    let p = s.iter().zip(&sm.p).filter(|(x, _)| x.token_id != top).map(|(_, p)| *p).sum::<f64>();
    c.fp(&[hash_logits(&l)]);
    c.desc(|| format!("all others together {p:e} in {}", show(&l)));
    c.nontrivial();
    let mut res = Res::new(Some(Stream::random(&mut c.rng)), None);
    let mut samp = SampleRandDistrib::new();
    // About 60 picks of the others.
    let draws = if c.tiny { 20 } else { (60.0 / p).clamp(3000.0, 2_000_000.0) as usize };
    let _ = l.ensure_softmax();
    check_frequencies(c, &[0, 1], &[1.0 - p, p], draws, |c| {
        c.event();
        let t = samp.sample_token(&mut res, &mut l).map_err(|e| format!("failed: {e}"))?.ok_or("nothing picked")?;
        Ok((t != top) as u32)
    })
    .map_err(|e| format!("{e} (0: token {top}, 1: any other); on {}", show(&s)))
}

fn c17_freq(c: &mut Case) -> R {
    let r = &mut c.rng;
    let n = if c.tiny {
        3
    } else {
        match r.below(10) {
            0 => r.range(200, 2000),
            1..=3 => r.range(10, 100),
            _ => r.range(1, 9),
        }
    };
    let v = values(r, n, MILD_BAN);
    let (l0, _) = prep(r, &v);
    let s = snap(&l0);
    let sm = soft_of(&s);
    let ids: Vec<u32> = s.iter().map(|x| x.token_id).collect();
    c.fp(&[hash_logits(&l0)]);
    c.desc(|| format!("sorted={} softmax={} {}", l0.get_sorted(), l0.get_softmax(), show(&l0)));
    c.nontrivial_if(n > 1);
    let draws = if c.tiny { 30 } else { (4_000_000 / (n + 50)).clamp(2_000, 20_000) };
    let fresh = n < 20 && c.rng.chance(0.6);
    c.see(if fresh { "fresh logits for every draw" } else { "same logits for every draw" });
    let mut res = Res::new(Some(Stream::random(&mut c.rng)), None);
    let how = c.rng.below(5);
    let mut simple = {
        use rand::SeedableRng;
        SimpleSamplerResources::new(Some(Box::new(rand::rngs::StdRng::seed_from_u64(c.rng.u64()))), None)
    };
    let mut samp = SampleRandDistrib::new();
    let mut l = l0.clone();
    let mut pairs: HashMap<(usize, usize), u64> = HashMap::new();
    let mut last: Option<usize> = None;
    let small = n <= 4;
    check_frequencies(c, &ids, &sm.p, draws, |c| {
        if fresh {
            l = l0.clone();
        }
        c.event();
        let t = match how {
            0 => samp.sample_token(&mut res, &mut l),
            1 => l.sample_token(&mut res, &mut samp),
            2 => samp.sample(&mut res, &mut l).map(|_| ()).map(|_| samp.sampled_token_id()),
            3 => simple_l(&mut simple, &mut samp, &mut l),
            _ => drive(&mut c.rng, &samp, &mut res, &mut l),
        }
            .map_err(|e| format!("failed: {e}"))?
            .ok_or("nothing picked from non-empty logits")?;
        if small {
            let i = ids.iter().position(|x| *x == t);
            if let (Some(a), Some(b)) = (last, i) {
                *pairs.entry((a, b)).or_insert(0) += 1;
                last = None;
            } else {
                last = i;
            }
        }
        Ok(t)
    })
    .map_err(|e| format!("{e}; on {} (sorted={} softmax={})", show(&l0), l0.get_sorted(), l0.get_softmax()))?;
    subset_of(&l, &s)?;
    ensure!(l.len() == s.len(), "selection removed entries");
    if small && n > 1 {
        // Consecutive picks are independent.
        let mut p2 = vec![];
        let mut c2 = vec![];
        for a in 0..n {
            for b in 0..n {
                p2.push(sm.p[a] * sm.p[b]);
                c2.push(pairs.get(&(a, b)).copied().unwrap_or(0));
            }
        }
        let tot: u64 = c2.iter().sum();
        let f = fit(&p2, &c2, tot as f64);
        c.see("pairs of consecutive picks checked");
        ensure!(f > 1e-12, "consecutive picks are not independent (p-value {f:e}) on {}", show(&l0));
    }
    Ok(())
}

fn c17_hostile(c: &mut Case) -> R {
    let r = &mut c.rng;
    let n = size(r, 200);
    let v = values(r, n, ANY);
    let (l0, _) = prep(r, &v);
    let s = snap(&l0);
    let sm = soft_of(&s);
    let stream = Stream::hostile(r);
    let salt = r.clone().u64();
    c.fp(&[hash_logits(&l0), salt]);
    c.desc(|| format!("{stream:?} on {}", show(&l0)));
    let zero = sm.p.iter().filter(|p| **p < 1e-47).count();
    c.nontrivial_if(n > 1);
    c.see_if(zero > 0, "zero-probability entries");
    let mut used = SampleRandDistrib::new();
    if c.rng.chance(0.5) {
        // It has selected something else before.
        let mut other = from_values(&[1.0]);
        other[0].token_id = 77_777;
        let mut res = Res::new(Some(Stream::Const(5)), None);
        let _ = used.sample_token(&mut res, &mut other);
    }
    let mut res = Res::new(Some(stream.clone()), None);
    let mut res2 = Res::new(Some(stream.clone()), None);
    let rounds = if n == 0 { 1 } else { 4 };
    for k in 0..rounds {
        let (mut l, mut l2) = (l0.clone(), l0.clone());
        let d0 = res.draws();
        c.event();
        let got = used.sample_token(&mut res, &mut l).map_err(|e| format!("failed on {}: {e}", show(&l0)))?;
        ensure!(used.sampled_token_id() == got, "accessor disagrees with the picked token");
        let mut fresh = SampleRandDistrib::new();
        let got2 = fresh.sample_token(&mut res2, &mut l2).map_err(|e| format!("failed on {}: {e}", show(&l0)))?;
        ensure!(got == got2, "pick {k}: same logits, same stream, but {got:?} and {got2:?} ({stream:?} on {})", show(&l0));
        ensure!(res.draws() == res2.draws(), "pick {k} consumed different amounts of randomness");
        if n == 0 {
            c.see("empty");
            ensure!(got.is_none(), "picked {got:?} from empty logits");
            ensure!(res.draws() == d0, "consumed randomness on empty logits");
            break;
        }
        c.see_if(res.draws() > d0, "randomness consumed");
        let t = got.ok_or_else(|| format!("picked nothing from {}", show(&l0)))?;
        let i = s.iter().position(|x| x.token_id == t).ok_or_else(|| format!("picked {t}, not present in {}", show(&l0)))?;
        ensure!(
            sm.p[i] > 1e-47,
            "pick {k}: token {t} ({:e}) has probability 0 but was picked with {stream:?} from {}",
            s[i].logit,
            show(&l0)
        );
        ensure!(l.len() == n, "selection removed entries");
        subset_of(&l, &s)?;
    }
    Ok(())
}

pub fn c17() -> Prop {
    Prop {
        id: "C17",
        rule: "frequencies: 2k-20k draws per distribution of 1..2000 entries, chi-square and exact tail bounds (alarm only after a second, 20 times longer series), pairs of picks for independence; hostile: constant and extreme random streams on distributions with zero-probability entries; non-trivial: at least two entries",
        workloads: vec![
            Workload {
                name: "frequencies",
                quick: 6_000,
                thorough: 240_000,
                f: c17_freq,
                need: &["draws", "fresh logits for every draw", "same logits for every draw", "pairs of consecutive picks checked"],
            },
            Workload { name: "large", quick: 60, thorough: 2_400, f: c17_large, need: &[] },
            Workload { name: "peaked", quick: 40, thorough: 2_000, f: c17_peaked, need: &["draws"] },
            Workload { name: "uniform", quick: 32, thorough: 1_000, f: c17_uniform, need: &["more than 2^16 candidates"] },
            Workload {
                name: "hostile",
                quick: 900_000,
                thorough: 36_000_000,
                f: c17_hostile,
                need: &["zero-probability entries", "empty", "randomness consumed"],
            },
        ],
    }
}

