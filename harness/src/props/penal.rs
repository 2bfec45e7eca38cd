//! C11 flat bias, C12 repetition, C13 frequency/presence, C14 sequence repetition, C15 temperature.

use super::pipe::in_domain;
use crate::core::*;
use crate::gen::*;
use crate::model::*;
use crate::rng::{mix, Rng};
use llm_samplers::prelude::*;
use std::collections::HashMap;

fn hash_hist(t: &[u32]) -> u64 {
    t.iter().take(200).fold(t.len() as u64, |h, x| mix(&[h, *x as u64]))
}

fn logits_in(r: &mut Rng, max: usize, d: Dom) -> Logits {
    let n = size(r, max);
    let v = values(r, n, d);
    prep(r, &v).0
}

fn close(got: f32, want: f64, scale: f64) -> bool {
    if got as f64 == want {
        return true;
    }
    if !want.is_finite() || !got.is_finite() {
        return want == got as f64 || (want.abs() > 3.4e38 && got as f64 == want.signum() * f64::INFINITY);
    }
    (got as f64 - want).abs() <= 5e-7 * scale.max(want.abs()) + 3e-45
}

/// Same ids in the same places, `want` gives the value for each entry (None: bit-identical to before).
fn judge(inp: &[Logit], out: &Logits, want: impl Fn(usize, &Logit) -> Option<(f64, f64)>) -> R {
    ensure!(out.len() == inp.len(), "number of entries changed from {} to {}", inp.len(), out.len());
    for (i, (a, b)) in inp.iter().zip(out.iter()).enumerate() {
        ensure!(a.token_id == b.token_id, "entry {i}: token {} became {}", a.token_id, b.token_id);
        match want(i, a) {
            None => ensure!(
                a.logit.to_bits() == b.logit.to_bits(),
                "token {} is not concerned but changed from {:e} to {:e}",
                a.token_id,
                a.logit,
                b.logit
            ),
            Some((w, scale)) => ensure!(
                close(b.logit, w, scale),
                "token {}: {:e} became {:e}, expected {w:e}",
                a.token_id,
                a.logit,
                b.logit
            ),
        }
    }
    Ok(())
}

fn window(t: &[u32], n: usize) -> &[u32] {
    &t[t.len() - n.min(t.len())..]
}

// ---------------------------------------------------------------- C11

fn c11_bias(c: &mut Case) -> R {
    let l0 = logits_in(&mut c.rng, 300, Dom { neg_inf: true, max_abs: 1e30 });
    c11_check(c, l0)
}

fn c11_large(c: &mut Case) -> R {
    let l0 = big_logits(&mut c.rng, Dom { neg_inf: true, max_abs: 1e30 });
    c11_check(c, l0)
}

fn c11_check(c: &mut Case, l0: Logits) -> R {
    let n = l0.len();
    let r = &mut c.rng;
    let k = match r.below(6) {
        0 => 0,
        1 => n.min(200),
        3 if n < 60 && r.chance(0.01) => r.range(250, 300),
        2 => 1,
        _ => r.range(0, 6),
    };
    let mut list: Vec<(u32, f32)> = vec![];
    for _ in 0..k {
        let t = if n == 0 || r.chance(0.2) {
            *r.pick(&[0, 1, 7, u32::MAX, 1 << 31, 65_536])
        } else {
            l0[if r.chance(0.3) { *r.pick(&[0, n - 1]) } else { r.below(n) }].token_id
        };
        let b = match r.below(7) {
            0 => NI,
            1 => 0.0,
            2 => r.frange(-1e4, 1e4) as f32,
            3 => *r.pick(&[1e-40f32, -1e-40, 1e20]),
            _ => r.frange(-5.0, 5.0) as f32,
        };
        list.push((t, b));
        if r.chance(0.2) {
            list.push((t, r.frange(-5.0, 5.0) as f32));
        }
    }
    c.fp(&[hash_logits(&l0), list.iter().fold(0, |h, x| mix(&[h, x.0 as u64, x.1.to_bits() as u64]))]);
    c.desc(|| format!("{list:?} on {}", show(&l0)));
    let mut want: HashMap<u32, f32> = HashMap::new();
    for &(t, b) in &list {
        want.entry(t).or_insert(b);
    }
    let hits = l0.iter().filter(|x| want.contains_key(&x.token_id)).count();
    c.nontrivial_if(hits > 0);
    c.see_if(hits > 0 && hits < n, "some tokens biased, others not");
    c.see_if(want.len() < list.len(), "token listed twice");
    c.see_if(hits < want.len(), "listed token not present");
    // Built at once, or edited through the list access in between calls.
    let mut s = SampleFlatBias::new(list.iter().copied());
    if c.rng.chance(0.3) {
        s = SampleFlatBias::default();
        let mut other = l0.clone();
        s.sample(&mut (), &mut other).map_err(|e| format!("empty bias failed: {e}"))?;
        same_all(&l0, &other).map_err(|e| format!("an empty bias changed something: {e}"))?;
        for x in &list {
            s.push(*x);
        }
        c.see("edited list");
    }
    let mut l = l0.clone();
    c.event();
    drive(&mut c.rng, &s, &mut (), &mut l).map_err(|e| format!("failed: {e}"))?;
    judge(&l0, &l, |_, x| want.get(&x.token_id).map(|b| (x.logit as f64 + *b as f64, (x.logit as f64).abs().max(b.abs() as f64).min(1e38))))
        .map_err(|e| format!("bias {list:?} on {}: {e}", show(&l0)))
}

/// Ban, arbitrary tame samplers, selection under hostile random streams.
fn c11_ban(c: &mut Case) -> R {
    let r = &mut c.rng;
    let n = size1(r, 120);
    let v = values(r, n, Dom { neg_inf: true, max_abs: 1e4 });
    let (l0, _) = prep(r, &v);
    let toks = history(r, &l0, 16);
    // Ban some, often the most likely ones, never all finite ones.
    let mut order = snap(&l0);
    if r.chance(0.5) {
        order.sort_by(|a, b| b.logit.partial_cmp(&a.logit).unwrap());
    }
    let finite = order.iter().filter(|x| x.logit.is_finite()).count();
    let want_ban = if finite > 1 { r.range(1, finite - 1).min(if r.chance(0.5) { 3 } else { 1000 }) } else { 0 };
    let mut banned: Vec<u32> = vec![];
    for x in &order {
        if banned.len() < want_ban && x.logit.is_finite() {
            banned.push(x.token_id);
        }
    }
    // Tokens that are not there may be banned as well.
    if r.chance(0.2) {
        banned.push(4_000_000_001);
    }
    banned.retain(|b| *b != 4_000_000_001 || !l0.iter().any(|x| x.token_id == *b));
    let mut chain: Vec<Any> = vec![];
    for _ in 0..r.below(3) {
        chain.push(a_temp(r, TAME));
        if r.chance(0.5) {
            chain.pop();
            chain.push(a_penalty(r, &l0, toks.len(), TAME));
        }
    }
    let pre = chain.len();
    let mut list: Vec<(u32, f32)> = banned.iter().map(|t| (*t, NI)).collect();
    r.shuffle(&mut list);
    chain.push(Any::Bias(SampleFlatBias::new(list)));
    for _ in 0..r.below(5) {
        if r.chance(0.05) {
            // As flat as it gets: whatever is merely very small comes back.
            chain.push(Any::Temp(SampleTemperature::new(*r.pick(&[1e30f32, 1e37, 1e38, f32::MAX]))));
        }
        let mut a = any_sampler(r, &l0, toks.len(), TAME);
        if a.filters() && r.chance(0.3) {
            let _ = a.cfg().configure(&format!("min_keep={n}"));
        }
        chain.push(a);
    }
    chain.push(a_select(r, n));
    let salt = r.clone().u64();
    c.fp(&[hash_logits(&l0), banned.len() as u64, salt]);
    c.desc(|| format!("ban {banned:?} at {pre} in {:?} on {}", chain.iter().map(|a| a.kind()).collect::<Vec<_>>(), show(&l0)));
    let mut boxed = SamplerChain::new();
    for a in &chain {
        a.push_to(&mut boxed, 0);
    }
    let rounds = if c.tiny { 1 } else { 3 };
    let mut hist = toks.clone();
    for round in 0..rounds {
        // The sampler objects carry on, the logits are new every time.
        let mut l = l0.clone();
        let mut res = Res::new(Some(Stream::hostile(&mut c.rng)), Some(hist.clone()));
        let s = format!("{:?}", res.rng);
        c.event();
        let got = match boxed.sample_token(&mut res, &mut l) {
            Ok(t) => t,
            Err(e) => {
                // A failure selects nothing; whether it may fail is judged elsewhere.
                c.see("chain failed");
                let _ = e;
                None
            }
        };
        if l.iter().any(|x| x.logit.is_nan() || x.logit == f32::INFINITY) {
            return Ok(());
        }
        if let Some(t) = got {
            c.see("token selected");
            c.nontrivial_if(!banned.is_empty());
            c.see_if(!banned.is_empty(), "token selected despite bans present");
            ensure!(
                !banned.contains(&t),
                "round {round}: banned token {t} was selected by {chain:?} from {} (banned {:?}...) with stream {s}",
                show(&l0),
                &banned[..banned.len().min(8)]
            );
            hist.push(t);
        }
    }
    Ok(())
}

pub fn c11() -> Prop {
    Prop {
        id: "C11",
        rule: "bias: lists of 0..n entries (repeats, absent tokens, -inf) on prepared logits; ban: random chains around a -inf bias, three generation rounds, random streams incl. constant extremes; non-trivial: a listed token is present / a token was selected while bans were in force",
        workloads: vec![
            Workload {
                name: "bias",
                quick: 2_000_000,
                thorough: 80_000_000,
                f: c11_bias,
                need: &["some tokens biased, others not", "token listed twice", "listed token not present", "edited list"],
            },
            Workload { name: "large", quick: 300, thorough: 12_000, f: c11_large, need: &[] },
            Workload {
                name: "ban",
                quick: 1_200_000,
                thorough: 48_000_000,
                f: c11_ban,
                need: &["token selected despite bans present"],
            },
        ],
    }
}

// ---------------------------------------------------------------- C12

fn c12_check(c: &mut Case, l0: &Logits, toks: &[u32], pen: f32, last: usize) -> R {
    c.fp(&[hash_logits(l0), hash_hist(toks), pen.to_bits() as u64, last as u64]);
    c.desc(|| format!("penalty={pen:e} last_n={last} history {:?} on {}", &toks[toks.len().saturating_sub(12)..], show(l0)));
    let mut l = l0.clone();
    let mut res = Res::new(None, Some(toks.to_vec()));
    let s = SampleRepetition::new(pen, last);
    c.event();
    drive(&mut c.rng, &s, &mut res, &mut l).map_err(|e| format!("failed: {e}"))?;
    let at = |e: String| {
        format!(
            "penalty={pen:e} last_n={last}, history of {} ending {:?}, on {}: {e}",
            toks.len(),
            &toks[toks.len().saturating_sub(16)..],
            show(l0)
        )
    };
    ensure!(res.toks.as_deref() == Some(toks), "{}", at("the history was modified".into()));
    if last == 0 || pen <= 1.0 {
        c.see("disabled");
        return same_all(l0, &l).map_err(|e| at(format!("disabled but: {e}")));
    }
    let w = window(toks, last);
    let set: std::collections::HashSet<u32> = w.iter().copied().collect();
    let hits = l0.iter().filter(|x| set.contains(&x.token_id)).count();
    c.nontrivial_if(hits > 0);
    c.see_if(set.len() < w.len() && hits > 0, "repeated in the window");
    c.see_if(w.len() < toks.len() && hits > 0, "window shorter than the history");
    c.see_if(last > toks.len() && hits > 0, "window longer than the history");
    c.see_if(l0.iter().any(|x| set.contains(&x.token_id) && x.logit > 0.0), "positive value penalised");
    c.see_if(l0.iter().any(|x| set.contains(&x.token_id) && x.logit < 0.0), "negative value penalised");
    c.see_if(w.len() < toks.len() && toks[..toks.len() - w.len()].iter().any(|t| !set.contains(t) && l0.iter().any(|x| x.token_id == *t)), "candidate only before the window");
    judge(l0, &l, |_, x| {
        set.contains(&x.token_id).then(|| {
            let (v, p) = (x.logit as f64, pen as f64);
            let w = if x.logit > 0.0 { v / p } else { v * p };
            (w, w.abs())
        })
    })
    .map_err(at)
}

fn c12_any(c: &mut Case) -> R {
    let l0 = logits_in(&mut c.rng, 200, Dom { neg_inf: true, max_abs: 1e30 });
    let toks = history(&mut c.rng, &l0, 100);
    let last = last_n(&mut c.rng, toks.len());
    let r = &mut c.rng;
    let pen = match r.below(10) {
        0 => 1.0,
        1 => *r.pick(&[0.0f32, 0.5, -1.5, 0.999]),
        2 => 1f32.next_up(),
        3 => *r.pick(&[1e10f32, 100.0]),
        _ => r.frange(1.0, 3.0) as f32,
    };
    c12_check(c, &l0, &toks, pen, last)
}

fn long_history(c: &mut Case, l0: &Logits) -> (Vec<u32>, usize) {
    let n = if c.tiny { 200 } else { *c.rng.pick(&[255usize, 256, 300, 1000, 5000, 66_000]) };
    let m = l0.len();
    let mut toks: Vec<u32> = (0..n).map(|i| if i % 3 == 0 { l0[c.rng.below(m)].token_id } else { l0[c.rng.below(m.min(2))].token_id }).collect();
    if m > 2 && c.rng.chance(0.6) {
        // One candidate occurs a single time, anywhere.
        let once = l0[c.rng.range(2, m - 1)].token_id;
        let fill = l0[0].token_id;
        for t in toks.iter_mut().filter(|t| **t == once) {
            *t = fill;
        }
        let at = c.rng.below(n);
        toks[at] = once;
    }
    let last = huge(&mut c.rng);
    let last = *c.rng.pick(&[63usize, 64, 65, 256, 257, n - 1, n, 65_536, last]);
    (toks, last)
}

/// A few hundred different tokens of a real vocabulary's size.
fn wide_history(c: &mut Case, l0: &Logits) -> (Vec<u32>, usize) {
    let n = c.rng.range(1, 300);
    let m = l0.len();
    let toks: Vec<u32> = (0..n).map(|_| l0[c.rng.below(m)].token_id).collect();
    let last = last_n(&mut c.rng, n);
    (toks, last)
}

fn c12_long(c: &mut Case) -> R {
    let n = c.rng.range(2, 40);
    let v = values(&mut c.rng, n, MILD);
    let (l0, _) = prep(&mut c.rng, &v);
    let (toks, last) = long_history(c, &l0);
    let p = c.rng.frange(1.01, 2.0) as f32;
    c12_check(c, &l0, &toks, p, last)
}

fn c12_large(c: &mut Case) -> R {
    let l0 = big_logits(&mut c.rng, MILD_BAN);
    let (toks, last) = wide_history(c, &l0);
    let p = c.rng.frange(1.01, 2.0) as f32;
    c12_check(c, &l0, &toks, p, last)
}

pub fn c12() -> Prop {
    Prop {
        id: "C12",
        rule: "prepared logits, histories of 0..66k tokens mixing present/absent/repeated tokens, windows around the history length; non-trivial: at least one penalised entry",
        workloads: vec![
            Workload {
                name: "any",
                quick: 4_000_000,
                thorough: 160_000_000,
                f: c12_any,
                need: &[
                    "disabled",
                    "repeated in the window",
                    "window shorter than the history",
                    "window longer than the history",
                    "positive value penalised",
                    "negative value penalised",
                    "candidate only before the window",
                ],
            },
            Workload { name: "large", quick: 400, thorough: 16_000, f: c12_large, need: &[] },
            Workload { name: "long", quick: 16_000, thorough: 640_000, f: c12_long, need: &[] },
        ],
    }
}

// ---------------------------------------------------------------- C13

fn c13_check(c: &mut Case, l0: &Logits, toks: &[u32], f: f32, p: f32, last: usize) -> R {
    c.fp(&[hash_logits(l0), hash_hist(toks), f.to_bits() as u64, p.to_bits() as u64, last as u64]);
    c.desc(|| format!("frequency={f:e} presence={p:e} last_n={last} history {:?} on {}", &toks[toks.len().saturating_sub(12)..], show(l0)));
    let mut l = l0.clone();
    let mut res = Res::new(None, Some(toks.to_vec()));
    let s = SampleFreqPresence::new(f, p, last);
    c.event();
    drive(&mut c.rng, &s, &mut res, &mut l).map_err(|e| format!("failed: {e}"))?;
    let at = |e: String| {
        format!(
            "frequency={f:e} presence={p:e} last_n={last}, history of {} ending {:?}, on {}: {e}",
            toks.len(),
            &toks[toks.len().saturating_sub(16)..],
            show(l0)
        )
    };
    ensure!(res.toks.as_deref() == Some(toks), "{}", at("the history was modified".into()));
    if last == 0 || (f == 0.0 && p == 0.0) {
        c.see("disabled");
        return same_all(l0, &l).map_err(|e| at(format!("disabled but: {e}")));
    }
    let w = window(toks, last);
    let mut cnt: HashMap<u32, u64> = HashMap::new();
    for t in w {
        *cnt.entry(*t).or_insert(0) += 1;
    }
    let hits: Vec<u64> = l0.iter().filter_map(|x| cnt.get(&x.token_id).copied()).collect();
    c.nontrivial_if(!hits.is_empty());
    c.see_if(hits.iter().any(|x| *x > 1) && f != 0.0, "counted more than once");
    c.see_if(hits.iter().any(|x| *x > 256), "counted more than 256 times");
    c.see_if(!hits.is_empty() && f == 0.0, "presence only");
    c.see_if(!hits.is_empty() && p == 0.0, "frequency only");
    c.see_if(!hits.is_empty() && (p < 0.0 || f < 0.0), "negative penalty");
    c.see_if(w.len() < toks.len() && !hits.is_empty(), "window shorter than the history");
    c.see_if(last > toks.len() && !hits.is_empty(), "window longer than the history");
    judge(l0, &l, |_, x| {
        cnt.get(&x.token_id).map(|n| {
            let (a, b) = (*n as f64 * f as f64, p as f64);
            (x.logit as f64 - (a + b), (x.logit.abs().min(1e38) as f64).max(a.abs()).max(b.abs()))
        })
    })
    .map_err(at)
}

fn c13_any(c: &mut Case) -> R {
    let l0 = logits_in(&mut c.rng, 200, Dom { neg_inf: true, max_abs: 1e30 });
    let toks = history(&mut c.rng, &l0, 100);
    let last = last_n(&mut c.rng, toks.len());
    let r = &mut c.rng;
    let pen = |r: &mut Rng| match r.below(5) {
        0 => 0.0f32,
        1 => r.frange(-3.0, 0.0) as f32,
        2 => *r.pick(&[1.0f32, 0.5, 0.125, 1e-3, 1e4]),
        3 if r.chance(0.2) => *r.pick(&[1e-7f32, -1e-7, 1e-12, -1e-20, 1e-30, 1e-40, -1e-45]),
        _ => r.frange(0.0, 3.0) as f32,
    };
    let (f, mut p) = (pen(r), pen(r));
    if r.chance(0.06) {
        // Cancelling out, or equal.
        p = *r.pick(&[-f, f, -2.0 * f]);
    }
    c13_check(c, &l0, &toks, f, p, last)
}

fn c13_long(c: &mut Case) -> R {
    let n = c.rng.range(2, 40);
    let v = values(&mut c.rng, n, MILD);
    let (l0, _) = prep(&mut c.rng, &v);
    let (toks, last) = long_history(c, &l0);
    let (f, p) = (c.rng.frange(-1.0, 1.0) as f32, c.rng.frange(-1.0, 1.0) as f32);
    c13_check(c, &l0, &toks, f, p, last)
}

fn c13_large(c: &mut Case) -> R {
    let l0 = big_logits(&mut c.rng, MILD_BAN);
    let (toks, last) = wide_history(c, &l0);
    let (f, p) = (c.rng.frange(-1.0, 1.0) as f32, c.rng.frange(-1.0, 1.0) as f32);
    c13_check(c, &l0, &toks, f, p, last)
}

pub fn c13() -> Prop {
    Prop {
        id: "C13",
        rule: "prepared logits, histories of 0..66k tokens, penalties of either sign and zero, windows around the history length; non-trivial: at least one penalised entry",
        workloads: vec![
            Workload {
                name: "any",
                quick: 4_000_000,
                thorough: 160_000_000,
                f: c13_any,
                need: &[
                    "disabled",
                    "counted more than once",
                    "presence only",
                    "frequency only",
                    "negative penalty",
                    "window shorter than the history",
                    "window longer than the history",
                ],
            },
            Workload { name: "large", quick: 400, thorough: 16_000, f: c13_large, need: &[] },
            Workload { name: "long", quick: 16_000, thorough: 640_000, f: c13_long, need: &["counted more than 256 times"] },
        ],
    }
}

// ---------------------------------------------------------------- C14

/// (start, end, must): history[start..end] is an occurrence of the sequence the history ends with, followed by
/// history[end]; `must` marks the ones any reading of the documentation has to find.
struct Occ {
    len: usize,
    next: u32,
    must: bool,
}

fn occurrences(seq: &[u32], min_len: usize, tol: usize, merge: usize) -> Vec<Occ> {
    let n = seq.len();
    let w = merge.max(1);
    let mut out = vec![];
    if n < 2 {
        return out;
    }
    // May be found: every interior token either matches or stands for 1..=w others, at most `tol` of them.
    for e in 1..n {
        // good[i][j][k]: tokens i.. of the ending match history[j..e] with at most k wildcards.
        let t1 = tol.min(n) + 1;
        let idx = |i: usize, j: usize, k: usize| (i * (e + 1) + j) * t1 + k;
        let mut good = vec![false; (n + 1) * (e + 1) * t1];
        for k in 0..t1 {
            good[idx(n, e, k)] = true;
        }
        for i in (0..n).rev() {
            for j in (0..e).rev() {
                for k in 0..t1 {
                    let mut g = seq[i] == seq[j] && good[idx(i + 1, j + 1, k)];
                    if !g && k > 0 && i + 1 < n {
                        for a in 1..=w.min(e - j) {
                            if good[idx(i + 1, j + a, k - 1)] {
                                g = true;
                                break;
                            }
                        }
                    }
                    good[idx(i, j, k)] = g;
                }
            }
        }
        for i0 in 0..=n.saturating_sub(min_len) {
            for s in 0..e {
                if seq[s] == seq[i0] && good[idx(i0, s, t1 - 1)] {
                    out.push(Occ { len: e - s + 1, next: seq[e], must: false });
                }
            }
        }
    }
    // Must be found: occurrences that do not overlap the ending and align without ambiguity.
    for len in min_len..=n / 2 {
        let needle = &seq[n - len..];
        for s in 0..n {
            // Same length, up to tol differing interior tokens; with merging they must not be adjacent.
            let e = s + len;
            if e <= n - len {
                let diff: Vec<usize> = (0..len).filter(|i| seq[s + i] != needle[*i]).collect();
                let interior = diff.iter().all(|d| *d > 0 && d + 1 < len);
                let apart = w == 1 || diff.windows(2).all(|x| x[1] - x[0] > 1);
                if diff.len() <= tol && interior && apart {
                    out.push(Occ { len: len + 1, next: seq[e], must: true });
                }
            }
            // One interior token standing for a tokens (2 <= a <= w), none of which would match early.
            if tol >= 1 {
                for a in 2..=w {
                    let e = s + len - 1 + a;
                    if e > n - len {
                        break;
                    }
                    for d in 1..len - 1 {
                        let ok = (0..d).all(|i| seq[s + i] == needle[i])
                            && seq[s + d] != needle[d]
                            && (1..a).all(|q| seq[s + d + q] != needle[d + 1])
                            && (d + 1..len).all(|i| seq[s + i - 1 + a] == needle[i]);
                        if ok {
                            out.push(Occ { len: len + a, next: seq[e], must: true });
                        }
                    }
                }
            }
        }
    }
    out
}

fn c14_check(c: &mut Case, l0: &Logits, toks: &[u32], p: (f32, f32), min_len: usize, tol: usize, merge: usize, last: usize) -> R {
    let (flat, stack) = p;
    c.fp(&[
        hash_logits(l0),
        hash_hist(toks),
        mix(&[flat.to_bits() as u64, stack.to_bits() as u64, min_len as u64, tol as u64, merge as u64, last as u64]),
    ]);
    let par = format!("flat={flat} stacking={stack} min_length={min_len} tolerance={tol} max_merge={merge} last_n={last} history {toks:?}");
    c.desc(|| par.clone());
    let mut l = l0.clone();
    let mut res = Res::new(None, Some(toks.to_vec()));
    let s = SampleSeqRepetition::new(flat, stack, min_len, tol, merge, last);
    c.event();
    drive(&mut c.rng, &s, &mut res, &mut l).map_err(|e| format!("failed: {e}"))?;
    let at = |e: String| format!("{par}, on {}: {e}", show(l0));
    ensure!(res.toks.as_deref() == Some(toks), "{}", at("the history was modified".into()));
    if last < min_len || min_len < 2 || (flat == 0.0 && stack == 0.0) {
        c.see("disabled");
        return same_all(l0, &l).map_err(|e| at(format!("disabled but: {e}")));
    }
    let occ = occurrences(window(toks, last), min_len, tol, merge);
    let mut must: HashMap<u32, usize> = HashMap::new();
    let mut may: HashMap<u32, Vec<usize>> = HashMap::new();
    for o in &occ {
        if o.must {
            let m = must.entry(o.next).or_insert(0);
            *m = (*m).max(o.len);
        }
        may.entry(o.next).or_default().push(o.len);
    }
    ensure!(l.len() == l0.len(), "{}", at("number of entries changed".into()));
    for (a, b) in l0.iter().zip(l.iter()) {
        let t = a.token_id;
        ensure!(b.token_id == t, "{}", at(format!("token {t} became {}", b.token_id)));
        let same = a.logit.to_bits() == b.logit.to_bits();
        let fits = |len: usize| {
            let d = flat as f64 + stack as f64 * len as f64;
            close(b.logit, a.logit as f64 - d, (a.logit.abs() as f64).max(flat.abs() as f64 + stack.abs() as f64 * len as f64).min(1e38))
        };
        let nothing = vec![];
        let lens = may.get(&t).unwrap_or(&nothing);
        match must.get(&t) {
            Some(&m) => {
                c.see("penalised");
                c.nontrivial();
                c.see_if(lens.iter().any(|x| *x > m), "longer ambiguous occurrence");
                if !lens.iter().any(|x| *x >= m && fits(*x)) {
                    return Err(at(format!(
                        "token {t} went from {:e} to {:e}; it continues an earlier occurrence of length {m} (with the continuing token; other readings {lens:?})",
                        a.logit, b.logit
                    )));
                }
            }
            None if !lens.is_empty() => {
                c.see("ambiguous occurrence only");
                ensure!(
                    same || lens.iter().any(|x| fits(*x)),
                    "{}",
                    at(format!("token {t} went from {:e} to {:e}; possible lengths {lens:?}", a.logit, b.logit))
                );
            }
            None => {
                c.see("not concerned");
                ensure!(same, "{}", at(format!("token {t} went from {:e} to {:e} but continues no occurrence", a.logit, b.logit)));
            }
        }
    }
    Ok(())
}

/// Histories over a small alphabet with planted near-repetitions of the ending.
fn c14_any(c: &mut Case) -> R {
    let r = &mut c.rng;
    let alpha = r.range(2, 9) as u32;
    let off = *r.pick(&[0u32, 0, 100, u32::MAX - 9]);
    let min_len = if r.chance(0.06) { r.range(0, 1) } else { r.range(2, 4) };
    let lax = r.chance(0.06);
    let tol = if lax { r.range(4, 9) } else { *r.pick(&[0usize, 0, 1, 1, 2, 3]) };
    let merge = if lax { *r.pick(&[0usize, 1, 1, 2]) } else { *r.pick(&[0usize, 1, 1, 2, 2, 3, 4]) };
    let max = if c.tiny { 14 } else { 26 };
    let mut toks: Vec<u32> = vec![];
    let plen = if lax { r.range(5, 11) } else { r.range(2, 6) };
    let odd = if lax { 0.6 } else { 0.25 };
    let phrase: Vec<u32> = (0..plen).map(|_| off + r.below(alpha as usize) as u32).collect();
    let parts = if lax { 1 } else { r.range(1, 3) };
    for _ in 0..parts {
        for _ in 0..r.below(4) {
            toks.push(off + r.below(alpha as usize) as u32);
        }
        for (i, x) in phrase.iter().enumerate() {
            // Replace an interior token by 1..4 others now and then.
            if i > 0 && i + 1 < plen && r.chance(odd) {
                for _ in 0..if lax { 1 } else { r.range(1, 4) } {
                    toks.push(off + r.below(alpha as usize) as u32);
                }
            } else {
                toks.push(*x);
            }
        }
    }
    for _ in 0..r.below(3) {
        toks.push(off + r.below(alpha as usize) as u32);
    }
    toks.extend(&phrase);
    if toks.len() > max {
        toks.drain(..toks.len() - max);
    }
    let last = match r.below(6) {
        0 => last_n(r, toks.len()),
        1 => r.range(0, toks.len()),
        2 => min_len,
        3 => 2 * min_len,
        _ => *r.pick(&[64, toks.len(), usize::MAX]),
    };
    let n = alpha as usize;
    let v = values(r, n, MILD);
    let (mut l, _) = prep(r, &v);
    // Candidates are (most of) the alphabet.
    let mut ids: Vec<u32> = (0..n as u32).map(|i| off + i).collect();
    r.shuffle(&mut ids);
    for (x, id) in l.iter_mut().zip(&ids) {
        x.token_id = *id;
    }
    if r.chance(0.2) {
        let i = r.below(n);
        l[i].token_id = off.wrapping_sub(1000);
    }
    let pens = *r.pick(&[(1.0f32, 0.0f32), (0.0, 1.0), (0.5, 0.25), (-0.5, 0.75), (2.0, -0.5), (0.3, 0.7), (0.5, -0.5), (-0.75, 0.0), (0.0, -0.5), (-0.5, -0.25)]);
    let pens = if r.chance(0.04) { (0.0, 0.0) } else { pens };
    c14_check(c, &l, &toks, pens, min_len, tol, merge, last)
}

/// Long histories over few tokens: bounded time and the exact (tolerance 0) result.
fn c14_long(c: &mut Case) -> R {
    let r = &mut c.rng;
    let n = if c.tiny {
        24
    } else if r.chance(0.01) {
        r.range(270, 330)
    } else if r.chance(0.03) {
        r.range(90, 400)
    } else {
        r.range(40, 90)
    };
    let plen = if n > 260 && r.chance(0.5) {
        // Longer than a byte can count.
        r.range(256, n - 2)
    } else if r.chance(0.2) { r.range(2, n / 2) } else { r.range(2, 12) };
    let mut toks: Vec<u32> = (0..n).map(|_| r.below(6) as u32).collect();
    let phrase: Vec<u32> = (0..plen).map(|_| r.below(8) as u32).collect();
    let at = r.below(n - plen);
    toks[at..at + plen].copy_from_slice(&phrase);
    toks.extend(&phrase);
    let v = values(r, 8, MILD);
    let (l, _) = prep(r, &v);
    let mut l = l;
    for (i, x) in l.iter_mut().enumerate() {
        x.token_id = i as u32;
    }
    let last = *r.pick(&[usize::MAX, 64, n, n + plen, n + plen, 40]);
    let min_len = if r.chance(0.2) { plen.min(r.range(2, 60)) } else { r.range(2, 6) };
    c14_check(c, &l, &toks, (0.25, 0.5), min_len, 0, 1, last)
}

pub fn c14() -> Prop {
    Prop {
        id: "C14",
        rule: "histories of 2..100 tokens over small alphabets with planted exact and fuzzy repetitions of the ending, all settings; non-trivial: some candidate continues an occurrence that must be found",
        workloads: vec![
            Workload {
                name: "planted",
                quick: 750_000,
                thorough: 30_000_000,
                f: c14_any,
                need: &["disabled", "penalised", "ambiguous occurrence only", "not concerned", "longer ambiguous occurrence"],
            },
            Workload { name: "long", quick: 7_500, thorough: 300_000, f: c14_long, need: &[] },
        ],
    }
}

// ---------------------------------------------------------------- C15

fn c15_any(c: &mut Case) -> R {
    let l0 = logits_in(&mut c.rng, 300, ANY);
    c15_check(c, l0)
}

fn c15_large(c: &mut Case) -> R {
    let l0 = big_logits(&mut c.rng, ANY);
    c15_check(c, l0)
}

fn c15_check(c: &mut Case, l0: Logits) -> R {
    let r = &mut c.rng;
    let t = match r.below(12) {
        0 => 0.0,
        1 => -0.0,
        2 => 1.0,
        3 => *r.pick(&[1e-3f32, 1e3, 1e-20, 1e20, 0.25, 4.0, 1e30, 1e38, f32::MAX, -1e30, -f32::MAX]),
        6 if r.chance(0.3) => {
            // Below 2^-128 the reciprocal is not a number of this type.
            let t = f32::from_bits(r.range(1, 0x20_0000) as u32);
            if r.chance(0.3) {
                -t
            } else {
                t
            }
        }
        4 | 5 => -(r.frange(0.05, 5.0) as f32),
        _ => (10f64).powf(r.frange(-1.3, 1.3)) as f32,
    };
    c.fp(&[hash_logits(&l0), t.to_bits() as u64]);
    c.desc(|| format!("t={t:e} {}", show(&l0)));
    c.nontrivial_if(!l0.is_empty() && t != 0.0);
    let mut l = l0.clone();
    let s = SampleTemperature::new(t);
    c.event();
    drive(&mut c.rng, &s, &mut (), &mut l).map_err(|e| format!("failed: {e}"))?;
    let at = |e: String| format!("t={t:e} on {} (sorted={} softmax={}): {e}", show(&l0), l0.get_sorted(), l0.get_softmax());
    if t == 0.0 {
        c.see("disabled");
        return same_all(&l0, &l).map_err(|e| at(format!("disabled but: {e}")));
    }
    c.see_if(t < 0.0, "negative temperature");
    c.see_if(t.abs() < 1e-39, "subnormal temperature");
    c.see_if(l0.get_softmax() && t > 0.0, "softmaxed before");
    judge(&l0, &l, |_, x| {
        let w = x.logit as f64 / t as f64;
        Some((w, w.abs()))
    })
    .map_err(at)?;
    if t > 0.0 {
        for (i, w) in l0.windows(2).enumerate() {
            if w[0].logit >= w[1].logit {
                ensure!(l[i].logit >= l[i + 1].logit, "{}", at(format!("ranking of entries {i} and {} reversed", i + 1)));
            }
        }
    }
    if in_domain(&l) {
        let vals = snap(&l);
        l.ensure_softmax().map_err(|e| at(format!("softmax afterwards failed: {e}")))?;
        flags_truthful(&l).map_err(|e| at(format!("softmax afterwards: {e}")))?;
        subset_of(&l, &vals).map_err(at)?;
        c.see("softmax after scaling checked");
    }
    Ok(())
}

pub fn c15() -> Prop {
    Prop {
        id: "C15",
        rule: "prepared logits (incl. already softmaxed) scaled by positive, negative, tiny, huge and zero temperatures; non-trivial: entries present and t != 0",
        workloads: vec![
            Workload {
                name: "any",
                quick: 5_000_000,
                thorough: 200_000_000,
                f: c15_any,
                need: &["disabled", "negative temperature", "subnormal temperature", "softmaxed before", "softmax after scaling checked"],
            },
            Workload { name: "large", quick: 400, thorough: 16_000, f: c15_large, need: &[] },
        ],
    }
}
