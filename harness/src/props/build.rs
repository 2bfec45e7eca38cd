//! C01 construction, C02 top-k construction, C03 sorting and softmax.

use crate::core::*;
use crate::gen::*;
use crate::model::*;
use crate::rng::{mix, Rng};
use llm_samplers::prelude::*;

/// Raw input values, including NaN and infinities of every kind.
fn raw(r: &mut Rng, n: usize, nan: f64, inf: f64) -> Vec<f32> {
    let mut v = values(r, n, ANY);
    if r.chance(nan) && n > 0 {
        for _ in 0..r.range(1, 3) {
            let i = if r.chance(0.3) { *r.pick(&[0, n - 1]) } else { r.below(n) };
            v[i] = *r.pick(&[
                f32::NAN,
                -f32::NAN,
                f32::from_bits(0x7f80_0001),
                f32::from_bits(0xffff_ffff),
            ]);
        }
    }
    if r.chance(inf) && n > 0 {
        for _ in 0..r.range(1, 3) {
            let i = r.below(n);
            v[i] = *r.pick(&[f32::INFINITY, NI]);
        }
    }
    v
}

fn hash_vals(v: &[f32]) -> u64 {
    v.iter().take(2048).fold(v.len() as u64, |h, x| mix(&[h, x.to_bits() as u64]))
}

/// Iterators that are not slices: no size information, or chained parts.
fn build_via(how: usize, v: &[f32]) -> Result<Logits, LogitsError> {
    match how {
        0 => Logits::try_from_iter(v.iter().copied()),
        1 => Logits::try_from(v.to_vec()),
        2 => Logits::try_from_iter(v.to_vec()),
        3 => {
            let mut it = v.iter();
            Logits::try_from_iter(std::iter::from_fn(move || it.next().copied()))
        }
        _ => {
            let (a, b) = v.split_at(v.len() / 2);
            Logits::try_from_iter(a.iter().copied().chain(b.iter().copied()))
        }
    }
}

fn c01_check(c: &mut Case, v: &[f32]) -> R {
    let first_nan = v.iter().position(|x| x.is_nan());
    c.desc(|| format!("n={} first NaN {:?} head {:?}", v.len(), first_nan, &v[..v.len().min(6)]));
    c.fp(&[hash_vals(v)]);
    c.nontrivial_if(!v.is_empty());
    for how in 0..5 {
        c.event();
        match (build_via(how, v), first_nan) {
            (Ok(l), None) => {
                c.see("built");
                ensure!(l.len() == v.len(), "built {} entries from {} values (way {how})", l.len(), v.len());
                ensure!(
                    !l.get_sorted() && !l.get_softmax(),
                    "new logits marked sorted={} softmaxed={}",
                    l.get_sorted(),
                    l.get_softmax()
                );
                for (i, (e, x)) in l.iter().zip(v).enumerate() {
                    ensure!(e.token_id as usize == i, "position {i} has token id {} (way {how})", e.token_id);
                    ensure!(
                        e.logit.to_bits() == x.to_bits(),
                        "position {i}: value {x:e} ({:#x}) became {:e}",
                        x.to_bits(),
                        e.logit
                    );
                    ensure!(e.prob == 0.0, "position {i}: probability {:e}", e.prob);
                }
            }
            (Err(LogitsError::InvalidLogit(i)), Some(w)) => {
                c.see("rejected NaN");
                c.see_if(w > 0, "rejected NaN not first");
                ensure!(i == w, "first NaN is at {w}, reported {i} (way {how})");
            }
            (Ok(_), Some(w)) => return Err(format!("accepted NaN at {w} (way {how})")),
            (Err(e), w) => return Err(format!("unexpected error {e:?}, first NaN {w:?} (way {how})")),
        }
    }
    Ok(())
}

fn c01_any(c: &mut Case) -> R {
    let n = size(&mut c.rng, 400);
    let v = raw(&mut c.rng, n, 0.4, 0.3);
    c01_check(c, &v)
}

fn c01_large(c: &mut Case) -> R {
    let n = if c.tiny { 300 } else { *c.rng.pick(&[255usize, 256, 257, 4096, 32_000, 65_535, 65_536, 65_537, 128_256, 200_000]) };
    let mut v: Vec<f32> = (0..n).map(|i| (i as f32 * 0.37).sin()).collect();
    c.see_if(n > 65_536, "more than 2^16 values");
    if c.rng.chance(0.5) {
        let i = n - 1 - c.rng.below(n / 8);
        v[i] = f32::NAN;
    }
    c01_check(c, &v)
}

/// Beyond the sizes at which ids would not fit in fewer bits (or in a float).
fn huge_len(c: &mut Case) -> usize {
    if c.tiny {
        300
    } else if c.rng.chance(if c.thorough { 0.1 } else { 0.04 }) {
        *c.rng.pick(&[(1 << 24) + 3, (1 << 24) - 1, (1 << 23) + 1])
    } else {
        *c.rng.pick(&[262_143usize, 262_144, 262_146, 300_001, 524_289, 700_003, 1_048_577, 2_097_154])
    }
}

fn c01_huge(c: &mut Case) -> R {
    let n = huge_len(c);
    let mut v: Vec<f32> = (0..n).map(|i| (i % 4099) as f32 * 0.37).collect();
    c.see_if(n > 1 << 20, "more than 2^20 values");
    if c.rng.chance(0.3) {
        v[n - 1 - c.rng.below(8)] = f32::NAN;
    }
    let first_nan = v.iter().position(|x| x.is_nan());
    c.fp(&[n as u64, first_nan.unwrap_or(0) as u64]);
    c.nontrivial();
    c.desc(|| format!("n={n} first NaN {first_nan:?}"));
    c.event();
    let how = c.rng.below(4);
    match (build_via(how, &v), first_nan) {
        (Ok(l), None) => {
            ensure!(l.len() == n, "built {} entries from {n} values", l.len());
            for (i, e) in l.iter().enumerate() {
                ensure!(e.token_id as usize == i, "position {i} has token id {} ({n} values, way {how})", e.token_id);
                ensure!(e.logit.to_bits() == v[i].to_bits() && e.prob == 0.0, "position {i} has {:e}/{:e} instead of {:e}/0", e.logit, e.prob, v[i]);
            }
            Ok(())
        }
        (Err(LogitsError::InvalidLogit(i)), Some(w)) => {
            ensure!(i == w, "first NaN is at {w}, reported {i}");
            Ok(())
        }
        (Ok(_), Some(w)) => Err(format!("accepted NaN at {w} of {n}")),
        (Err(e), w) => Err(format!("unexpected error {e:?} for {n} values, first NaN {w:?}")),
    }
}

pub fn c01() -> Prop {
    Prop {
        id: "C01",
        rule: "value lists of 0..17M entries in 15 shapes with NaN/inf/-0/subnormal injections, built in 5 ways (slice, Vec, TryFrom, unsized iterator, chained); non-trivial: at least one value",
        workloads: vec![
            Workload { name: "any", quick: 1_800_000, thorough: 72_000_000, f: c01_any, need: &["built", "rejected NaN not first"] },
            Workload { name: "large", quick: 1_900, thorough: 76_000, f: c01_large, need: &["more than 2^16 values"] },
            Workload { name: "huge", quick: 100, thorough: 2_000, f: c01_huge, need: &["more than 2^20 values"] },
        ],
    }
}

// ---------------------------------------------------------------- C02

fn c02_check(c: &mut Case, v: &[f32], k: usize) -> R {
    let mut fin: Vec<(usize, f32)> = v.iter().copied().enumerate().filter(|x| x.1.is_finite()).collect();
    fin.sort_by(|a, b| b.1.partial_cmp(&a.1).unwrap());
    let want = fin.len().min(k);
    c.desc(|| format!("n={} finite={} k={k} head {:?}", v.len(), fin.len(), &v[..v.len().min(6)]));
    c.fp(&[hash_vals(v), k as u64]);
    c.nontrivial_if(!v.is_empty() && k > 0);
    c.see_if(fin.len() > k && k > 0, "some finite values dropped");
    c.see_if(fin.len() < v.len(), "non-finite values present");
    c.see_if(k == usize::MAX, "largest k");
    c.see_if(k > 1 << 16 && want > 1 << 16, "more than 2^16 kept");
    c.see_if(k == 0, "k is 0");
    c.see_if(want > 0 && want < fin.len() && fin[want - 1].1 == fin[want].1, "tie at the cut");
    for how in 0..2 {
        c.event();
        let l = match how {
            0 => Logits::try_from_iter_top_k(v.iter().copied(), k),
            _ => {
                let mut it = v.to_vec().into_iter();
                Logits::try_from_iter_top_k(std::iter::from_fn(move || it.next()), k)
            }
        }
        .map_err(|e| format!("failed: {e:?}"))?;
        ensure!(l.len() == want, "{} entries, expected {want}", l.len());
        if want > 0 {
            ensure!(l.get_sorted(), "result is not marked sorted");
        }
        ensure!(!l.get_softmax() || l.is_empty(), "result is marked softmaxed");
        let mut used = std::collections::HashSet::new();
        for (i, e) in l.iter().enumerate() {
            ensure!(e.logit.is_finite(), "entry {i} is {:e}", e.logit);
            ensure!(e.logit == fin[i].1, "entry {i} is {:e}, the {i}th largest finite value is {:e}", e.logit, fin[i].1);
            let src = v.get(e.token_id as usize).copied();
            ensure!(
                src.map(f32::to_bits) == Some(e.logit.to_bits()),
                "entry {i} has token id {} but the value at that position is {src:?}, not {:e}",
                e.token_id,
                e.logit
            );
            ensure!(used.insert(e.token_id), "token id {} twice", e.token_id);
            ensure!(e.prob == 0.0, "entry {i} has probability {:e}", e.prob);
        }
        // Probabilities computed later are those of the entries present.
        let mut s = l.clone();
        s.ensure_softmax().map_err(|e| format!("softmax failed: {e}"))?;
        flags_truthful(&s)?;
    }
    Ok(())
}

fn c02_any(c: &mut Case) -> R {
    let n = size(&mut c.rng, 400);
    let v = raw(&mut c.rng, n, 0.3, 0.3);
    let r = &mut c.rng;
    let k = match r.below(8) {
        0 => 0,
        1 => 1,
        2 => huge(r),
        3 => n,
        4 => n.saturating_sub(1),
        5 => n + 1,
        _ => r.range(0, n),
    };
    c02_check(c, &v, k)
}

fn c02_large(c: &mut Case) -> R {
    let n = if c.tiny { 200 } else { *c.rng.pick(&[5_000usize, 32_000, 66_000, 130_000]) };
    let v = raw(&mut c.rng, n, 0.5, 0.5);
    let k = *c.rng.pick(&[1usize, 40, 500, 2000, n, usize::MAX - 1]);
    if n > 5_000 && k > 2000 {
        // Inserting is quadratic unless the values mostly come in order.
        let mut v = v;
        v.sort_by(|a, b| b.total_cmp(a));
        for _ in 0..50 {
            let (i, j) = (c.rng.below(n), c.rng.below(n));
            v.swap(i, j);
        }
        let k = *c.rng.pick(&[k, 65_536, 65_537, n - 1, n - 300]);
        return c02_check(c, &v, k);
    }
    c02_check(c, &v, k)
}

/// The largest values far into a long input.
fn c02_huge(c: &mut Case) -> R {
    let n = huge_len(c);
    let k = c.rng.range(1, 30);
    let mut v: Vec<f32> = (0..n).map(|i| -1.0 - (i % 4099) as f32).collect();
    for _ in 0..c.rng.range(1, 60) {
        let i = if c.rng.chance(0.6) { n - 1 - c.rng.below(n / 50) } else { c.rng.below(n) };
        v[i] = c.rng.frange(0.0, 100.0) as f32;
    }
    c02_check(c, &v, k)
}

pub fn c02() -> Prop {
    Prop {
        id: "C02",
        rule: "value lists as for C01 with k from 0,1,n-1,n,n+1,random,usize::MAX; non-trivial: values present and k>0",
        workloads: vec![
            Workload {
                name: "any",
                quick: 2_500_000,
                thorough: 100_000_000,
                f: c02_any,
                need: &["some finite values dropped", "non-finite values present", "largest k", "k is 0", "tie at the cut"],
            },
            Workload { name: "large", quick: 600, thorough: 24_000, f: c02_large, need: &[] },
            Workload { name: "huge", quick: 60, thorough: 1_500, f: c02_huge, need: &[] },
        ],
    }
}

// ---------------------------------------------------------------- C03

fn c03_check(c: &mut Case, l0: &Logits) -> R {
    c.fp(&[hash_logits(l0)]);
    c.desc(|| format!("sorted={} softmax={} {}", l0.get_sorted(), l0.get_softmax(), show(l0)));
    c.nontrivial_if(l0.len() > 1);
    c.see_if(l0.get_softmax() && !l0.get_sorted(), "softmaxed but not sorted input");
    let multi = |l: &Logits, prob: bool| {
        let mut m: Vec<_> = l.iter().map(|x| (x.token_id, x.logit.to_bits(), if prob { x.prob.to_bits() } else { 0 })).collect();
        m.sort_unstable();
        m
    };
    // Sorting.
    let mut s = l0.clone();
    c.event();
    s.ensure_sorted().map_err(|e| format!("ensure_sorted failed: {e}"))?;
    ensure!(multi(&s, true) == multi(l0, true), "sorting did not permute the entries: {} -> {}", show(l0), show(&s));
    ensure!(is_desc(&s), "not in descending order after ensure_sorted: {}", show(&s));
    ensure!(s.get_sorted(), "not marked sorted after ensure_sorted");
    if l0.get_softmax() {
        // Reordering does not invalidate the probabilities.
        flags_truthful(&s)?;
    } else {
        ensure!(!s.get_softmax() || s.is_empty(), "sorting marked the logits softmaxed");
    }
    let again = s.clone();
    s.ensure_sorted().map_err(|e| format!("second ensure_sorted failed: {e}"))?;
    same_all(&again, &s).map_err(|e| format!("ensure_sorted is not idempotent: {e}"))?;
    // Softmax, from the original and from the sorted state.
    for (from, mut x) in [("unprepared", l0.clone()), ("sorted", s)] {
        c.event();
        x.ensure_softmax().map_err(|e| format!("ensure_softmax failed: {e}"))?;
        ensure!(multi(&x, false) == multi(l0, false), "softmax changed values or token ids ({from})");
        ensure!(is_desc(&x), "not sorted after ensure_softmax ({from}): {}", show(&x));
        ensure!(x.get_softmax() && x.get_sorted(), "flags after ensure_softmax: sorted={} softmax={}", x.get_sorted(), x.get_softmax());
        flags_truthful(&x)?;
        if !x.is_empty() {
            let sum: f64 = x.iter().map(|e| e.prob as f64).sum();
            ensure!((sum - 1.0).abs() < 3e-6 + x.len() as f64 * 1.3e-7, "probabilities sum to {sum}");
        }
        let again = x.clone();
        x.ensure_softmax().map_err(|e| format!("second ensure_softmax failed: {e}"))?;
        same_all(&again, &x).map_err(|e| format!("ensure_softmax is not idempotent: {e}"))?;
        x.ensure_sorted().map_err(|e| format!("ensure_sorted after softmax failed: {e}"))?;
        same_all(&again, &x).map_err(|e| format!("ensure_sorted after ensure_softmax changed something: {e}"))?;
    }
    Ok(())
}

fn c03_any(c: &mut Case) -> R {
    let n = size(&mut c.rng, 3000);
    let v = values(&mut c.rng, n, ANY);
    let (mut l, p) = prep(&mut c.rng, &v);
    if p == Prep::Softmax && c.rng.chance(0.4) {
        // Probabilities valid, order lost: what a caller shuffling the entries declares.
        c.rng.shuffle(&mut l);
        l.set_sorted(false);
    }
    c.see_if(v.iter().any(|x| *x == NI), "banned values");
    c.see_if(p == Prep::Stale || p == Prep::SortedStale, "stale probabilities");
    c03_check(c, &l)
}

fn c03_large(c: &mut Case) -> R {
    let n = if c.tiny { 300 } else { *c.rng.pick(&[10_000usize, 65_537, 150_000]) };
    let v = values(&mut c.rng, n, ANY);
    let (l, _) = prep(&mut c.rng, &v);
    c03_check(c, &l)
}

pub fn c03() -> Prop {
    Prop {
        id: "C03",
        rule: "prepared logits (fresh, stale probabilities, sorted, softmaxed, softmaxed then shuffled; remapped ids) of 0..150k entries in 15 value shapes; non-trivial: at least two entries",
        workloads: vec![
            Workload {
                name: "any",
                quick: 840_000,
                thorough: 33_600_000,
                f: c03_any,
                need: &["banned values", "stale probabilities", "softmaxed but not sorted input"],
            },
            Workload { name: "large", quick: 280, thorough: 11_200, f: c03_large, need: &[] },
        ],
    }
}
