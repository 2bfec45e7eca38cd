//! C06 top-k, C07 top-p, C08 min-p and top-a, C09 locally typical, C10 tail free.

use crate::core::*;
use crate::gen::*;
use crate::model::*;
use crate::rng::Rng;
use llm_samplers::prelude::*;

/// Logits for a filter test: prepared, sometimes already processed by other samplers, in the domain.
pub fn input(c: &mut Case, d: Dom, max: usize) -> Logits {
    loop {
        let r = &mut c.rng;
        let n = size(r, max);
        let v = values(r, n, d);
        let (mut l, _) = prep(r, &v);
        if r.chance(0.35) && !l.is_empty() {
            let toks = history(r, &l, 12);
            let mut res = Res::new(Some(Stream::random(r)), Some(toks.clone()));
            for _ in 0..r.range(1, 2) {
                let before = l.clone();
                let mut a = any_sampler(r, &l, toks.len(), TAME);
                let _ = a.run(&mut res, &mut l);
                if !super::pipe::in_domain(&l) || (!d.neg_inf && l.iter().any(|x| x.logit == NI)) {
                    l = before;
                }
            }
        }
        if l.is_empty() || super::pipe::in_domain(&l) {
            return l;
        }
    }
}

/// 2^k equal values, optionally followed by -inf ones: every probability and partial sum is exact in f32.
pub fn dyadic(r: &mut Rng, maxk: usize, tail: bool) -> (Logits, usize, usize) {
    let k = if maxk > 5 && r.chance(2e-4) { r.range(10, 17) } else { r.range(0, maxk) };
    let n = 1usize << k;
    let m = if tail { r.range(0, 4) } else { 0 };
    let x = *r.pick(&[0.0f32, 1.0, -3.5, 20.0]);
    let mut v = vec![x; n];
    v.extend(vec![NI; m]);
    if r.chance(0.5) {
        r.shuffle(&mut v);
    }
    let (l, _) = prep(r, &v);
    (l, k, m)
}

fn nudge(r: &mut Rng, x: f32) -> (f32, i32) {
    match r.below(3) {
        0 => (x, 0),
        1 => (x.next_up(), 1),
        _ => (x.next_down(), -1),
    }
}

fn run<S: Sampler + Clone + 'static>(r: &mut Rng, a: S, l: &mut Logits) -> R {
    let n = l.len();
    let res = match r.below(3) {
        0 => drive(r, &a, &mut (), l),
        1 => drive(r, &a, &mut NilSamplerResources::new(), l),
        _ => drive(r, &a, &mut Res::new(Some(Stream::Const(0)), Some(vec![1, 2, 3])), l),
    };
    res.map(|_| ()).map_err(|e| format!("failed on {n} entries: {e}"))
}

fn sorted_input(l: &Logits) -> Vec<Logit> {
    let mut s = snap(l);
    s.sort_by(|a, b| b.logit.partial_cmp(&a.logit).unwrap());
    s
}

// ---------------------------------------------------------------- C06

fn c06_any(c: &mut Case) -> R {
    let l0 = input(c, ANY, 600);
    c06_check(c, l0)
}

fn c06_large(c: &mut Case) -> R {
    let l0 = big_logits(&mut c.rng, ANY);
    c06_check(c, l0)
}

fn c06_check(c: &mut Case, l0: Logits) -> R {
    let n = l0.len();
    let r = &mut c.rng;
    let k = match r.below(8) {
        0 => 0,
        1 => huge(r),
        2 => n,
        3 => n + 1,
        4 => n.saturating_sub(1),
        _ => r.range(0, n),
    };
    let mk = match r.below(8) {
        0 => huge(r),
        1 => n,
        2 => 0,
        3..=5 => 1,
        _ => r.range(0, n + 1),
    };
    c.fp(&[hash_logits(&l0), k as u64, mk as u64]);
    c.desc(|| format!("k={k} min_keep={mk} {}", show(&l0)));
    c.nontrivial_if(n > 1);
    let want = n.min(k.max(mk));
    c.see_if(want == n && n > 1 && !l0.get_sorted(), "nothing to remove, unsorted");
    c.see_if(want < n && want > 0, "some removed");
    c.see_if(mk > k && want < n && want > 0, "minimum above k");
    let mut l = l0.clone();
    let a = SampleTopK::new(k, mk);
    c.event();
    run(&mut c.rng, a.clone(), &mut l)?;
    ensure!(l.len() == want, "k={k} min_keep={mk}: {} entries of {n} kept, expected {want} ({})", l.len(), show(&l0));
    top_prefix(&l, &l0).map_err(|e| format!("k={k} min_keep={mk} on {}: {e}; output {}", show(&l0), show(&l)))?;
    // A second run with the same settings changes nothing more.
    let s1 = snap(&l);
    run(&mut c.rng, a, &mut l)?;
    ensure!(l.len() == want, "second run kept {} instead of {want}", l.len());
    top_prefix(&l, &s1)?;
    Ok(())
}

pub fn c06() -> Prop {
    Prop {
        id: "C06",
        rule: "prepared or pre-filtered logits of 0..600 entries (-inf, ties, huge values), k and min_keep around the size; non-trivial: at least two entries",
        workloads: vec![
            Workload {
                name: "any",
                quick: 3_200_000,
                thorough: 128_000_000,
                f: c06_any,
                need: &["nothing to remove, unsorted", "some removed", "minimum above k"],
            },
            Workload { name: "large", quick: 400, thorough: 16_000, f: c06_large, need: &[] },
        ],
    }
}

// ---------------------------------------------------------------- prefix oracle

/// `stop(i)`: whether a prefix of i entries suffices. The output length must be the first sufficing one.
fn prefix_len_ok(len: usize, n: usize, from: usize, stop: impl Fn(usize) -> Tri) -> Result<bool, String> {
    let mut banded = false;
    let from = from.min(n);
    if len < from {
        return Err(format!("{len} of {n} entries kept, at least {from} required"));
    }
    for i in from..len {
        match stop(i) {
            Tri::Yes => return Err(format!("{len} of {n} entries kept although {i} suffice")),
            Tri::Either => banded = true,
            Tri::No => {}
        }
    }
    if len < n {
        match stop(len) {
            Tri::No => return Err(format!("{len} of {n} entries kept, which does not suffice")),
            Tri::Either => banded = true,
            Tri::Yes => {}
        }
    }
    Ok(banded)
}

// ---------------------------------------------------------------- C07

fn c07_check(c: &mut Case, l0: &Logits, p: f32, mk: usize) -> R {
    c.fp(&[hash_logits(l0), p.to_bits() as u64, mk as u64]);
    c.desc(|| format!("p={p:e} min_keep={mk} {}", show(l0)));
    let n = l0.len();
    c.nontrivial_if(n > 1);
    let mut l = l0.clone();
    c.event();
    run(&mut c.rng, SampleTopP::new(p, mk), &mut l)?;
    let at = |e: String| format!("p={p:e} min_keep={mk} on {} (sorted={} softmax={}): {e}; output {}", show(l0), l0.get_sorted(), l0.get_softmax(), show(&l));
    top_prefix(&l, l0).map_err(at)?;
    if n == 0 {
        return Ok(());
    }
    let s = sorted_input(l0);
    let sm = soft_of(&s);
    let mut cum = vec![0f64];
    let mut tol = vec![0f64];
    for i in 0..n {
        cum.push(cum[i] + sm.p[i]);
        tol.push(tol[i] + sm.tol(i));
    }
    // Summation error of any f32 evaluation.
    let stop = |i: usize| cmp_ge(cum[i], p as f64, tol[i] + i as f64 * 6.0e-8 * cum[i]);
    let from = if p <= 0.0 && mk == 0 { 0 } else { mk.max(1) };
    let b = prefix_len_ok(l.len(), n, from, |i| if i == 0 { Tri::Either } else { stop(i) }).map_err(at)?;
    c.see_if(b, "inside a rounding band");
    c.see_if(l.len() < n, "some removed");
    c.see_if(l.len() == n && n > 1, "everything kept");
    c.see_if(mk > 1 && l.len() == mk && mk < n, "held by the minimum");
    Ok(())
}

fn c07_any(c: &mut Case) -> R {
    let l = input(c, ANY, 300);
    let p = if c.rng.chance(0.03) { *c.rng.pick(&[-0.5f32, 1.5, f32::MAX]) } else { p01(&mut c.rng) };
    let mk = keep(&mut c.rng, l.len());
    c07_check(c, &l, p, mk)
}

fn c07_large(c: &mut Case) -> R {
    let l = big_logits(&mut c.rng, ANY);
    let p = p01(&mut c.rng);
    let mk = keep(&mut c.rng, l.len());
    c07_check(c, &l, p, mk)
}

fn c07_exact(c: &mut Case) -> R {
    let (l0, k, m) = dyadic(&mut c.rng, if c.tiny { 4 } else { 9 }, true);
    let n = 1usize << k;
    let j = c.rng.range(1, n);
    let (p, side) = nudge(&mut c.rng, j as f32 / n as f32);
    let mk = if c.rng.chance(0.7) { c.rng.range(0, 1) } else { c.rng.range(0, n + m + 1) };
    c.fp(&[k as u64, m as u64, j as u64, p.to_bits() as u64, mk as u64]);
    c.nontrivial();
    c.desc(|| format!("uniform 2^{k} plus {m} banned, p={p:e} (j={j}) min_keep={mk}"));
    let suff = if side > 0 { j + 1 } else { j };
    let total = n + m;
    let want = if suff > n { total } else { suff.max(mk).min(total) };
    let mut l = l0.clone();
    c.event();
    run(&mut c.rng, SampleTopP::new(p, mk), &mut l)?;
    c.see_if(side == 0, "exactly at the threshold");
    ensure!(
        l.len() == want,
        "uniform over {n} tokens plus {m} banned, p={p:e} ({j}/{n} {side:+} ulp), min_keep={mk}: kept {}, expected {want}",
        l.len()
    );
    top_prefix(&l, &l0)
}

pub fn c07() -> Prop {
    Prop {
        id: "C07",
        rule: "prepared or pre-filtered logits with p and min_keep; 'exact' uses uniform distributions over 2^k tokens where p sits on, just above or just below a partial sum; non-trivial: at least two entries",
        workloads: vec![
            Workload {
                name: "any",
                quick: 1_800_000,
                thorough: 72_000_000,
                f: c07_any,
                need: &["some removed", "everything kept", "held by the minimum"],
            },
            Workload { name: "large", quick: 400, thorough: 16_000, f: c07_large, need: &[] },
            Workload { name: "exact", quick: 900_000, thorough: 36_000_000, f: c07_exact, need: &["exactly at the threshold"] },
        ],
    }
}

// ---------------------------------------------------------------- C08

#[derive(Debug, Clone, Copy)]
enum Thr {
    MinP(f32),
    TopA(f32, f32),
}

fn c08_run(r: &mut Rng, t: Thr, mk: usize, l: &mut Logits) -> R {
    match t {
        Thr::MinP(p) => run(r, SampleMinP::new(p, mk), l),
        Thr::TopA(a1, a2) => run(r, SampleTopA::new(a1, a2, mk), l),
    }
}

fn c08_any(c: &mut Case) -> R {
    let l0 = input(c, ANY, 300);
    c08_check(c, l0)
}

fn c08_large(c: &mut Case) -> R {
    let l0 = big_logits(&mut c.rng, ANY);
    c08_check(c, l0)
}

fn c08_check(c: &mut Case, l0: Logits) -> R {
    let n = l0.len();
    let mk = keep(&mut c.rng, n);
    let r = &mut c.rng;
    let t = if r.chance(0.5) {
        Thr::MinP(match r.below(40) {
            0 | 1 => 1.5,
            // Nothing lies below a negative threshold.
            2 => -p01(r),
            3 => *r.pick(&[-0.0f32, -1.5, 1e-30, -1e-30, 1e30]),
            _ => p01(r),
        })
    } else {
        let a2 = match r.below(20) {
            0 => -(r.frange(0.0, 3.0) as f32),
            1 => *r.pick(&[-0.0f32, 1e-20, 10.0, 30.0]),
            2..=14 => *r.pick(&[0.0f32, 0.5, 1.0, 2.0, 3.0]),
            _ => r.frange(0.0, 4.0) as f32,
        };
        let a1 = match r.below(20) {
            0 => -p01(r),
            1 => *r.pick(&[-0.0f32, 1e-30, -2.0, 1e6]),
            2..=14 => p01(r),
            _ => r.frange(0.0, 4.0) as f32,
        };
        Thr::TopA(a1, a2)
    };
    c.fp(&[hash_logits(&l0), mk as u64, c.rng.clone().u64()]);
    c.desc(|| format!("{t:?} min_keep={mk} {}", show(&l0)));
    c.nontrivial_if(n > 1);
    let mut l = l0.clone();
    c.event();
    c08_run(&mut c.rng, t, mk, &mut l)?;
    let at = |e: String| format!("{t:?} min_keep={mk} on {} (sorted={} softmax={}): {e}; output {}", show(&l0), l0.get_sorted(), l0.get_softmax(), show(&l));
    let off = match t {
        Thr::MinP(p) => p == 0.0,
        Thr::TopA(a1, a2) => a1 == 0.0 || a2 == 0.0,
    };
    if off {
        c.see("disabled");
        return same_all(&l0, &l).map_err(|e| at(format!("disabled but changed the logits: {e}")));
    }
    top_prefix(&l, &l0).map_err(at)?;
    if n == 0 {
        return Ok(());
    }
    let s = sorted_input(&l0);
    let sm = soft_of(&s);
    let (thr, trel) = match t {
        Thr::MinP(p) => (p as f64 * sm.p[0], sm.rel[0] + 1e-6),
        // powf: relative error a2 * rel plus a few ulp.
        Thr::TopA(a1, a2) => (a1 as f64 * sm.p[0].powf(a2 as f64), sm.rel[0] * ((a2 as f64).abs() + 1.0) + 2e-6),
    };
    let floor = mk.max(1).min(n);
    // Comparing logarithms instead of probabilities is as good, and loses a little more.
    let trel = trel + 1.3e-7 * (s[0].logit.abs() as f64).min(1e4);
    let tiny = match t {
        // The power alone may be too small for a number.
        Thr::TopA(a1, _) => TINY * (a1.abs() as f64).max(1.0),
        _ => TINY,
    };
    let above = |i: usize| {
        // Where values are so large that the logarithm of p is lost beside them.
        let d = (thr / sm.p[0]).ln() - (s[i].logit as f64 - s[0].logit as f64);
        if s[0].logit.abs() > 1e4 && d.abs() <= 1.3e-7 * s[0].logit.abs() as f64 {
            return Tri::Either;
        }
        cmp_ge(sm.p[i], thr, sm.tol(i) + thr.abs() * trel + tiny)
    };
    ensure!(l.len() >= floor, "{}", at(format!("{} kept, at least {floor} required", l.len())));
    let mut banded = false;
    for i in floor..n {
        match (above(i), i < l.len()) {
            (Tri::Yes, false) => return Err(at(format!("entry {i} (p={:e}) removed, threshold {thr:e}", sm.p[i]))),
            (Tri::No, true) => return Err(at(format!("entry {i} (p={:e}) kept, threshold {thr:e}", sm.p[i]))),
            (Tri::Either, _) => banded = true,
            _ => {}
        }
    }
    c.see_if(banded, "inside a rounding band");
    c.see_if(thr < 0.0 && n > floor, "negative threshold");
    let min = matches!(t, Thr::MinP(_));
    c.see_if(l.len() < n && min, "min-p removed some");
    c.see_if(l.len() < n && !min, "top-a removed some");
    c.see_if(l.len() > floor && l.len() < n, "cut above the minimum");
    c.see_if(mk > 1 && l.len() == mk && mk < n, "held by the minimum");
    Ok(())
}

fn c08_exact(c: &mut Case) -> R {
    let mk = if c.rng.chance(0.7) { c.rng.range(0, 1) } else { c.rng.range(0, 6) };
    c.nontrivial();
    let (l0, t, want) = if c.rng.chance(0.5) {
        // p = 1: exactly the entries tied with the largest survive.
        let top = c.rng.range(1, 9);
        let rest = c.rng.range(0, 9);
        let x = c.rng.frange(-20.0, 20.0) as f32;
        let mut v = vec![x; top];
        for _ in 0..rest {
            v.push(if c.rng.chance(0.3) { NI } else { x - c.rng.frange(0.01, 5.0) as f32 });
        }
        c.rng.shuffle(&mut v);
        let (l, _) = prep(&mut c.rng, &v);
        c.see("min-p tie at p=1");
        (l, Thr::MinP(1.0), top.max(mk).min(top + rest))
    } else {
        let (l, k, m) = dyadic(&mut c.rng, 7, true);
        let n = 1usize << k;
        // p0 = 2^-k; a1 * p0^a2 == p0 exactly when a1 = 2^(k(a2-1)).
        let a2 = *c.rng.pick(&[1.0f32, 2.0, 3.0]);
        let (a1, side) = nudge(&mut c.rng, 2f32.powi(k as i32 * (a2 as i32 - 1)));
        let w = if side > 0 { 1.max(mk).min(n + m) } else { n.max(mk).min(n + m) };
        c.see_if(side == 0, "top-a exactly at the threshold");
        (l, Thr::TopA(a1, a2), w)
    };
    c.fp(&[hash_logits(&l0), mk as u64]);
    c.desc(|| format!("{t:?} min_keep={mk} {}", show(&l0)));
    let mut l = l0.clone();
    c.event();
    c08_run(&mut c.rng, t, mk, &mut l)?;
    ensure!(l.len() == want, "{t:?} min_keep={mk} on {}: kept {}, expected {want}", show(&l0), l.len());
    top_prefix(&l, &l0)
}

pub fn c08() -> Prop {
    Prop {
        id: "C08",
        rule: "prepared or pre-filtered logits with random thresholds (incl. 0 and >1) and min_keep; 'exact' puts entries exactly on the threshold; non-trivial: at least two entries",
        workloads: vec![
            Workload {
                name: "any",
                quick: 2_500_000,
                thorough: 100_000_000,
                f: c08_any,
                need: &["disabled", "min-p removed some", "top-a removed some", "cut above the minimum", "held by the minimum", "negative threshold"],
            },
            Workload { name: "large", quick: 400, thorough: 16_000, f: c08_large, need: &[] },
            Workload {
                name: "exact",
                quick: 1_000_000,
                thorough: 40_000_000,
                f: c08_exact,
                need: &["min-p tie at p=1", "top-a exactly at the threshold"],
            },
        ],
    }
}

// ---------------------------------------------------------------- C09

fn c09_check(c: &mut Case, l0: &Logits, p: f32, mk: usize) -> R {
    c.fp(&[hash_logits(l0), p.to_bits() as u64, mk as u64]);
    c.desc(|| format!("p={p:e} min_keep={mk} {}", show(l0)));
    let n = l0.len();
    c.nontrivial_if(n > 1);
    let mut l = l0.clone();
    c.event();
    let r = run(&mut c.rng, SampleLocallyTypical::new(p, mk), &mut l);
    let at = |e: String| format!("p={p:e} min_keep={mk} on {} (sorted={} softmax={}): {e}; output {}", show(l0), l0.get_sorted(), l0.get_softmax(), show(&l));
    r.map_err(at)?;
    subset_of(&l, l0).map_err(at)?;
    if n == 0 {
        return Ok(());
    }
    let s = snap(l0);
    let sm = soft_of(&s);
    // Entropy, natural logarithm, with its uncertainty.
    let (mut h, mut eh) = (0f64, 1e-6f64);
    for i in 0..n {
        let q = sm.p[i];
        if q > 0.0 {
            let x = -q.ln();
            h += q * x;
            eh += q * (sm.rel[i] * (1.0 + x) + 4e-7 * x) + if q < 1e-36 { TINY * 200.0 } else { 0.0 };
        }
    }
    eh += n as f64 * 1.3e-7 * h;
    // Interval for the score of each entry.
    let mut lo = std::collections::HashMap::with_capacity(n);
    let mut zero = 0;
    for i in 0..n {
        let q = sm.p[i];
        let (a, b) = if q < 1e-36 {
            // Subnormal in f32, or zero: the surprise is somewhere between these.
            zero += 1;
            let small = -(q + TINY + q * sm.rel[i]).ln();
            let big = if q > 3.0 * TINY { -(q - TINY - q * sm.rel[i]).ln() } else { f64::INFINITY };
            (small, big)
        } else {
            let x = -q.ln();
            let e = sm.rel[i] + 4e-7 * x;
            (x - e, x + e)
        };
        // |x - h| over x in [a, b], h in [h-eh, h+eh]
        let (dlo, dhi) = (a - h - eh, b - h + eh);
        let (mn, mx) = if dlo <= 0.0 && dhi >= 0.0 {
            (0.0, dhi.max(-dlo))
        } else {
            (dlo.abs().min(dhi.abs()), dlo.abs().max(dhi.abs()))
        };
        lo.insert(s[i].token_id, (mn - 2e-7 * mn.min(1e6), mx * (1.0 + 2e-7), i));
    }
    c.see_if(zero > 0, "zero-probability tokens");
    // Kept entries come in order of their score, and no removed one scores better than a kept one.
    let (mut run_lo, mut cum, mut tol) = (f64::NEG_INFINITY, 0f64, 0f64);
    let floor = mk.max(1).min(n);
    ensure!(l.len() >= floor, "{}", at(format!("{} kept, at least {floor} required", l.len())));
    let mut kept = std::collections::HashSet::new();
    let mut banded = false;
    for (j, e) in l.iter().enumerate() {
        let &(a, b, i) = &lo[&e.token_id];
        ensure!(b >= run_lo, "{}", at(format!("token {} at place {j} is more typical ({b}) than one before it ({run_lo})", e.token_id)));
        run_lo = run_lo.max(a);
        kept.insert(e.token_id);
        // Would the entries before this one have sufficed?
        if j >= floor {
            let t = tol + j as f64 * 6e-8 * cum;
            ensure!(cum - t <= p as f64, "{}", at(format!("kept {} entries although the first {j} have cumulative probability {cum}", l.len())));
            banded |= cum + t > p as f64;
        }
        cum += sm.p[i];
        tol += sm.tol(i);
    }
    if l.len() < n {
        let t = tol + l.len() as f64 * 6e-8 * cum;
        ensure!(cum + t > p as f64, "{}", at(format!("kept {} entries with cumulative probability {cum}, not more than p", l.len())));
        banded |= cum - t <= p as f64;
        for (tid, &(_, b, _)) in lo.iter().filter(|x| !kept.contains(x.0)) {
            ensure!(b >= run_lo, "{}", at(format!("removed token {tid} (score at most {b}) but kept one with at least {run_lo}")));
        }
        c.see("some removed");
        let top = l0.iter().map(|x| x.logit).fold(NI, f32::max);
        c.see_if(l.iter().all(|x| x.logit < top), "the most probable token was removed");
    }
    c.see_if(banded, "inside a rounding band");
    c.see_if(mk > 1 && l.len() == mk && mk < n, "held by the minimum");
    Ok(())
}

fn c09_any(c: &mut Case) -> R {
    let l = input(c, ANY, 200);
    let p = if c.rng.chance(0.03) { *c.rng.pick(&[-0.5f32, 1.5]) } else { p01(&mut c.rng) };
    let mk = keep(&mut c.rng, l.len());
    c09_check(c, &l, p, mk)
}

fn c09_large(c: &mut Case) -> R {
    let l = big_logits(&mut c.rng, ANY);
    let p = p01(&mut c.rng);
    let mk = keep(&mut c.rng, l.len());
    c09_check(c, &l, p, mk)
}

fn c09_exact(c: &mut Case) -> R {
    let (l0, k, m) = dyadic(&mut c.rng, if c.tiny { 4 } else { 8 }, true);
    let n = 1usize << k;
    let j = c.rng.range(0, n);
    let (p, side) = if j == 0 { (0.0, 0) } else { nudge(&mut c.rng, j as f32 / n as f32) };
    let mk = if c.rng.chance(0.7) { c.rng.range(0, 1) } else { c.rng.range(0, n + m + 1) };
    c.fp(&[k as u64, m as u64, p.to_bits() as u64, mk as u64]);
    c.nontrivial();
    c.desc(|| format!("uniform 2^{k} plus {m} banned, p={p:e} (j={j}) min_keep={mk}"));
    let total = n + m;
    let suff = if side < 0 { j } else { j + 1 };
    let want = if suff > n { total } else { suff.max(1).max(mk).min(total) };
    let mut l = l0.clone();
    c.event();
    c.see_if(side == 0, "exactly at the threshold");
    run(&mut c.rng, SampleLocallyTypical::new(p, mk), &mut l)?;
    ensure!(
        l.len() == want,
        "uniform over {n} tokens plus {m} banned, p={p:e} ({j}/{n} {side:+} ulp), min_keep={mk}: kept {}, expected {want}",
        l.len()
    );
    subset_of(&l, &l0)?;
    // Banned tokens are the least typical.
    let banned = l.iter().filter(|x| x.logit == NI).count();
    ensure!(banned == l.len().saturating_sub(n), "{banned} banned tokens among the {} kept of {n}+{m}", l.len());
    Ok(())
}

pub fn c09() -> Prop {
    Prop {
        id: "C09",
        rule: "prepared or pre-filtered logits (incl. -inf and underflowing probabilities) with p and min_keep; 'exact' uses uniform 2^k plus banned tokens with p on/next to a partial sum; non-trivial: at least two entries",
        workloads: vec![
            Workload {
                name: "any",
                quick: 1_800_000,
                thorough: 72_000_000,
                f: c09_any,
                need: &["zero-probability tokens", "some removed", "the most probable token was removed", "held by the minimum"],
            },
            Workload { name: "large", quick: 300, thorough: 12_000, f: c09_large, need: &[] },
            Workload { name: "exact", quick: 1_200_000, thorough: 48_000_000, f: c09_exact, need: &["exactly at the threshold"] },
        ],
    }
}

// ---------------------------------------------------------------- C10

fn c10_check(c: &mut Case, l0: &Logits, z: f32, mk: usize) -> R {
    c.fp(&[hash_logits(l0), z.to_bits() as u64, mk as u64]);
    c.desc(|| format!("z={z:e} min_keep={mk} {}", show(l0)));
    let n = l0.len();
    c.nontrivial_if(n > 2);
    let mut l = l0.clone();
    c.event();
    let r = run(&mut c.rng, SampleTailFree::new(z, mk), &mut l);
    let at = |e: String| format!("z={z:e} min_keep={mk} on {} (sorted={} softmax={}): {e}; output {}", show(l0), l0.get_sorted(), l0.get_softmax(), show(&l));
    r.map_err(at)?;
    if z >= 1.0 || n <= 2 {
        c.see_if(n == 2 && z < 1.0, "two entries");
        c.see_if(z >= 1.0 && n > 2, "disabled");
        ensure!(l.len() == n, "{}", at("changed the number of entries".into()));
        for (a, b) in l.iter().zip(l0.iter()) {
            ensure!(
                a.token_id == b.token_id && a.logit.to_bits() == b.logit.to_bits(),
                "{}",
                at(format!("changed entry {b:?} to {a:?} although nothing is to be done"))
            );
        }
        return Ok(());
    }
    top_prefix(&l, l0).map_err(at)?;
    let s = sorted_input(l0);
    if s[0].logit == s[n - 1].logit {
        c.see("all differences zero");
        ensure!(l.len() == n, "{}", at("all differences are zero but entries were removed".into()));
        return Ok(());
    }
    let sm = soft_of(&s);
    let (mut cum, mut ecum) = (vec![], vec![]);
    let (mut sum, mut esum) = (0f64, 0f64);
    for i in 0..n - 2 {
        let d1 = sm.p[i] - sm.p[i + 1];
        let d2 = sm.p[i + 1] - sm.p[i + 2];
        sum += (d1 - d2).abs();
        // Equal values have equal probabilities: their difference is exact.
        let e = if s[i].logit == s[i + 1].logit && s[i + 1].logit == s[i + 2].logit {
            0.0
        } else {
            sm.tol_local(i) + 2.0 * sm.tol_local(i + 1) + sm.tol_local(i + 2) + 1.3e-7 * (d1.abs() + d2.abs())
        };
        esum += e;
        cum.push(sum);
        ecum.push(esum);
    }
    if esum > 0.01 * sum {
        // Rounding dominates the curvature: only the general guarantees are checked.
        c.see("too flat to judge");
        ensure!(l.len() >= mk.min(n), "{}", at("fewer than the minimum kept".into()));
        return Ok(());
    }
    let stop = |i: usize| {
        // A prefix of i entries suffices when the normalised cumulative sum at index i exceeds z.
        if i >= n - 2 {
            return Tri::No;
        }
        let x = cum[i] / sum;
        let t = (ecum[i] + x * esum) / (sum - esum) + 1.3e-7 * (i as f64 + 2.0) + n as f64 * 6e-8 * x;
        if x - t > z as f64 {
            Tri::Yes
        } else if x + t <= z as f64 {
            Tri::No
        } else {
            Tri::Either
        }
    };
    // The first index at least min_keep that suffices.
    let mut banded = false;
    let len = l.len();
    for i in mk..len.min(n - 2) {
        match stop(i) {
            Tri::Yes => return Err(at(format!("kept {len} although index {i} exceeds z (cumulative {})", cum[i] / sum))),
            Tri::Either => banded = true,
            Tri::No => {}
        }
    }
    if len < n {
        ensure!(len >= mk, "{}", at(format!("kept {len}, minimum {mk}")));
        match stop(len) {
            Tri::No => {
                return Err(at(format!(
                    "cut at {len} where the cumulative normalised difference is {:?}, not more than z",
                    cum.get(len).map(|x| x / sum)
                )))
            }
            Tri::Either => banded = true,
            Tri::Yes => {}
        }
        c.see("some removed");
        c.see_if(mk > 0 && len == mk, "cut at the minimum");
    } else {
        c.see("everything kept");
    }
    c.see_if(banded, "inside a rounding band");
    Ok(())
}

fn c10_any(c: &mut Case) -> R {
    let l = input(c, ANY, 200);
    let z = if c.rng.chance(0.03) { *c.rng.pick(&[-0.5f32, 1.5]) } else { p01(&mut c.rng) };
    let mk = if c.rng.chance(0.5) { c.rng.range(0, 1) } else { keep(&mut c.rng, l.len()) };
    c10_check(c, &l, z, mk)
}

fn c10_large(c: &mut Case) -> R {
    let l = big_logits(&mut c.rng, ANY);
    let z = p01(&mut c.rng);
    let mk = if c.rng.chance(0.7) { c.rng.range(0, 1) } else { keep(&mut c.rng, l.len()) };
    c10_check(c, &l, z, mk)
}

fn c10_small(c: &mut Case) -> R {
    let n = c.rng.range(0, 6);
    let v: Vec<f32> = (0..n).map(|_| c.rng.frange(-4.0, 4.0) as f32).collect();
    let (l, _) = prep(&mut c.rng, &v);
    let z = p01(&mut c.rng);
    let mk = c.rng.range(0, 3);
    c10_check(c, &l, z, mk)
}

fn c10_exact(c: &mut Case) -> R {
    let (l0, k, m) = dyadic(&mut c.rng, if c.tiny { 4 } else { 7 }, true);
    let kk = 1usize << k;
    let n = kk + m;
    let (z, side) = match c.rng.below(3) {
        0 => nudge(&mut c.rng, 0.5),
        1 => (0.0, 0),
        _ => (1f32.next_down(), -1),
    };
    let mk = if c.rng.chance(0.7) { c.rng.range(0, 1) } else { c.rng.range(0, n + 1) };
    c.fp(&[k as u64, m as u64, z.to_bits() as u64, mk as u64]);
    c.nontrivial_if(n > 2);
    c.desc(|| format!("uniform 2^{k} plus {m} banned, z={z:e} min_keep={mk}"));
    // Probabilities 1/kk (kk times) then 0 (m times): differences are exact.
    let p = |i: usize| if i < kk { 1.0 / kk as f64 } else { 0.0 };
    let want = if n <= 2 {
        n
    } else {
        let d: Vec<f64> = (0..n - 2).map(|i| ((p(i) - p(i + 1)) - (p(i + 1) - p(i + 2))).abs()).collect();
        let sum: f64 = d.iter().sum();
        let mut cum = 0.0;
        let mut w = n;
        for (i, x) in d.iter().enumerate() {
            cum += x;
            if sum > 0.0 && cum / sum > z as f64 && i >= mk {
                w = i;
                break;
            }
        }
        w
    };
    let mut l = l0.clone();
    c.event();
    run(&mut c.rng, SampleTailFree::new(z, mk), &mut l)?;
    c.see_if(side == 0 && z == 0.5 && n > 3 && m >= 2 && kk >= 2, "exactly at the threshold");
    c.see_if(m == 0 && n > 2, "all differences zero");
    ensure!(
        l.len() == want,
        "uniform over {kk} tokens plus {m} banned, z={z:e}, min_keep={mk}: kept {}, expected {want}",
        l.len()
    );
    Ok(())
}

pub fn c10() -> Prop {
    Prop {
        id: "C10",
        rule: "prepared or pre-filtered logits with z and min_keep, many of at most 6 entries; 'exact' uses uniform 2^k plus banned tokens (cumulative sums 0.5 and 1); non-trivial: more than two entries",
        workloads: vec![
            Workload {
                name: "any",
                quick: 1_800_000,
                thorough: 72_000_000,
                f: c10_any,
                need: &["two entries", "disabled", "all differences zero", "some removed", "everything kept"],
            },
            Workload { name: "large", quick: 300, thorough: 12_000, f: c10_large, need: &[] },
            Workload { name: "small", quick: 1_800_000, thorough: 72_000_000, f: c10_small, need: &["cut at the minimum"] },
            Workload { name: "exact", quick: 960_000, thorough: 38_400_000, f: c10_exact, need: &["exactly at the threshold"] },
        ],
    }
}
