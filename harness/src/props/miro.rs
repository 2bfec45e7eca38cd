//! C18 Mirostat 2, C19 Mirostat 1, C28 the control loop.

use super::pipe::in_domain;
use super::select::check_frequencies;
use crate::core::*;
use crate::gen::*;
use crate::model::*;
use crate::rng::Rng;
use llm_samplers::configure::SamplerOptionValue;
use llm_samplers::prelude::*;

fn mu_of(a: &Any) -> f64 {
    opt_f(a, "mu")
}

fn set(a: &mut Any, k: &str, v: SamplerOptionValue<'static>) -> R {
    a.cfg().set_option(k, v).map_err(|e| format!("setting {k} failed: {e}"))
}

/// Probabilities of the descending values, with errors in bits for each surprise.
struct Desc {
    v: Vec<f32>,
    p: Vec<f64>,
    rel: Vec<f64>,
}

/// Sets tau in one of the ways there are, possibly to the value it has; mu must then be twice that.
fn set_tau(c: &mut Case, a: &mut Any) -> R {
    let old = opt_f(a, "tau") as f32;
    let t = if c.rng.chance(0.3) { old } else { c.rng.frange(0.1, 9.0) as f32 };
    c.see_if(t == old && mu_of(a) != t as f64 * 2.0, "tau set to the value it had");
    match c.rng.below(4) {
        0 => match a {
            Any::Miro1(s) => *s = s.clone().tau(t),
            Any::Miro2(s) => *s = s.clone().tau(t),
            _ => unreachable!(),
        },
        1 => a.cfg().configure(&format!("tau={t}")).map_err(|e| format!("tau={t} failed: {e}"))?,
        _ => set(a, "tau", SamplerOptionValue::Float(t as f64))?,
    }
    ensure!(opt_f(a, "tau") == t as f64, "tau set to {t} reads back as {}", opt_f(a, "tau"));
    ensure!(mu_of(a) == t as f64 * 2.0, "setting tau from {old} to {t} left mu at {}", mu_of(a));
    c.see("tau set");
    Ok(())
}

fn desc_of(inp: &[Logit]) -> Desc {
    let v = sorted_values(inp);
    let s = softmax(v.iter().copied());
    Desc { v, p: s.p, rel: s.rel }
}

impl Desc {
    /// Bounds of what an f32 evaluation may see as the surprise of entry i.
    fn surprise(&self, i: usize) -> (f64, f64) {
        let p = self.p[i];
        if p < 1e-46 {
            return (140.0, f64::INFINITY);
        }
        let s = -p.log2();
        let tol = self.rel[i] * 1.5 + 3e-7 * s + 1e-7;
        if p < 1e-36 {
            // Subnormal: few bits left.
            return (s - tol - 30.0, f64::INFINITY);
        }
        ((s - tol).max(0.0), s + tol)
    }
    /// Lengths of the kept prefix that rounding allows for Mirostat 2.
    fn cut2(&self, mu: f64) -> (usize, usize) {
        let n = self.p.len();
        let lo = (0..n).find(|i| self.surprise(*i).1 > mu).unwrap_or(n);
        let hi = (0..n).find(|i| self.surprise(*i).0 > mu).unwrap_or(n);
        (lo.max(1), hi.max(1))
    }
}

/// What the call did to mu must follow from the picked token among the entries left.
fn check_update(c: &mut Case, a: &Any, mu0: f64, out: &[Logit], tok: u32) -> R {
    let (eta, tau) = (opt_f(a, "eta"), opt_f(a, "tau"));
    let s = soft_of(out);
    let i = out
        .iter()
        .position(|x| x.token_id == tok)
        .ok_or_else(|| format!("picked token {tok}, which is not among the entries left"))?;
    let q = s.p[i];
    ensure!(q > 1e-47, "picked token {tok}, which has probability 0");
    let mu1 = mu_of(a);
    if q < 1e-36 {
        return Ok(());
    }
    let sur = -q.log2();
    let want = mu0 - eta * (sur - tau);
    let tol = eta.abs() * (s.rel[i] * 1.5 + 4e-7 * (sur + tau.abs()) + 1e-7) + 3e-7 * (mu0.abs() + want.abs()) + 1e-30;
    c.see_if(eta * (sur - tau) > tol * 4.0 || eta * (sur - tau) < -tol * 4.0, "mu moved");
    c.see_if(sur > tau, "surprise above target");
    c.see_if(sur < tau, "surprise below target");
    ensure!(
        (mu1 - want).abs() <= tol,
        "picked token {tok} with renormalised surprise {sur:.6} bits (tau {tau}, eta {eta}): mu went from {mu0} to {mu1}, expected {want}"
    );
    Ok(())
}

fn miro_logits(r: &mut Rng, tiny: bool) -> Logits {
    let n = if !tiny && r.chance(1.5e-4) { big_len(r) } else { size(r, if tiny { 8 } else { 600 }) };
    let d = if r.chance(0.15) { ANY } else { MILD_BAN };
    let v = values(r, n, d);
    prep(r, &v).0
}

fn nudge(r: &mut Rng, x: f64) -> f64 {
    match r.below(4) {
        0 => x,
        1 => x + 1e-3,
        2 => x - 1e-3,
        _ => x + r.frange(-0.5, 0.5),
    }
}

/// A call on which nothing may be picked: mu stays, no token.
fn check_no_pick(a: &mut Any, res: &mut Res, l: &mut Logits, must_fail: bool, why: &str) -> R {
    let mu = mu_of(a);
    let params = a.params();
    let r = a.run(res, l);
    ensure!(a.params() == params, "{why}: the call changed the options from {params:?} to {:?}", a.params());
    if must_fail {
        ensure!(r.is_err(), "{why}: returned {r:?} instead of an error");
    }
    if let Ok(t) = &r {
        ensure!(t.is_none(), "{why}: reported token {t:?}");
    }
    ensure!(a.sref().sampled_token_id().is_none(), "{why}: still reports token {:?}", a.sref().sampled_token_id());
    ensure!(mu_of(a).to_bits() == mu.to_bits(), "{why}: mu changed from {mu} to {}", mu_of(a));
    Ok(())
}

fn c18_calls(c: &mut Case) -> R {
    let r = &mut c.rng;
    let tau = r.frange(0.1, 9.0) as f32;
    let eta = *r.pick(&[0.1f32, 0.0, 0.5, 1.0, 0.01, 0.1, 0.3, 2.5, -0.25]);
    let mut a = match r.below(4) {
        0 => Any::Miro2(SampleMirostat2::default()),
        1 => Any::Miro2(SampleMirostat2::default().eta(eta).tau(tau)),
        _ => Any::Miro2(SampleMirostat2::new(tau, eta)),
    };
    {
        let (t, m) = (opt_f(&a, "tau"), mu_of(&a));
        ensure!(m == t * 2.0, "mu starts at {m} with tau {t}");
    }
    let hostile = r.chance(0.3);
    let mut res = Res::new(Some(if hostile { Stream::hostile(r) } else { Stream::random(r) }), None);
    let calls = if c.tiny {
        r.range(1, 3)
    } else if r.chance(5e-5) {
        c.see("a long run of calls");
        70_000
    } else {
        r.range(1, 8)
    };
    let mut parts = vec![];
    let mut text = String::new();
    let mut expect_mu: Option<f64> = None;
    for _ in 0..calls {
        let small = c.tiny || calls > 100 && c.rng.chance(0.9);
        let mut l = miro_logits(&mut c.rng, small);
        if !l.is_empty() && !in_domain(&l) {
            continue;
        }
        if let Some(m) = expect_mu {
            ensure!(mu_of(&a).to_bits() == m.to_bits(), "mu did not carry over between calls: {m} became {}", mu_of(&a));
        }
        let inp = snap(&l);
        let d = desc_of(&inp);
        // Put mu somewhere interesting now and then.
        match c.rng.below(10) {
            0..=3 if !inp.is_empty() => {
                let i = c.rng.below(inp.len().min(40));
                let s = (-d.p[i].log2()).min(120.0);
                let m = nudge(&mut c.rng, s);
                set(&mut a, "mu", SamplerOptionValue::Float(m))?;
            }
            4 => {
                let m = c.rng.frange(-2.0, 20.0);
                set(&mut a, "mu", SamplerOptionValue::Float(m))?;
            }
            5 => {
                set_tau(c, &mut a)?;
            }
            _ => {}
        }
        parts.push(hash_logits(&l));
        parts.push(mu_of(&a).to_bits());
        c.event();
        if c.rng.chance(0.1) {
            let mut none = Res::none();
            let must = !l.is_empty();
            c.see_if(must, "no random source");
            check_no_pick(&mut a, &mut none, &mut l, must, "without a random source")?;
            expect_mu = Some(mu_of(&a));
            continue;
        }
        if inp.is_empty() {
            c.see("empty logits");
            let before = res.draws();
            check_no_pick(&mut a, &mut res, &mut l, false, "on empty logits")?;
            ensure!(res.draws() == before, "consumed randomness on empty logits");
            expect_mu = Some(mu_of(&a));
            continue;
        }
        let mu0 = mu_of(&a);
        let params = a.params();
        let at = |e: String, l: &Logits| format!("mu={mu0} on {}: {e}; output {}", show(&inp), show(l));
        let tok = match a.run(&mut res, &mut l) {
            Ok(Some(t)) => t,
            other => return Err(at(format!("returned {other:?}"), &l)),
        };
        if text.is_empty() {
            text = format!("{a:?} mu before {mu0} on {}", show(&inp));
        }
        ensure!(a.sref().sampled_token_id() == Some(tok), "accessor disagrees with the returned token");
        top_prefix(&l, &inp).map_err(|e| at(e, &l))?;
        let (lo, hi) = d.cut2(mu0);
        let k = l.len();
        ensure!(
            lo <= k && k <= hi,
            "{}",
            at(format!("kept {k} entries, expected {lo}{}", if hi > lo { format!("..{hi}") } else { String::new() }), &l)
        );
        // Equal values have equal surprise: the cut cannot fall between them (unless forced to keep one).
        if k > 1 && k < inp.len() {
            ensure!(d.v[k - 1] > d.v[k], "{}", at("the cut separates entries of equal probability".into(), &l));
        }
        c.see_if(k < inp.len(), "pruned");
        c.see_if(k == 1 && inp.len() > 1 && d.surprise(0).0 > mu0, "kept one although none is below mu");
        c.see_if(k == inp.len() && k > 1, "kept everything");
        c.see_if(lo == hi, "length determined");
        c.nontrivial_if(inp.len() > 1);
        check_update(c, &a, mu0, &l, tok).map_err(|e| at(e, &l))?;
        ensure!(a.params() == params, "{}", at(format!("the call changed the options from {params:?} to {:?}", a.params()), &l));
        expect_mu = Some(mu_of(&a));
    }
    c.fp(&parts);
    c.desc(|| text);
    Ok(())
}

/// Uniform over 2^k entries: every quantity is exact, so is the comparison of surprise with mu.
fn c18_exact(c: &mut Case) -> R {
    let r = &mut c.rng;
    let k = r.range(0, if c.tiny { 3 } else { 9 });
    let n = 1usize << k;
    let x = r.frange(-20.0, 20.0) as f32;
    let (l0, _) = prep(r, &vec![x; n]);
    let mu = match r.below(3) {
        0 => k as f32,
        1 => f32::from_bits((k as f32).to_bits() + 1),
        _ => {
            if k == 0 {
                -1e-6
            } else {
                f32::from_bits((k as f32).to_bits() - 1)
            }
        }
    };
    c.fp(&[hash_logits(&l0), mu.to_bits() as u64]);
    c.desc(|| format!("uniform n={n} mu={mu:?}"));
    c.nontrivial_if(n > 1);
    let mut a = Any::Miro2(SampleMirostat2::new(3.0, 0.1).mu(mu));
    let mut l = l0.clone();
    let mut res = Res::new(Some(Stream::random(&mut c.rng)), None);
    c.event();
    let t = a.run(&mut res, &mut l).map_err(|e| e.to_string())?.ok_or("nothing picked")?;
    let want = if k as f32 > mu { 1 } else { n };
    c.see(if want == n { "surprise equals mu or is below" } else { "surprise above mu" });
    ensure!(l.len() == want, "uniform over {n} entries (surprise exactly {k}), mu {mu:?}: kept {} entries, expected {want}", l.len());
    ensure!(l.iter().any(|x| x.token_id == t), "picked {t}, which was pruned");
    check_update(c, &a, mu as f64, &l, t)
}

fn freq(c: &mut Case, v1: bool) -> R {
    let r = &mut c.rng;
    let n = if c.tiny { 3 } else { r.range(2, 60) };
    let v = values(r, n, MILD_BAN);
    let (l0, _) = prep(r, &v);
    let mut a = if v1 {
        Any::Miro1(SampleMirostat1::new(r.range(2, 1000), 3.0, 0.0).m(r.range(2, 40)).mu(r.frange(0.5, 12.0) as f32))
    } else {
        Any::Miro2(SampleMirostat2::new(3.0, 0.0).mu(r.frange(0.5, 12.0) as f32))
    };
    let mu0 = mu_of(&a);
    let mut res = Res::new(Some(Stream::random(r)), None);
    // The entries that are kept do not depend on the draw (eta = 0: mu never moves).
    let mut l = l0.clone();
    a.run(&mut res, &mut l).map_err(|e| e.to_string())?;
    let kept = snap(&l);
    let ids: Vec<u32> = kept.iter().map(|x| x.token_id).collect();
    let sm = soft_of(&kept);
    c.fp(&[hash_logits(&l0), mu0.to_bits()]);
    c.desc(|| format!("{a:?} on {}, keeps {}", show(&l0), kept.len()));
    c.nontrivial_if(kept.len() > 1);
    c.see_if(kept.len() < n && kept.len() > 1, "several of the kept entries of a pruned list");
    let draws = if c.tiny { 20 } else { 3000 };
    check_frequencies(c, &ids, &sm.p, draws, |c| {
        let mut l = l0.clone();
        c.event();
        let t = a.run(&mut res, &mut l).map_err(|e| e.to_string())?.ok_or("nothing picked")?;
        ensure!(l.len() == ids.len(), "kept {} entries, {} before with the same mu", l.len(), ids.len());
        Ok(t)
    })
    .map_err(|e| format!("{e}; {a:?} on {}", show(&l0)))?;
    ensure!(mu_of(&a).to_bits() == mu0.to_bits(), "mu moved although eta is 0");
    Ok(())
}

fn c18_freq(c: &mut Case) -> R {
    freq(c, false)
}

pub fn c18() -> Prop {
    Prop {
        id: "C18",
        rule: "1..8 consecutive calls on one Mirostat 2 with changing logits (finite and -inf values), mu moved next to the surprise of an entry, tau changes, missing random sources and empty logits in between; exact uniform cases; frequencies with eta = 0; non-trivial: a call with at least two entries",
        workloads: vec![
            Workload {
                name: "calls",
                quick: 600_000,
                thorough: 24_000_000,
                f: c18_calls,
                need: &[
                    "mu moved",
                    "surprise above target",
                    "surprise below target",
                    "empty logits",
                    "no random source",
                    "tau set",
                    "tau set to the value it had",
                    "length determined",
                ],
            },
            Workload {
                name: "exact",
                quick: 60_000,
                thorough: 2_400_000,
                f: c18_exact,
                need: &["surprise equals mu or is below", "surprise above mu"],
            },
            Workload { name: "frequencies", quick: 9_000, thorough: 360_000, f: c18_freq, need: &["draws"] },
        ],
    }
}

// ---------------------------------------------------------------- C19

/// Range of prefix lengths that rounding allows; None where the formula is ill-conditioned or undefined.
fn cut1(d: &Desc, m: usize, n_vocab: usize, mu: f64) -> Option<(usize, usize, f64)> {
    let n = d.p.len();
    if n == 1 {
        return Some((1, 1, 0.0));
    }
    let pairs = (m - 1).min(n - 1);
    if pairs > 0 && n_vocab >= 2 && (0..=pairs).all(|i| d.v[i] == d.v[0]) {
        // Equal values: s is 0 and k is (2^mu / (n_vocab - 1)) to an infinite power.
        let base = 2f64.powf(mu) / (n_vocab as f64 - 1.0);
        return if base > 1.001 {
            Some((n, n, f64::INFINITY))
        } else if base < 0.999 {
            Some((1, 1, 0.0))
        } else {
            None
        };
    }
    if pairs > 0 && n_vocab >= 2 && mu.abs() < 100.0 && d.v[pairs] == f32::NEG_INFINITY && d.p[pairs - 1] > 1e-35 {
        // The last of the top entries is impossible: s is infinite and k is 1.
        return Some((1, 1, 1.0));
    }
    if pairs == 0 || n_vocab < 2 || d.p[pairs] < 1e-35 {
        return None;
    }
    let (mut tb, mut tt, mut err) = (0f64, 0f64, 0f64);
    let top = d.v[0] as f64;
    for i in 0..pairs {
        let t = ((i as f64 + 2.0) / (i as f64 + 1.0)).ln();
        // From the values themselves: ln(p_i / p_{i+1}) is their difference.
        let b = d.v[i] as f64 - d.v[i + 1] as f64;
        tb += t * b;
        tt += t * t;
        err += t * (6e-7 + 2.5e-7 * (top - d.v[i + 1] as f64).abs());
        // (i+2)/(i+1) is rounded before the logarithm.
        err += b * 1.2e-7 + 2.0 * t * 1.2e-7 * (tb / tt).abs();
    }
    let s = tb / tt;
    let ds = err / tt + (2e-6 + 1.2e-7 * pairs as f64) * s;
    if s < 0.02 || (s - 1.0).abs() < 2e-3 + 4.0 * ds || ds > 0.05 * s {
        return None;
    }
    if mu.abs() + (s + 1.0).log2() > 120.0 {
        // Out of the range of numbers on the way.
        return None;
    }
    let k = |s: f64| {
        let e = s - 1.0;
        (e * 2f64.powf(mu) / (1.0 - (n_vocab as f64).powf(-e))).powf(1.0 / s)
    };
    let (mut lo, mut hi) = (f64::INFINITY, 0f64);
    for j in -4..=4 {
        let x = k(s + ds * j as f64 / 4.0);
        if x.is_nan() {
            return None;
        }
        let e = (s - 1.0).abs();
        let rel = (5e-6 + 1e-6 / e + 4e-7 * mu.abs() + 1e-6 * e * (n_vocab as f64).ln()) * (1.0 + 1.0 / s);
        lo = lo.min(x * (1.0 - rel) - 1e-9);
        hi = hi.max(x * (1.0 + rel) + 1e-9);
    }
    let f = |x: f64| (x.max(0.0).floor().min(n as f64) as usize).clamp(1, n);
    Some((f(lo), f(hi), k(s)))
}

fn c19_calls(c: &mut Case) -> R {
    let r = &mut c.rng;
    let tau = r.frange(0.1, 9.0) as f32;
    let eta = *r.pick(&[0.1f32, 0.0, 0.5, 1.0, 0.01, 0.1, 0.3, 2.5, -0.25]);
    let nv = match r.below(4) {
        0 => r.range(1, 20),
        1 => r.range(2, 1000),
        _ => *r.pick(&[32_000usize, 50_257, 100, 150_000]),
    };
    let mut a = match r.below(4) {
        0 => Any::Miro1(SampleMirostat1::default().n_vocab(nv)),
        1 => Any::Miro1(SampleMirostat1::default().n_vocab(nv).eta(eta).tau(tau)),
        _ => Any::Miro1(SampleMirostat1::new(nv, tau, eta)),
    };
    ensure!(mu_of(&a) == opt_f(&a, "tau") * 2.0, "mu starts at {} with tau {}", mu_of(&a), opt_f(&a, "tau"));
    let hostile = r.chance(0.3);
    let mut res = Res::new(Some(if hostile { Stream::hostile(r) } else { Stream::random(r) }), None);
    let calls = if c.tiny {
        r.range(1, 3)
    } else if r.chance(5e-5) {
        c.see("a long run of calls");
        70_000
    } else {
        r.range(1, 8)
    };
    let mut parts = vec![];
    let mut text = String::new();
    let mut expect_mu: Option<f64> = None;
    let mut m = 100usize;
    for _ in 0..calls {
        let small = c.tiny || calls > 100 && c.rng.chance(0.9);
        let mut l = miro_logits(&mut c.rng, small);
        if !l.is_empty() && !in_domain(&l) {
            continue;
        }
        if let Some(m) = expect_mu {
            ensure!(mu_of(&a).to_bits() == m.to_bits(), "mu did not carry over between calls: {m} became {}", mu_of(&a));
        }
        let inp = snap(&l);
        let n = inp.len();
        match c.rng.below(10) {
            0..=3 => {
                m = match c.rng.below(6) {
                    0 => n.max(1),
                    1 => n + 1,
                    2 => n.saturating_sub(1).max(1),
                    3 => 2,
                    4 => c.rng.range(1, 10),
                    _ => c.rng.range(1, n + 5),
                };
                set(&mut a, "m", SamplerOptionValue::UInt(m as u64))?;
            }
            4..=5 => {
                let x = c.rng.frange(-2.0, 20.0);
                set(&mut a, "mu", SamplerOptionValue::Float(x))?;
            }
            6 => {
                set_tau(c, &mut a)?;
            }
            _ => {}
        }
        parts.push(hash_logits(&l));
        parts.push(mu_of(&a).to_bits());
        c.event();
        match c.rng.below(20) {
            0 => {
                let mut none = Res::none();
                c.see_if(n > 0, "no random source");
                check_no_pick(&mut a, &mut none, &mut l, n > 0, "without a random source")?;
                expect_mu = Some(mu_of(&a));
                continue;
            }
            1 => {
                set(&mut a, "n_vocab", SamplerOptionValue::UInt(0))?;
                c.see_if(n > 0, "n_vocab = 0");
                check_no_pick(&mut a, &mut res, &mut l, n > 0, "with n_vocab = 0")?;
                set(&mut a, "n_vocab", SamplerOptionValue::UInt(nv as u64))?;
                expect_mu = Some(mu_of(&a));
                continue;
            }
            2 => {
                set(&mut a, "m", SamplerOptionValue::UInt(0))?;
                c.see_if(n > 0, "m = 0");
                let before = l.clone();
                check_no_pick(&mut a, &mut res, &mut l, false, "with m = 0")?;
                ensure!(l.len() == before.len(), "m = 0 removed entries");
                set(&mut a, "m", SamplerOptionValue::UInt(m as u64))?;
                expect_mu = Some(mu_of(&a));
                continue;
            }
            _ => {}
        }
        if n == 0 {
            c.see("empty logits");
            let before = res.draws();
            check_no_pick(&mut a, &mut res, &mut l, false, "on empty logits")?;
            ensure!(res.draws() == before, "consumed randomness on empty logits");
            expect_mu = Some(mu_of(&a));
            continue;
        }
        let mu0 = mu_of(&a);
        let params = a.params();
        let d = desc_of(&inp);
        let at = |e: String, l: &Logits| format!("n_vocab={nv} m={m} mu={mu0} on {}: {e}; output {}", show(&inp), show(l));
        let tok = match a.run(&mut res, &mut l) {
            Ok(Some(t)) => t,
            other => return Err(at(format!("returned {other:?}"), &l)),
        };
        if text.is_empty() {
            text = format!("{a:?} mu before {mu0} on {}", show(&inp));
        }
        ensure!(a.sref().sampled_token_id() == Some(tok), "accessor disagrees with the returned token");
        top_prefix(&l, &inp).map_err(|e| at(e, &l))?;
        ensure!(!l.is_empty(), "kept nothing");
        c.nontrivial_if(n > 1);
        if let Some((lo, hi, k)) = cut1(&d, m, nv, mu0) {
            c.see("length checked");
            c.see_if(lo == hi && n > 1, "length determined");
            c.see_if(l.len() > 1 && l.len() < n, "cut in the middle");
            c.see_if(l.len() == n && n > 1, "kept everything");
            c.see_if(l.len() == 1 && n > 1, "kept one");
            ensure!(
                lo <= l.len() && l.len() <= hi,
                "{}",
                at(format!("kept {} entries, k is {k:.4}, so expected {lo}..{hi}", l.len()), &l)
            );
        }
        check_update(c, &a, mu0, &l, tok).map_err(|e| at(e, &l))?;
        ensure!(a.params() == params, "{}", at(format!("the call changed the options from {params:?} to {:?}", a.params()), &l));
        expect_mu = Some(mu_of(&a));
    }
    c.fp(&parts);
    c.desc(|| text);
    Ok(())
}

/// Zipf-like lists, on which k falls inside the list.
fn c19_zipf(c: &mut Case) -> R {
    let r = &mut c.rng;
    let n = if c.tiny { 6 } else { r.range(3, 800) };
    let a = if r.chance(0.5) { r.frange(0.3, 0.99) } else { r.frange(1.01, 3.0) };
    let noise = *r.pick(&[0.0, 0.05, 0.5]);
    let v: Vec<f32> = (0..n).map(|i| (-a * ((i + 1) as f64).ln() + noise * r.normal()) as f32).collect();
    let (mut l, _) = prep(r, &v);
    let nv = *r.pick(&[n.max(2), 1000, 32_000, 50_257]);
    let m = *r.pick(&[100usize, 2, 3, 10, 40, 1000]);
    let mu = r.frange(0.0, 12.0) as f32;
    let inp = snap(&l);
    let d = desc_of(&inp);
    let mut s = Any::Miro1(SampleMirostat1::new(nv, r.frange(1.0, 8.0) as f32, 0.2).m(m).mu(mu));
    c.fp(&[hash_logits(&l), mu.to_bits() as u64, m as u64, nv as u64]);
    c.desc(|| format!("{s:?} on {}", show(&inp)));
    c.nontrivial();
    let mut res = Res::new(Some(Stream::random(&mut c.rng)), None);
    c.event();
    let at = |e: String| format!("n_vocab={nv} m={m} mu={mu} on {}: {e}", show(&inp));
    let tok = s.run(&mut res, &mut l).map_err(|e| at(e.to_string()))?.ok_or("nothing picked")?;
    top_prefix(&l, &inp).map_err(at)?;
    if let Some((lo, hi, k)) = cut1(&d, m, nv, mu as f64) {
        c.see("length checked");
        c.see_if(lo == hi, "length determined");
        c.see_if(l.len() > 1 && l.len() < n, "cut in the middle");
        ensure!(lo <= l.len() && l.len() <= hi, "{}", at(format!("kept {} entries, k is {k:.4}, so expected {lo}..{hi}", l.len())));
    }
    check_update(c, &s, mu as f64, &l, tok).map_err(at)
}

fn c19_freq(c: &mut Case) -> R {
    freq(c, true)
}

pub fn c19() -> Prop {
    Prop {
        id: "C19",
        rule: "1..8 consecutive calls on one Mirostat 1 with changing logits, m, mu and tau, failing and empty calls in between; power-law lists on which k falls inside the list; frequencies with eta = 0; non-trivial: a call with at least two entries",
        workloads: vec![
            Workload {
                name: "calls",
                quick: 400_000,
                thorough: 16_000_000,
                f: c19_calls,
                need: &[
                    "mu moved",
                    "surprise above target",
                    "surprise below target",
                    "empty logits",
                    "no random source",
                    "n_vocab = 0",
                    "m = 0",
                    "tau set",
                    "tau set to the value it had",
                    "length determined",
                ],
            },
            Workload {
                name: "power-law",
                quick: 200_000,
                thorough: 8_000_000,
                f: c19_zipf,
                need: &["length determined"],
            },
            Workload { name: "frequencies", quick: 4_000, thorough: 160_000, f: c19_freq, need: &["draws"] },
        ],
    }
}

// ---------------------------------------------------------------- C28

#[derive(Clone, Debug)]
struct Family {
    n: usize,
    shape: u8,
    a: f64,
    jitter: f64,
}

impl Family {
    fn random(r: &mut Rng) -> Family {
        Family {
            n: r.range(24, 160),
            shape: r.below(3) as u8,
            a: r.frange(0.5, 1.6),
            jitter: *r.pick(&[0.0, 0.2, 0.8]),
        }
    }
    fn logits(&self, r: &mut Rng) -> Logits {
        let mut v: Vec<f32> = (0..self.n)
            .map(|i| {
                let base = match self.shape {
                    0 => -self.a * ((i + 1) as f64).ln(),
                    1 => -self.a * 0.12 * i as f64,
                    _ => self.a * 1.3 * r.normal(),
                };
                (base + self.jitter * r.normal()) as f32
            })
            .collect();
        if self.shape == 0 && r.chance(0.5) {
            r.shuffle(&mut v);
        }
        from_values(&v)
    }
    fn entropy(&self, r: &mut Rng) -> f64 {
        let mut h = 0.0;
        for _ in 0..20 {
            let l = self.logits(r);
            h += soft_of(&l).p.iter().filter(|p| **p > 0.0).map(|p| -p * p.log2()).sum::<f64>() / 20.0;
        }
        h
    }
}

fn c28_loop(c: &mut Case) -> R {
    let v1 = c.rng.chance(0.5);
    let eta = *c.rng.pick(&[0.02, 0.05, 0.1, 0.2, 0.4]) as f32;
    let fam = Family::random(&mut c.rng);
    let h = fam.entropy(&mut c.rng);
    let tau = (c.rng.frange(0.25, 0.75) * h).max(0.4) as f32;
    if tau as f64 > 0.8 * h {
        return Ok(());
    }
    let custom_mu = c.rng.chance(0.5);
    let mu0 = c.rng.frange(0.0, 20.0) as f32;
    let mut a = if v1 {
        let mut s = SampleMirostat1::new(fam.n, tau, eta);
        if custom_mu {
            s = s.mu(mu0);
        }
        if c.rng.chance(0.5) {
            s = s.m(fam.n / 2);
        }
        Any::Miro1(s)
    } else {
        let mut s = SampleMirostat2::new(tau, eta);
        if custom_mu {
            s = s.mu(mu0);
        }
        Any::Miro2(s)
    };
    c.see(if v1 { "mirostat 1 loops" } else { "mirostat 2 loops" });
    c.fp(&[fam.n as u64, fam.a.to_bits(), tau.to_bits() as u64, mu0.to_bits() as u64]);
    c.desc(|| format!("{a:?} on {fam:?} (entropy {h:.2} bits)"));
    c.nontrivial();
    let mut res = Res::new(Some(Stream::random(&mut c.rng)), None);
    let mut fam = fam;
    let mut tau = tau as f64;
    for phase in 0..3 {
        if phase > 0 {
            if c.rng.chance(0.5) {
                let mut f2 = Family::random(&mut c.rng);
                if v1 {
                    f2.n = fam.n;
                }
                let h2 = f2.entropy(&mut c.rng);
                if tau > 0.8 * h2 {
                    continue;
                }
                fam = f2;
                c.see("distribution changed");
            } else {
                let h = fam.entropy(&mut c.rng);
                let t = (c.rng.frange(0.25, 0.75) * h) as f32;
                if (t as f64) < 0.4 {
                    continue;
                }
                let r = if c.rng.chance(0.5) {
                    a.cfg().set_option("tau", SamplerOptionValue::Float(t as f64))
                } else {
                    a.cfg().configure(&format!("tau={t}"))
                };
                r.map_err(|e| format!("changing tau: {e}"))?;
                tau = t as f64;
                c.see("target changed");
            }
        }
        let burn = (100.0 / eta as f64) as usize;
        let len = ((if c.thorough { 600.0 } else { 250.0 }) / eta as f64) as usize;
        let (mut sum, mut cnt) = (0f64, 0f64);
        for i in 0..burn + len {
            let mut l = fam.logits(&mut c.rng);
            c.event();
            let t = a.run(&mut res, &mut l).map_err(|e| e.to_string())?.ok_or("nothing picked")?;
            let mu = mu_of(&a);
            ensure!(mu.is_finite() && mu.abs() < 150.0, "mu ran away: {mu} in {a:?} on {fam:?}");
            if i >= burn {
                let s = soft_of(&l);
                let j = l.iter().position(|x| x.token_id == t).ok_or("picked token is not present")?;
                sum += -s.p[j].max(1e-40).log2();
                cnt += 1.0;
            }
        }
        let avg = sum / cnt;
        c.see("phases measured");
        let tol = (0.04 * tau).max(0.03);
        ensure!(
            (avg - tau).abs() <= tol,
            "average surprise over {cnt} picks is {avg:.4} bits, target {tau:.4} (phase {phase}) with {a:?} on {fam:?}"
        );
    }
    Ok(())
}

pub fn c28() -> Prop {
    Prop {
        id: "C28",
        rule: "closed loops of up to three phases (thousands of picks each, after a settling time of 100/eta picks) on power-law, geometric and normal families of distributions with attainable tau, any starting mu in 0..20; the surprise is recomputed from the entries left and the pick; non-trivial: every loop run",
        workloads: vec![Workload {
            name: "loop",
            quick: 400,
            thorough: 16_000,
            f: c28_loop,
            need: &["mirostat 1 loops", "mirostat 2 loops", "distribution changed", "target changed", "phases measured"],
        }],
    }
}
