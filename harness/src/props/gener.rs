//! C34 generating token by token follows the composed definitions of a chain's parts.

use crate::core::*;
use crate::gen::*;
use crate::model::*;
use crate::rng::Rng;
use crate::props::select::fit;
use llm_samplers::configure::*;
use llm_samplers::prelude::*;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

/// A candidate of the reference: the value with a bound on what f32 arithmetic may differ by.
#[derive(Clone, Debug)]
struct Cand {
    id: u32,
    v: f64,
    e: f64,
}

#[derive(Clone, Debug)]
enum Part {
    Bias(Vec<(u32, f32)>),
    Rep(f32, usize),
    Freq(f32, f32, usize),
    TopK(usize, usize),
    TailFree(f32, usize),
    LocTyp(f32, usize),
    TopP(f32, usize),
    MinP(f32, usize),
    TopA(f32, f32, usize),
    Temp(f32),
    Greedy,
    Rand,
    Miro1(usize, f32, f32),
    Miro2(f32, f32),
}
use Part::*;

impl Part {
    fn make(&self) -> Any {
        match self.clone() {
            Bias(b) => Any::Bias(SampleFlatBias::new(b)),
            Rep(p, n) => Any::Rep(SampleRepetition::new(p, n)),
            Freq(f, p, n) => Any::Freq(SampleFreqPresence::new(f, p, n)),
            TopK(k, m) => Any::TopK(SampleTopK::new(k, m)),
            TailFree(z, m) => Any::TailFree(SampleTailFree::new(z, m)),
            LocTyp(p, m) => Any::LocTyp(SampleLocallyTypical::new(p, m)),
            TopP(p, m) => Any::TopP(SampleTopP::new(p, m)),
            MinP(p, m) => Any::MinP(SampleMinP::new(p, m)),
            TopA(a, b, m) => Any::TopA(SampleTopA::new(a, b, m)),
            Temp(t) => Any::Temp(SampleTemperature::new(t)),
            Greedy => Any::Greedy(SampleGreedy::new()),
            Rand => Any::Rand(SampleRandDistrib::new()),
            Miro1(n, t, e) => Any::Miro1(SampleMirostat1::new(n, t, e)),
            Miro2(t, e) => Any::Miro2(SampleMirostat2::new(t, e)),
        }
    }
    fn see(&self) -> &'static str {
        match self {
            Bias(_) => "flat bias",
            Rep(..) => "repetition",
            Freq(..) => "frequency / presence",
            TopK(..) => "top-k",
            TailFree(..) => "tail free",
            LocTyp(..) => "locally typical",
            TopP(..) => "top-p",
            MinP(..) => "min-p",
            TopA(..) => "top-a",
            Temp(_) => "temperature",
            Greedy => "greedy",
            Rand => "random",
            Miro1(..) => "mirostat 1",
            Miro2(..) => "mirostat 2",
        }
    }
}

const ULP: f64 = 1.3e-7;

/// Descending probabilities of descending candidates, each with an absolute error.
fn probs(c: &[Cand]) -> (Vec<f64>, Vec<f64>) {
    let top = c[0].v;
    let w: Vec<f64> = c.iter().map(|x| (x.v - top).exp()).collect();
    let sum: f64 = w.iter().sum();
    // Of the sum: weighted by what each entry contributes.
    let es: f64 = c.iter().zip(&w).filter(|(_, w)| **w > 0.0).map(|(x, w)| w * x.e).sum::<f64>() / sum;
    let n = c.len() as f64;
    let p: Vec<f64> = w.iter().map(|x| x / sum).collect();
    let e = c
        .iter()
        .zip(&p)
        .map(|(x, p)| {
            let d = (top - x.v).min(200.0);
            p * (2e-6 + 1.5e-7 * d + n * ULP + 1.5 * (x.e + es + 2.0 * c[0].e).min(1.0)) + TINY
        })
        .collect();
    (p, e)
}

fn descending(c: &mut [Cand]) {
    c.sort_by(|a, b| b.v.partial_cmp(&a.v).unwrap());
}

/// Keeps the k largest; None if it hangs on rounding or a tie which those are.
fn cut(c: &mut Vec<Cand>, k: usize) -> Option<()> {
    if k < c.len() && k > 0 {
        // Rounding may have moved any entry past any other.
        let low = c[..k].iter().map(|x| x.v - x.e).fold(f64::INFINITY, f64::min);
        let high = c[k..].iter().map(|x| x.v + x.e).fold(f64::NEG_INFINITY, f64::max);
        if low <= high {
            return None;
        }
    }
    c.truncate(k);
    Some(())
}

/// The first i from `from` on for which `stop` holds, or n.
fn first(from: usize, n: usize, stop: impl Fn(usize) -> Tri) -> Option<usize> {
    for i in from..n {
        match stop(i) {
            Tri::Yes => return Some(i),
            Tri::Either => return None,
            Tri::No => {}
        }
    }
    Some(n)
}

fn window(t: &[u32], n: usize) -> &[u32] {
    &t[t.len().saturating_sub(n)..]
}

/// One part of the chain on the candidates. None: it hangs on rounding.
fn apply(part: &Part, c: &mut Vec<Cand>, hist: &[u32]) -> Option<()> {
    if c.is_empty() {
        return Some(());
    }
    let hopeless = c.iter().all(|x| x.v == f64::NEG_INFINITY);
    if hopeless && matches!(part, TailFree(..) | LocTyp(..) | TopP(..) | MinP(..) | TopA(..)) {
        // No probabilities: what these do is for others to say.
        return None;
    }
    match part {
        Bias(b) => {
            for x in c.iter_mut() {
                if let Some((_, y)) = b.iter().find(|y| y.0 == x.id) {
                    x.v += *y as f64;
                    x.e = if x.v.is_finite() { x.e + ULP * (x.v.abs() + y.abs() as f64) } else { 0.0 };
                }
            }
        }
        Rep(p, n) => {
            let p = *p as f64;
            if p > 1.0 {
                for x in c.iter_mut() {
                    if window(hist, *n).contains(&x.id) {
                        if x.v.abs() <= x.e && x.e > 0.0 {
                            x.e *= p * 2.0;
                        }
                        x.v = if x.v > 0.0 { x.v / p } else { x.v * p };
                        x.e = if x.v.is_finite() { x.e * p + ULP * x.v.abs() } else { 0.0 };
                    }
                }
            }
        }
        Freq(f, p, n) => {
            for x in c.iter_mut() {
                let k = window(hist, *n).iter().filter(|t| **t == x.id).count() as f64;
                if k > 0.0 && x.v.is_finite() {
                    let (a, b) = (k * *f as f64, *p as f64);
                    x.e += 2.0 * ULP * (x.v.abs() + a.abs() + b.abs());
                    x.v -= a + b;
                }
            }
        }
        Temp(t) => {
            let t = *t as f64;
            if t != 0.0 {
                for x in c.iter_mut().filter(|x| x.v.is_finite()) {
                    x.v /= t;
                    x.e = x.e / t + 2.0 * ULP * x.v.abs();
                }
            }
        }
        TopK(k, m) => {
            descending(c);
            let k = (*k).max(*m).min(c.len());
            cut(c, k)?;
        }
        TopP(p, m) => {
            descending(c);
            let n = c.len();
            let (q, e) = probs(c);
            let (mut cum, mut tol) = (0.0, 0.0);
            let mut at = vec![];
            for i in 0..n {
                cum += q[i];
                tol += e[i];
                at.push(cmp_ge(cum, *p as f64, tol + i as f64 * ULP * cum));
            }
            let k = first((*m).max(1) - 1, n, |i| at[i])?;
            cut(c, (k + 1).min(n))?;
        }
        MinP(..) | TopA(..) => {
            descending(c);
            let n = c.len();
            let (q, e) = probs(c);
            let (thr, rel, m) = match part {
                MinP(p, m) if *p != 0.0 => (*p as f64 * q[0], 1.0, *m),
                TopA(a, b, m) if *a != 0.0 && *b != 0.0 => (*a as f64 * q[0].powf(*b as f64), *b as f64 + 1.0, *m),
                _ => return Some(()),
            };
            let t = thr * (e[0] / q[0] * rel + 2e-6 + ULP * c[0].v.abs());
            let k = first(m.max(1).min(n), n, |i| match cmp_ge(q[i], thr, e[i] + t + TINY) {
                Tri::Yes => Tri::No,
                Tri::No => Tri::Yes,
                x => x,
            })?;
            cut(c, k)?;
        }
        TailFree(z, m) => {
            if *z >= 1.0 || c.len() <= 2 {
                return Some(());
            }
            descending(c);
            let n = c.len();
            let (q, e) = probs(c);
            let (mut sum, mut esum) = (0.0, 0.0);
            let (mut cum, mut ecum) = (vec![], vec![]);
            for i in 0..n - 2 {
                sum += (q[i] - 2.0 * q[i + 1] + q[i + 2]).abs();
                esum += e[i] + 2.0 * e[i + 1] + e[i + 2] + ULP * 2.0 * q[i];
                cum.push(sum);
                ecum.push(esum);
            }
            if esum > 0.01 * sum {
                return None;
            }
            let k = first((*m).min(n), n - 2, |i| {
                let x = cum[i] / sum;
                let t = (ecum[i] + x * esum) / (sum - esum) + ULP * (i as f64 + 2.0) + n as f64 * ULP * x;
                if x - t > *z as f64 {
                    Tri::Yes
                } else if x + t <= *z as f64 {
                    Tri::No
                } else {
                    Tri::Either
                }
            });
            match k? {
                k if k >= n - 2 => {}
                k => cut(c, k)?,
            }
        }
        LocTyp(p, m) => {
            descending(c);
            let n = c.len();
            let (q, e) = probs(c);
            let (mut h, mut eh) = (0.0, 1e-6 + n as f64 * ULP);
            for i in 0..n {
                if q[i] > 0.0 {
                    h -= q[i] * q[i].ln();
                    eh += e[i] * (1.0 - q[i].ln()) + 4e-7 * q[i] * -q[i].ln();
                }
            }
            eh += n as f64 * ULP * h;
            // Scores as intervals, in order.
            let mut s: Vec<(f64, f64, usize)> = (0..n)
                .map(|i| {
                    if q[i] < 1e-36 {
                        return (60.0, f64::INFINITY, i);
                    }
                    let x = (-q[i].ln() - h).abs();
                    let t = e[i] / q[i] * 1.2 + eh - q[i].ln() * 4e-7;
                    ((x - t).max(0.0), x + t, i)
                })
                .collect();
            s.sort_by(|a, b| (a.0 + a.1).partial_cmp(&(b.0 + b.1)).unwrap());
            let (mut cum, mut tol) = (0.0, 0.0);
            let mut high = f64::NEG_INFINITY;
            let mut k = n;
            for (j, (lo, hi, i)) in s.iter().enumerate() {
                if *lo <= high && c[*i].v != c[s[j - 1].2].v {
                    // Which of these is more typical, and so what the sum at this point is.
                    return None;
                }
                high = high.max(*hi);
                cum += q[*i];
                tol += e[*i];
                if j + 1 >= *m {
                    let t = tol + j as f64 * ULP * cum;
                    if cum - t > *p as f64 {
                        k = j + 1;
                        break;
                    }
                    if cum + t > *p as f64 {
                        return None;
                    }
                }
            }
            if k < n && s[k].0 <= high {
                return None;
            }
            let keep: std::collections::HashSet<u32> = s[..k].iter().map(|x| c[x.2].id).collect();
            c.retain(|x| keep.contains(&x.id));
        }
        Greedy | Rand | Miro1(..) | Miro2(..) => {}
    }
    Some(())
}

fn settings(r: &mut Rng, which: usize, n: usize) -> Part {
    let mk = *r.pick(&[1usize, 1, 1, 2, 5]);
    match which {
        0 => Bias((0..r.range(0, 6)).map(|_| (r.below(n) as u32, if r.chance(0.4) { NI } else { r.frange(-3.0, 3.0) as f32 })).collect()),
        1 => Rep(*r.pick(&[1.1f32, 1.3, 2.0, 1.0, 1.05]), *r.pick(&[64usize, 5, 1, 200, 0, usize::MAX])),
        2 => Freq(*r.pick(&[0.05f32, 0.5, 0.0, -0.1]), *r.pick(&[0.1f32, 1.0, 0.0, -0.3]), *r.pick(&[64usize, 5, 1, 200, 0, usize::MAX])),
        3 => TopK(r.range(1, n + 5), mk),
        4 => TailFree(*r.pick(&[0.25f32, 0.5, 0.9, 0.95, 0.99, 1.0]), mk),
        5 => LocTyp(*r.pick(&[0.2f32, 0.5, 0.9, 0.95, 1.0]), mk),
        6 => TopP(*r.pick(&[0.1f32, 0.5, 0.8, 0.9, 0.95, 1.0]), mk),
        7 => MinP(*r.pick(&[0.01f32, 0.05, 0.1, 0.4, 0.0]), mk),
        8 => TopA(*r.pick(&[0.2f32, 0.1, 0.5, 0.0]), *r.pick(&[2.0f32, 1.0, 3.0]), mk),
        _ => Temp(*r.pick(&[0.8f32, 1.0, 0.3, 1.5, 3.0, 0.0])),
    }
}

/// The suggested chains, with parts left out.
fn chain_of(r: &mut Rng, n: usize) -> Vec<Part> {
    let mut parts = vec![];
    let miro = r.chance(0.25);
    let mut order: Vec<usize> = if miro { vec![0, 1, 2, 9] } else { vec![0, 1, 2, 3, 4, 5, 6, 7, 8, 9] };
    if r.chance(0.3) {
        // Other orders are as well defined.
        for i in (1..order.len()).rev() {
            order.swap(i, r.below(i + 1));
        }
    }
    let often = if r.chance(0.5) { 0.3 } else { 0.7 };
    for w in order {
        if r.chance(often) {
            parts.push(settings(r, w, n));
        }
    }
    let (tau, eta) = (r.frange(0.3, 6.0) as f32, *r.pick(&[0.1f32, 0.05, 0.5, 1.0, 0.0]));
    parts.push(if miro && r.chance(0.5) {
        Miro1(n.max(2), tau, eta)
    } else if miro {
        Miro2(tau, eta)
    } else if r.chance(0.1) {
        Greedy
    } else {
        Rand
    });
    parts
}

/// The chain put together in one of the ways there are.
fn assemble(r: &mut Rng, parts: &[Part]) -> SamplerChain {
    let any: Vec<Any> = parts.iter().map(Part::make).collect();
    match r.below(5) {
        0 => {
            let mut b = SamplerChainBuilder::default();
            for (i, a) in any.into_iter().enumerate() {
                b.push_slot(format!("part {i}"), SamplerSlot::new_static(move || a.buildable()));
            }
            b.into_chain()
        }
        1 => {
            let mut ch = SamplerChain::new();
            for a in any {
                ch += a.boxed();
            }
            ch
        }
        2 => {
            // In two halves, one within the other.
            let k = r.range(0, any.len() - 1);
            let (mut ch, mut inner) = (SamplerChain::new(), SamplerChain::new());
            for a in &any[..k] {
                a.push_to(&mut ch, 0);
            }
            for a in &any[k..] {
                a.push_to(&mut inner, 1);
            }
            ch + inner
        }
        3 => {
            let mut ch = SamplerChain::new();
            for a in any {
                ch += a.shared();
            }
            ch
        }
        _ => {
            let mut ch = SamplerChain::new();
            for a in any {
                a.push_to(&mut ch, r.below(3));
            }
            ch
        }
    }
}

/// A chain whose last part, a Mirostat, can still be looked at.
fn watched(parts: &[Part]) -> (SamplerChain, Option<Box<dyn Fn() -> f64>>) {
    let mut ch = SamplerChain::new();
    let (last, rest) = parts.split_last().unwrap();
    for p in rest {
        p.make().push_to(&mut ch, 0);
    }
    match last.make() {
        Any::Miro1(s) => {
            let s = Arc::new(Mutex::new(s));
            let d: Arc<Mutex<dyn Sampler>> = s.clone();
            ch += d;
            (ch, Some(Box::new(move || opt_f(&Any::Miro1(s.lock().unwrap().clone()), "mu"))))
        }
        Any::Miro2(s) => {
            let s = Arc::new(Mutex::new(s));
            let d: Arc<Mutex<dyn Sampler>> = s.clone();
            ch += d;
            (ch, Some(Box::new(move || opt_f(&Any::Miro2(s.lock().unwrap().clone()), "mu"))))
        }
        a => {
            a.push_to(&mut ch, 0);
            (ch, None)
        }
    }
}

const BINS: usize = 16;
/// Of a p-value: two tests in each of up to a million cases.
const P_LIMIT: f64 = 1e-13;

fn c34_loop(c: &mut Case) -> R {
    let long = if c.tiny { 20 } else { c.rng.below(2000) };
    match long {
        // Past where a 16-bit counter starts again.
        0 => generate(c, 70_000, 12),
        1..=19 => generate(c, 20_000, 60),
        _ => generate(c, if c.tiny { 6 } else { 250 }, if c.tiny { 6 } else { 60 }),
    }
}

fn c34_wide(c: &mut Case) -> R {
    generate(c, if c.tiny { 2 } else { 30 }, if c.tiny { 6 } else { 2000 })
}

fn generate(c: &mut Case, steps: usize, max: usize) -> R {
    let r = &mut c.rng;
    let n = r.range(1, max);
    let parts = chain_of(r, n);
    let miro = matches!(parts.last(), Some(Miro1(..) | Miro2(..)));
    let (mut ch, mu_now) = if miro { watched(&parts) } else { (assemble(r, &parts), None) };
    let text = format!("{parts:?}, {n} tokens");
    for p in &parts {
        c.see(p.see());
    }
    let r = &mut c.rng;
    let mut hist: Vec<u32> = (0..r.below(20)).map(|_| r.below(n) as u32).collect();
    let key = r.clone().u64();
    c.fp(&[key]);
    c.nontrivial_if(n > 1);
    c.desc(|| format!("{steps} steps of {text}"));
    let r = &mut c.rng;
    let mut simple = SimpleSamplerResources::new(Some(Box::new(CountRng::new(Stream::random(r)))), Some(hist.clone()));
    let mut own = Res::new(Some(Stream::random(r)), Some(hist.clone()));
    let use_own = r.chance(0.3);
    let spread = *r.pick(&[0.5, 2.0, 2.0, 5.0, 12.0]);
    let fixed: Option<Vec<f32>> = if r.chance(0.3) { Some((0..n).map(|_| (r.normal() * spread) as f32).collect()) } else { None };
    let mut mu = match parts.last() {
        Some(Miro1(_, t, _) | Miro2(t, _)) => *t as f64 * 2.0,
        _ => 0.0,
    };
    let mut bins = vec![0u64; BINS];
    let mut pairs = vec![0u64; 16];
    let (mut total, mut total2) = (0u64, 0u64);
    let mut before: Option<f64> = None;
    let mut shrunk = false;
    for step in 0..steps {
        let r = &mut c.rng;
        let v: Vec<f32> = match &fixed {
            Some(f) => f.clone(),
            None => {
                let mut v: Vec<f32> = (0..n).map(|_| (r.normal() * spread) as f32).collect();
                if r.chance(0.1) {
                    // Coarse values: ties.
                    v.iter_mut().for_each(|x| *x = x.round());
                }
                if r.chance(0.1) {
                    let i = r.below(n);
                    v[i] = NI;
                }
                v
            }
        };
        let mut l = match r.below(4) {
            0 => Logits::try_from_iter_top_k(v.iter().copied(), n).map_err(|e| e.to_string())?,
            1 => Logits::try_from(v.clone()).map_err(|e| e.to_string())?,
            2 => {
                let mut l = Logits::try_from_iter(v.iter().copied()).map_err(|e| e.to_string())?;
                l.ensure_softmax().map_err(|e| e.to_string())?;
                l
            }
            _ => Logits::try_from_iter(v.iter().copied()).map_err(|e| e.to_string())?,
        };
        let mut want: Vec<Cand> = l.iter().map(|x| Cand { id: x.token_id, v: x.logit as f64, e: 0.0 }).collect();
        let mut sure = true;
        for p in &parts {
            let size = want.len();
            if apply(p, &mut want, &hist).is_none() {
                sure = false;
                break;
            }
            shrunk |= want.len() < size && want.len() > 1;
        }
        descending(&mut want);
        let none = sure && (want.is_empty() || want[0].v == f64::NEG_INFINITY);
        c.st_events(1);
        let got = if use_own { ch.sample_token(&mut own, &mut l) } else { ch.sample_token(&mut simple, &mut l) };
        let at = |e: String| format!("step {step} of {text}, history ending {:?}, values {}: {e}; left {}", &hist[hist.len().saturating_sub(30)..], show(&from_values(&v)), show(&l));
        if none {
            c.see("nothing to select from");
            ensure!(!matches!(got, Ok(Some(_))) || (matches!(parts.last(), Some(Greedy)) && !want.is_empty()), "{}", at(format!("selected {got:?}")));
            if let Some(m) = &mu_now {
                ensure!(m() == mu || (m() - mu).abs() < 1e-5 * (1.0 + mu.abs()), "{}", at(format!("mu moved from {mu} to {}", m())));
                mu = m();
            }
            before = None;
            continue;
        }
        let tok = match got {
            Ok(Some(t)) => t,
            other if sure => return Err(at(format!("returned {other:?}"))),
            _ => {
                before = None;
                continue;
            }
        };
        let mut u = None;
        if !sure {
            c.see("hangs on rounding");
            ensure!(l.iter().any(|x| x.token_id == tok), "{}", at(format!("token {tok} selected, which is not left")));
            if let Some(m) = &mu_now {
                mu = m();
            }
        } else {
            c.see("step judged");
            let (mut q, mut e) = probs(&want);
            let mut judge = true;
            match parts.last() {
                Some(Miro2(..)) => {
                    let sur = |i: usize| if q[i] < 1e-36 { (115.0, f64::INFINITY) } else { (-q[i].log2() - e[i] / q[i] * 2.0 - 1e-6, -q[i].log2() + e[i] / q[i] * 2.0 + 1e-6) };
                    let slack = 1e-6 * (1.0 + mu.abs());
                    let k = first(0, want.len(), |i| {
                        let (lo, hi) = sur(i);
                        if lo > mu + slack {
                            Tri::Yes
                        } else if hi <= mu - slack {
                            Tri::No
                        } else {
                            Tri::Either
                        }
                    });
                    match k {
                        Some(k) => judge = cut(&mut want, k.max(1)).is_some(),
                        None => judge = false,
                    }
                }
                Some(Miro1(..)) => {
                    // How many is for C19 to say.
                    judge = cut(&mut want, l.len()).is_some();
                }
                _ => {}
            }
            c.see_if(!judge, "mirostat cut hangs on rounding");
            if judge {
                let by: HashMap<u32, &Cand> = want.iter().map(|x| (x.id, x)).collect();
                ensure!(l.len() == want.len(), "{}", at(format!("{} candidates are left, expected {}: {:?}", l.len(), want.len(), want)));
                for x in l.iter() {
                    let Some(w) = by.get(&x.token_id) else {
                        return Err(at(format!("candidate {} is left, expected {want:?}", x.token_id)));
                    };
                    let same = if w.v.is_finite() { (x.logit as f64 - w.v).abs() <= w.e + 1e-30 } else { x.logit as f64 == w.v };
                    ensure!(same, "{}", at(format!("candidate {} has value {:e}, expected {:e} (up to {:e})", x.token_id, x.logit, w.v, w.e)));
                }
                ensure!(by.contains_key(&tok), "{}", at(format!("token {tok} selected, which is not left")));
                (q, e) = probs(&want);
                let i = want.iter().position(|x| x.id == tok).unwrap();
                match parts.last() {
                    Some(Greedy) => ensure!(want[i].v + want[i].e + want[0].e >= want[0].v, "{}", at(format!("greedy selected {tok}, the largest is {:?}", want[0]))),
                    _ => {
                        ensure!(q[i] > 1e-47, "{}", at(format!("token {tok} selected, which is impossible")));
                        let below: f64 = q[..i].iter().sum();
                        u = Some((below + q[i] * (c.rng.u64() >> 11) as f64 / (1u64 << 53) as f64).clamp(0.0, 1.0 - 1e-12));
                    }
                }
                if let (Some(m), Some(Miro1(_, tau, eta) | Miro2(tau, eta))) = (&mu_now, parts.last()) {
                    let sur = -q[i].log2();
                    let expect = mu - *eta as f64 * (sur - *tau as f64);
                    let tol = *eta as f64 * (e[i] / q[i] * 2.0 + 1e-6 * (1.0 + sur + *tau as f64)) + 1e-6 * (mu.abs() + expect.abs()) + 1e-9;
                    let now = m();
                    ensure!((now - expect).abs() <= tol || q[i] < 1e-36, "{}", at(format!("selected {tok} with surprise {sur}: mu went from {mu} to {now}, expected {expect}")));
                    c.see_if((expect - mu).abs() > 4.0 * tol, "mu moved");
                    mu = now;
                }
            } else if let Some(m) = &mu_now {
                mu = m();
            }
        }
        if let Some(u) = u {
            bins[(u * BINS as f64) as usize] += 1;
            total += 1;
            if let Some(b) = before {
                pairs[(b * 4.0) as usize * 4 + (u * 4.0) as usize] += 1;
                total2 += 1;
            }
        }
        before = u;
        // What a user does with the token, and now and then something else.
        let (edit, at, other) = (c.rng.below(40), c.rng.below(400), c.rng.below(n) as u32);
        let at_of = |t: &[u32]| at % t.len().max(1);
        let change = |t: &mut Vec<u32>| match edit {
            0 => t.clear(),
            1 => {
                t.pop();
            }
            2 => t.extend([tok, tok, tok]),
            3 => {
                let k = t.len() / 2;
                t.drain(..k);
                t.push(tok);
            }
            // Another token somewhere before.
            4 | 5 | 6 if !t.is_empty() => {
                let i = at_of(t);
                t[i] = other;
                t.push(tok);
            }
            // Back some steps, and on with something else.
            7 => {
                let k = t.len() - at_of(t).min(12).min(t.len());
                t.truncate(k);
                t.resize(k + 1 + at % 5, other);
            }
            8 => {
                t.reverse();
                t.push(tok);
            }
            _ => t.push(tok),
        };
        change(&mut hist);
        if hist.len() > 400 {
            hist.drain(..300);
            let f = &mut |t: &mut Vec<u32>| *t = hist.clone();
            let _ = if use_own { own.with_last_tokens_mut(f) } else { simple.with_last_tokens_mut(f) };
        } else {
            let f = &mut |t: &mut Vec<u32>| change(t);
            let _ = if use_own { own.with_last_tokens_mut(f) } else { simple.with_last_tokens_mut(f) };
        }
        let mut same = false;
        let f = &mut |t: &Vec<u32>| same = *t == hist;
        let _ = if use_own { own.with_last_tokens(f) } else { simple.with_last_tokens(f) };
        ensure!(same, "step {step} of {text}: the history is not what was selected; expected {hist:?}");
    }
    c.see_if(shrunk, "candidates removed, several left");
    c.see_n("selections compared", total);
    c.see_n("consecutive selections compared", total2);
    if total >= 100 {
        let p = fit(&[1.0 / BINS as f64; BINS], &bins, total as f64);
        ensure!(p > P_LIMIT, "the selections over {steps} steps of {text} do not follow the probabilities: ranks within the distribution, in {BINS} parts, {bins:?} (p-value {p:e})");
    }
    // Whether a step can be judged may depend on the selection before it, but not on its own.
    for row in pairs.chunks(4) {
        let n: u64 = row.iter().sum();
        if n >= 100 {
            let p = fit(&[0.25; 4], row, n as f64);
            ensure!(p > P_LIMIT, "selections over {steps} steps of {text} depend on the ones before them: pairs of quarters {pairs:?} (p-value {p:e})");
        }
    }
    Ok(())
}

pub fn c34() -> Prop {
    Prop {
        id: "C34",
        rule: "generation loops of up to 70000 steps with the suggested chains (parts left out, sometimes reordered, put together in five ways), new or repeated logits, the selected token appended to the history, the history edited now and then; every step against a reference interpreter in f64, selections through their ranks; non-trivial: more than one token",
        workloads: vec![
            Workload {
                name: "loop",
                quick: 24_000,
                thorough: 960_000,
                f: c34_loop,
                need: &[
                    "flat bias", "repetition", "frequency / presence", "top-k", "tail free", "locally typical", "top-p", "min-p", "top-a", "temperature",
                    "greedy", "random", "mirostat 1", "mirostat 2", "step judged", "mu moved", "nothing to select from", "candidates removed, several left",
                ],
            },
            Workload { name: "wide", quick: 6_000, thorough: 240_000, f: c34_wide, need: &["step judged"] },
        ],
    }
}
