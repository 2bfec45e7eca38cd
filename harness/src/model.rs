//! Reference computations in f64 with bounds on what f32 arithmetic may differ by.

use llm_samplers::prelude::*;

/// Softmax of values (any order) with a relative error bound per entry that covers any reasonable f32 evaluation.
pub struct Soft {
    pub p: Vec<f64>,
    pub rel: Vec<f64>,
}

pub const TINY: f64 = 4e-45;

pub fn softmax(v: impl Iterator<Item = f32> + Clone) -> Soft {
    let max = v.clone().fold(f32::NEG_INFINITY, f32::max) as f64;
    let d: Vec<f64> = v.map(|x| x as f64 - max).collect();
    let e: Vec<f64> = d.iter().map(|x| x.exp()).collect();
    let sum: f64 = e.iter().sum();
    let n = e.len() as f64;
    Soft {
        p: e.iter().map(|x| x / sum).collect(),
        rel: d
            .iter()
            .map(|d| {
                let d = if d.is_finite() { d.abs().min(200.0) } else { 0.0 };
                2e-6 + 1.5e-7 * d + n * 1.3e-7
            })
            .collect(),
    }
}

pub fn soft_of(l: &[Logit]) -> Soft {
    softmax(l.iter().map(|x| x.logit))
}

impl Soft {
    /// Absolute tolerance for entry i.
    pub fn tol(&self, i: usize) -> f64 {
        self.p[i] * self.rel[i] + TINY
    }
    /// The same without the error of the sum, which is common to all entries and cancels in ratios.
    pub fn tol_local(&self, i: usize) -> f64 {
        self.p[i] * (self.rel[i] - self.p.len() as f64 * 1.3e-7) + TINY
    }
    pub fn matches(&self, i: usize, got: f32) -> bool {
        (got as f64 - self.p[i]).abs() <= self.tol(i)
    }
}

pub fn is_desc(l: &[Logit]) -> bool {
    l.windows(2).all(|w| w[0].logit >= w[1].logit)
}

/// Entries of `out` are entries of `inp` (same id and value bits), each used at most once. Token ids are distinct.
pub fn subset_of(out: &[Logit], inp: &[Logit]) -> Result<(), String> {
    let mut m = std::collections::HashMap::with_capacity(inp.len());
    for l in inp {
        m.insert(l.token_id, l.logit.to_bits());
    }
    for o in out {
        match m.remove(&o.token_id) {
            Some(b) if b == o.logit.to_bits() => {}
            Some(b) => {
                return Err(format!(
                    "value of token {} changed from {:e} to {:e}",
                    o.token_id,
                    f32::from_bits(b),
                    o.logit
                ))
            }
            None => return Err(format!("token {} invented or duplicated", o.token_id)),
        }
    }
    Ok(())
}

/// Values of the entries, descending.
pub fn sorted_values(l: &[Logit]) -> Vec<f32> {
    let mut v: Vec<f32> = l.iter().map(|x| x.logit).collect();
    v.sort_by(|a, b| b.partial_cmp(a).unwrap());
    v
}

/// Output is a prefix of some descending order of the input (ties free), in descending order itself.
pub fn top_prefix(out: &[Logit], inp: &[Logit]) -> Result<(), String> {
    subset_of(out, inp)?;
    let want = sorted_values(inp);
    for (i, o) in out.iter().enumerate() {
        if o.logit != want[i] {
            return Err(format!(
                "entry {i} of the output has value {:e}, the {}th largest input value is {:e}",
                o.logit, i, want[i]
            ));
        }
    }
    Ok(())
}

/// Flags are truthful: sorted implies descending, softmax implies sorted and the right probabilities.
pub fn flags_truthful(l: &Logits) -> Result<(), String> {
    if l.get_sorted() && !is_desc(l) {
        return Err("claims to be sorted but is not descending".into());
    }
    if l.get_softmax() && !l.is_empty() {
        if !is_desc(l) {
            return Err("claims to be softmaxed but is not sorted".into());
        }
        if !l.get_sorted() {
            return Err("claims to be softmaxed but not sorted".into());
        }
        let s = soft_of(l);
        for (i, x) in l.iter().enumerate() {
            if !s.matches(i, x.prob) {
                return Err(format!(
                    "claims to be softmaxed but entry {i} (token {}) has probability {:e}, softmax of the values present is {:e}",
                    x.token_id, x.prob, s.p[i]
                ));
            }
        }
    }
    Ok(())
}

/// A decision that rounding may tip either way.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tri {
    Yes,
    No,
    Either,
}

pub fn cmp_ge(x: f64, y: f64, tol: f64) -> Tri {
    if x - tol >= y {
        Tri::Yes
    } else if x + tol < y {
        Tri::No
    } else {
        Tri::Either
    }
}

/// Survival function of chi-square with k degrees of freedom (Wilson-Hilferty is too rough in the far tail for
/// small k, so use the regularised incomplete gamma function).
pub fn chi2_sf(x: f64, k: f64) -> f64 {
    if x <= 0.0 {
        return 1.0;
    }
    1.0 - gamma_p(k / 2.0, x / 2.0)
}

fn ln_gamma(x: f64) -> f64 {
    let c = [
        76.18009172947146,
        -86.50532032941677,
        24.01409824083091,
        -1.231739572450155,
        0.1208650973866179e-2,
        -0.5395239384953e-5,
    ];
    let mut y = x;
    let t = x + 5.5;
    let t = t - (x + 0.5) * t.ln();
    let mut s = 1.000000000190015;
    for c in c {
        y += 1.0;
        s += c / y;
    }
    -t + (2.5066282746310005 * s / x).ln()
}

fn gamma_p(a: f64, x: f64) -> f64 {
    if x < a + 1.0 {
        let (mut ap, mut sum) = (a, 1.0 / a);
        let mut del = sum;
        for _ in 0..10000 {
            ap += 1.0;
            del *= x / ap;
            sum += del;
            if del.abs() < sum.abs() * 1e-15 {
                break;
            }
        }
        sum * (-x + a * x.ln() - ln_gamma(a)).exp()
    } else {
        1.0 - gamma_q_cf(a, x)
    }
}

fn gamma_q_cf(a: f64, x: f64) -> f64 {
    let tiny = 1e-300;
    let mut b = x + 1.0 - a;
    let mut c = 1.0 / tiny;
    let mut d = 1.0 / b;
    let mut h = d;
    for i in 1..10000 {
        let an = -(i as f64) * (i as f64 - a);
        b += 2.0;
        d = an * d + b;
        if d.abs() < tiny {
            d = tiny
        }
        c = b + an / c;
        if c.abs() < tiny {
            c = tiny
        }
        d = 1.0 / d;
        let del = d * c;
        h *= del;
        if (del - 1.0).abs() < 1e-15 {
            break;
        }
    }
    (-x + a * x.ln() - ln_gamma(a)).exp() * h
}

/// Upper tail of chi-square computed without cancellation.
pub fn chi2_tail(x: f64, k: f64) -> f64 {
    let (a, y) = (k / 2.0, x / 2.0);
    if y < a + 1.0 {
        chi2_sf(x, k)
    } else {
        gamma_q_cf(a, y)
    }
}

/// Two-sided tail bound for `obs` successes in n trials with probability p: Chernoff / KL bound.
pub fn binom_bound(n: f64, p: f64, obs: f64) -> f64 {
    let q = obs / n;
    if p <= 0.0 {
        return if obs > 0.0 { 0.0 } else { 1.0 };
    }
    if p >= 1.0 {
        return if obs < n { 0.0 } else { 1.0 };
    }
    let t = |a: f64, b: f64| if a <= 0.0 { 0.0 } else { a * (a / b).ln() };
    let kl = t(q, p) + t(1.0 - q, 1.0 - p);
    2.0 * (-n * kl).exp()
}
