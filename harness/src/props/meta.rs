//! C31 only the candidates matter, not how they are presented.

use crate::core::*;
use crate::gen::*;
use crate::rng::Rng;
use llm_samplers::configure::*;
use llm_samplers::prelude::*;
use std::collections::HashMap;

/// The same sampler, talking about renamed tokens.
fn renamed(a: &Any, f: &dyn Fn(u32) -> u32) -> Any {
    match a {
        Any::Bias(b) => Any::Bias(SampleFlatBias::new(b.iter().map(|(t, x)| (f(*t), *x)).collect::<Vec<_>>())),
        _ => a.clone(),
    }
}

fn ties(l: &Logits) -> bool {
    let mut v: Vec<f32> = l.iter().map(|x| x.logit + 0.0).collect();
    v.sort_by(|a, b| a.total_cmp(b));
    v.windows(2).any(|w| w[0] == w[1])
}

type Got = (Result<Option<u32>, String>, Vec<(u32, u32)>);

fn outcome(a: &mut Any, res: &mut Res, l: &mut Logits, back: &dyn Fn(u32) -> u32) -> Got {
    let got = a.run(res, l).map(|t| t.map(back)).map_err(|e| e.to_string());
    let mut v: Vec<(u32, u32)> = l.iter().map(|x| (back(x.token_id), x.logit.to_bits())).collect();
    v.sort();
    (got, v)
}

/// Whether rounding alone could explain another outcome.
fn on_the_edge(r: &mut Rng, a: &Any, res: &Res, l: &Logits, want: &Got) -> bool {
    let ids = |g: &Got| (g.0.clone(), g.1.iter().map(|x| x.0).collect::<Vec<_>>());
    for _ in 0..400 {
        let mut l2 = l.clone();
        if r.chance(0.5) {
            let s = *r.pick(&[1e-5, 1e-6]);
            for x in l2.iter_mut() {
                x.logit += r.frange(-s, s) as f32 * x.logit.abs().max(1.0)
            }
        } else {
            // Sums over many entries are off by more: move some mass from one side to the other.
            let s = r.frange(-1.0, 1.0) * (2e-5 + 2e-7 * l.len() as f64);
            let cut = l[r.below(l.len())].logit;
            for x in l2.iter_mut() {
                if x.logit >= cut {
                    x.logit += s as f32
                }
            }
        }
        l2.set_sorted(false).set_softmax(false);
        let (mut b, mut res2) = (a.clone(), res.clone());
        if r.chance(0.5) {
            let key = ["p", "z", "a1", "mu"].into_iter().find(|k| !opt_f(&b, k).is_nan());
            if let Some(k) = key {
                let x = opt_f(&b, k) * (1.0 + r.frange(-1.0, 1.0) * (1e-5 + 2e-7 * l.len() as f64));
                let _ = b.cfg().set_option(k, SamplerOptionValue::Float(x));
            }
        }
        let got = outcome(&mut b, &mut res2, &mut l2, &|t| t);
        if ids(&got) != ids(want) {
            return true;
        }
    }
    false
}

fn c31_pair(c: &mut Case) -> R {
    let r = &mut c.rng;
    let big = !c.tiny && r.chance(0.0005);
    let n = if big { r.range(1000, 30_000) } else { size1(r, if c.tiny { 6 } else { 120 }) };
    // Distinct values.
    let mut v = values(r, n, MILD_BAN);
    v.iter_mut().for_each(|x| *x += 0.0);
    v.sort_by(|a, b| b.total_cmp(a));
    v.dedup();
    let n = v.len();
    r.shuffle(&mut v);
    let mut a = from_values(&v);
    remap(r, &mut a);
    let toks = history(r, &a, 40);

    // The other presentation.
    let rename = r.chance(0.5);
    let (ma, mb) = if rename { (r.u32() | 1, r.u32()) } else { (1, 0) };
    // Inverse modulo 2^32.
    let mut inv = 1u32;
    for _ in 0..6 {
        inv = inv.wrapping_mul(2u32.wrapping_sub(ma.wrapping_mul(inv)));
    }
    let f = move |t: u32| t.wrapping_mul(ma).wrapping_add(mb);
    let back = move |t: u32| t.wrapping_sub(mb).wrapping_mul(inv);
    let mut b = a.clone();
    for x in b.iter_mut() {
        x.token_id = f(x.token_id);
    }
    let toks_b: Vec<u32> = toks.iter().map(|t| f(*t)).collect();
    let how = r.below(6);
    match how {
        0 => {}
        1 | 2 => {
            let mut v: Vec<Logit> = b.iter().cloned().collect();
            r.shuffle(&mut v);
            for (x, y) in b.iter_mut().zip(v) {
                *x = y;
            }
        }
        3 => b.reverse(),
        4 => {
            let _ = b.ensure_sorted();
        }
        _ => {
            let _ = b.ensure_softmax();
        }
    }
    if how != 5 && r.chance(0.4) {
        for x in b.iter_mut() {
            x.prob = *r.pick(&[0.0, 1.0, 0.5, 1e-9, -1.0, f32::NAN, f32::INFINITY]);
        }
    }
    if r.chance(0.2) {
        // The first one may come sorted just as well.
        let _ = if r.chance(0.5) { a.ensure_sorted() } else { a.ensure_softmax() };
    }
    let lim = if r.chance(0.5) { TAME } else { TAME_NEG };
    let steps: Vec<Any> = (0..r.range(1, 4)).map(|_| any_sampler(r, &a, toks.len(), lim)).collect();
    let stream = Stream::random(r);
    let mut ra = Res::new(Some(stream.clone()), Some(toks.clone()));
    let mut rb = Res::new(Some(stream), Some(toks_b));
    c.fp(&[hash_logits(&a), c.rng.clone().u64()]);
    c.nontrivial_if(n > 1 && (how > 0 || rename));
    c.desc(|| format!("{steps:?} on {} and {}", show(&a), show(&b)));
    c.see(["same order", "shuffled", "shuffled", "reversed", "already sorted", "already softmaxed"][how]);
    c.see_if(rename, "tokens renamed");
    c.see_if(n > 1000, "many candidates");
    for (i, s) in steps.iter().enumerate() {
        let before = a.clone();
        let res_before = ra.clone();
        let (mut x, mut y) = (s.clone(), renamed(s, &f));
        c.event();
        let ga = outcome(&mut x, &mut ra, &mut a, &|t| t);
        let gb = outcome(&mut y, &mut rb, &mut b, &back);
        c.see(s.kind());
        let by_sums = s.filters() || s.needs_rng();
        if ga != gb {
            if by_sums && on_the_edge(&mut c.rng, s, &res_before, &before, &ga) {
                c.see("left alone: rounding decides");
                return Ok(());
            }
            let m: HashMap<u32, u32> = ga.1.iter().cloned().collect();
            let extra: Vec<_> = gb.1.iter().filter(|z| m.get(&z.0) != Some(&z.1)).take(3).collect();
            return Err(format!(
                "step {i}, {s:?} on {} (sorted={} softmax={}), also presented as {}{}: result {:?} / {:?}, {} / {} candidates left, the latter with {extra:?} unlike the former; history {toks:?}",
                show(&before),
                before.get_sorted(),
                before.get_softmax(),
                ["the same", "shuffled", "shuffled", "reversed", "sorted", "softmaxed"][how],
                if rename { ", renamed" } else { "" },
                ga.0,
                gb.0,
                ga.1.len(),
                gb.1.len(),
            ));
        }
        ensure!(ra.draws() == rb.draws(), "step {i}, {s:?} on {}: {} draws / {} draws", show(&before), ra.draws(), rb.draws());
        if matches!(s, Any::Miro1(_) | Any::Miro2(_)) {
            let (p, q) = (opt_f(&x, "mu"), opt_f(&y, "mu"));
            ensure!((p - q).abs() <= 1e-3 * (1.0 + p.abs()), "step {i}, {s:?} on {}: mu becomes {p} / {q}", show(&before));
        }
        c.see_if(a.len() < before.len(), "some removed");
        c.see_if(matches!(ga.0, Ok(Some(_))), "token selected");
        if ga.0.is_err() || ties(&a) || a.iter().any(|x| x.logit.is_nan() || x.logit == f32::INFINITY) {
            c.see("stopped at a tie");
            break;
        }
    }
    Ok(())
}

pub fn c31() -> Prop {
    Prop {
        id: "C31",
        rule: "chains of 1 to 4 built-in samplers of every kind run on two presentations of the same distinct candidates (shuffled, reversed, sorted, softmaxed, leftover probabilities, tokens renamed consistently), results compared bit by bit after every step until values tie; non-trivial: at least two candidates and a different presentation",
        workloads: vec![Workload {
            name: "pair",
            quick: 2_000_000,
            thorough: 80_000_000,
            f: c31_pair,
            need: &[
                "shuffled", "reversed", "already sorted", "already softmaxed", "tokens renamed", "many candidates", "some removed", "token selected",
                "topk", "topp", "minp", "topa", "tailfree", "loctyp", "temp", "rep", "freq", "seq", "bias", "greedy", "rand", "miro1", "miro2",
            ],
        }],
    }
}
