//! C04 truthful flags, C05 filters only remove.

use crate::core::*;
use crate::gen::*;
use crate::model::*;
use crate::rng::Rng;
use llm_samplers::prelude::*;

/// Values are in the domain of the statements: finite or -inf, at least one finite.
pub fn in_domain(l: &[Logit]) -> bool {
    l.iter().all(|x| x.logit.is_finite() || x.logit == NI) && l.iter().any(|x| x.logit.is_finite())
}

fn start(r: &mut Rng, max: usize) -> Logits {
    let n = size(r, max);
    let d = if r.chance(0.2) { Dom { neg_inf: true, max_abs: 1e6 } } else { MILD_BAN };
    let v = values(r, n, d);
    prep(r, &v).0
}

/// Run random samplers (and direct sort/softmax calls) one after the other; check the flags after each.
fn c04_any(c: &mut Case) -> R {
    let l = start(&mut c.rng, 300);
    c04_steps(c, l)
}

fn c04_large(c: &mut Case) -> R {
    let l = big_logits(&mut c.rng, MILD_BAN);
    c04_steps(c, l)
}

fn c04_steps(c: &mut Case, mut l: Logits) -> R {
    let toks = history(&mut c.rng, &l, 24);
    let neg = c.rng.chance(0.4) && l.iter().all(|x| x.logit.is_finite());
    let mut res = Res::new(Some(Stream::random(&mut c.rng)), Some(toks.clone()));
    let steps = c.rng.range(1, if c.tiny { 4 } else { 8 });
    c.fp(&[hash_logits(&l), c.rng.clone().u64()]);
    c.nontrivial_if(l.len() > 1);
    let first = show(&l);
    let mut names = vec![];
    for step in 0..steps {
        if !in_domain(&l) {
            break;
        }
        let before = (l.get_sorted(), l.get_softmax(), l.len());
        let vals: Vec<u32> = l.iter().map(|x| x.logit.to_bits()).collect();
        let what: String;
        match c.rng.below(12) {
            0 => {
                what = "ensure_sorted".into();
                let _ = l.ensure_sorted();
            }
            1 | 2 => {
                what = "ensure_softmax".into();
                let _ = l.ensure_softmax();
            }
            _ => {
                let lim = if neg { TAME_NEG } else { TAME };
                let mut a = any_sampler(&mut c.rng, &l, toks.len(), lim);
                // Runs of the same sampler twice are of interest too.
                what = format!("{a:?}");
                names.push(a.kind());
                let r = a.run(&mut res, &mut l);
                c.see_if(r.is_err(), "a sampler failed");
                c.see(a.kind());
            }
        }
        c.event();
        if !in_domain(&l) && !l.is_empty() {
            break;
        }
        c.see_if(before.1 && !l.get_softmax(), "softmax invalidated");
        c.see_if(before.0 && !l.get_sorted(), "sorting invalidated");
        c.see_if(l.get_softmax() && l.len() > 1, "checked a claim to be softmaxed");
        c.see_if(l.get_sorted() && l.len() > 1, "checked a claim to be sorted");
        c.see_if(
            before.1 && vals != l.iter().map(|x| x.logit.to_bits()).collect::<Vec<_>>(),
            "softmaxed logits changed",
        );
        flags_truthful(&l).map_err(|e| {
            format!("after step {step} {what} (before it: sorted={} softmax={} n={}): {e}; started from {first}, {names:?}", before.0, before.1, before.2)
        })?;
    }
    c.desc(|| format!("{first} steps {names:?}"));
    Ok(())
}

/// Every ordered pair of samplers from every prepared state.
fn c04_pairs(c: &mut Case) -> R {
    let n = size1(&mut c.rng, 40).max(2);
    let v = values(&mut c.rng, n, MILD);
    let (l0, p) = prep(&mut c.rng, &v);
    let toks = history(&mut c.rng, &l0, 12);
    c.fp(&[hash_logits(&l0), c.rng.clone().u64()]);
    c.nontrivial();
    let mut l = l0.clone();
    let mut res = Res::new(Some(Stream::random(&mut c.rng)), Some(toks.clone()));
    let make = |r: &mut Rng, l: &Logits| loop {
        let a = any_sampler(r, l, toks.len(), TAME_NEG);
        if r.chance(0.5) || matches!(a, Any::Temp(_) | Any::Bias(_) | Any::Rep(_) | Any::Freq(_) | Any::Seq(_)) {
            return a;
        }
    };
    let mut d = vec![];
    for _ in 0..2 {
        // Softmax first: the state in which stale probabilities can survive.
        let _ = l.ensure_softmax();
        let mut a = make(&mut c.rng, &l);
        d.push(format!("{a:?}"));
        let _ = a.run(&mut res, &mut l);
        c.event();
        if !in_domain(&l) {
            break;
        }
        flags_truthful(&l).map_err(|e| format!("after ensure_softmax and {d:?} on {} ({p:?}): {e}", show(&l0)))?;
    }
    c.desc(|| format!("{} {d:?}", show(&l0)));
    Ok(())
}

pub fn c04() -> Prop {
    Prop {
        id: "C04",
        rule: "pipelines of 1..8 random built-in samplers and direct sort/softmax calls on prepared logits, flags compared with the entries after every step; non-trivial: at least two entries at the start",
        workloads: vec![
            Workload {
                name: "pipeline",
                quick: 1_500_000,
                thorough: 60_000_000,
                f: c04_any,
                need: &[
                    "softmax invalidated",
                    "sorting invalidated",
                    "checked a claim to be softmaxed",
                    "checked a claim to be sorted",
                    "softmaxed logits changed",
                ],
            },
            Workload { name: "large", quick: 150, thorough: 6_000, f: c04_large, need: &[] },
            Workload { name: "after-softmax", quick: 1_500_000, thorough: 60_000_000, f: c04_pairs, need: &[] },
        ],
    }
}

// ---------------------------------------------------------------- C05

fn c05_any(c: &mut Case) -> R {
    let l = start(&mut c.rng, 400);
    c05_steps(c, l)
}

fn c05_large(c: &mut Case) -> R {
    let l = big_logits(&mut c.rng, MILD_BAN);
    c05_steps(c, l)
}

fn c05_steps(c: &mut Case, mut l: Logits) -> R {
    if !l.is_empty() && !in_domain(&l) {
        return Ok(());
    }
    let toks = history(&mut c.rng, &l, 12);
    let mut res = Res::new(Some(Stream::hostile(&mut c.rng)), Some(toks.clone()));
    let steps = c.rng.range(1, if c.tiny { 3 } else { 6 });
    c.fp(&[hash_logits(&l), c.rng.clone().u64()]);
    c.nontrivial_if(l.len() > 1);
    let first = show(&l);
    let mut names = vec![];
    for _ in 0..steps {
        if l.is_empty() && c.rng.chance(0.8) {
            break;
        }
        // Mostly filters, sometimes something in between that changes values.
        let mut a = match c.rng.below(10) {
            0 => any_sampler(&mut c.rng, &l, toks.len(), TAME),
            1 => a_miro1(&mut c.rng, l.len()),
            2 => a_miro2(&mut c.rng),
            _ => a_filter(&mut c.rng, l.len()),
        };
        if c.rng.chance(0.05) {
            let _ = a.cfg().configure("min_keep=18446744073709551615");
        }
        let inp = snap(&l);
        let mk = a.min_keep();
        let is_filter = a.filters();
        names.push(a.kind());
        let r = if a.needs_rng() { a.run(&mut res, &mut l) } else { a.drive(&mut c.rng, &mut res, &mut l) };
        c.event();
        if !is_filter {
            if !in_domain(&l) {
                break;
            }
            continue;
        }
        let at = |e: String| format!("{a:?} on {}: {e} (output {}; started from {first}, {names:?})", show(&inp), show(&l));
        if let Err(e) = r {
            return Err(at(format!("failed: {e}")));
        }
        subset_of(&l, &inp).map_err(at)?;
        let floor = mk.min(inp.len());
        ensure!(l.len() >= floor, "{}", at(format!("{} entries survive, minimum {floor}", l.len())));
        let never_empty = mk >= 1 || matches!(a, Any::Miro1(_) | Any::Miro2(_));
        ensure!(!(never_empty && l.is_empty() && !inp.is_empty()), "{}", at("became empty".into()));
        if !matches!(a, Any::LocTyp(_)) && l.len() < inp.len() {
            let kept: std::collections::HashSet<u32> = l.iter().map(|x| x.token_id).collect();
            let min_kept = l.iter().map(|x| x.logit).fold(f32::INFINITY, f32::min);
            for x in inp.iter().filter(|x| !kept.contains(&x.token_id)) {
                ensure!(x.logit <= min_kept, "{}", at(format!("removed token {} ({:e}) but kept {min_kept:e}", x.token_id, x.logit)));
            }
        }
        if l.len() < inp.len() {
            c.see("removed some");
            c.see(a.kind());
            c.see_if(l.len() == floor && floor > 1, "stopped at the minimum");
        }
    }
    c.desc(|| format!("{first} {names:?}"));
    Ok(())
}

pub fn c05() -> Prop {
    Prop {
        id: "C05",
        rule: "sequences of 1..6 samplers, mostly filters and Mirostats with minimum-keep settings around the size, on prepared logits (incl. -inf entries); non-trivial: at least two entries at the start",
        workloads: vec![
            Workload {
                name: "sequences",
                quick: 600_000,
                thorough: 24_000_000,
                f: c05_any,
                need: &["removed some", "stopped at the minimum"],
            },
            Workload { name: "large", quick: 200, thorough: 8_000, f: c05_large, need: &[] },
        ],
    }
}
