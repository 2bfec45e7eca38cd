//! C32 a sampler touches only what its kind of sampler may touch.

use crate::core::*;
use crate::gen::*;
use llm_samplers::configure::*;
use llm_samplers::prelude::*;

fn entries(l: &[Logit]) -> Vec<(u32, u32)> {
    l.iter().map(|x| (x.token_id, x.logit.to_bits())).collect()
}

fn sorted(mut v: Vec<(u32, u32)>) -> Vec<(u32, u32)> {
    v.sort();
    v
}

fn c32_any(c: &mut Case) -> R {
    let n = size(&mut c.rng, if c.tiny { 8 } else { 300 });
    let v = values(&mut c.rng, n, MILD_BAN);
    let l = prep(&mut c.rng, &v).0;
    steps(c, l)
}

fn c32_large(c: &mut Case) -> R {
    let l = big_logits(&mut c.rng, MILD_BAN);
    steps(c, l)
}

fn steps(c: &mut Case, mut l: Logits) -> R {
    let big = l.len() > 1000;
    if c.rng.chance(0.1) {
        // Tokens may be listed more than once.
        for _ in 0..l.len().min(3) {
            let (i, j) = (c.rng.below(l.len()), c.rng.below(l.len()));
            l[i].token_id = l[j].token_id;
        }
        c.see_if(l.len() > 1, "a token listed twice");
    }
    let r = &mut c.rng;
    let mut toks = history(r, &l, if big { 12 } else { 40 });
    if big && r.chance(0.6) || r.chance(0.002) {
        // Hundreds of different tokens.
        toks = (0..r.range(1, 600)).map(|_| if l.is_empty() { r.u32() } else { l[r.below(l.len())].token_id }).collect();
    }
    let stream = if r.chance(0.7) { Stream::random(r) } else { Stream::hostile(r) };
    let mut res = Res::new(
        if r.chance(0.9) { Some(stream) } else { None },
        if r.chance(0.9) { Some(toks.clone()) } else { None },
    );
    let count = r.range(1, if c.tiny { 2 } else { 4 });
    c.fp(&[hash_logits(&l), c.rng.clone().u64()]);
    c.nontrivial_if(l.len() > 1);
    let first = show(&l);
    let mut names = vec![];
    for _ in 0..count {
        let mut a = any_sampler(&mut c.rng, &l, toks.len(), TAME_NEG);
        if let (Any::Seq(_), true) = (&a, toks.len() > 60) {
            continue;
        }
        if c.rng.chance(0.15) {
            // Settings of no practical use.
            for o in a.cref().sampler_metadata().options {
                if o.option_type == SamplerOptionType::Float && c.rng.chance(0.6) {
                    let v = *c.rng.pick(&[0.0f64, -0.0, -1.0, -0.001, 1.5, 3.0, 1e30, -1e30, 3.4e38, 1e-30, -1e-30, 1e-44]);
                    a.cfg().set_option(o.key, SamplerOptionValue::Float(v)).map_err(|e| format!("{}: {e}", o.key))?;
                }
            }
        }
        names.push(a.kind());
        let before = entries(&l);
        let (params, draws) = (a.params(), res.draws());
        let bias: Option<Vec<(u32, f32)>> = if let Any::Bias(b) = &a { Some(b.to_vec()) } else { None };
        c.event();
        let route = c.rng.below(3);
        let got = match route {
            0 => a.run(&mut res, &mut l),
            1 => {
                let g = a.s().sample(&mut res, &mut l).map(|_| ());
                let t = a.sref().sampled_token_id();
                g.map(|_| t)
            }
            _ if a.needs_rng() => a.run(&mut res, &mut l),
            _ => a.drive(&mut c.rng, &mut res, &mut l),
        };
        let after = entries(&l);
        let at = |e: String| format!("{a:?} on {} entries, result {got:?}: {e}; now {}; started from {first}, {names:?}", before.len(), show(&l));
        ensure!(a.params() == params, "{}", at(format!("its settings were {params:?}")));
        if let (Any::Bias(b), Some(old)) = (&a, bias) {
            let same = b.len() == old.len() && b.iter().zip(&old).all(|(x, y)| x.0 == y.0 && x.1.to_bits() == y.1.to_bits());
            ensure!(same, "{}", at(format!("its list was {old:?}")));
        }
        ensure!(res.toks.as_ref().map_or(true, |t| *t == toks), "{}", at(format!("the history was {toks:?}")));
        if let Ok(Some(t)) = &got {
            ensure!(matches!(a, Any::Greedy(_)) || a.needs_rng(), "{}", at("it is no selector".into()));
            ensure!(before.iter().any(|x| x.0 == *t), "{}", at("there is no such token".into()));
            ensure!(after.iter().any(|x| x.0 == *t), "{}", at("the token selected is not left".into()));
            c.see("token selected");
        }
        ensure!(a.needs_rng() || res.draws() == draws, "{}", at("randomness consumed".into()));
        match &a {
            Any::Greedy(_) | Any::Rand(_) => {
                ensure!(sorted(before.clone()) == sorted(after.clone()), "{}", at("a selector changed the candidates".into()));
                if matches!(a, Any::Greedy(_)) {
                    ensure!(before == after, "{}", at("greedy selection moved candidates".into()));
                    c.see("greedy selection");
                } else {
                    c.see("random selection");
                }
            }
            _ if a.filters() => {
                // A multiset inclusion.
                let (b, k) = (sorted(before.clone()), sorted(after.clone()));
                let mut i = 0;
                for x in &k {
                    while i < b.len() && b[i] < *x {
                        i += 1;
                    }
                    ensure!(i < b.len() && b[i] == *x, "{}", at(format!("a filter made {x:?} (bits) or listed it again")));
                    i += 1;
                }
                ensure!(got.is_ok() || before.len() == after.len() || a.needs_rng(), "{}", at("failed and removed candidates".into()));
                c.see("filter");
            }
            _ => {
                let ids = |v: &[(u32, u32)]| v.iter().map(|x| x.0).collect::<Vec<_>>();
                ensure!(ids(&before) == ids(&after), "{}", at("a sampler that only changes values changed the list of tokens".into()));
                ensure!(got.is_ok() || before == after, "{}", at("failed and changed values".into()));
                c.see_if(before != after, "values changed");
            }
        }
        c.see_if(got.is_err(), "failed");
        if l.iter().any(|x| x.logit.is_nan() || x.logit == f32::INFINITY) {
            break;
        }
    }
    c.desc(|| format!("{first} {names:?}"));
    Ok(())
}

pub fn c32() -> Prop {
    Prop {
        id: "C32",
        rule: "1 to 4 built-in samplers of every kind on prepared logits (now and then with a token listed twice), with resources present or missing, called in three ways; entries, values, tokens, settings, history and draws compared with what the kind may touch; non-trivial: at least two entries",
        workloads: vec![
            Workload {
                name: "any",
                quick: 2_000_000,
                thorough: 80_000_000,
                f: c32_any,
                need: &["greedy selection", "random selection", "filter", "values changed", "token selected", "failed", "a token listed twice"],
            },
            Workload { name: "large", quick: 300, thorough: 12_000, f: c32_large, need: &[] },
        ],
    }
}
