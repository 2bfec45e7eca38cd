//! C20 chains are their samplers in order, C21 shared samplers, C29 the prepend hook.

use super::pipe::in_domain;
use crate::core::*;
use crate::gen::*;
use crate::rng::Rng;
use llm_samplers::configure::*;
use llm_samplers::prelude::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Barrier, Mutex};

type Shared = Arc<Mutex<dyn Sampler>>;

/// A sampler that behaves as the contained one and reports what happens to it.
#[derive(Debug)]
struct Probe {
    id: u32,
    inner: Arc<Mutex<Any>>,
    log: Arc<Mutex<Vec<u32>>>,
    hook: Arc<Mutex<Vec<u32>>>,
    fail: Arc<Mutex<Vec<Option<u8>>>>,
    token: Option<u32>,
}

const FAILURES: usize = 8;

pub fn failure(kind: u8, id: u32) -> SamplerError {
    match kind {
        4 => SamplerError::Interrupted(Interruption::NewTokensGvien(vec![id, 5])),
        5 => SamplerError::RandWeightedError(rand::distributions::WeightedError::TooMany),
        6 => SamplerError::RandError(rand::Error::from(std::num::NonZeroU32::new(rand::Error::CUSTOM_START + id).unwrap())),
        7 => SamplerError::MissingResource(String::new()),
        0 => SamplerError::InternalError(format!("probe {id} fails")),
        1 => SamplerError::MissingResource(format!("thing of probe {id}")),
        2 => SamplerError::LogitsError(LogitsError::InvalidLogit(id as usize)),
        _ => SamplerError::LogitsError(LogitsError::InternalError(format!("logits of probe {id}"))),
    }
}

impl Sampler for Probe {
    fn sample_prepend(&self, res: &mut dyn HasSamplerResources) {
        self.hook.lock().unwrap().push(self.id);
        let id = self.id;
        let _ = res.with_last_tokens_mut(&mut |t| t.push(id));
    }
    fn sample<'a>(&mut self, res: &mut dyn HasSamplerResources, l: &'a mut Logits) -> Result<&'a mut Logits, SamplerError> {
        self.log.lock().unwrap().push(self.id);
        self.token = None;
        if let Some(Some(k)) = self.fail.lock().unwrap().get(self.id as usize).copied() {
            return Err(failure(k, self.id));
        }
        self.token = self.inner.lock().unwrap().run(res, l)?;
        Ok(l)
    }
    fn sampled_token_id(&self) -> Option<u32> {
        self.token
    }
}

impl HasSamplerMetadata<usize, f32> for Probe {}
impl ConfigurableSampler<usize, f32> for Probe {}

#[derive(Clone, Debug)]
enum Node {
    Leaf(usize, u8),
    Sub(Vec<Node>, u8),
}

fn tree(r: &mut Rng, leaves: &mut Vec<usize>, depth: usize, next: &mut usize, max: usize) -> Vec<Node> {
    let long = max > 20;
    let n = match (depth, long) {
        (0, true) if max > 300 => r.range(250, 1600),
        (0, true) => r.range(10, 140),
        (_, true) if r.chance(0.05) => r.range(10, 70),
        (0, _) => r.range(0, 5),
        _ => r.range(0, 3),
    };
    let mut v = vec![];
    for _ in 0..n {
        let w = r.below(7) as u8;
        if depth < 3 && r.chance(0.25) {
            v.push(Node::Sub(tree(r, leaves, depth + 1, next, max), w));
        } else if *next < max {
            leaves.push(*next);
            v.push(Node::Leaf(*next, w));
            *next += 1;
        }
    }
    v
}

/// Wrap in any of the forms a chain accepts, and add in any of the ways.
fn add(c: &mut SamplerChain, s: impl Sampler + Send + Sync + 'static, how: u8) {
    match how % 3 {
        0 => {
            c.push_sampler(s);
        }
        1 => *c += s,
        _ => {
            let t = std::mem::take(c);
            *c = t + s;
        }
    }
}

fn wrap_add(c: &mut SamplerChain, s: impl Sampler + Send + Sync + 'static, w: u8, how: u8) {
    match w {
        0 | 1 => add(c, s, how),
        2 => add(c, Box::new(s) as Box<dyn Sampler>, how),
        3 => add(c, Arc::new(Mutex::new(s)) as Shared, how),
        4 => add(c, Box::new(Box::new(s) as Box<dyn Sampler>) as Box<dyn Sampler>, how),
        5 => add(c, Arc::new(Mutex::new(Box::new(s) as Box<dyn Sampler>)) as Shared, how),
        _ => add(c, Box::new(Arc::new(Mutex::new(s)) as Shared) as Box<dyn Sampler>, how),
    }
}

struct Parts {
    probes: Vec<Option<Probe>>,
}

fn assemble(nodes: &[Node], p: &mut Parts, r: &mut Rng) -> SamplerChain {
    let mut c = SamplerChain::new();
    for n in nodes {
        let how = r.below(3) as u8;
        match n {
            Node::Leaf(i, w) => {
                let pr = p.probes[*i].take().unwrap();
                if *w == 1 {
                    add(&mut c, Box::new(pr) as Box<dyn BuildableSampler<usize, f32>>, how)
                } else {
                    wrap_add(&mut c, pr, *w, how)
                }
            }
            Node::Sub(ns, w) => {
                let sub = assemble(ns, p, r);
                wrap_add(&mut c, sub, *w, how)
            }
        }
    }
    c
}

/// The definition: one after the other. `seen` gets the tokens that samplers reported on the way.
fn reference(
    nodes: &[Node],
    insts: &mut [Any],
    fail: &[Option<u8>],
    res: &mut Res,
    l: &mut Logits,
    log: &mut Vec<u32>,
    seen: &mut Vec<Option<u32>>,
) -> Result<Option<u32>, SamplerError> {
    let mut tok = None;
    for n in nodes {
        tok = match n {
            Node::Leaf(i, _) => {
                log.push(*i as u32);
                if let Some(k) = fail[*i] {
                    return Err(failure(k, *i as u32));
                }
                insts[*i].run(res, l)?
            }
            Node::Sub(ns, _) => reference(ns, insts, fail, res, l, log, seen)?,
        };
        seen.push(tok);
    }
    Ok(tok)
}

fn c20_any(c: &mut Case) -> R {
    let r = &mut c.rng;
    let first = {
        let n = size(r, if c.tiny { 6 } else { 120 });
        let v = values(r, n, MILD);
        prep(r, &v).0
    };
    let mut leaves = vec![];
    let mut next = 0;
    // A long one now and then.
    let max = if !c.tiny && r.chance(0.01) { r.range(21, 300) } else { 9 };
    let nodes = tree(r, &mut leaves, 0, &mut next, max);
    let toks = history(r, &first, 16);
    let mut insts: Vec<Any> = (0..next).map(|_| any_sampler(r, &first, toks.len(), TAME_NEG)).collect();
    if next > 0 && r.chance(0.4) {
        // The usual last sampler.
        insts[next - 1] = a_select(r, first.len());
    }
    let pf = if next > 9 { 0.1 / next as f64 } else { 0.05 };
    let roll = |r: &mut Rng| -> Vec<Option<u8>> { (0..next).map(|_| if r.chance(pf) { Some(r.below(FAILURES) as u8) } else { None }).collect() };
    let mut fail = roll(r);
    let failing = Arc::new(Mutex::new(fail.clone()));
    let stream = Stream::random(r);
    let (has_rng, has_toks) = (r.chance(0.93), r.chance(0.93));
    let mk = || Res::new(has_rng.then(|| stream.clone()), has_toks.then(|| toks.clone()));
    let (mut res_a, mut res_b) = (mk(), mk());
    let log = Arc::new(Mutex::new(vec![]));
    let hook = Arc::new(Mutex::new(vec![]));
    let cells: Vec<Arc<Mutex<Any>>> = insts.iter().map(|a| Arc::new(Mutex::new(a.clone()))).collect();
    let mut parts = Parts {
        probes: cells
            .iter()
            .enumerate()
            .map(|(i, a)| {
                Some(Probe {
                    id: i as u32,
                    inner: a.clone(),
                    log: log.clone(),
                    hook: hook.clone(),
                    fail: failing.clone(),
                    token: None,
                })
            })
            .collect(),
    };
    let mut chain = assemble(&nodes, &mut parts, r);
    let kinds: Vec<&str> = insts.iter().map(|a| a.kind()).collect();
    c.fp(&[hash_logits(&first), c.rng.clone().u64()]);
    c.desc(|| format!("{nodes:?} of {kinds:?} fail {fail:?} on {}", show(&first)));
    c.nontrivial_if(next > 0);
    c.see_if(next == 0, "empty chain");
    c.see_if(nodes.len() > 32, "more than 32 samplers");
    c.see_if(nodes.iter().any(|n| matches!(n, Node::Sub(..))), "nested chain");
    // A chain in use for a long time now and then.
    let rounds = if next <= 9 && !c.tiny {
        match c.rng.below(200_000) {
            0 => 70_000,
            1..=20 => 300,
            21..=400 => 40,
            _ => c.rng.range(1, 3),
        }
    } else {
        c.rng.range(1, 3)
    };
    c.see_if(rounds > 3, "long run of one chain");
    for round in 0..rounds {
        let mut la = if round == 0 {
            first.clone()
        } else {
            let n = size(&mut c.rng, if c.tiny || rounds > 3 { 6 } else { 60 });
            let v = values(&mut c.rng, n, MILD);
            prep(&mut c.rng, &v).0
        };
        let before = la.clone();
        let mut lb = la.clone();
        if round > 0 && c.rng.chance(0.7) {
            // Failures come and go.
            fail = roll(&mut c.rng);
            *failing.lock().unwrap() = fail.clone();
        }
        log.lock().unwrap().clear();
        let mut want_log = vec![];
        let mut seen = vec![None];
        let want = reference(&nodes, &mut insts, &fail, &mut res_b, &mut lb, &mut want_log, &mut seen);
        c.event();
        let how = c.rng.below(3);
        let got = match how {
            0 => chain.sample_token(&mut res_a, &mut la),
            1 => chain.sample(&mut res_a, &mut la).map(|_| ()).map(|_| chain.sampled_token_id()),
            _ => la.sample_token(&mut res_a, &mut chain),
        };
        let at = |e: String| format!("call {round} on {nodes:?} of {insts:?} (fail {fail:?}) with {}: {e}", show(&before));
        match (&want, &got) {
            (Ok(a), Ok(b)) => {
                ensure!(a == b, "{}", at(format!("the chain reports token {b:?}, one after the other gives {a:?}")));
                ensure!(chain.sampled_token_id() == *b, "{}", at("sampled_token_id disagrees with sample_token".into()));
                c.see_if(a.is_some(), "token reported");
                c.see_if(a.is_none() && next > 0, "no token");
            }
            (Err(a), Err(b)) => {
                c.see("error");
                let (a, b) = (format!("{a:?}"), format!("{b:?}"));
                let cut = |s: &str| s.split("Stack backtrace").next().unwrap_or("").to_string();
                ensure!(cut(&a) == cut(&b), "{}", at(format!("the chain fails with {b}, one after the other with {a}")));
                let t = chain.sampled_token_id();
                c.see_if(round > 0, "error after an earlier call");
                ensure!(seen.contains(&t), "{}", at(format!("after failing the chain reports token {t:?}, in this call there were only {seen:?}")));
            }
            (a, b) => return Err(at(format!("the chain returned {b:?}, one after the other gives {a:?}"))),
        }
        ensure!(*log.lock().unwrap() == want_log, "{}", at(format!("samplers ran in order {:?}, expected {want_log:?}", log.lock().unwrap())));
        if want.is_ok() || in_domain(&la) {
            same_all(&la, &lb).map_err(|e| at(format!("logits of the chain / of one after the other: {e}")))?;
        }
        for (i, cell) in cells.iter().enumerate() {
            let (x, y) = (cell.lock().unwrap().state(), insts[i].state());
            ensure!(x == y, "{}", at(format!("state of sampler {i} differs: {x:?} / {y:?}")));
        }
        ensure!(
            res_a.draws() == res_b.draws() && res_a.reads.get() == res_b.reads.get() && res_a.toks == res_b.toks,
            "{}",
            at("resources were used differently".into())
        );
        if next == 0 {
            same_all(&la, &before).map_err(|e| at(format!("an empty chain changed the logits: {e}")))?;
        }
    }
    ensure!(hook.lock().unwrap().is_empty(), "sampling called the prepend hook");
    Ok(())
}

/// Chains of the samplers themselves (no probes), in every form, against one after the other.
fn c20_bare(c: &mut Case) -> R {
    let r = &mut c.rng;
    let n = size(r, if c.tiny { 6 } else { 200 });
    let v = values(r, n, MILD_BAN);
    let (l0, _) = prep(r, &v);
    let toks = history(r, &l0, 16);
    let k = r.range(1, 5);
    let mut insts: Vec<Any> = (0..k).map(|_| any_sampler(r, &l0, toks.len(), TAME)).collect();
    if r.chance(0.7) {
        insts.push(a_select(r, n));
    }
    let mut chain = SamplerChain::new();
    for a in &insts {
        let how = r.below(3);
        match r.below(4) {
            0 => a.push_to(&mut chain, how),
            1 => add(&mut chain, a.boxed(), how as u8),
            2 => add(&mut chain, a.buildable(), how as u8),
            _ => add(&mut chain, a.shared(), how as u8),
        }
    }
    let stream = Stream::random(r);
    let mut ra = SimpleSamplerResources::new(Some(Box::new(CountRng::new(stream.clone()))), Some(toks.clone()));
    let mut rb = Res::new(Some(stream), Some(toks.clone()));
    c.fp(&[hash_logits(&l0), c.rng.clone().u64()]);
    c.desc(|| format!("{:?} on {}", insts.iter().map(|a| a.kind()).collect::<Vec<_>>(), show(&l0)));
    c.nontrivial_if(n > 1);
    for round in 0..c.rng.range(1, 3) {
        if round > 0 && c.rng.chance(0.3) {
            // One more, new or used, at the end of a chain that has been used.
            let r = &mut c.rng;
            let mut a = any_sampler(r, &l0, toks.len(), TAME);
            if r.chance(0.3) {
                let _ = a.run(&mut Res::new(Some(Stream::random(r)), Some(toks.clone())), &mut l0.clone());
            }
            match r.below(2) {
                0 => a.push_to(&mut chain, r.below(3)),
                _ => add(&mut chain, a.boxed(), r.below(3) as u8),
            }
            let (own, t) = (a.sref().sampled_token_id(), chain.sampled_token_id());
            ensure!(
                t.is_none() || t == own,
                "after {a:?} was added to a chain of {insts:?} the chain reports token {t:?}, its last sampler {own:?}"
            );
            insts.push(a);
            c.see("grown after use");
        }
        let (mut la, mut lb) = (l0.clone(), l0.clone());
        let mut want = Ok(None);
        for a in insts.iter_mut() {
            want = a.run(&mut rb, &mut lb);
            if want.is_err() {
                break;
            }
        }
        c.event();
        let got = chain.sample_token(&mut ra, &mut la);
        let at = |e: String| format!("{insts:?} on {}: {e}", show(&l0));
        match (&want, &got) {
            (Ok(a), Ok(b)) => {
                ensure!(a == b, "{}", at(format!("the chain reports {b:?}, expected {a:?}")));
                same_all(&la, &lb).map_err(at)?;
                c.see("agreed");
            }
            (Err(a), Err(b)) => ensure!(
                a.to_string() == b.to_string(),
                "{}",
                at(format!("the chain fails with {b}, expected {a}"))
            ),
            (a, b) => return Err(at(format!("the chain returned {b:?}, expected {a:?}"))),
        }
    }
    Ok(())
}

// ---- wrappers

/// A user's own sampler. Mode 1 implements `sample_token` itself and keeps no token.
#[derive(Debug)]
struct Own {
    mode: u8,
    st: Arc<Mutex<OwnState>>,
}

#[derive(Debug, Default, Clone, PartialEq)]
struct OwnState {
    samples: u64,
    prepends: u64,
    token: Option<u32>,
}

impl Own {
    fn work(&self, res: &mut dyn HasSamplerResources, l: &mut Logits) -> Result<Option<u32>, SamplerError> {
        let n = {
            let mut s = self.st.lock().unwrap();
            s.token = None;
            s.samples += 1;
            s.samples
        };
        let mut x = 0u64;
        let _ = res.with_rng_mut(&mut |r| x = rand::RngCore::next_u64(r));
        let mut tokens = 0;
        let _ = res.with_last_tokens(&mut |t| tokens = t.len() as u32);
        if l.is_empty() {
            return Ok(None);
        }
        let id = l[0].token_id;
        if (id as u64 + n) % 5 == 3 {
            return Err(failure(id as u8 % FAILURES as u8, id % 1000));
        }
        for v in l.iter_mut() {
            v.logit += 0.5;
        }
        l.set_softmax(false);
        if self.mode == 2 && l.len() > 1 {
            l.pop();
        }
        Ok(if n % 4 == 0 { None } else { Some(id ^ (x >> 40) as u32 ^ n as u32 ^ tokens) })
    }
}

impl Sampler for Own {
    fn sample_prepend(&self, res: &mut dyn HasSamplerResources) {
        self.st.lock().unwrap().prepends += 1;
        let _ = res.with_last_tokens_mut(&mut |t| t.push(7));
    }
    fn sample<'a>(&mut self, res: &mut dyn HasSamplerResources, l: &'a mut Logits) -> Result<&'a mut Logits, SamplerError> {
        let t = self.work(res, l)?;
        if self.mode != 1 {
            self.st.lock().unwrap().token = t;
        }
        Ok(l)
    }
    fn sampled_token_id(&self) -> Option<u32> {
        self.st.lock().unwrap().token
    }
    fn sample_token(&mut self, res: &mut dyn HasSamplerResources, l: &mut Logits) -> Result<Option<u32>, SamplerError> {
        if self.mode == 1 {
            return self.work(res, l);
        }
        let _ = self.sample(res, l)?;
        Ok(self.sampled_token_id())
    }
}

impl HasSamplerMetadata<usize, f32> for Own {}
impl ConfigurableSampler<usize, f32> for Own {}

enum Outer {
    Dyn(Box<dyn Sampler>),
    Build(Box<dyn BuildableSampler<usize, f32>>),
    Share(Shared),
    Chain(SamplerChain),
}

macro_rules! outer {
    ($o:expr, $s:ident => $e:expr) => {
        match $o {
            Outer::Dyn($s) => $e,
            Outer::Build($s) => $e,
            Outer::Share($s) => $e,
            Outer::Chain($s) => $e,
        }
    };
}

impl Outer {
    fn around(self, w: usize, how: u8) -> Outer {
        outer!(self, s => match w {
            0 => Outer::Dyn(Box::new(s)),
            1 => Outer::Share(Arc::new(Mutex::new(s))),
            _ => {
                let mut c = SamplerChain::new();
                add(&mut c, s, how);
                Outer::Chain(c)
            }
        })
    }
}

type Called = Result<Option<Option<u32>>, String>;

/// One call; gives the token if the call reports one.
fn call_op<S: Sampler>(s: &mut S, op: usize, res: &mut Res, l: &mut Logits) -> Called {
    let e = |e: SamplerError| format!("{e:?}");
    match op {
        0 => s.sample_token(res, l).map(Some).map_err(e),
        1 => l.sample_token(res, s).map(Some).map_err(e),
        2 => {
            let (p, n) = (l as *const Logits, l.len());
            let got = s.sample(res, l).map_err(e)?;
            if got as *const Logits != p || got.len() > n {
                return Err("sample gave other logits back than it was given".into());
            }
            Ok(None)
        }
        3 => l.sample(res, s).map(|_| None).map_err(e),
        4 => {
            s.sample_prepend(res);
            Ok(None)
        }
        _ => Ok(Some(s.sampled_token_id())),
    }
}

/// A sampler in a tower of wrappers against the same sampler without them, method by method.
fn c20_wrap(c: &mut Case) -> R {
    let r = &mut c.rng;
    let depth = r.range(1, 5);
    let mut layers: Vec<usize> = (0..depth).map(|_| r.below(3)).collect();
    let own = r.chance(0.6);
    let mode = r.below(3) as u8;
    let st = Arc::new(Mutex::new(OwnState::default()));
    let st_b = Arc::new(Mutex::new(OwnState::default()));
    let first = from_values(&[0.5, 0.25, 0.0]);
    let a = any_sampler(r, &first, 6, TAME);
    let build = r.chance(0.5);
    let mut t = match (own, build) {
        (true, true) => Outer::Build(Box::new(Own { mode, st: st.clone() })),
        (true, false) => Outer::Dyn(Box::new(Own { mode, st: st.clone() })),
        (false, true) => Outer::Build(a.buildable()),
        (false, false) => Outer::Dyn(a.boxed()),
    };
    if build && r.chance(0.3) {
        layers.clear();
    }
    for w in &layers {
        t = t.around(*w, r.below(3) as u8);
    }
    let chained = layers.contains(&2);
    let name = format!(
        "{} in {}{:?} (0 box, 1 shared, 2 chain)",
        if own { format!("own sampler {mode}") } else { format!("{a:?}") },
        if build { "a buildable box in " } else { "a box in " },
        layers
    );
    let mut bare: Box<dyn Sampler> = if own { Box::new(Own { mode, st: st_b.clone() }) } else { a.boxed() };
    let bare = &mut *bare;
    let stream = Stream::random(r);
    let toks = vec![1, 2, 0, 1, 2];
    let mut ra = Res::new(Some(stream.clone()), Some(toks.clone()));
    let mut rb = Res::new(Some(stream), Some(toks));
    c.fp(&[c.rng.clone().u64()]);
    c.nontrivial();
    c.desc(|| name.clone());
    c.see(["no wrapper but the buildable box", "box", "shared", "chain"][layers.last().map_or(0, |x| x + 1)]);
    // What a chain around it last got.
    let mut kept = None;
    let mut past = vec![];
    for _ in 0..c.rng.range(2, 8) {
        let op = c.rng.below(6);
        past.push(["sample_token", "Logits::sample_token", "sample", "Logits::sample", "sample_prepend", "sampled_token_id"][op]);
        let n = c.rng.range(0, 6);
        let v: Vec<f32> = (0..n).map(|_| c.rng.frange(-3.0, 3.0) as f32).collect();
        let mut la = from_values(&v);
        for x in la.iter_mut() {
            x.token_id = c.rng.below(6) as u32;
        }
        for i in (1..la.len()).rev() {
            if la[..i].iter().any(|x| x.token_id == la[i].token_id) {
                la.remove(i);
            }
        }
        let mut lb = la.clone();
        c.event();
        let got = outer!(&mut t, s => call_op(s, op, &mut ra, &mut la));
        let direct = |b: &mut dyn Sampler, rb: &mut Res, lb: &mut Logits| -> Called {
            let e = |e: SamplerError| format!("{e:?}");
            match op {
                // A chain runs what it contains for its token.
                0..=3 if chained => b.sample_token(rb, lb).map(Some).map_err(e),
                0 | 1 => b.sample_token(rb, lb).map(Some).map_err(e),
                2 | 3 => b.sample(rb, lb).map(|_| None).map_err(e),
                4 => {
                    b.sample_prepend(rb);
                    Ok(None)
                }
                _ => Ok(Some(b.sampled_token_id())),
            }
        };
        let mut want = direct(bare, &mut rb, &mut lb);
        if chained {
            match (op, &want) {
                (0..=3, Ok(t)) => kept = t.flatten(),
                (0..=3, Err(_)) => kept = None,
                (5, _) => want = Ok(Some(kept)),
                _ => {}
            }
            if (2..=3).contains(&op) {
                want = want.map(|_| None);
            }
        }
        let at = |e: String| format!("{name} after {past:?}: {e}");
        c.see_if(want.is_err(), "error through wrappers");
        c.see_if(matches!(want, Ok(Some(Some(_)))), "token through wrappers");
        ensure!(got == want, "{}", at(format!("wrapped it gives {got:?}, bare {want:?}")));
        same_all(&la, &lb).map_err(|e| at(format!("logits wrapped / bare: {e}")))?;
        ensure!(
            ra.draws() == rb.draws() && ra.toks == rb.toks && ra.reads.get() == rb.reads.get(),
            "{}",
            at("resources are used differently".into())
        );
        let (x, y) = (st.lock().unwrap().clone(), st_b.lock().unwrap().clone());
        ensure!(x == y, "{}", at(format!("its state is {x:?}, bare {y:?}")));
    }
    Ok(())
}

pub fn c20() -> Prop {
    Prop {
        id: "C20",
        rule: "random trees of up to 9 (now and then 300) probed built-in samplers (nested chains, boxes, shared and buildable wrappers, every way of adding), some of them failing, some resources missing, up to 3 (now and then 300) calls per chain; samplers of the library and of a user in towers of wrappers, called by every method; against applying them one after the other bit for bit; non-trivial: at least one sampler",
        workloads: vec![
            Workload {
                name: "trees",
                quick: 1_000_000,
                thorough: 40_000_000,
                f: c20_any,
                need: &["empty chain", "nested chain", "token reported", "no token", "error", "error after an earlier call", "more than 32 samplers"],
            },
            Workload { name: "bare", quick: 500_000, thorough: 20_000_000, f: c20_bare, need: &["agreed"] },
            Workload {
                name: "wrap",
                quick: 1_500_000,
                thorough: 60_000_000,
                f: c20_wrap,
                need: &["no wrapper but the buildable box", "box", "shared", "chain", "error through wrappers", "token through wrappers"],
            },
        ],
    }
}

// ---------------------------------------------------------------- C29

fn c29_tree(c: &mut Case) -> R {
    let r = &mut c.rng;
    let mut leaves = vec![];
    let mut next = 0;
    let max = if !c.tiny && r.chance(0.02) {
        if r.chance(0.1) {
            r.range(300, 1200)
        } else {
            r.range(21, 300)
        }
    } else {
        12
    };
    let nodes = tree(r, &mut leaves, 0, &mut next, max);
    let log = Arc::new(Mutex::new(vec![]));
    let hook = Arc::new(Mutex::new(vec![]));
    let cells: Vec<Arc<Mutex<Any>>> = (0..next)
        .map(|_| Arc::new(Mutex::new(a_miro2(r))))
        .collect();
    let mut parts = Parts {
        probes: (0..next)
            .map(|i| {
                Some(Probe {
                    id: i as u32,
                    inner: cells[i].clone(),
                    log: log.clone(),
                    hook: hook.clone(),
                    fail: Default::default(),
                    token: None,
                })
            })
            .collect(),
    };
    let mut chain = assemble(&nodes, &mut parts, r);
    let has_toks = r.chance(0.8);
    let init = vec![900, 901];
    let mut res = Res::new(Some(Stream::random(r)), has_toks.then(|| init.clone()));
    c.fp(&[c.rng.clone().u64()]);
    c.desc(|| format!("{nodes:?}"));
    c.nontrivial_if(next > 0);
    c.see_if(next > 1 && nodes.iter().any(|n| matches!(n, Node::Sub(..))), "nested");
    let mut expect: Vec<u32> = vec![];
    let times = if next <= 12 && !c.tiny && c.rng.chance(0.0005) { 300 } else { c.rng.range(1, 3) };
    c.see_if(times > 3, "hook called often");
    for i in 0..times {
        if i > 0 && c.rng.chance(0.5) {
            // Sampling in between must not call it.
            let h = hook.lock().unwrap().len();
            let k = c.rng.below(6);
            let mut l = from_values(&[0.5, 0.25, 0.0][..k.min(3)]);
            let _ = if k == 5 { chain.sample_token(&mut Res::none(), &mut l) } else { chain.sample_token(&mut res, &mut l) };
            c.see_if(k == 0, "sampled from nothing");
            c.see_if(k == 5, "sampled without resources");
            ensure!(hook.lock().unwrap().len() == h, "sampling called the prepend hook on {nodes:?}");
            c.see("sampled in between");
        }
        let st: Vec<_> = cells.iter().map(|a| a.lock().unwrap().state()).collect();
        let tok = chain.sampled_token_id();
        let (d, n_log) = (res.draws(), log.lock().unwrap().len());
        c.event();
        match c.rng.below(3) {
            0 => {
                let b: &dyn Sampler = &chain;
                b.sample_prepend(&mut res)
            }
            _ => chain.sample_prepend(&mut res),
        }
        expect.extend(leaves.iter().map(|x| *x as u32));
        ensure!(
            *hook.lock().unwrap() == expect,
            "hook calls {:?}, expected {expect:?} after {} call(s) on {nodes:?}",
            hook.lock().unwrap(),
            i + 1
        );
        let st2: Vec<_> = cells.iter().map(|a| a.lock().unwrap().state()).collect();
        ensure!(st == st2, "the prepend hook changed a sampler's state");
        ensure!(res.draws() == d && log.lock().unwrap().len() == n_log, "the prepend hook sampled or consumed randomness");
        ensure!(chain.sampled_token_id() == tok, "the prepend hook changed the reported token");
        if has_toks {
            let mut w = init.clone();
            w.extend(&expect);
            ensure!(res.toks.as_ref() == Some(&w), "the hooks did not get the caller's resources: history {:?}, expected {w:?}", res.toks);
        }
    }
    // Only a chain of one-at-a-time samplers would see the hook in sample().
    let before = hook.lock().unwrap().len();
    for _ in 0..2 {
        let mut l = from_values(&[0.5, 0.25, 0.0][..c.rng.below(4)]);
        let _ = match c.rng.below(4) {
            0 => chain.sample(&mut res, &mut l).map(|_| ()),
            3 => chain.sample(&mut Res::none(), &mut l).map(|_| ()),
            1 => chain.sample_token(&mut res, &mut l).map(|_| ()),
            _ => l.sample_token(&mut res, &mut chain).map(|_| ()),
        };
    }
    ensure!(hook.lock().unwrap().len() == before, "sampling called the prepend hook on {nodes:?}");
    Ok(())
}

/// Chains made by the builder, and the built-in samplers, whose hook does nothing.
fn c29_built(c: &mut Case) -> R {
    let r = &mut c.rng;
    let hook = Arc::new(Mutex::new(vec![]));
    let log = Arc::new(Mutex::new(vec![]));
    let ids = Arc::new(AtomicUsize::new(0));
    let mut b = SamplerChainBuilder::<usize, f32>::default();
    let slots = r.range(0, 6);
    let mut want = 0usize;
    let mk = |hook: &Arc<Mutex<Vec<u32>>>, log: &Arc<Mutex<Vec<u32>>>, ids: &Arc<AtomicUsize>| {
        let (hook, log, ids) = (hook.clone(), log.clone(), ids.clone());
        move || {
            Box::new(Probe {
                id: ids.fetch_add(1, SeqCst) as u32,
                inner: Arc::new(Mutex::new(Any::Greedy(SampleGreedy::new()))),
                log: log.clone(),
                hook: hook.clone(),
                fail: Default::default(),
                token: None,
            }) as Box<dyn BuildableSampler<usize, f32>>
        }
    };
    let mut shape = vec![];
    for s in 0..slots {
        let f = mk(&hook, &log, &ids);
        match r.below(3) {
            0 => {
                b.push_slot(format!("s{s}"), SamplerSlot::new_static(f));
                want += 1;
                shape.push("static".to_string());
            }
            1 => {
                b.push_slot(format!("s{s}"), SamplerSlot::new_single(f, None::<Probe>));
                if r.chance(0.6) {
                    b.configure(format!("s{s}"), "").map_err(|e| e.to_string())?;
                    want += 1;
                    shape.push("single".into());
                }
            }
            _ => {
                b.push_slot(format!("s{s}"), SamplerSlot::new_chain(f, vec![]));
                let k = r.below(3);
                for _ in 0..k {
                    b.configure(format!("s{s}"), "").map_err(|e| e.to_string())?;
                }
                want += k;
                shape.push(format!("chain of {k}"));
            }
        }
    }
    let chain = b.into_chain();
    let nested = r.chance(0.4);
    let chain = if nested {
        let mut outer = SamplerChain::new();
        let w = r.below(7) as u8;
        wrap_add(&mut outer, chain, w, 0);
        outer
    } else {
        chain
    };
    c.fp(&[c.rng.clone().u64()]);
    c.desc(|| format!("{shape:?} nested={nested}"));
    c.nontrivial_if(want > 0);
    let mut res = Res::new(None, Some(vec![]));
    c.event();
    chain.sample_prepend(&mut res);
    let got = hook.lock().unwrap().clone();
    let mut u = got.clone();
    u.sort();
    u.dedup();
    ensure!(got.len() == want && u.len() == want, "{want} samplers, hook calls {got:?} for {shape:?}");
    ensure!(res.toks.as_ref() == Some(&got), "hooks wrote {:?}, called in order {got:?}", res.toks);
    // The order in which the chain runs them is the order of the hook.
    let mut chain = chain;
    let mut l = from_values(&[1.0]);
    let _ = chain.sample_token(&mut res, &mut l);
    ensure!(*log.lock().unwrap() == got, "samplers run in order {:?}, hooks were called in order {got:?}", log.lock().unwrap());

    // Built-in samplers, in any wrapper: nothing happens.
    let l = from_values(&[0.5, 1.0, 0.25]);
    let r = &mut c.rng;
    let a = any_sampler(r, &l, 3, TAME);
    let st = a.state();
    let mut res = Res::new(Some(Stream::Const(7)), Some(vec![1, 2]));
    match r.below(4) {
        0 => a.sref().sample_prepend(&mut res),
        1 => a.boxed().sample_prepend(&mut res),
        2 => a.buildable().sample_prepend(&mut res),
        _ => a.shared().sample_prepend(&mut res),
    }
    ensure!(
        a.state() == st && res.draws() == 0 && res.toks == Some(vec![1, 2]),
        "the prepend hook of {a:?} has an effect"
    );
    Ok(())
}

pub fn c29() -> Prop {
    Prop {
        id: "C29",
        rule: "random trees of up to 12 hook-recording samplers (nested chains, boxes, shared and buildable wrappers) and chains from the builder; the hook writes into the caller's history; hook calls by several threads on one shared sampler; non-trivial: at least one sampler",
        workloads: vec![
            Workload {
                name: "trees",
                quick: 1_200_000,
                thorough: 48_000_000,
                f: c29_tree,
                need: &["nested", "sampled in between", "hook called often", "sampled from nothing", "sampled without resources"],
            },
            Workload { name: "built", quick: 600_000, thorough: 24_000_000, f: c29_built, need: &[] },
            Workload { name: "contended", quick: 1_000, thorough: 40_000, f: c21_prepend, need: &[] },
        ],
    }
}

// ---------------------------------------------------------------- C21

/// Inner sampler of a shared one: takes note of everything inside the lock.
#[derive(Debug)]
struct Guarded {
    busy: Arc<AtomicBool>,
    overlap: Arc<AtomicU64>,
    log: Arc<Mutex<Vec<(u32, Option<u32>)>>>,
    inner: Any,
    pause: u8,
    token: Option<u32>,
    noise: Rng,
}

fn pause(kind: u8, r: &mut Rng) {
    match kind {
        0 => {}
        1 => std::thread::yield_now(),
        2 => {
            for _ in 0..r.below(200) {
                std::hint::spin_loop()
            }
        }
        _ => {
            if r.chance(0.1) {
                std::thread::sleep(std::time::Duration::from_micros(r.below(50) as u64))
            } else {
                std::thread::yield_now()
            }
        }
    }
}

impl Guarded {
    fn enter(&self) {
        if self.busy.swap(true, SeqCst) {
            self.overlap.fetch_add(1, SeqCst);
        }
    }
    fn leave(&self) {
        if !self.busy.swap(false, SeqCst) {
            self.overlap.fetch_add(1, SeqCst);
        }
    }
}

impl Sampler for Guarded {
    fn sample<'a>(&mut self, res: &mut dyn HasSamplerResources, l: &'a mut Logits) -> Result<&'a mut Logits, SamplerError> {
        self.enter();
        // Who calls: the largest value's token id tells.
        let who = l.iter().map(|x| x.token_id >> 16).next().unwrap_or(u32::MAX);
        pause(self.pause, &mut self.noise);
        self.token = self.inner.run(res, l).unwrap_or(None);
        pause(self.pause, &mut self.noise);
        self.log.lock().unwrap().push((who, self.token));
        self.leave();
        Ok(l)
    }
    fn sampled_token_id(&self) -> Option<u32> {
        self.token
    }
}

/// Logits of call `k` of thread `t`: token ids tell the thread.
fn thread_logits(t: usize, k: usize, seed: u64, n: usize) -> Logits {
    let mut r = Rng::new(crate::rng::mix(&[seed, t as u64, k as u64]));
    let v: Vec<f32> = (0..n).map(|_| (2.0 * r.normal()) as f32).collect();
    let mut l = from_values(&v);
    for (i, x) in l.iter_mut().enumerate() {
        x.token_id = ((t as u32) << 16) | (((k as u32) & 0xff) << 8) | (i as u32 & 0xff);
    }
    l
}

fn thread_res(t: usize, seed: u64) -> Res {
    Res::new(
        Some(Stream::Xo(Rng::new(crate::rng::mix(&[seed, 0x7e5, t as u64])))),
        Some(vec![1, 2, 3]),
    )
}

struct Joined {
    got: Vec<Vec<Result<Option<u32>, String>>>,
    out: Vec<Vec<Logits>>,
}

/// Threads sampling through a shared sampler, directly or in a chain of their own.
fn hammer(shared: &Shared, threads: usize, calls: usize, seed: u64, n: usize, how: u8, spinners: usize) -> Joined {
    let bar = Arc::new(Barrier::new(threads));
    let live = AtomicUsize::new(threads);
    let mut j = Joined { got: vec![], out: vec![] };
    std::thread::scope(|sc| {
        let mut hs = vec![];
        for t in 0..threads {
            let mut s: Shared = shared.clone();
            let (bar, live) = (bar.clone(), &live);
            hs.push(sc.spawn(move || {
                struct Dec<'a>(&'a AtomicUsize);
                impl Drop for Dec<'_> {
                    fn drop(&mut self) {
                        self.0.fetch_sub(1, SeqCst);
                    }
                }
                let _d = Dec(live);
                let mut res = thread_res(t, seed);
                let mut chain = SamplerChain::new();
                match how {
                    1 | 6 => {
                        chain += SampleTemperature::new(0.9);
                        chain += s.clone();
                    }
                    2 => {
                        let mut sub = SamplerChain::new();
                        sub += SampleTopK::new(usize::MAX, 1);
                        sub += Box::new(s.clone()) as Box<dyn Sampler>;
                        chain += sub;
                    }
                    _ => {}
                }
                let (mut got, mut out) = (vec![], vec![]);
                bar.wait();
                for k in 0..calls {
                    let mut l = thread_logits(t, k, seed, n);
                    let r = match how {
                        0 => s.sample_token(&mut res, &mut l),
                        3 => l.sample_token(&mut res, &mut s),
                        // Only the effect on the logits.
                        5 => s.sample(&mut res, &mut l).map(|_| None),
                        6 => chain.sample(&mut res, &mut l).map(|_| None),
                        7 => l.sample(&mut res, &mut s).map(|_| None),
                        4 => {
                            let mut b: Box<dyn Sampler> = Box::new(s.clone());
                            b.sample_token(&mut res, &mut l)
                        }
                        _ => {
                            let r = chain.sample_token(&mut res, &mut l);
                            let again = chain.sampled_token_id();
                            match r {
                                Ok(t) if t != again => Err(SamplerError::InternalError(format!(
                                    "the chain returned {t:?} and then reported {again:?}"
                                ))),
                                r => r,
                            }
                        }
                    };
                    got.push(r.map_err(|e| e.to_string()));
                    out.push(l);
                }
                (got, out)
            }));
        }
        for _ in 0..spinners {
            let (s, live) = (shared.clone(), &live);
            sc.spawn(move || {
                // Takes the lock whenever it is free for a moment and runs the sampler for itself.
                let mut res = thread_res(99, 1);
                let (mut k, mut misses) = (0, 0u32);
                while live.load(SeqCst) > 0 {
                    if let Ok(mut g) = s.try_lock() {
                        let mut l = thread_logits(99, k, 1, 2);
                        k += 1;
                        let _ = g.sample_token(&mut res, &mut l);
                        drop(g);
                        // Let the others in.
                        if k % 4 == 0 || cfg!(miri) {
                            std::thread::yield_now();
                        }
                        for _ in 0..300 {
                            std::hint::spin_loop();
                        }
                    } else {
                        misses += 1;
                        if misses % 2000 == 0 || cfg!(miri) {
                            std::thread::yield_now();
                        }
                    }
                }
            });
        }
        for h in hs {
            let (g, o) = h.join().unwrap_or_else(|_| (vec![Err("the thread panicked".into())], vec![]));
            j.got.push(g);
            j.out.push(o);
        }
    });
    j
}

fn guarded(inner: Any, p: u8, seed: u64) -> (Shared, Arc<AtomicU64>, Arc<Mutex<Vec<(u32, Option<u32>)>>>) {
    let overlap = Arc::new(AtomicU64::new(0));
    let log = Arc::new(Mutex::new(vec![]));
    let g = Guarded {
        busy: Arc::new(AtomicBool::new(false)),
        overlap: overlap.clone(),
        log: log.clone(),
        inner,
        pause: p,
        token: None,
        noise: Rng::new(seed),
    };
    (Arc::new(Mutex::new(g)), overlap, log)
}

/// Greedy: each call's token must be the largest of its own logits.
fn c21_own_token(c: &mut Case) -> R {
    let r = &mut c.rng;
    let threads = r.range(2, if c.tiny { 2 } else { 4 });
    let calls = if c.tiny { 2 } else { r.range(20, 200) };
    let spinners = r.below(if c.tiny { 2 } else { 3 });
    let how = r.below(5) as u8;
    let seed = r.u64();
    let p = if c.tiny { r.below(2) as u8 } else { r.below(4) as u8 };
    let bare = r.chance(0.5);
    c.fp(&[seed]);
    c.nontrivial();
    c.desc(|| format!("{threads} threads x {calls} calls, {spinners} others, form {how}, pauses {p}, bare={bare}"));
    let (shared, overlap, log) = if bare {
        (
            Arc::new(Mutex::new(SampleGreedy::new())) as Shared,
            Arc::new(AtomicU64::new(0)),
            Arc::new(Mutex::new(vec![])),
        )
    } else {
        guarded(Any::Greedy(SampleGreedy::new()), p, seed)
    };
    let j = hammer(&shared, threads, calls, seed, 5, how, spinners);
    c.see(["shared directly", "in a chain", "in a nested chain", "through the logits", "in a box"][how as usize]);
    ensure!(overlap.load(SeqCst) == 0, "two calls were inside the shared sampler at the same time ({threads} threads, form {how})");
    for t in 0..threads {
        ensure!(j.got[t].len() == calls, "thread {t} made {} of {calls} calls: {:?}", j.got[t].len(), j.got[t].last());
        for k in 0..calls {
            c.event();
            let l = thread_logits(t, k, seed, 5);
            let best = l.iter().max_by(|a, b| a.logit.partial_cmp(&b.logit).unwrap()).unwrap();
            match &j.got[t][k] {
                Ok(Some(x)) => ensure!(
                    *x == best.token_id,
                    "call {k} of thread {t} (form {how}) reported token {x:#x}, the largest of its own logits is {:#x}",
                    best.token_id
                ),
                other => return Err(format!("call {k} of thread {t} (form {how}) returned {other:?}")),
            }
        }
    }
    if !bare {
        let lg = log.lock().unwrap();
        let mine = lg.iter().filter(|x| x.0 != 99).count();
        ensure!(mine == threads * calls, "{mine} calls reached the sampler, {} were made", threads * calls);
        let switches = lg.windows(2).filter(|w| w[0].0 != w[1].0).count() as u64;
        c.see_n("switches between threads", switches);
        let mut h = 0u64;
        for x in lg.iter() {
            h = crate::rng::mix(&[h, x.0 as u64]);
        }
        c.fp(&[seed, h]);
    }
    Ok(())
}

/// Mirostat: replaying the calls one at a time in the order in which they got in gives the same result.
fn c21_serial(c: &mut Case) -> R {
    let r = &mut c.rng;
    let threads = r.range(2, if c.tiny { 2 } else { 4 });
    let calls = if c.tiny { 2 } else { r.range(20, 120) };
    let how = r.below(8) as u8;
    let seed = r.u64();
    let n = if c.tiny { 4 } else { r.range(3, 40) };
    let p = if c.tiny { 1 } else { r.below(4) as u8 };
    let inner = match r.below(3) {
        0 => Any::Miro1(SampleMirostat1::new(100, 2.0, 0.3)),
        1 => Any::Rand(SampleRandDistrib::new()),
        _ => Any::Miro2(SampleMirostat2::new(2.0, 0.3)),
    };
    c.nontrivial();
    c.desc(|| format!("{inner:?}: {threads} threads x {calls} calls of {n} entries, form {how}, pauses {p}"));
    // A second handle on the contained sampler, to see its state in the end.
    let cell = Arc::new(Mutex::new(inner.clone()));
    #[derive(Debug)]
    struct Via(Arc<Mutex<Any>>, Arc<Mutex<Vec<u32>>>, u8, Rng, Option<u32>, Arc<AtomicBool>, Arc<AtomicU64>);
    impl Sampler for Via {
        fn sample<'a>(&mut self, res: &mut dyn HasSamplerResources, l: &'a mut Logits) -> Result<&'a mut Logits, SamplerError> {
            if self.5.swap(true, SeqCst) {
                self.6.fetch_add(1, SeqCst);
            }
            self.1.lock().unwrap().push(l.first().map_or(0, |x| x.token_id >> 16));
            // Take the sampler out, work on it, put it back: overlapping calls would lose updates.
            let mut a = self.0.lock().unwrap().clone();
            pause(self.2, &mut self.3);
            self.4 = None;
            let t = a.run(res, l);
            pause(self.2, &mut self.3);
            *self.0.lock().unwrap() = a;
            self.5.store(false, SeqCst);
            self.4 = t?;
            Ok(l)
        }
        fn sampled_token_id(&self) -> Option<u32> {
            self.4
        }
    }
    let order = Arc::new(Mutex::new(vec![]));
    let overlap = Arc::new(AtomicU64::new(0));
    let shared: Shared = Arc::new(Mutex::new(Via(
        cell.clone(),
        order.clone(),
        p,
        Rng::new(seed),
        None,
        Arc::new(AtomicBool::new(false)),
        overlap.clone(),
    )));
    let j = hammer(&shared, threads, calls, seed, n, how, 0);
    ensure!(overlap.load(SeqCst) == 0, "two calls were inside the shared sampler at the same time");
    let order = order.lock().unwrap().clone();
    ensure!(order.len() == threads * calls, "{} calls reached the sampler, {} were made", order.len(), threads * calls);
    let mut h = seed;
    for x in &order {
        h = crate::rng::mix(&[h, *x as u64]);
    }
    c.fp(&[h]);
    c.see_if(how >= 5, "only the logits");
    c.see_n("switches between threads", order.windows(2).filter(|w| w[0] != w[1]).count() as u64);
    let mut a = inner.clone();
    let mut res: Vec<Res> = (0..threads).map(|t| thread_res(t, seed)).collect();
    let mut ks = vec![0usize; threads];
    for t in order {
        let t = t as usize;
        let k = ks[t];
        ks[t] += 1;
        let mut l = thread_logits(t, k, seed, n);
        if how == 1 || how == 6 {
            let _ = SampleTemperature::new(0.9).sample(&mut res[t], &mut l);
        }
        if how == 2 {
            let _ = SampleTopK::new(usize::MAX, 1).sample(&mut res[t], &mut l);
        }
        let want = a.run(&mut res[t], &mut l).map_err(|e| e.to_string()).map(|t| if how >= 5 { None } else { t });
        c.event();
        let got = j.got[t].get(k).cloned().unwrap_or(Err("call missing".into()));
        ensure!(got == want, "call {k} of thread {t} (form {how}) reported {got:?}; the same order one at a time gives {want:?}");
        same_all(&j.out[t][k], &l).map_err(|e| format!("call {k} of thread {t}: logits differ from the same order one at a time: {e}"))?;
    }
    let (x, y) = (cell.lock().unwrap().state(), a.state());
    let strip = |v: &[String]| v[..v.len() - 1].to_vec();
    ensure!(strip(&x) == strip(&y), "the shared sampler ended in state {x:?}, one at a time gives {y:?}");
    Ok(())
}

/// A panic inside the shared sampler: later calls fail, they neither panic nor hang.
fn c21_poison(c: &mut Case) -> R {
    #[derive(Debug)]
    struct Bomb(u8);
    impl Sampler for Bomb {
        fn sample_prepend(&self, _: &mut dyn HasSamplerResources) {
            if self.0 == 2 {
                panic!("bomb in prepend")
            }
        }
        fn sample<'a>(&mut self, _: &mut dyn HasSamplerResources, l: &'a mut Logits) -> Result<&'a mut Logits, SamplerError> {
            if self.0 == 0 {
                panic!("bomb in sample")
            }
            Ok(l)
        }
        fn sampled_token_id(&self) -> Option<u32> {
            if self.0 == 1 {
                panic!("bomb in sampled_token_id")
            }
            Some(5)
        }
    }
    let kind = c.rng.below(3) as u8;
    let form = c.rng.below(4) as u8;
    c.fp(&[kind as u64, form as u64, c.rng.clone().u64()]);
    c.desc(|| format!("panic site {kind}, used as form {form}"));
    c.nontrivial();
    let shared: Shared = Arc::new(Mutex::new(Bomb(kind)));
    let s2 = shared.clone();
    let died = std::thread::spawn(move || {
        let mut s = s2;
        let mut l = from_values(&[0.0, 1.0]);
        match kind {
            2 => s.sample_prepend(&mut ()),
            _ => {
                let _ = s.sample_token(&mut (), &mut l);
            }
        }
    })
    .join()
    .is_err();
    ensure!(died, "the panic did not come through");
    ensure!(shared.is_poisoned(), "the panic did not poison the lock");
    c.event();
    let probe = |f: &mut dyn FnMut() -> Result<Option<u32>, SamplerError>| -> Result<Result<Option<u32>, String>, String> {
        catch_unwind(AssertUnwindSafe(|| f().map_err(|e| e.to_string()))).map_err(|_| "panicked".to_string())
    };
    let mut l = from_values(&[0.0, 1.0]);
    let mut target: Box<dyn Sampler> = match form {
        0 => Box::new(shared.clone()),
        1 => Box::new(Box::new(shared.clone()) as Box<dyn Sampler>),
        2 => {
            let mut ch = SamplerChain::new();
            ch += shared.clone();
            Box::new(ch)
        }
        _ => {
            let mut ch = SamplerChain::new();
            ch += SampleGreedy::new();
            let mut sub = SamplerChain::new();
            sub += shared.clone();
            ch += sub;
            Box::new(ch)
        }
    };
    for round in 0..2 {
        let name = ["sample_token", "sample", "sampled_token_id", "sample_prepend"];
        for op in 0..4 {
            let r = probe(&mut || match op {
                0 => target.sample_token(&mut (), &mut l),
                1 => target.sample(&mut (), &mut l).map(|_| None),
                2 => Ok(target.sampled_token_id()),
                _ => {
                    target.sample_prepend(&mut ());
                    Ok(None)
                }
            })
            .map_err(|e| format!("{} {e} after a panic in another thread (site {kind}, form {form}, round {round})", name[op]))?;
            match op {
                0 | 1 => ensure!(
                    r.is_err(),
                    "{} returned {r:?} after a panic in another thread (site {kind}, form {form})",
                    name[op]
                ),
                2 if form < 3 => ensure!(
                    matches!(r, Ok(None)),
                    "sampled_token_id returned {r:?} after a panic in another thread (site {kind}, form {form})"
                ),
                _ => {}
            }
        }
    }
    // Direct access to the shared form, too.
    let mut s = shared.clone();
    ensure!(s.sample_token(&mut (), &mut l).is_err(), "sample_token succeeds on a poisoned sampler");
    ensure!(s.sampled_token_id().is_none(), "a poisoned sampler reports a token");
    Ok(())
}

/// The prepend hook of a shared sampler, called by several threads while others sample through it.
fn c21_prepend(c: &mut Case) -> R {
    #[derive(Debug)]
    struct Hooked {
        busy: AtomicBool,
        overlap: Arc<AtomicU64>,
        hooks: Arc<AtomicU64>,
        samples: Arc<AtomicU64>,
        pause: u8,
        noise: Mutex<Rng>,
    }
    impl Hooked {
        fn inside(&self) {
            if self.busy.swap(true, SeqCst) {
                self.overlap.fetch_add(1, SeqCst);
            }
            pause(self.pause, &mut self.noise.lock().unwrap());
            self.busy.store(false, SeqCst);
        }
    }
    impl Sampler for Hooked {
        fn sample_prepend(&self, res: &mut dyn HasSamplerResources) {
            self.inside();
            let k = self.hooks.fetch_add(1, SeqCst) as u32;
            let _ = res.with_last_tokens_mut(&mut |t| t.push(k));
        }
        fn sample<'a>(&mut self, _: &mut dyn HasSamplerResources, l: &'a mut Logits) -> Result<&'a mut Logits, SamplerError> {
            self.inside();
            self.samples.fetch_add(1, SeqCst);
            Ok(l)
        }
    }
    let r = &mut c.rng;
    let threads = r.range(2, if c.tiny { 2 } else { 4 });
    let calls = if c.tiny { 2 } else { r.range(10, 100) };
    let form = r.below(4);
    let p = r.below(4) as u8;
    let p = if c.tiny { 1 } else { p };
    let seed = r.u64();
    c.fp(&[seed]);
    c.nontrivial();
    c.desc(|| format!("{threads} threads x {calls} hook calls, form {form}, pauses {p}"));
    let (overlap, hooks, samples) = (Arc::new(AtomicU64::new(0)), Arc::new(AtomicU64::new(0)), Arc::new(AtomicU64::new(0)));
    let shared: Shared = Arc::new(Mutex::new(Hooked {
        busy: AtomicBool::new(false),
        overlap: overlap.clone(),
        hooks: hooks.clone(),
        samples: samples.clone(),
        pause: p,
        noise: Mutex::new(Rng::new(seed)),
    }));
    let made = AtomicU64::new(0);
    let bar = Barrier::new(threads);
    let seen: Vec<Vec<u32>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let (shared, bar, made) = (shared.clone(), &bar, &made);
                sc.spawn(move || {
                    let mut r = Rng::new(crate::rng::mix(&[seed, t as u64]));
                    let mut target: Box<dyn Sampler> = match form {
                        0 => Box::new(shared.clone()),
                        1 => Box::new(Box::new(shared.clone()) as Box<dyn Sampler>),
                        _ => {
                            let mut ch = SamplerChain::new();
                            ch += SampleTemperature::new(0.5);
                            ch += shared.clone();
                            if form == 2 {
                                Box::new(ch)
                            } else {
                                let mut out = SamplerChain::new();
                                out += ch;
                                Box::new(out)
                            }
                        }
                    };
                    let mut res = Res::new(None, Some(vec![]));
                    bar.wait();
                    for _ in 0..calls {
                        target.sample_prepend(&mut res);
                        if r.chance(0.5) {
                            made.fetch_add(1, SeqCst);
                            let _ = target.sample(&mut res, &mut from_values(&[0.0, 1.0]));
                        }
                    }
                    res.toks.unwrap()
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
    });
    ensure!(overlap.load(SeqCst) == 0, "two calls were inside the shared sampler at the same time");
    let n = hooks.load(SeqCst);
    ensure!(n == (threads * calls) as u64, "the hook of the shared sampler ran {n} times for {} calls", threads * calls);
    ensure!(
        samples.load(SeqCst) == made.load(SeqCst),
        "{} calls reached the sampler, {} were made",
        samples.load(SeqCst),
        made.load(SeqCst)
    );
    let mut all: Vec<u32> = vec![];
    for (t, s) in seen.iter().enumerate() {
        ensure!(s.len() == calls, "thread {t} made {calls} hook calls, {} wrote to its resources", s.len());
        ensure!(s.windows(2).all(|w| w[0] < w[1]), "hook calls of thread {t} out of order: {s:?}");
        all.extend(s);
    }
    for _ in &all {
        c.event();
    }
    let switches = {
        let mut owner = vec![0usize; n as usize];
        for (t, s) in seen.iter().enumerate() {
            for k in s {
                owner[*k as usize] = t;
            }
        }
        owner.windows(2).filter(|w| w[0] != w[1]).count() as u64
    };
    c.see_n("switches between threads", switches);
    Ok(())
}

/// The same shared sampler several times in one chain, and in the chains of several threads.
fn c21_twice(c: &mut Case) -> R {
    let r = &mut c.rng;
    let threads = if c.tiny { 2 } else { r.range(1, 3) };
    let calls = if c.tiny { 1 } else { r.range(1, 30) };
    let seed = r.u64();
    c.fp(&[seed]);
    c.nontrivial();
    let shared: Shared = Arc::new(Mutex::new(SampleTopK::new(2, 1)));
    let pick: Shared = Arc::new(Mutex::new(SampleGreedy::new()));
    let mut inner_chain = SamplerChain::new();
    inner_chain += shared.clone();
    inner_chain += SampleTemperature::new(0.5);
    inner_chain += shared.clone();
    inner_chain += pick.clone();
    inner_chain += pick.clone();
    let whole: Shared = Arc::new(Mutex::new(inner_chain));
    c.desc(|| format!("{threads} threads x {calls} calls"));
    let how = *c.rng.pick(&[0u8, 0, 3, 4]);
    let j = hammer(&whole, threads, calls, seed, 5, how, 0);
    for t in 0..threads {
        for k in 0..calls {
            c.event();
            let l = thread_logits(t, k, seed, 5);
            let best = l.iter().max_by(|a, b| a.logit.partial_cmp(&b.logit).unwrap()).unwrap();
            ensure!(
                j.got[t].get(k) == Some(&Ok(Some(best.token_id))),
                "call {k} of thread {t} on a shared chain returned {:?}, expected {:#x}",
                j.got[t].get(k),
                best.token_id
            );
            ensure!(j.out[t][k].len() == 2, "the shared filter left {} entries instead of 2", j.out[t][k].len());
        }
    }
    // Asking for the token concurrently never fails: it is always there (one of the calls made it).
    let _ = pick.lock().map(|g| g.sampled_token_id());
    Ok(())
}

/// Readers asking for the last token while others sample must get a token that some call produced.
fn c21_readers(c: &mut Case) -> R {
    let calls = if c.tiny { 3 } else { 200 };
    let seed = c.rng.u64();
    c.fp(&[seed]);
    c.nontrivial();
    c.desc(|| format!("one writer with {calls} calls, two readers"));
    let shared: Shared = Arc::new(Mutex::new(SampleGreedy::new()));
    let valid: std::collections::HashSet<u32> = (0..calls)
        .map(|k| {
            let l = thread_logits(1, k, seed, 4);
            l.iter().max_by(|a, b| a.logit.partial_cmp(&b.logit).unwrap()).unwrap().token_id
        })
        .collect();
    {
        let mut s = shared.clone();
        let mut l = thread_logits(1, 0, seed, 4);
        let _ = s.sample_token(&mut (), &mut l);
    }
    let stop = AtomicBool::new(false);
    let bad = Mutex::new(None);
    let reads = AtomicU64::new(0);
    std::thread::scope(|sc| {
        for _ in 0..if c.tiny { 1 } else { 2 } {
            sc.spawn(|| {
                let s = shared.clone();
                let mut i = 0;
                while !stop.load(SeqCst) && (!cfg!(miri) || i < 4) {
                    i += 1;
                    reads.fetch_add(1, SeqCst);
                    match s.sampled_token_id() {
                        Some(t) if valid.contains(&t) => {}
                        other => {
                            *bad.lock().unwrap() = Some(other);
                            return;
                        }
                    }
                }
            });
        }
        let mut s = shared.clone();
        for k in 0..calls {
            let mut l = thread_logits(1, k, seed, 4);
            let r = s.sample_token(&mut (), &mut l);
            if !matches!(r, Ok(Some(_))) {
                *bad.lock().unwrap() = Some(None);
            }
        }
        stop.store(true, SeqCst);
    });
    c.see_n("concurrent reads", reads.load(SeqCst));
    let b = *bad.lock().unwrap();
    ensure!(b.is_none(), "while another thread was sampling, a call or read gave {:?}, which no completed call produced", b.unwrap());
    Ok(())
}

pub fn c21() -> Prop {
    Prop {
        id: "C21",
        rule: "2..4 threads calling one shared sampler (directly, boxed, in chains) with token ids that tell the thread, pauses inside the lock and other threads grabbing the lock at any free moment; order recorded inside the lock and replayed one at a time; hook calls from several threads; non-trivial: every case; distinct ones counted by the order of the calls",
        workloads: vec![
            Workload {
                name: "own-token",
                quick: 3_700,
                thorough: 148_000,
                f: c21_own_token,
                need: &["in a chain", "in a nested chain", "shared directly", "through the logits", "in a box"],
            },
            Workload { name: "serial", quick: 3_000, thorough: 120_000, f: c21_serial, need: &[] },
            Workload { name: "prepend", quick: 1_500, thorough: 60_000, f: c21_prepend, need: &[] },
            Workload { name: "twice", quick: 1_500, thorough: 60_000, f: c21_twice, need: &[] },
            Workload { name: "readers", quick: 1_500, thorough: 60_000, f: c21_readers, need: &[] },
            Workload { name: "poison", quick: 3_000, thorough: 120_000, f: c21_poison, need: &[] },
        ],
    }
}
