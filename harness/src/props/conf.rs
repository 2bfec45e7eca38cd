//! C22 option strings and keys, C23 the chain builder, C27 option lists of the built-in samplers.

use crate::core::*;
use crate::gen::*;
use crate::rng::Rng;
use llm_samplers::configure::*;
use llm_samplers::prelude::*;
use std::borrow::Cow;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

// ---------------------------------------------------------------- reference interpreter

#[derive(Clone, Debug, PartialEq)]
enum Val {
    U(u64),
    F(f64),
    B(bool),
    S(String),
}

fn same_val(a: &Val, b: &Val) -> bool {
    match (a, b) {
        (Val::F(x), Val::F(y)) => x == y || (x.is_nan() && y.is_nan()),
        _ => a == b,
    }
}

#[derive(Clone, Debug)]
struct Opt {
    key: &'static str,
    ty: SamplerOptionType,
    open: bool,
    val: Val,
    /// What the sampler's hooks do: nothing, refuse before the option is set, put another value, fail after it was set.
    hook: u8,
}

fn hook_val(ty: SamplerOptionType) -> Val {
    match ty {
        SamplerOptionType::UInt => Val::U(5),
        SamplerOptionType::Float => Val::F(0.25),
        SamplerOptionType::Bool => Val::B(true),
        SamplerOptionType::String => Val::S("Hooked".into()),
    }
}

fn type_of(v: &Val) -> SamplerOptionType {
    match v {
        Val::U(_) => SamplerOptionType::UInt,
        Val::F(_) => SamplerOptionType::Float,
        Val::B(_) => SamplerOptionType::Bool,
        Val::S(_) => SamplerOptionType::String,
    }
}

/// The limits of the types that values are converted to.
#[derive(Clone, Copy, Debug)]
struct Conv {
    umax: u64,
    f32: bool,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Expect {
    Ok,
    Err,
    /// The hook called after the change fails.
    After,
    /// A finite number beyond the float type's range: an error or infinity.
    Either,
}

fn find(opts: &[Opt], key: &str) -> Option<usize> {
    let key = key.trim();
    if let Some(i) = opts.iter().position(|o| o.key == key) {
        return Some(i);
    }
    let m: Vec<usize> = (0..opts.len()).filter(|i| opts[*i].key.starts_with(key)).collect();
    if m.len() == 1 {
        Some(m[0])
    } else {
        None
    }
}

fn store(o: &mut Opt, mut v: Val, cv: Conv) -> Expect {
    if o.hook == 1 {
        return Expect::Err;
    }
    if o.hook == 2 && type_of(&v) == o.ty {
        v = hook_val(o.ty);
    }
    match (&o.ty, v) {
        (SamplerOptionType::UInt, Val::U(x)) => {
            if x > cv.umax {
                return Expect::Err;
            }
            o.val = Val::U(x);
        }
        (SamplerOptionType::Float, Val::F(x)) => {
            if cv.f32 {
                if x.is_finite() && x.abs() > f32::MAX as f64 {
                    return Expect::Either;
                }
                o.val = Val::F(x as f32 as f64);
            } else {
                o.val = Val::F(x);
            }
        }
        (SamplerOptionType::Bool, Val::B(x)) => o.val = Val::B(x),
        (SamplerOptionType::String, Val::S(x)) => o.val = Val::S(x),
        _ => return Expect::Err,
    }
    if o.hook == 3 {
        return Expect::After;
    }
    Expect::Ok
}

fn m_set(opts: &mut [Opt], key: &str, v: Val, cv: Conv) -> (Expect, Option<&'static str>) {
    match find(opts, key) {
        Some(i) if opts[i].open => {
            let e = store(&mut opts[i], v, cv);
            (e, Some(opts[i].key))
        }
        _ => (Expect::Err, None),
    }
}

fn m_parse(ty: SamplerOptionType, s: &str) -> Option<Val> {
    let s = s.trim();
    Some(match ty {
        SamplerOptionType::UInt => Val::U(s.parse().ok()?),
        SamplerOptionType::Float => Val::F(match s {
            "-inf" | "-INF" => f64::NEG_INFINITY,
            "inf" | "INF" | "+inf" | "+INF" => f64::INFINITY,
            o => o.parse().ok()?,
        }),
        SamplerOptionType::Bool => Val::B(match s {
            "true" | "t" | "yes" | "1" => true,
            "false" | "f" | "no" | "0" => false,
            _ => return None,
        }),
        SamplerOptionType::String => Val::S(s.to_string()),
    })
}

/// Apply a configuration string. `after` is told about each option set.
fn m_configure(opts: &mut [Opt], s: &str, cv: Conv, mut after: impl FnMut(&mut [Opt], &'static str)) -> Expect {
    for part in s.split(':').map(str::trim).filter(|p| !p.is_empty()) {
        let (k, v) = part.split_once('=').unwrap_or(("", part));
        let Some(i) = find(opts, k) else { return Expect::Err };
        if !opts[i].open {
            return Expect::Err;
        }
        let Some(v) = m_parse(opts[i].ty, v) else { return Expect::Err };
        match store(&mut opts[i], v, cv) {
            Expect::Ok => {
                let k = opts[i].key;
                after(opts, k)
            }
            Expect::After => {
                let k = opts[i].key;
                after(opts, k);
                return Expect::After;
            }
            e => return e,
        }
    }
    Expect::Ok
}

// ---------------------------------------------------------------- generators of strings

const SPACES: &[&str] = &["", "", "", " ", "  ", "\t", "\n", " \t ", "\u{a0}", "\u{3000}"];

fn value_text(r: &mut Rng, ty: SamplerOptionType, wrong: bool) -> String {
    if wrong && r.chance(0.5) {
        // A good value with something added (whether it still is one is for the model to say).
        let mut v: Vec<char> = value_text(r, ty, false).chars().collect();
        let odd = *r.pick(&['%', 'f', 'u', 'L', 'k', 'K', 'M', '_', ',', '.', ';', '0', 'x', '#', '$', ' ', 'e', 'E', '+', '-', '\'', '"', '/', '!', 's', 'd', 'i', 'n', '\u{200b}', '\0']);
        match r.below(6) {
            0 => v.insert(0, odd),
            1 => {
                let i = r.range(0, v.len());
                v.insert(i, odd)
            }
            2 => v.extend(r.pick(&[".0", ".00", "e0", "f32", "u64", "usize", "ms", "i", ".5", "e2", "!"]).chars()),
            3 => {
                let up: String = v.iter().collect::<String>().to_uppercase();
                v = up.chars().collect();
            }
            _ => v.push(odd),
        }
        return v.into_iter().filter(|x| *x != ':' && *x != '=').collect();
    }
    if wrong {
        return r
            .pick(&[
                "", "abc", "-", "+", ".", "1e", "0x10", "1_000", "--1", "tru", "TRUE", "yess", "2", "on", "1,5", "18446744073709551616",
                "99999999999999999999999", "-1", "1.5", "nan", "\u{663}", "1 2", "t f", "+-inf", "infin", "1e400", "1e39", "-0",
            ])
            .to_string();
    }
    match ty {
        SamplerOptionType::UInt => match r.below(10) {
            8 => (r.u64() >> r.below(64)).to_string(),
            9 => (1u64 << r.range(20, 63)).wrapping_add(*r.pick(&[1u64, 2, 3, u64::MAX])).to_string(),
            0 => "0".into(),
            1 => "18446744073709551615".into(),
            2 => format!("+{}", r.below(100)),
            3 => format!("000{}", r.below(100)),
            4 => (*r.pick(&[255u64, 256, 65535, 65536, 2147483647, 2147483648, 4294967295, 4294967296])).to_string(),
            _ => r.below(1000).to_string(),
        },
        SamplerOptionType::Float => match r.below(10) {
            0 => r.pick(&["inf", "-inf", "+inf", "INF", "-INF", "+INF", "Inf", "infinity", "-Infinity"]).to_string(),
            1 => r.pick(&["1e3", "1E-3", "-2.5e+1", "+.5", "5.", "1e-46", "3.4028235e38", "-0.0", "1e-320"]).to_string(),
            2 => r.pick(&["NaN", "nan", "1e39", "1e308", "-1e300", "1e999"]).to_string(),
            3 => r.range(0, 50).to_string(),
            _ => format!("{}", r.frange(-10.0, 10.0)),
        },
        SamplerOptionType::Bool => r.pick(&["true", "t", "yes", "1", "false", "f", "no", "0"]).to_string(),
        SamplerOptionType::String => r
            .pick(&["", "x", "hello world", "=", "1", "true", "\u{1f600}", "caf\u{e9}", "a\tb", "K",
                "\"quoted\"", "'q'", "\"", "\"\"", "MiXed Case", "a,b;c", "\\n", "a\\", "#x", "-", "null", "None", "%41", "${x}", "a  b", "00", "1e5",
                "\u{130}I\u{df}", "e\u{301}", "a\0b", "[1]", "{}", "x?y&z", "/p/q", "~", "*", "(", "long text that goes on for rather more than sixty-four bytes, as values may",
            ])
            .replace('=', "")
            .to_string(),
    }
}

fn key_text(r: &mut Rng, opts: &[Opt]) -> String {
    if opts.is_empty() || r.chance(0.08) {
        return r.pick(&["", "zzz", "k2", "\u{e9}", "alp", "ALPHA", "taus", "min-keep", "mu "]).to_string();
    }
    let k = opts[r.below(opts.len())].key;
    match r.below(10) {
        0 => String::new(),
        1 => format!("{k}x"),
        2 => if r.chance(0.5) { k.to_uppercase() } else { k.to_lowercase() },
        3..=5 => {
            let n = r.range(1, k.len());
            let mut i = n;
            while !k.is_char_boundary(i) {
                i -= 1;
            }
            let k = k[..i].to_string();
            match r.below(12) {
                0 => k.to_lowercase(),
                1 => k.to_uppercase(),
                _ => k,
            }
        }
        _ => k.to_string(),
    }
}

fn part_text(r: &mut Rng, opts: &[Opt]) -> String {
    let k = key_text(r, opts);
    let ty = match find(opts, &k) {
        Some(i) if r.chance(0.97) => opts[i].ty,
        _ => *r.pick(&[SamplerOptionType::UInt, SamplerOptionType::Float, SamplerOptionType::Bool, SamplerOptionType::String]),
    };
    let wrong = r.chance(0.1);
    let v = value_text(r, ty, wrong);
    let sp = |r: &mut Rng| *r.pick(SPACES);
    let (a, b, c, d) = (sp(r), sp(r), sp(r), sp(r));
    if r.chance(0.06) {
        // Only a value.
        return format!("{a}{v}{d}");
    }
    format!("{a}{k}{b}={c}{v}{d}")
}

fn config_text(r: &mut Rng, opts: &[Opt]) -> String {
    let n = match r.below(10) {
        0 => 0,
        1..=4 => 1,
        5 if r.chance(0.03) => *r.pick(&[15usize, 16, 17, 31, 32, 33, 64, 65, 100, 256, 257]),
        _ => r.range(2, 5),
    };
    let mut parts: Vec<String> = vec![];
    // In long strings mostly what succeeds, or the rest is never looked at.
    let good: Vec<&Opt> = opts.iter().filter(|o| o.open && (o.hook == 0 || n < 30) && find(opts, o.key).is_some()).collect();
    let tame = n > 5 && !good.is_empty() && r.chance(0.8);
    for i in 0..n {
        if r.chance(0.1) {
            parts.push(r.pick(&["", " ", "\t", "  \n"]).to_string());
        }
        if tame && (i + 2 < n || r.chance(0.5)) {
            let o = r.pick(&good);
            let v = match o.ty {
                SamplerOptionType::UInt => r.below(120).to_string(),
                SamplerOptionType::Float => format!("{}", r.frange(-10.0, 10.0)),
                ty => value_text(r, ty, false),
            };
            parts.push(format!("{}={v}", o.key));
            continue;
        }
        parts.push(part_text(r, opts));
    }
    if r.chance(0.05) {
        parts.push("".into());
    }
    let mut s = parts.join(":");
    if r.chance(0.03) {
        s.push_str(r.pick(&[":", "::", " : ", "=", ":=", "\0", ":=5"]));
    }
    s
}

// ---------------------------------------------------------------- a sampler with any options

#[derive(Debug, Clone)]
enum Slot<UI, F> {
    U(UI),
    F(F),
    B(bool),
    S(Cow<'static, str>),
}

#[derive(Debug, Clone)]
struct Custom<UI, F> {
    md: Vec<SamplerOptionMetadata>,
    open: Vec<bool>,
    slots: Vec<Slot<UI, F>>,
    hooks: Vec<u8>,
    /// Hook calls: after the change?, key, value at that time.
    log: Vec<(bool, &'static str, Val)>,
    sets: u64,
}

impl<UI: ConfigurableNumValue, F: ConfigurableNumValue> Custom<UI, F> {
    fn read(&self, i: usize) -> Val {
        match &self.slots[i] {
            Slot::U(x) => Val::U(num_traits::ToPrimitive::to_u64(x).unwrap_or(u64::MAX)),
            Slot::F(x) => Val::F(num_traits::ToPrimitive::to_f64(x).unwrap()),
            Slot::B(x) => Val::B(*x),
            Slot::S(x) => Val::S(x.to_string()),
        }
    }
}

impl<UI: ConfigurableNumValue, F: ConfigurableNumValue> HasSamplerMetadata<UI, F> for Custom<UI, F> {
    fn sampler_metadata(&self) -> SamplerMetadata {
        SamplerMetadata {
            name: "custom",
            description: None,
            options: self.md.clone(),
        }
    }
    fn sampler_options(&self) -> SamplerOptions<SamplerOptionValue<'_, UI, F>> {
        let v: Vec<_> = self
            .slots
            .iter()
            .zip(&self.open)
            .map(|(s, o)| {
                o.then(|| match s {
                    Slot::U(x) => SamplerOptionValue::UInt(*x),
                    Slot::F(x) => SamplerOptionValue::Float(*x),
                    Slot::B(x) => SamplerOptionValue::Bool(*x),
                    Slot::S(x) => SamplerOptionValue::String(Cow::Borrowed(x.as_ref())),
                })
            })
            .collect();
        SamplerOptions::from(self.md.iter().cloned().zip(v))
    }
    fn sampler_options_mut(&mut self) -> SamplerOptions<SamplerOptionValueMut<'_, UI, F>> {
        let Custom { md, open, slots, .. } = self;
        let v: Vec<_> = slots
            .iter_mut()
            .zip(open.iter())
            .map(|(s, o)| {
                if !*o {
                    return None;
                }
                Some(match s {
                    Slot::U(x) => SamplerOptionValueMut::UInt(x),
                    Slot::F(x) => SamplerOptionValueMut::Float(x),
                    Slot::B(x) => SamplerOptionValueMut::Bool(x),
                    Slot::S(x) => SamplerOptionValueMut::String(x),
                })
            })
            .collect();
        SamplerOptions::from(md.iter().cloned().zip(v))
    }
}

impl<UI: ConfigurableNumValue, F: ConfigurableNumValue> ConfigurableSampler<UI, F> for Custom<UI, F> {
    fn set_option(&mut self, key: &str, val: SamplerOptionValue) -> anyhow::Result<()> {
        self.sets += 1;
        configurable_sampler::set_option(self, key, val)?;
        Ok(())
    }
    fn pre_set_option(&mut self, md: &SamplerOptionMetadata, val: &mut SamplerOptionValue) -> anyhow::Result<()> {
        let i = self.md.iter().position(|m| m == md).expect("hook called for an option that does not exist");
        let cur = self.read(i);
        self.log.push((false, md.key, cur));
        match self.hooks[i] {
            1 => Err(SamplerError::InternalError("refused by the hook".into()))?,
            2 => match val {
                SamplerOptionValue::UInt(x) => *x = 5,
                SamplerOptionValue::Float(x) => *x = 0.25,
                SamplerOptionValue::Bool(x) => *x = true,
                SamplerOptionValue::String(x) => *x = Cow::Borrowed("Hooked"),
            },
            _ => {}
        }
        Ok(())
    }
    fn post_set_option(&mut self, md: &SamplerOptionMetadata) -> anyhow::Result<()> {
        let i = self.md.iter().position(|m| m == md).expect("hook called for an option that does not exist");
        let cur = self.read(i);
        self.log.push((true, md.key, cur));
        if self.hooks[i] == 3 {
            Err(SamplerError::InternalError("failed in the hook after the change".into()))?;
        }
        Ok(())
    }
}

const KEYS: &[&str] = &[
    "alpha", "alphabet", "al", "beta", "bet", "b", "bb", "gamma", "gam", "g", "mu", "m", "min_keep", "min_length", "x", "xy", "xyz", "\u{e9}t\u{e9}", "\u{e9}",
    "last_n", "K", "Key", "Alpha", "ALPHABET", "kEY",
];

/// A sampler with random options, and what the model knows of it.
fn custom<UI, F>(r: &mut Rng) -> (Vec<Opt>, Custom<UI, F>)
where
    UI: ConfigurableNumValue,
    F: ConfigurableNumValue,
{
    let mut keys: Vec<&'static str> = KEYS.to_vec();
    r.shuffle(&mut keys);
    let n = *r.pick(&[0usize, 1, 1, 2, 3, 4, 6]);
    let opts: Vec<Opt> = (0..n)
        .map(|i| {
            let ty = *r.pick(&[SamplerOptionType::UInt, SamplerOptionType::Float, SamplerOptionType::Bool, SamplerOptionType::String]);
            Opt {
                key: keys[i],
                ty,
                open: r.chance(0.92),
                hook: if r.chance(0.85) { 0 } else { r.range(1, 3) as u8 },
                val: match ty {
                    SamplerOptionType::UInt => Val::U(7),
                    SamplerOptionType::Float => Val::F(0.5),
                    SamplerOptionType::Bool => Val::B(r.chance(0.5)),
                    SamplerOptionType::String => Val::S("start".into()),
                },
            }
        })
        .collect();
    let s: Custom<UI, F> = Custom {
        md: opts
            .iter()
            .map(|o| SamplerOptionMetadata {
                key: o.key,
                description: None,
                option_type: o.ty,
            })
            .collect(),
        open: opts.iter().map(|o| o.open).collect(),
        hooks: opts.iter().map(|o| o.hook).collect(),
        log: vec![],
        sets: 0,
        slots: opts
            .iter()
            .map(|o| match &o.val {
                Val::U(x) => Slot::U(UI::from_u64(*x).unwrap()),
                Val::F(x) => Slot::F(F::from_f64(*x).unwrap()),
                Val::B(x) => Slot::B(*x),
                Val::S(x) => Slot::S(Cow::Owned(x.clone())),
            })
            .collect(),
    };
    (opts, s)
}

fn custom_case<UI, F>(c: &mut Case, umax: u64, is32: bool, name: &'static str) -> R
where
    UI: ConfigurableNumValue + std::fmt::Debug,
    F: ConfigurableNumValue + std::fmt::Debug,
{
    let cv = Conv { umax, f32: is32 };
    let r = &mut c.rng;
    let (mut opts, mut s) = custom::<UI, F>(r);
    let steps = c.rng.range(1, 4);
    let mut texts = vec![];
    for _ in 0..steps {
        let before = opts.clone();
        s.log.clear();
        s.sets = 0;
        // (key, value before, value after) of every change.
        let mut changes: Vec<(&'static str, Val, Val)> = vec![];
        let what: String;
        let (want, got): (Expect, Result<(), String>);
        if c.rng.chance(0.65) {
            let t = config_text(&mut c.rng, &opts);
            what = format!("configure({t:?})");
            let mut shadow = opts.clone();
            want = m_configure(&mut opts, &t, cv, |o, k| {
                let i = o.iter().position(|x| x.key == k).unwrap();
                changes.push((k, shadow[i].val.clone(), o[i].val.clone()));
                shadow[i].val = o[i].val.clone();
            });
            got = s.configure(&t).map_err(|e| e.to_string());
            c.see_if(want == Expect::Ok && t.contains('='), "string accepted");
            c.see_if(want == Expect::Err, "string rejected");
            c.see_if(
                want == Expect::Err && opts.iter().zip(&before).any(|(a, b)| !same_val(&a.val, &b.val)),
                "earlier parts kept",
            );
        } else {
            let k = key_text(&mut c.rng, &opts);
            let k = if c.rng.chance(0.1) { format!(" {k}\t") } else { k };
            let v = match find(&opts, &k) {
                Some(i) if c.rng.chance(0.8) => match opts[i].ty {
                    SamplerOptionType::UInt => Val::U(*c.rng.pick(&[0u64, 1, 77, 255, 256, 70_000, 1 << 40, (1 << 53) + 1, (1 << 63) + 3, u64::MAX - 1, u64::MAX])),
                    SamplerOptionType::Float => Val::F(*c.rng.pick(&[0.0f64, -1.5, 0.1, 1e39, -1e300, 1e-50, f64::INFINITY])),
                    SamplerOptionType::Bool => Val::B(c.rng.chance(0.5)),
                    SamplerOptionType::String => Val::S(" raw = :".into()),
                },
                _ => match c.rng.below(4) {
                    0 => Val::U(3),
                    1 => Val::F(0.25),
                    2 => Val::B(true),
                    _ => Val::S("text".into()),
                },
            };
            what = format!("set_option({k:?}, {v:?})");
            let (w, set) = m_set(&mut opts, &k, v.clone(), cv);
            want = w;
            if let (Expect::Ok | Expect::After, Some(k)) = (w, set) {
                let i = opts.iter().position(|x| x.key == k).unwrap();
                changes.push((k, before[i].val.clone(), opts[i].val.clone()));
            }
            got = s
                .set_option(
                    &k,
                    match v {
                        Val::U(x) => SamplerOptionValue::UInt(x),
                        Val::F(x) => SamplerOptionValue::Float(x),
                        Val::B(x) => SamplerOptionValue::Bool(x),
                        Val::S(x) => SamplerOptionValue::String(Cow::Owned(x)),
                    },
                )
                .map_err(|e| e.to_string());
            c.see_if(want == Expect::Ok, "option set");
            c.see_if(want == Expect::Err, "option refused");
        }
        c.event();
        texts.push(what.clone());
        let at = |e: String| {
            let o: Vec<String> = before.iter().map(|o| format!("{}:{:?}{}={:?}", o.key, o.ty, if o.open { "" } else { " (closed)" }, o.val)).collect();
            format!("{what} on <{name}> [{}]: {e}", o.join(", "))
        };
        match want {
            Expect::Ok => {
                if let Err(e) = &got {
                    return Err(at(format!("failed: {e}")));
                }
            }
            Expect::Err => ensure!(got.is_err(), "{}", at("succeeded, an error is expected".into())),
            Expect::After => {
                c.see("the hook after the change failed");
                ensure!(got.is_err(), "{}", at("succeeded although the hook called after the change failed".into()));
                // Whether the change is taken back is not prescribed.
                if let Some((k, old, _)) = changes.last() {
                    let i = opts.iter().position(|o| o.key == *k).unwrap();
                    if same_val(&s.read(i), old) {
                        opts[i].val = old.clone();
                    }
                }
            }
            // What follows such a number is not modelled.
            Expect::Either => break,
        }
        // The sampler's hooks saw every change, before and after it.
        let posts: Vec<_> = s.log.iter().filter(|x| x.0).collect();
        let same_log = posts.len() == changes.len() && posts.iter().zip(&changes).all(|(p, w)| p.1 == w.0 && same_val(&p.2, &w.2));
        ensure!(same_log, "{}", at(format!("the hook after setting an option saw {posts:?}, changes were {changes:?}")));
        if want == Expect::Ok {
            c.see_if(!changes.is_empty(), "hooks followed");
            let pres: Vec<_> = s.log.iter().filter(|x| !x.0).collect();
            ensure!(
                s.log.iter().enumerate().all(|(i, x)| x.0 == (i % 2 == 1))
                    && pres.len() == changes.len()
                    && pres.iter().zip(&changes).all(|(p, w)| p.1 == w.0 && same_val(&p.2, &w.1)),
                "{}",
                at(format!("hooks were called as {:?}, changes were {changes:?}", s.log))
            );
            ensure!(
                s.sets == changes.len() as u64,
                "{}",
                at(format!("the sampler's own set_option was called {} times for {} changes", s.sets, changes.len()))
            );
        }
        for i in 0..opts.len() {
            let v = s.read(i);
            ensure!(
                same_val(&v, &opts[i].val),
                "{}",
                at(format!("afterwards option {} is {v:?}, expected {:?}", opts[i].key, opts[i].val))
            );
        }
        // Reading back, by full names and by any key.
        for i in 0..opts.len() + 1 {
            let k = if i < opts.len() { opts[i].key.to_string() } else { key_text(&mut c.rng, &opts) };
            let want = find(&opts, &k).filter(|j| opts[*j].open);
            let got = s.get_option(&k);
            match (want, got) {
                (None, Err(_)) => {}
                (None, Ok(v)) => return Err(at(format!("get_option({k:?}) gives {v:?}, an error is expected"))),
                (Some(j), Ok(v)) => {
                    let v = match v {
                        SamplerOptionValue::UInt(x) => Val::U(x),
                        SamplerOptionValue::Float(x) => Val::F(x),
                        SamplerOptionValue::Bool(x) => Val::B(x),
                        SamplerOptionValue::String(x) => Val::S(x.to_string()),
                    };
                    ensure!(same_val(&v, &opts[j].val), "{}", at(format!("get_option({k:?}) gives {v:?}, expected {:?}", opts[j].val)));
                }
                (Some(j), Err(e)) => return Err(at(format!("get_option({k:?}) fails ({e}), expected {:?}", opts[j].val))),
            }
        }
    }
    c.fp(&[c.rng.clone().u64()]);
    c.nontrivial_if(!opts.is_empty());
    c.desc(|| format!("<{name}> {:?}: {texts:?}", opts.iter().map(|o| (o.key, o.ty)).collect::<Vec<_>>()));
    Ok(())
}

fn c22_custom(c: &mut Case) -> R {
    match c.rng.below(8) {
        0 => custom_case::<u8, f64>(c, u8::MAX as u64, false, "u8, f64"),
        1 => custom_case::<u16, f32>(c, u16::MAX as u64, true, "u16, f32"),
        2 | 3 => custom_case::<u32, f32>(c, u32::MAX as u64, true, "u32, f32"),
        4 => custom_case::<i32, f64>(c, i32::MAX as u64, false, "i32, f64"),
        5 => custom_case::<u64, f64>(c, u64::MAX, false, "u64, f64"),
        _ => custom_case::<usize, f32>(c, u64::MAX, true, "usize, f32"),
    }
}

fn defaults(r: &mut Rng) -> Any {
    match r.below(15) {
        0 => Any::TopK(SampleTopK::default()),
        1 => Any::TopP(SampleTopP::default()),
        2 => Any::MinP(SampleMinP::default()),
        3 => Any::TopA(SampleTopA::default()),
        4 => Any::TailFree(SampleTailFree::default()),
        5 => Any::LocTyp(SampleLocallyTypical::default()),
        6 => Any::Temp(SampleTemperature::default()),
        7 => Any::Rep(SampleRepetition::default()),
        8 => Any::Freq(SampleFreqPresence::default()),
        9 => Any::Seq(SampleSeqRepetition::default()),
        10 => Any::Bias(SampleFlatBias::default()),
        11 => Any::Greedy(SampleGreedy::default()),
        12 => Any::Rand(SampleRandDistrib::default()),
        13 => Any::Miro1(SampleMirostat1::default()),
        _ => Any::Miro2(SampleMirostat2::default()),
    }
}

/// Options of a built-in sampler as the model sees them, from its metadata and by full names.
fn opts_of(a: &Any) -> Result<Vec<Opt>, String> {
    a.cref()
        .sampler_metadata()
        .options
        .iter()
        .map(|o| {
            let v = a
                .cref()
                .get_option(o.key)
                .map_err(|e| format!("{}: option {} is listed but cannot be read: {e}", a.kind(), o.key))?;
            let val = match v {
                SamplerOptionValue::UInt(x) => Val::U(x),
                SamplerOptionValue::Float(x) => Val::F(x),
                SamplerOptionValue::Bool(x) => Val::B(x),
                SamplerOptionValue::String(x) => Val::S(x.to_string()),
            };
            Ok(Opt { key: o.key, ty: o.option_type, open: true, val, hook: 0 })
        })
        .collect()
}

/// Setting tau also sets mu.
fn tau_mu(opts: &mut [Opt], key: &'static str) {
    if key == "tau" {
        let t = opts.iter().find(|o| o.key == "tau").map(|o| o.val.clone());
        if let (Some(Val::F(t)), Some(m)) = (t, opts.iter_mut().find(|o| o.key == "mu")) {
            m.val = Val::F((t as f32 * 2.0) as f64);
        }
    }
}

const USIZE: Conv = Conv { umax: u64::MAX, f32: true };

fn c22_builtin(c: &mut Case) -> R {
    let mut a = defaults(&mut c.rng);
    let mut opts = opts_of(&a)?;
    let mut texts = vec![];
    for _ in 0..c.rng.range(1, 3) {
        let t = config_text(&mut c.rng, &opts);
        texts.push(t.clone());
        let before = a.state();
        let want = m_configure(&mut opts, &t, USIZE, tau_mu);
        c.event();
        let got = match c.rng.below(2) {
            0 => a.cfg().configure(&t),
            _ => {
                // Through the type that the chain builder uses.
                let mut b = a.clone();
                let r = b.cfg().configure(&t);
                a = b;
                r
            }
        };
        let at = |e: String| format!("configure({t:?}) of {} with {before:?}: {e}", a.kind());
        match (want, got) {
            (Expect::Ok, Err(e)) => return Err(at(format!("failed: {e}"))),
            (Expect::Err, Ok(())) => return Err(at("succeeded, an error is expected".into())),
            (Expect::Either | Expect::After, _) => break,
            _ => {}
        }
        c.see_if(want == Expect::Ok && !opts.is_empty() && t.contains('='), "string accepted");
        c.see_if(want == Expect::Err, "string rejected");
        for (o, n) in opts.iter().zip(opts_of(&a)?) {
            ensure!(same_val(&o.val, &n.val), "{}", at(format!("afterwards {} is {:?}, expected {:?}", o.key, n.val, o.val)));
        }
    }
    c.fp(&[c.rng.clone().u64()]);
    c.nontrivial_if(!opts.is_empty());
    c.desc(|| format!("{}: {texts:?}", a.kind()));
    Ok(())
}

/// Values of options from text, directly.
fn c22_values(c: &mut Case) -> R {
    let ty = *c.rng.pick(&[SamplerOptionType::UInt, SamplerOptionType::Float, SamplerOptionType::Bool, SamplerOptionType::String]);
    let from = if c.rng.chance(0.8) {
        ty
    } else {
        *c.rng.pick(&[SamplerOptionType::UInt, SamplerOptionType::Float, SamplerOptionType::Bool, SamplerOptionType::String])
    };
    let wrong = c.rng.chance(0.15);
    let mut t = value_text(&mut c.rng, from, wrong);
    if c.rng.chance(0.1) {
        t.push_str(c.rng.pick(&["=", "a=b", ":", "x:y"]));
    }
    let sp = |r: &mut Rng| *r.pick(SPACES);
    let t = format!("{}{t}{}", sp(&mut c.rng), sp(&mut c.rng));
    c.fp(&[crate::rng::hash_str(&t), ty as u64]);
    c.nontrivial();
    c.desc(|| format!("{t:?} as {ty:?}"));
    c.event();
    let got = match SamplerOptionValue::parse_value(ty, &t) {
        Ok(SamplerOptionValue::UInt(x)) => Some(Val::U(x)),
        Ok(SamplerOptionValue::Float(x)) => Some(Val::F(x)),
        Ok(SamplerOptionValue::Bool(x)) => Some(Val::B(x)),
        Ok(SamplerOptionValue::String(x)) => Some(Val::S(x.to_string())),
        Err(_) => None,
    };
    let want = m_parse(ty, &t);
    c.see_if(want.is_some(), "value accepted");
    c.see_if(want.is_none(), "value rejected");
    let same = match (&got, &want) {
        (Some(a), Some(b)) => same_val(a, b),
        (a, b) => a.is_none() && b.is_none(),
    };
    ensure!(same, "{t:?} as {ty:?} is {got:?}, expected {want:?}");
    Ok(())
}

pub fn c22() -> Prop {
    Prop {
        id: "C22",
        rule: "random option tables (prefix-related keys, all types, inaccessible options; u8..u64/i32/usize and f32/f64 storage) and the built-in samplers, random configuration strings and direct option access, against a reference interpreter; non-trivial: at least one option",
        workloads: vec![
            Workload {
                name: "custom",
                quick: 1_080_000,
                thorough: 43_200_000,
                f: c22_custom,
                need: &["string accepted", "string rejected", "earlier parts kept", "option set", "option refused", "hooks followed", "the hook after the change failed"],
            },
            Workload {
                name: "built-in",
                quick: 720_000,
                thorough: 28_800_000,
                f: c22_builtin,
                need: &["string accepted", "string rejected"],
            },
            Workload { name: "values", quick: 1_000_000, thorough: 10_000_000, f: c22_values, need: &["value accepted", "value rejected"] },
        ],
    }
}

// ---------------------------------------------------------------- C23

type Ran = Arc<Mutex<Vec<(String, u64, f64, u64)>>>;

#[derive(Debug, Clone)]
struct Piece {
    tag: String,
    x: usize,
    y: f32,
    mark: u64,
    ran: Ran,
}

impl Sampler for Piece {
    fn sample<'a>(&mut self, _: &mut dyn HasSamplerResources, l: &'a mut Logits) -> Result<&'a mut Logits, SamplerError> {
        self.ran.lock().unwrap().push((self.tag.clone(), self.x as u64, self.y as f64, self.mark));
        Ok(l)
    }
    fn sampled_token_id(&self) -> Option<u32> {
        Some(self.x as u32)
    }
}

impl HasSamplerMetadata<usize, f32> for Piece {
    fn sampler_metadata(&self) -> SamplerMetadata {
        SamplerMetadata {
            name: "piece",
            description: None,
            options: vec![
                SamplerOptionMetadata { key: "xx", description: None, option_type: SamplerOptionType::UInt },
                SamplerOptionMetadata { key: "yy", description: None, option_type: SamplerOptionType::Float },
            ],
        }
    }
    fn sampler_options(&self) -> SamplerOptions<SamplerOptionValue<'_, usize, f32>> {
        let md = <Self as HasSamplerMetadata<usize, f32>>::sampler_metadata(self).options;
        SamplerOptions::from(md.into_iter().zip([Some(SamplerOptionValue::UInt(self.x)), Some(SamplerOptionValue::Float(self.y))]))
    }
    fn sampler_options_mut(&mut self) -> SamplerOptions<SamplerOptionValueMut<'_, usize, f32>> {
        let md = <Self as HasSamplerMetadata<usize, f32>>::sampler_metadata(self).options;
        SamplerOptions::from(md.into_iter().zip([Some(SamplerOptionValueMut::UInt(&mut self.x)), Some(SamplerOptionValueMut::Float(&mut self.y))]))
    }
}
impl ConfigurableSampler<usize, f32> for Piece {}

#[derive(Clone, Debug)]
struct MPiece {
    x: u64,
    y: f64,
    mark: u64,
}

impl MPiece {
    fn configure(&mut self, s: &str) -> bool {
        let mut o = vec![
            Opt { key: "xx", ty: SamplerOptionType::UInt, open: true, val: Val::U(self.x), hook: 0 },
            Opt { key: "yy", ty: SamplerOptionType::Float, open: true, val: Val::F(self.y), hook: 0 },
        ];
        let ok = m_configure(&mut o, s, USIZE, |_, _| {}) == Expect::Ok;
        if let (Val::U(x), Val::F(y)) = (&o[0].val, &o[1].val) {
            self.x = *x;
            self.y = *y;
        }
        ok
    }
}

#[derive(Clone, Debug)]
enum MSlot {
    Static(MPiece),
    Single(MPiece, Option<MPiece>),
    Chain(MPiece, Vec<MPiece>),
}

fn piece_text(r: &mut Rng) -> String {
    let n = r.range(0, 3);
    let mut v = vec![];
    for _ in 0..n {
        v.push(match r.below(12) {
            0 => "zz=1".to_string(),
            1 => "xx=-1".into(),
            2 => "yy=abc".into(),
            3 => "5".into(),
            4..=7 => format!("{}={}", r.pick(&["x", "xx", " xx "]), r.below(1000)),
            _ => format!("{}={}", r.pick(&["y", "yy"]), r.below(100) as f64 / 8.0),
        });
    }
    v.join(":")
}

fn c23_ops(c: &mut Case) -> R {
    let r = &mut c.rng;
    let ran: Ran = Default::default();
    let names = ["a", "b", "c", "chain", "temp", "temperature", "", "a b"];
    let mut order: Vec<usize> = (0..names.len()).collect();
    r.shuffle(&mut order);
    let crowd = r.chance(0.01);
    let n = if crowd { r.range(7, 150) } else { r.range(0, 6) };
    if crowd {
        order.extend(names.len()..n.max(names.len()));
    }
    let mut model: Vec<(String, MSlot)> = vec![];
    let mut b: SamplerChainBuilder<usize, f32> = Default::default();
    let mut pending: Vec<(String, SamplerSlot<usize, f32>)> = vec![];
    let style = r.below(4);
    let mut marks = 1000u64;
    for (i, oi) in order.iter().take(n).enumerate() {
        // The same name again now and then: the first one is meant.
        let name = if i > 0 && r.chance(0.12) { model[r.below(i)].0.clone() } else { names.get(*oi).map_or_else(|| format!("slot {oi}"), |n| n.to_string()) };
        let proto = MPiece { x: 10 + i as u64, y: 0.5, mark: 1 + i as u64 };
        let factory = {
            let (tag, ran, p) = (name.clone(), ran.clone(), proto.clone());
            move || {
                Box::new(Piece {
                    tag: tag.clone(),
                    x: p.x as usize,
                    y: p.y as f32,
                    mark: p.mark,
                    ran: ran.clone(),
                }) as Box<dyn BuildableSampler<usize, f32>>
            }
        };
        let mut given = |r: &mut Rng| {
            marks += 1;
            let m = MPiece { x: r.below(50) as u64, y: r.below(50) as f64 / 4.0, mark: marks };
            let p = Piece { tag: name.clone(), x: m.x as usize, y: m.y as f32, mark: m.mark, ran: ran.clone() };
            (m, p)
        };
        let (ms, slot) = match r.below(3) {
            0 => (MSlot::Static(proto), SamplerSlot::new_static(factory)),
            1 => {
                if r.chance(0.4) {
                    let (m, p) = given(r);
                    (MSlot::Single(proto, Some(m)), SamplerSlot::new_single(factory, Some(p)))
                } else {
                    (MSlot::Single(proto, None), SamplerSlot::new_single(factory, None::<Piece>))
                }
            }
            _ => {
                let k = *r.pick(&[0usize, 0, 1, 2]);
                let (mut mv, mut pv) = (vec![], vec![]);
                for _ in 0..k {
                    let (m, p) = given(r);
                    mv.push(m);
                    pv.push(Box::new(p) as Box<dyn BuildableSampler<usize, f32>>);
                }
                (MSlot::Chain(proto, mv), SamplerSlot::new_chain(factory, pv))
            }
        };
        model.push((name.clone(), ms));
        match style {
            0 => b.push_slot(name, slot),
            1 => b += (name, slot),
            2 => b = b + (name, slot),
            _ => pending.push((name, slot)),
        }
    }
    if style == 3 {
        b = SamplerChainBuilder::from(pending);
    }
    let initial = format!("{model:?}");
    let mut ops = vec![];
    let many = c.rng.chance(0.004);
    let count = if many && c.rng.chance(0.1) { c.rng.range(300, 1500) } else if many { c.rng.range(30, 300) } else { c.rng.range(0, 8) };
    for _ in 0..count {
        let r = &mut c.rng;
        if r.chance(0.2) && !model.is_empty() {
            let i = r.below(model.len());
            ops.push(format!("ensure_present({:?})", model[i].0));
            c.event();
            b[i].1.ensure_present();
            match &mut model[i].1 {
                MSlot::Single(p, s) if s.is_none() => *s = Some(p.clone()),
                MSlot::Chain(p, v) if v.is_empty() => v.push(p.clone()),
                _ => {}
            }
            continue;
        }
        let name = if model.is_empty() || r.chance(0.1) {
            r.pick(&["nope", "A", "tem", " a", "a ", "zz"]).to_string()
        } else {
            model[r.below(model.len())].0.clone()
        };
        let text = piece_text(r);
        ops.push(format!("configure({name:?}, {text:?})"));
        c.event();
        let got = b.configure(&name, &text);
        let want = match model.iter_mut().find(|(n, _)| *n == name) {
            None => {
                c.see("unknown slot");
                false
            }
            Some((_, MSlot::Static(_))) => {
                c.see("static slot");
                false
            }
            Some((_, MSlot::Single(p, s))) => match s {
                Some(m) => {
                    c.see("single adjusted");
                    m.configure(&text)
                }
                None => {
                    let mut m = p.clone();
                    let ok = m.configure(&text);
                    if ok {
                        *s = Some(m);
                    }
                    c.see(if ok { "single created" } else { "single not created" });
                    ok
                }
            },
            Some((_, MSlot::Chain(p, v))) => {
                let mut m = p.clone();
                let ok = m.configure(&text);
                if ok {
                    v.push(m);
                }
                c.see(if ok { "appended" } else { "not appended" });
                ok
            }
        };
        ensure!(
            got.is_ok() == want,
            "{} gives {:?}, expected {}; slots {initial}, so far {ops:?}",
            ops.last().unwrap(),
            got.map_err(|e| e.to_string()),
            if want { "success" } else { "an error" }
        );
        ensure!(b.len() == model.len(), "the number of slots changed");
    }
    let mut want = vec![];
    for (name, s) in &model {
        let mut put = |m: &MPiece| want.push((name.clone(), m.x, m.y, m.mark));
        match s {
            MSlot::Static(p) => put(p),
            MSlot::Single(_, s) => s.iter().for_each(&mut put),
            MSlot::Chain(_, v) => v.iter().for_each(put),
        }
    }
    let mut chain = b.into_chain();
    for round in 0..2 {
        ran.lock().unwrap().clear();
        let mut l = from_values(&[0.0]);
        let t = chain.sample_token(&mut (), &mut l).map_err(|e| e.to_string())?;
        let got = ran.lock().unwrap().clone();
        ensure!(
            got == want,
            "the chain built ran {got:?}, expected (slot, x, y, mark) {want:?} (run {round}); slots {initial}, operations {ops:?}"
        );
        ensure!(t == want.last().map(|w| w.1 as u32), "token {t:?}, last sampler is {:?}", want.last());
    }
    c.fp(&[c.rng.clone().u64()]);
    c.nontrivial_if(!want.is_empty());
    c.desc(|| format!("{initial} ops {ops:?}"));
    Ok(())
}

/// Option string that gives a default-built sampler the options of `a`.
fn full_text(r: &mut Rng, a: &Any) -> Result<String, String> {
    let mut o = opts_of(a)?;
    r.shuffle(&mut o);
    // mu after tau.
    if let (Some(t), Some(m)) = (o.iter().position(|o| o.key == "tau"), o.iter().position(|o| o.key == "mu")) {
        if m < t {
            o.swap(m, t)
        }
    }
    Ok(o.iter()
        .map(|o| match &o.val {
            Val::U(x) => format!("{}={x}", o.key),
            Val::F(x) => format!("{}={x}", o.key),
            Val::B(x) => format!("{}={x}", o.key),
            Val::S(x) => format!("{}={x}", o.key),
        })
        .collect::<Vec<_>>()
        .join(":"))
}

fn fresh_of(a: &Any) -> Any {
    match a {
        Any::TopK(_) => Any::TopK(Default::default()),
        Any::TopP(_) => Any::TopP(Default::default()),
        Any::MinP(_) => Any::MinP(Default::default()),
        Any::TopA(_) => Any::TopA(Default::default()),
        Any::TailFree(_) => Any::TailFree(Default::default()),
        Any::LocTyp(_) => Any::LocTyp(Default::default()),
        Any::Temp(_) => Any::Temp(Default::default()),
        Any::Rep(_) => Any::Rep(Default::default()),
        Any::Freq(_) => Any::Freq(Default::default()),
        Any::Seq(_) => Any::Seq(Default::default()),
        Any::Bias(_) => Any::Bias(Default::default()),
        Any::Greedy(_) => Any::Greedy(Default::default()),
        Any::Rand(_) => Any::Rand(Default::default()),
        Any::Miro1(_) => Any::Miro1(Default::default()),
        Any::Miro2(_) => Any::Miro2(Default::default()),
    }
}

/// Real samplers configured through the builder, against the same samplers one after the other.
fn c23_real(c: &mut Case) -> R {
    let r = &mut c.rng;
    let n = size1(r, if c.tiny { 6 } else { 100 });
    let v = values(r, n, MILD);
    let (l0, _) = prep(r, &v);
    let toks = history(r, &l0, 16);
    let k = r.range(1, 5);
    let mut insts: Vec<Any> = (0..k)
        .map(|_| loop {
            let a = any_sampler(r, &l0, toks.len(), TAME);
            if !matches!(a, Any::Bias(_)) {
                return a;
            }
        })
        .collect();
    let mut b = SamplerChainBuilder::<usize, f32>::default();
    let mut texts = vec![];
    for (i, a) in insts.iter().enumerate() {
        let name = format!("s{i}");
        let proto = fresh_of(a);
        let text = full_text(r, a)?;
        match r.below(3) {
            0 => {
                let a = a.clone();
                b += (name, SamplerSlot::new_static(move || a.buildable()))
            }
            1 => {
                b += (name.clone(), SamplerSlot::new_single(move || proto.buildable(), None::<SampleTopK>));
                if r.chance(0.3) {
                    b[i].1.ensure_present();
                }
                // In two steps now and then.
                match text.split_once(':') {
                    Some((x, y)) if r.chance(0.4) => {
                        b.configure(&name, x).map_err(|e| format!("{name} {x:?}: {e}"))?;
                        b.configure(&name, y).map_err(|e| format!("{name} {y:?}: {e}"))?;
                    }
                    _ => b.configure(&name, &text).map_err(|e| format!("{name} {text:?}: {e}"))?,
                }
            }
            _ => {
                b += (name.clone(), SamplerSlot::new_chain(move || proto.buildable(), vec![]));
                b.configure(&name, &text).map_err(|e| format!("{name} {text:?}: {e}"))?;
            }
        }
        texts.push(text);
    }
    let mut chain = b.into_chain();
    let stream = Stream::random(r);
    let mut ra = Res::new(Some(stream.clone()), Some(toks.clone()));
    let mut rb = Res::new(Some(stream), Some(toks.clone()));
    c.fp(&[hash_logits(&l0), c.rng.clone().u64()]);
    c.desc(|| format!("{texts:?} on {}", show(&l0)));
    c.nontrivial_if(n > 1);
    let (mut la, mut lb) = (l0.clone(), l0.clone());
    let mut want = Ok(None);
    for a in insts.iter_mut() {
        want = a.run(&mut rb, &mut lb);
        if want.is_err() {
            break;
        }
    }
    c.event();
    let got = chain.sample_token(&mut ra, &mut la);
    let at = |e: String| format!("{insts:?} configured as {texts:?} on {}: {e}", show(&l0));
    match (&want, &got) {
        (Ok(a), Ok(b)) => {
            ensure!(a == b, "{}", at(format!("the chain reports {b:?}, expected {a:?}")));
            same_all(&la, &lb).map_err(at)
        }
        (Err(_), Err(_)) => Ok(()),
        (a, b) => Err(at(format!("the chain returned {b:?}, expected {a:?}"))),
    }
}

pub fn c23() -> Prop {
    Prop {
        id: "C23",
        rule: "builders of up to 6 slots of every kind (with and without samplers given up front, added in every way), up to 8 configure/ensure_present operations with good and bad strings and names, the built chain run and compared with a model; and real samplers configured through slots; non-trivial: a chain with at least one sampler",
        workloads: vec![
            Workload {
                name: "operations",
                quick: 1_800_000,
                thorough: 72_000_000,
                f: c23_ops,
                need: &[
                    "unknown slot",
                    "static slot",
                    "single adjusted",
                    "single created",
                    "single not created",
                    "appended",
                    "not appended",
                ],
            },
            Workload { name: "real", quick: 480_000, thorough: 19_200_000, f: c23_real, need: &[] },
        ],
    }
}

// ---------------------------------------------------------------- C27

/// A sampler made by its constructor or builder methods, with the values of its options by name.
fn pair(r: &mut Rng, kind: usize, n: usize, hist: usize) -> (Any, Vec<(&'static str, Val)>) {
    let mut sub = Rng::new(r.u64());
    let special = sub.chance(0.25);
    // Values with a meaning of their own.
    let mut sp = |x: f32| {
        if special && sub.chance(0.4) {
            *sub.pick(&[0.0, 1.0, -1.0, 2.0, 0.5, 10.0, 5.0, 0.1, -0.0, 1e-6, 100.0, 20.0, 12.0, -0.5, 1.5, -7.0, 0.999, 1000.0, 1e-20, 1e30])
        } else {
            x
        }
    };
    let f = |x: f32| Val::F(x as f64);
    let u = |x: usize| Val::U(x as u64);
    let by_new = r.chance(0.5);
    // Sampling is compared, so settings outside the sensible range count as well: they are kept as given.
    let (p, mk) = (sp(p01(r)), keep(r, n));
    let (a1, a2) = (sp(p01(r)), sp(*r.pick(&[0.5f32, 1.0, 2.0, 0.3, 0.0])));
    let (x, y) = (sp(r.frange(-2.0, 3.0) as f32), sp(r.frange(-2.0, 3.0) as f32));
    let ln = last_n(r, hist);
    match kind {
        0 => {
            let k = r.range(0, n + 2);
            let s = if by_new { SampleTopK::new(k, mk) } else { SampleTopK::default().min_keep(mk).k(k) };
            (Any::TopK(s), vec![("k", u(k)), ("min_keep", u(mk))])
        }
        1 => {
            let s = if by_new { SampleTopP::new(p, mk) } else { SampleTopP::default().min_keep(mk).p(p) };
            (Any::TopP(s), vec![("p", f(p)), ("min_keep", u(mk))])
        }
        2 => {
            let s = if by_new { SampleMinP::new(p, mk) } else { SampleMinP::default().min_keep(mk).p(p) };
            (Any::MinP(s), vec![("p", f(p)), ("min_keep", u(mk))])
        }
        3 => {
            let s = if by_new {
                SampleTopA::new(a1, a2, mk)
            } else {
                SampleTopA::default().a2(a2).min_keep(mk).a1(a1)
            };
            (Any::TopA(s), vec![("a1", f(a1)), ("a2", f(a2)), ("min_keep", u(mk))])
        }
        4 => {
            let s = if by_new { SampleTailFree::new(p, mk) } else { SampleTailFree::default().min_keep(mk).z(p) };
            (Any::TailFree(s), vec![("z", f(p)), ("min_keep", u(mk))])
        }
        5 => {
            let s = if by_new { SampleLocallyTypical::new(p, mk) } else { SampleLocallyTypical::default().min_keep(mk).p(p) };
            (Any::LocTyp(s), vec![("p", f(p)), ("min_keep", u(mk))])
        }
        6 => {
            let t = sp(r.frange(0.1, 3.0) as f32);
            let s = if by_new { SampleTemperature::new(t) } else { SampleTemperature::default().temperature(t) };
            (Any::Temp(s), vec![("temperature", f(t))])
        }
        7 => {
            let q = sp(r.frange(0.9, 3.0) as f32);
            let s = if by_new { SampleRepetition::new(q, ln) } else { SampleRepetition::default().last_n(ln).penalty(q) };
            (Any::Rep(s), vec![("penalty", f(q)), ("last_n", u(ln))])
        }
        8 => {
            let s = if by_new {
                SampleFreqPresence::new(x, y, ln)
            } else {
                SampleFreqPresence::default().last_n(ln).presence(y).frequency(x)
            };
            (
                Any::Freq(s),
                vec![("frequency_penalty", f(x)), ("presence_penalty", f(y)), ("last_n", u(ln))],
            )
        }
        9 => {
            let (ml, tol, mm) = (r.range(if special { 0 } else { 2 }, 4), r.below(3), r.below(4));
            let s = if by_new {
                SampleSeqRepetition::new(x, y, ml, tol, mm, ln)
            } else {
                SampleSeqRepetition::default()
                    .max_merge(mm)
                    .last_n(ln)
                    .flat_penalty(x)
                    .tolerance(tol)
                    .stacking_penalty(y)
                    .min_length(ml)
            };
            (
                Any::Seq(s),
                vec![
                    ("flat_penalty", f(x)),
                    ("stacking_penalty", f(y)),
                    ("min_length", u(ml)),
                    ("tolerance", u(tol)),
                    ("max_merge", u(mm)),
                    ("last_n", u(ln)),
                ],
            )
        }
        10 => (Any::Bias(SampleFlatBias::default()), vec![]),
        11 => (Any::Greedy(SampleGreedy::new()), vec![]),
        12 => (Any::Rand(SampleRandDistrib::new()), vec![]),
        13 => {
            let (tau, eta, m, nv) = (sp(r.frange(0.5, 8.0) as f32), sp(r.frange(0.0, 1.0) as f32), r.range(1, n + 2), r.range(2, 1000));
            let mu = if r.chance(0.5) { Some(sp(r.frange(0.0, 12.0) as f32)) } else { None };
            let mut s = if by_new {
                SampleMirostat1::new(nv, tau, eta).m(m)
            } else {
                SampleMirostat1::default().m(m).eta(eta).n_vocab(nv).tau(tau)
            };
            if let Some(mu) = mu {
                s = s.mu(mu);
            }
            (
                Any::Miro1(s),
                vec![("tau", f(tau)), ("eta", f(eta)), ("mu", f(mu.unwrap_or(tau * 2.0))), ("m", u(m)), ("n_vocab", u(nv))],
            )
        }
        _ => {
            let (tau, eta) = (sp(r.frange(0.5, 8.0) as f32), sp(r.frange(0.0, 1.0) as f32));
            let mu = if r.chance(0.5) { Some(sp(r.frange(0.0, 12.0) as f32)) } else { None };
            let mut s = if by_new { SampleMirostat2::new(tau, eta) } else { SampleMirostat2::default().eta(eta).tau(tau) };
            if let Some(mu) = mu {
                s = s.mu(mu);
            }
            (Any::Miro2(s), vec![("tau", f(tau)), ("eta", f(eta)), ("mu", f(mu.unwrap_or(tau * 2.0)))])
        }
    }
}

fn lib_val(v: &Val) -> SamplerOptionValue<'static> {
    match v {
        Val::U(x) => SamplerOptionValue::UInt(*x),
        Val::F(x) => SamplerOptionValue::Float(*x),
        Val::B(x) => SamplerOptionValue::Bool(*x),
        Val::S(x) => SamplerOptionValue::String(Cow::Owned(x.clone())),
    }
}

fn c27_pair(c: &mut Case) -> R {
    let r = &mut c.rng;
    let n = size1(r, if c.tiny { 6 } else { 80 });
    let v = values(r, n, MILD);
    let (l0, _) = prep(r, &v);
    let toks = history(r, &l0, 24);
    let kind = r.below(15);
    let (built, named) = pair(r, kind, n, toks.len());
    let md = built.cref().sampler_metadata();
    let at = |e: String| format!("{} ({built:?}): {e}", md.name);
    c.see(built.kind());
    // The list: one entry per parameter, each accessible with the type it says.
    let keys: Vec<&str> = md.options.iter().map(|o| o.key).collect();
    ensure!(
        keys.len() == named.len() && named.iter().all(|(k, _)| keys.contains(k)),
        "{}",
        at(format!("lists options {keys:?}, its parameters are {:?}", named.iter().map(|x| x.0).collect::<Vec<_>>()))
    );
    let direct = built.cref().sampler_options();
    ensure!(direct.len() == keys.len() && direct.iter().all(|o| o.1.is_some()), "{}", at("not every listed option is accessible".into()));
    // Reading a built one gives the values it was built with.
    for (k, v) in &named {
        let got = built.cref().get_option(k).map_err(|e| at(format!("reading {k}: {e}")))?;
        ensure!(got == lib_val(v), "{}", at(format!("option {k} reads {got:?}, built with {v:?}")));
        let o = md.options.iter().find(|o| o.key == *k).unwrap();
        let t = match got {
            SamplerOptionValue::UInt(_) => SamplerOptionType::UInt,
            SamplerOptionValue::Float(_) => SamplerOptionType::Float,
            SamplerOptionValue::Bool(_) => SamplerOptionType::Bool,
            SamplerOptionValue::String(_) => SamplerOptionType::String,
        };
        ensure!(t == o.option_type, "{}", at(format!("option {k} is listed as {:?} but reads {got:?}", o.option_type)));
    }
    // Set one by one on a default one: each changes itself only.
    let mut set = fresh_of(&built);
    let mut order = named.clone();
    c.rng.shuffle(&mut order);
    if let (Some(t), Some(m)) = (order.iter().position(|o| o.0 == "tau"), order.iter().position(|o| o.0 == "mu")) {
        if m < t {
            order.swap(m, t)
        }
    }
    for (k, v) in &order {
        let before = opts_of(&set)?;
        set.cfg().set_option(k, lib_val(v)).map_err(|e| at(format!("setting {k} to {v:?}: {e}")))?;
        for (o, nw) in before.iter().zip(opts_of(&set)?) {
            let want = if o.key == *k {
                v.clone()
            } else if *k == "tau" && o.key == "mu" {
                match v {
                    Val::F(t) => Val::F((*t as f32 * 2.0) as f64),
                    _ => o.val.clone(),
                }
            } else {
                o.val.clone()
            };
            ensure!(
                same_val(&want, &nw.val),
                "{}",
                at(format!("after setting {k} to {v:?}, option {} is {:?}, expected {want:?}", o.key, nw.val))
            );
        }
    }
    // And by a string.
    let mut text = fresh_of(&built);
    let s = order
        .iter()
        .map(|(k, v)| match v {
            Val::U(x) => format!("{k}={x}"),
            Val::F(x) => format!("{k}={x}"),
            Val::B(x) => format!("{k}={x}"),
            Val::S(x) => format!("{k}={x}"),
        })
        .collect::<Vec<_>>()
        .join(":");
    text.cfg().configure(&s).map_err(|e| at(format!("configure({s:?}): {e}")))?;
    c.fp(&[hash_logits(&l0), kind as u64, c.rng.clone().u64()]);
    c.desc(|| format!("{built:?} as {s:?} on {}", show(&l0)));
    c.nontrivial_if(!named.is_empty());
    // All of them behave the same.
    let stream = Stream::random(&mut c.rng);
    let mut trio = [built.clone(), set, text];
    let mut ress: Vec<Res> = (0..3).map(|_| Res::new(Some(stream.clone()), Some(toks.clone()))).collect();
    for call in 0..2 {
        let mut first: Option<(Logits, Result<Option<u32>, String>, Vec<String>)> = None;
        for (i, (a, res)) in trio.iter_mut().zip(ress.iter_mut()).enumerate() {
            let mut l = l0.clone();
            c.event();
            let got = a.run(res, &mut l).map_err(|e| e.to_string());
            let st = a.state();
            match &first {
                None => first = Some((l, got, st)),
                Some((fl, fg, fs)) => {
                    let how = if i == 1 { "set option by option" } else { "configured by string" };
                    ensure!(*fg == got, "{}", at(format!("call {call}: built gives {fg:?}, {how} {got:?} on {}", show(&l0))));
                    same_all(fl, &l).map_err(|e| at(format!("call {call}: built / {how}: {e} on {}", show(&l0))))?;
                    ensure!(*fs == st, "{}", at(format!("call {call}: built ends as {fs:?}, {how} as {st:?}")));
                }
            }
        }
    }
    Ok(())
}

fn c27_names(c: &mut Case) -> R {
    let mut names: BTreeMap<&'static str, &'static str> = BTreeMap::new();
    for kind in 0..15 {
        let (a, _) = pair(&mut c.rng, kind, 5, 5);
        let md = a.cref().sampler_metadata();
        c.event();
        ensure!(!md.name.trim().is_empty(), "{} has no name", a.kind());
        if let Some(o) = names.insert(md.name, a.kind()) {
            return Err(format!("{} and {} are both named {:?}", o, a.kind(), md.name));
        }
        let mut k: Vec<&str> = md.options.iter().map(|o| o.key).collect();
        let n = k.len();
        k.sort();
        k.dedup();
        ensure!(k.len() == n, "{} lists an option twice: {:?}", md.name, md.options);
    }
    // Documented starting values of the learning samplers.
    for a in [Any::Miro1(SampleMirostat1::default()), Any::Miro2(SampleMirostat2::default())] {
        ensure!(
            opt_f(&a, "tau") == 5.0 && opt_f(&a, "eta") == 0.1f32 as f64 && opt_f(&a, "mu") == 10.0,
            "defaults of {} are {:?}",
            a.kind(),
            a.state()
        );
    }
    c.nontrivial();
    Ok(())
}

pub fn c27() -> Prop {
    Prop {
        id: "C27",
        rule: "every built-in sampler made by constructor or builder methods with random parameters, the same made by setting options in random order and by a configuration string; option values, isolation of options and behaviour compared over two calls; non-trivial: a sampler with options",
        workloads: vec![
            Workload { name: "names", quick: 10, thorough: 10, f: c27_names, need: &[] },
            Workload {
                name: "equivalence",
                quick: 1_400_000,
                thorough: 56_000_000,
                f: c27_pair,
                need: &[
                    "topk", "topp", "minp", "topa", "tailfree", "loctyp", "temp", "rep", "freq", "seq", "bias", "greedy", "rand", "miro1", "miro2",
                ],
            },
        ],
    }
}

// ---------------------------------------------------------------- C35

/// The documented defaults, by kind.
fn documented(kind: usize) -> Vec<(&'static str, Val)> {
    let f = |x: f32| Val::F(x as f64);
    let u = |x: u64| Val::U(x);
    match kind {
        0 => vec![("k", u(40)), ("min_keep", u(1))],
        1 => vec![("p", f(0.9)), ("min_keep", u(1))],
        2 => vec![("p", f(0.05)), ("min_keep", u(1))],
        3 => vec![("a1", f(0.2)), ("a2", f(2.0)), ("min_keep", u(1))],
        4 => vec![("z", f(1.0)), ("min_keep", u(1))],
        5 => vec![("p", f(1.0)), ("min_keep", u(1))],
        6 => vec![("temperature", f(1.0))],
        7 => vec![("penalty", f(1.1)), ("last_n", u(64))],
        8 => vec![("frequency_penalty", f(0.0)), ("presence_penalty", f(0.0)), ("last_n", u(64))],
        9 => vec![
            ("flat_penalty", f(0.0)),
            ("stacking_penalty", f(0.0)),
            ("min_length", u(4)),
            ("tolerance", u(0)),
            ("max_merge", u(1)),
            ("last_n", u(64)),
        ],
        13 => vec![("tau", f(5.0)), ("eta", f(0.1)), ("mu", f(10.0)), ("m", u(100)), ("n_vocab", u(0))],
        14 => vec![("tau", f(5.0)), ("eta", f(0.1)), ("mu", f(10.0))],
        _ => vec![],
    }
}

/// The sampler made with every parameter given.
fn construct(kind: usize, v: &[(&'static str, Val)]) -> Any {
    let f = |k: &str| match v.iter().find(|x| x.0 == k) {
        Some((_, Val::F(x))) => *x as f32,
        _ => unreachable!(),
    };
    let u = |k: &str| match v.iter().find(|x| x.0 == k) {
        Some((_, Val::U(x))) => *x as usize,
        _ => unreachable!(),
    };
    match kind {
        0 => Any::TopK(SampleTopK::new(u("k"), u("min_keep"))),
        1 => Any::TopP(SampleTopP::new(f("p"), u("min_keep"))),
        2 => Any::MinP(SampleMinP::new(f("p"), u("min_keep"))),
        3 => Any::TopA(SampleTopA::new(f("a1"), f("a2"), u("min_keep"))),
        4 => Any::TailFree(SampleTailFree::new(f("z"), u("min_keep"))),
        5 => Any::LocTyp(SampleLocallyTypical::new(f("p"), u("min_keep"))),
        6 => Any::Temp(SampleTemperature::new(f("temperature"))),
        7 => Any::Rep(SampleRepetition::new(f("penalty"), u("last_n"))),
        8 => Any::Freq(SampleFreqPresence::new(f("frequency_penalty"), f("presence_penalty"), u("last_n"))),
        9 => Any::Seq(SampleSeqRepetition::new(
            f("flat_penalty"),
            f("stacking_penalty"),
            u("min_length"),
            u("tolerance"),
            u("max_merge"),
            u("last_n"),
        )),
        10 => Any::Bias(SampleFlatBias::new(Vec::<(u32, f32)>::new())),
        11 => Any::Greedy(SampleGreedy::new()),
        12 => Any::Rand(SampleRandDistrib::new()),
        13 => Any::Miro1(SampleMirostat1::new(u("n_vocab"), f("tau"), f("eta")).m(u("m")).mu(f("mu"))),
        _ => Any::Miro2(SampleMirostat2::new(f("tau"), f("eta")).mu(f("mu"))),
    }
}

/// One builder method.
fn adjust(a: Any, k: &str, v: &Val) -> Any {
    let (f, u) = match v {
        Val::F(x) => (*x as f32, 0),
        Val::U(x) => (0.0, *x as usize),
        _ => unreachable!(),
    };
    match (a, k) {
        (Any::TopK(s), "k") => Any::TopK(s.k(u)),
        (Any::TopK(s), _) => Any::TopK(s.min_keep(u)),
        (Any::TopP(s), "p") => Any::TopP(s.p(f)),
        (Any::TopP(s), _) => Any::TopP(s.min_keep(u)),
        (Any::MinP(s), "p") => Any::MinP(s.p(f)),
        (Any::MinP(s), _) => Any::MinP(s.min_keep(u)),
        (Any::TopA(s), "a1") => Any::TopA(s.a1(f)),
        (Any::TopA(s), "a2") => Any::TopA(s.a2(f)),
        (Any::TopA(s), _) => Any::TopA(s.min_keep(u)),
        (Any::TailFree(s), "z") => Any::TailFree(s.z(f)),
        (Any::TailFree(s), _) => Any::TailFree(s.min_keep(u)),
        (Any::LocTyp(s), "p") => Any::LocTyp(s.p(f)),
        (Any::LocTyp(s), _) => Any::LocTyp(s.min_keep(u)),
        (Any::Temp(s), _) => Any::Temp(s.temperature(f)),
        (Any::Rep(s), "penalty") => Any::Rep(s.penalty(f)),
        (Any::Rep(s), _) => Any::Rep(s.last_n(u)),
        (Any::Freq(s), "frequency_penalty") => Any::Freq(s.frequency(f)),
        (Any::Freq(s), "presence_penalty") => Any::Freq(s.presence(f)),
        (Any::Freq(s), _) => Any::Freq(s.last_n(u)),
        (Any::Seq(s), "flat_penalty") => Any::Seq(s.flat_penalty(f)),
        (Any::Seq(s), "stacking_penalty") => Any::Seq(s.stacking_penalty(f)),
        (Any::Seq(s), "min_length") => Any::Seq(s.min_length(u)),
        (Any::Seq(s), "tolerance") => Any::Seq(s.tolerance(u)),
        (Any::Seq(s), "max_merge") => Any::Seq(s.max_merge(u)),
        (Any::Seq(s), _) => Any::Seq(s.last_n(u)),
        (Any::Miro1(s), "tau") => Any::Miro1(s.tau(f)),
        (Any::Miro1(s), "eta") => Any::Miro1(s.eta(f)),
        (Any::Miro1(s), "mu") => Any::Miro1(s.mu(f)),
        (Any::Miro1(s), "m") => Any::Miro1(s.m(u)),
        (Any::Miro1(s), _) => Any::Miro1(s.n_vocab(u)),
        (Any::Miro2(s), "tau") => Any::Miro2(s.tau(f)),
        (Any::Miro2(s), "eta") => Any::Miro2(s.eta(f)),
        (Any::Miro2(s), _) => Any::Miro2(s.mu(f)),
        (a, _) => a,
    }
}

fn c35_partial(c: &mut Case) -> R {
    let r = &mut c.rng;
    // Lists, tails and histories that tell 1, 40, 64 and 100 from their neighbours.
    let n = if c.tiny { size1(r, 6) } else if r.chance(0.5) { r.range(35, 260) } else { size1(r, 120) };
    let v = values(r, n, MILD);
    let (l0, _) = prep(r, &v);
    let toks = if r.chance(0.5) { history(r, &l0, 24) } else { history(r, &l0, 160) };
    let kind = r.below(15);
    let (other, given) = pair(r, kind, n, toks.len());
    let set: Vec<(&'static str, Val)> = {
        let mut g: Vec<_> = given.iter().filter(|_| r.chance(0.5)).cloned().collect();
        if kind == 13 && g.iter().all(|x| x.0 != "n_vocab") && r.chance(0.8) {
            // Does nothing without it.
            g.push(given.iter().find(|x| x.0 == "n_vocab").unwrap().clone());
        }
        r.shuffle(&mut g);
        g
    };
    // What it should be.
    let mut want = documented(kind);
    for (k, v) in &set {
        for (wk, wv) in want.iter_mut() {
            if wk == k {
                *wv = v.clone();
            } else if *k == "tau" && *wk == "mu" {
                if let Val::F(t) = v {
                    *wv = Val::F((*t as f32 * 2.0) as f64);
                }
            }
        }
    }
    let reference = construct(kind, &want);
    let fresh = fresh_of(&other);
    if r.chance(0.3) {
        // Other instances set to something else in the meantime.
        let mut o = fresh_of(&other);
        for (k, v) in &given {
            let _ = o.cfg().set_option(k, lib_val(v));
        }
        let _ = o.run(&mut Res::new(Some(Stream::random(r)), Some(toks.clone())), &mut l0.clone());
    }
    let text = set
        .iter()
        .map(|(k, v)| match v {
            Val::U(x) => format!("{k}={x}"),
            Val::F(x) => format!("{k}={x}"),
            _ => unreachable!(),
        })
        .collect::<Vec<_>>()
        .join(":");
    let how = r.below(5);
    let at = |e: String| format!("{} with {set:?} set ({}): {e}", reference.kind(), ["methods", "options", "string", "single slot", "chain slot"][how]);
    let made: Result<Any, SamplerChain> = match how {
        0 => Ok(set.iter().fold(fresh, |a, (k, v)| adjust(a, k, v))),
        1 => {
            let mut a = fresh;
            for (k, v) in &set {
                a.cfg().set_option(k, lib_val(v)).map_err(|e| at(format!("setting {k}: {e}")))?;
            }
            Ok(a)
        }
        2 => {
            let mut a = fresh;
            a.cfg().configure(&text).map_err(|e| at(format!("configure({text:?}): {e}")))?;
            Ok(a)
        }
        _ => {
            let mut b = SamplerChainBuilder::<usize, f32>::default();
            let factory = move || fresh.buildable();
            b.push_slot(
                "s".into(),
                if how == 3 { SamplerSlot::new_single(factory, None::<SampleTopK>) } else { SamplerSlot::new_chain(factory, vec![]) },
            );
            if set.is_empty() && r.chance(0.7) {
                b[0].1.ensure_present();
            } else {
                b.configure("s", &text).map_err(|e| at(format!("configure({text:?}): {e}")))?;
            }
            Err(b.into_chain())
        }
    };
    c.see(reference.kind());
    c.see(["methods", "options", "string", "single slot", "chain slot"][how]);
    c.see_if(set.is_empty(), "nothing set");
    c.nontrivial_if(set.len() < given.len());
    c.fp(&[hash_logits(&l0), kind as u64, c.rng.clone().u64()]);
    c.desc(|| at(format!("on {}", show(&l0))));
    if let Ok(a) = &made {
        for (k, v) in &want {
            let got = a.cref().get_option(k).map_err(|e| at(format!("reading {k}: {e}")))?;
            ensure!(got == lib_val(v), "{}", at(format!("option {k} reads {got:?}, expected {v:?}")));
        }
    }
    let stream = Stream::random(&mut c.rng);
    let mut ra = Res::new(Some(stream.clone()), Some(toks.clone()));
    let mut rb = Res::new(Some(stream), Some(toks.clone()));
    let (mut made, mut reference) = (made, reference);
    let mut effect = false;
    for call in 0..2 {
        let (mut la, mut lb) = (l0.clone(), l0.clone());
        c.event();
        let got = match &mut made {
            Ok(a) => a.run(&mut ra, &mut la),
            Err(ch) => ch.sample_token(&mut ra, &mut la),
        };
        let want = reference.run(&mut rb, &mut lb);
        let at = |e: String| format!("call {call} of a {reference:?} with only {set:?} set (way {how}), {} history tokens, on {}: {e}", toks.len(), show(&l0));
        match (&want, &got) {
            (Ok(a), Ok(b)) => {
                ensure!(a == b, "{}", at(format!("reports {b:?}, expected {a:?}")));
                same_all(&lb, &la).map_err(|e| at(format!("expected / got: {e}")))?;
                effect |= same_all(&la, &l0).is_err() || b.is_some();
            }
            (Err(_), Err(_)) => {}
            (a, b) => return Err(at(format!("returned {b:?}, expected {a:?}"))),
        }
        if let Ok(a) = &made {
            let (x, y) = (a.state(), reference.state());
            ensure!(x == y, "{}", at(format!("ends as {x:?}, expected {y:?}")));
        }
    }
    c.see_if(effect, "with effect");
    Ok(())
}

pub fn c35() -> Prop {
    Prop {
        id: "C35",
        rule: "every built-in sampler with a random subset of its options set by builder methods, option access, a string, or through a builder slot, against one constructed with the documented default of every other option: readings, behaviour and state over two calls; lists of up to 260 entries, histories of up to 160 tokens; non-trivial: at least one option left unset",
        workloads: vec![Workload {
            name: "partial",
            quick: 900_000,
            thorough: 36_000_000,
            f: c35_partial,
            need: &["methods", "options", "string", "single slot", "chain slot", "nothing set", "with effect"],
        }],
    }
}

// ---------------------------------------------------------------- C36

/// Why something is refused.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Cause {
    Unknown,
    Ambiguous,
    Closed,
    /// The same, named in a string.
    Shut,
    BadType,
    Range,
    Malformed,
    Refused,
    FailedAfter,
}

type Why = (Cause, String, Option<&'static str>);

fn why_key(opts: &[Opt], key: &str) -> Result<usize, Why> {
    match find(opts, key) {
        Some(i) if opts[i].open => Ok(i),
        Some(i) => Err((Cause::Closed, key.to_string(), Some(opts[i].key))),
        None if opts.iter().any(|o| o.key.starts_with(key.trim())) => Err((Cause::Ambiguous, key.to_string(), None)),
        None => Err((Cause::Unknown, key.to_string(), None)),
    }
}

/// None: accepted, or more than one thing is wrong, or not modelled.
fn why_store(o: &Opt, key: &str, v: &Val, cv: Conv) -> Result<(), Option<Why>> {
    let y = |c: Cause| Some((c, key.to_string(), Some(o.key)));
    let bad = type_of(v) != o.ty;
    let v = if o.hook == 2 && !bad { hook_val(o.ty) } else { v.clone() };
    let range = matches!(v, Val::U(x) if x > cv.umax);
    if let Val::F(x) = v {
        if cv.f32 && x.is_finite() && x.abs() > f32::MAX as f64 {
            return Err(None);
        }
    }
    match (o.hook, bad, range) {
        (0 | 2, true, _) => Err(y(Cause::BadType)),
        (0 | 2, _, true) => Err(y(Cause::Range)),
        (1 | 3, true, _) | (1 | 3, _, true) => Err(None),
        (1, ..) => Err(y(Cause::Refused)),
        (3, ..) => Err(y(Cause::FailedAfter)),
        _ => Ok(()),
    }
}

fn why_set(opts: &[Opt], key: &str, v: &Val, cv: Conv) -> Option<Why> {
    match why_key(opts, key) {
        Err(w) => Some(w),
        Ok(i) => why_store(&opts[i], key, v, cv).err().flatten(),
    }
}

fn why_configure(opts: &[Opt], s: &str, cv: Conv) -> Option<Why> {
    for part in s.split(':').map(str::trim).filter(|p| !p.is_empty()) {
        let (k, v) = part.split_once('=').unwrap_or(("", part));
        let i = match why_key(opts, k) {
            Err((Cause::Closed, k, full)) => return Some((Cause::Shut, k, full)),
            Err(w) => return Some(w),
            Ok(i) => i,
        };
        let Some(v) = m_parse(opts[i].ty, v) else {
            return Some((Cause::Malformed, k.to_string(), Some(opts[i].key)));
        };
        if let Err(w) = why_store(&opts[i], k, &v, cv) {
            return w;
        }
    }
    None
}

/// Whether the error says so.
fn says(e: &anyhow::Error, why: &Why) -> R {
    use ConfigureSamplerError::*;
    let (cause, key, full) = why;
    let names = |k: &String| k.trim() == key.trim() || Some(k.as_str()) == *full || key.trim().is_empty();
    let got = e.downcast_ref::<ConfigureSamplerError>();
    let ok = match (cause, got) {
        (Cause::Unknown | Cause::BadType, Some(UnknownOrBadType(k))) => names(k),
        (Cause::Ambiguous, Some(AmbiguousKey(k))) => names(k),
        (Cause::Closed, Some(CannotAccessOptionValue(k))) => names(k),
        (Cause::Shut, Some(CannotAccessOptionValue(k) | UnknownOrBadType(k))) => names(k),
        (Cause::Range, Some(ConversionFailure(k))) => names(k),
        (Cause::Malformed, None) => !e.to_string().is_empty(),
        (Cause::Malformed, Some(AmbiguousKey(_) | CannotAccessOptionValue(_))) => false,
        (Cause::Malformed, Some(UnknownOrBadType(k) | ConversionFailure(k))) => names(k),
        (Cause::Refused, _) => matches!(e.downcast_ref::<SamplerError>(), Some(SamplerError::InternalError(m)) if m == "refused by the hook"),
        (Cause::FailedAfter, _) => {
            matches!(e.downcast_ref::<SamplerError>(), Some(SamplerError::InternalError(m)) if m == "failed in the hook after the change")
        }
        _ => false,
    };
    ensure!(ok, "the error is {got:?} ({e}), the cause is {cause:?} with key {key:?} (option {full:?})");
    // The text shows it too.
    if let (Some(g), false) = (got, key.trim().is_empty()) {
        let t = e.to_string();
        ensure!(
            t.contains(key.trim()) || full.is_some_and(|f| t.contains(f)),
            "the text {t:?} of {g:?} does not name the key {key:?}"
        );
    }
    Ok(())
}

const CAUSES: &[&str] = &["unknown key", "ambiguous key", "no access", "no access in a string", "wrong type", "out of range", "malformed", "refused by the hook", "failed after the change"];

fn c36_options<UI, F>(c: &mut Case, umax: u64, is32: bool) -> R
where
    UI: ConfigurableNumValue + std::fmt::Debug,
    F: ConfigurableNumValue + std::fmt::Debug,
{
    let cv = Conv { umax, f32: is32 };
    let r = &mut c.rng;
    let (opts, mut s) = custom::<UI, F>(r);
    let steps = r.range(1, 3);
    let mut seen = vec![];
    for _ in 0..steps {
        let r = &mut c.rng;
        let (what, why, got): (String, Option<Why>, Result<(), anyhow::Error>);
        match r.below(8) {
            0..=3 => {
                let t = config_text(r, &opts);
                why = why_configure(&opts, &t, cv);
                got = s.configure(&t);
                what = format!("configure({t:?})");
            }
            4..=6 => {
                let k = key_text(r, &opts);
                let k = if r.chance(0.1) { format!(" {k}\t") } else { k };
                let v = match r.below(5) {
                    0 => Val::F(0.25),
                    1 => Val::B(true),
                    2 => Val::S("text".into()),
                    _ => Val::U(*r.pick(&[3u64, 256, 70_000, 1 << 40, u64::MAX])),
                };
                why = why_set(&opts, &k, &v, cv);
                got = s.set_option(&k, lib_val(&v));
                what = format!("set_option({k:?}, {v:?})");
            }
            _ => {
                let k = key_text(r, &opts);
                why = why_key(&opts, &k).err();
                got = s.get_option(&k).map(|_| ());
                what = format!("get_option({k:?})");
            }
        }
        c.event();
        seen.push(what.clone());
        if let (Some(w), Err(e)) = (&why, &got) {
            c.see(CAUSES[w.0 as usize]);
            c.nontrivial();
            says(e, w).map_err(|e| format!("{what} with options {:?}: {e}", opts.iter().map(|o| (o.key, o.ty, o.open)).collect::<Vec<_>>()))?;
        }
    }
    c.fp(&[c.rng.clone().u64()]);
    c.desc(|| format!("{seen:?} with options {:?}", opts.iter().map(|o| (o.key, o.ty, o.open)).collect::<Vec<_>>()));
    Ok(())
}

fn c36_any(c: &mut Case) -> R {
    match c.rng.below(5) {
        0 => c36_options::<u8, f64>(c, u8::MAX as u64, false),
        1 => c36_options::<u16, f32>(c, u16::MAX as u64, true),
        2 => c36_options::<u32, f32>(c, u32::MAX as u64, true),
        3 => c36_options::<i32, f64>(c, i32::MAX as u64, false),
        _ => c36_options::<usize, f32>(c, u64::MAX, true),
    }
}

fn c36_builder(c: &mut Case) -> R {
    let r = &mut c.rng;
    let pool = ["a", "b", "temp", "temperature", "", " ", "a ", "A", "top-k", "\u{e9}", "x:y=z", "ab", "a\nb", "unknown slot", "{}"];
    let n = r.range(0, 5);
    let mut b = SamplerChainBuilder::<usize, f32>::default();
    let mut slots: Vec<(String, u8, Vec<Opt>)> = vec![];
    for _ in 0..n {
        let name = r.pick(&pool).to_string();
        let a = defaults(r);
        let opts = opts_of(&a)?;
        let how = r.below(4) as u8;
        let a2 = a.clone();
        b.push_slot(
            name.clone(),
            match how {
                0 => SamplerSlot::new_static(move || a.buildable()),
                1 => SamplerSlot::new_single(move || a.buildable(), None::<SampleTopK>),
                2 => {
                    let mut s = SamplerSlot::new_single(move || a.buildable(), None::<SampleTopK>);
                    s.ensure_present();
                    s
                }
                _ => SamplerSlot::new_chain(move || a.buildable(), if r.chance(0.5) { vec![a2.buildable()] } else { vec![] }),
            },
        );
        slots.push((name, how, opts));
    }
    let mut done = vec![];
    for _ in 0..r.range(1, 4) {
        let r = &mut c.rng;
        let name = if r.chance(0.25) || slots.is_empty() { r.pick(&pool).to_string() } else { slots[r.below(slots.len())].0.clone() };
        let slot = slots.iter().find(|s| s.0 == name);
        let text = config_text(r, slot.map(|s| &s.2[..]).unwrap_or(&[]));
        c.event();
        let got = b.configure(&name, &text);
        done.push((name.clone(), text.clone()));
        let at = |e: String| format!("configure({name:?}, {text:?}) with slots {:?}: {e}", slots.iter().map(|s| (&s.0, s.1)).collect::<Vec<_>>());
        let e = match got {
            Ok(()) => continue,
            Err(e) => e,
        };
        let Some(be) = e.downcast_ref::<BuildSamplersError>() else {
            // One that only the model of the sampler could judge is left to C23.
            return Err(at(format!("the error is not one of the builder's: {e}")));
        };
        let t = e.to_string();
        ensure!(t.contains(&name), "{}", at(format!("the text {t:?} does not name the slot")));
        match (slot, be) {
            (None, BuildSamplersError::UnknownSlot(n)) => {
                ensure!(*n == name, "{}", at(format!("the error names slot {n:?}")));
                c.see("unknown slot");
            }
            (Some((_, 0, _)), BuildSamplersError::CannotConfigureStatic(n)) => {
                ensure!(*n == name, "{}", at(format!("the error names slot {n:?}")));
                c.see("static slot");
            }
            (Some((_, 1.., opts)), BuildSamplersError::ConfigureFailed { name: n, err }) => {
                ensure!(*n == name, "{}", at(format!("the error names slot {n:?}")));
                if let Some(w) = why_configure(opts, &text, USIZE) {
                    says(err, &w).map_err(at)?;
                    c.see(CAUSES[w.0 as usize]);
                }
                ensure!(t.contains(&err.to_string()), "{}", at(format!("the text {t:?} does not show the cause {err}")));
                c.see("configuring failed");
            }
            _ => return Err(at(format!("the error is {be:?}"))),
        }
        c.nontrivial();
    }
    c.fp(&[c.rng.clone().u64()]);
    c.desc(|| format!("{done:?} with slots {:?}", slots.iter().map(|s| (&s.0, s.1)).collect::<Vec<_>>()));
    Ok(())
}

pub fn c36() -> Prop {
    Prop {
        id: "C36",
        rule: "options read and set by key and by string on samplers with random options of five number types, and slots configured by name; where exactly one thing is wrong the error must be of that kind and name the key, option or slot; non-trivial: an error was judged",
        workloads: vec![
            Workload { name: "options", quick: 2_000_000, thorough: 80_000_000, f: c36_any, need: CAUSES },
            Workload {
                name: "builder",
                quick: 1_200_000,
                thorough: 48_000_000,
                f: c36_builder,
                need: &["unknown slot", "static slot", "configuring failed", "unknown key", "ambiguous key", "malformed"],
            },
        ],
    }
}
