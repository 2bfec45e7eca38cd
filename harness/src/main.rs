//! vmon: runtime monitors for llm-samplers. See ../../DESIGN.md.

mod alloc;
#[macro_use]
mod core;
mod gen;
mod model;
mod props;
mod rng;

use crate::core::*;
use std::io::{Read, Write};
use std::path::PathBuf;
use std::sync::OnceLock;
use std::time::Instant;

struct Ctx {
    id: &'static str,
    rule: &'static str,
    seed: u64,
    thorough: bool,
    t0: Instant,
    wl_names: Vec<&'static str>,
}

#[global_allocator]
static MEMORY: alloc::Counting = alloc::Counting;

static CTX: OnceLock<Ctx> = OnceLock::new();

fn evidence_dir() -> PathBuf {
    PathBuf::from(std::env::var("VMON_EVIDENCE").unwrap_or_else(|_| "evidence".into()))
}

fn env_seed() -> u64 {
    let s = std::env::var("VERIF_SEED").unwrap_or_else(|_| "1".into());
    s.trim().parse().unwrap_or_else(|_| rng::hash_str(&s))
}

fn env_thorough() -> bool {
    std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)
}

fn replay_path(id: &str) -> PathBuf {
    evidence_dir().join("replay").join(format!("{id}.txt"))
}

/// Evidence seeds are integers in the schema; keep what fits.
fn write_evidence(ctx: &Ctx, out: Option<&Outcome>, violations: u64, notes: &[String]) {
    let mut cov = String::new();
    let mut push = |k: &str, v: String| {
        if !cov.is_empty() {
            cov.push_str(",\n    ");
        }
        cov.push_str(&format!("{}: {}", jstr(k), v));
    };
    let empty = Stats::default();
    let st = out.map(|o| &o.stats).unwrap_or(&empty);
    push("evaluations", st.cases.to_string());
    push("distinct_nontrivial", st.fps.len().to_string());
    push("rule", jstr(ctx.rule));
    let mut samples: Vec<String> = st.samples.iter().take(12).map(|s| jstr(s)).collect();
    if samples.is_empty() {
        samples.push(jstr("(none recorded)"));
    }
    push("samples", format!("[{}]", samples.join(",\n      ")));
    push("calls_observed", st.events.to_string());
    push(
        "observed",
        format!(
            "{{{}}}",
            st.seen
                .iter()
                .map(|(k, v)| format!("{}: {}", jstr(k), v))
                .collect::<Vec<_>>()
                .join(", ")
        ),
    );
    if let Some(o) = out {
        push(
            "workloads",
            format!(
                "{{{}}}",
                o.per_wl
                    .iter()
                    .map(|(n, c, t)| format!("{}: {{\"cases\": {}, \"nontrivial\": {}}}", jstr(n), c, t))
                    .collect::<Vec<_>>()
                    .join(", ")
            ),
        );
        if o.capped {
            push("stopped_at_time_cap", "true".into());
        }
    }
    if let Ok(p) = std::env::var("VMON_EXTRA") {
        if let Ok(s) = std::fs::read_to_string(p) {
            if !s.trim().is_empty() {
                push("sanitizer_runs", s.trim().to_string());
            }
        }
    }
    if !notes.is_empty() {
        push(
            "notes",
            format!("[{}]", notes.iter().map(|n| jstr(n)).collect::<Vec<_>>().join(", ")),
        );
    }
    let text = format!(
        "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": \"exploration\",\n  \"coverage\": {{\n    {}\n  }},\n  \"wall_s\": {:.3},\n  \"violations\": {}\n}}\n",
        jstr(ctx.id),
        jstr(if ctx.thorough { "thorough" } else { "quick" }),
        ctx.seed,
        cov,
        ctx.t0.elapsed().as_secs_f64(),
        violations
    );
    let d = evidence_dir();
    let _ = std::fs::create_dir_all(&d);
    let tmp = d.join(format!(".{}.tmp", ctx.id));
    if std::fs::write(&tmp, text).is_ok() {
        let _ = std::fs::rename(&tmp, d.join(format!("{}.json", ctx.id)));
    }
}

fn violation(ctx: &Ctx, out: Option<&Outcome>, wl: &str, idx: u64, msg: &str) -> ! {
    violation_in(ctx, out, wl, idx, msg, "")
}

fn violation_in(ctx: &Ctx, out: Option<&Outcome>, wl: &str, idx: u64, msg: &str, head: &str) -> ! {
    let rp = replay_path(ctx.id);
    let _ = std::fs::create_dir_all(rp.parent().unwrap());
    let text = format!(
        "property {}\n{head}workload {}\nindex {}\nseed {}\ntier {}\nreplay: /verif/check.sh --replay {}\n\n{}\n",
        ctx.id,
        wl,
        idx,
        ctx.seed,
        if ctx.thorough { "thorough" } else { "quick" },
        rp.display(),
        msg
    );
    let _ = std::fs::write(&rp, text);
    let short: String = msg.chars().take(2000).collect();
    write_evidence(ctx, out, 1, &[format!("{wl}#{idx}: {}", short)]);
    println!("{wl}#{idx}: {short}");
    println!("VIOLATION property={} replay={}", ctx.id, rp.display());
    let _ = std::io::stdout().flush();
    std::process::exit(1)
}

/// Called by the watcher thread when a case cannot finish.
pub fn report_hang(wl: usize, _idx: u64, why: &str) {
    let ctx = CTX.get().unwrap();
    violation(ctx, None, ctx.wl_names[wl], _idx, &format!("no progress: {why}"))
}

fn make_ctx(prop: &Prop, seed: u64, thorough: bool) -> &'static Ctx {
    CTX.get_or_init(|| Ctx {
        id: prop.id,
        rule: prop.rule,
        seed,
        thorough,
        t0: Instant::now(),
        wl_names: prop.workloads.iter().map(|w| w.name).collect(),
    })
}

fn threads(id: &str) -> usize {
    // Cases of C21 bring threads of their own.
    let d = if id == "C21" { 3 } else { 8 };
    std::env::var("VMON_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(d)
}

fn scale() -> f64 {
    std::env::var("VMON_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0)
}

fn limit_memory() {
    #[cfg(not(miri))]
    if std::env::var("VMON_NOLIMIT").is_err() {
        // An allocation that cannot be reasonable fails (and aborts) here instead of exhausting the sandbox.
        let l = libc::rlimit { rlim_cur: 12 << 30, rlim_max: 12 << 30 };
        unsafe {
            libc::setrlimit(libc::RLIMIT_AS, &l);
        }
    }
}

fn child(id: &str, progress: Option<&str>) -> ! {
    let Some(prop) = props::get(id) else {
        eprintln!("unknown property {id}");
        std::process::exit(2)
    };
    let ctx = make_ctx(&prop, env_seed(), env_thorough());
    install_panic_hook();
    limit_memory();
    let only = std::env::var("VMON_ONLY").ok();
    let mut prop = prop;
    if let Some(o) = &only {
        prop.workloads.retain(|w| w.name == o);
    }
    let r = Runner {
        prop: &prop,
        seed: ctx.seed,
        thorough: ctx.thorough,
        threads: threads(id),
        soft_cap_s: std::env::var("VMON_CAP_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if ctx.thorough { 480.0 } else { 240.0 }),
        scale: scale(),
        progress_file: progress.map(|p| {
            std::fs::OpenOptions::new()
                .create(true)
                .write(true)
                .truncate(true)
                .open(p)
                .expect("progress file")
        }),
    };
    let out = r.run();
    for (n, c, t) in &out.per_wl {
        println!("  {n}: {c} cases, {t} non-trivial");
    }
    if let Some(v) = &out.violation {
        violation(ctx, Some(&out), v.wl, v.idx, &v.msg);
    }
    let mut missing = vec![];
    if scale() >= 1.0 && !out.capped {
        for w in &prop.workloads {
            for n in w.need {
                if out.stats.seen.get(n).copied().unwrap_or(0) == 0 {
                    missing.push(format!("{}: never observed '{}'", w.name, n));
                }
            }
        }
    }
    write_evidence(ctx, Some(&out), 0, &missing);
    println!(
        "{}: {} cases, {} distinct non-trivial, {} calls, {:.1} s",
        id,
        out.stats.cases,
        out.stats.fps.len(),
        out.stats.events,
        ctx.t0.elapsed().as_secs_f64()
    );
    if std::env::var("VMON_VERBOSE").is_ok() {
        for (k, v) in &out.stats.seen {
            println!("    {k}: {v}");
        }
    }
    for m in &missing {
        // Recorded in the evidence; whether the branch is reached is the code's business, not a verdict.
        println!("note: {m}");
    }
    if out.stats.nontrivial == 0 {
        println!("INCONCLUSIVE nothing was observed");
        std::process::exit(2);
    }
    std::process::exit(0)
}

fn run_single(id: &str, wl: &str, idx: u64, seed: u64, thorough: bool) -> R {
    let prop = props::get(id).ok_or("unknown property")?;
    let w = prop.workloads.iter().find(|w| w.name == wl).ok_or("unknown workload")?;
    let mut c = Case::new(case_seed(seed, prop.id, w.name, idx), thorough, cfg!(miri), true);
    run_one(w, &mut c)
}

fn supervisor(id: &str) -> ! {
    let Some(prop) = props::get(id) else {
        eprintln!("unknown property {id}");
        std::process::exit(2)
    };
    let ctx = make_ctx(&prop, env_seed(), env_thorough());
    let dir = evidence_dir();
    let _ = std::fs::create_dir_all(&dir);
    let prog = dir.join(format!(".{id}.{}.progress", std::process::id()));
    let exe = std::env::current_exe().expect("own path");
    let st = std::process::Command::new(&exe)
        .args(["child", id, prog.to_str().unwrap()])
        .status();
    let inflight = std::fs::read(&prog).unwrap_or_default();
    let _ = std::fs::remove_file(&prog);
    let st = match st {
        Ok(s) => s,
        Err(e) => {
            eprintln!("cannot run child: {e}");
            std::process::exit(2)
        }
    };
    if let Some(c) = st.code() {
        if c <= 2 {
            std::process::exit(c)
        }
    }
    println!("child ended abnormally: {st}");
    for ch in inflight.chunks_exact(16) {
        let wi = u64::from_le_bytes(ch[..8].try_into().unwrap());
        let idx = u64::from_le_bytes(ch[8..].try_into().unwrap());
        if wi == 0 {
            continue;
        }
        let wl = ctx.wl_names[wi as usize - 1];
        for _ in 0..if ctx.id == "C21" { 20 } else { 2 } {
            let mut cmd = std::process::Command::new(&exe);
            cmd.args(["one", id, wl, &idx.to_string(), &ctx.seed.to_string(), if ctx.thorough { "thorough" } else { "quick" }]);
            cmd.stderr(std::process::Stdio::piped()).stdout(std::process::Stdio::null());
            let Ok(mut ch) = cmd.spawn() else { continue };
            let mut err = String::new();
            if let Some(mut e) = ch.stderr.take() {
                let mut b = vec![];
                let _ = e.read_to_end(&mut b);
                err = String::from_utf8_lossy(&b).into_owned();
            }
            if let Ok(s2) = ch.wait() {
                if s2.code().map_or(true, |c| c > 2) {
                    let tail: String = err.chars().take(3000).collect();
                    violation(ctx, None, wl, idx, &format!("the process died ({s2}) inside this case:\n{tail}"));
                }
            }
        }
    }
    write_evidence(ctx, None, 0, &[format!("child ended abnormally ({st}) and no single case reproduces it")]);
    println!("INCONCLUSIVE child ended abnormally and no in-flight case reproduces it");
    std::process::exit(2)
}

fn main() {
    // anyhow would capture a backtrace for every error the library returns.
    std::env::set_var("RUST_BACKTRACE", "0");
    std::env::set_var("RUST_LIB_BACKTRACE", "0");
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    match arg(1) {
        "run" => supervisor(arg(2)),
        "child" => child(arg(2), a.get(3).map(|s| s.as_str())),
        "one" => {
            install_panic_hook();
            limit_memory();
            let seed = arg(5).parse().unwrap_or_else(|_| env_seed());
            let r = run_single(arg(2), arg(3), arg(4).parse().expect("index"), seed, arg(6) == "thorough");
            match r {
                Ok(()) => println!("held"),
                Err(e) => {
                    println!("violated: {e}");
                    std::process::exit(1)
                }
            }
        }
        // Sequential small run of chosen workloads in this thread: for Miri and other slow interpreters.
        "seq" => {
            install_panic_hook();
            let prop = props::get(arg(2)).expect("property");
            let n: u64 = arg(3).parse().expect("count");
            let first: u64 = arg(5).parse().unwrap_or(0);
            let mut cases = 0;
            for w in &prop.workloads {
                if !arg(4).is_empty() && !arg(4).split(',').any(|x| x == w.name) {
                    continue;
                }
                for idx in first..first + n {
                    println!("SEQ-CASE {} {}", w.name, idx);
                    let mut c = Case::new(case_seed(env_seed(), prop.id, w.name, idx), false, true, true);
                    if let Err(e) = run_one(w, &mut c) {
                        println!("{}#{}: {}", w.name, idx, e);
                        println!("SEQ-VIOLATION {} {}", w.name, idx);
                        std::process::exit(1);
                    }
                    cases += 1;
                }
            }
            println!("SEQ-OK cases={cases}");
        }
        // Report what an interpreter or sanitizer run of check.sh saw: ID MODE LOG WORKLOAD INDEX FLAGS.
        "fail" => {
            let prop = props::get(arg(2)).expect("property");
            let ctx = make_ctx(&prop, env_seed(), env_thorough());
            let log = std::fs::read_to_string(arg(4)).unwrap_or_default();
            let lines: Vec<&str> = log
                .lines()
                .filter(|l| !l.starts_with("SEQ-CASE") && !l.starts_with("SEQ-OK") && !l.starts_with("Trying seed") && !l.starts_with("warning"))
                .collect();
            let at = lines
                .iter()
                .position(|l| l.contains("Undefined Behavior") || l.contains("Sanitizer") || l.starts_with("error") || l.contains('#'))
                .unwrap_or(0);
            let msg = format!("{} reported:\n{}", arg(3), lines[at..].join("\n"));
            let msg: String = msg.chars().take(6000).collect();
            let head = if arg(3) == "miri" { format!("mode miri\nmiriflags {}\n", arg(7)) } else { format!("mode {}\n", arg(3)) };
            violation_in(ctx, None, arg(5), arg(6).parse().unwrap_or(0), &msg, &head)
        }
        "replay" => {
            let s = std::fs::read_to_string(arg(2)).expect("replay file");
            let get = |k: &str| {
                s.lines()
                    .find_map(|l| l.strip_prefix(&format!("{k} ")).map(|x| x.to_string()))
                    .unwrap_or_default()
            };
            install_panic_hook();
            let r = run_single(
                &get("property"),
                &get("workload"),
                get("index").parse().expect("index"),
                get("seed").parse().expect("seed"),
                get("tier") == "thorough",
            );
            println!("{r:?}");
            std::process::exit(r.is_err() as i32)
        }
        "list" => {
            for id in props::IDS {
                let p = props::get(id).unwrap();
                println!("{id}: {}", p.workloads.iter().map(|w| w.name).collect::<Vec<_>>().join(" "));
            }
        }
        _ => {
            eprintln!("usage: vmon run ID | child ID [PROGRESS] | one ID WORKLOAD INDEX [SEED [TIER]] | seq ID N [WORKLOADS [FIRST]] | replay FILE | list");
            std::process::exit(2)
        }
    }
}
