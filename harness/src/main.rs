//! Check driver: `vh <property> [--variant v] [--part p --case n] [--tier t] [--seed n]`.
mod adapt;
mod alloc20;
mod codec;
mod conn;
mod connchecks;
mod drive;
mod gen;
mod model;
mod pair;
mod prng;
mod refcodec;
mod report;
mod special;

use report::*;
use std::collections::BTreeMap;
use std::time::{Duration, Instant};

#[global_allocator]
static A: Counting = Counting;

pub struct Check {
    pub id: &'static str,
    pub rule: &'static str,
    pub run: fn(&mut Ctx),
}

fn checks() -> Vec<Check> {
    let mut v = vec![];
    v.extend(codec::checks());
    v.extend(alloc20::checks());
    v.extend(connchecks::checks());
    v
}

fn load_known(dir: &str, id: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    let s = match std::fs::read_to_string(format!("{dir}/known-findings.txt")) {
        Ok(s) => s,
        Err(_) => return v,
    };
    for l in s.lines() {
        // finding: property=C00 class=<class> <what fails>
        if let Some(rest) = l.strip_prefix("finding: ") {
            let mut it = rest.splitn(3, ' ');
            let p = it.next().unwrap_or("").strip_prefix("property=").unwrap_or("");
            let c = it.next().unwrap_or("").strip_prefix("class=").unwrap_or("");
            let t = it.next().unwrap_or("");
            if p == id {
                v.push((c.to_string(), t.to_string()));
            }
        }
    }
    v
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let mut id = String::new();
    let mut tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let mut seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut variant = "default".to_string();
    let mut part = None;
    let mut case = None;
    let mut out = ".".to_string();
    let mut threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
    let mut i = 0;
    while i < args.len() {
        let nxt = |i: &mut usize| {
            *i += 1;
            args.get(*i).cloned().unwrap_or_default()
        };
        match args[i].as_str() {
            "--tier" => tier = nxt(&mut i),
            "--seed" => seed = nxt(&mut i).parse().unwrap_or(1),
            "--variant" => variant = nxt(&mut i),
            "--part" => part = Some(nxt(&mut i)),
            "--case" => case = nxt(&mut i).parse::<u64>().ok(),
            "--out" => out = nxt(&mut i),
            "--threads" => threads = nxt(&mut i).parse().unwrap_or(threads),
            s if id.is_empty() => id = s.to_string(),
            s => {
                eprintln!("unknown argument {s}");
                std::process::exit(2);
            }
        }
        i += 1;
    }
    if tier != "thorough" {
        tier = "quick".into();
    }
    install_hook();
    let all = checks();
    let chk = match all.iter().find(|c| c.id == id) {
        Some(c) => c,
        None => {
            eprintln!("no check {id}");
            std::process::exit(2);
        }
    };
    let secs = std::env::var("VH_BUDGET_S").ok().and_then(|s| s.parse().ok()).unwrap_or(
        match (tier.as_str(), variant.as_str()) {
            ("quick", _) => 240u64,
            (_, "default") => 420,
            _ => 90,
        },
    );
    let mut ctx = Ctx {
        id: id.clone(),
        tier: tier.clone(),
        seed,
        threads: threads.min(MAX_THREADS),
        budget: Duration::from_secs(secs),
        start: Instant::now(),
        stats: Stats::default(),
        viols: vec![],
        known: load_known(&out, &id),
        known_hits: BTreeMap::new(),
        harness_errors: vec![],
        only: match (part, case) {
            (Some(p), Some(c)) => Some((p, c)),
            _ => None,
        },
        out: out.clone(),
        variant: variant.clone(),
        truncated: false,
    };
    (chk.run)(&mut ctx);
    let wall = ctx.start.elapsed().as_secs_f64();

    // evidence
    let st = &ctx.stats;
    let counts: Vec<String> =
        st.counts.iter().map(|(k, v)| format!("      {}: {}", esc(k), v)).collect();
    let samples: Vec<String> = st.samples.iter().map(|s| format!("      {}", esc(s))).collect();
    let body = format!(
        "{{\n    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n    \"rule\": {},\n    \"samples\": [\n{}\n    ],\n    \"time_budget_reached\": {},\n    \"observed\": {{\n{}\n    }}",
        st.cases,
        st.distinct.len(),
        esc(chk.rule),
        samples.join(",\n"),
        ctx.truncated,
        counts.join(",\n"),
    );
    let _ = std::fs::create_dir_all(format!("{out}/evidence"));
    if ctx.only.is_none() {
        if variant == "default" {
            let mut extra = String::new();
            if let Ok(rd) = std::fs::read_dir(format!("{out}/evidence")) {
                let mut ps: Vec<_> = rd.flatten().map(|e| e.path()).collect();
                ps.sort();
                for p in ps {
                    let n = p.file_name().unwrap().to_string_lossy().to_string();
                    if let Some(v) = n.strip_prefix(&format!("{id}.")).and_then(|x| x.strip_suffix(".part")) {
                        if let Ok(s) = std::fs::read_to_string(&p) {
                            extra.push_str(&format!(",\n    {}: {}", esc(&format!("variant_{v}")), s));
                        }
                        let _ = std::fs::remove_file(&p);
                    }
                }
            }
            let ev = format!(
                "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": \"exploration\",\n  \"coverage\": {}{}\n  }},\n  \"assumptions\": [\"single-threaded use of each object, as the Sans-I/O API requires\"],\n  \"wall_s\": {:.3},\n  \"violations\": {}\n}}\n",
                esc(&id), esc(&tier), seed, body, extra, wall, ctx.viols.len()
            );
            if let Err(e) = std::fs::write(format!("{out}/evidence/{id}.json"), ev) {
                eprintln!("cannot write evidence: {e}");
                std::process::exit(2);
            }
        } else {
            let _ = std::fs::write(format!("{out}/evidence/{id}.{variant}.part"), format!("{body}\n    }}"));
        }
    }
    for (c, n) in &ctx.known_hits {
        let t = ctx.known.iter().find(|(k, _)| k == c).map(|x| x.1.clone()).unwrap_or_default();
        println!("KNOWN-FINDING: property={id} {t} [seen {n}x]");
    }
    println!(
        "{id} [{variant}/{tier}/seed {seed}] cases={} distinct={} wall={:.1}s{}",
        st.cases,
        st.distinct.len(),
        wall,
        if ctx.truncated { " (time budget reached)" } else { "" }
    );
    if std::env::var("VH_VERBOSE").is_ok() {
        for (k, v) in &st.counts {
            println!("   {k}: {v}");
        }
        for s in &st.samples {
            println!("   sample: {s}");
        }
    }
    if let Some((p, c, v)) = ctx.viols.first() {
        let path = write_replay(&out, &id, &variant, &tier, seed, p, *c, v);
        println!("VIOLATION property={id} replay={path}");
        println!("  {}", v.what);
        for t in v.trace.iter().rev().take(60).rev() {
            println!("  | {t}");
        }
        std::process::exit(1);
    }
    if !ctx.harness_errors.is_empty() {
        for e in ctx.harness_errors.iter().take(3) {
            println!("HARNESS-ERROR {e}");
        }
        std::process::exit(2);
    }
    std::process::exit(0);
}
