mod arith;
mod ffi;
mod fmt;
mod gen;
mod hard;
mod jobs;
mod conf;
mod laws;
mod misc;
mod ops;
mod oracle;
mod parse;
mod report;
mod rng;

use report::*;
use std::io::Write;
use std::sync::Arc;
use std::time::Instant;

fn streams(prop: &str) -> Option<(Vec<Stream>, &'static str)> {
    arith::streams(prop).or_else(|| parse::streams(prop)).or_else(|| fmt::streams(prop)).or_else(|| misc::streams(prop)).or_else(|| laws::streams(prop)).or_else(|| conf::streams(prop))
}
/// Multiplies the streams' quick counts, so that a quick check takes about half a minute.
fn quick_factor(prop: &str) -> f64 {
    match prop {
        "C14" | "C15" | "C16" | "C26" | "C27" | "C28" => 1.0,
        "C17" | "C18" | "C19" => 2.0,
        "C20" | "C25" | "C29" => 3.0,
        "C07" | "C08" | "C11" => 4.0,
        _ => 6.0,
    }
}
/// Re-judge one recorded case. Ok(()) if it holds now.
pub fn replay_line(l: &mut Local, prop: &str, line: &str) {
    if let Some(c) = ops::Case::parse(line) {
        l.judge(&c);
        return;
    }
    if parse::replay(l, line) || fmt::replay(l, line) || misc::replay(l, line) || laws::replay(l, line) || conf::replay(l, line) {
        return;
    }
    let _ = prop;
    eprintln!("cannot replay: {line}");
    std::process::exit(2);
}
fn main() {
    install_hook();
    install_signals();
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let cmd = args.get(1).map(|s| s.as_str()).unwrap_or("");
    let known: Vec<String> = get("--known")
        .map(|p| {
            std::fs::read_to_string(p).unwrap_or_default().lines().filter_map(known_sig).collect()
        })
        .unwrap_or_default();
    let known = Arc::new(known);
    match cmd {
        "check" => {
            let prop = args[2].clone();
            let Some((ss, rule)) = streams(&prop) else {
                eprintln!("unknown property {prop}");
                std::process::exit(2);
            };
            let tier = if get("--tier").as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick };
            let cfg = Cfg {
                prop: prop.clone(),
                tier,
                seed: get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
                known,
                cap_s: get("--cap").and_then(|s| s.parse().ok()).unwrap_or(600.0),
                only: get("--stream"),
                scale: get("--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0) * if tier == Tier::Quick { quick_factor(&prop) } else { 1.0 },
                panics_only: prop == "C26",
            };
            let t0 = Instant::now();
            let t = run(&cfg, &ss);
            let out = get("--out").unwrap_or_else(|| "-".into());
            let viol = t
                .viol
                .iter()
                .map(|v| {
                    format!("{{\"sig\":{},\"detail\":{},\"stream\":{}}}", jstr(&v.sig), jstr(&v.detail), jstr(v.stream))
                })
                .collect::<Vec<_>>()
                .join(",");
            let j = format!(
                "{{\"coverage\":{},\"wall_s\":{:.2},\"n_violations\":{},\"violations\":[{}],\"known_hit\":{{{}}}}}\n",
                coverage_json(&t, rule),
                t0.elapsed().as_secs_f64(),
                t.nviol,
                viol,
                t.known_hit.iter().map(|(k, v)| format!("{}:{v}", jstr(k))).collect::<Vec<_>>().join(",")
            );
            if out == "-" {
                let _ = std::io::stdout().write_all(j.as_bytes());
            } else {
                std::fs::write(out, j).unwrap();
            }
            // abandoned (hung) threads must not keep the process alive
            std::process::exit(if t.nviol > 0 { 1 } else { 0 });
        }
        "digest" | "jobs" | "hammer" | "cold" => conf::main(cmd, &args),
        "replay" => {
            let prop = args[2].clone();
            let mut l = Local::new(1, 1, Tier::Quick, known);
            l.panics_only = prop == "C26";
            watch_me(&l.watch);
            for line in std::fs::read_to_string(&args[3]).unwrap().lines() {
                if line.is_empty() || line.starts_with('#') {
                    continue;
                }
                replay_line(&mut l, &prop, line);
            }
            for v in &l.viol {
                println!("{}: {}", v.sig, v.detail);
            }
            std::process::exit((l.nviol > 0) as i32);
        }
        _ => {
            eprintln!("usage: f256mon check PROP [--tier T] [--seed N] | replay PROP FILE");
            std::process::exit(2);
        }
    }
}
/// The "sig" field of a known-finding line.
fn known_sig(l: &str) -> Option<String> {
    let i = l.find("\"sig\":")? + 6;
    let s = l[i..].trim_start().strip_prefix('"')?;
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        match c {
            '"' => return Some(o),
            '\\' => match it.next()? {
                'n' => o.push('\n'),
                't' => o.push('\t'),
                'r' => o.push('\r'),
                'u' => {
                    let h: String = it.by_ref().take(4).collect();
                    o.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
                }
                c => o.push(c),
            },
            c => o.push(c),
        }
    }
    None
}
