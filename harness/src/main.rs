//! Monitored workloads for geo-crossings: `gcmon worker <prop> ...` runs a
//! range of cases of one property and reports what its monitors saw.
#![allow(clippy::all)]
mod bops;
mod cost;
mod ctx;
mod drive;
mod exact;
mod genseg;
mod inv;
mod iso;
mod lp;
mod mem;
mod mono;
mod poly;
mod rng;
mod scan;
mod segs;
mod splay;
mod wf;
mod work;

use ctx::*;
use rng::Rng;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Instant;

pub type CaseFn = fn(&mut Ctx, &mut Rng, u64) -> Verdict;

fn prop_fn(p: &str) -> Option<CaseFn> {
    Some(match p {
        "C01" => segs::c01,
        "C02" => segs::c02,
        "C03" => segs::c03,
        "C04" => inv::c04,
        "C05" => bops::c05,
        "C06" => bops::c06,
        "C07" => bops::c07,
        "C08" => mono::c08,
        "C09" => mono::c09,
        "C10" => mono::c10,
        "C11" => scan::c11,
        "C12" => scan::c12,
        "C13" => splay::c13,
        "C14" => splay::c14,
        "C15" => splay::c15,
        "C16" => lp::c16,
        "C17" => mem::c17,
        "C18" => cost::c18,
        "C19" => iso::c19,
        "C20" => work::c20,
        _ => return None,
    })
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn run_one(f: CaseFn, ctx: &mut Ctx, seed: u64, prop: &str, case: u64) -> Result<Verdict, String> {
    ctx.begin();
    let mut rng = Rng::for_case(seed, prop, case);
    set_case(if matches!(prop, "C17" | "C19") { u64::MAX } else { case });
    // some cases run with a logger listening, except where work is counted
    let listen = case % 32 == 11 && !matches!(prop, "C15" | "C18" | "C20");
    logging(listen);
    let r = catch_unwind(AssertUnwindSafe(|| f(ctx, &mut rng, case))).map_err(panic_text);
    logging(false);
    let (n, b) = logged();
    if n > 0 {
        ctx.add("log_records_rendered", n);
        ctx.add("log_bytes_rendered", b);
    }
    r
}

fn main() {
    install_hook();
    install_logger();
    let args: Vec<String> = std::env::args().collect();
    let opt = |k: &str, d: &str| -> String {
        args.iter().position(|a| a == k).map(|i| args[i + 1].clone()).unwrap_or_else(|| d.to_string())
    };
    let prop = args.get(1).cloned().unwrap_or_default();
    let f = match prop_fn(&prop) {
        Some(f) => f,
        None => {
            eprintln!("unknown property {prop:?}");
            std::process::exit(2);
        }
    };
    let seed: u64 = opt("--seed", "1").parse().unwrap();
    let from: u64 = opt("--from", "0").parse().unwrap();
    let step: u64 = opt("--step", "1").parse().unwrap();
    let to: u64 = opt("--to", "100").parse().unwrap();
    let secs: f64 = opt("--secs", "1e9").parse().unwrap();
    let outp = opt("--out", "");
    let progp = opt("--progress", "");
    let hashp = opt("--hashes", "");
    let text = args.iter().any(|a| a == "--progress-text");
    let only = args.iter().any(|a| a == "--only");

    let small = args.iter().any(|a| a == "--small");
    let mut ctx = Ctx { small, thorough: args.iter().any(|a| a == "--thorough"), ..Default::default() };
    let prog = (!progp.is_empty()).then(|| std::fs::File::create(&progp).unwrap());
    let t0 = Instant::now();
    let (mut evals, mut nontriv) = (0u64, 0u64);
    let mut hashes: Vec<u64> = vec![];
    let mut viol: Vec<String> = vec![];
    let mut nviol = 0u64;
    let mut samples: Vec<String> = vec![];
    let mut harness_err: Option<String> = None;
    let mut case = from;
    while case < to {
        if let Some(p) = &prog {
            if text {
                writeln!(&*p, "{case}").unwrap();
            } else {
                p.write_all_at(&case.to_le_bytes(), 0).unwrap();
            }
        }
        ctx.record = only;
        let r = match run_one(f, &mut ctx, seed, &prop, case) {
            Ok(v) => v,
            Err(e) => {
                harness_err = Some(format!("case {case}: {e}"));
                break;
            }
        };
        evals += 1;
        if ctx.nontrivial {
            nontriv += 1;
            hashes.push(ctx.hash);
        }
        let nt = ctx.nontrivial;
        if only {
            println!("input: {}", ctx.input);
            println!("verdict: {r:?}");
        }
        if let Err(msg) = r {
            nviol += 1;
            if viol.len() < 3 {
                // replay with recording, on a scratch context
                let mut c2 = Ctx { record: true, small, thorough: ctx.thorough, ..Default::default() };
                let _ = run_one(f, &mut c2, seed, &prop, case);
                viol.push(format!(
                    "{{\"case\":{case},\"what\":{},\"input\":{}}}",
                    js(&msg),
                    js(&c2.input)
                ));
            }
            if nviol >= 50 {
                break;
            }
        } else if nt && samples.len() < 2 && (evals % 7 == 3 || to - from < 20) {
            let mut c2 = Ctx { record: true, small, thorough: ctx.thorough, ..Default::default() };
            let _ = run_one(f, &mut c2, seed, &prop, case);
            let s: String = c2.input.chars().take(1500).collect();
            samples.push(format!("{{\"case\":{case},\"input\":{}}}", js(&s)));
        }
        case += step;
        if t0.elapsed().as_secs_f64() > secs {
            break;
        }
    }
    if !hashp.is_empty() {
        let mut b = Vec::with_capacity(hashes.len() * 8);
        for h in &hashes {
            b.extend_from_slice(&h.to_le_bytes());
        }
        std::fs::write(&hashp, b).unwrap();
    }
    let cnt: Vec<String> = ctx.counters.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect();
    let kn: Vec<String> = ctx
        .known
        .iter()
        .map(|(k, v)| format!("{}:{{\"count\":{},\"example\":{}}}", js(k), v.0, js(&v.1)))
        .collect();
    let out = format!(
        "{{\"evaluations\":{evals},\"nontrivial\":{nontriv},\"next\":{case},\"counters\":{{{}}},\"known\":{{{}}},\"samples\":[{}],\"violations\":[{}],\"nviol\":{nviol},\"harness_error\":{},\"secs\":{:.3}}}\n",
        cnt.join(","),
        kn.join(","),
        samples.join(","),
        viol.join(","),
        harness_err.as_deref().map(js).unwrap_or("null".into()),
        t0.elapsed().as_secs_f64()
    );
    if outp.is_empty() {
        let s: String = out.chars().take(6000).collect();
        print!("{s}");
    } else {
        std::fs::File::create(&outp).unwrap().write_all(out.as_bytes()).unwrap();
    }
    std::process::exit(if harness_err.is_some() { 2 } else { 0 });
}
