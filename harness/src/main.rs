mod alloc;
mod cfgm;
mod ext;
mod frame;
mod gen;
mod harvest;
mod layout;
mod misc;
mod nest;
mod more;
mod operands;
mod read;
mod rng;
mod spec;
mod spec_gen;

use frame::*;
use std::io::{Read, Write};
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn families(prop: &str) -> &'static [Family] {
    match prop {
        "C01" => read::C01,
        "C02" => read::C02,
        "C03" => read::C03,
        "C04" => read::C04,
        "C05" => read::C05,
        "C06" => read::C06,
        "C07" => layout::C07,
        "C08" => layout::C08,
        "C09" => cfgm::C09,
        "C10" => cfgm::C10,
        "C11" => misc::C11,
        "C13" => misc::C13,
        "C14" => misc::C14,
        "C15" => misc::C15,
        "C12" => cfgm::C12,
        "C16" => cfgm::C16,
        "C17" => operands::C17,
        "C18" => more::C18,
        "C19" => more::C19,
        "C20" => more::C20,
        _ => panic!("no such property {}", prop),
    }
}

static CASE_CPU: AtomicU64 = AtomicU64::new(u64::MAX);
static STOP: AtomicBool = AtomicBool::new(false);
/// CPU ticks (10 ms) this process has used
fn cpu_ticks() -> u64 {
    let mut s = [0u8; 1024];
    let n = std::fs::File::open("/proc/self/stat").and_then(|mut f| f.read(&mut s)).unwrap_or(0);
    let t = String::from_utf8_lossy(&s[..n]).to_string();
    let rest = t.rsplit(") ").next().unwrap_or("");
    let f: Vec<&str> = rest.split(' ').collect();
    let p = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    p(11) + p(12)
}

fn opt(args: &[String], k: &str) -> Option<String> {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned())
}
fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r")
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).map(|s| s.as_str()).unwrap_or("");
    match cmd {
        "harvest" => {
            print!("{}", harvest::dump());
            return;
        }
        "hot" => {
            let d = harvest::dict();
            println!("{:?} {:?} {:?}", d.hot_nums, d.hot_counts, d.hot_strings);
            return;
        }
        "ping" => {
            println!("pong");
            return;
        }
        "fp" => {
            misc::fp(&args);
            return;
        }
        "run" | "one" => {}
        _ => {
            eprintln!("usage: mf run|one --prop ID --seed N --tier T [--shard I/N --out PATH | --family F --idx I]");
            std::process::exit(2);
        }
    }
    install_hook();
    // the oracle's own recursion must not be the limit
    let code = std::thread::Builder::new().stack_size(if cfg!(miri) { 64 << 20 } else { 1 << 30 }).spawn(move || go(&args)).unwrap().join().unwrap_or(2);
    std::process::exit(code);
}

fn go(args: &[String]) -> i32 {
    let prop = opt(args, "--prop").expect("--prop");
    let seed: u64 = opt(args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = if opt(args, "--tier").as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick };
    let limit: u64 = opt(args, "--cpu-limit").and_then(|s| s.parse().ok()).unwrap_or(60);
    let fams = families(&prop);
    let mut ctx = Ctx::new(seed, tier);
    if !cfg!(miri) {
        let (mut last, mut idle) = (0, 0);
        std::thread::spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let s = CASE_CPU.load(Relaxed);
            // nothing at all happens: everyone waits for someone else
            let now = cpu_ticks();
            idle = if s != u64::MAX && now <= last + 1 { idle + 1 } else { 0 };
            if now > last + 1 {
                last = now;
            }
            if idle > 80 {
                eprintln!("HANG: one case made no progress for {} s", idle / 2);
                std::process::exit(97);
            }
            if s != u64::MAX && cpu_ticks().saturating_sub(s) > limit * 100 {
                eprintln!("HANG: one case used more than {} s of CPU", limit);
                std::process::exit(97);
            }
        });
    }
    if args[1] == "one" {
        let name = opt(args, "--family").expect("--family");
        let idx: u64 = opt(args, "--idx").and_then(|s| s.parse().ok()).expect("--idx");
        let f = fams.iter().find(|f| f.name == name).expect("no such family");
        ctx.verbose = true;
        ctx.start(f.name, idx);
        CASE_CPU.store(cpu_ticks(), Relaxed);
        let r = catch(|| (f.run)(&mut ctx)).unwrap_or_else(Err);
        return match r {
            Ok(()) => {
                println!("held ({} evaluations)", ctx.evals);
                for k in &ctx.known {
                    println!("known {}", k);
                }
                0
            }
            Err(e) => {
                println!("violated: {}", e);
                if e.contains("harness:") {
                    2
                } else {
                    1
                }
            }
        };
    }
    let shard = opt(args, "--shard").unwrap_or("0/1".into());
    let (si, sn) = shard.split_once('/').unwrap();
    let (si, sn): (u64, u64) = (si.parse().unwrap(), sn.parse().unwrap());
    let out = opt(args, "--out").expect("--out");
    let only = opt(args, "--only");
    let max: u64 = opt(args, "--max").and_then(|s| s.parse().ok()).unwrap_or(u64::MAX);
    // one in so many of the cases of each large family
    let frac: u64 = opt(args, "--frac").and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut f_out = std::io::BufWriter::new(std::fs::File::create(format!("{}.txt", out)).unwrap());
    let cur = if cfg!(miri) { None } else { Some(std::fs::File::create(format!("{}.cur", out)).unwrap()) };
    let wall: u64 = opt(args, "--wall").and_then(|s| s.parse().ok()).unwrap_or(u64::MAX);
    let begin = std::time::Instant::now();
    let mut bad = 0;
    'all: for f in fams {
        if only.as_deref().map_or(false, |o| !o.split(',').any(|x| x == f.name)) {
            continue;
        }
        let n = if tier == Tier::Quick { f.quick } else { f.thorough }.min(max);
        let n = if frac > 1 && n > 400 { (n / frac).max(400) } else { n };
        let t0 = std::time::Instant::now();
        let e0 = ctx.evals;
        let mut idx = si;
        while idx < n {
            if begin.elapsed().as_secs() >= wall {
                ctx.count("shards that ran out of time", 1);
                break 'all;
            }
            if let Some(c) = &cur {
                let _ = c.write_all_at(format!("{:40} {:20}", f.name, idx).as_bytes(), 0);
            }
            ctx.start(f.name, idx);
            if !cfg!(miri) {
                CASE_CPU.store(cpu_ticks(), Relaxed);
            }
            let r = catch(|| (f.run)(&mut ctx)).unwrap_or_else(Err);
            CASE_CPU.store(u64::MAX, Relaxed);
            if let Err(e) = r {
                writeln!(f_out, "violation {} {} {}", f.name, idx, esc(&e)).unwrap();
                bad += 1;
                if bad >= 3 {
                    STOP.store(true, Relaxed);
                    break 'all;
                }
            }
            idx += sn;
        }
        ctx.count(&format!("evaluations.{}", f.name), ctx.evals - e0);
        ctx.count(&format!("ms.{}", f.name), t0.elapsed().as_millis() as u64);
    }
    writeln!(f_out, "evals {}", ctx.evals).unwrap();
    for (k, v) in &ctx.counters {
        writeln!(f_out, "count {} {}", k.replace(' ', "_"), v).unwrap();
    }
    for s in &ctx.samples {
        writeln!(f_out, "sample {}", esc(s)).unwrap();
    }
    for s in &ctx.known {
        writeln!(f_out, "known {}", esc(s)).unwrap();
    }
    let mut v = Vec::with_capacity(ctx.distinct.len() * 8);
    for d in &ctx.distinct {
        v.extend_from_slice(&d.to_le_bytes());
    }
    std::fs::write(format!("{}.bin", out), v).unwrap();
    writeln!(f_out, "done").unwrap();
    f_out.flush().unwrap();
    if bad > 0 {
        1
    } else {
        0
    }
}
