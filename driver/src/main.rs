mod exec;
mod gen;
mod model;
mod pure;
mod wire;

use exec::*;
use gen::*;

pub const PROPS: &[&str] = &[
    "C01", "C02", "C03", "C04", "S01", "S02", "S03", "S04", "A01", "A02", "A03", "M01", "R01", "R02", "R03", "D01",
    "W01", "W02", "P01", "P02", "K01", "G01", "E01",
];

fn shrink(script: &[Step], prop: &str, opts: &RunOpts) -> Vec<Step> {
    let hits = |s: &[Step]| run(s, opts).iter().any(|m| m.tags.contains(&prop));
    let mut cur = script.to_vec();
    let mut chunk = (cur.len() / 2).max(1);
    let t0 = std::time::Instant::now();
    while t0.elapsed().as_secs() < 15 {
        let mut i = 0;
        let mut any = false;
        while i < cur.len() && t0.elapsed().as_secs() < 15 {
            let mut t = cur.clone();
            t.drain(i..(i + chunk).min(cur.len()));
            if hits(&t) {
                cur = t;
                any = true;
            } else {
                i += chunk;
            }
        }
        if chunk == 1 && !any {
            break;
        }
        chunk = (chunk / 2).max(1);
    }
    cur
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned());
    let scratch = get("--scratch").map(std::path::PathBuf::from);
    if !args.iter().any(|a| a == "--loud") {
        std::panic::set_hook(Box::new(|_| ()));
    }
    if let Some(f) = get("--replay") {
        let text = std::fs::read_to_string(&f).expect("replay file");
        if let Some(l) = text.lines().find(|l| l.starts_with("pure ")) {
            let bad = pure::replay(&l[5..]);
            for b in &bad {
                println!("MISMATCH {}", b);
            }
            std::process::exit(if bad.is_empty() { 0 } else { 1 });
        }
        let script: Vec<Step> = text.lines().filter_map(Step::parse).collect();
        let bad = run(&script, &RunOpts { pcap_dir: scratch.clone() });
        for m in &bad {
            println!("MISMATCH step {} ({}) [{}] {}", m.step, script.get(m.step).map_or("end".into(), |s| s.to_line()), m.tags.join(","), m.text);
        }
        std::process::exit(if bad.is_empty() { 0 } else { 1 });
    }
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let budget: f64 = get("--seconds").and_then(|s| s.parse().ok()).unwrap_or(5.0);
    let prop = get("--property");
    let all = args.iter().any(|a| a == "--all");
    let t0 = std::time::Instant::now();
    let mut ran = 0usize;
    let mut steps = 0usize;
    let mut others = 0usize;
    let mut found: Vec<(Vec<Step>, Vec<Mismatch>)> = vec![];
    if let Some((line, text)) = pure::search(prop.as_deref(), seed) {
        println!("FOUND pure {}", line);
        println!("MISMATCH {}", text);
        if let Some(o) = get("--out") {
            std::fs::write(o, format!("pure {}\n// {}\n", line, text)).unwrap();
        }
        std::process::exit(1);
    }
    let mut rng = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) | 1);
    for _ in 0..8 {
        rng.next();
    }
    let dirs = directed();
    let nd = dirs.len();
    let mut it = dirs.into_iter();
    let max_random: usize = get("--random").and_then(|s| s.parse().ok()).unwrap_or(usize::MAX);
    let mut nr = 0;
    loop {
        let (script, is_dir) = match it.next() {
            Some(s) => (s, true),
            None => {
                if t0.elapsed().as_secs_f64() > budget || nr >= max_random {
                    break;
                }
                nr += 1;
                let n = 20 + rng.below(80);
                (random(&mut rng, n), false)
            }
        };
        let pcap = if prop.as_deref() == Some("G01") || prop.is_none() {
            scratch.as_ref().map(|s| {
                let d = s.join(format!("p{}", ran));
                std::fs::create_dir_all(&d).unwrap();
                d
            })
        } else {
            None
        };
        let opts = RunOpts { pcap_dir: pcap.clone() };
        let bad = run(&script, &opts);
        if let Some(d) = &pcap {
            let _ = std::fs::remove_dir_all(d);
        }
        ran += 1;
        steps += script.len();
        if bad.is_empty() {
            continue;
        }
        let hit = match &prop {
            Some(p) => bad.iter().any(|m| m.tags.contains(&p.as_str())),
            None => true,
        };
        if !hit {
            others += 1;
            continue;
        }
        if all {
            println!("--- script {} ({}) fails:", ran, if is_dir { "directed" } else { "random" });
            for m in bad.iter().take(3) {
                println!("  step {} ({}) [{}] {}", m.step, script.get(m.step).map_or("end".into(), |s| s.to_line()), m.tags.join(","), m.text);
            }
            found.push((script, bad));
            continue;
        }
        found.push((script, bad));
        break;
    }
    println!("scripts={} directed={} operations={} other_mismatches={} found={}", ran, nd, steps, others, found.len());
    if let Some((script, bad)) = found.first() {
        let p = prop.clone().unwrap_or_else(|| bad[0].tags[0].to_string());
        let pd = if p == "G01" { scratch.clone() } else { None };
        let opts = RunOpts { pcap_dir: pd };
        let small = if bad.iter().any(|m| m.tags.contains(&p.as_str())) { shrink(script, &p, &opts) } else { script.clone() };
        let b = run(&small, &opts);
        let b = if b.is_empty() { bad.clone() } else { b };
        let mut text = String::new();
        for s in &small {
            text += &(s.to_line() + "\n");
        }
        for m in b.iter().filter(|m| m.tags.contains(&p.as_str())).take(3) {
            let l = format!("step {} ({}) [{}] {}", m.step, small.get(m.step).map_or("end".into(), |s| s.to_line()), m.tags.join(","), m.text);
            println!("MISMATCH {}", l);
            text += &format!("// {}\n", l);
        }
        if let Some(o) = get("--out") {
            std::fs::write(o, text).unwrap();
        }
        std::process::exit(1);
    }
}
