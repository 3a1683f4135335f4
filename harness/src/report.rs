//! Turns what a monitor observed into a verdict, an evidence file and replay files.
use crate::checks::{self, Ctx};
use std::fmt::Write as _;
use std::time::Instant;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn known(id: &str) -> Vec<(String, String)> {
    // lines: known: property=<id> sig=<signature> <what fails>
    let f = std::fs::read_to_string(std::env::var("LSMON_KNOWN").unwrap_or("KNOWN_FINDINGS".into())).unwrap_or_default();
    f.lines()
        .filter_map(|l| l.strip_prefix("known: "))
        .filter_map(|l| {
            let l = l.strip_prefix(&format!("property={id} "))?;
            let l = l.strip_prefix("sig=")?;
            let (s, d) = l.split_once(' ')?;
            Some((s.to_string(), d.to_string()))
        })
        .collect()
}

pub fn main(args: &[String]) -> ! {
    let id = args.first().cloned().unwrap_or_default();
    let mut seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let mut only = None;
    let mut it = args[1..].iter();
    while let Some(a) = it.next() {
        match a.as_str() {
            "--seed" => seed = it.next().unwrap().parse().unwrap(),
            "--thorough" => thorough = true,
            "--quick" => thorough = false,
            "--case" => only = Some(it.next().unwrap().parse().unwrap()),
            _ => {
                eprintln!("unknown argument {a}");
                std::process::exit(2)
            }
        }
    }
    let ctx = Ctx { id: id.clone(), seed, thorough, only };
    let t0 = Instant::now();
    let known = known(&id);
    let _ = crate::driver::KNOWN.set(known.iter().map(|k| k.0.clone()).collect());
    let Some(rep) = checks::run(&ctx) else {
        eprintln!("unknown check {id}");
        std::process::exit(2)
    };
    let mut agg = rep.agg;
    if rep.runaway_is_violation {
        for (i, why) in &agg.runaway {
            agg.n_violations += 1;
            let d = (rep.describe)(*i);
            agg.violations.push((*i, format!("runaway-{:016x}", crate::driver::hash_str(&d)), format!("{why} | {d}")));
        }
    } else {
        // One case without an answer decides nothing about the answers (that each
        // operation does return is property C02), but if answers are regularly
        // missing, the property plainly doesn't hold.
        if agg.runaway.len() as u64 >= 3.max(agg.cases / 20_000) {
            let (i, why) = agg.runaway[0];
            agg.n_violations += 1;
            let d = format!("no answer ({why}) in {} of {} cases, the first: {}", agg.runaway.len(), agg.cases, (rep.describe)(i));
            agg.violations.push((i, "no-answer".into(), d));
        }
        for (i, why) in &agg.runaway {
            *agg.inconclusive.entry(format!("{why} (case {i})")).or_default() += 1;
        }
    }
    let _ = std::fs::create_dir_all("evidence/replay");
    let mut new = 0u64;
    let mut seen_known = std::collections::BTreeSet::new();
    let mut printed = std::collections::BTreeSet::new();
    for (i, sig, desc) in &agg.violations {
        if let Some(k) = known.iter().find(|k| k.0 == *sig) {
            if seen_known.insert(sig.clone()) {
                println!("KNOWN-FINDING: property={id} {}", k.1);
            }
            continue;
        }
        new += 1;
        if printed.len() < 20 && printed.insert(sig.clone()) {
            let clean: String = sig.chars().map(|c| if c.is_ascii_alphanumeric() || "-_.".contains(c) { c } else { '_' }).take(80).collect();
            let path = format!("evidence/replay/{id}-{i}-{clean}.txt");
            let _ = std::fs::write(
                &path,
                format!("property {id}\nreplay: cd /verif && ./check.sh {id} --seed {seed} {}--case {i}\nsignature: {sig}\n{desc}\n", if thorough { "--thorough " } else { "" }),
            );
            println!("VIOLATION property={id} replay={path}");
            println!("  {}", desc.chars().take(600).collect::<String>());
        }
    }
    let mut j = String::new();
    let w = &mut j;
    let _ = writeln!(w, "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {seed},\n  \"level\": \"exploration\",\n  \"coverage\": {{", esc(&id), esc(if thorough { "thorough" } else { "quick" }));
    let _ = writeln!(w, "    \"evaluations\": {},\n    \"cases\": {},\n    \"distinct_nontrivial\": {},\n    \"rule\": {},", agg.evals, agg.cases, agg.distinct.len(), esc(&rep.rule));
    let _ = writeln!(w, "    \"samples\": [{}],", agg.samples.iter().map(|s| esc(&s.chars().take(2000).collect::<String>())).collect::<Vec<_>>().join(", "));
    let _ = writeln!(w, "    \"observed\": {{{}}},", agg.counters.iter().map(|(k, v)| format!("{}: {v}", esc(k))).collect::<Vec<_>>().join(", "));
    let _ = writeln!(w, "    \"maxima\": {{{}}},", agg.maxima.iter().map(|(k, v)| format!("{}: {v}", esc(k))).collect::<Vec<_>>().join(", "));
    let _ = writeln!(w, "    \"inconclusive\": {{{}}},", agg.inconclusive.iter().map(|(k, v)| format!("{}: {v}", esc(k))).collect::<Vec<_>>().join(", "));
    let _ = writeln!(w, "    \"known_findings_seen\": {},\n    \"stopped_by_wall_clock\": {}\n  }},", seen_known.len(), agg.timed_out);
    let _ = writeln!(w, "  \"assumptions\": [{}],\n  \"wall_s\": {:.2},\n  \"violations\": {new}\n}}", rep.assumptions.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "), t0.elapsed().as_secs_f64());
    if only.is_none() {
        if let Err(e) = std::fs::write(format!("evidence/{id}.json"), &j) {
            eprintln!("cannot write evidence: {e}");
            std::process::exit(2);
        }
    }
    println!(
        "{id}: {} cases, {} distinct non-trivial, {} evaluations, {new} violations, {} known, {} inconclusive, {:.1} s",
        agg.cases, agg.distinct.len(), agg.evals, seen_known.len(), agg.inconclusive.values().sum::<u64>(), t0.elapsed().as_secs_f64()
    );
    for (k, v) in &agg.inconclusive {
        println!("  inconclusive: {k}: {v}");
    }
    if std::env::var("LSMON_VERBOSE").is_ok() {
        for (k, v) in &agg.counters {
            println!("  {k}: {v}");
        }
        for (k, v) in &agg.maxima {
            println!("  max {k}: {v}");
        }
    }
    let code = if new > 0 {
        1
    } else if agg.evals == 0 {
        eprintln!("nothing was observed");
        2
    } else {
        0
    };
    use std::io::Write;
    let _ = std::io::stdout().flush();
    // Threads of runaway cases may still be running.
    std::process::exit(code)
}
