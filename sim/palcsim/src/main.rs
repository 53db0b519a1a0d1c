//! Deterministic simulation of palc parsers.
mod checks;
mod exec;
mod r#gen;
mod judge;
mod minimize;
mod orch;
mod plan;
mod proc;
mod worker;

use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: simrt::alloc::SimAlloc = simrt::alloc::SimAlloc;

/// Called for the loops over bytes inside the standard library (see build.rs).
mod scans {
    #[allow(dead_code)]
    extern "C" fn scanned(n: usize) {
        simrt::alloc::note_bytes(n);
    }
    include!(concat!(env!("OUT_DIR"), "/scans.rs"));
}

/// Seed and number of the definitions built into this binary.
pub fn defs() -> (u64, usize) {
    (
        env!("PALCSIM_DEFS_BUILT").parse().unwrap(),
        env!("PALCSIM_COUNT_BUILT").parse().unwrap(),
    )
}

pub fn describe_cli(i: usize) -> String {
    clispec::codegen::generate(&[(i, exec::world().cmds[i].clone())])
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}

fn load_refs(p: &str) {
    if let Ok(t) = std::fs::read_to_string(p) {
        exec::load_refs(&t);
    }
}

fn main() {
    if let Ok(spec) = std::env::var("PALCSIM_CHILD") {
        proc::child(&spec);
        return;
    }
    let args: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = args.iter().map(String::as_str).collect();
    match a[..] {
        ["help-ref", cli, path] => {
            if let Some(t) = exec::pristine_help(cli.parse().unwrap(), &exec::parse_path(path)) {
                print!("{t}");
            } else {
                std::process::exit(1);
            }
        }
        ["worker", check, seed, from, to, progress, refs] => {
            load_refs(refs);
            worker::work(check, seed.parse().unwrap(), from.parse().unwrap(), to.parse().unwrap(), progress);
        }
        ["run-file", check, file, refs] => {
            load_refs(refs);
            let cases = plan::parse_cases(&std::fs::read_to_string(file).unwrap()).expect("cases");
            if worker::run_file(check, &cases) {
                std::process::exit(1);
            }
        }
        ["solo", file] => {
            exec::init();
            let cases = plan::parse_cases(&std::fs::read_to_string(file).unwrap()).expect("cases");
            let seen = exec::exec_case(&cases[0]);
            if let exec::StepSeen::Run(r) = &seen.steps[0][0] {
                print!("{}", checks::canonical(r));
            }
        }
        ["show", check, seed, index] => {
            let c = checks::make(check, seed.parse().unwrap(), index.parse().unwrap());
            print!("{}", plan::cases_text(&[c]));
        }
        ["describe", cli] => print!("{}", describe_cli(cli.parse().unwrap())),
        ["refs", file, jobs] => orch::write_refs(Path::new(file), jobs.parse().unwrap()),
        ["check", check, seed, cases, jobs, limit_s, out_dir, result] => {
            let t0 = Instant::now();
            let refs: PathBuf = orch::scratch().join(format!("refs-{}", std::process::id()));
            let jobs = jobs.parse().unwrap();
            orch::write_refs(&refs, jobs);
            load_refs(refs.to_str().unwrap());
            let j = orch::Job {
                check,
                seed: seed.parse().unwrap(),
                cases: cases.parse().unwrap(),
                chunk: match check {
                    "C13" => 250,
                    "C21" => 40,
                    _ => 500,
                },
                jobs,
                refs: &refs,
                deadline: t0 + Duration::from_secs(limit_s.parse().unwrap()),
            };
            let o = orch::check(&j, Path::new(out_dir));
            _ = std::fs::remove_file(&refs);
            let r = &o.report;
            let mut all = 0;
            for (k, d) in &r.digests {
                all = clispec::rng::fnv(all, &k.to_le_bytes());
                all = clispec::rng::fnv(all, &d.to_le_bytes());
            }
            let mut s = String::from("{\n");
            s += &format!(" \"flavour\": {},\n", json_str(if exec::HELP { "help" } else { "nohelp" }));
            s += &format!(" \"rule\": {},\n", json_str(checks::rule(check)));
            s += &format!(" \"distinct\": {},\n", r.distinct.len());
            s += &format!(" \"branches\": [{}, {}],\n", r.reached.iter().map(|b| b.count_ones()).sum::<u32>(), r.branches);
            s += &format!(" \"digest\": \"{all:016x}\",\n");
            s += &format!(" \"wall_s\": {:.3},\n", t0.elapsed().as_secs_f64());
            s += " \"stats\": {";
            s += &r.stats.iter().map(|(k, n)| format!("{}: {n}", json_str(k))).collect::<Vec<_>>().join(", ");
            s += "},\n";
            let samples: Vec<String> = (0..2)
                .map(|i| json_str(&plan::cases_text(&[checks::make(check, j.seed, i)]).chars().take(2500).collect::<String>()))
                .collect();
            s += &format!(" \"samples\": [{}],\n", samples.join(", "));
            s += &format!(
                " \"broken\": [{}],\n",
                r.broken.iter().map(|b| json_str(b)).collect::<Vec<_>>().join(", ")
            );
            s += &format!(
                " \"found\": [{}],\n",
                r.found
                    .iter()
                    .take(20)
                    .map(|f| json_str(&format!("case {} at {}: {}: {}", f.index, f.at, f.class, f.msg)))
                    .collect::<Vec<_>>()
                    .join(", ")
            );
            match &o.replay {
                Some((p, m)) => {
                    s += &format!(" \"replay\": {},\n \"message\": {}\n", json_str(p.to_str().unwrap()), json_str(m));
                }
                None => s += " \"replay\": null\n",
            }
            s += "}\n";
            std::fs::write(result, s).unwrap();
        }
        _ => {
            eprintln!("unknown command: {a:?}");
            std::process::exit(2);
        }
    }
}
