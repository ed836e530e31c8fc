mod big;
mod eval;
mod exec;
mod ir;
mod mem;
mod search;
mod selftest;
mod smt;
mod term;

use std::collections::{BTreeMap, HashMap};
use std::io::Write;
use std::time::{Duration, Instant};

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn inputs_json(m: &BTreeMap<String, u128>) -> String {
    let v: Vec<String> = m.iter().map(|(k, v)| format!("{}: {}", esc(k), esc(&v.to_string()))).collect();
    format!("{{{}}}", v.join(", "))
}
fn usage() -> ! {
    eprintln!("rsym --ll FILE... --fn NAME [--out FILE] [--branch-ms N] [--check-ms N] [--par N] [--time S] [--dump DIR] [--inputs FILE] [-v]");
    std::process::exit(2)
}
fn main() {
    let h = std::thread::Builder::new().stack_size(2 << 30).spawn(real).unwrap();
    let code = h.join().unwrap_or(3);
    std::process::exit(code)
}
fn real() -> i32 {
    let mut files: Vec<String> = vec![];
    let mut fname = String::new();
    let mut out: Option<String> = None;
    let mut o = exec::Opts { branch_ms: 3000, check_ms: 60000, max_instr: 400_000_000, max_paths: 200_000, par: 4, deadline: None, verbose: false, concrete: None, dump: None, stop_on_first: true, search_ms: 40 };
    let mut a = std::env::args().skip(1);
    let mut time = 0u64;
    while let Some(x) = a.next() {
        let mut arg = || a.next().unwrap_or_else(|| usage());
        match x.as_str() {
            "--ll" => files.extend(arg().split(',').map(|x| x.to_string())),
            "--fn" => fname = arg(),
            "--out" => out = Some(arg()),
            "--branch-ms" => o.branch_ms = arg().parse().unwrap(),
            "--search-ms" => o.search_ms = arg().parse().unwrap(),
            "--check-ms" => o.check_ms = arg().parse().unwrap(),
            "--par" => o.par = arg().parse().unwrap(),
            "--time" => time = arg().parse().unwrap(),
            "--max-paths" => o.max_paths = arg().parse().unwrap(),
            "--dump" => o.dump = Some(arg()),
            "--all" => o.stop_on_first = false,
            "--inputs" => {
                let mut m = HashMap::new();
                for l in std::fs::read_to_string(arg()).unwrap().lines() {
                    let mut it = l.split_whitespace();
                    if let (Some(k), Some(v)) = (it.next(), it.next()) {
                        m.insert(k.to_string(), v.parse::<u128>().unwrap());
                    }
                }
                o.concrete = Some(m);
            }
            "--selftest" => {
                let n = arg().parse().unwrap();
                let seed = arg().parse().unwrap();
                return match selftest::run(n, seed) {
                    Ok(s) => { println!("{}", s); 0 }
                    Err(s) => { println!("SELFTEST FAILED {}", s); 1 }
                };
            }
            "-v" => o.verbose = true,
            _ => usage(),
        }
    }
    if files.is_empty() || fname.is_empty() {
        usage()
    }
    let t0 = Instant::now();
    if time > 0 {
        o.deadline = Some(t0 + Duration::from_secs(time));
    }
    let mut p = ir::Program::new();
    for f in &files {
        p.add_file(f);
    }
    let verbose = o.verbose;
    let mut e = exec::Exec::new(p, o);
    let t_load = t0.elapsed();
    let r = e.run(&fname);
    let total = t0.elapsed();
    let mut names: Vec<String> = e.fns_run.iter().map(|f| e.p.fns[*f as usize].dem.clone()).collect();
    names.sort();
    names.dedup();
    let err = r.err();
    let mut s = String::from("{\n");
    s += &format!(" \"fn\": {},\n", esc(&fname));
    s += &format!(" \"error\": {},\n", err.as_ref().map_or("null".into(), |e| esc(e)));
    s += &format!(" \"paths\": {}, \"forks\": {}, \"pruned_aborts\": {}, \"instructions\": {}, \"terms\": {},\n", e.n_paths, e.n_fork, e.n_pruned, e.n_instr, term::cx().nodes.len());
    s += &format!(" \"searches\": {}, \"searches_ok\": {}, \"search_time\": {:.3},\n", e.n_search, e.n_search_ok, e.search_time.as_secs_f64());
    s += &format!(" \"branch_queries\": {}, \"branch_time\": {:.3}, \"unknown_branches\": {}, \"check_queries\": {}, \"check_time\": {:.3}, \"total\": {:.3}, \"load\": {:.3},\n", e.solver.queries, e.solver.time.as_secs_f64(), e.n_unknown_branch, e.job_queries, e.job_time.as_secs_f64(), total.as_secs_f64(), t_load.as_secs_f64());
    let ends: Vec<String> = e.n_dead.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect();
    s += &format!(" \"ends\": {{{}}},\n", ends.join(", "));
    let checks: Vec<String> = e
        .stats
        .iter()
        .map(|(k, c)| {
            let tools: Vec<String> = c.tools.iter().map(|(t, n)| format!("{}: {}", esc(t), n)).collect();
            format!("  {}: {{\"occurrences\": {}, \"folded\": {}, \"unsat\": {}, \"sat\": {}, \"unknown\": {}, \"time\": {:.3}, \"max\": {:.3}, \"solvers\": {{{}}}}}", esc(k), c.occurrences, c.folded, c.unsat, c.sat, c.unknown, c.time.as_secs_f64(), c.max.as_secs_f64(), tools.join(", "))
        })
        .collect();
    s += &format!(" \"checks\": {{\n{}\n }},\n", checks.join(",\n"));
    let viol: Vec<String> = e.violations.iter().map(|v| format!("  {{\"id\": {}, \"panic\": {}, \"inputs\": {}}}", esc(&v.id), v.panic, inputs_json(&v.inputs))).collect();
    s += &format!(" \"violations\": [\n{}\n ],\n", viol.join(",\n"));
    let und: Vec<String> = e.undecided.iter().map(|x| esc(x)).collect();
    s += &format!(" \"undecided\": [{}],\n", und.join(", "));
    let reach: Vec<String> = e.reached.iter().map(|(k, m)| format!("  {}: {}", esc(k), m.as_ref().map_or("null".into(), inputs_json))).collect();
    s += &format!(" \"reached\": {{\n{}\n }},\n", reach.join(",\n"));
    let inp: Vec<String> = e.input_names.iter().map(|(n, ix)| { let v = &term::cx().vars[*ix as usize]; format!("{}: {}", esc(n), v.w) }).collect();
    s += &format!(" \"inputs\": {{{}}},\n", inp.join(", "));
    let fns: Vec<String> = names.iter().map(|x| esc(x)).collect();
    s += &format!(" \"functions\": [{}]\n}}\n", fns.join(", "));
    if let Some(p) = out {
        std::fs::write(p, &s).unwrap();
    } else if verbose {
        let _ = std::io::stdout().write_all(s.as_bytes());
    }
    if let Some(d) = &e.o.dump {
        let _ = std::fs::write(format!("{}/qlog.txt", d), e.qlog.join("\n"));
    }
    if verbose {
        eprintln!("{} paths {} forks {} instr {} terms, {} branch queries {:.2}s ({} unknown), {} check tasks {:.2}s, total {:.2}s", e.n_paths, e.n_fork, e.n_instr, term::cx().nodes.len(), e.solver.queries, e.solver.time.as_secs_f64(), e.n_unknown_branch, e.job_queries, e.job_time.as_secs_f64(), total.as_secs_f64());
        for (k, v) in &e.n_dead {
            eprintln!("  end {}: {}", k, v);
        }
        let mut sites: Vec<_> = e.fork_sites.iter().collect();
        sites.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for (k, v) in sites.iter().take(12) {
            eprintln!("  fork {} at {}", v, k);
        }
        for (k, c) in &e.stats {
            eprintln!("  check {}: {} occ, {} folded, {} unsat, {} sat, {} unknown, {:.2}s max {:.2}s {:?}", k, c.occurrences, c.folded, c.unsat, c.sat, c.unknown, c.time.as_secs_f64(), c.max.as_secs_f64(), c.tools);
        }
        for (k, v) in &e.reached {
            eprintln!("  reached {}{}", k, if v.is_some() { "" } else { " (no witness)" });
        }
        for v in &e.violations {
            eprintln!("  VIOL {} {:?}", v.id, v.inputs);
        }
        if let Some(e) = &err {
            eprintln!("  ERROR {}", e);
        }
    }
    if err.is_some() {
        3
    } else if !e.violations.is_empty() {
        1
    } else if !e.undecided.is_empty() {
        2
    } else {
        0
    }
}
