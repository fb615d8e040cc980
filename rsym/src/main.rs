mod exec;
mod expr;
mod ll;
mod z3;
use std::fmt::Write;

fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b {
        write!(s, "{x:02x}").unwrap();
    }
    s
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// rsym FILE.ll OUT.json THREADS SECONDS ENTRY...
fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 6 {
        eprintln!("usage: rsym FILE.ll OUT.json THREADS SECONDS ENTRY...");
        std::process::exit(2);
    }
    let t0 = std::time::Instant::now();
    let src = std::fs::read(&args[1]).expect("read");
    let src = String::from_utf8_lossy(&src);
    let prog = match ll::parse(&src) {
        Ok(p) => p,
        Err(e) => {
            eprintln!("parse: {e}");
            std::process::exit(2);
        }
    };
    let parse_s = t0.elapsed().as_secs_f64();
    let threads: usize = args[3].parse().unwrap();
    let secs: u64 = args[4].parse().unwrap();
    let mut entries = vec![];
    for e in &args[5..] {
        match prog.fidx.get(e) {
            Some(&i) => entries.push((e.clone(), i)),
            None => {
                eprintln!("no entry {e}");
                std::process::exit(2);
            }
        }
    }
    if std::env::var("RSYM_PARSE").is_ok() {
        let mut bad = 0;
        for f in &prog.funcs {
            if let Some(e) = &f.err {
                bad += 1;
                println!("FUNC {}: {e}", exec::short(&f.name));
            }
            for b in &f.blocks {
                for i in &b.ins {
                    if let ll::I::Unsupported(m) = &i.i {
                        if !m.contains("landingpad") && !m.contains("resume") {
                            println!("INS {m} ({})", exec::short(&f.name));
                        }
                    }
                }
            }
        }
        println!("{} functions, {bad} not parsed, {parse_s:.2}s", prog.funcs.len());
    }
    let mut sh = exec::Shared::new(prog, entries, threads, secs);
    if let Ok(v) = std::env::var("RSYM_MAXVIOL") {
        sh.max_viol = v.parse().unwrap();
    }
    if let Ok(v) = std::env::var("RSYM_SAMPLES") {
        sh.sample_max = v.parse().unwrap();
    }
    if let Ok(v) = std::env::var("RSYM_STEPS") {
        sh.max_steps = v.parse().unwrap();
    }
    exec::run(&sh);
    let o = sh.out.lock().unwrap();
    let mut s = String::from("{\n");
    write!(s, "\"z3\": {},\n\"parse_s\": {parse_s:.3},\n\"wall_s\": {:.3},\n", js(&z3::version()), t0.elapsed().as_secs_f64()).unwrap();
    s.push_str("\"scenarios\": [");
    for (i, (n, _)) in sh.entries.iter().enumerate() {
        let st = &o.stats[i];
        if i > 0 {
            s.push(',');
        }
        write!(
            s,
            "\n {{\"name\": {}, \"paths\": {}, \"returned\": {}, \"discarded\": {}, \"forks\": {}, \"decisions\": {}, \"steps\": {}, \"queries\": {}, \"sat\": {}, \"unsat\": {}, \"unknown\": {}, \"cache_hits\": {}, \"solver_s\": {:.3}, \"checks\": {}, \"checks_symbolic\": {}, \"limits\": {}, \"max_symbolic_bytes\": {}, \"unexplored\": {}, \"reach\": {{{}}}}}",
            js(n), st.paths, st.ret, st.discards, st.forks, st.decisions, st.steps, st.queries, st.sat, st.unsat,
            st.unknown, st.cache_hits, st.z3_us as f64 / 1e6, st.checks, st.checks_symbolic, st.limits, st.max_vars, o.incomplete[i],
            o.reach.iter().filter(|(k, _)| k.0 == i as u32).map(|(k, v)| format!("\"{}\": {v}", k.1)).collect::<Vec<_>>().join(", ")
        )
        .unwrap();
    }
    s.push_str("],\n\"violations\": [");
    for (i, v) in o.violations.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        write!(
            s,
            "\n {{\"scenario\": {}, \"kind\": {}, \"detail\": {}, \"bytes\": \"{}\"}}",
            js(&sh.entries[v.scen as usize].0), js(&v.kind), js(&v.detail), hex(&v.wit)
        )
        .unwrap();
    }
    s.push_str("],\n\"unsupported\": [");
    for (i, (k, v)) in o.unsupported.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        write!(
            s,
            "\n {{\"what\": {}, \"paths\": {}, \"scenario\": {}, \"bytes\": \"{}\"}}",
            js(k), v.0, js(&sh.entries[v.1 as usize].0), hex(&v.2)
        )
        .unwrap();
    }
    s.push_str("],\n\"samples\": [");
    for (i, v) in o.samples.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        write!(
            s,
            "\n {{\"scenario\": {}, \"bytes\": \"{}\", \"emits\": [{}], \"reach\": [{}]}}",
            js(&sh.entries[v.scen as usize].0), hex(&v.wit),
            v.emits.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", "),
            v.reach.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", ")
        )
        .unwrap();
    }
    s.push_str("],\n\"functions\": [");
    for (i, f) in o.funcs.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        let f = &sh.prog.funcs[*f as usize];
        write!(s, "\n {}", js(&exec::short(&f.name))).unwrap();
    }
    s.push_str("]\n}\n");
    std::fs::write(&args[2], s).expect("write");
}
