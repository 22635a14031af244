#![allow(invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions)]
mod check;
mod docgen;
mod drive;
mod exec;
mod gen;
mod interpose;
mod jinja;
mod pipe;
mod plan;
mod rng;
mod shrink;
mod text;
mod tsmemo;
mod vfs;
mod world;

fn show(r: &exec::RunResult) {
    for (t, e) in &r.events {
        let s = match e {
            exec::Ev::Recv { body } => format!("<- {body}"),
            exec::Ev::Sent { body, .. } => format!("-> {body}"),
            e => format!("{e:?}"),
        };
        println!("{t:>6} {s}");
    }
    println!("panics={:?}\nwrites={:?} fired={:?} virtual_ms={} polls={} fs_ops={} runaway={} digest={:016x}", r.panics, r.writes, r.fired, r.virtual_ms, r.polls, r.fs_ops, r.runaway, r.digest());
}

/// The server keeps some things in order of their addresses: the same
/// addresses in every process.
fn fixed_addresses() {
    const ADDR_NO_RANDOMIZE: libc::c_ulong = 0x0040000;
    unsafe {
        let old = libc::personality(0xffff_ffff);
        if old < 0 || old as libc::c_ulong & ADDR_NO_RANDOMIZE != 0 {
            return;
        }
        if libc::personality(old as libc::c_ulong | ADDR_NO_RANDOMIZE) < 0 {
            return;
        }
        let args: Vec<std::ffi::CString> =
            std::env::args().map(|a| std::ffi::CString::new(a).unwrap()).collect();
        let mut argv: Vec<*const libc::c_char> = args.iter().map(|a| a.as_ptr()).collect();
        argv.push(std::ptr::null());
        if libc::personality(0xffff_ffff) as libc::c_ulong & ADDR_NO_RANDOMIZE != 0 {
            libc::execv(c"/proc/self/exe".as_ptr(), argv.as_ptr());
        }
    }
}

fn main() {
    fixed_addresses();
    exec::install();
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let p: plan::Plan = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
            show(&exec::run(&p));
        }
        Some("try") => {
            let docs = check::calibrate();
            eprintln!("filters {:?} tests {:?}", docs.filters.keys(), docs.tests.keys());
            let (from, n): (u64, u64) = (a[3].parse().unwrap(), a[4].parse().unwrap());
            let mut judged = std::collections::BTreeMap::new();
            let mut skipped = 0;
            let mut bad = 0;
            let mut vms = 0;
            let mut slowest = (0, 0);
            for seed in from..from + n {
                let mut p = gen::plan(&a[2], seed);
                if std::env::var("B128").is_ok() { p.sched.budget = 128; }
                let t0 = std::time::Instant::now();
                let c = check::run_case(&p, &docs);
                slowest = slowest.max((t0.elapsed().as_millis(), seed));
                for (k, v) in &c.stats.judged {
                    *judged.entry(k.clone()).or_insert(0) += v;
                }
                skipped += c.stats.skipped;
                vms += c.result.virtual_ms;
                if let Some(f) = c.findings.first() {
                    bad += 1;
                    if bad <= 8 {
                        println!("seed {seed}: [{}] t={} {}", f.tag, f.t, f.detail);
                    }
                    if bad == 1 {
                        std::fs::write("/tmp/x/bad.json", serde_json::to_string_pretty(&p).unwrap()).unwrap();
                    }
                }
            }
            println!("{bad} bad of {n}; judged {judged:?}; skipped {skipped}; virtual {vms} ms; slowest {} ms (seed {})", slowest.0, slowest.1);
        }
        Some("why") => {
            let docs = check::calibrate();
            let p = gen::plan(&a[2], a[3].parse().unwrap());
            std::fs::write("/tmp/x/bad.json", serde_json::to_string_pretty(&p).unwrap()).unwrap();
            let mut p = p;
            let mut c = check::run_case(&p, &docs);
            if std::env::var("MIN").is_ok() && !c.findings.is_empty() {
                let mut s = shrink::Shrinker { test: Box::new(|p: &plan::Plan, k: &str| check::run_case(p, &docs).findings.iter().any(|f| f.class() == k)), class: c.findings[0].class(), until: std::time::Instant::now() + std::time::Duration::from_secs(60), runs: 0 };
                p = s.run(&p);
                println!("minimised in {} runs", s.runs);
                std::fs::write("/tmp/x/bad.json", serde_json::to_string_pretty(&p).unwrap()).unwrap();
                c = check::run_case(&p, &docs);
                for s in &p.steps { println!("   {s:?}"); }
                for (k, n) in &p.disk { println!("   {k} {}", match n { vfs::Node::File { data, .. } => format!("{:?}", String::from_utf8_lossy(data)), x => format!("{x:?}") }); }
            }
            let Some(f) = c.findings.first() else { return };
            println!("[{}] t={} {}\nsched {:?}\nfired {:?}", f.tag, f.t, f.detail, p.sched, c.result.fired_paths);
            let mut texts = std::collections::BTreeMap::new();
            for (k, n) in &p.disk {
                if let vfs::Node::File { data, .. } = n {
                    texts.insert(k.clone(), String::from_utf8_lossy(data).to_string());
                }
            }
            let mut last = None;
            for (t, e) in &c.result.events[..f.at.min(c.result.events.len())] {
                if false {
                    break;
                }
                match e {
                    exec::Ev::Sent { step, body } => {
                        let doc = body["params"]["textDocument"]["uri"].as_str().and_then(plan::path_of).unwrap_or_default();
                        let m = body["method"].as_str().unwrap_or("").to_string();
                        if m.ends_with("didOpen") {
                            texts.insert(doc.clone(), body["params"]["textDocument"]["text"].as_str().unwrap().to_string());
                        }
                        if m.ends_with("didChange") {
                            let mut x = texts.get(&doc).cloned().unwrap_or_default();
                            for ch in body["params"]["contentChanges"].as_array().unwrap() {
                                x = text::apply(&x, ch);
                            }
                            texts.insert(doc.clone(), x);
                        }
                        if last != Some((m.clone(), doc.clone(), *step)) {
                            println!("{t:>6} #{step} {m} {doc} {}", if m.starts_with("textDocument/did") { "".into() } else { world::short(&body["params"]) });
                        }
                        last = Some((m, doc, *step));
                    }
                    exec::Ev::Disk(vfs::DiskOp::Write { path, text }) => {
                        texts.insert(path.clone(), text.clone());
                        println!("{t:>6} write {path}");
                    }
                    exec::Ev::Recv { body } if std::env::var("RECV").is_ok() => println!("{t:>6} <- {} bytes {}", body.to_string().len(), body.to_string().chars().take(150).collect::<String>()),
                    exec::Ev::Recv { .. } | exec::Ev::Step(_) => {}
                    e => println!("{t:>6} {e:?}"),
                }
            }
            for (k, x) in &texts {
                if f.detail.contains(k.as_str()) || f.detail.contains(&plan::uri(k)) || std::env::var("ALL").is_ok() {
                    println!("--- {k}");
                    for (i, l) in x.split('\n').enumerate() {
                        println!("{i:>3} {}", l.replace('\r', "<CR>"));
                    }
                }
            }
        }
        Some("unjudged") => {
            // generated templates that the model does not judge
            let (mut n, mut none) = (0, 0);
            for seed in 0..a[2].parse::<u64>().unwrap() {
                let p = gen::plan("C09", seed);
                for (k, x) in &p.disk {
                    if let vfs::Node::File { data, .. } = x {
                        let t = String::from_utf8_lossy(data);
                        if k.ends_with(".html") || k.ends_with(".jinja") {
                            n += 1;
                            if jinja::parse_template(&t).is_none() {
                                none += 1;
                                println!("{t:?}");
                            }
                        }
                    }
                }
            }
            println!("{none} of {n}");
        }
        Some("worker") => drive::worker(&a[2..]),
        Some("judge") => drive::judge_one(&a[2..]),
        Some("digests") => drive::digests(&a[2..]),
        Some("check") => std::process::exit(drive::check(&a[2], &a[3])),
        Some("replay") => std::process::exit(drive::replay(&a[2])),
        _ => {
            eprintln!("usage: sim check PROPERTY DIR | replay FILE");
            std::process::exit(2);
        }
    }
}
