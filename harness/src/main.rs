//! Runs the specification's graph and behaviours against the implementation.
mod codec;
mod conc;
mod explore;
mod forge;
mod hasher;
mod lts;
mod multi;
mod plans;
mod record;
mod rng;
mod special;
mod sut;
mod trace;
mod walk;
mod watch;
mod ways;
mod world;

use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Default)]
struct Total {
    counts: BTreeMap<String, u64>,
    notes: BTreeMap<String, u64>,
    jobs: u64,
    skipped: u64,
    violations: Vec<String>,
    samples: Vec<String>,
    roots: BTreeMap<String, u64>,
    traces: BTreeMap<usize, Vec<String>>,
    broken: Vec<String>,
}

fn main() {
    let mut args: BTreeMap<String, String> = BTreeMap::new();
    let mut lts_files = Vec::new();
    let mut walk_files = Vec::new();
    let mut a = std::env::args().skip(1);
    while let Some(k) = a.next() {
        let v = a.next().expect("value");
        match k.as_str() {
            "--lts" => lts_files.push(v),
            "--walks" => walk_files.push(v),
            _ => {
                args.insert(k, v);
            }
        }
    }
    let get = |k: &str, d: &str| args.get(k).cloned().unwrap_or_else(|| d.to_owned());
    let prop = get("--prop", "C01");
    let seed: u64 = get("--seed", "1").parse().expect("seed");
    let threads: usize = get("--threads", "8").parse().expect("threads");
    let budget = Duration::from_secs(get("--budget", "600").parse().expect("budget"));
    let only = args.get("--only").cloned();
    let out_path = get("--out", "/dev/stdout");
    let trace_path = args.get("--traces").cloned();
    let split = |s: &str| -> (String, String) {
        let (a, b) = s.split_once('=').expect("name=path");
        (a.to_owned(), b.to_owned())
    };
    let inp = plans::Inputs {
        lts: lts_files.iter().map(|s| split(s)).map(|(a, b)| (a, Arc::new(lts::Lts::load(&b)))).collect(),
        walks: walk_files.iter().map(|s| split(s)).map(|(a, b)| (a, Arc::new(lts::Walks::load(&b)))).collect(),
        dir: PathBuf::from(get("--dir", "/tmp")),
        thorough: get("--tier", "quick") == "thorough",
    };
    let jobs = plans::jobs(&prop, &inp);
    sut::quiet_panics();
    watch::now_ms();
    let start = Instant::now();
    let total = Arc::new(Mutex::new(Total::default()));
    {
        let total = total.clone();
        let out_path = out_path.clone();
        let prop = prop.clone();
        watch::start(Duration::from_secs(100), move |what, why| {
            let mut t = total.lock().unwrap_or_else(|e| e.into_inner());
            t.violations.push(format!("{{\"id\":{},\"class\":\"hang\",\"ctx\":\"\",\"label\":\"\",\"text\":{},\"trail\":[]}}", json(&what), json(&why)));
            write_out(&t, &out_path, &prop, start.elapsed());
            std::process::exit(0);
        });
    }
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let rel = plans::relevance(&prop);
    std::thread::scope(|sc| {
        for th in 0..threads {
            let (next, stop, jobs, total, only, inp) = (&next, &stop, &jobs, &total, &only, &inp);
            let _ = inp;
            std::thread::Builder::new().stack_size(512 << 20).spawn_scoped(sc, move || {
                watch::register(th + 1);
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= jobs.len() || stop.load(Ordering::SeqCst) {
                        break;
                    }
                    let job = &jobs[i];
                    if only.as_ref().map_or(false, |o| *o != job.id) {
                        continue;
                    }
                    if start.elapsed() > budget {
                        total.lock().unwrap().skipped += 1;
                        continue;
                    }
                    watch::scenario(&job.id);
                    hasher::reset();
                    sut::CODEC.with(|c| *c.borrow_mut() = None);
                    multi::DIFFERENCE.with(|c| *c.borrow_mut() = None);
                    let began = Instant::now();
                    let mut out = plans::Out::default();
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        (job.run)(rng::Rng::from_str(seed, &job.id), &mut out)
                    }));
                    if std::env::var("VERBOSE").is_ok() {
                        eprintln!("{:>8.2} s {} {} {:?} {} MB", began.elapsed().as_secs_f64(), job.id, out.label, out.counts.0, watch::held());
                    }
                    let mut t = total.lock().unwrap_or_else(|e| e.into_inner());
                    t.jobs += 1;
                    for (k, v) in &out.counts.0 {
                        *t.counts.entry((*k).to_owned()).or_insert(0) += v;
                    }
                    for (k, v) in &out.notes {
                        *t.notes.entry(k.clone()).or_insert(0) += v;
                    }
                    if let Some(r) = out.roots {
                        t.roots.insert(job.id.clone(), r);
                    }
                    if !out.trace.is_empty() {
                        t.traces.insert(i, std::mem::take(&mut out.trace));
                    }
                    if t.samples.len() < 3 && i % 37 == 0 {
                        let mut s = out.trail.clone();
                        s.truncate(12);
                        let s: Vec<String> = s.iter().map(|x| json(x)).collect();
                        t.samples.push(format!("{{\"scenario\":{},\"what\":{},\"steps\":[{}]}}", json(&job.id), json(&out.label), s.join(",")));
                    }
                    if hasher::exhausted() {
                        *t.notes.entry("names exhausted".to_owned()).or_insert(0) += 1;
                        t.traces.remove(&i);
                        continue;
                    }
                    match r {
                        Ok(Ok(())) => {}
                        Ok(Err(d)) if rel(&d, d.ctx == "after_cut" || d.class == "cut") || prop_of(&d, rel) => {
                            let tr: Vec<String> = out.trail.iter().rev().take(400).rev().map(|x| json(x)).collect();
                            t.violations.push(format!(
                                "{{\"id\":{},\"class\":{},\"ctx\":{},\"label\":{},\"text\":{},\"trail\":[{}]}}",
                                json(&job.id), json(d.class), json(d.ctx), json(&out.label), json(&d.text), tr.join(",")));
                            if t.violations.len() >= 4 {
                                stop.store(true, Ordering::SeqCst);
                            }
                        }
                        Ok(Err(d)) => {
                            *t.notes.entry(format!("{}/{}", d.class, d.ctx)).or_insert(0) += 1;
                        }
                        Err(_) => {
                            let p = sut::PANIC.with(|p| p.borrow().clone());
                            t.broken.push(format!("{}: {p}", job.id));
                        }
                    }
                }
            }).expect("thread");
        }
    });
    let t = total.lock().unwrap_or_else(|e| e.into_inner());
    if let Some(p) = trace_path {
        let mut s = String::new();
        for lines in t.traces.values() {
            for l in lines {
                s.push_str(l);
                s.push('\n');
            }
        }
        std::fs::write(p, s).expect("traces");
    }
    write_out(&t, &out_path, &prop, start.elapsed());
}

/// divergences that passed the filter inside the scenario (it knows whether a call was cut)
fn prop_of(d: &world::Div, rel: fn(&world::Div, bool) -> bool) -> bool {
    rel(d, true)
}

fn write_out(t: &Total, path: &str, prop: &str, took: Duration) {
    let map = |m: &BTreeMap<String, u64>| -> String {
        m.iter().map(|(k, v)| format!("{}:{v}", json(k))).collect::<Vec<_>>().join(",")
    };
    let list = |v: &[String]| v.join(",");
    let broken: Vec<String> = t.broken.iter().map(|b| json(b)).collect();
    let s = format!(
        "{{\"prop\":{},\"jobs\":{},\"skipped\":{},\"traces\":{},\"seconds\":{:.2},\"counts\":{{{}}},\"notes\":{{{}}},\"roots\":{{{}}},\"samples\":[{}],\"violations\":[{}],\"broken\":[{}]}}\n",
        json(prop), t.jobs, t.skipped, t.traces.len(), took.as_secs_f64(), map(&t.counts), map(&t.notes),
        t.roots.iter().map(|(k, v)| format!("{}:\"{v:016x}\"", json(k))).collect::<Vec<_>>().join(","),
        list(&t.samples), list(&t.violations), broken.join(","));
    std::fs::write(path, s).expect("result");
}
