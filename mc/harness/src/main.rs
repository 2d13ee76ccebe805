#![allow(dead_code)]

mod alloc;
mod auth;
mod client;
mod cluster;
mod codec;
mod def;
mod disc;
mod member;
mod front;
mod gate;
mod gone;
mod held;
mod live;
mod long;
mod third;
mod mesh;
mod place;
mod topics;
mod peer;
mod redis;
mod route;
mod scale;
mod secure;
mod store;
mod transport;
mod util;

use std::os::unix::process::CommandExt;
use std::collections::BTreeMap;
use std::time::{Duration, Instant};

use serde_json::{json, Value};
use vmc::explore::{self, Scenario};

#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;

pub fn registry(id: &str, thorough: bool) -> Vec<Scenario> {
    let mut v = vec![];
    codec::register(id, thorough, &mut v);
    live::register(id, thorough, &mut v);
    client::register(id, thorough, &mut v);
    transport::register(id, thorough, &mut v);
    route::register(id, thorough, &mut v);
    scale::register(id, thorough, &mut v);
    secure::register(id, thorough, &mut v);
    long::register(id, thorough, &mut v);
    third::register(id, &mut v);
    auth::register(id, thorough, &mut v);
    member::register(id, thorough, &mut v);
    place::register(id, thorough, &mut v);
    mesh::register(id, thorough, &mut v);
    gone::register(id, thorough, &mut v);
    held::register(id, thorough, &mut v);
    store::register(id, thorough, &mut v);
    topics::register(id, thorough, &mut v);
    // For development: only some of the scenarios
    if let Ok(only) = std::env::var("VMC_ONLY") {
        v.retain(|s| only.split(',').any(|o| s.name.contains(o)));
    }
    v
}

/// Initialises what is initialised once per process: it draws hash seeds, and executions must not differ for it
fn warm_up() {
    let s = Scenario::new("warm up", (0, 0), || async {
        let _b = cluster::mesh(2).await;
        let _m = cluster::start_marshal().await;
        let mut a = cluster::login(1, 1, &[0]).await;
        let mut b = cluster::login(2, 2, &[0]).await;
        cluster::exchange().await;
        a.direct(2, &[1]);
        b.broadcast(&[0], &[2; 20_000]);
        cluster::exchange().await;
        a.close();
        cluster::exchange().await;
        let _ = cluster::gauge("num_users_connected");
    });
    let _ = explore::run_one(&s, 0, vec![], None, false);
}

fn verif() -> String {
    std::env::var("VMC_VERIF").unwrap_or_else(|_| "/verif".into())
}

struct Known {
    property: String,
    scenario: String,
    key: String,
    text: String,
}
fn known_findings() -> Vec<Known> {
    let p = format!("{}/known-findings.json", verif());
    let Ok(t) = std::fs::read_to_string(p) else { return vec![] };
    let v: Value = serde_json::from_str(&t).expect("known-findings.json");
    v["findings"]
        .as_array()
        .map(|a| {
            a.iter()
                .map(|f| Known {
                    property: f["property"].as_str().unwrap().into(),
                    scenario: f["scenario"].as_str().unwrap().into(),
                    key: f["key"].as_str().unwrap().into(),
                    text: f["what"].as_str().unwrap().into(),
                })
                .collect()
        })
        .unwrap_or_default()
}

/// Shortens a failing execution and adds its log to the file: in a process of its own, because it may hang
fn refine(path: &str, tier: &str) {
    let Ok(mut c) = std::process::Command::new(std::env::current_exe().unwrap()).args(["refine", path, tier]).spawn() else {
        return;
    };
    let start = Instant::now();
    while c.try_wait().is_ok_and(|x| x.is_none()) {
        if start.elapsed() > Duration::from_secs(40) {
            let _ = c.kill();
            let _ = c.wait();
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

fn refined(path: &str, tier: &str) {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("file")).expect("json");
    let text = |k: &str| v[k].as_str().unwrap().to_string();
    let id = text("property");
    log_for(&id);
    let reg = registry(&id, tier == "thorough");
    let scn = reg.iter().position(|s| s.name == text("scenario")).expect("scenario");
    let mut f = explore::Found {
        scn,
        seed: v["seed"].as_u64().unwrap(),
        prefix: v["choices"].as_array().unwrap().iter().map(|c| c.as_u64().unwrap() as u8).collect(),
        failure: vmc::Failure { kind: text("kind"), key: text("key"), msg: text("message") },
    };
    let s = &reg[scn];
    explore::shrink(s, &mut f, Duration::from_secs(10));
    let o = explore::run_one(s, f.seed, f.prefix.clone(), None, true);
    if !o.failure.as_ref().is_some_and(|x| x.key == f.failure.key) {
        // It did happen, but depends on earlier executions of the same process
        eprintln!("WARNING: {} fails only after other executions: {:?}", s.name, f.failure);
        return;
    }
    let v = explore::replay_value(&id, s, &f, &o.log);
    let _ = std::fs::write(path, serde_json::to_string_pretty(&v).unwrap());
}

fn check(id: &str, tier: &str) -> i32 {
    let thorough = tier == "thorough";
    log_for(id);
    let reg = registry(id, thorough);
    if reg.is_empty() {
        eprintln!("no check for {id}");
        return 2;
    }
    let start = Instant::now();
    let secs = std::env::var("VMC_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 780 } else { 40 });
    let workers = std::env::var("VMC_WORKERS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get()));
    let known = known_findings();
    let listed = |scn: &str, f: &vmc::Failure| known.iter().any(|k| k.property == id && k.scenario == scn && k.key == f.key);
    let args = vec![id.to_string(), tier.to_string()];
    let rep = explore::explore(&reg, thorough, workers, Duration::from_secs(secs), &args, &listed);
    let mut code = 0;
    let mut violations = 0;
    let nondet: u64 = rep.stats.iter().map(|s| s.nondet).sum();
    let mut printed = vec![];
    for f in rep.found {
        let s = &reg[f.scn];
        if listed(&s.name, &f.failure) {
            let k = known.iter().find(|k| k.property == id && k.scenario == s.name && k.key == f.failure.key).unwrap();
            println!("KNOWN-FINDING: property={id} {} [{} {}]", k.text, k.scenario, k.key);
            printed.push((k.scenario.clone(), k.key.clone()));
            continue;
        }
        if f.failure.kind == "nondet" {
            // State that outlives an execution (a static, say): this part of the tree was not explored
            eprintln!("WARNING: {} is not deterministic: {} {:?}", s.name, f.failure.msg, f.prefix);
            continue;
        }
        let dir = format!("{}/evidence/replay", verif());
        let _ = std::fs::create_dir_all(&dir);
        let clean: String = s.name.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '-' }).collect();
        let path = format!("{dir}/{id}-{clean}.json");
        let v = explore::replay_value(id, s, &f, &[]);
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
        println!("VIOLATION property={id} replay={path}");
        println!("  {}: {} {}: {}", s.name, f.failure.kind, f.failure.key, f.failure.msg);
        if f.failure.kind != "crash" {
            refine(&path, tier);
        }
        violations += 1;
        code = 1;
    }
    // evidence
    let mut scns = vec![];
    let mut tot = (0u64, 0u64, 0u64, 0usize);
    let mut complete = true;
    let mut cover: BTreeMap<String, u64> = BTreeMap::new();
    for (s, st) in reg.iter().zip(&rep.stats) {
        tot.0 += st.execs;
        tot.1 += st.steps;
        tot.2 += st.points;
        tot.3 += st.outcomes.len();
        complete &= st.complete;
        for (k, n) in &st.cover {
            *cover.entry(k.clone()).or_default() += n;
        }
        scns.push(json!({"name": s.name, "executions": st.execs, "deviation_bound": st.bound,
            "complete_to_deviations": st.level_done, "complete": st.complete, "seeds": st.seeds,
            "longest_choice_list": st.maxlen, "outcomes": st.outcomes.len(), "known_failures": st.fails}));
    }
    if code == 0 {
        warm_up();
    }
    let samples: Vec<Value> = reg
        .iter()
        .take(if code == 0 { 2 } else { 0 })
        .map(|s| {
            let o = explore::run_one(s, 0, vec![], None, true);
            let mut log = o.log;
            log.truncate(25);
            json!({"scenario": s.name, "choices": o.choices.len(), "first_execution": log})
        })
        .collect();
    if scns.len() > 150 {
        let n = scns.len();
        scns.truncate(150);
        scns.push(json!({"more": n - 150}));
    }
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let ev = json!({
        "property": id, "tier": if thorough {"thorough"} else {"quick"}, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot.2, "transitions": tot.1, "traces_validated_against_impl": tot.0,
            "distinct_outcomes": tot.3, "cases_enumerated_inside_executions": rep.stats.iter().map(|s| s.cases).sum::<u64>(),
            "rule": "stateless model checking of the real code: states = nodes of the choice tree, transitions = task steps, traces = complete executions of the implementation, every one of which is checked",
            "exhaustive": complete, "scenarios": scns, "reached": cover, "samples": samples,
        },
        "assumptions": if id.starts_with('D') {
            vec!["storage commands are atomic: the interleavings, failures and crashes explored are between them",
                "the Redis server is a model of its own (KeyDB's commands with their documented meaning, exact expiry)"]
        } else { vec!["sequentially consistent memory; scheduling points at the operations of the runtime, locks and channels",
            "simulated network, virtual time, ideal signatures (see DESIGN.md)"] },
        "wall_s": start.elapsed().as_secs_f64(), "violations": violations,
    });
    let dir = format!("{}/evidence", verif());
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(format!("{dir}/{id}.json"), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    println!(
        "{id}: {} scenarios, {} executions, {} steps, {} outcomes, {} cases, complete={complete} nondet={nondet} {:.1}s",
        reg.len(), tot.0, tot.1, tot.3, rep.stats.iter().map(|s| s.cases).sum::<u64>(), start.elapsed().as_secs_f64()
    );
    for (k, n) in &cover {
        println!("  reached {k}: {n}");
    }
    if std::env::var_os("VMC_V").is_some() {
        for (s, st) in reg.iter().zip(&rep.stats) {
            println!(
                "  {}: execs {} steps {} maxlen {} bound {} done {:?} complete {} outcomes {} fails {:?}",
                s.name, st.execs, st.steps, st.maxlen, st.bound, st.level_done, st.complete, st.outcomes.len(), st.fails
            );
        }
    }
    code
}

fn replay(path: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("file")).expect("json");
    let id = v["property"].as_str().unwrap();
    let name = v["scenario"].as_str().unwrap();
    let s = registry(id, true).into_iter().chain(registry(id, false)).find(|s| s.name == name).expect("scenario");
    let prefix = v["choices"].as_array().unwrap().iter().map(|c| c.as_u64().unwrap() as u8).collect();
    show(id, &s, v["seed"].as_u64().unwrap(), prefix)
}

/// Hostile input must not trip over what is written to the log either
fn log_for(id: &str) {
    if id == "W02" && std::env::var_os("RUST_LOG").is_none() {
        tracing_subscriber::fmt().with_env_filter("debug").without_time().with_writer(std::io::sink).init();
    }
}

fn show(id: &str, s: &Scenario, seed: u64, prefix: Vec<u8>) -> i32 {
    log_for(id);
    if std::env::var_os("RUST_LOG").is_some() {
        tracing_subscriber::fmt()
            .with_env_filter(tracing_subscriber::EnvFilter::from_default_env())
            .without_time()
            .with_writer(LogWriter)
            .init();
    }
    let o = explore::run_one(s, seed, prefix, None, true);
    for l in &o.log {
        println!("{l}");
    }
    println!("choices {} steps {} tasks {} end {:?} cover {:?}", o.choices.len(), o.steps, o.tasks, o.end_time, o.cover);
    match o.failure {
        Some(f) => {
            println!("FAILURE {} {}: {}", f.kind, f.key, f.msg);
            1
        }
        None => {
            println!("passed");
            0
        }
    }
}

struct LogWriter;
impl std::io::Write for LogWriter {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        vmc::note(|| String::from_utf8_lossy(b).trim_end().to_string());
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl<'a> tracing_subscriber::fmt::MakeWriter<'a> for LogWriter {
    type Writer = LogWriter;
    fn make_writer(&'a self) -> LogWriter {
        LogWriter
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).is_some_and(|c| c != "check") && std::env::var_os("VMC_COLD").is_none() {
        // should the warm-up hang, do without
        let (tx, rx) = std::sync::mpsc::channel::<()>();
        std::thread::spawn(move || {
            if rx.recv_timeout(Duration::from_secs(8)) == Err(std::sync::mpsc::RecvTimeoutError::Timeout) {
                let e = std::process::Command::new(std::env::current_exe().unwrap())
                    .args(std::env::args().skip(1))
                    .env("VMC_COLD", "1")
                    .exec();
                panic!("{e}");
            }
        });
        warm_up();
        drop(tx);
    }
    let code = match a.get(1).map(String::as_str) {
        Some("check") => {
            let tier = a.get(3).cloned().or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
            check(&a[2], &tier)
        }
        Some("worker") => {
            log_for(&a[3]);
            explore::worker_main(&registry(&a[3], a[4] == "thorough"), &a[2]);
            gate::clean();
            0
        }
        Some("replay") => replay(&a[2]),
        Some("refine") => {
            refined(&a[2], &a[3]);
            0
        }
        Some("list") => {
            for s in registry(&a[2], a.get(3).is_some_and(|t| t == "thorough")) {
                println!("{}", s.name);
            }
            0
        }
        // look for differences between executions with the same choices
        Some("same") => {
            let reg = registry(&a[2], true).into_iter().chain(registry(&a[2], false)).collect::<Vec<_>>();
            let s = reg.iter().find(|s| s.name == a[3]).expect("scenario");
            let p: Vec<u8> = a.get(4).map(|s| s.split(',').filter_map(|x| x.parse().ok()).collect()).unwrap_or_default();
            let first = explore::run_one(s, 0, p.clone(), None, true);
            for n in 0..100 {
                let o = explore::run_one(s, 0, p.clone(), None, true);
                if let Some(i) = (0..o.log.len().max(first.log.len())).find(|i| o.log.get(*i) != first.log.get(*i)) {
                    println!("run {n} differs at line {i}");
                    for k in i.saturating_sub(8)..i + 4 {
                        println!("{:?}\n   {:?}", first.log.get(k), o.log.get(k));
                    }
                    break;
                }
            }
            0
        }
        // run one scenario by name with the given choices
        Some("one") => {
            let reg = registry(&a[2], true).into_iter().chain(registry(&a[2], false)).collect::<Vec<_>>();
            let s = reg.iter().find(|s| s.name == a[3]).expect("scenario");
            let p = a.get(4).map(|s| s.split(',').filter_map(|x| x.parse().ok()).collect()).unwrap_or_default();
            show(&a[2], s, 0, p)
        }
        _ => {
            eprintln!("mc check ID [quick|thorough] | replay FILE | list ID | one ID SCENARIO [choices]");
            2
        }
    };
    gate::clean();
    std::process::exit(code);
}
