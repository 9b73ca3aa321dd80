//! The deciding step: seeded search over simulated runs, reporting, replay.

use crate::json::*;
use crate::props::{self, Verdict};
use crate::rng::{hash_bytes, mix};
use crate::runner::*;
use crate::scenario::*;
use crate::server::Config;
use crate::shrink::Shrinker;
use std::collections::{BTreeMap, HashSet};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

fn env(k: &str) -> String {
    std::env::var(k).unwrap_or_default()
}
fn home() -> PathBuf {
    let h = env("C8SIM_HOME");
    PathBuf::from(if h.is_empty() { "/verif".into() } else { h })
}
fn config() -> Config {
    Config { debug_bin: env("C8SIM_DEBUG_BIN"), release_bin: env("C8SIM_RELEASE_BIN"), shim: env("C8SIM_SHIM"), cpu_limit: 40, wall_limit: Duration::from_secs(200) }
}
fn workers() -> usize {
    env("C8SIM_WORKERS").parse().unwrap_or_else(|_| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)).clamp(1, 16)
}
fn verif_seed() -> u64 {
    env("VERIF_SEED").parse().unwrap_or(1)
}

/// The seed of run `k` of a property.
fn run_seed(prop: &str, k: u64) -> u64 {
    mix(&[verif_seed(), hash_bytes(prop.as_bytes()), k]) >> 1
}

/// Runs per check: (quick, thorough).
fn runs(prop: &str) -> (u64, u64) {
    match prop {
        "C01" => (140_000, 1_200_000),
        "C02" => (80_000, 700_000),
        "C03" => (50_000, 900_000),
        "C04" => (50_000, 900_000),
        "C05" => (40_000, 700_000),
        "C06" => (30_000, 500_000),
        "C07" => (15_000, 250_000),
        "C08" => (50_000, 900_000),
        "C09" => (60_000, 500_000),
        "C10" => (90_000, 800_000),
        "C11" => (12_000, 200_000),
        "C12" => (36_000, 600_000),
        "C13" => (40_000, 700_000),
        "C14" => (45_000, 500_000),
        "C22" => (36_000, 600_000),
        "C23" => (16_000, 250_000),
        _ => (36_000, 600_000),
    }
}

#[derive(Default)]
struct Stats {
    runs: u64,
    processes: u64,
    compared: u64,
    calls: u64,
    sim_ns: i128,
    rerun: u64,
    slowest: f64,
    nontrivial: HashSet<u64>,
    traces: HashSet<u64>,
    outputs: HashSet<u64>,
    faults: BTreeMap<String, u64>,
    kinds: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    statuses: BTreeMap<String, u64>,
    refused: BTreeMap<String, u64>,
    env_reads: BTreeMap<String, u64>,
    known: BTreeMap<String, u64>,
    samples: Vec<(u64, J)>,
}

fn bump(m: &mut BTreeMap<String, u64>, k: &str, n: u64) {
    *m.entry(k.to_string()).or_insert(0) += n;
}
fn add(a: &mut BTreeMap<String, u64>, b: BTreeMap<String, u64>) {
    for (k, v) in b {
        *a.entry(k).or_insert(0) += v;
    }
}

impl Stats {
    fn record(&mut self, k: u64, sc: &Scenario, v: &Verdict) {
        let h = &v.history;
        self.runs += 1;
        self.processes += h.procs.len() as u64;
        self.compared += v.compared;
        self.calls += h.events.len() as u64;
        self.sim_ns += h.sim_ns as i128;
        bump(&mut self.kinds, &sc.kind, 1);
        for p in &v.probes {
            bump(&mut self.probes, p, 1);
        }
        let mut hard = false;
        for e in &h.events {
            if e.proc >= 1000 && !sc.phases.iter().all(|p| matches!(p, Phase::Edit(_))) {
                bump(&mut self.faults, &format!("edit by another party: {}", e.call.split_whitespace().next().unwrap_or("?")), 1);
            }
        }
        for p in &h.procs {
            let st = match &p.status {
                Status::Exit(n) => format!("exit {}", n),
                Status::Signal(n) => format!("signal {}", n),
                Status::Killed => "killed by the simulator".into(),
                Status::Hang => "hang".into(),
            };
            bump(&mut self.statuses, &st, 1);
            for f in &p.fired {
                bump(&mut self.faults, &format!("{} on {}", f.act.name(), class_name(f.class)), 1);
                hard = true;
            }
            if p.limit_hit {
                bump(&mut self.faults, "consumer of standard output gone or failing", 1);
                hard = true;
            }
            if p.nospace_hit {
                bump(&mut self.faults, "device full", 1);
                hard = true;
            }
            if p.alloc_fired > 0 {
                bump(&mut self.faults, "allocation failure", p.alloc_fired as u64);
                hard = true;
            }
            let c = [&p.spec.read_chunks, &p.spec.write_chunks, &p.spec.stdout_chunks].iter().filter(|c| !c.is_empty()).count();
            if c > 0 {
                bump(&mut self.faults, "limited transfer sizes (streams per process)", c as u64);
                hard = true;
            }
            if p.spec.entropy != 1 || p.spec.heap_shift > 0 || p.spec.env_chaos > 0 || !p.spec.env.is_empty() {
                bump(&mut self.faults, "perturbed machine (entropy, clock, environment, heap)", 1);
                hard = true;
            }
            for r in &p.refused {
                bump(&mut self.refused, r, 1);
            }
            for r in &p.env_reads {
                bump(&mut self.env_reads, r, 1);
            }
        }
        if h.procs.len() > 1 {
            hard = true;
        }
        let t = h.trace_hash();
        self.traces.insert(t);
        let src: u64 = h.procs.iter().fold(0, |a, p| mix(&[a, hash_bytes(p.source.as_deref().unwrap_or(b"\0none"))]));
        for s in &h.snaps {
            self.outputs.insert(mix(&[hash_bytes(s.path.as_bytes()), hash_bytes(s.content.as_deref().unwrap_or(b"\0none"))]));
        }
        if hard {
            self.nontrivial.insert(mix(&[t, src]));
        }
        if hard && self.samples.len() < 2 {
            let tr = h.trace();
            if tr.len() >= 6 && tr.len() < 60 && h.procs.iter().all(|p| p.source.as_ref().map_or(true, |s| s.len() < 600)) {
                self.samples.push((
                    k,
                    obj(vec![
                        ("run", i(k)),
                        ("scenario", sc.to_json()),
                        ("trace", arr(tr.iter().map(|l| s(l)).collect())),
                        ("ended", arr(h.procs.iter().map(|p| s(&format!("{:?}", p.status))).collect())),
                    ]),
                ));
            }
        }
    }

    fn merge(&mut self, o: Stats) {
        self.runs += o.runs;
        self.processes += o.processes;
        self.compared += o.compared;
        self.calls += o.calls;
        self.sim_ns += o.sim_ns;
        self.rerun += o.rerun;
        self.slowest = self.slowest.max(o.slowest);
        self.traces.extend(o.traces);
        self.outputs.extend(o.outputs);
        self.nontrivial.extend(o.nontrivial);
        add(&mut self.faults, o.faults);
        add(&mut self.kinds, o.kinds);
        add(&mut self.probes, o.probes);
        add(&mut self.statuses, o.statuses);
        add(&mut self.refused, o.refused);
        add(&mut self.env_reads, o.env_reads);
        add(&mut self.known, o.known);
        self.samples.extend(o.samples);
    }
}

struct Found {
    index: u64,
    scenario: Scenario,
    class: String,
    msg: String,
    site: Option<String>,
}

/// (property, site, description) of the findings recorded as known.
fn known_findings() -> Vec<(String, String, String)> {
    let t = std::fs::read_to_string(home().join("KNOWN_FINDINGS.txt")).unwrap_or_default();
    let mut v = vec![];
    for l in t.lines() {
        if let Some(rest) = l.strip_prefix("known: property=") {
            let mut w = rest.splitn(3, ' ');
            let p = w.next().unwrap_or("").to_string();
            let site = w.next().unwrap_or("").trim_start_matches("site=").to_string();
            v.push((p, site, w.next().unwrap_or("").to_string()));
        }
    }
    v
}

pub fn check(prop: &str, tier: &str) -> i32 {
    if !props::IDS.contains(&prop) {
        eprintln!("unknown property {}", prop);
        return 2;
    }
    let thorough = tier == "thorough";
    let (q, t) = runs(prop);
    let total: u64 = env("C8SIM_RUNS").parse().unwrap_or(if thorough { t } else { q });
    let wall_cap: u64 = env("C8SIM_WALL").parse().unwrap_or(if thorough { 3600 } else { 240 });
    let wall_cap = Duration::from_secs(wall_cap);
    let cfg = config();
    let known = known_findings();
    let n = workers();
    println!("c8sim: property {} tier {} VERIF_SEED {} runs {} workers {}", prop, tier, verif_seed(), total, n);
    let start = Instant::now();
    let next = AtomicU64::new(0);
    let lowest = AtomicU64::new(u64::MAX);
    let broken = AtomicBool::new(false);
    let found: Mutex<Vec<Found>> = Mutex::new(vec![]);
    let error: Mutex<Option<String>> = Mutex::new(None);
    let all: Mutex<Stats> = Mutex::new(Stats::default());
    std::thread::scope(|scope| {
        for _ in 0..n {
            scope.spawn(|| {
                let mut run = Runner::new(&cfg);
                let mut st = Stats::default();
                let mut errors = 0;
                loop {
                    let k = next.fetch_add(1, Ordering::SeqCst);
                    if k >= total || k > lowest.load(Ordering::SeqCst) || broken.load(Ordering::SeqCst) || start.elapsed() > wall_cap {
                        break;
                    }
                    let seed = run_seed(prop, k);
                    let began = Instant::now();
                    let res = props::generate(prop, seed, thorough, &mut run).and_then(|sc| props::judge(prop, &sc, &mut run).map(|v| (sc, v)));
                    let (sc, v) = match res {
                        Ok(x) => x,
                        Err(e) => {
                            // A lost fork server is retried once with a new one.
                            errors += 1;
                            let again = props::generate(prop, seed, thorough, &mut run).and_then(|sc| props::judge(prop, &sc, &mut run).map(|v| (sc, v)));
                            match again {
                                Ok(x) if errors < 4 => x,
                                _ => {
                                    broken.store(true, Ordering::SeqCst);
                                    *error.lock().unwrap() = Some(format!("run {} (seed {}): {}", k, seed, e.0));
                                    break;
                                }
                            }
                        }
                    };
                    if let Some((class, msg)) = &v.fail {
                        let is_known = v.site.as_ref().map_or(false, |s| known.iter().any(|f| f.0 == prop && f.1 == *s));
                        if is_known {
                            bump(&mut st.known, v.site.as_ref().unwrap(), 1);
                        } else {
                            lowest.fetch_min(k, Ordering::SeqCst);
                            found.lock().unwrap().push(Found { index: k, scenario: sc.clone(), class: class.clone(), msg: msg.clone(), site: v.site.clone() });
                        }
                    }
                    if k % 64 == 0 && v.fail.is_none() {
                        // The same scenario again must be the same execution.
                        st.rerun += 1;
                        if let Ok(h) = run.run(&sc) {
                            if h.hash() != v.history.hash() {
                                broken.store(true, Ordering::SeqCst);
                                let p = save(&sc, &format!("{}-nondeterministic-{}", prop, seed), vec![]);
                                *error.lock().unwrap() = Some(format!("run {} (seed {}) is not repeatable; scenario in {}", k, seed, p.display()));
                                break;
                            }
                        }
                    }
                    st.slowest = st.slowest.max(began.elapsed().as_secs_f64());
                    if began.elapsed().as_millis() > 1500 && !env("C8SIM_SLOW").is_empty() {
                        println!("slow: run {} {} calls {:?}", k, v.history.events.len(), began.elapsed());
                    }
                    st.record(k, &sc, &v);
                }
                all.lock().unwrap().merge(st);
            });
        }
    });
    let stats = all.into_inner().unwrap();
    let mut found = found.into_inner().unwrap();
    found.sort_by_key(|f| f.index);
    let searched = start.elapsed();
    let mut code = 0;
    let mut violations = 0;
    if let Some(f) = found.into_iter().next() {
        match report(prop, f, &cfg) {
            Ok(line) => {
                println!("{}", line);
                violations = 1;
                code = 1;
            }
            Err(e) => {
                eprintln!("harness error: {}", e);
                code = 2;
            }
        }
    } else if let Some(e) = error.into_inner().unwrap() {
        eprintln!("harness error: {}", e);
        code = 2;
    }
    for (site, count) in &stats.known {
        let what = known.iter().find(|f| f.0 == prop && f.1 == *site).map(|f| f.2.clone()).unwrap_or_default();
        println!("KNOWN-FINDING: property={} site={} {} (seen in {} runs)", prop, site, what, count);
    }
    evidence(prop, if thorough { "thorough" } else { "quick" }, stats, start.elapsed().as_secs_f64(), searched.as_secs_f64(), violations, total, n);
    code
}

fn save(sc: &Scenario, name: &str, extra: Vec<(&str, J)>) -> PathBuf {
    let dir = home().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{}.json", name));
    let mut v = vec![("scenario", sc.to_json())];
    v.extend(extra);
    let _ = std::fs::write(&p, obj(v).render());
    p
}

/// Confirms, minimises, writes and replays a violation.
fn report(prop: &str, f: Found, cfg: &Config) -> Result<String, String> {
    let mut run = Runner::new(cfg);
    println!("run {} (seed {}) violates {}: [{}] {}", f.index, f.scenario.seed, prop, f.class, f.msg);
    let again = props::judge(prop, &f.scenario, &mut run).map_err(|e| e.0)?;
    if again.fail.as_ref().map(|x| &x.0) != Some(&f.class) {
        return Err(format!("the violation of run {} did not repeat", f.index));
    }
    let mut sc = f.scenario.clone();
    let mut sh = Shrinker::new(&mut run, prop, &f.class, f.site.clone(), env("C8SIM_SHRINK").parse().unwrap_or(1500), Duration::from_secs(60));
    sh.minimise(&mut sc);
    let tried = sh.tried;
    let v = props::judge(prop, &sc, &mut run).map_err(|e| e.0)?;
    let (class, msg) = v.fail.clone().ok_or("the minimised scenario does not fail")?;
    let trace = arr(v.history.trace().iter().map(|l| s(l)).collect());
    let name = format!("{}-{}", prop, f.scenario.seed);
    let path = save(
        &sc,
        &name,
        vec![
            ("property", s(prop)),
            ("verif_seed", i(verif_seed())),
            ("run", i(f.index)),
            ("run_seed", i(f.scenario.seed)),
            ("class", s(&class)),
            ("violation", s(&msg)),
            ("history_hash", s(&format!("{:016x}", v.history.hash()))),
            ("trace", trace),
        ],
    );
    println!("minimised after {} executions: {} phases, {} files, {} system calls", tried, sc.phases.len(), sc.files.len(), v.history.events.len());
    println!("violation: [{}] {}", class, msg);
    for l in v.history.trace().iter().take(80) {
        println!("  {}", l);
    }
    // A fresh process must reproduce it from the file alone.
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let st = std::process::Command::new(exe).arg("replay").arg(&path).stdout(std::process::Stdio::null()).status().map_err(|e| e.to_string())?;
    if st.code() != Some(1) {
        return Err(format!("the replay file {} did not reproduce the violation ({:?})", path.display(), st.code()));
    }
    Ok(format!("VIOLATION property={} replay={}", prop, path.display()))
}

/// Exit 1: reproduced exactly; 0: the property holds on it now; 3: fails differently.
pub fn replay(file: &str) -> i32 {
    let t = match std::fs::read_to_string(Path::new(file)) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {}", file, e);
            return 2;
        }
    };
    let j = match J::parse(&t) {
        Ok(j) => j,
        Err(e) => {
            eprintln!("{}: {}", file, e);
            return 2;
        }
    };
    let sc = Scenario::from_json(j.get("scenario"));
    let prop = sc.property.clone();
    let mut run = Runner::new(&config());
    let v = match props::judge(&prop, &sc, &mut run) {
        Ok(v) => v,
        Err(e) => {
            eprintln!("harness error: {}", e.0);
            return 2;
        }
    };
    for l in v.history.trace() {
        println!("  {}", l);
    }
    for p in &v.history.procs {
        println!("{:?}: {:?}; stdout {:?} stderr {:?}", p.spec.argv, p.status, String::from_utf8_lossy(&p.stdout), String::from_utf8_lossy(&p.stderr));
    }
    match v.fail {
        None => {
            println!("property {} holds on this replay", prop);
            0
        }
        Some((class, msg)) => {
            let same = class == j.get("class").as_str() && msg == j.get("violation").as_str() && format!("{:016x}", v.history.hash()) == j.get("history_hash").as_str();
            println!("VIOLATION property={} replay={}\n[{}] {}", prop, file, class, msg);
            if same || *j.get("class") == J::Null {
                println!("reproduced exactly");
                1
            } else {
                println!("fails, but not as recorded");
                3
            }
        }
    }
}

/// Every scenario twice, in different workers and at different worker counts.
pub fn selftest(count: u64) -> i32 {
    let cfg = config();
    let mut reference: BTreeMap<(String, u64), u64> = BTreeMap::new();
    let mut bad = 0;
    for n in [1usize, 8, 3] {
        let next = AtomicU64::new(0);
        let out: Mutex<Vec<((String, u64), u64)>> = Mutex::new(vec![]);
        std::thread::scope(|scope| {
            for _ in 0..n {
                scope.spawn(|| {
                    let mut run = Runner::new(&cfg);
                    loop {
                        let k = next.fetch_add(1, Ordering::SeqCst);
                        if k >= count * props::IDS.len() as u64 {
                            break;
                        }
                        let prop = props::IDS[(k % props::IDS.len() as u64) as usize];
                        let idx = k / props::IDS.len() as u64;
                        let seed = run_seed(prop, idx + 1_000_000);
                        let h = props::generate(prop, seed, false, &mut run).and_then(|sc| {
                            let back = Scenario::from_json(&J::parse(&sc.to_json().render()).unwrap());
                            if back != sc {
                                println!("scenario {} {} does not survive serialisation", prop, seed);
                                std::process::exit(2);
                            }
                            run.run(&sc)
                        });
                        match h {
                            Ok(h) => out.lock().unwrap().push(((prop.to_string(), seed), h.hash())),
                            Err(e) => println!("{} {}: {}", prop, seed, e.0),
                        }
                    }
                });
            }
        });
        for (k, h) in out.into_inner().unwrap() {
            match reference.get(&k) {
                None => {
                    reference.insert(k, h);
                }
                Some(r) if *r != h => {
                    println!("{} {} differs", k.0, k.1);
                    bad += 1;
                }
                _ => {}
            }
        }
    }
    println!("selftest: {} scenarios at 1, 8 and 3 workers, {} divergences, log hash {:016x}", reference.len(), bad, reference.values().fold(0, |a, b| mix(&[a, *b])));
    if bad > 0 {
        2
    } else {
        0
    }
}

fn evidence(prop: &str, tier: &str, st: Stats, wall: f64, searched: f64, violations: i64, planned: u64, workers: usize) {
    let mut samples = st.samples;
    samples.sort_by_key(|x| x.0);
    samples.truncate(3);
    let per_hour = |x: u64| i((x as f64 / searched.max(0.001) * 3600.0) as i64);
    let cov = obj(vec![
        ("evaluations", i(st.runs)),
        ("planned_runs", i(planned)),
        ("distinct_nontrivial", i(st.nontrivial.len() as u64)),
        (
            "rule",
            s("One evaluation is one simulated run generated from its own seed. It is non-trivial if a fault fired, a transfer was limited, the machine was perturbed, or several processes took part; it is distinct if the pair (sequence of all simulated calls with results and faults, source texts) was not seen before."),
        ),
        ("samples", arr(samples.into_iter().map(|x| x.1).collect())),
        ("seeds_per_hour", per_hour(st.runs)),
        ("simulated_processes", i(st.processes)),
        ("comparison_runs", i(st.compared)),
        ("processes_per_hour", per_hour(st.processes + st.compared)),
        ("system_calls_simulated", i(st.calls)),
        ("simulated_seconds", J::Num((st.sim_ns / 1_000_000) as f64 / 1000.0)),
        ("distinct_interleavings", i(st.traces.len() as u64)),
        ("distinct_interleavings_measure", s("distinct hashes of the whole event log: who moved, which call, its result, its fault")),
        ("distinct_output_states", i(st.outputs.len() as u64)),
        ("faults_fired", counts(&st.faults)),
        ("workload_kinds", counts(&st.kinds)),
        ("probes", counts(&st.probes)),
        ("process_endings", counts(&st.statuses)),
        ("runs_executed_twice_and_compared", i(st.rerun)),
        ("known_findings_seen", counts(&st.known)),
        ("calls_refused_by_the_simulator", counts(&st.refused)),
        ("environment_variables_read", counts(&st.env_reads)),
        ("slowest_run_s", J::Num(st.slowest)),
        ("workers", i(workers as u64)),
        (
            "real_components",
            arr(vec![s("the complete c8s executable, debug and release build, unmodified, with std, regex, getopts, ihex, twelve_bit and the C library's allocator")]),
        ),
        (
            "stubbed_components",
            arr(vec![s("system calls: files, directories, standard streams, entropy, clocks, sleep, identity, environment (simulated kernel behind the C library)"), s("devices: /dev/null, /dev/full, /dev/stdin, /dev/stdout, /dev/urandom")]),
        ),
    ]);
    let j = obj(vec![
        ("property", s(prop)),
        ("tier", s(tier)),
        ("seed", i(verif_seed())),
        ("level", s("exploration")),
        ("coverage", cov),
        (
            "assumptions",
            arr(vec![
                s("the simulated kernel answers as Linux would for the calls c8s makes"),
                s("c8s reaches the system only through the C library functions the shim replaces (others are refused and counted)"),
                s("the reference model of the language is right where it and c8s agree on the unchanged tree"),
                s("a seeded sample: runs that were not drawn are not covered"),
            ]),
        ),
        ("wall_s", J::Num(wall)),
        ("violations", J::Int(violations)),
    ]);
    let dir = home().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(dir.join(format!("{}.json", prop)), j.render());
}
