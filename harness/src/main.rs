#![allow(unused_assignments, dead_code)]

mod gen;
mod mon;
#[cfg(feature = "net")]
mod net;
mod props;
mod refdns;
mod rng;
mod sut;

use mon::{json_str, Cfg, Outcome, Prop, Status};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::time::Duration;

#[global_allocator]
static METER: mon::Meter = mon::Meter;

struct Args {
    mode: String,
    prop: String,
    tier: String,
    seed: u64,
    only: Option<u64>,
    cases: Option<u64>,
    threads: usize,
    status: Option<PathBuf>,
    engine: String,
    no_evidence: bool,
}

fn parse_args() -> Args {
    let mut it = std::env::args().skip(1);
    let mode = it.next().unwrap_or_default();
    let prop = it.next().unwrap_or_default();
    let env = |k: &str| std::env::var(k).ok();
    let mut a = Args {
        mode,
        prop,
        tier: env("VERIF_TIER").unwrap_or_else(|| "quick".into()),
        seed: env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1),
        only: None,
        cases: None,
        threads: 8,
        status: None,
        engine: "native".into(),
        no_evidence: false,
    };
    while let Some(k) = it.next() {
        if k == "--no-evidence" {
            a.no_evidence = true;
            continue;
        }
        let v = it.next().unwrap_or_default();
        match k.as_str() {
            "--tier" => a.tier = v,
            "--seed" => a.seed = v.parse().unwrap(),
            "--only" => a.only = Some(v.parse().unwrap()),
            "--cases" => a.cases = Some(v.parse().unwrap()),
            "--threads" => a.threads = v.parse().unwrap(),
            "--status" => a.status = Some(v.into()),
            "--engine" => a.engine = v,
            _ => {
                eprintln!("unknown option {k}");
                std::process::exit(2);
            }
        }
    }
    if a.tier != "quick" && a.tier != "thorough" {
        eprintln!("bad tier {}", a.tier);
        std::process::exit(2);
    }
    a
}

fn root() -> PathBuf {
    Path::new(env!("CARGO_MANIFEST_DIR"))
        .parent()
        .unwrap()
        .to_path_buf()
}

/// Known findings: `known: property=<id> sig=<signature> ...` lines. (`fixed:` lines suppress
/// nothing.)
fn known_findings() -> Vec<(String, String)> {
    let text = std::fs::read_to_string(root().join("known-findings.txt")).unwrap_or_default();
    let mut v = vec![];
    for l in text.lines() {
        if let Some(rest) = l.strip_prefix("known: ") {
            let get = |k: &str| {
                rest.split_whitespace()
                    .find_map(|w| w.strip_prefix(k))
                    .map(str::to_string)
            };
            if let (Some(p), Some(s)) = (get("property="), get("sig=")) {
                v.push((p, s));
            }
        }
    }
    v
}

fn evidence(a: &Args, p: &Prop, o: &Outcome, extra: &str) -> String {
    let st = &o.stats;
    let counters: Vec<String> = st
        .counters
        .iter()
        .map(|(k, v)| format!("      {}: {v}", json_str(k)))
        .collect();
    let counters = counters.join(",\n");
    let samples: Vec<String> = st.samples.iter().take(6).map(|s| json_str(s)).collect();
    let known: Vec<String> = st
        .known
        .iter()
        .map(|(k, (n, w))| {
            format!(
                "{{\"signature\": {}, \"occurrences\": {n}, \"example\": {}}}",
                json_str(k),
                json_str(w)
            )
        })
        .collect();
    let inc: Vec<String> = st
        .inconclusive
        .iter()
        .map(|(k, n)| format!("{}: {n}", json_str(k)))
        .collect();
    format!(
        "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": \"exploration\",\n  \"coverage\": {{\n    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n    \"rule\": {},\n    \"samples\": [{}],\n    \"observed\": {{\n{counters}\n    }},\n    \"known_findings_seen\": [{}],\n    \"inconclusive\": {{{}}}{extra}\n  }},\n  \"assumptions\": [\"the reference model in harness/src/refdns.rs states the wire format and the documented behaviour correctly\", \"held on the executions counted here, nothing more\"],\n  \"wall_s\": {:.3},\n  \"violations\": {}\n}}\n",
        json_str(p.id),
        json_str(&a.tier),
        a.seed,
        st.evals,
        st.distinct.len(),
        json_str(p.rule),
        samples.join(", "),
        known.join(", "),
        inc.join(", "),
        o.wall,
        u8::from(o.violation.is_some()),
    )
}

fn write_replay(a: &Args, idx: u64, msg: &str, note: &str) -> PathBuf {
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("replay-{}.json", a.prop));
    let text = format!(
        "{{\n  \"property\": {},\n  \"seed\": {},\n  \"tier\": {},\n  \"case\": {idx},\n  \"engine\": {},\n  \"what\": {},\n  \"input\": {},\n  \"rerun\": {}\n}}\n",
        json_str(&a.prop),
        a.seed,
        json_str(&a.tier),
        json_str(&a.engine),
        json_str(msg),
        json_str(note),
        json_str(&format!("./check.sh {} {} --seed {} --only {idx}", a.prop, a.tier, a.seed)),
    );
    let _ = std::fs::write(&path, text);
    path
}

fn report_violation(a: &Args, idx: u64, msg: &str, note: &str) {
    let path = write_replay(a, idx, msg, note);
    println!("case {idx}: {msg}");
    println!("input: {note}");
    println!("VIOLATION property={} replay={}", a.prop, path.display());
}

fn child(a: &Args, p: &Prop) -> i32 {
    // Monitors that need port 5353 and multicast run in networks of their own.
    #[cfg(feature = "net")]
    if ["C12", "C22", "C23", "C25", "C27", "C29", "C30", "C31"].contains(&p.id) {
        let r = net::enter_user_namespace().and_then(|()| net::fresh_network().map_err(|e| format!("{e:?}")));
        if let Err(e) = r {
            println!("INCONCLUSIVE: no network namespace: {e}");
            return 3;
        }
    }
    mon::install_logger();
    #[cfg(not(miri))]
    let status = match &a.status {
        Some(path) => Status::open(path, false).unwrap_or_else(|_| Status::local()),
        None => Status::local(),
    };
    #[cfg(miri)]
    let status = Status::local();
    let cfg = Cfg {
        prop: a.prop.clone(),
        seed: a.seed,
        thorough: a.tier == "thorough",
        only: a.only,
        cases: a.cases,
        threads: a.threads,
        wall_cap: if a.tier == "thorough" {
            Duration::from_secs(660)
        } else {
            Duration::from_secs(240)
        },
    };
    let known = known_findings();
    let mut o = mon::run_prop(p, &cfg, &known, &status);
    // A panic on a thread that runs the code under test, in whatever form it surfaced.
    for (loc, msg) in mon::thread_panics() {
        if o.violation.is_none() && !mon::is_harness_location(&loc) {
            o.violation = Some((
                a.only.unwrap_or(0),
                format!("panic on a library thread at {loc}: {msg}"),
                String::new(),
            ));
        }
    }
    let inc: u64 = o.stats.inconclusive.values().sum();
    let missing: Vec<_> = p
        .required
        .iter()
        .filter(|k| o.stats.counters.get(**k).copied().unwrap_or(0) == 0)
        .collect();
    let judged = o.stats.evals.saturating_sub(inc);
    let blind = a.only.is_none() && (judged == 0 || !missing.is_empty() || o.stats.distinct.len() < 2);
    if !a.no_evidence {
        let dir = root().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        let e = evidence(a, p, &o, &format!(",\n    \"engine\": {}", json_str(&a.engine)));
        if let Err(e) = std::fs::write(dir.join(format!("{}.json", p.id)), e) {
            eprintln!("cannot write evidence: {e}");
            return 3;
        }
    }
    let st = &o.stats;
    println!(
        "{} [{} {} seed {}] {} evaluations, {} distinct non-trivial, {} inconclusive, {:.1} s",
        p.id,
        a.engine,
        a.tier,
        a.seed,
        st.evals,
        st.distinct.len(),
        inc,
        o.wall
    );
    let obs: Vec<String> = st.counters.iter().map(|(k, v)| format!("{k}={v}")).collect();
    println!("observed: {}", obs.join(" "));
    for (m, n) in &st.inconclusive {
        println!("inconclusive ({n}x): {m}");
    }
    for (k, (n, w)) in &st.known {
        println!(
            "KNOWN-FINDING: property={} {k}: {w} ({n} occurrences)",
            p.id
        );
    }
    if let Some((idx, msg, note)) = &o.violation {
        report_violation(a, *idx, msg, note);
        return 1;
    }
    if let Some(e) = &o.harness_error {
        println!("INCONCLUSIVE: {e}");
        return 3;
    }
    if blind {
        println!("INCONCLUSIVE: nothing observed (judged={judged}, never seen: {missing:?})");
        return 3;
    }
    let _ = std::io::stdout().flush();
    0
}

#[cfg(not(miri))]
fn supervise(a: &Args) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().unwrap();
    let dir = root().join("target").join("run");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("status-{}-{}", a.prop, std::process::id()));
    let status = match Status::open(&path, true) {
        Ok(s) => s,
        Err(e) => {
            println!("INCONCLUSIVE: cannot set up status file: {e}");
            return 3;
        }
    };
    let spawn = |only: Option<u64>, wall: Duration| -> Option<std::process::ExitStatus> {
        let mut c = std::process::Command::new(&exe);
        c.args(["child", &a.prop, "--tier", &a.tier, "--seed", &a.seed.to_string()]);
        c.args(["--threads", &a.threads.to_string(), "--engine", &a.engine]);
        c.arg("--status").arg(&path);
        if let Some(n) = a.cases {
            c.args(["--cases", &n.to_string()]);
        }
        if let Some(i) = only.or(a.only) {
            c.args(["--only", &i.to_string()]);
        }
        if only.is_some() || a.no_evidence {
            c.arg("--no-evidence");
        }
        let mut ch = c.spawn().ok()?;
        let t = std::time::Instant::now();
        loop {
            match ch.try_wait() {
                Ok(Some(s)) => return Some(s),
                Ok(None) => {}
                Err(_) => return None,
            }
            if t.elapsed() > wall {
                let _ = ch.kill();
                let _ = ch.wait();
                return None;
            }
            std::thread::sleep(Duration::from_millis(20));
        }
    };
    let wall = Duration::from_secs(if a.tier == "thorough" { 840 } else { 500 });
    let describe = |s: &std::process::ExitStatus| -> Option<String> {
        match (s.code(), s.signal()) {
            (Some(mon::EXIT_MEMORY), _) => Some("unbounded memory use".into()),
            (Some(mon::EXIT_CPU), _) => Some(format!(
                "no termination: more than {} s of CPU time in one case",
                mon::CPU_LIMIT
            )),
            // AddressSanitizer's exit code
            (Some(99), _) => Some("AddressSanitizer report".into()),
            (_, Some(s @ (libc::SIGABRT | libc::SIGSEGV | libc::SIGBUS | libc::SIGILL | libc::SIGFPE))) => {
                Some(format!("fatal signal {s}"))
            }
            _ => None,
        }
    };
    let r = spawn(None, wall);
    let code = match r {
        None => {
            println!("INCONCLUSIVE: the run did not finish in {} s", wall.as_secs());
            3
        }
        Some(s) => match describe(&s) {
            None => s.code().unwrap_or(3),
            Some(what) => {
                // Reproduce: the culprit is one of the cases that were being worked on.
                let active = status.active();
                println!("{what}; cases in progress: {active:?}; reproducing");
                let mut res = 3;
                for idx in active {
                    if let Some(s2) = spawn(Some(idx), Duration::from_secs(90)) {
                        if let Some(w2) = describe(&s2) {
                            let ev = format!(
                                "{{\n  \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",\n  \"coverage\": {{\"evaluations\": {}, \"distinct_nontrivial\": 1, \"rule\": \"run ended by a violation\", \"samples\": [{}]}},\n  \"wall_s\": 0, \"violations\": 1\n}}\n",
                                json_str(&a.prop),
                                json_str(&a.tier),
                                a.seed,
                                idx + 1,
                                json_str(&w2)
                            );
                            let _ = std::fs::write(
                                root().join("evidence").join(format!("{}.json", a.prop)),
                                ev,
                            );
                            report_violation(a, idx, &w2, "see rerun command");
                            res = 1;
                            break;
                        } else if s2.code() == Some(1) {
                            res = 1;
                            break;
                        }
                    }
                }
                if res == 3 {
                    println!("INCONCLUSIVE: {what}, but not reproduced");
                }
                res
            }
        },
    };
    let _ = std::fs::remove_file(&path);
    code
}

fn main() {
    let a = parse_args();
    if a.mode == "list" {
        for p in props::all() {
            println!("{}", p.id);
        }
        return;
    }
    let Some(p) = props::all().into_iter().find(|p| p.id == a.prop) else {
        eprintln!("usage: monitor run|child|list <property> [options]; unknown property {:?}", a.prop);
        std::process::exit(2);
    };
    let code = match a.mode.as_str() {
        "child" => child(&a, &p),
        #[cfg(not(miri))]
        "run" => supervise(&a),
        _ => 2,
    };
    let _ = std::io::stdout().flush();
    std::process::exit(code);
}
