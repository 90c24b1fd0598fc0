//! Command line of the check binaries: run the tests of one property, write evidence, report.
use crate::fw::*;
use serde_json::{json, Value};
use std::path::{Path, PathBuf};
use std::sync::Arc;
use std::time::{Duration, Instant};

pub type Registry = fn(&str) -> Vec<Box<dyn AnyTest>>;

fn home() -> PathBuf {
    PathBuf::from(std::env::var("PBT_HOME").unwrap_or_else(|_| "/verif".into()))
}

/// Lines "finding: property=<id> test=<name> case=<json>": exact inputs of known, unrepaired defects.
fn known_findings(prop: &str) -> Vec<(String, Value, String)> {
    let text = std::fs::read_to_string(home().join("KNOWN_FINDINGS.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| {
            let rest = l.strip_prefix(&format!("finding: property={prop} test="))?;
            let (test, case) = rest.split_once(" case=")?;
            let case: Value = serde_json::from_str(case).ok()?;
            Some((test.to_string(), case, l.to_string()))
        })
        .collect()
}

fn write_replay(prop: &str, test: &str, case: &Value, msg: &str) -> PathBuf {
    let dir = home().join("out");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{prop}-{test}.json"));
    let body = json!({"property": prop, "test": test, "case": case, "message": msg});
    if let Err(e) = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap()) {
        eprintln!("cannot write {path:?}: {e}");
    }
    path
}

/// The checks run in a child process. When the child is killed by a fatal signal (stack overflow,
/// abort on allocation failure), the cases it was on are replayed one by one to find the culprit.
fn supervise(prop: &str, args: &[String]) -> ! {
    use std::os::unix::process::ExitStatusExt;
    use std::process::Command;
    let exe = std::env::current_exe().expect("current exe");
    let dir = home().join("out");
    let _ = std::fs::create_dir_all(&dir);
    let prefix = format!("cur-{prop}-");
    let clean = || {
        for e in std::fs::read_dir(&dir).into_iter().flatten().flatten() {
            if e.file_name().to_string_lossy().starts_with(&prefix) {
                let _ = std::fs::remove_file(e.path());
            }
        }
    };
    clean();
    let st = Command::new(&exe).args(args).env("PBT_CHILD", "1").status().expect("start the child");
    if let Some(c) = st.code() {
        clean();
        std::process::exit(c);
    }
    let sig = st.signal().unwrap_or(0);
    eprintln!("the check process died of signal {sig}");
    // SIGILL, SIGABRT, SIGBUS, SIGFPE, SIGSEGV
    if [4, 6, 7, 8, 11].contains(&sig) {
        let mut files: Vec<PathBuf> = std::fs::read_dir(&dir)
            .into_iter()
            .flatten()
            .flatten()
            .map(|e| e.path())
            .filter(|p| p.file_name().is_some_and(|n| n.to_string_lossy().starts_with(&prefix)))
            .collect();
        files.sort();
        for f in files {
            let text = std::fs::read_to_string(&f).unwrap_or_default();
            let Some((len, body)) = text.split_once('\n') else { continue };
            let body = len.parse::<usize>().ok().and_then(|n| body.get(..n)).unwrap_or("");
            let Some((test, case)) = body.split_once('\n') else { continue };
            let Ok(case) = serde_json::from_str::<Value>(case) else { continue };
            let path = write_replay(prop, test, &case, &format!("the process is killed by signal {sig}"));
            let r = Command::new(&exe).args([prop, "--replay"]).arg(&path).env("PBT_CHILD", "1").stdout(std::process::Stdio::null()).status();
            if r.is_ok_and(|r| r.signal().is_some_and(|s| [4, 6, 7, 8, 11].contains(&s))) {
                let ev = json!({"property": prop, "tier": "quick", "seed": 0, "level": "exploration",
                    "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "stopped by a case that kills the process", "samples": [case]},
                    "assumptions": [], "wall_s": 0.0, "violations": 1});
                let _ = std::fs::write(home().join("evidence").join(format!("{prop}.json")), serde_json::to_string_pretty(&ev).unwrap());
                clean();
                println!("{prop} broken ({test}): the process is killed by signal {sig}");
                println!("case: {case}");
                println!("VIOLATION property={prop} replay={}", path.display());
                std::process::exit(1);
            }
        }
    }
    clean();
    std::process::exit(2);
}

pub fn run(registry: Registry, assumptions: fn(&str) -> Vec<&'static str>) -> ! {
    install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let prop = args.first().cloned().unwrap_or_default();
    let tests = registry(&prop);
    if tests.is_empty() {
        eprintln!("unknown property {prop:?}");
        std::process::exit(2);
    }
    if std::env::var_os("PBT_CHILD").is_none() {
        supervise(&prop, &args);
    }
    if let Some(k) = args.iter().position(|a| a == "--replay") {
        let v: Value = serde_json::from_str(&std::fs::read_to_string(&args[k + 1]).expect("replay file")).expect("json");
        let name = v["test"].as_str().unwrap();
        let t = tests.iter().find(|t| t.name() == name).expect("no such test");
        match t.replay(&v["case"]) {
            Ok(o) => println!("ok: the case passes (classes {:?})", o.classes),
            Err(e) => {
                println!("{e}");
                println!("VIOLATION property={prop} replay={}", args[k + 1]);
                std::process::exit(1);
            }
        }
        std::process::exit(0);
    }
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ if args.iter().any(|a| a == "--thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let only = args.iter().position(|a| a == "--only").map(|k| args[k + 1].clone());
    let start = Instant::now();
    let evidence_path = home().join("evidence").join(format!("{prop}.json"));
    let limit = std::env::var("PBT_CASE_LIMIT_S").ok().and_then(|s| s.parse().ok()).unwrap_or(60.0);
    let trace = home().join("out").join(format!("cur-{prop}-"));
    let wd = Arc::new(Watchdog::new(limit, 9 << 30, Some(trace.display().to_string())));
    let slot = wd.slot();
    {
        let (wd, prop, evidence_path) = (wd.clone(), prop.clone(), evidence_path.clone());
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(100));
            if let Some(o) = wd.poll() {
                let case: Value = serde_json::from_str(&o.case).unwrap_or(Value::Null);
                let path = write_replay(&prop, &o.test, &case, &o.why);
                let ev = json!({"property": prop, "tier": "quick", "seed": seed, "level": "exploration",
                    "coverage": {"evaluations": 0, "distinct_nontrivial": 0, "rule": "stopped by a case that does not terminate", "samples": [case]},
                    "assumptions": [], "wall_s": start.elapsed().as_secs_f64(), "violations": 1});
                let _ = std::fs::write(&evidence_path, serde_json::to_string_pretty(&ev).unwrap());
                println!("{prop} broken ({}): {}", o.test, o.why);
                println!("case: {}", o.case);
                println!("VIOLATION property={prop} replay={}", path.display());
                std::process::exit(1);
            }
        });
    }
    let known = known_findings(&prop);
    let mut violation: Option<(String, Value, String)> = None;
    let mut errors: Vec<String> = vec![];
    let mut per_test = vec![];
    let mut evals = 0u64;
    let mut distinct = 0u64;
    let mut samples: Vec<Value> = vec![];
    let mut rules = vec![];

    // 1. plain regression cases
    let mut regress = 0u64;
    let dir = home().join("regress").join(&prop);
    let mut files: Vec<PathBuf> = std::fs::read_dir(&dir).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
    files.sort();
    for f in files.iter().filter(|f| f.extension().is_some_and(|e| e == "json")) {
        let v: Value = serde_json::from_str(&std::fs::read_to_string(f).unwrap()).expect("regress file");
        let Some(t) = tests.iter().find(|t| Some(t.name()) == v["test"].as_str()) else {
            errors.push(format!("{f:?}: no such test"));
            continue;
        };
        regress += 1;
        wd.begin(slot, t.name(), &v["case"].to_string());
        let r = t.replay(&v["case"]);
        wd.end(slot);
        if let Err(e) = r {
            if e.contains(HARNESS) || e.contains(INCONCLUSIVE) {
                errors.push(e);
            } else if violation.is_none() {
                violation = Some((t.name().to_string(), v["case"].clone(), e));
            }
        }
    }
    // 2. listed known findings
    for (test, case, line) in known.iter() {
        let Some(t) = tests.iter().find(|t| t.name() == test) else {
            errors.push(format!("known finding for unknown test: {line}"));
            continue;
        };
        if t.replay(case).is_err() {
            println!("KNOWN-FINDING: property={prop} {test} {case}");
        } else {
            println!("note: known finding no longer fails: {test} {case}");
        }
    }
    // 3. generated search
    for t in tests.iter() {
        if violation.is_some() {
            break;
        }
        if only.as_deref().is_some_and(|o| o != t.name()) {
            continue;
        }
        let t0 = Instant::now();
        let rep = t.run(&prop, seed, tier, &wd);
        evals += rep.evaluations;
        distinct += rep.distinct.len() as u64;
        rules.push(format!("[{}] {}", t.name(), t.rule()));
        samples.extend(rep.samples.iter().cloned());
        per_test.push(json!({
            "test": t.name(), "evaluations": rep.evaluations, "out_of_domain": rep.discarded,
            "distinct_nontrivial": rep.distinct.len(), "classes": rep.classes,
            "wall_s": t0.elapsed().as_secs_f64(),
        }));
        errors.extend(rep.errors);
        if let Some((case, msg)) = rep.violation {
            if !known.iter().any(|(kt, kc, _)| kt == t.name() && *kc == case) {
                violation = Some((t.name().to_string(), case, msg));
            }
        }
    }
    samples.truncate(12);
    let ev = json!({
        "property": prop,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": distinct,
            "rule": rules.join(" | "),
            "samples": samples,
            "regression_cases": regress,
            "tests": per_test,
        },
        "assumptions": assumptions(&prop),
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": u64::from(violation.is_some()),
    });
    let _ = std::fs::create_dir_all(evidence_path.parent().unwrap_or(Path::new("/")));
    if let Err(e) = std::fs::write(&evidence_path, serde_json::to_string_pretty(&ev).unwrap()) {
        errors.push(format!("cannot write evidence: {e}"));
    }
    for e in errors.iter().take(10) {
        eprintln!("error: {e}");
    }
    if let Some((test, case, msg)) = violation {
        let path = write_replay(&prop, &test, &case, &msg);
        println!("{prop} broken ({test}): {msg}");
        println!("case: {case}");
        println!("VIOLATION property={prop} replay={}", path.display());
        std::process::exit(1);
    }
    if distinct == 0 && only.is_none() {
        errors.push("no non-trivial case was generated".into());
        eprintln!("error: no non-trivial case was generated");
    }
    if !errors.is_empty() {
        println!("{prop}: no answer ({} errors in {evals} cases)", errors.len());
        std::process::exit(2);
    }
    println!(
        "{prop}: held on {evals} cases ({distinct} distinct non-trivial) in {:.1} s",
        start.elapsed().as_secs_f64()
    );
    std::process::exit(0);
}
