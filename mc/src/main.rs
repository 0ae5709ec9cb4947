//! mc check <ID>      run one property (VERIF_TIER, VERIF_SEED)
//! mc replay <file>   re-run a recorded violation
//! mc list            the properties known to this binary
//! mc hist ...        helper process of C27

mod dict;
mod engine;
mod model;
mod props;
mod race;

use engine::*;
use std::fmt::Write as _;
use std::time::Instant;

fn verif() -> String {
    std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into())
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// known_findings.txt: lines "known: property=<id> family=<family> key=<key> | <what fails>".
/// "fixed:" lines and comments are ignored here.
fn known(id: &str) -> Vec<(String, String, String)> {
    let s = std::fs::read_to_string(format!("{}/known_findings.txt", verif())).unwrap_or_default();
    s.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known: property=")?;
            let (p, l) = l.split_once(" family=")?;
            let (f, l) = l.split_once(" key=")?;
            let (k, w) = l.split_once(" | ")?;
            (p == id).then(|| (f.to_string(), k.to_string(), w.to_string()))
        })
        .collect()
}

/// There are two builds of the checker and the code under test: with debug
/// assertions and overflow checks, and as the crates are shipped ("plain").
const PLAIN: bool = !cfg!(debug_assertions);
const BUILD: &str = if PLAIN { "plain" } else { "checked" };
const TAG: &str = if PLAIN { "-plain" } else { "" };

fn plain_program() -> std::path::PathBuf {
    let me = std::env::current_exe().expect("no path to this program");
    me.parent().unwrap().parent().unwrap().join("plain/mc")
}

/// Explore everything again in the plain build.
fn second_build(id: &str, mine: &[FamilyReport]) -> Result<Vec<FamilyReport>, i32> {
    let sum = format!("{}/evidence/.{id}.plain", verif());
    let _ = std::fs::create_dir_all(format!("{}/evidence", verif()));
    let _ = std::fs::remove_file(&sum);
    println!("{id} again, built without debug assertions and overflow checks:");
    let mut c = match std::process::Command::new(plain_program()).arg("check").arg(id).env("MC_SUMMARY", &sum).spawn() {
        Ok(c) => c,
        Err(e) => {
            eprintln!("cannot run {}: {e}", plain_program().display());
            return Err(2);
        }
    };
    let st = loop {
        tick(); // the other process has a watchdog of its own
        match c.try_wait() {
            Ok(Some(s)) => break s,
            Ok(None) => std::thread::sleep(std::time::Duration::from_millis(50)),
            Err(_) => return Err(3),
        }
    };
    let text = std::fs::read_to_string(&sum).unwrap_or_default();
    let _ = std::fs::remove_file(&sum);
    match st.code() {
        Some(0) => {}
        Some(c) => return Err(c),
        None => return Err(3),
    }
    let mut v = vec![];
    for l in text.lines() {
        let f: Vec<&str> = l.split('\t').collect();
        let n = |k: usize| f[k].parse::<u64>().unwrap_or(0);
        v.push(FamilyReport {
            name: format!("{} (plain build)", f[0]),
            about: mine.iter().find(|m| m.name == f[0]).map(|m| m.about.clone()).unwrap_or_default(),
            executions: n(1),
            states: n(2),
            transitions: n(3),
            traces: n(4),
            outcomes: n(5),
            samples: vec![],
            violations: vec![],
            failed: 0,
            known: vec![],
            known_hits: n(6),
            complete: true,
            wall: f[7].parse().unwrap_or(0.0),
        });
    }
    if v.len() != mine.len() {
        eprintln!("ENGINE ERROR: the plain build explored {} families, not {}", v.len(), mine.len());
        return Err(3);
    }
    Ok(v)
}

fn check(id: &str) -> i32 {
    let t0 = Instant::now();
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let tier = std::env::var("MC_TIER").unwrap_or(tier);
    let thorough = tier == "thorough";
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let Some(p) = props::all().into_iter().find(|p| p.id == id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let rdir = std::env::var("MC_REPLAYS").unwrap_or(format!("{}/replays", verif()));
    watchdog(id.into(), if thorough { 6 * 3600 } else { 840 }, 120, rdir.clone());
    let fams = match std::panic::catch_unwind(|| (p.families)(thorough)) {
        Ok(f) => f,
        Err(_) => {
            let Some((loc, msg)) = foreign_panic() else {
                eprintln!("ENGINE ERROR: the harness failed while it was set up");
                return 3;
            };
            let _ = std::fs::create_dir_all(&rdir);
            let path = format!("{rdir}/{id}-setup{TAG}.txt");
            let msg = format!("the implementation panicked at {loc}: {msg}");
            let _ = std::fs::write(&path, format!("property={id}\nbuild={BUILD}\ntier={tier}\nfamily=setup\nmessage={msg}\n"));
            println!("  {msg}");
            println!("VIOLATION property={id} replay={path}");
            return 1;
        }
    };
    let only = std::env::var("MC_FAMILY").ok();
    let kn = known(id);
    let mut reports = vec![];
    let mut new = vec![];
    let mut seen = vec![];
    let mut second = 0;
    for (index, f) in fams.iter().enumerate() {
        if only.as_ref().is_some_and(|o| o != f.name) {
            continue;
        }
        let keys: Vec<&str> = kn.iter().filter(|k| k.0 == f.name).map(|k| &k.1[..]).collect();
        let r = explore(index, f, &keys);
        println!(
            "{id} {:<24} {:>12} executions {:>13} states {:>13} transitions  {} violations  {:.2} s",
            r.name, r.executions, r.states, r.transitions, r.failed, r.wall
        );
        for v in &r.violations {
            new.push((v.family.clone(), v.i0, v.choices.clone(), v.key.clone(), v.msg.clone()));
        }
        seen.extend(kn.iter().filter(|k| k.0 == f.name && r.known.contains(&k.1)).cloned());
        reports.push(r);
    }
    if PLAIN {
        if let Ok(path) = std::env::var("MC_SUMMARY") {
            let mut s = String::new();
            for r in &reports {
                let _ = writeln!(s, "{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}", r.name, r.executions, r.states, r.transitions, r.traces, r.outcomes, r.known_hits, r.wall);
            }
            if let Err(e) = std::fs::write(&path, s) {
                eprintln!("cannot write {path}: {e}");
                return 2;
            }
        }
    } else if new.is_empty() {
        match second_build(id, &reports) {
            Ok(more) => reports.extend(more),
            Err(c) => second = c,
        }
    }
    for k in seen.iter().filter(|_| !PLAIN) {
        println!("KNOWN-FINDING: property={id} {}", k.2);
    }
    // evidence
    let sum = |g: fn(&FamilyReport) -> u64| reports.iter().map(g).sum::<u64>();
    let mut samples: Vec<String> = vec![];
    for r in &reports {
        for s in r.samples.iter().take(2) {
            samples.push(esc(&format!("{}: {s}", r.name)));
        }
    }
    if samples.is_empty() {
        samples.extend(reports.iter().take(3).map(|r| esc(&format!("{}: {}", r.name, r.about))));
    }
    let complete = reports.iter().all(|r| r.complete);
    let mut fj = String::new();
    for (i, r) in reports.iter().enumerate() {
        let _ = write!(
            fj,
            "{}\n      {{\"name\": {}, \"enumerates\": {}, \"executions\": {}, \"states\": {}, \"transitions\": {}, \"distinct_outcomes_seen\": {}, \"complete\": {}, \"violating_executions\": {}, \"known_finding_executions\": {}, \"wall_s\": {:.2}}}",
            if i > 0 { "," } else { "" },
            esc(&r.name),
            esc(&r.about),
            r.executions,
            r.states,
            r.transitions,
            r.outcomes,
            r.complete,
            r.failed,
            r.known_hits,
            r.wall
        );
    }
    let ass: Vec<String> = p.assumptions.iter().map(|a| esc(a)).collect();
    let ev = format!(
        "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {seed},\n  \"level\": \"model_checking\",\n  \"coverage\": {{\n    \"states\": {},\n    \"transitions\": {},\n    \"traces_validated_against_impl\": {},\n    \"executions\": {},\n    \"exhaustive\": {complete},\n    \"samples\": [{}],\n    \"families\": [{fj}\n    ]\n  }},\n  \"assumptions\": [{}],\n  \"wall_s\": {:.2},\n  \"violations\": {}\n}}\n",
        esc(id),
        esc(&tier),
        sum(|r| r.states),
        sum(|r| r.transitions),
        sum(|r| r.traces),
        sum(|r| r.executions),
        samples.join(", "),
        ass.join(", "),
        t0.elapsed().as_secs_f64(),
        new.len() + (second == 1) as usize
    );
    let edir = format!("{}/evidence", verif());
    let _ = std::fs::create_dir_all(&edir);
    if !PLAIN {
        if let Err(e) = std::fs::write(format!("{edir}/{id}.json"), ev) {
            eprintln!("cannot write evidence: {e}");
            return 2;
        }
    }
    if new.is_empty() && reports.iter().any(|r| r.states == 0 || r.transitions == 0) {
        eprintln!("ENGINE ERROR: a family explored nothing");
        return 3;
    }
    if new.is_empty() {
        if second == 0 && !PLAIN {
            println!("{id} held on everything explored ({tier}, {:.1} s)", t0.elapsed().as_secs_f64());
        }
        return second;
    }
    let _ = std::fs::create_dir_all(&rdir);
    let mut fams_done: Vec<&str> = vec![];
    for (f, i0, ch, key, msg) in &new {
        if fams_done.contains(&&f[..]) {
            continue;
        }
        fams_done.push(f);
        let path = format!("{rdir}/{id}-{f}{TAG}.txt");
        let chs: Vec<String> = ch.iter().map(|x| x.to_string()).collect();
        let _ = std::fs::write(&path, format!("property={id}\nbuild={BUILD}\ntier={tier}\nfamily={f}\ni0={i0}\nchoices={}\nkey={key}\nmessage={}\n", chs.join(","), msg.replace('\n', "\\n")));
        println!("  {f}: {msg}");
        println!("VIOLATION property={id} replay={path}");
    }
    1
}

/// The check ran in a process that died of a fault (a stack overflow, an
/// abort): report it with the executions that were under way.
fn died(id: &str, sig: i32, work: Vec<(usize, usize)>) -> i32 {
    if ![libc::SIGABRT, libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE].contains(&sig) || work.is_empty() {
        eprintln!("ENGINE ERROR: the check was ended by signal {sig}");
        return 3;
    }
    let rdir = std::env::var("MC_REPLAYS").unwrap_or(format!("{}/replays", verif()));
    let tier = std::env::var("MC_TIER").or(std::env::var("VERIF_TIER")).unwrap_or_else(|_| "quick".into());
    let _ = std::fs::create_dir_all(&rdir);
    let path = format!("{rdir}/{id}-died{TAG}.txt");
    let list: Vec<String> = work.iter().map(|w| format!("{}:{}", w.0, w.1)).collect();
    let _ = std::fs::write(&path, format!("property={id}\nbuild={BUILD}\ntier={tier}\nfamily=died\nwork={}\nmessage=the process was ended by signal {sig}\n", list.join(",")));
    println!("  the process was ended by signal {sig} (stack overflow or abort) while exploring (family:outermost choice) {}", list.join(" "));
    println!("VIOLATION property={id} replay={path}");
    1
}

fn replay_file(path: &str) -> i32 {
    let s = std::fs::read_to_string(path).expect("cannot read replay file");
    let get = |k: &str| s.lines().find_map(|l| l.strip_prefix(k)?.strip_prefix('=')).unwrap_or("").to_string();
    if get("build") == "plain" && !PLAIN {
        let s = std::process::Command::new(plain_program()).arg("replay").arg(path).status().expect("cannot run the plain build");
        return s.code().unwrap_or(3);
    }
    let thorough = get("tier") == "thorough";
    let p = props::all().into_iter().find(|p| p.id == get("property")).expect("unknown property");
    let fams = (p.families)(thorough);
    if get("family") == "setup" {
        println!("not reproduced");
        return 0;
    }
    if get("family") == "died" {
        for w in get("work").split(',') {
            let (f, i0) = w.split_once(':').unwrap();
            let (f, i0): (usize, usize) = (f.parse().unwrap(), i0.parse().unwrap());
            match guarded(|| replay(&fams[f], i0, &[u32::MAX], true).is_err() as i32) {
                Ok(0) => {}
                r => {
                    println!("reproduced: {} with outermost choice {i0}: {r:?}", fams[f].name);
                    println!("VIOLATION property={} replay={path}", p.id);
                    return 1;
                }
            }
        }
        println!("not reproduced");
        return 0;
    }
    let fam = fams.iter().find(|f| f.name == get("family")).expect("unknown family");
    let i0 = get("i0").parse().unwrap();
    let choices: Vec<u32> = get("choices").split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
    for warm in [false, true] {
        if let Err(f) = replay(fam, i0, &choices, warm) {
            println!("reproduced{}: {}", if warm { " (after the calls explored before it)" } else { "" }, f.msg);
            println!("VIOLATION property={} replay={path}", p.id);
            return 1;
        }
    }
    println!("not reproduced");
    0
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    install_panic_hook();
    let code = match a.first().map(|s| &s[..]) {
        Some("check") if a.len() == 2 => match guarded(|| check(&a[1])) {
            Ok(c) => c,
            Err((sig, work)) => died(&a[1], sig, work),
        },
        Some("replay") if a.len() == 2 => replay_file(&a[1]),
        Some("hist") => props::hist::helper(&a[1..]),
        Some("list") => {
            for p in props::all() {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: mc check ID | mc replay FILE | mc list");
            2
        }
    };
    std::process::exit(code);
}
