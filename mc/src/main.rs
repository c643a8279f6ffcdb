mod checks;
mod engine;
mod model;
mod shared;

use engine::{Case, Run, THREADS, esc, predicted, real};
use std::fmt::Write as _;
use std::io::Write as _;
use std::path::Path;

pub fn root() -> String {
    std::env::var("MC_ROOT").unwrap_or_else(|_| "/verif".into())
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o + "\""
}

fn replay_file(prop: &str, n: usize, text: &str) -> String {
    let d = format!("{}/replays", root());
    std::fs::create_dir_all(&d).unwrap();
    let p = format!("{d}/{prop}-{n}.txt");
    std::fs::write(&p, format!("property {prop}\n{text}")).unwrap();
    p
}

fn violation(prop: &str, n: usize, text: &str) {
    let p = replay_file(prop, n, text);
    eprintln!("{text}");
    println!("VIOLATION property={prop} replay={p}");
    std::io::stdout().flush().unwrap();
}

fn evidence(r: &Run) {
    let mut cov = String::new();
    let t = &r.totals;
    write!(
        cov,
        "\"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {}, \"tables\": {}, \
         \"rejected_tables\": {}, \"nontrivial_traces\": {}, \"exhaustive\": true",
        t.states, t.transitions, t.traces, t.tables, t.rejected, t.nontrivial
    )
    .unwrap();
    for (k, v) in &r.extra {
        write!(cov, ", {}: {v}", json(k)).unwrap();
    }
    let suites: Vec<String> = r
        .suites
        .iter()
        .map(|(n, m)| {
            let f: Vec<String> = m.iter().map(|(k, v)| format!("{}: {v}", json(k))).collect();
            format!("{{\"suite\": {}, {}}}", json(n), f.join(", "))
        })
        .collect();
    write!(cov, ", \"suites\": [{}]", suites.join(", ")).unwrap();
    let samples: Vec<String> = r.samples.iter().map(|s| json(s)).collect();
    write!(cov, ", \"samples\": [{}]", samples.join(", ")).unwrap();
    let ass: Vec<String> = r.assumptions.iter().map(|s| json(s)).collect();
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let out = format!(
        "{{\"property\": {}, \"tier\": {}, \"seed\": {seed}, \"level\": \"model_checking\", \"coverage\": {{{cov}}}, \
         \"assumptions\": [{}], \"wall_s\": {:.3}, \"violations\": {}, \"known_findings\": {}}}\n",
        json(&r.prop),
        json(if r.thorough { "thorough" } else { "quick" }),
        ass.join(", "),
        r.start.elapsed().as_secs_f64(),
        r.violations.len(),
        r.known.len()
    );
    let d = format!("{}/evidence", root());
    std::fs::create_dir_all(&d).unwrap();
    std::fs::write(format!("{d}/{}.json", r.prop), out).unwrap();
}

fn check(prop: &str, thorough: bool) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    let p2 = prop.to_string();
    engine::watchdog(move |w, why| {
        let text = match shared::get(w) {
            Some(c) => format!("kind translate\n{}expected a result\ngot {why}\n", c.text()),
            None => format!("kind hang\ngot {why}\n"),
        };
        violation(&p2, 0, &text);
        std::process::exit(1);
    });
    let mut r = Run::new(prop, thorough);
    if !checks::run(&mut r) {
        eprintln!("unknown property {prop}");
        return 2;
    }
    for k in &r.known {
        println!("KNOWN-FINDING: property={prop} {k}");
    }
    evidence(&r);
    for (i, v) in r.violations.iter().enumerate().take(5) {
        violation(prop, i, &v.text);
    }
    eprintln!(
        "{prop}: {} tables, {} states, {} transitions, {} traces compared, {:.1}s",
        r.totals.tables,
        r.totals.states,
        r.totals.transitions,
        r.totals.traces,
        r.start.elapsed().as_secs_f64()
    );
    if r.violations.is_empty() { 0 } else { 1 }
}

/// Runs the exploration in a child process so that a crash of the code under test is reported too.
fn supervise(prop: &str, thorough: bool) -> i32 {
    let shm = format!("/tmp/mc-{}-{}.slots", prop, std::process::id());
    let me = std::env::current_exe().unwrap();
    let st = std::process::Command::new(&me)
        .args(["inner", prop, if thorough { "thorough" } else { "quick" }, &shm])
        .status()
        .unwrap();
    let code = match st.code() {
        Some(c @ 0..=2) => c,
        _ => {
            // killed: find the case that does it
            shared::open(&shm);
            let cases: Vec<Case> = (0..THREADS).filter_map(shared::get).collect();
            let mut culprit = None;
            for c in &cases {
                let p = replay_file(prop, 99, &format!("kind translate\n{}", c.text()));
                let s = std::process::Command::new(&me).args(["replay", &p]).stdout(std::process::Stdio::null()).status();
                if s.map(|s| s.code().is_none()).unwrap_or(true) {
                    culprit = Some(c);
                    break;
                }
            }
            let what = format!("process died: {st}");
            let text = match culprit.or(cases.first()) {
                Some(c) => format!("kind translate\n{}expected a result\ngot {what}\n", c.text()),
                None => format!("kind crash\ngot {what}\n"),
            };
            let _ = std::fs::remove_file(format!("{}/replays/{prop}-99.txt", root()));
            violation(prop, 0, &text);
            1
        }
    };
    let _ = std::fs::remove_file(&shm);
    code
}

fn replay(path: &str) -> i32 {
    let t = std::fs::read_to_string(path).unwrap();
    let kind = t.lines().find_map(|l| l.strip_prefix("kind ")).unwrap_or("translate");
    if kind != "translate" {
        print!("{t}");
        println!("(not a single translation: run the check again to replay)");
        return 2;
    }
    let c = Case::parse(&t).expect("case");
    let e = predicted(&c);
    let g = real(&c).unwrap_or_else(|p| p);
    println!("expected [{}]\ngot      [{}]", esc(&e), esc(&g));
    if e == g { 0 } else { 1 }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    // scratch files live in a directory of this process, or of the one that supervises it
    let mine = std::env::var("MC_SCRATCH").is_err();
    if mine {
        let base = if Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
        let d = format!("{base}/mc-scratch-{}", std::process::id());
        for s in ["A", "B", "C"] {
            std::fs::create_dir_all(format!("{d}/{s}")).unwrap();
        }
        let d = std::fs::canonicalize(&d).unwrap().to_string_lossy().to_string();
        // no other thread exists yet
        unsafe {
            std::env::set_var("LOUIS_TABLE_PATH", format!("{d}/A:{d}/B"));
            std::env::set_var("MC_SCRATCH", &d);
        }
        if ["check", "inner"].contains(&a.get(1).map_or("", String::as_str)) {
            // C is the current directory, which is not on the search path
            let _ = std::env::set_current_dir(format!("{d}/C"));
        }
    }
    let arg = |i: usize| a.get(i).map(String::as_str).unwrap_or("");
    let code = match arg(1) {
        "check" => {
            let tier = if arg(3).is_empty() { std::env::var("VERIF_TIER").unwrap_or_default() } else { arg(3).into() };
            supervise(arg(2), tier == "thorough")
        }
        "inner" => {
            shared::open(arg(4));
            check(arg(2), arg(3) == "thorough")
        }
        "replay" => replay(arg(2)),
        "deep" => checks::deep(arg(2), arg(3)),
        "trace" => {
            // mc trace TABLE f|b INPUT: the model's own trace
            let t = std::fs::read_to_string(arg(2)).unwrap();
            match model::Model::from_source(&t, arg(3) != "b") {
                Err(e) => println!("{e:?}"),
                Ok(m) => {
                    for (st, steps) in m.run(arg(4), &[]).stages {
                        println!("stage {st}");
                        for s in steps {
                            println!("  {:?} -> {:?} line {} {}", s.from, s.to, s.line, s.op);
                        }
                    }
                }
            }
            0
        }
        _ => {
            eprintln!("usage: mc check ID [quick|thorough] | replay FILE | list");
            if Path::new(arg(1)).exists() { 2 } else { 2 }
        }
    };
    if mine {
        let d = engine::scratch();
        if d.contains("/mc-scratch-") {
            let _ = std::fs::remove_dir_all(d);
        }
    }
    std::process::exit(code);
}
