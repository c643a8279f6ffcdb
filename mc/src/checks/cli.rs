//! The command line tool: what `louis` prints, against the model.
use super::*;
use crate::model::Model;
use crate::model::world::{self, World};
use crate::shared;
use std::collections::HashMap;
use std::io::{Read, Write};
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::sync::atomic::{AtomicUsize, Ordering::*};

pub struct Out {
    pub out: String,
    pub err: String,
    pub ok: bool,
}

pub fn louis() -> String {
    format!("{}/target/debug/louis", crate::root())
}

/// run the tool; everything it writes is read
pub fn run(args: &[&str], stdin: &[u8], envs: &[(&str, &str)]) -> Out {
    let mut c = Command::new(louis());
    c.args(args).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).env_remove("RUST_LOG");
    c.env("RUST_BACKTRACE", "0").env("RAYON_NUM_THREADS", "2");
    for (k, v) in envs {
        c.env(k, v);
    }
    let mut p = c.spawn().unwrap_or_else(|e| panic!("{}: {e}", louis()));
    let (mut i, mut o, mut e) = (p.stdin.take().unwrap(), p.stdout.take().unwrap(), p.stderr.take().unwrap());
    let (mut out, mut err) = (vec![], vec![]);
    std::thread::scope(|s| {
        s.spawn(move || {
            let _ = i.write_all(stdin);
        });
        s.spawn(|| e.read_to_end(&mut err));
        let _ = o.read_to_end(&mut out);
    });
    let st = p.wait().unwrap();
    Out { out: String::from_utf8_lossy(&out).into(), err: String::from_utf8_lossy(&err).into(), ok: st.success() }
}

/// What one job explored.
#[derive(Default)]
pub struct Part {
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub nontrivial: u64,
    pub rejected: u64,
    pub bad: Vec<(String, String)>,
    pub sample: Option<String>,
}

impl Run {
    /// explore every item in parallel
    pub fn each<T: Sync>(&mut self, name: &str, items: &[T], f: impl Fn(usize, &T) -> Part + Sync) {
        if !self.violations.is_empty() {
            return;
        }
        let t0 = std::time::Instant::now();
        let next = AtomicUsize::new(0);
        let all = Mutex::new(Part::default());
        std::thread::scope(|sc| {
            for w in 0..THREADS {
                let (next, all, f) = (&next, &all, &f);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        WORKER.set(w);
                        loop {
                            let j = next.fetch_add(1, Relaxed);
                            if j >= items.len() {
                                break;
                            }
                            BEAT[w].store(now_ms(), Relaxed);
                            let mut p = f(w, &items[j]);
                            let mut a = all.lock().unwrap();
                            a.states += p.states;
                            a.transitions += p.transitions;
                            a.traces += p.traces;
                            a.nontrivial += p.nontrivial;
                            a.rejected += p.rejected;
                            a.bad.append(&mut p.bad);
                            if a.sample.is_none() && j >= items.len() / 2 {
                                a.sample = p.sample;
                            }
                            if a.bad.len() >= 3 {
                                next.store(items.len(), Relaxed);
                            }
                        }
                        BEAT[w].store(0, Relaxed);
                        shared::clear(w);
                    })
                    .unwrap();
            }
        });
        let a = all.into_inner().unwrap();
        eprintln!("  {:<34} {:>8} items {:>10} traces {:>9} nontrivial {:>6} rejected {:>6} ms", name, items.len(), a.traces, a.nontrivial, a.rejected, t0.elapsed().as_millis());
        self.suites.push((
            name.to_string(),
            std::collections::BTreeMap::from([("items", items.len() as u64), ("traces", a.traces), ("nontrivial", a.nontrivial), ("rejected", a.rejected)]),
        ));
        self.totals.states += a.states;
        self.totals.transitions += a.transitions;
        self.totals.traces += a.traces;
        self.totals.tables += items.len() as u64;
        self.totals.rejected += a.rejected;
        self.totals.nontrivial += a.nontrivial;
        self.samples.extend(a.sample);
        for (k, t) in a.bad {
            self.violate(&k, t);
        }
    }
}

/// lay the table out as a file (or files) and give the name to use
pub fn place(table: &str) -> Vec<String> {
    if world::is_world(table) {
        return lay_out(&World::parse(table));
    }
    lay_out(&World::parse(&format!("=== load @/t\n=== A:t\n{table}")))
}

pub fn text_of(table: &str, cmd: &str, input: &str, exp: &str, got: &str) -> String {
    let rows: Vec<String> = table.split('\n').map(|l| format!("| {l}")).collect();
    format!("command {cmd}\ninput [{}]\nexpected {exp}\ngot {got}\n{}\n", esc(input), rows.join("\n"))
}

/// One row of a trace: from, to, rule, stage
type Row = (String, String, String, String);

/// the rows of a printed table in either style; cells are separated at the columns of the head
fn rows(block: &[&str], sharp: bool) -> Result<Vec<Row>, String> {
    let mut out = vec![];
    if sharp {
        let body = block.iter().filter(|l| l.starts_with('│'));
        for (n, l) in body.enumerate() {
            let c: Vec<&str> = l.trim_start_matches('│').strip_suffix('│').ok_or("open row")?.split('│').collect();
            if c.len() != 5 {
                return Err(format!("row of {} cells: {l}", c.len()));
            }
            // one space of padding on each side
            let cell = |i: usize| c[i].strip_prefix(' ').unwrap_or(c[i]).trim_end_matches(' ').to_string();
            if n == 0 {
                if [cell(0), cell(1), cell(2), cell(3), cell(4)] != ["", "From", "To", "Rule", "Stage"] {
                    return Err(format!("head {l}"));
                }
                continue;
            }
            if cell(0) != n.to_string() {
                return Err(format!("row {n} has the number {:?}", cell(0)));
            }
            out.push((cell(1), cell(2), cell(3), cell(4)));
        }
    } else {
        let head = block.first().ok_or("no head")?;
        let starts: Vec<usize> = ["From", "To", "Rule", "Stage"].iter().map(|h| head.find(h).ok_or("no head")).collect::<Result<_, _>>()?;
        for (n, l) in block[1..].iter().enumerate() {
            let c: Vec<char> = l.chars().collect();
            let part = |a: usize, b: usize| c[a.min(c.len())..b.min(c.len())].iter().collect::<String>();
            if part(0, starts[0]).trim() != (n + 1).to_string() {
                return Err(format!("row {} has the number {:?}", n + 1, part(0, starts[0])));
            }
            let cell = |i: usize| {
                let e = starts.get(i + 1).copied().unwrap_or(c.len());
                part(starts[i], e).trim_end_matches(' ').to_string()
            };
            out.push((cell(0), cell(1), cell(2), cell(3)));
        }
    }
    Ok(out)
}

/// How each rule is shown, as found out so far: a rule is always shown the same, and rules that
/// differ in more than their prefixes are shown differently.
#[derive(Default)]
pub struct Shown {
    by_line: HashMap<String, String>,
    by_text: HashMap<String, String>,
}

fn bare(line: &str) -> String {
    let mut t: Vec<&str> = line.split_whitespace().collect();
    loop {
        match t.first() {
            Some(&("nofor" | "noback" | "nocross" | "empmatchbefore" | "empmatchafter")) => {
                t.remove(0);
            }
            Some(&("before" | "after")) => {
                t.drain(..2);
            }
            _ => return t.join(" "),
        }
    }
}

impl Shown {
    pub fn check(&mut self, line: &str, text: &str) -> Result<(), String> {
        let b = bare(line);
        let op = b.split(' ').next().unwrap();
        if text.split(' ').next() != Some(op) {
            return Err(format!("the rule {b:?} is shown as {text:?}"));
        }
        let known = self.by_line.entry(b.clone()).or_insert_with(|| text.to_string());
        if known != text {
            return Err(format!("the rule {b:?} is shown as {known:?} and as {text:?}"));
        }
        let owner = self.by_text.entry(text.to_string()).or_insert_with(|| b.clone());
        if *owner != b {
            return Err(format!("the rules {owner:?} and {b:?} are both shown as {text:?}"));
        }
        Ok(())
    }
}

const STAGES: [&str; 5] = ["Pre", "Main", "Pass2", "Pass3", "Pass4"];

/// the lines of all rules of a table without includes, by number
fn rule_lines(table: &str) -> Vec<String> {
    table.lines().map(String::from).collect()
}

#[allow(clippy::too_many_arguments)]
fn check_trace(m: &Model, lines: &[String], input: &str, block: &[&str], sharp: bool, shown: &Mutex<Shown>, p: &mut Part) -> Result<String, String> {
    let run = m.run(input, &[]);
    p.transitions += run.steps;
    p.states += run.steps + run.stages.len() as u64;
    if run.stages.iter().any(|s| s.1.iter().any(|x| x.line > 0)) {
        p.nontrivial += 1;
    }
    let Some((first, rest)) = block.split_first() else { return Err("nothing".into()) };
    if *first != run.output {
        return Err(format!("the output is {:?}, not {first:?}", run.output));
    }
    let got = rows(rest, sharp)?;
    let mut want = vec![];
    for (st, steps) in &run.stages {
        for s in steps {
            if s.line > 0 || *st == 1 {
                want.push((*st, s));
            }
        }
    }
    if want.len() != got.len() {
        return Err(format!("{} steps, not {}", want.len(), got.len()));
    }
    for (n, ((st, s), g)) in want.iter().zip(&got).enumerate() {
        let e = (s.from.trim_end_matches(' '), s.to.trim_end_matches(' '), STAGES[*st as usize]);
        if (g.0.as_str(), g.1.as_str(), g.3.as_str()) != e {
            return Err(format!("step {}: {e:?} by {:?}, not {g:?}", n + 1, if s.line > 0 { &lines[s.line - 1] } else { "" }));
        }
        if s.line == 0 {
            if !g.2.is_empty() {
                return Err(format!("step {}: no rule is responsible, not {:?}", n + 1, g.2));
            }
        } else {
            shown.lock().unwrap().check(&lines[s.line - 1], &g.2).map_err(|e| format!("step {}: {e}", n + 1))?;
        }
    }
    Ok(run.output)
}

fn dname(fwd: bool) -> &'static str {
    if fwd { "forward" } else { "backward" }
}

/// translate and trace every input under one table, line by line in one process each
fn interactive(w: usize, table: &str, fwd: bool, inputs: &[String], shown: &Mutex<Shown>) -> Part {
    let mut p = Part::default();
    shared::table(w, table, fwd);
    shared::input(w, "", &[]);
    let name = place(table).remove(0);
    let lines = rule_lines(table);
    let stdin: String = inputs.iter().map(|i| format!("{i}\n")).collect();
    let m = Model::from_source(table, fwd);
    let d = dname(fwd);
    let cmd = format!("translate -d {d}");
    let o = run(&["translate", &name, "-d", d], stdin.as_bytes(), &[]);
    p.traces += 1;
    p.states += 1;
    let Ok(m) = m else {
        p.rejected += 1;
        if !o.out.is_empty() || o.err.is_empty() {
            p.bad.push(("cli".into(), text_of(table, &cmd, "", "only errors", &format!("{:?} / {:?}", o.out, o.err))));
        }
        return p;
    };
    let exp: String = inputs.iter().map(|i| format!("> {}\n", m.run(i, &[]).output)).collect::<String>() + "> ";
    p.traces += inputs.len() as u64;
    if o.out != exp {
        let k = exp.lines().zip(o.out.lines()).position(|(a, b)| a != b).unwrap_or(inputs.len());
        let i = inputs.get(k).map_or("", String::as_str);
        p.bad.push(("cli".into(), text_of(table, &cmd, i, exp.lines().nth(k).unwrap_or("the end"), &format!("{} {}", o.out.lines().nth(k).unwrap_or("the end"), o.err))));
        return p;
    }
    for style in ["table", "blank"] {
        BEAT[w].store(now_ms(), Relaxed);
        let o = run(&["trace", &name, "-d", d, "-s", style], stdin.as_bytes(), &[]);
        let cmd = format!("trace -d {d} -s {style}");
        // the answers start after the prompts
        let all: Vec<&str> = o.out.split('\n').collect();
        let mut blocks: Vec<Vec<&str>> = vec![];
        for l in all {
            match l.strip_prefix("> ") {
                Some(r) => blocks.push(vec![r]),
                None => match blocks.last_mut() {
                    Some(b) => b.push(l),
                    None => blocks.push(vec![l]),
                },
            }
        }
        if blocks.pop().is_none_or(|b| b != [""]) || blocks.len() != inputs.len() {
            p.bad.push(("cli".into(), text_of(table, &cmd, "", &format!("{} answers", inputs.len()), &format!("{} answers {}", blocks.len(), o.err))));
            return p;
        }
        for (i, b) in inputs.iter().zip(&blocks) {
            p.traces += 1;
            match check_trace(&m, &lines, i, b, style == "table", shown, &mut p) {
                Ok(out) => {
                    if p.sample.is_none() && i.len() > 2 {
                        p.sample = Some(format!("trace {d} {i:?} -> {out:?} in {} lines under …{}", b.len(), table.lines().rev().take(2).collect::<Vec<_>>().join(" / ")));
                    }
                }
                Err(e) => {
                    p.bad.push(("cli".into(), text_of(table, &cmd, i, &e, &b.join("\n"))));
                    return p;
                }
            }
        }
    }
    p
}

pub fn p24(r: &mut Run) {
    const T: &str = "\
space \\s 0
punctuation , 2
hyphen - 36
lowercase a 1
lowercase b 12
base uppercase A a
digit 1 2
litdigit 1 16
";
    let pool = lines(&[
        "always ab 3", "always - 4-5", "word ab 23", "word a 24", "begword ab 25", "midword b 26", "endword ab 34", "partword b 35", "prfword a 45", "sufword b 46", "lowword b 56", "joinword a 123", "largesign ab 124",
        "begmidword a 125", "midendword b 126", "contraction ab", "begnum - 134", "midnum - 135", "endnum a 136", "decpoint , 145", "prepunc - 146", "postpunc , 156", "syllable ab 234", "literal ab", "compbrl ab", "comp6 a 235",
        "numsign 3456", "numsign 3456\nnonumsign 56\nnumericnocontchars ab", "capsletter 6\nbegcapsword 6-6\nendcapsword 6-3", "letsign 5-6\ncontraction a", "nocontractsign 56\ncontraction b", "begcaps 6-36\nendcaps 6-35",
        "capsletter 6\nbegcapsphrase 6-6-6\nendcapsphrase before 6-2\nlencapsphrase 2\nbegcapsword 6-6", "begcomp 456\nendcomp 56-3\ncompbrl -", "undefined 1-6", "sign ? 236", "uppercase A 1-1", "math + 245", "replace ab b", "noback always a 246",
        "nofor always ab 256", "nocross always ba 345", "after space always a 346", "match a b - 356", "match - a b 456", "context \"a\" @1234", "context \"b\"[\"a\"]\"b\" @1235", "context _1\"a\" @1236", "context $l[$d] *", "correct \"a\" \"b\"",
        "correct \"b\"[\"a\"] ?", "correct \"-\" \"ab\"", "pass2 @1 @12", "pass2 @12[@1] @1345", "pass2 @12 ?", "pass3 @1 @3", "pass4 @12-1 @4", "swapcd s ab 3,4\ncontext \"-\"[%s] %s", "context \"a\"#1=0 #1=1@1245", "pass2 @3 *@3", "pass3 @3 *",
        "noback context \"ba\" @1246", "nofor pass2 @1 @14", "class k a\nafter k always b 1256", "begemph x 4\nalways ba 3-3", "correct `\"a\" \"ba\"", "context \"b\"~ @1345", "always ab =", "word b =",
    ]);
    let shown = Mutex::new(Shown::default());
    let n = r.b(3, 4);
    let mut ins = words("abA1,- ", 0, n);
    ins.extend(words("ab", 5, r.b(5, 7)));
    let fwd = perms(T, &pool, 0, 1);
    r.each("one feature, forward", &fwd, |w, t| interactive(w, t, true, &ins, &shown));
    let two = perms(T, &pool, 2, 2);
    let small = [words("ab-", 0, r.b(3, 5)), words("aA1 ", 1, r.b(3, 4)), lines(&["1a, ab", "aAb ab", "AA AA", "?+z", "a  b"])].concat();
    r.each("two features, forward", &two, |w, t| interactive(w, t, true, &small, &shown));
    let cells = words("⠁⠃⠂⠄⠠⠰⠼⠀", 0, r.b(3, 4));
    r.each("one feature, backward", &fwd, |w, t| interactive(w, t, false, &cells, &shown));
    let few = [words("⠁⠃⠄", 0, r.b(3, 4)), words("⠁⠼⠠⠂", 1, r.b(2, 3)), lines(&["abc", "⠁a⠁", "⠿"])].concat();
    r.each("two features, backward", &two, |w, t| interactive(w, t, false, &few, &shown));
    // how long a text and its trace are
    let mut ns: Vec<usize> = (1..=r.b(30, 130)).collect();
    ns.extend([49, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 499, 500, 501, 511, 512, 513, 599, 999, 1000, 1001, 1024, 1025, r.b(1500, 4100)]);
    let long: Vec<String> = ["a", "ab", "b-", "1a", "A", "a ", "ab1,", "z"].iter().flat_map(|w| ns.iter().map(move |n| w.chars().cycle().take(*n).collect())).collect();
    let brl: Vec<String> = ["⠁", "⠁⠃", "⠂⠁", "⠄", "⠿", "⠠⠁"].iter().flat_map(|w| ns.iter().map(move |n| w.chars().cycle().take(*n).collect())).collect();
    let t = perms(T, &lines(&["always ab 3\nnumsign 3456\nundefined 1-6", "correct \"a\" \"b\"\npass2 @12 @1", "compbrl z\nletsign 56\nsign z 1356", "capsletter 6\nbegcapsword 6-6", "context \"a\" @1234\npass3 @3 *\npass4 @12 ?"]), 0, 1);
    r.each("how long a text is", &t, |w, t| interactive(w, t, true, &long, &shown));
    r.each("how long a text is, backward", &t, |w, t| interactive(w, t, false, &brl, &shown));
    r.add("rules_shown", shown.lock().unwrap().by_line.len() as u64);

    // the text as an argument
    let one: Vec<(String, bool, String)> = perms(T, &lines(&["always ab 3\nnumsign 3456", "correct \"a\" \"b\"\npass2 @12 @1", "undefined 1-6"]), 1, 1)
        .into_iter()
        .flat_map(|t| {
            let f = [words("ab1 ", 0, r.b(3, 4)), lines(&["-a", "--", "-", "a\nb", "\n", "a\r", "\t", "é", "𝄞"])].concat();
            let b = [words("⠁⠃⠄⠼", 0, r.b(2, 3)), lines(&["-a", "⠁\n⠁"])].concat();
            let (t2, t1) = (t.clone(), t);
            f.into_iter().map(move |i| (t1.clone(), true, i)).chain(b.into_iter().map(move |i| (t2.clone(), false, i))).collect::<Vec<_>>()
        })
        .collect();
    r.each("text as an argument", &one, |w, (t, fwd, i)| {
        let mut p = Part { traces: 1, ..Part::default() };
        shared::table(w, t, *fwd);
        shared::input(w, i, &[]);
        let name = place(t).remove(0);
        let m = Model::from_source(t, *fwd).unwrap_or_else(|_| panic!("model"));
        let run1 = m.run(i, &[]);
        p.states += run1.steps + 1;
        p.transitions += run1.steps;
        p.nontrivial += 1;
        let d = dname(*fwd);
        let mut argv: Vec<Vec<&str>> = vec![vec!["translate", &name, "-d", d, "--", i], vec!["translate", "--direction", d, "--", &name, i]];
        if !i.starts_with('-') {
            argv.push(vec!["translate", &name, i, "-d", d]);
            if *fwd {
                argv.push(vec!["translate", &name, i]);
            }
        }
        for a in argv {
            let o = run(&a, b"", &[]);
            if o.out != format!("{}\n", run1.output) || !o.ok || !o.err.is_empty() {
                p.bad.push(("cli".into(), text_of(t, &a.join(" "), i, &run1.output, &format!("{:?} {:?}", o.out, o.err))));
            }
        }
        if !i.contains(['\n', '\r', '\t']) {
            for (style, more) in [("table", true), ("blank", true), ("table", false)] {
                let mut a = vec!["trace", &name, "-d", d];
                if more {
                    a.extend(["-s", style]);
                }
                a.extend(["--", i]);
                let o = run(&a, b"", &[]);
                let b: Vec<&str> = o.out.strip_suffix('\n').unwrap_or(&o.out).split('\n').collect();
                if let Err(e) = check_trace(&m, &rule_lines(t), i, &b, style == "table", &shown, &mut p) {
                    p.bad.push(("cli".into(), text_of(t, &a.join(" "), i, &e, &o.out)));
                }
            }
        }
        p
    });

    // how lines are read
    let base = format!("{T}always ab 3\n");
    let bits = ["a", "ab", "\n", "", " ", "\r\n", "b\n\n"];
    let texts: Vec<String> = seqs(&bits, 0, r.b(3, 5));
    r.each("how lines are read", &texts, |w, s| {
        let mut p = Part { traces: 1, states: 1, nontrivial: 1, ..Part::default() };
        shared::table(w, &base, true);
        shared::input(w, s, &[]);
        let name = place(&base).remove(0);
        let m = Model::from_source(&base, true).unwrap_or_else(|_| panic!("model"));
        let exp: String = s
            .lines()
            .map(|l| {
                let run = m.run(l, &[]);
                p.transitions += run.steps;
                format!("> {}\n", run.output)
            })
            .collect::<String>()
            + "> ";
        let o = run(&["translate", &name], s.as_bytes(), &[]);
        if o.out != exp {
            p.bad.push(("cli".into(), text_of(&base, "translate", s, &exp, &o.out)));
        }
        p
    });

    // how many lines there are
    let ns = [1usize, 2, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 500, 501, 999, 1000, 1001, 1023, 1024, 1025, 2049, 4097, r.b(10_001, 70_001)];
    let jobs: Vec<(usize, bool, &str)> = ns.iter().flat_map(|n| [(*n, true, "translate"), (*n, false, "translate"), (*n, true, "trace")]).collect();
    r.each("how many lines", &jobs, |w, (n, fwd, sub)| {
        let mut p = Part { states: *n as u64, traces: *n as u64, nontrivial: 1, ..Part::default() };
        shared::table(w, &base, *fwd);
        shared::input(w, "", &[]);
        let name = place(&base).remove(0);
        let m = Model::from_source(&base, *fwd).unwrap_or_else(|_| panic!("model"));
        let words: &[&str] = if *fwd { &["ab", "a", "b1", "ba", ""] } else { &["⠁⠄", "⠃", "⠂⠁"] };
        let outs: Vec<String> = words.iter().map(|i| m.run(i, &[]).output).collect();
        let text: String = (0..*n).map(|i| format!("{}\n", words[i % words.len()])).collect();
        let o = run(&[sub, &name, "-d", dname(*fwd)], text.as_bytes(), &[]);
        let got: Vec<&str> = o.out.lines().filter_map(|l| l.strip_prefix("> ")).collect();
        p.transitions += *n as u64;
        let bad = (0..*n).find(|i| got.get(*i) != Some(&outs[i % words.len()].as_str()));
        let ok = bad.is_none() && got.len() == *n + (got.len() == *n + 1 && got.last() == Some(&"")) as usize;
        if !ok {
            p.bad.push(("cli".into(), text_of(&base, sub, &format!("{n} lines"), "an answer to each line", &format!("{} answers; the first wrong one is {bad:?} {}", got.len(), o.err))));
        }
        p
    });

    // tables that cannot be loaded: nothing but the errors, with file and line
    let mut worlds = vec![];
    for a in ["", "letter a 1\n", "bad\n", "letter a 1\nworse x\n", "include @/b\n", "include @/none\nletter a 1\n", "include @/a\n", "letter a 1\ninclude @/b\nletter b 2\n", "include @/none.dic\n", "letter q\nletter r\n", "noback always x =\n", "after q always a 1\n"] {
        for b in ["", "=== A:b\nletter b 12\n", "=== A:b\n\nbad\nletter b 3\nworse\n", "=== A:b dir\n", "=== A:b binary\n", "=== B:b\ninclude @/none\n"] {
            worlds.push(format!("=== load @/a\n=== A:a\n{a}{b}"));
        }
    }
    worlds.push("=== load @/a\n".into());
    r.each("tables with errors", &worlds, |w, t| {
        let mut p = Part { states: 1, traces: 1, ..Part::default() };
        shared::table(w, t, true);
        shared::input(w, "ab", &[]);
        let name = place(t).remove(0);
        let root = scratch();
        let me = format!("w{w}/");
        for fwd in [true, false] {
            let text = if fwd { "ab" } else { "⠁⠂" };
            let m = Model::from_source(t, fwd);
            p.nontrivial += 1;
            for sub in ["translate", "trace"] {
                for inline in [true, false] {
                    let mut a = vec![sub, &name, "-d", dname(fwd)];
                    if inline {
                        a.push(text);
                    }
                    let o = run(&a, format!("{text}\n").as_bytes(), &[]);
                    p.transitions += 1;
                    let err = o.err.replace(&root, "$").replace(&me, "@/");
                    let ok = match &m {
                        Ok(m) => {
                            let out = m.run(text, &[]).output;
                            let first = o.out.lines().next().unwrap_or("");
                            o.err.is_empty() && first.strip_prefix(if inline { "" } else { "> " }) == Some(&out)
                        }
                        Err(crate::model::Reject::Errors(es)) => {
                            let ls: Vec<&str> = err.lines().collect();
                            o.out.is_empty()
                                && ls.len() == es.len()
                                && ls.iter().zip(es).all(|(l, e)| match e.split_once(' ') {
                                    Some(("parse", at)) => l.starts_with(&format!("{at}:")),
                                    Some(("notfound" | "nodic", n)) => l.contains(n),
                                    _ => !l.is_empty(),
                                })
                        }
                        Err(_) => o.out.is_empty() && !o.err.is_empty(),
                    };
                    if !ok {
                        let e = match &m {
                            Ok(_) => "a translation".to_string(),
                            Err(e) => format!("{e:?}"),
                        };
                        p.bad.push(("cli".into(), text_of(t, &a.join(" "), text, &e, &format!("{:?} {:?}", o.out, err))));
                        return p;
                    }
                }
            }
            if m.is_err() {
                p.rejected += 1;
            }
        }
        p
    });
}

/// the worlds whose listing is explored
fn listings(r: &Run) -> Vec<String> {
    let pieces = ["", "letter a 1\n", "always ab 3\n\n", "include @/a\n", "include @/b\n", "include @/h.dic\n", "nonsense x\n", "# comment\n", "include @/none\n"];
    let (xs, ys) = (seqs(&pieces, 0, r.b(2, 3)), seqs(&pieces, 0, 2));
    let mut v = vec![];
    for x in &xs {
        for y in &ys {
            for h in ["=== A:h.dic\nUTF-8\n", ""] {
                if h.is_empty() && !(x.contains(".dic") || y.contains(".dic")) {
                    continue;
                }
                v.push(format!("=== load @/a\n=== A:a\n{x}=== B:b\n{y}{h}"));
            }
        }
    }
    v
}

pub fn p29(r: &mut Run) {
    // every opcode, plain and with prefixes, in one listing
    let mut all = String::new();
    for (op, _, _) in crate::model::parse::opcodes() {
        if op == "include" {
            continue;
        }
        for pre in ["", "nofor ", "noback ", "nocross ", "before x ", "noback nocross after y "] {
            let l = format!("{pre}{op} {}", super::loading::sample_args(op).join(" "));
            if crate::model::parse::parse_table(&l).is_ok() {
                all += &format!("{l}\n");
            }
        }
    }
    let mut worlds = vec![format!("=== load @/a\n=== A:a\n{all}")];
    worlds.extend(listings(r));
    for n in [1usize, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 500, 501, 999, 1000, 1001, 1023, 1024, 1025, 2049, 4097, r.b(10_001, 70_001)] {
        worlds.push(format!("=== load @/a\n=== A:a\n{}include @/b\n=== B:b\nletter b 2\n", "letter a 1\n".repeat(n)));
        worlds.push(format!("=== load @/a\n=== A:a\n{}include @/b\n=== B:b\nletter b 2\n", "letter a 1\n\n# x\nalways ab 3\n".repeat(n / 4)));
        worlds.push(format!("=== load @/a\n=== A:a\n{}letter b 2\n", "bad\nletter a 1\n".repeat(n / 2)));
        if n < 2000 {
            worlds.push(format!("=== load @/a\n=== A:a\n{}letter b 2\n=== B:b\nletter a 2\nalways ab 3\n", "include @/b\n".repeat(n / 2)));
        }
    }
    r.each("listings", &worlds, |w, t| {
        let mut p = Part { states: 1, traces: 1, ..Part::default() };
        shared::table(w, t, true);
        shared::input(w, "", &[]);
        let world = World::parse(t);
        let name = lay_out(&world).remove(0);
        let o = run(&["parse", &name], b"", &[]);
        let norm = |s: &str| s.replace(&scratch(), "$").replace(&format!("w{w}/"), "@/");
        let (out, err) = (norm(&o.out), norm(&o.err));
        let want = world.origins();
        let ok = match &want {
            Err(es) => {
                p.rejected += 1;
                out.is_empty() && err.lines().count() == es.len() && err.lines().zip(es).all(|(l, e)| e.strip_prefix("parse ").is_none_or(|at| l.starts_with(&format!("{at}:"))))
            }
            Ok(rules) => {
                p.nontrivial += 1;
                p.transitions += rules.len() as u64;
                p.states += rules.len() as u64;
                err.is_empty()
                    && out.lines().count() == rules.len()
                    && out.lines().zip(rules).all(|(l, (op, path, line))| {
                        let l = l.to_lowercase();
                        l.contains(&format!("rule: {op}"))
                            && l.trim_end_matches([' ', '}', ')']).rsplit(|c: char| !c.is_ascii_digit()).next() == Some(&line.to_string())
                            && l.contains(&path.to_lowercase())
                    })
            }
        };
        if !ok {
            p.bad.push(("cli".into(), text_of(t, "parse", "", &format!("{want:?}"), &format!("{out}{err}"))));
        }
        if p.sample.is_none() && o.out.lines().count() > 3 {
            p.sample = Some(format!("parse lists {:?}", want.unwrap_or_default()));
        }
        p
    });

    // lines one by one
    let ops = super::loading::op_lines(r);
    let skipped = ["", "# letter a 1", "#letter a 1", "#", "#+a:1", "##", "# include x", "#\tletter a 1"];
    let mut texts: Vec<&str> = vec![];
    for (n, l) in ops.iter().filter(|l| !l.trim().is_empty() && !l.contains(['\n', '\r'])).enumerate() {
        texts.push(l);
        if n % 10 < skipped.len() {
            texts.push(skipped[n % 10]);
        }
    }
    let mut chunks: Vec<&[&str]> = texts.chunks(100).collect();
    chunks.extend(texts.chunks(r.b(3000, 1500)));
    chunks.push(&texts);
    r.each("lines one by one", &chunks, |w, ls| {
        let mut p = Part { traces: ls.len() as u64, states: ls.len() as u64, transitions: ls.len() as u64, ..Part::default() };
        let t = ls.join("\n");
        shared::table(w, &t, true);
        shared::input(w, "", &[]);
        let o = run(&["parse"], format!("{t}\n").as_bytes(), &[]);
        // one prompt per line; a line that is a rule is answered on standard output, any other on standard error
        let mut want = vec![];
        let mut errs = 0;
        for l in *ls {
            if l.is_empty() || l.starts_with('#') {
                continue;
            }
            match crate::model::parse::parse_table(l) {
                Ok(v) if v.len() == 1 => want.push((l.to_string(), v[0].op)),
                _ => errs += 1,
            }
        }
        p.nontrivial += want.len() as u64;
        p.rejected += errs as u64;
        let got: Vec<String> = o.out.lines().map(|l| l.replace("> ", "").to_lowercase()).filter(|l| !l.is_empty()).collect();
        let prompts = o.out.matches("> ").count();
        let ok = got.len() == want.len() && got.iter().zip(&want).all(|(g, (_, op))| g.starts_with(op)) && o.err.lines().count() == errs && prompts >= ls.len() + 1;
        if !ok {
            let k = got.iter().zip(&want).position(|(g, (_, op))| !g.starts_with(op));
            p.bad.push(("cli".into(), text_of(&t, "parse", "", &format!("{} rules and {errs} errors; {:?}", want.len(), k.map(|k| &want[k])), &format!("{} and {}; {:?}", got.len(), o.err.lines().count(), k.map(|k| &got[k])))));
        }
        p
    });
}
