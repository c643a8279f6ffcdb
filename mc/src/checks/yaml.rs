//! The test runner: the verdicts of `louis check` and its counts (P25).
use super::cli::{Part, run as louis_run};
use super::*;
use crate::model::world::World;
use crate::model::{Model, Span};
use crate::shared;
use std::collections::HashMap;

#[derive(Clone, Debug)]
enum Ref {
    One(&'static str),
    List(&'static [&'static str]),
    Comma(&'static [&'static str]),
    Inline(&'static str),
    Assert(&'static str),
    Query,
}

#[derive(Clone, Debug, Default)]
struct Test {
    desc: Option<&'static str>,
    input: String,
    expected: String,
    xfail: Option<&'static str>,
    /// typeform: class and mask
    form: Vec<(&'static str, &'static str)>,
    /// further options, which have no effect
    more: Vec<&'static str>,
}

#[derive(Clone, Debug)]
enum Top {
    Display(Ref),
    Table(Ref),
    Flags(&'static str),
    Tests(Vec<Test>),
    Raw(&'static str),
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Quote {
    Plain,
    Single,
    Double,
    /// double, everything as escapes of the table language
    Escaped,
}

// ------------------------------------------------------------------ writing test files

fn quote(s: &str, q: Quote) -> String {
    match q {
        Quote::Plain if !s.is_empty() && s.trim() == s && s.chars().all(|c| c.is_alphanumeric() || c == ' ' || ('\u{2800}'..'\u{2900}').contains(&c)) => s.to_string(),
        Quote::Plain | Quote::Single => format!("'{}'", s.replace('\\', "\\\\").replace('\'', "''")),
        Quote::Double => format!("\"{}\"", s.replace('\\', "\\\\\\\\").replace('"', "\\\"")),
        Quote::Escaped => {
            let t: String = s.chars().map(|c| if (c as u32) < 0x10000 { format!("\\x{:04x}", c as u32) } else { format!("\\y{:05x}", c as u32) }).collect();
            format!("'{t}'")
        }
    }
}

fn reference(key: &str, r: &Ref, block: bool) -> String {
    match r {
        Ref::One(n) => format!("{key}: @/{n}\n"),
        Ref::List(ns) if block && !ns.is_empty() => format!("{key}:\n{}", ns.iter().map(|n| format!("  - @/{n}\n")).collect::<String>()),
        Ref::List(ns) => format!("{key}: [{}]\n", ns.iter().map(|n| format!("@/{n}")).collect::<Vec<_>>().join(", ")),
        Ref::Comma(ns) => format!("{key}: {}\n", ns.iter().map(|n| format!("@/{n}")).collect::<Vec<_>>().join(",")),
        // a line break of a folded scalar takes an empty line
        Ref::Inline(t) if block => format!("{key}: {}\n{}\n", if t.len() % 2 == 0 { ">" } else { ">-" }, t.lines().map(|l| format!("  {l}\n")).collect::<Vec<_>>().join("\n")),
        Ref::Inline(t) => format!("{key}: |\n{}", t.lines().map(|l| format!("  {l}\n")).collect::<String>()),
        Ref::Assert(n) if block => format!("{key}:\n  language: xx\n  __assert-match: @/{n}\n"),
        Ref::Assert(n) => format!("{key}: {{__assert-match: @/{n}}}\n"),
        Ref::Query => format!("{key}: {{language: en, grade: 2}}\n"),
    }
}

fn write(doc: &[Top], block: bool, q: Quote) -> String {
    let mut s = String::new();
    for t in doc {
        match t {
            Top::Display(r) => s += &reference("display", r, block),
            Top::Table(r) => s += &reference("table", r, block),
            Top::Flags(m) => s += &format!("flags: {{testmode: {m}}}\n"),
            Top::Raw(x) => s += x,
            Top::Tests(ts) => {
                s += "tests:\n";
                if ts.is_empty() {
                    s.truncate(s.len() - 1);
                    s += " []\n";
                }
                for t in ts {
                    let mut items = vec![];
                    if let Some(d) = t.desc {
                        items.push(quote(d, q));
                    }
                    items.push(quote(&t.input, q));
                    items.push(quote(&t.expected, q));
                    let mut opts: Vec<String> = vec![];
                    if let Some(x) = t.xfail {
                        opts.push(format!("xfail: {x}"));
                    }
                    if !t.form.is_empty() {
                        opts.push(format!("typeform: {{{}}}", t.form.iter().map(|(c, m)| format!("{c}: '{m}'")).collect::<Vec<_>>().join(", ")));
                    }
                    opts.extend(t.more.iter().map(|m| m.to_string()));
                    if block {
                        let mut first = true;
                        for i in items {
                            s += &format!("  {} {i}\n", if first { "- -" } else { "  -" });
                            first = false;
                        }
                        for (n, o) in opts.iter().enumerate() {
                            s += &format!("    {} {o}\n", if n == 0 { "-" } else { " " });
                        }
                    } else {
                        if !opts.is_empty() {
                            items.push(format!("{{{}}}", opts.join(", ")));
                        }
                        s += &format!("  - [{}]\n", items.join(", "));
                    }
                }
            }
        }
    }
    s
}

// ------------------------------------------------------------------ what should come out

#[derive(Debug, PartialEq, Clone)]
struct Verdict {
    kind: &'static str,
    input: String,
    expected: String,
    actual: String,
    fwd: bool,
}

impl Verdict {
    fn line(&self) -> String {
        let d = if self.fwd { "Forward" } else { "Backward" };
        if self.kind == "UnexpectedSuccess" {
            return format!("{} {{ input: {:?}, direction: {d} }}", self.kind, self.input);
        }
        format!("{} {{ input: {:?}, expected: {:?}, actual: {:?}, direction: {d} }}", self.kind, self.input, self.expected, self.actual)
    }
}

fn expects_failure(x: Option<&str>, fwd: bool) -> bool {
    let Some(x) = x else { return false };
    let on = |v: &str| !matches!(v.trim(), "off" | "false");
    match x.strip_prefix('{') {
        None => on(x),
        Some(m) => m.trim_end_matches('}').split(',').filter_map(|e| e.split_once(':')).any(|(k, v)| k.trim() == if fwd { "forward" } else { "backward" } && on(v)),
    }
}

fn spans(form: &[(&str, &str)]) -> Vec<Span> {
    let mut v = vec![];
    for (c, m) in form {
        let m: Vec<char> = m.chars().collect();
        let mut i = 0;
        while i < m.len() {
            if m[i] != '+' {
                i += 1;
                continue;
            }
            let s = i;
            while i < m.len() && m[i] == '+' {
                i += 1;
            }
            v.push(Span { class: c.to_string(), start: s, end: i });
        }
    }
    v
}

/// files shared by all documents of a suite
struct Files {
    text: String,
}

impl Files {
    fn source(&self, r: &Ref) -> Option<String> {
        Some(match r {
            Ref::One(n) | Ref::Assert(n) => format!("=== load @/{n}\n{}", self.text),
            Ref::List(ns) | Ref::Comma(ns) => format!("=== load {}\n{}", ns.iter().map(|n| format!("@/{n}")).collect::<Vec<_>>().join(" "), self.text),
            Ref::Inline(t) => format!("=== load @/inline\n{}=== A:inline\n{t}\n", self.text),
            Ref::Query => return None,
        })
    }

    fn display(&self, r: &Option<Ref>, fwd: bool) -> Option<HashMap<char, char>> {
        let mut m = HashMap::new();
        let Some(r) = r else { return Some(m) };
        for rule in World::parse(&self.source(r)?).rules().ok()? {
            if rule.op == "display" && rule.applies(fwd) {
                let (c, d) = (rule.ch(0), rule.s(1).chars().next().unwrap());
                let (k, v) = if fwd { (d, c) } else { (c, d) };
                m.entry(k).or_insert(v);
            }
        }
        Some(m)
    }

    /// the verdicts of a document in order, or None if it is reported as a whole
    fn verdicts(&self, doc: &[Top], work: &mut (u64, u64)) -> Option<Vec<Verdict>> {
        let mut out = vec![];
        let (mut display, mut tables, mut mode, mut fresh) = (None, Vec::<Ref>::new(), "forward", true);
        for t in doc {
            let was_table = matches!(t, Top::Table(_));
            match t {
                Top::Display(r) => display = Some(r.clone()),
                Top::Table(r) => {
                    if fresh {
                        tables.clear();
                    }
                    tables.push(r.clone());
                }
                Top::Flags(m) => {
                    if !["forward", "backward", "bothDirections", "display", "hyphenate", "hyphenateBraille"].contains(m) {
                        return None;
                    }
                    mode = m;
                }
                Top::Raw(_) => return None,
                Top::Tests(ts) => {
                    let dirs: &[bool] = match mode {
                        "forward" => &[true],
                        "backward" => &[false],
                        "bothDirections" => &[true, false],
                        _ => &[],
                    };
                    for &fwd in dirs {
                        let map = self.display(&display, fwd)?;
                        let show = |s: &str| s.chars().map(|c| *map.get(&c).unwrap_or(&c)).collect::<String>();
                        for r in &tables {
                            let m = Model::from_source(&self.source(r)?, fwd).ok()?;
                            for t in ts {
                                let swap = !fwd && mode == "bothDirections";
                                let (i, e) = if swap { (&t.expected, &t.input) } else { (&t.input, &t.expected) };
                                let sp = spans(&t.form);
                                let text = if fwd { i.clone() } else { show(i) };
                                let run = m.run(&text, &sp);
                                work.0 += run.steps + 1;
                                work.1 += run.steps;
                                let got = if fwd { show(&run.output) } else { run.output };
                                let kind = match (got == *e, expects_failure(t.xfail, fwd)) {
                                    (true, false) => "Success",
                                    (true, true) => "UnexpectedSuccess",
                                    (false, true) => "ExpectedFailure",
                                    (false, false) => "Failure",
                                };
                                out.push(Verdict { kind, input: i.clone(), expected: e.clone(), actual: got, fwd });
                            }
                        }
                    }
                }
            }
            fresh = !was_table;
        }
        Some(out)
    }
}

fn pct(n: usize, all: usize) -> String {
    format!("{:.1}%", n as f64 * 100.0 / all as f64)
}

fn row(name: &str, v: &[&Verdict]) -> Vec<String> {
    let n = |k: &str| pct(v.iter().filter(|x| x.kind == k).count(), v.len());
    vec![name.into(), v.len().to_string(), n("Success"), n("Failure"), n("ExpectedFailure"), n("UnexpectedSuccess")]
}

/// one invocation on the given documents
fn invocation(files: &Files, docs: &[(String, Option<Vec<Verdict>>, String)], p: &mut Part, w: usize) {
    let mut text = files.text.clone();
    for (name, _, yaml) in docs {
        if !yaml.is_empty() {
            text += &format!("=== A:{name}\n{yaml}");
        }
    }
    shared::table(w, &text, true);
    shared::input(w, "", &[]);
    lay_out(&World::parse(&text));
    let root = format!("{}/A/w{w}", scratch());
    let paths: Vec<String> = docs.iter().map(|d| format!("{root}/{}", d.0)).collect();
    let mut argv = vec!["check"];
    argv.extend(paths.iter().map(String::as_str));
    let bad = |p: &mut Part, e: String, o: &super::cli::Out| {
        p.bad.push(("cli".into(), format!("command louis {}\nexpected {e}\ngot {}\n{}\n{}", paths.join(" "), o.out, o.err, text)));
    };
    let reported = |o: &super::cli::Out| docs.iter().zip(&paths).all(|(d, path)| d.1.is_none() == (o.err.contains(path.as_str()))) && (docs.iter().any(|d| d.1.is_none()) || o.err.is_empty());
    let all: Vec<&Verdict> = docs.iter().filter_map(|d| d.1.as_ref()).flatten().collect();
    p.traces += 2;
    p.nontrivial += all.len() as u64;

    let o = louis_run(&argv, b"", &[]);
    let want: String = all.iter().filter(|v| v.kind != "Success").map(|v| v.line() + "\n").collect();
    if o.out != want || !reported(&o) {
        return bad(p, want, &o);
    }
    argv.insert(1, "-s");
    let o = louis_run(&argv, b"", &[]);
    let mut rows: Vec<Vec<String>> =
        o.out.lines().filter(|l| l.starts_with('│')).map(|l| l.trim_matches('│').split('│').map(|c| c.trim().to_string()).collect()).collect();
    // the head may take several lines
    while rows.first().is_some_and(|r| r.get(1).is_none_or(|c| c.parse::<usize>().is_err())) {
        rows.remove(0);
    }
    let base = |n: &str| n.rsplit('/').next().unwrap().to_string();
    let mut want: Vec<Vec<String>> = docs.iter().filter_map(|d| d.1.as_ref().map(|v| row(&base(&d.0), &v.iter().collect::<Vec<_>>()))).collect();
    let total = row("Total", &all);
    let same = |a: &Vec<String>, b: &Vec<String>| if a.get(1).is_some_and(|n| n == "0") { a[..2] == b[..2] } else { a == b };
    let last = rows.pop().unwrap_or_default();
    rows.sort();
    want.sort();
    if !same(&total, &last) || rows.len() != want.len() || !want.iter().zip(&rows).all(|(a, b)| same(a, b)) || !reported(&o) {
        return bad(p, format!("{want:?} {total:?}"), &o);
    }
    if p.sample.is_none() {
        p.sample = Some(format!("check of {} files: {}", docs.len(), last.join(" ")));
    }
}

const FILES: &str = "\
=== A:t1
space \\s 0
letter a 1
letter b 12
always ab 3
=== A:t2
space \\s 0
letter a 2
letter b 23
emphclass italic
begemph italic 46
endemph italic 56
=== A:t3
always ba 345
=== A:bad
letter a
=== A:d1
display x 1
display y 12
display z 3
display o 0
=== A:d2
display p 2
nofor display x 2
noback display q 23
display x 12
";

fn test(i: &str, e: &str) -> Test {
    Test { input: i.into(), expected: e.into(), ..Test::default() }
}

pub fn p25(r: &mut Run) {
    let files = Files { text: FILES.into() };
    let one = |w: usize, docs: &[(&[Top], bool, Quote)]| {
        let mut p = Part::default();
        let mut work = (0, 0);
        let ds: Vec<_> = docs.iter().enumerate().map(|(n, (d, b, q))| (format!("y{n}.yaml"), files.verdicts(d, &mut work), write(d, *b, *q))).collect();
        p.states = work.0;
        p.transitions = work.1;
        p.rejected = ds.iter().filter(|d| d.1.is_none()).count() as u64;
        invocation(&files, &ds, &mut p, w);
        p
    };

    // the verdict of a case
    let refs = [
        Ref::One("t1"), Ref::One("t2"), Ref::List(&["t1", "t3"]), Ref::List(&["t3", "t1"]), Ref::List(&["t2"]), Ref::Inline("space \\s 0\nletter a 4\nletter b 45"), Ref::Inline("include @/t1\nalways bb 6\n"), Ref::Assert("t1"), Ref::One("bad"),
        Ref::One("none"), Ref::Query, Ref::List(&["t1", "none"]), Ref::Inline("bad\n"), Ref::Inline("include @/none\n"), Ref::List(&[]),
    ];
    let displays = [
        None, Some(Ref::One("d1")), Some(Ref::One("d2")), Some(Ref::List(&["d1", "d2"])), Some(Ref::List(&["d2", "d1"])), Some(Ref::Comma(&["d1", "d2"])), Some(Ref::Inline("display m 1\ndisplay n 2\nnofor display m 3\n")), Some(Ref::Inline("include @/d1\ndisplay x 2\n")),
        Some(Ref::One("none")), Some(Ref::One("bad")), Some(Ref::One("t1")),
    ];
    let modes = ["forward", "backward", "bothDirections", "display", "hyphenate", "hyphenateBraille", "nonsense"];
    let xfails = [
        None, Some("false"), Some("off"), Some("true"), Some("on"), Some("not yet"), Some("{forward: true}"), Some("{backward: true}"), Some("{forward: true, backward: why}"), Some("{forward: off, backward: on}"), Some("{forward: false}"), Some("{}"),
    ];
    let pairs = [("ab", "⠄"), ("ab", "z"), ("a", "⠂"), ("a", "x"), ("b a", "yox"), ("b a", "⠃⠀⠁"), ("x", "a"), ("⠂", "a"), ("z", "ab"), ("", ""), ("ab", ""), ("a", "p"), ("a", "m"), ("m", "a")];
    let mut ts = vec![];
    for (i, e) in pairs {
        for x in xfails {
            ts.push(Test { xfail: x, ..test(i, e) });
        }
    }
    let mut docs: Vec<Vec<Top>> = vec![];
    for m in modes {
        for t in &refs {
            for d in &displays {
                let mut doc: Vec<Top> = d.iter().map(|d| Top::Display(d.clone())).collect();
                doc.push(Top::Table(t.clone()));
                doc.push(Top::Flags(m));
                doc.push(Top::Tests(ts.clone()));
                docs.push(doc);
            }
        }
    }
    for (b, q) in [(false, Quote::Plain), (true, Quote::Single), (false, Quote::Double), (true, Quote::Escaped)] {
        if !r.thorough && q == Quote::Double {
            continue;
        }
        let name = format!("verdicts, {q:?}");
        r.each(&name, &docs, |w, d| one(w, &[(d, b, q)]));
    }
    // each case alone
    let mut alone: Vec<Vec<Top>> = vec![];
    for m in &modes[..3] {
        for (t, d) in [(Ref::One("t1"), None), (Ref::One("t2"), Some(Ref::One("d2")))] {
            for c in &ts {
                let mut doc: Vec<Top> = d.iter().map(|d: &Ref| Top::Display(d.clone())).collect();
                doc.extend([Top::Flags(m), Top::Table(t.clone()), Top::Tests(vec![c.clone()])]);
                alone.push(doc);
            }
        }
    }
    r.each("each case alone", &alone, |w, d| one(w, &[(d, false, Quote::Single)]));

    // which tables, display and mode are in force: every sequence of entries
    let entries = [
        Top::Table(Ref::One("t1")), Top::Table(Ref::One("t2")), Top::Display(Ref::One("d1")), Top::Display(Ref::One("d2")), Top::Flags("backward"), Top::Flags("bothDirections"), Top::Flags("forward"),
        Top::Tests(vec![test("ab", "z"), test("a", "⠁"), test("x", "a"), Test { xfail: Some("{backward: true}"), ..test("b", "⠃") }]), Top::Tests(vec![test("a", "⠂")]), Top::Flags("display"),
    ];
    let mut seq: Vec<Vec<usize>> = vec![vec![]];
    let mut docs = vec![];
    for _ in 0..r.b(4, 5) {
        seq = seq.iter().flat_map(|s| (0..entries.len()).map(move |i| [s.as_slice(), &[i]].concat())).collect();
        docs.extend(seq.iter().filter(|s| s.iter().any(|i| (7..9).contains(i))).cloned());
    }
    // with tests at the end, so that what precedes them matters
    docs.retain(|s| (7..9).contains(s.last().unwrap()));
    r.each("sequences of entries", &docs, |w, s| {
        let d: Vec<Top> = s.iter().map(|i| entries[*i].clone()).collect();
        one(w, &[(&d, s.len() % 2 == 0, Quote::Plain)])
    });

    // options of a case
    let masks = ["", "+", "-+", "++", "+-+", "+++", " +", "++++++", "----", "·+", "é", "-é+", "+é"];
    let mut ts = vec![];
    for (i, e) in [("ab", "⠨⠂⠰⠆"), ("ab", "⠨⠂⠆⠰"), ("ab", "⠂⠆"), ("a b", "⠨⠂⠰⠀⠨⠆⠰"), ("ab", "⠂⠨⠆⠰"), ("aba", "⠂⠨⠆⠰⠂"), ("aba", "⠂⠨⠆⠂⠰")] {
        for m in masks {
            for f in [vec![("italic", m)], vec![("bold", m)], vec![("italic", m), ("bold", "++")], vec![("italic", "+"), ("italic", m)]] {
                ts.push(Test { form: f, ..test(i, e) });
            }
        }
    }
    let more = [
        "mode: [noContractions]", "mode: [noUndefined, partialTrans]", "mode: []", "cursorPos: 1", "cursorPos: [0, 1]", "inputPos: [0, 1, 2]", "outputPos: []", "maxOutputLength: 1", "realInputLength: 1", "expected_typeform: {italic: '+'}",
    ];
    let mut ts2 = vec![];
    for a in more {
        for b in more {
            for (i, e) in [("ab", "⠄"), ("ab", "⠂⠆"), ("a", "⠁")] {
                let m = if a == b { vec![a] } else { vec![a, b] };
                ts2.push(Test { more: m.clone(), ..test(i, e) });
                ts2.push(Test { more: m, desc: Some("why: not"), xfail: Some("true"), ..test(i, e) });
            }
        }
    }
    let descs = ["d", "ab", "⠄", "two words", "it's"];
    let mut ts3 = vec![];
    for d in descs {
        for (i, e) in [("ab", "⠄"), ("b\\a", "⠃⠳⠭⠒⠉⠤⠁"), ("a\"b", "⠁"), ("a'b", "⠁"), ("𝄞", "⠁"), ("a:b", "⠁⠃"), ("# a", "⠁"), (" a ", "⠀⠁⠀"), ("{a}", "a"), ("true", "a"), ("~", "~")] {
            ts3.push(Test { desc: Some(d), ..test(i, e) });
            ts3.push(Test { desc: Some(d), xfail: Some("off"), ..test(i, e) });
            ts3.push(test(i, e));
        }
    }
    let mut docs = vec![];
    for t in [ts, ts2, ts3] {
        for m in &modes[..3] {
            for tab in ["t1", "t2"] {
                for b in [false, true] {
                    for q in [Quote::Plain, Quote::Single, Quote::Double, Quote::Escaped] {
                        docs.push((vec![Top::Table(Ref::One(tab)), Top::Flags(m), Top::Tests(t.clone())], b, q));
                        for c in t.chunks(r.b(12, 1)) {
                            docs.push((vec![Top::Flags(m), Top::Table(Ref::One(tab)), Top::Tests(c.to_vec())], b, q));
                        }
                    }
                }
            }
        }
    }
    r.each("options of a case", &docs, |w, (d, b, q)| one(w, &[(d, *b, *q)]));

    // several files, some of them faulty
    let good = |n: usize| Top::Tests(vec![test("ab", "⠄"); n]);
    let t1 = || Top::Table(Ref::One("t1"));
    let mixed = vec![t1(), Top::Tests(vec![test("a", "⠁"), test("a", "x"), Test { xfail: Some("true"), ..test("a", "⠁") }, Test { xfail: Some("true"), ..test("a", "x") }, test("b", "x")])];
    let kinds: Vec<Vec<Top>> = vec![
        vec![t1(), good(1)], vec![t1(), good(3)], mixed, vec![t1()], vec![], vec![t1(), good(2), Top::Raw("bogus: 1\n")], vec![t1(), Top::Raw("tests:\n  - [a\n")], vec![Top::Table(Ref::One("bad")), good(1)],
        vec![Top::Raw("\n")], vec![t1(), Top::Tests(vec![Test { more: vec!["nonsense: 1"], ..test("a", "b") }])], vec![t1(), Top::Raw("tests:\n  - ['a', '\\q']\n")], vec![t1(), Top::Raw("tests:\n  - ['a']\n")],
        vec![t1(), Top::Tests(vec![Test { more: vec!["mode: [nonsense]"], ..test("a", "b") }])], vec![t1(), Top::Tests(vec![Test { more: vec!["cursorPos: 99999"], ..test("a", "b") }])],
        vec![t1(), Top::Tests(vec![Test { xfail: Some("{sideways: true}"), ..test("a", "b") }])], vec![t1(), Top::Raw("\ttests: []\n")],
        vec![t1(), good(2), Top::Raw("---\ntable: @/t1\ntests: []\n")], vec![t1(), good(1), Top::Raw("...\n---\ntable: @/t1\ntests:\n  - [a, b]\n")], vec![t1(), good(1), Top::Raw("- a\n")], vec![t1(), good(1), Top::Raw("[a]: b\n")],
    ];
    let faulty = |d: &[Top]| d.is_empty() || d.iter().any(|t| matches!(t, Top::Tests(ts) if ts.iter().any(|t| t.more.iter().any(|m| ["nonsense: 1", "mode: [nonsense]", "cursorPos: 99999"].contains(m)) || t.xfail == Some("{sideways: true}"))));
    let mut sets: Vec<Vec<usize>> = vec![];
    for a in 0..kinds.len() {
        sets.push(vec![a]);
        for b in 0..kinds.len() {
            sets.push(vec![a, b]);
            for c in 0..r.b(6, kinds.len()) {
                sets.push(vec![a, b, c]);
            }
        }
    }
    // the same names in different directories, too
    let sets: Vec<(bool, Vec<usize>)> = [false, true].into_iter().flat_map(|same| sets.iter().filter(move |s| !same || s.len() > 1).map(move |s| (same, s.clone()))).collect();
    r.each("several files", &sets, |w, (same, s)| {
        let mut p = Part::default();
        let mut work = (0, 0);
        let ds: Vec<_> = s
            .iter()
            .enumerate()
            .map(|(n, k)| {
                let d = &kinds[*k];
                let v = if faulty(d) { None } else { files.verdicts(d, &mut work) };
                let name = if *same { format!("{}y.yaml", ["", "d/", "e/"][n]) } else { format!("y{n}.yaml") };
                (name, v, write(d, false, Quote::Single))
            })
            .collect();
        p.states = work.0 + 1;
        p.transitions = work.1 + 1;
        p.rejected = ds.iter().filter(|d| d.1.is_none()).count() as u64;
        invocation(&files, &ds, &mut p, w);
        p
    });
}
