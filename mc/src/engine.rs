//! Exhaustive exploration of finite families of (table, direction, input, emphasis) cases:
//! every case is run on the reference model and replayed on the real translator.
use crate::model::world::{self, Node, World};
use crate::model::{Model, Reject, Span, Step};
use crate::shared;
use louis::{Direction, EmphasisSpan, TranslationOptions, Translator};
use std::collections::BTreeMap;
use std::path::Path;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub const THREADS: usize = 8;

#[derive(Clone, Debug, PartialEq)]
pub struct Case {
    pub table: String,
    pub fwd: bool,
    pub input: String,
    pub spans: Vec<Span>,
}

pub struct Suite {
    pub name: String,
    pub tables: Vec<String>,
    /// the first lines of every table, shared by all of them: rules beyond them are under test
    pub base_lines: usize,
    pub dirs: Vec<bool>,
    pub inputs: Arc<Vec<String>>,
    pub spans: Arc<Vec<Vec<Span>>>,
    /// only ask that every load and every translation comes to an end with a result
    pub totality: bool,
    /// the rules of the property among those of the tables: without any of them, the tables are
    /// another property's business
    pub own: Vec<String>,
}

impl Suite {
    pub fn new(name: &str, base: &str, tables: Vec<String>, dirs: &[bool], inputs: Vec<String>) -> Suite {
        Suite {
            name: name.to_string(),
            base_lines: base.lines().count(),
            tables,
            dirs: dirs.to_vec(),
            inputs: Arc::new(inputs),
            spans: Arc::new(vec![vec![]]),
            totality: false,
            own: vec![],
        }
    }
    pub fn of(mut self, own: &[String]) -> Suite {
        self.own = own.to_vec();
        self
    }
    pub fn totality(mut self) -> Suite {
        self.totality = true;
        self
    }
    pub fn with_spans(mut self, s: Vec<Vec<Span>>) -> Suite {
        self.spans = Arc::new(s);
        self
    }
}

// ------------------------------------------------------------------ generators

/// all strings over `alpha` of length lo..=hi
pub fn words(alpha: &str, lo: usize, hi: usize) -> Vec<String> {
    let a: Vec<char> = alpha.chars().collect();
    let mut out = vec![];
    let mut layer = vec![String::new()];
    for n in 0..=hi {
        if n >= lo {
            out.extend(layer.iter().cloned());
        }
        if n == hi {
            break;
        }
        layer = layer
            .iter()
            .flat_map(|s| {
                a.iter().map(move |c| {
                    let mut t = s.clone();
                    t.push(*c);
                    t
                })
            })
            .collect();
    }
    out
}

/// all sequences of up to `hi` of the given pieces
pub fn seqs(pieces: &[&str], lo: usize, hi: usize) -> Vec<String> {
    let mut out = vec![];
    let mut layer = vec![String::new()];
    for n in 0..=hi {
        if n >= lo {
            out.extend(layer.iter().cloned());
        }
        if n == hi {
            break;
        }
        layer = layer.iter().flat_map(|s| pieces.iter().map(move |p| format!("{s}{p}"))).collect();
    }
    out.sort();
    out.dedup();
    out
}

/// base + every ordered selection of lo..=hi distinct lines of the pool
pub fn perms(base: &str, pool: &[String], lo: usize, hi: usize) -> Vec<String> {
    fn go(cur: &mut Vec<usize>, pool: &[String], lo: usize, hi: usize, base: &str, out: &mut Vec<String>) {
        if cur.len() >= lo {
            let mut t = base.to_string();
            for i in cur.iter() {
                t.push_str(&pool[*i]);
                t.push('\n');
            }
            out.push(t);
        }
        if cur.len() == hi {
            return;
        }
        for i in 0..pool.len() {
            if !cur.contains(&i) {
                cur.push(i);
                go(cur, pool, lo, hi, base, out);
                cur.pop();
            }
        }
    }
    let mut out = vec![];
    go(&mut vec![], pool, lo, hi, base, &mut out);
    out
}

/// base + one alternative of each group ("" = none; alternatives may span lines)
pub fn product(base: &str, groups: &[&[&str]]) -> Vec<String> {
    let mut out = vec![base.to_string()];
    for g in groups {
        out = out
            .iter()
            .flat_map(|t| {
                g.iter().map(move |l| if l.is_empty() { t.clone() } else { format!("{t}{l}\n") })
            })
            .collect();
    }
    out
}

pub fn lines(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}

// ------------------------------------------------------------------ running one case

pub fn dir(fwd: bool) -> Direction {
    if fwd { Direction::Forward } else { Direction::Backward }
}

thread_local! { pub static WORKER: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; }

/// the directory that holds the two search directories
pub fn scratch() -> String {
    std::env::var("MC_SCRATCH").unwrap()
}

/// write the files of a world; returns the names of the tables to load
pub fn lay_out(w: &World) -> Vec<String> {
    use std::fs;
    let root = scratch();
    let me = format!("w{}", WORKER.get());
    for d in ["A", "B", "C"] {
        let p = format!("{root}/{d}/{me}");
        if fs::symlink_metadata(&p).is_ok() {
            fs::remove_dir_all(&p).unwrap();
        }
        fs::create_dir_all(&p).unwrap();
    }
    let real = |s: &str| s.replace("@/", &format!("{me}/")).replace("%ROOT%", &root);
    for (k, n) in &w.nodes {
        let p = format!("{root}/{}", real(k));
        fs::create_dir_all(Path::new(&p).parent().unwrap()).unwrap();
        match n {
            Node::Text(t) => fs::write(&p, real(t)).unwrap(),
            Node::Binary => fs::write(&p, b"letter a 1\nletter \xff\xfe 2\n").unwrap(),
            Node::Dir => fs::create_dir_all(&p).unwrap(),
            Node::Link(t) => std::os::unix::fs::symlink(format!("{root}/{}", real(&world::key(t))), &p).unwrap(),
        }
    }
    w.load.iter().map(|l| real(l)).collect()
}

fn build_world(text: &str, fwd: bool) -> Result<Translator, Reject> {
    let names = lay_out(&World::parse(text));
    Translator::new(&names, dir(fwd)).map_err(|e| match e {
        louis::TranslationError::ParseFailed(v) => {
            let me = format!("w{}/", WORKER.get());
            let root = scratch();
            Reject::Errors(v.iter().map(|e| file_error(&format!("{e:?}").replace(&root, "$").replace(&me, "@/"))).collect())
        }
        _ => Reject::Compile,
    })
}

/// the kind of an error and the files it is about
fn file_error(d: &str) -> String {
    let quoted: Vec<&str> = d.split('"').skip(1).step_by(2).collect();
    let first = quoted.first().copied().unwrap_or("");
    let kind = d.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("");
    match kind {
        "ParseError" => {
            let line: String = d.split("line: ").nth(1).unwrap_or("").chars().take_while(|c| c.is_ascii_digit()).collect();
            format!("parse {first}:{line}")
        }
        "TableNotFound" => format!("notfound {first}"),
        "HyphenationTableNotFound" => format!("nodic {first}"),
        "CircularInclude" => format!("circular {}", quoted.join(" ")),
        "IncludeTooDeep" => "toodeep".into(),
        "TableNotReadable" => "unreadable".into(),
        _ => d.to_string(),
    }
}

/// Build the real translator. Rejections are reduced to what the model predicts.
pub fn build(table: &str, fwd: bool) -> Result<Translator, Reject> {
    if world::is_world(table) {
        return build_world(table, fwd);
    }
    Translator::from_table_source(table, dir(fwd)).map_err(|e| {
        let d = format!("{e:?}");
        if d.starts_with("ParseFailed") {
            let mut ls: Vec<usize> = d
                .split("line: ")
                .skip(1)
                .filter_map(|s| s.chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().ok())
                .collect();
            ls.dedup();
            Reject::Lines(ls)
        } else {
            Reject::Compile
        }
    })
}

/// Spans of the classes "#mode" and "#cursor" stand for the other options.
pub fn options(spans: &[Span]) -> TranslationOptions {
    use louis::{TranslationMode::*, TranslationModes};
    let mut o = TranslationOptions::default();
    let mut e = vec![];
    for s in spans {
        match s.class.as_str() {
            "#mode" => {
                let mut m = TranslationModes::empty();
                let all = [NoContractions, CompbrlAtCursor, DotsIo, CompbrlLeftCursor, UcBrl, NoUndefined, PartialTrans];
                for (i, x) in all.into_iter().enumerate() {
                    if s.start >> i & 1 == 1 {
                        m.insert(x);
                    }
                }
                o = o.with_mode(m);
            }
            "#cursor" => o = o.with_cursor_pos(s.start),
            _ => e.push(EmphasisSpan::new(s.class.clone(), s.start..s.end)),
        }
    }
    o.with_emphasis(e)
}

pub fn translate(t: &Translator, input: &str, spans: &[Span]) -> String {
    if spans.is_empty() {
        t.translate(input).unwrap_or_else(|e| format!("error {e:?}"))
    } else {
        t.translate_with_options(input, options(spans)).map(|r| r.output).unwrap_or_else(|e| format!("error {e:?}"))
    }
}

/// `Err(panic message)`
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
    })
}

pub fn real(c: &Case) -> Result<String, String> {
    guarded(|| match build(&c.table, c.fwd) {
        Ok(t) => translate(&t, &c.input, &c.spans),
        Err(r) => format!("rejected: {r:?}"),
    })
    .map_err(|m| format!("panic: {m}"))
}

pub fn predicted(c: &Case) -> String {
    match Model::from_source(&c.table, c.fwd) {
        Ok(m) => m.run(&c.input, &c.spans).output,
        Err(r) => format!("rejected: {r:?}"),
    }
}

// ------------------------------------------------------------------ exploration

#[derive(Default)]
pub struct Totals {
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub tables: u64,
    pub rejected: u64,
    pub nontrivial: u64,
}

pub struct Violation {
    pub kind: String,
    pub text: String,
}

pub struct Run {
    pub prop: String,
    pub thorough: bool,
    pub start: Instant,
    pub totals: Totals,
    pub suites: Vec<(String, BTreeMap<&'static str, u64>)>,
    pub samples: Vec<String>,
    pub extra: BTreeMap<String, u64>,
    pub violations: Vec<Violation>,
    pub known: Vec<String>,
    pub assumptions: Vec<String>,
}

pub static BEAT: [AtomicU64; THREADS] = [const { AtomicU64::new(0) }; THREADS];
static STOP: AtomicBool = AtomicBool::new(false);

pub fn now_ms() -> u64 {
    static T0: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
    T0.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}

pub fn esc(s: &str) -> String {
    s.chars()
        .map(|c| if c == '\\' || (c.is_ascii_control()) { c.escape_default().to_string() } else { c.to_string() })
        .collect()
}
pub fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            o.push(c);
            continue;
        }
        match it.next() {
            Some('n') => o.push('\n'),
            Some('r') => o.push('\r'),
            Some('t') => o.push('\t'),
            Some('u') => {
                let h: String = it.by_ref().skip(1).take_while(|c| *c != '}').collect();
                o.push(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32).unwrap());
            }
            Some(c) => o.push(c),
            None => {}
        }
    }
    o
}

impl Case {
    pub fn text(&self) -> String {
        let mut s = format!("direction {}\n", if self.fwd { "forward" } else { "backward" });
        for p in &self.spans {
            s += &format!("span {} {} {}\n", p.class, p.start, p.end);
        }
        s += &format!("input [{}]\n", esc(&self.input));
        for l in self.table.split('\n') {
            s += &format!("| {}\n", esc(l));
        }
        s
    }
    pub fn parse(t: &str) -> Option<Case> {
        let mut c = Case { table: String::new(), fwd: true, input: String::new(), spans: vec![] };
        let mut rows: Vec<String> = vec![];
        for l in t.lines() {
            if let Some(r) = l.strip_prefix("| ") {
                rows.push(unesc(r));
            } else if let Some(r) = l.strip_prefix("direction ") {
                c.fwd = r == "forward";
            } else if let Some(r) = l.strip_prefix("input [") {
                c.input = unesc(r.strip_suffix(']')?);
            } else if let Some(r) = l.strip_prefix("span ") {
                let f: Vec<&str> = r.split(' ').collect();
                c.spans.push(Span { class: f[0].into(), start: f[1].parse().ok()?, end: f[2].parse().ok()? });
            }
        }
        c.table = rows.join("\n");
        Some(c)
    }
}

fn show(s: &str) -> String {
    let dots: Vec<String> = s
        .chars()
        .map(|c| {
            let u = c as u32;
            if (0x2800..0x2900).contains(&u) || (0xF0000..0xF8000).contains(&u) {
                let bits = u & 0x7fff;
                let d: String = (0..15)
                    .filter(|i| bits >> i & 1 == 1)
                    .map(|i| char::from_digit(i + 1, 16).unwrap())
                    .collect();
                if d.is_empty() { "0".into() } else { d }
            } else {
                format!("'{c}'")
            }
        })
        .collect();
    format!("[{}] ({})", esc(s), dots.join("-"))
}

pub fn mismatch(c: &Case, expected: &str, got: &str) -> Violation {
    Violation {
        kind: "translate".into(),
        text: format!("kind translate\n{}expected {}\ngot {}\n", c.text(), show(expected), show(got)),
    }
}

pub fn sample(c: &Case, out: &str) -> String {
    let t: Vec<&str> = c.table.lines().rev().take(3).collect();
    format!(
        "{} {:?} -> {} under …{}{}",
        if c.fwd { "forward" } else { "backward" },
        c.input,
        show(out),
        t.into_iter().rev().collect::<Vec<_>>().join(" / "),
        if c.spans.is_empty() { String::new() } else { format!(" spans {:?}", c.spans) }
    )
}

impl Run {
    pub fn new(prop: &str, thorough: bool) -> Run {
        now_ms();
        Run {
            prop: prop.into(),
            thorough,
            start: Instant::now(),
            totals: Totals::default(),
            suites: vec![],
            samples: vec![],
            extra: BTreeMap::new(),
            violations: vec![],
            known: vec![],
            assumptions: vec![],
        }
    }

    /// pick a bound by tier
    pub fn b<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough { thorough } else { quick }
    }

    pub fn add(&mut self, name: &str, n: u64) {
        *self.extra.entry(name.to_string()).or_default() += n;
    }

    pub fn violate(&mut self, kind: &str, text: String) {
        self.violations.push(Violation { kind: kind.into(), text: format!("kind {kind}\n{text}") });
    }

    pub fn suite(&mut self, s: Suite) {
        self.suite_with(s, |_, _| {})
    }

    /// `extra` sees every case together with the model's trace.
    pub fn suite_with(&mut self, s: Suite, _extra: impl Fn(&Case, &[(u8, Vec<Step>)]) + Sync) {
        if !self.violations.is_empty() {
            return;
        }
        let t0 = Instant::now();
        let next = AtomicUsize::new(0);
        let tot = Mutex::new((Totals::default(), Vec::<Violation>::new(), Vec::<String>::new()));
        let seen = AtomicUsize::new(0);
        // few tables: share their inputs out
        let pairs = s.tables.len() * s.dirs.len();
        let chunks = if pairs == 0 { 1 } else { (64 / pairs).clamp(1, s.inputs.len().max(1)) };
        let jobs = pairs * chunks;
        std::thread::scope(|sc| {
            for w in 0..THREADS {
                let (next, tot, s, seen) = (&next, &tot, &s, &seen);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        WORKER.set(w);
                        let mut t = Totals::default();
                        loop {
                            let j = next.fetch_add(1, Relaxed);
                            if j >= jobs || STOP.load(Relaxed) {
                                break;
                            }
                            let (p, chunk) = (j / chunks, j % chunks);
                            let table = &s.tables[p / s.dirs.len()];
                            let fwd = s.dirs[p % s.dirs.len()];
                            let n = s.inputs.len();
                            let part = (chunk * n / chunks, (chunk + 1) * n / chunks);
                            let mut vs = vec![];
                            let mut samples = vec![];
                            one_table(w, s, table, fwd, &mut t, &mut vs, &mut samples, j == jobs / 2, part);
                            if !vs.is_empty() || !samples.is_empty() {
                                let mut g = tot.lock().unwrap();
                                g.1.append(&mut vs);
                                g.2.append(&mut samples);
                                if g.1.len() >= 3 {
                                    next.store(jobs, Relaxed);
                                }
                            }
                            seen.fetch_add(1, Relaxed);
                        }
                        BEAT[w].store(0, Relaxed);
                        shared::clear(w);
                        let mut g = tot.lock().unwrap();
                        g.0.states += t.states;
                        g.0.transitions += t.transitions;
                        g.0.traces += t.traces;
                        g.0.tables += t.tables;
                        g.0.rejected += t.rejected;
                        g.0.nontrivial += t.nontrivial;
                    })
                    .unwrap();
            }
        });
        let (t, vs, samples) = tot.into_inner().unwrap();
        eprintln!(
            "  {:<34} {:>8} tables {:>7} inputs {:>10} traces {:>9} nontrivial {:>6} rejected {:>6} ms",
            s.name,
            s.tables.len(),
            s.inputs.len() * s.spans.len(),
            t.traces,
            t.nontrivial,
            t.rejected,
            t0.elapsed().as_millis()
        );
        self.suites.push((
            s.name.clone(),
            BTreeMap::from([
                ("tables", t.tables),
                ("inputs", (s.inputs.len() * s.spans.len()) as u64),
                ("traces", t.traces),
                ("nontrivial", t.nontrivial),
                ("rejected_tables", t.rejected),
            ]),
        ));
        self.totals.states += t.states;
        self.totals.transitions += t.transitions;
        self.totals.traces += t.traces;
        self.totals.tables += t.tables;
        self.totals.rejected += t.rejected;
        self.totals.nontrivial += t.nontrivial;
        self.violations.extend(vs);
        if self.samples.len() < 12 {
            self.samples.extend(samples);
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn one_table(
    w: usize,
    s: &Suite,
    table: &str,
    fwd: bool,
    t: &mut Totals,
    vs: &mut Vec<Violation>,
    samples: &mut Vec<String>,
    want_sample: bool,
    part: (usize, usize),
) {
    let mut found = vec![];
    one_table_any(w, s, table, fwd, t, &mut found, samples, want_sample, part);
    if !s.own.is_empty() {
        found.retain(|v| match Case::parse(&v.text) {
            Some(c) => {
                let table: String = c.table.lines().filter(|l| !s.own.iter().any(|o| o == l)).map(|l| format!("{l}\n")).collect();
                let rest = Case { table, ..c };
                real(&rest).is_ok_and(|x| x == predicted(&rest))
            }
            None => true,
        });
    }
    vs.append(&mut found);
}

#[allow(clippy::too_many_arguments)]
fn one_table_any(
    w: usize,
    s: &Suite,
    table: &str,
    fwd: bool,
    t: &mut Totals,
    vs: &mut Vec<Violation>,
    samples: &mut Vec<String>,
    want_sample: bool,
    part: (usize, usize),
) {
    let beat = || BEAT[w].store(now_ms(), Relaxed);
    beat();
    shared::table(w, table, fwd);
    t.tables += (part.0 == 0) as u64;
    let case = |i: &str, sp: &[Span]| Case { table: table.into(), fwd, input: i.into(), spans: sp.to_vec() };
    if s.totality {
        shared::input(w, "", &[]);
        t.states += 1;
        let tr = match guarded(|| build(table, fwd)) {
            Err(p) => return vs.push(mismatch(&case("", &[]), "a table or an error", &format!("panic: {p}"))),
            Ok(Err(_)) => {
                t.rejected += 1;
                t.traces += 1;
                return;
            }
            Ok(Ok(tr)) => tr,
        };
        for input in &s.inputs[part.0..part.1] {
            for spans in s.spans.iter() {
                beat();
                shared::input(w, input, spans);
                t.traces += 1;
                t.nontrivial += 1;
                t.states += 1;
                t.transitions += 1;
                match guarded(|| translate(&tr, input, spans)) {
                    Ok(g) if g.starts_with("error ") && !input.starts_with("error") => {
                        vs.push(mismatch(&case(input, spans), "a translation", &g))
                    }
                    Ok(_) => {}
                    Err(p) => vs.push(mismatch(&case(input, spans), "a translation", &format!("panic: {p}"))),
                }
                if !vs.is_empty() {
                    return;
                }
            }
        }
        return;
    }
    let model = Model::from_source(table, fwd);
    let tr = guarded(|| build(table, fwd));
    let (m, tr) = match (model, tr) {
        (_, Err(p)) => {
            vs.push(mismatch(&case("", &[]), "no panic", &format!("panic: {p}")));
            return;
        }
        (Ok(m), Ok(Ok(tr))) => (m, tr),
        (Err(a), Ok(Err(b))) => {
            t.rejected += 1;
            t.traces += 1;
            t.states += 1;
            t.transitions += 1;
            let same = match (&a, &b) {
                (Reject::Lines(x), Reject::Lines(y)) => x.is_empty() || x == y,
                (x, y) => x == y,
            };
            if !same {
                vs.push(mismatch(&case("", &[]), &format!("rejected: {a:?}"), &format!("rejected: {b:?}")));
            }
            return;
        }
        (Ok(_), Ok(Err(b))) => {
            vs.push(mismatch(&case("", &[]), "accepted", &format!("rejected: {b:?}")));
            return;
        }
        (Err(a), Ok(Ok(_))) => {
            vs.push(mismatch(&case("", &[]), &format!("rejected: {a:?}"), "accepted"));
            return;
        }
    };
    let mid = (part.1 - part.0) / 2;
    for (n, input) in s.inputs[part.0..part.1].iter().enumerate() {
        for spans in s.spans.iter() {
            beat();
            shared::input(w, input, spans);
            let r = m.run(input, spans);
            let got = guarded(|| translate(&tr, input, spans));
            t.traces += 1;
            t.transitions += r.steps;
            t.states += r.steps + r.stages.len() as u64;
            if r.stages.iter().any(|st| st.1.iter().any(|x| x.op == "indicator" || x.line > s.base_lines)) {
                t.nontrivial += 1;
            }
            match got {
                Ok(g) if g == r.output => {
                    if want_sample && n == mid && samples.is_empty() {
                        samples.push(sample(&case(input, spans), &g));
                    }
                }
                Ok(g) => vs.push(mismatch(&case(input, spans), &r.output, &g)),
                Err(p) => vs.push(mismatch(&case(input, spans), &r.output, &format!("panic: {p}"))),
            }
            if vs.len() >= 3 {
                return;
            }
        }
    }
}

pub fn stuck_case() -> Option<usize> {
    let now = now_ms();
    (0..THREADS).find(|w| {
        let b = BEAT[*w].load(Relaxed);
        b != 0 && now.saturating_sub(b) > 20_000
    })
}

pub fn rss_mb() -> u64 {
    std::fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| s.split(' ').nth(1).and_then(|v| v.parse::<u64>().ok()))
        .map_or(0, |p| p * 4096 / (1 << 20))
}

pub fn watchdog(on_hang: impl Fn(usize, &str) + Send + 'static) {
    std::thread::spawn(move || {
        loop {
            std::thread::sleep(Duration::from_millis(100));
            if let Some(w) = stuck_case() {
                on_hang(w, "no result within 20 s");
            }
            if rss_mb() > 10_000 {
                let w = (0..THREADS).min_by_key(|w| match BEAT[*w].load(Relaxed) {
                    0 => u64::MAX,
                    b => b,
                });
                on_hang(w.unwrap_or(0), "memory exhausted");
            }
        }
    });
}
