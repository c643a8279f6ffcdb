//! Translation is a function of table, direction, text and emphasis alone: independent of what
//! was translated before, elsewhere or on another thread, and of the process's hash seeds.
use super::*;
use crate::engine;
use crate::model::{Model, Span};
use louis::{TranslationOptions, Translator};
use std::cell::Cell;
use std::collections::HashSet;
use std::sync::Mutex;
use std::sync::atomic::{AtomicUsize, Ordering::*};
use std::sync::mpsc;

thread_local! { static SEED: Cell<u64> = const { Cell::new(0) }; }

/// The only source of the standard library's hash seeds: under the checker's control.
#[unsafe(no_mangle)]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let s = SEED.with(|s| s.get());
    for i in 0..len {
        unsafe { *buf.add(i) = (s >> (i % 8 * 8)) as u8 };
    }
    len as isize
}

/// run on a new thread whose hash seeds derive from `seed`
pub fn seeded<T: Send>(seed: u64, f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn_scoped(sc, move || {
                SEED.with(|s| s.set(seed));
                f()
            })
            .unwrap()
            .join()
            .unwrap_or_else(|e| std::panic::resume_unwind(e))
    })
}

pub const B0: &str = "\
space \\s 0
punctuation , 2
punctuation - 36
lowercase a 1
lowercase b 12
letter c 14
base uppercase A a
uppercase B 127
base uppercase B b
digit 1 2
sign $ 46-1
";

pub const FEATURES: &[&str] = &[
    "always ab 4\nword ab 5\nalways abc 6\n",
    "numsign 3456\nlitdigit 1 16\nnonumsign 56\nnumericnocontchars ab\nmidnum , 6\n",
    "capsletter 6\nbegcapsword 6-6\nendcapsword 6-3\nbegcapsphrase 6-6-6\nendcapsphrase after 6-3-3\nlencapsphrase 1\ncapsmodechars -\n",
    "emphclass em\nemphclass bo\nemphclass tr\nbegemph em 4-1\nendemph em 4-2\nbegemph bo 4-3\nendemph bo 4-4\nbegemph tr 4-5\nendemph tr 4-6\n",
    "emphclass em\nemphclass bo\nemphletter em 5-1\nbegemphword em 5-2\nendemphword em 5-3\nbegemphphrase bo 5-4\nendemphphrase bo after 5-5\nlenemphphrase bo 1\nemphmodechars bo -,\n",
    "letsign 56\ncontraction ab\ncontraction a\nnoletsign b\nnoletsignafter -,\nnoletsignbefore ,-\n",
    "nocontractsign 56-1\ncontraction ab\ncontraction ba\n",
    "begcomp 456\nendcomp 456-1\ncompbrl $\ncompbrl c-\ncomp6 a 145\n",
    "match %[_.^]|[abc] b - 456\nmatch - a [b-c]+ 45\nmatch %[#a]* c !%_ 46\n",
    "context $ls[\"b\"] @4\ncontext \"a\" *#1=1\ncontext #1=1\"c\" @5#1=0\n",
    "swapcc foo abc bca\nswapcd bar ab 4,5\ncontext [%bar]$l @6%bar\ncorrect $s[%foo] %foo\n",
    "correct \"ab\" \"ba\"\npass2 @1 @12\npass3 $l[@12] @4\npass4 @4~ @5-5\n",
    "undefined 26\nbase lowercase x a\ndisplay a 1\n",
    "attribute vow a1\nattribute con bc\nbefore vow always b 4\nafter con word a 5\nafter vow always c 6\n",
    "prepunc , 5-2\npostpunc - 6-36\nbegword ab 3\nmidword b 35\nendword ab 345\n",
    "letter d 1\nletter e 12\nsign % 14\nalways aa 12-1\nalways bc 1-1\nhyphen + 36\ndecpoint . 2\n",
];

fn s(class: &str, a: usize, b: usize) -> Span {
    Span { class: class.into(), start: a, end: b }
}

type Call = (String, Vec<Span>);

fn calls(fwd: bool) -> Vec<Call> {
    if !fwd {
        return ["", "⠁⠃⠉", "⠠⠁⠃ ⠠⠠⠃⠁⠠⠄", "⠼⠁⠰⠁⠂", "⠸⠁⠀⠤⠃", "⠈⠘⠁⠁", "xA⠆⠒", "⠃⠁⠃⠁⠉⠀⠉"].iter().map(|i| (i.to_string(), vec![])).collect();
    }
    vec![
        ("".into(), vec![]),
        ("ab ac".into(), vec![]),
        ("A AB aB B-A".into(), vec![]),
        ("1,1a b11c".into(), vec![]),
        ("ab ac".into(), vec![s("em", 0, 4), s("bo", 1, 3), s("tr", 0, 5)]),
        ("ab ac".into(), vec![s("tr", 1, 2), s("bo", 0, 5), s("em", 2, 5)]),
        ("$c ab,x -b".into(), vec![]),
        ("cabbac,ab abc aba".into(), vec![s("computer_braille", 2, 4)]),
    ]
}

fn tables(thorough: bool) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for (i, a) in FEATURES.iter().enumerate() {
        v.push(format!("{B0}{a}"));
        for b in &FEATURES[i + 1..] {
            v.push(format!("{B0}{a}{b}"));
        }
    }
    if thorough {
        for (i, a) in FEATURES.iter().enumerate() {
            for (j, b) in FEATURES.iter().enumerate().skip(i + 1) {
                for c in &FEATURES[j + 1..] {
                    v.push(format!("{B0}{a}{b}{c}"));
                }
            }
        }
    }
    v.push(format!("{B0}{}", FEATURES.concat()));
    v
}

/// `None`: the table is rejected, which is the same for every history
fn make(t: &str, fwd: bool) -> Option<Translator> {
    guarded(|| build(t, fwd).ok()).ok().flatten()
}

fn call(t: &Option<Translator>, c: &Call) -> String {
    match t {
        None => "rejected".into(),
        Some(t) => guarded(|| translate(t, &c.0, &c.1)).unwrap_or_else(|p| format!("panic {p}")),
    }
}

/// the same call by the other entry point
fn call2(t: &Option<Translator>, c: &Call) -> String {
    if let (true, Some(t)) = (c.1.is_empty(), t) {
        let go = || t.translate_with_options(&c.0, TranslationOptions::default()).map(|r| r.output).unwrap_or_else(|e| format!("error {e:?}"));
        guarded(go).unwrap_or_else(|p| format!("panic {p}"))
    } else {
        call(t, c)
    }
}

/// run jobs 0..n on all workers; the first few violations stop it
fn pool(r: &mut Run, n: usize, job: impl Fn(usize) -> Result<u64, String> + Sync) -> u64 {
    let next = AtomicUsize::new(0);
    let bad = Mutex::new(vec![]);
    let done = Mutex::new(0u64);
    std::thread::scope(|sc| {
        for w in 0..engine::THREADS {
            let (next, bad, done, job) = (&next, &bad, &done, &job);
            sc.spawn(move || {
                engine::WORKER.set(w);
                loop {
                    let j = next.fetch_add(1, Relaxed);
                    if j >= n {
                        break;
                    }
                    engine::BEAT[w].store(engine::now_ms(), Relaxed);
                    match guarded(|| job(j)).unwrap_or_else(|p| Err(format!("job {j} panicked: {p}\n"))) {
                        Ok(k) => *done.lock().unwrap() += k,
                        Err(e) => {
                            bad.lock().unwrap().push(e);
                            next.store(n, Relaxed);
                        }
                    }
                }
                engine::BEAT[w].store(0, Relaxed);
            });
        }
    });
    for e in bad.into_inner().unwrap() {
        r.violate("history", e);
    }
    done.into_inner().unwrap()
}

fn fresh(table: &str, fwd: bool, cs: &[Call]) -> Vec<String> {
    cs.iter().map(|c| call(&make(table, fwd), c)).collect()
}

struct Shared(Option<Translator>);
// Used by one thread at a time: the point is to find out whether that matters.
unsafe impl Sync for Shared {}
unsafe impl Send for Shared {}

fn show(c: &Call) -> String {
    format!("{:?} {:?}", c.0, c.1.iter().map(|s| format!("{}:{}..{}", s.class, s.start, s.end)).collect::<Vec<_>>())
}

pub fn p03(r: &mut Run) {
    let ts = tables(false);
    // the seeds really are under control
    let orders: Vec<Vec<char>> = (0..400).map(|k| seeded(k, || HashSet::from(['a', 'b', 'c', 'd']).into_iter().collect())).collect();
    let again: Vec<Vec<char>> = (0..400).map(|k| seeded(k, || HashSet::from(['a', 'b', 'c', 'd']).into_iter().collect())).collect();
    if orders != again {
        return r.violate("setup", "hash seeds are not under the checker's control\n".into());
    }
    // as many seeds as it takes to see every order of a set of four
    let mut seen = HashSet::new();
    let mut need = 0;
    for (k, o) in orders.iter().enumerate() {
        if seen.insert(o.clone()) {
            need = k + 1;
        }
    }
    r.add("orders_of_a_set_of_four", seen.len() as u64);
    let nseeds = if r.thorough { need.max(256) } else { need.min(48) };
    r.add("hash_seeds", nseeds as u64);

    // 1. seeds: every table, direction and call under every seed
    let all = tables(r.thorough);
    let n = all.len() * 2;
    let k = pool(r, n, |j| {
        let (t, fwd) = (&all[j / 2], j % 2 == 0);
        let cs = calls(fwd);
        let expect = seeded(0, || fresh(t, fwd, &cs));
        for seed in 1..nseeds as u64 {
            let got = seeded(seed, || {
                let tr = make(t, fwd);
                cs.iter().map(|c| call(&tr, c)).collect::<Vec<_>>()
            });
            for (i, c) in cs.iter().enumerate() {
                if got[i] != expect[i] {
                    return Err(format!("under hash seed {seed}: {} gives [{}], under seed 0 [{}], table\n{t}", show(c), got[i], expect[i]));
                }
            }
        }
        Ok((nseeds * cs.len()) as u64)
    });
    r.add("translations_under_seeds", k);
    r.totals.traces += k;
    if !r.violations.is_empty() {
        return;
    }

    // 2. histories: every sequence of calls on one translator
    let len = r.b(3usize, 4);
    let k = pool(r, ts.len() * 2, |j| {
        let (t, fwd) = (&ts[j / 2], j % 2 == 0);
        let cs = calls(fwd);
        let expect = fresh(t, fwd, &cs);
        let m = cs.len();
        let mut n = 0;
        for code in 0..m.pow(len as u32) {
            let tr = make(t, fwd);
            let mut c = code;
            for step in 0..len {
                let i = c % m;
                c /= m;
                let got = if (code + step) % 2 == 0 { call(&tr, &cs[i]) } else { call2(&tr, &cs[i]) };
                n += 1;
                if got != expect[i] {
                    return Err(format!("history {code} step {step}: {} gives [{got}], on a new translator [{}], table\n{t}", show(&cs[i]), expect[i]));
                }
            }
        }
        Ok(n)
    });
    r.add("histories", (ts.len() * 2 * calls(true).len().pow(len as u32)) as u64);
    r.totals.traces += k;
    if !r.violations.is_empty() {
        return;
    }

    // 3. two translators, built and used in every interleaving of operations
    // operations: build either, call either with one of three texts
    let pairs: Vec<(usize, bool, usize, bool)> = {
        let singles: Vec<usize> = (0..ts.len()).filter(|i| FEATURES.iter().any(|f| ts[*i] == format!("{B0}{f}"))).collect();
        let mut v = vec![];
        for (a, i) in singles.iter().enumerate() {
            v.push((*i, true, *i, false));
            for k in &singles[a + 1..] {
                v.push((*i, true, *k, true));
                v.push((*i, false, *k, false));
            }
        }
        v
    };
    let len = r.b(3u32, 5);
    let k = pool(r, pairs.len(), |j| {
        let (a, fa, b, fb) = pairs[j];
        let side = [(ts[a].as_str(), fa), (ts[b].as_str(), fb)];
        let cs = [calls(fa), calls(fb)];
        let pick = [[1usize, 3, 4], [1, 2, 5]];
        let expect = [fresh(side[0].0, fa, &cs[0]), fresh(side[1].0, fb, &cs[1])];
        let mut n = 0;
        for code in 0..8usize.pow(len) {
            let mut tr: [Option<Option<Translator>>; 2] = [None, None];
            let mut c = code;
            for _ in 0..len {
                let op = c % 8;
                c /= 8;
                let w = op / 4;
                if op % 4 == 3 || tr[w].is_none() {
                    tr[w] = Some(make(side[w].0, side[w].1));
                }
                if op % 4 != 3 {
                    let i = pick[w][op % 4];
                    let got = call(tr[w].as_ref().unwrap(), &cs[w][i]);
                    n += 1;
                    if got != expect[w][i] {
                        return Err(format!("two translators, history {code}: {} gives [{got}], alone [{}], tables\n{}\nand\n{}", show(&cs[w][i]), expect[w][i], side[w].0, side[1 - w].0));
                    }
                }
            }
        }
        Ok(n)
    });
    r.add("interleavings_of_two_translators", pairs.len() as u64 * 8u64.pow(len));
    r.totals.traces += k;
    if !r.violations.is_empty() {
        return;
    }

    // 4. two threads sharing a translator, every schedule of two calls each
    let schedules: Vec<[usize; 4]> = vec![[0, 0, 1, 1], [0, 1, 0, 1], [0, 1, 1, 0], [1, 0, 0, 1], [1, 0, 1, 0], [1, 1, 0, 0]];
    let picks: Vec<usize> = r.b(vec![1, 2, 4], vec![1, 2, 3, 4, 5]);
    let schedules_per_table = (schedules.len() * picks.len().pow(4)) as u64;
    let k = pool(r, ts.len() * 2, |j| {
        let (t, fwd) = (&ts[j / 2], j % 2 == 0);
        let cs = calls(fwd);
        let expect = fresh(t, fwd, &cs);
        let m = picks.len();
        let mut n = 0;
        std::thread::scope(|sc| {
            let (rtx, rrx) = mpsc::channel::<Result<String, String>>();
            let mut tx = vec![];
            for _ in 0..2 {
                let (qtx, qrx) = mpsc::channel::<(std::sync::Arc<Shared>, usize)>();
                let (rtx, cs) = (rtx.clone(), &cs);
                sc.spawn(move || {
                    while let Ok((t, i)) = qrx.recv() {
                        let out = guarded(|| call(&t.0, &cs[i]));
                        drop(t);
                        if rtx.send(out).is_err() {
                            break;
                        }
                    }
                });
                tx.push(qtx);
            }
            for sched in &schedules {
                for code in 0..m.pow(4) {
                    let tr = std::sync::Arc::new(Shared(make(t, fwd)));
                    let mut c = code;
                    for w in sched {
                        let i = picks[c % m];
                        c /= m;
                        tx[*w].send((tr.clone(), i)).unwrap();
                        let got = rrx.recv().unwrap().unwrap_or_else(|p| format!("panic: {p}"));
                        n += 1;
                        if got != expect[i] {
                            return Err(format!("two threads, schedule {sched:?}: {} gives [{got}], alone [{}], table\n{t}", show(&cs[i]), expect[i]));
                        }
                    }
                }
            }
            Ok(n)
        })
    });
    r.add("thread_schedules", ts.len() as u64 * 2 * schedules_per_table);
    r.totals.traces += k;
    if !r.violations.is_empty() {
        return;
    }

    // 5. tables that have much in common, one after another, on one thread: what each does is what the
    // model says, whatever was loaded before it
    let groups = alike(r.thorough);
    let jobs: Vec<(usize, usize)> = groups.iter().enumerate().flat_map(|(g, ts)| (0..ts.len()).map(move |i| (g, i))).collect();
    let k = pool(r, jobs.len(), |j| {
        let (g, first) = jobs[j];
        let ts = &groups[g];
        let load = |t: &str, fwd: bool| (Model::from_source(t, fwd).ok(), make(t, fwd));
        let check = |m: &Option<Model>, t: &Option<Translator>, fwd: bool, what: &str, tables: &[&str]| -> Result<u64, String> {
            let cs = calls(fwd);
            for c in &cs {
                let expect = m.as_ref().map_or("rejected".to_string(), |m| m.run(&c.0, &c.1).output);
                let got = call(t, c);
                if got != expect {
                    return Err(format!("{what}: {} gives [{got}], by itself [{expect}], tables\n{}", show(c), tables.join("\nand\n")));
                }
            }
            Ok(cs.len() as u64)
        };
        let mut n = 0;
        for second in 0..ts.len() {
            for d in 0..4 {
                let (fa, fb) = (d % 2 == 0, d / 2 == 0);
                let (a, b) = (&ts[first], &ts[second]);
                if b.starts_with("===") && a == b && fa == fb {
                    continue;
                }
                let run = || {
                    let (ma, ta) = load(a, fa);
                    let mut n = check(&ma, &ta, fa, "the first of two tables", &[a, b])?;
                    let (mb, tb) = load(b, fb);
                    n += check(&mb, &tb, fb, "the second of two tables", &[a, b])?;
                    n += check(&ma, &ta, fa, "the first of two tables, after the second", &[a, b])?;
                    Ok::<u64, String>(n)
                };
                // on a thread of its own, and on one that has loaded all the others
                let me = engine::WORKER.get();
                n += seeded(1, || {
                    engine::WORKER.set(me);
                    run()
                })?;
                n += run()?;
            }
        }
        Ok(n)
    });
    r.add("pairs_of_tables", groups.iter().map(|g| g.len() * g.len() * 4).sum::<usize>() as u64);
    r.totals.traces += k;
    r.totals.states += r.totals.traces;
    r.totals.transitions += r.totals.traces;
    r.totals.nontrivial += r.totals.traces;
    r.totals.tables += all.len() as u64;
    r.assumptions.push("threads are scheduled call by call: a translation has no scheduling point inside it".into());
}

/// groups of tables with the same rules under different definitions, or the same names for different files
fn alike(thorough: bool) -> Vec<Vec<String>> {
    const BASES: &[&str] = &[
        B0,
        // other classes
        "space \\s 0\npunctuation , 2\nsign - 36\nlowercase a 1\nsign b 12\nletter c 14\nbase uppercase A a\nletter B 12\ndigit 1 2\nletter $ 46-1\nseqdelimiter -\n",
        // other dots
        "space \\s 0\npunctuation , 3\npunctuation - 35\nlowercase a 12\nlowercase b 1\nletter c 145\nbase uppercase A a\nuppercase B 1278\nbase uppercase B b\ndigit 1 3\nsign $ 45-1\n",
        // in another order, and with less
        "digit 1 2\nsign $ 46-1\nletter c 14\nuppercase A 17\nlowercase b 12\nlowercase a 1\nspace \\s 0\n",
    ];
    let mut groups: Vec<Vec<String>> = FEATURES.iter().map(|f| BASES.iter().map(|b| format!("{b}{f}")).collect()).collect();
    let all = FEATURES.concat();
    groups.push(BASES.iter().map(|b| format!("{b}{all}")).collect());
    // the same operands for another rule, another result for the same operands
    for ops in [
        &["always ab", "word ab", "begword ab", "midword ab", "endword ab", "nocross always ab", "prfword ab", "sufword ab", "begnum ab", "largesign ab", "nofor always ab", "noback always ab", "after letter always ab", "before letter always ab"][..],
        &["match a b -", "match - b a", "match %a b -", "match %[.a] b -", "match - a b", "match ^ ab -", "match a+ b c"],
        &["context \"a\"", "context [\"a\"]\"b\"", "context \"b\"[\"a\"]", "context $l[]", "context `[\"a\"]", "noback context \"a\"", "context !\"a\""],
        &["pass2 @1", "pass3 @1", "pass4 @1", "pass2 @1[@12]", "pass3 @1[@12]", "pass2 $l[]", "nofor pass2 @1"],
        &["numsign", "capsletter", "begcapsword", "letsign", "begcomp", "undefined", "nocontractsign", "begcaps"],
    ] {
        let dots: &[&str] = if thorough { &["3", "4-5", "46", "1"] } else { &["3", "46"] };
        let ctx = ops[0].starts_with("context") || ops[0].starts_with("pass");
        groups.push(ops.iter().flat_map(|o| dots.iter().map(move |d| format!("{B0}contraction ab\n{o} {}{d}\n", if ctx { "@" } else { "" }))).collect());
    }
    groups.push(["a", "b", "A", ",", "", "abc", "ab1"].iter().flat_map(|x| ["numericmodechars", "capsmodechars", "noletsign", "numericnocontchars", "compbrl", "contraction", "attribute k"].iter().map(move |o| format!("{B0}numsign 3456\nnonumsign 56\nletsign 6\ncapsletter 6\nbegcapsword 6-6\nbegcomp 456\ncontraction ab\n{}", if x.is_empty() { String::new() } else { format!("{o} {x}\n") }))).collect());
    // files
    let top = format!("{B0}nocross always ab 3\ninclude @/u\ninclude @/h.dic\n");
    let us = ["=== A:u\nalways ba 3\n", "=== A:u\nalways ba 4\n", "=== A:u\n", "", "=== B:u\nalways ba 5\n", "=== A:u link A:v\n=== A:v\nalways ba 6\n", "=== A:u\ninclude @/v\n=== A:v\nalways b 6\n", "=== A:u\nbad\n"];
    let hs = ["=== A:h.dic\nUTF-8\na1b\n", "=== A:h.dic\nUTF-8\nb1a\nLEFTHYPHENMIN 1\n", "=== A:h.dic\nUTF-8\n", "=== B:h.dic\nUTF-8\n1b\nRIGHTHYPHENMIN 1\n"];
    let top = &top;
    groups.push(us.iter().flat_map(|u| hs.iter().map(move |h| format!("=== load @/t\n=== A:t\n{top}{u}{h}"))).collect());
    groups.push(
        [("@/t", "always ab 3"), ("@/t", "always ab 4"), ("@/u", "always ab 3"), ("@/t @/u", "always ab 3"), ("@/u @/t", "always ab 3"), ("@/t @/u @/h.dic", "always ab 5"), ("@/t @/h.dic", "nocross always ab 6")]
            .iter()
            .map(|(l, x)| format!("=== load {l}\n=== A:t\n{B0}{x}\n=== A:u\nletter a 1\nletter b 12\n=== A:h.dic\nUTF-8\na1b\n"))
            .collect(),
    );
    groups
}
