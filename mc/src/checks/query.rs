//! Metadata queries (P26).
use super::cli::{Part, run as louis_run};
use super::*;
use crate::model::world::{Node, World};
use crate::shared;
use std::collections::BTreeSet;

/// the pairs that the metadata lines of a text give
fn pairs(text: &str) -> BTreeSet<(String, String)> {
    let mut out = BTreeSet::new();
    for l in text.lines() {
        let Some((k, v)) = l.strip_prefix("#+").and_then(|r| r.split_once(':')) else { continue };
        let (k, v) = (k.trim(), v.trim());
        let key = |c: char| c.is_ascii_alphanumeric() || c == '-' || c == '.' || c == '_';
        if !k.is_empty() && !v.is_empty() && k.chars().all(key) && v.chars().all(|c| ('!'..='~').contains(&c)) {
            out.insert((k.to_string(), v.to_string()));
        }
    }
    out
}

/// the text behind a path of the world, if it is a readable file
fn text<'a>(w: &'a World, at: &str) -> Option<&'a str> {
    let mut at = at.to_string();
    for _ in 0..10 {
        match w.nodes.get(&at)? {
            Node::Text(t) => return Some(t),
            Node::Link(l) => at = crate::model::world::key(l),
            _ => return None,
        }
    }
    None
}

/// None: the query is malformed
fn answer(w: &World, dirs: &[&str], query: &str) -> Option<BTreeSet<String>> {
    let conds: Option<Vec<(String, String)>> = query.split(',').map(|c| c.split_once('=').map(|(k, v)| (k.to_string(), v.to_string()))).collect();
    let conds = conds?;
    let mut out = BTreeSet::new();
    for d in dirs {
        for k in w.nodes.keys() {
            let Some(name) = k.strip_prefix(&format!("{d}/@/")) else { continue };
            if name.contains('/') {
                continue;
            }
            if let Some(t) = text(w, k) {
                let p = pairs(t);
                if conds.iter().all(|c| p.contains(c)) {
                    out.insert(format!("$/{k}"));
                }
            }
        }
    }
    Some(out)
}

struct Job {
    world: usize,
    dirs: &'static [&'static str],
    query: String,
}

fn explore(r: &mut Run, name: &str, worlds: &[String], queries: &[String], paths: &[&'static [&'static str]]) {
    let parsed: Vec<World> = worlds.iter().map(|w| World::parse(w)).collect();
    let sets: Vec<Vec<Job>> = (0..worlds.len())
        .flat_map(|w| {
            // many queries of one world are shared out
            queries.chunks(64).map(move |q| q.iter().flat_map(|q| paths.iter().map(move |d| Job { world: w, dirs: d, query: q.clone() })).collect()).collect::<Vec<Vec<Job>>>()
        })
        .collect();
    r.each(name, &sets, |w, jobs| {
        let mut p = Part::default();
        let world = &parsed[jobs[0].world];
        shared::table(w, if worlds[jobs[0].world].len() < 60_000 { &worlds[jobs[0].world] } else { "" }, true);
        lay_out(world);
        let root = scratch();
        let me = format!("w{w}/");
        for j in jobs {
            BEAT[w].store(now_ms(), std::sync::atomic::Ordering::Relaxed);
            shared::input(w, &j.query, &[]);
            let path: Vec<String> = j.dirs.iter().map(|d| format!("{root}/{d}/w{w}")).collect();
            let o = louis_run(&["query", "--", &j.query], b"", &[("LOUIS_TABLE_PATH", &path.join(":"))]);
            let want = answer(world, j.dirs, &j.query);
            p.traces += 1;
            p.transitions += 1;
            p.states += 1;
            let out = o.out.replace(&root, "$").replace(&me, "@/");
            let got: Vec<&str> = out.split('"').skip(1).step_by(2).collect();
            let ok = match &want {
                None => o.out.is_empty() && !o.err.is_empty() && !o.err.contains("panicked"),
                Some(s) => {
                    p.nontrivial += !s.is_empty() as u64;
                    o.ok && o.err.is_empty() && out.ends_with("}\n") && got.len() == s.len() && s.iter().all(|x| got.contains(&x.as_str()))
                }
            };
            if !ok {
                let short: String = worlds[j.world].chars().take(3000).collect();
                p.bad.push(("cli".into(), format!("command louis query {:?}\nexpected {want:?}\ngot {out}{}\nsearch path {:?}\n{short}\n", j.query, o.err, j.dirs)));
                return p;
            }
            if p.sample.is_none() && got.len() == 2 {
                p.sample = Some(format!("query {:?} -> {got:?}", j.query));
            }
        }
        p
    });
}

pub fn p26(r: &mut Run) {
    let ls = [
        "#+a:1", "#+a:2", "#+b:1", "#+b:2", "#+ a : 1 ", "#+a:", "#+:1", "#+a", "#+a:1:2", "#+a:x y", "#+A:1", "#+a-b.c_d:1", "#+a:é", "#+é:1", "#+a b:1", "# +a:1", " #+a:1", "#-a:1", "##+a:1", "letter a 1", "#+a=b:1=2", "#+a:1=2", "#+a:1 # x", "#+a\t:\t1",
        "#+ab:1", "#+a:12", "#+a:1\r",
    ];
    let mut world = String::from("=== load\n");
    let mut n = 0;
    let mut add = |body: &str, dir: &str| {
        world += &format!("=== {dir}:f{n}\n{body}");
        n += 1;
    };
    add("", "A");
    for a in ls {
        add(&format!("{a}\n"), "A");
        for b in ls {
            add(&format!("{a}\n{b}\n"), "B");
            if r.thorough {
                for c in ls {
                    add(&format!("{a}\n{b}\n{c}\n"), "A");
                }
            }
        }
    }
    let conds = ["a=1", "a=2", "b=1", "b=2", "a=", "=1", "a", "a=1:2", "a=x y", "A=1", "a-b.c_d=1", "a=é", "é=1", "a b=1", "", "a=b=1=2", "a=1=2", "ab=1", "a=12", "c=1", "a =1", "a= 1", "+a=1", "a=1\r"];
    let mut queries: Vec<String> = vec![];
    for n in 1..=r.b(2, 3) {
        let mut layer = vec![String::new()];
        for i in 0..n {
            layer = layer.iter().flat_map(|l| conds.iter().map(move |c| if i == 0 { c.to_string() } else { format!("{l},{c}") })).collect();
        }
        queries.extend(layer);
    }
    if !r.thorough {
        let few = ["a=1", "a=2", "b=1", "b=2", "ab=1", "c=1", "a=1:2"];
        for a in few {
            for b in few {
                queries.extend(few.iter().map(|c| format!("{a},{b},{c}")));
            }
        }
    }
    explore(r, "lines and conditions", &[world], &queries, r.b(&[&["A", "B"]], &[&["A", "B"], &["B"]]));

    // kinds and places of files
    let kinds = ["", "dir", "binary", "link A:y", "link B:y", "link A:none", "text"];
    let mut worlds = vec![];
    let body = ["#+a:1\n", "#+a:1\n#+b:2\n", "#+a:2\n#+b:2\n", "#+b:2\n#+c:3\n"];
    for xa in kinds {
        for xb in kinds {
            for ya in kinds {
                for (n, extra) in ["", "=== A:d/z\n#+a:1\n", "=== B:z nonl\n#+a:1\n#+b:2", "=== A:é z\n#+b:2\n"].iter().enumerate() {
                    let sec = |d: &str, f: &str, k: &str, i: usize| match k {
                        "" => String::new(),
                        "text" => format!("=== {d}:{f}\n{}", body[(i + n) % 4]),
                        k => format!("=== {d}:{f} {k}\n"),
                    };
                    let extra = extra.replace("é z", "é");
                    worlds.push(format!("=== load\n{}{}{}{extra}", sec("A", "x", xa, 0), sec("B", "x", xb, 1), sec("A", "y", ya, 2)));
                }
            }
        }
    }
    let q = lines(r.b(&["a=1", "b=2", "a=1,b=2"], &["a=1", "b=2", "a=1,b=2", "a=2", "c=3,b=2", "b=2,b=2"]));
    explore(r, "kinds and places", &worlds, &q, r.b(&[&["A", "B"], &["B"]], &[&["A", "B"], &["B"], &["A"], &["B", "A"], &["A", "A"]]));

    // the line of a file that matters, and how many there are
    let mut ns: Vec<usize> = (0..=r.b(40, 130)).collect();
    ns.extend([49, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 999, 1000, 1023, 1024, 4096, 10_000]);
    ns.sort_unstable();
    ns.dedup();
    let mut worlds = vec![];
    for n in ns {
        let mut w = String::from("=== load\n");
        for (i, filler) in ["# comment\n", "\n", "#+b:2\n", "letter a 1\n", "# comment\nalways ab 3\n"].iter().enumerate() {
            w += &format!("=== A:f{i}\n{}#+a:1\n", filler.repeat(n));
        }
        w += &format!("=== B:g\n# {}\n#+a:1\n=== B:h\n#+a:1 {}\n", "x".repeat(n), "x".repeat(n));
        worlds.push(w);
    }
    let q = lines(&["a=1", "a=1,b=2", "b=2"]);
    explore(r, "where the lines are", &worlds, &q, &[&["A", "B"]]);
    // how many files and how many conditions
    let mut worlds = vec![];
    for n in [0usize, 1, 2, 3, 10, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, r.b(300, 1025)] {
        let mut w = String::from("=== load\n");
        for i in 0..n {
            w += &format!("=== {}:f{i}\n#+a:1\n#+n:{}\n", if i % 3 == 2 { "B" } else { "A" }, i % 7);
        }
        worlds.push(w);
    }
    explore(r, "how many files", &worlds, &lines(&["a=1", "n=3", "a=1,n=6", "n=7"]), &[&["A", "B"]]);
    let body: String = (0..300).map(|i| format!("#+k{i}:{i}\n")).collect();
    let world = format!("=== load\n=== A:t\n{body}=== A:u\n{}", body.replace("#+k299:299\n", ""));
    let mut q = vec![];
    for n in 1..=300usize {
        q.push((0..n).map(|i| format!("k{i}={i}")).collect::<Vec<_>>().join(","));
        q.push((0..n).map(|i| format!("k{i}={}", if i + 1 == n { n } else { i })).collect::<Vec<_>>().join(","));
    }
    explore(r, "how many conditions", &[world], &q, &[&["A", "B"]]);
    // what files and their directories are called
    let mut w = String::from("=== load\n");
    let long = "n".repeat(240);
    for (i, name) in [
        ".t", "..t", "...", "t~", "#t#", ".#t", "t.bak", "T", "t.", "t.ctb", "t.utb", "t.tbl", "t.dis", "t.dic", "t.cti", "t.uti", "t.yaml", "t.txt", "t.rs", "t.swp", "t.tmp", "t.orig", "t.ctb.gz", "-t", "_t", "README", "Makefile", "CMakeLists.txt",
        "é", "ß.ctb", "点字", "😀", "t:t", "t;t", "t,t", "t=t", "t*", "t?", "[t]", "{t}", "$t", "%t", "!t", "@t", "&t", "t+t", "(t)", "1", "0", "t1", "t'", "d.ctb/t", "d/.t", ".d/t", &long,
    ]
    .iter()
    .enumerate()
    {
        w += &format!("=== {}:{name}\n#+a:1\n#+b:{}\n", if i % 4 == 3 { "B" } else { "A" }, i % 2);
    }
    explore(r, "what files are called", &[w], &lines(&["a=1", "b=0", "b=1,a=1", "b=2"]), &[&["A", "B"], &["B", "A"], &["A", "A", "B"], &["A", "C", "B"]]);
    // how many directories are searched
    let dirs: Vec<String> = (0..64).map(|i| format!("D{i}")).collect();
    let mut w = String::from("=== load\n");
    for (i, d) in dirs.iter().enumerate() {
        w += &format!("=== {d}:t\n#+a:1\n#+b:{}\n=== {d}:u{i}\n#+a:{}\n", i % 3, i % 2);
    }
    let names: Vec<&'static str> = dirs.iter().map(|d| &*Box::leak(d.clone().into_boxed_str())).collect();
    let paths: Vec<&'static [&'static str]> = (1..=64).map(|n| &*Box::leak(names[..n].to_vec().into_boxed_slice())).collect();
    explore(r, "how many directories", &[w], &lines(&["a=1", "b=2", "a=1,b=0", "b=3"]), &paths);
}
