//! Table files in two search directories: how include lines are expanded.
//!
//! A world is written as one text, in sections:
//!   === load NAME...        the tables to load
//!   === A:PATH              a file in the first search directory, its text in the lines that follow
//!   === A:PATH nonl         the same without the last line break
//!   === A:PATH dir | binary | link A:PATH
//! "@/" at the start of a name stands for the directory of the worker that lays it out,
//! "%ROOT%" for the directory that holds the search directories.
use super::constr::Hyph;
use super::parse::{self, Rule};
use super::{Model, Reject};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    Text(String),
    Dir,
    Binary,
    Link(String),
}

#[derive(Debug, Default)]
pub struct World {
    pub load: Vec<String>,
    /// "A/@/x" -> node
    pub nodes: BTreeMap<String, Node>,
}

pub fn is_world(text: &str) -> bool {
    text.starts_with("=== ")
}

pub fn key(at: &str) -> String {
    let (d, p) = at.split_once(':').unwrap();
    format!("{d}/@/{p}")
}

impl World {
    pub fn parse(text: &str) -> World {
        let mut w = World::default();
        for sec in format!("\n{text}").split("\n=== ").skip(1) {
            let (head, body) = sec.split_once('\n').unwrap_or((sec, ""));
            let mut f = head.split(' ');
            let name = f.next().unwrap();
            if name == "load" {
                w.load = f.filter(|n| !n.is_empty()).map(String::from).collect();
                continue;
            }
            let mut body = body.to_string();
            let node = match f.next() {
                Some("dir") => Node::Dir,
                Some("binary") => Node::Binary,
                Some("link") => Node::Link(f.next().unwrap().to_string()),
                Some("nonl") => Node::Text(body),
                _ => {
                    if !body.is_empty() && !body.ends_with('\n') {
                        body.push('\n');
                    }
                    Node::Text(body)
                }
            };
            w.nodes.insert(key(name), node);
        }
        w
    }

    fn is_dir(&self, p: &str) -> bool {
        matches!(p, "" | "A" | "B" | "C" | "A/@" | "B/@" | "C/@")
            || self.nodes.get(p) == Some(&Node::Dir)
            || self.nodes.keys().any(|k| k.starts_with(&format!("{p}/")))
    }

    /// the path of the regular file that `path` (relative to the root) leads to
    fn resolve(&self, path: &str) -> Option<String> {
        if path.ends_with('/') {
            return None; // names a directory
        }
        let mut cur: Vec<&str> = vec![];
        let parts: Vec<&str> = path.split('/').filter(|p| !p.is_empty() && *p != ".").collect();
        for (i, p) in parts.iter().enumerate() {
            if *p == ".." {
                cur.pop()?;
            } else {
                cur.push(p);
            }
            if i + 1 < parts.len() && !self.is_dir(&cur.join("/")) {
                return None;
            }
        }
        let mut at = cur.join("/");
        for _ in 0..20 {
            match self.nodes.get(&at)? {
                Node::Link(t) => at = key(t),
                Node::Dir => return None,
                _ => return Some(at),
            }
        }
        None
    }

    /// the first search directory that has a file of that name: (path as found, what it is)
    fn find(&self, name: &str) -> Option<(String, String)> {
        if let Some(abs) = name.strip_prefix("%ROOT%/") {
            return self.resolve(abs).map(|c| (format!("$/{abs}"), c));
        }
        ["A", "B"].iter().find_map(|d| {
            let p = format!("{d}/{name}");
            self.resolve(&p).map(|c| (format!("$/{p}"), c))
        })
    }

    /// the rules of a table with its includes in place; dictionaries are left as include rules
    fn expand(&self, name: &str, chain: &[String]) -> Result<Vec<(Rule, String)>, Vec<String>> {
        let Some((path, file)) = self.find(name) else {
            return Err(vec![format!("notfound {}", name.replace("%ROOT%", "$"))]);
        };
        if chain.len() >= 64 {
            return Err(vec!["toodeep".into()]);
        }
        if chain.contains(&file) {
            let all: Vec<String> = chain.iter().chain([&file]).map(|c| format!("$/{c}")).collect();
            return Err(vec![format!("circular {}", all.join(" "))]);
        }
        let Node::Text(text) = &self.nodes[&file] else { return Err(vec!["unreadable".into()]) };
        let rules = parse::parse_table(text).map_err(|ls| ls.iter().map(|l| format!("parse {path}:{l}")).collect::<Vec<_>>())?;
        let mut chain = chain.to_vec();
        chain.push(file.clone());
        let (mut out, mut errs) = (vec![], vec![]);
        for r in rules {
            if r.op != "include" {
                out.push((r, path.clone()));
                continue;
            }
            let f = r.s(0).to_string();
            if f.rsplit('/').next().unwrap().strip_suffix(".dic").is_some_and(|s| !s.is_empty()) {
                match self.find(&f) {
                    Some((p, _)) => out.push((r, p)),
                    None => errs.push(format!("nodic {}", f.replace("%ROOT%", "$"))),
                }
                continue;
            }
            match self.expand(&f, &chain) {
                Ok(v) => out.extend(v),
                Err(e) => errs.extend(e),
            }
        }
        if errs.is_empty() { Ok(out) } else { Err(errs) }
    }

    /// the rules of all tables to load
    pub fn rules(&self) -> Result<Vec<Rule>, Vec<String>> {
        let mut v = vec![];
        for l in &self.load {
            v.extend(self.expand(l, &[])?.into_iter().map(|r| r.0));
        }
        Ok(v)
    }

    /// the same with the file each rule stands in; a dictionary stands for itself
    pub fn origins(&self) -> Result<Vec<(String, String, usize)>, Vec<String>> {
        let mut v = vec![];
        for l in &self.load {
            v.extend(self.expand(l, &[])?.into_iter().map(|(r, p)| (r.op.to_string(), if r.op == "include" { String::new() } else { p }, r.line)));
        }
        Ok(v)
    }

    pub fn model(&self, fwd: bool) -> Result<Model, Reject> {
        let mut rules = vec![];
        for l in &self.load {
            rules.extend(self.expand(l, &[]).map_err(Reject::Errors)?);
        }
        let mut hyph = None;
        for (r, p) in &rules {
            if r.op == "include" {
                let file = self.resolve(p.strip_prefix("$/").unwrap()).unwrap();
                let Node::Text(t) = &self.nodes[&file] else { return Err(Reject::Compile) };
                hyph = Some(Hyph::parse(t).map_err(|_| Reject::Compile)?);
            }
        }
        let mut n = 0;
        let rules: Vec<Rule> = rules
            .into_iter()
            .filter(|r| r.0.op != "include")
            .map(|(mut r, _)| {
                n += 1;
                r.line = n; // the rules of several files in one numbering
                r
            })
            .collect();
        Model::compile(&rules, fwd, hyph)
    }
}
