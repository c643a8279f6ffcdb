//! The set of literal rules: each is a key path (look-behinds, characters, look-aheads).
use super::ctx::Classes;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Key {
    Ch(char),
    Start(Vec<char>, bool),
    End(Vec<char>, bool),
}

#[derive(Clone, Debug)]
pub struct Entry {
    pub input: Vec<char>,
    pub output: String,
    pub weight: usize,
    pub prec: u8,
    pub line: usize,
    pub op: &'static str,
    /// how many rules were inserted before it
    order: usize,
}

#[derive(Default, Debug)]
pub struct Trie(BTreeMap<Vec<Key>, Entry>, usize);

pub fn fold(c: char) -> Option<char> {
    let mut l = c.to_lowercase();
    match (l.next(), l.next()) {
        (Some(x), None) => Some(x),
        _ => None,
    }
}

fn set(cl: &Classes, names: &[&str]) -> (Vec<char>, bool) {
    let s: BTreeSet<char> = names.iter().flat_map(|n| cl.get(*n).cloned().unwrap_or_default()).collect();
    (s.into_iter().collect(), names.contains(&"space"))
}

pub struct Spec<'a> {
    pub start: Option<&'a [&'a str]>,
    pub end: Option<&'a [&'a str]>,
    pub after: Vec<String>,
    pub before: Vec<String>,
}

impl Trie {
    #[allow(clippy::too_many_arguments)]
    pub fn insert(
        &mut self,
        from: &str,
        to: &str,
        sp: &Spec,
        cl: &Classes,
        prec: u8,
        line: usize,
        op: &'static str,
    ) {
        let mut path = vec![];
        for a in &sp.after {
            let (c, s) = set(cl, &[a]);
            path.push(Key::Start(c, s));
        }
        if let Some(b) = sp.start {
            let (c, s) = set(cl, b);
            path.push(Key::Start(c, s));
        }
        path.extend(from.chars().map(Key::Ch));
        if let Some(b) = sp.end {
            let (c, s) = set(cl, b);
            path.push(Key::End(c, s));
        }
        for a in &sp.before {
            let (c, s) = set(cl, &[a]);
            path.push(Key::End(c, s));
        }
        let e = Entry {
            input: from.chars().collect(),
            output: to.to_string(),
            weight: path.len(),
            prec,
            line,
            op,
            order: self.1,
        };
        self.1 += 1;
        match self.0.get(&path) {
            Some(old) if old.prec >= prec => {}
            _ => {
                self.0.insert(path, e);
            }
        }
    }

    /// all rules applicable at the front of `s`, the first inserted one last
    pub fn find(&self, s: &[char], prev: Option<char>) -> impl Iterator<Item = &Entry> {
        let mut v: Vec<&Entry> = self.0.iter().filter(|(path, _)| applies(path, s, prev)).map(|e| e.1).collect();
        v.sort_by_key(|e| std::cmp::Reverse(e.order));
        v.into_iter()
    }
}

fn applies(path: &[Key], s: &[char], prev: Option<char>) -> bool {
    let mut at = 0;
    for k in path {
        match k {
            Key::Ch(c) => {
                let Some(&a) = s.get(at) else { return false };
                if fold(a) != Some(*c) {
                    return false;
                }
                at += 1;
            }
            Key::Start(set, sp) => {
                if !prev.map_or(*sp, |c| set.contains(&c)) {
                    return false;
                }
            }
            Key::End(set, sp) => {
                if !s.get(at).map_or(*sp, |c| set.contains(c)) {
                    return false;
                }
            }
        }
    }
    true
}
