//! Braille indicators: which indicator goes before which input position (n = after the end).
use super::ctx::{Ctx, has};
use super::parse::Rule;
use super::trie::fold;
use std::collections::{BTreeSet, HashSet};

#[derive(Clone, Debug, PartialEq)]
pub struct Span {
    pub class: String,
    pub start: usize,
    pub end: usize,
}

/// (position, cells, line of the rule)
pub type Ind = (usize, String, usize);
type Sign = Option<(String, usize)>;

fn sign(rules: &[&Rule], op: &str) -> Sign {
    rules.iter().rev().find(|r| r.op == op).map(|r| (r.x(r.a.len() - 1).to_string(), r.line))
}
fn at(p: usize, s: &(String, usize)) -> Ind {
    (p, s.0.clone(), s.1)
}
fn last_set(rules: &[&Rule], op: &str) -> HashSet<char> {
    rules.iter().rev().find(|r| r.op == op).map(|r| r.s(0).chars().collect()).unwrap_or_default()
}
fn all_set(rules: &[&Rule], op: &str) -> HashSet<char> {
    rules.iter().filter(|r| r.op == op).flat_map(|r| r.s(0).chars()).collect()
}
/// maximal runs of positions satisfying `f` within [a, b)
fn runs(a: usize, b: usize, f: impl Fn(usize) -> bool) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut i = a;
    while i < b {
        if !f(i) {
            i += 1;
            continue;
        }
        let s = i;
        while i < b && f(i) {
            i += 1;
        }
        v.push((s, i));
    }
    v
}

// ------------------------------------------------------------------ numbers
#[derive(Default)]
pub struct Numeric {
    numsign: Sign,
    nonumsign: Sign,
    digits: BTreeSet<char>,
    nocont: HashSet<char>,
    mode: HashSet<char>,
    mid: HashSet<char>,
}

impl Numeric {
    pub fn new(rules: &[&Rule], x: &Ctx) -> Numeric {
        Numeric {
            numsign: sign(rules, "numsign"),
            nonumsign: sign(rules, "nonumsign"),
            digits: x.text.get("litdigit").cloned().unwrap_or_default(),
            nocont: last_set(rules, "numericnocontchars"),
            mode: last_set(rules, "numericmodechars"),
            mid: rules
                .iter()
                .filter(|r| r.op == "midnum" || r.op == "decpoint")
                .flat_map(|r| r.s(0).chars())
                .collect(),
        }
    }
    /// positions inside a numeric run
    pub fn inside(&self, s: &[char]) -> Vec<bool> {
        let mut v = vec![false; s.len()];
        let mut on = false;
        for i in 0..s.len() {
            let digit = self.digits.contains(&s[i]);
            let cont = if self.mode.is_empty() {
                self.mid.contains(&s[i]) && s.get(i + 1).is_some_and(|c| self.digits.contains(c))
            } else {
                self.mode.contains(&s[i])
            };
            on = digit || (on && cont);
            v[i] = on;
        }
        v
    }
    pub fn get(&self, s: &[char]) -> Vec<Ind> {
        let Some(ns) = &self.numsign else { return vec![] };
        if self.digits.is_empty() {
            return vec![];
        }
        let mut v = vec![];
        for (a, b) in { let ins = self.inside(s); runs(0, s.len(), move |i| ins[i]) } {
            v.push(at(a, ns));
            if let (Some(nn), Some(c)) = (&self.nonumsign, s.get(b)) {
                if self.nocont.contains(c) {
                    v.push(at(b, nn));
                }
            }
        }
        v
    }
}

// ------------------------------------------------------------------ letters and contractions
pub struct LetSign {
    sign: Sign,
    no: HashSet<char>,
    before: HashSet<char>,
    after: HashSet<char>,
    contractions: Vec<Vec<char>>,
}

fn boundary(x: &Ctx, c: Option<char>) -> bool {
    c.is_none_or(|c| has(&x.text, "space", c) || has(&x.text, "punctuation", c))
}
/// does one of the contractions stand at `i` as a word of its own?
fn contraction_at(x: &Ctx, cs: &[Vec<char>], s: &[char], i: usize) -> bool {
    boundary(x, i.checked_sub(1).map(|j| s[j]))
        && cs.iter().any(|c| {
            i + c.len() <= s.len()
                && c.iter().zip(&s[i..]).all(|(e, a)| fold(*a) == Some(*e))
                && boundary(x, s.get(i + c.len()).copied())
        })
}

impl LetSign {
    pub fn new(rules: &[&Rule]) -> LetSign {
        LetSign {
            sign: sign(rules, "letsign"),
            no: all_set(rules, "noletsign"),
            before: all_set(rules, "noletsignbefore"),
            after: all_set(rules, "noletsignafter"),
            contractions: contractions(rules),
        }
    }
    pub fn get(&self, s: &[char], x: &Ctx) -> Vec<Ind> {
        let Some(sg) = &self.sign else { return vec![] };
        let letter = |c: char| ["letter", "uppercase", "lowercase"].iter().any(|k| has(&x.text, k, c));
        let mut v = vec![];
        for i in 0..s.len() {
            let (c, prev, next) = (s[i], i.checked_sub(1).map(|j| s[j]), s.get(i + 1).copied());
            let alone = letter(c)
                && !self.no.contains(&c)
                && !prev.is_some_and(|p| self.after.contains(&p))
                && !next.is_some_and(|n| self.before.contains(&n))
                && !next.is_some_and(letter)
                && !prev.is_some_and(|p| has(&x.text, "space", p) || letter(p));
            let contr = contraction_at(x, &self.contractions, s, i) && !self.no.contains(&c);
            if alone || contr {
                v.push(at(i, sg));
            }
        }
        v
    }
}

fn contractions(rules: &[&Rule]) -> Vec<Vec<char>> {
    rules.iter().filter(|r| r.op == "contraction").map(|r| r.s(0).chars().collect()).collect()
}

pub fn nocontract(rules: &[&Rule], s: &[char], x: &Ctx) -> Vec<Ind> {
    let Some(sg) = sign(rules, "nocontractsign") else { return vec![] };
    let cs = contractions(rules);
    (0..s.len()).filter(|&i| contraction_at(x, &cs, s, i)).map(|i| at(i, &sg)).collect()
}

// ------------------------------------------------------------------ computer braille
pub fn computer_braille(rules: &[&Rule], n: usize, spans: &[Span]) -> Vec<Ind> {
    let Some(beg) = sign(rules, "begcomp") else { return vec![] };
    let end = sign(rules, "endcomp");
    let inside = |i: usize| i < n && spans.iter().any(|s| s.class == "computer_braille" && s.start <= i && i < s.end);
    let mut v = vec![];
    for i in 0..=n {
        match (i > 0 && inside(i - 1), inside(i), &end) {
            (false, true, _) => v.push(at(i, &beg)),
            (true, false, Some(e)) => v.push(at(i, e)),
            _ => {}
        }
    }
    v
}

// ------------------------------------------------------------------ capitals
pub struct Caps {
    letter: Sign,
    begword: Sign,
    endword: Sign,
    beg: Sign,
    end: Sign,
    begphrase: Sign,
    endphrase: Sign,
    endphrase_before: bool,
    len: usize,
    mode: HashSet<char>,
}

impl Caps {
    pub fn new(rules: &[&Rule]) -> Caps {
        let last = |op: &str| rules.iter().rev().find(|r| r.op == op);
        Caps {
            letter: sign(rules, "capsletter"),
            begword: sign(rules, "begcapsword"),
            endword: sign(rules, "endcapsword"),
            beg: sign(rules, "begcaps"),
            end: sign(rules, "endcaps"),
            begphrase: sign(rules, "begcapsphrase"),
            endphrase: sign(rules, "endcapsphrase"),
            endphrase_before: last("endcapsphrase").is_some_and(|r| r.before_pos(0)),
            len: last("lencapsphrase").map_or(2, |r| r.n(0) as usize),
            mode: last_set(rules, "capsmodechars"),
        }
    }

    pub fn get(&self, s: &[char], x: &Ctx) -> Vec<Ind> {
        if self.letter.is_none() && self.begword.is_none() && self.beg.is_none() && self.begphrase.is_none() {
            return vec![];
        }
        let letter = |i: usize| has(&x.text, "letter", s[i]);
        let upper = |i: usize| has(&x.text, "uppercase", s[i]);
        let mut v = vec![];
        let mut group: Vec<(usize, usize)> = vec![];
        let words = runs(0, s.len(), |i| letter(i) || self.mode.contains(&s[i]));
        for (a, b) in words {
            let ls: Vec<usize> = (a..b).filter(|&i| letter(i)).collect();
            if !ls.is_empty() && ls.iter().all(|&i| upper(i)) {
                group.push((ls[0], ls[ls.len() - 1] + 1));
            } else {
                self.group(s, x, &group, &mut v);
                group.clear();
                // maximal stretches of capital letters within a word of mixed case
                let mut k = 0;
                while k < ls.len() {
                    if !upper(ls[k]) {
                        k += 1;
                        continue;
                    }
                    let first = k;
                    while k < ls.len() && upper(ls[k]) {
                        k += 1;
                    }
                    self.run(&ls[first..k], ls.get(k).copied(), &mut v);
                }
            }
        }
        self.group(s, x, &group, &mut v);
        v.sort_by_key(|i| i.0);
        v
    }

    fn letterwise(&self, ls: &[usize], v: &mut Vec<Ind>) {
        if let Some(c) = &self.letter {
            v.extend(ls.iter().map(|i| at(*i, c)));
        }
    }

    fn mode_tier(&self, from: usize, to: usize, v: &mut Vec<Ind>) -> bool {
        let Some(b) = &self.beg else { return false };
        v.push(at(from, b));
        if let Some(e) = &self.end {
            v.push(at(to, e));
        }
        true
    }

    fn run(&self, ls: &[usize], next_letter: Option<usize>, v: &mut Vec<Ind>) {
        if let (1, Some(c)) = (ls.len(), &self.letter) {
            return v.push(at(ls[0], c));
        }
        match (&self.begword, next_letter, &self.endword) {
            (Some(b), None, _) => return v.push(at(ls[0], b)),
            (Some(b), Some(n), Some(e)) => {
                v.push(at(ls[0], b));
                return v.push(at(n, e));
            }
            _ => {}
        }
        if !self.mode_tier(ls[0], ls[ls.len() - 1] + 1, v) {
            self.letterwise(ls, v);
        }
    }

    fn word(&self, s: &[char], x: &Ctx, w: (usize, usize), v: &mut Vec<Ind>) {
        let ls: Vec<usize> = (w.0..w.1).filter(|&i| has(&x.text, "letter", s[i])).collect();
        if let (1, Some(c)) = (ls.len(), &self.letter) {
            return v.push(at(ls[0], c));
        }
        if let Some(b) = &self.begword {
            return v.push(at(ls[0], b));
        }
        if !self.mode_tier(w.0, w.1, v) {
            self.letterwise(&ls, v);
        }
    }

    fn group(&self, s: &[char], x: &Ctx, g: &[(usize, usize)], v: &mut Vec<Ind>) {
        if g.is_empty() {
            return;
        }
        let words = 1 + g.windows(2).filter(|w| s[w[0].1..w[1].0].iter().any(|c| has(&x.text, "space", *c))).count();
        let last = g[g.len() - 1];
        if words >= self.len {
            if let Some(b) = &self.begphrase {
                v.push(at(g[0].0, b));
                match (&self.endphrase, self.endphrase_before, &self.end) {
                    (Some(_), true, _) => self.word(s, x, last, v),
                    (Some(e), false, _) => v.push(at(last.1, e)),
                    (None, _, Some(e)) => v.push(at(last.1, e)),
                    _ => {}
                }
                return;
            }
            if self.mode_tier(g[0].0, last.1, v) {
                return;
            }
        }
        for w in g {
            self.word(s, x, *w, v);
        }
    }
}

// ------------------------------------------------------------------ emphasis
#[derive(Default)]
struct EmphClass {
    name: String,
    letter: Sign,
    begword: Sign,
    endword: Sign,
    beg: Sign,
    end: Sign,
    begphrase: Sign,
    endphrase: Sign,
    before: bool,
    len: usize,
    no: HashSet<char>,
    mode: HashSet<char>,
}

pub struct Emph(Vec<EmphClass>);

#[derive(Clone, Copy)]
enum Kind {
    Close(usize),
    End,
    Open(usize),
    Begin,
}

impl Emph {
    pub fn new(rules: &[&Rule]) -> Emph {
        const OPS: &[&str] = &[
            "emphclass", "emphletter", "begemphword", "endemphword", "begemphphrase", "endemphphrase",
            "lenemphphrase", "begemph", "endemph", "emphmodechars", "noemphchars",
        ];
        let mut names: Vec<&str> = vec![];
        for r in rules.iter().filter(|r| OPS.contains(&r.op)) {
            if !names.contains(&r.s(0)) {
                names.push(r.s(0));
            }
        }
        let classes = names
            .into_iter()
            .map(|n| {
                let mine: Vec<&Rule> =
                    rules.iter().filter(|r| OPS.contains(&r.op) && r.s(0) == n).copied().collect();
                let last = |op: &str| mine.iter().rev().find(|r| r.op == op);
                let set = |op: &str| last(op).map(|r| r.s(1).chars().collect()).unwrap_or_default();
                EmphClass {
                    name: n.to_string(),
                    letter: sign(&mine, "emphletter"),
                    begword: sign(&mine, "begemphword"),
                    endword: sign(&mine, "endemphword"),
                    beg: sign(&mine, "begemph"),
                    end: sign(&mine, "endemph"),
                    begphrase: sign(&mine, "begemphphrase"),
                    endphrase: sign(&mine, "endemphphrase"),
                    before: last("endemphphrase").is_none_or(|r| r.before_pos(1)),
                    len: last("lenemphphrase").map_or(4, |r| r.n(1) as usize),
                    no: set("noemphchars"),
                    mode: set("emphmodechars"),
                }
            })
            .filter(|c| c.letter.is_some() || c.begword.is_some() || c.beg.is_some() || c.begphrase.is_some())
            .collect();
        Emph(classes)
    }

    pub fn get(&self, s: &[char], spans: &[Span], x: &Ctx) -> Vec<Ind> {
        let mut ev: Vec<(usize, (u8, i64, i64), Ind)> = vec![];
        for (idx, c) in self.0.iter().enumerate() {
            let active: Vec<bool> = (0..s.len())
                .map(|i| {
                    !c.no.contains(&s[i]) && spans.iter().any(|p| p.class == c.name && p.start <= i && i < p.end)
                })
                .collect();
            for (a, b) in runs(0, s.len(), |i| active[i]) {
                for (k, i) in c.run(s, a, b, x) {
                    let idx = idx as i64;
                    let order = match k {
                        Kind::Close(opened) => (0, -(opened as i64), idx),
                        Kind::End => (1, 0, 0),
                        Kind::Open(end) => (2, -(end as i64), -idx),
                        Kind::Begin => (3, 0, 0),
                    };
                    ev.push((i.0, order, i));
                }
            }
        }
        ev.sort_by_key(|e| (e.0, e.1));
        ev.into_iter().map(|e| e.2).collect()
    }
}

impl EmphClass {
    fn sep(&self, c: char, x: &Ctx) -> bool {
        if self.mode.is_empty() { has(&x.text, "space", c) } else { self.mode.contains(&c) }
    }

    fn single(&self, (a, b): (usize, usize), v: &mut Vec<(Kind, Ind)>) {
        match (&self.letter, &self.begword) {
            (Some(l), _) if b - a == 1 => v.push((Kind::Begin, at(a, l))),
            (_, Some(w)) => v.push((Kind::Begin, at(a, w))),
            _ => {}
        }
    }

    fn run(&self, s: &[char], a: usize, b: usize, x: &Ctx) -> Vec<(Kind, Ind)> {
        let sep = |i: usize| self.sep(s[i], x);
        let mut v = vec![];
        let words = runs(a, b, |i| !sep(i));
        let core = words.first().zip(words.last()).map(|(f, l)| (f.0, l.1));
        if let Some(beg) = &self.beg {
            let (from, to) = core.unwrap_or((a, b));
            v.push((Kind::Open(b), at(from, beg)));
            if let Some(end) = &self.end {
                v.push((Kind::Close(from), at(to, end)));
            }
            return v;
        }
        let Some((from, to)) = core else { return v };
        let clean = (from == 0 || sep(from - 1)) && (to >= s.len() || sep(to));
        if clean {
            if let (Some(bp), true) = (&self.begphrase, words.len() >= self.len) {
                v.push((Kind::Begin, at(from, bp)));
                if self.before {
                    self.single(words[words.len() - 1], &mut v);
                } else if let Some(e) = &self.endphrase {
                    v.push((Kind::End, at(to, e)));
                }
                return v;
            }
            for w in words {
                self.single(w, &mut v);
            }
            return v;
        }
        let total: usize = words.iter().map(|w| w.1 - w.0).sum();
        if let (1, Some(l)) = (total, &self.letter) {
            v.push((Kind::Begin, at(from, l)));
        } else if let Some(w) = &self.begword {
            v.push((Kind::Begin, at(from, w)));
            if let (Some(e), true) = (&self.endword, to < s.len() && !sep(to)) {
                v.push((Kind::End, at(to, e)));
            }
        } else if let Some(p) = &self.begphrase {
            v.push((Kind::Begin, at(from, p)));
            if let (Some(e), true) = (&self.endphrase, to < s.len()) {
                v.push((Kind::End, at(to, e)));
            }
        }
        v
    }
}
