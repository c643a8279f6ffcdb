//! The translation machine: one state per visited input position, one transition per applied rule.
use super::constr::{CapsMode, Constr, Flags, Hyph};
use super::ctx::{CHAR_OPS, Ctx, Classes};
use super::indic::{self, Caps, Emph, LetSign, Numeric, Span};
use super::parse::{Act, Re, Rule};
use super::re::{St, Env, M, resolve};
use super::trie::{Spec, Trie};
use std::collections::{BTreeMap, HashMap, HashSet};

#[derive(Clone, Debug, PartialEq)]
pub struct Step {
    pub from: String,
    pub to: String,
    pub line: usize,
    /// an indicator, a match/context/multipass rule, ...: name of the opcode ("" = no rule)
    pub op: &'static str,
}

#[derive(Clone, Debug)]
pub struct Cand {
    pub input: Vec<char>,
    pub output: String,
    pub len: usize,
    pub weight: usize,
    pub offset: usize,
    pub effects: Vec<Act>,
    pub line: usize,
    pub op: &'static str,
}

type Key = (Vec<char>, String, usize, usize);
impl Cand {
    fn key(&self) -> Key {
        (self.input.clone(), self.output.clone(), self.len, self.weight)
    }
    fn step(&self) -> Step {
        Step { from: self.input.iter().collect(), to: self.output.clone(), line: self.line, op: self.op }
    }
}

/// A context or multipass rule, ready to run.
pub struct Pat {
    re: Re,
    acts: Vec<RAct>,
    effects: Vec<Act>,
    line: usize,
    op: &'static str,
}
enum RAct {
    Lit(String),
    Cap,
    Swap(BTreeMap<char, String>),
}

impl Pat {
    pub fn new(r: &Rule, cl: &Classes, x: &Ctx) -> Result<Pat, ()> {
        let mut acts = vec![];
        let mut effects = vec![];
        for a in r.acts(1) {
            match a {
                Act::Lit(s, _) => acts.push(RAct::Lit(s.clone())),
                Act::Capture => acts.push(RAct::Cap),
                Act::Swap(n) => acts.push(RAct::Swap(x.swaps.get(n).ok_or(())?.clone())),
                Act::Ignore => {}
                e => effects.push(e.clone()),
            }
        }
        Ok(Pat { re: resolve(r.t(0), cl), acts, effects, line: r.line, op: r.op })
    }

    pub fn find(&self, s: &[char], env: &Env, at_start: bool) -> Option<Cand> {
        let st = M { s, env, at_start }.find(&self.re)?;
        let cap = &s[st.cap.0..st.cap.1];
        let mut out = String::new();
        for a in &self.acts {
            match a {
                RAct::Lit(l) => out += l,
                RAct::Cap => out.extend(cap),
                RAct::Swap(m) => {
                    for c in cap {
                        match m.get(c) {
                            Some(t) => out += t,
                            None => out.push(*c),
                        }
                    }
                }
            }
        }
        Some(Cand {
            input: cap.to_vec(),
            output: out,
            len: cap.len(),
            weight: st.at,
            offset: st.cap.0,
            effects: self.effects.clone(),
            line: self.line,
            op: self.op,
        })
    }
}

fn apply(env: &mut Env, e: &Act) {
    match e {
        Act::Set(v, n) => {
            env.insert(*v, *n);
        }
        Act::Inc(v) => {
            let x = env.get(v).copied().unwrap_or(0).saturating_add(1);
            env.insert(*v, x);
        }
        Act::Dec(v) => {
            let x = env.get(v).copied().unwrap_or(0).saturating_sub(1);
            env.insert(*v, x);
        }
        _ => unreachable!(),
    }
}

/// Rules that matched ahead of their position wait here.
fn advance(delayed: &mut Vec<Cand>, by: usize) {
    delayed.retain(|c| c.offset >= by);
    for c in delayed.iter_mut() {
        c.offset -= by;
    }
}

fn best(c: &[Cand], seen: &HashSet<Key>) -> Option<Cand> {
    c.iter().filter(|c| !seen.contains(&c.key())).max_by_key(|c| c.weight).cloned()
}

pub struct Multi {
    pub pats: Vec<Pat>,
}

impl Multi {
    pub fn run(&self, s: &[char]) -> Vec<Step> {
        let mut out = vec![];
        let mut env = Env::new();
        let mut seen = HashSet::new();
        let mut delayed: Vec<Cand> = vec![];
        let mut p = 0;
        loop {
            // `best` prefers the last of equals; the first rule is to win
            let found: Vec<Cand> = self.pats.iter().rev().filter_map(|q| q.find(&s[p..], &env, p == 0)).collect();
            let (mut cands, later): (Vec<_>, Vec<_>) = found.into_iter().partition(|c| c.offset == 0);
            delayed.extend(later);
            let (now, rest): (Vec<_>, Vec<_>) = delayed.into_iter().partition(|c| c.offset == 0);
            delayed = rest;
            cands.extend(now.iter().cloned());
            if let Some(c) = best(&cands, &seen) {
                if c.len == 0 {
                    seen.insert(c.key());
                    delayed.extend(now);
                } else {
                    seen.clear();
                    p += c.len;
                    advance(&mut delayed, c.len);
                }
                c.effects.iter().for_each(|e| apply(&mut env, e));
                out.push(c.step());
            } else if p < s.len() {
                seen.clear();
                let t = s[p].to_string();
                out.push(Step { from: t.clone(), to: t, line: 0, op: "" });
                p += 1;
                advance(&mut delayed, 1);
            } else {
                return out;
            }
        }
    }
}

struct MatchRule {
    re: Re,
    chars: Vec<char>,
    out: String,
    line: usize,
}

pub struct Prim {
    fwd: bool,
    x: Ctx,
    trie: Trie,
    nocross: Trie,
    comp6: Trie,
    matches: Vec<MatchRule>,
    contexts: Vec<Pat>,
    chars: HashMap<char, (String, usize, &'static str)>,
    undefined: Option<String>,
    digit_over: HashMap<char, (char, usize, &'static str)>,
    compbrl: Vec<Vec<char>>,
    constr: Constr,
    numeric: Numeric,
    letsign: LetSign,
    caps: Caps,
    emph: Emph,
    rules: Vec<Rule>,
}

const SP: &[&str] = &["space", "punctuation"];
const LSP: &[&str] = &["letter", "space", "punctuation"];
const L: &[&str] = &["letter"];
const D: &[&str] = &["digit"];

fn prec(op: &str) -> u8 {
    match op {
        "word" | "begword" | "sufword" | "midword" | "midendword" | "endword" | "begmidword" | "prfword"
        | "partword" | "joinword" | "lowword" | "begnum" | "midnum" | "endnum" | "always" => 2,
        "capsletter" | "begcapsword" | "endcapsword" | "numsign" | "nonumsign" => 1,
        _ => 0,
    }
}

/// word position of the literal rules: the (look-behind, look-ahead) pairs each stands for
type Bounds = &'static [(Option<&'static [&'static str]>, Option<&'static [&'static str]>)];
fn bounds(op: &str) -> Option<Bounds> {
    Some(match op {
        "word" | "contraction" | "joinword" | "lowword" => &[(Some(SP), Some(SP))],
        "begword" => &[(Some(SP), Some(L))],
        "midword" => &[(Some(L), Some(L))],
        "endword" => &[(Some(L), Some(SP))],
        "midendword" => &[(Some(L), Some(LSP))],
        "begmidword" => &[(Some(LSP), Some(L))],
        "prfword" => &[(Some(SP), Some(SP)), (Some(L), Some(SP))],
        "sufword" => &[(Some(SP), Some(SP)), (Some(SP), Some(L))],
        "partword" => &[(Some(L), None), (None, Some(L))],
        "begnum" => &[(Some(SP), Some(D))],
        "midnum" => &[(Some(D), Some(D))],
        "endnum" => &[(Some(D), None)],
        "always" | "syllable" | "largesign" | "prepunc" | "postpunc" => &[(None, None)],
        _ => return None,
    })
}
fn classes_allowed(op: &str) -> bool {
    matches!(
        op,
        "always" | "sufword" | "prfword" | "begword" | "begmidword" | "midword" | "midendword" | "endword"
            | "partword" | "word"
    )
}

impl Prim {
    pub fn new(rules: Vec<&Rule>, fwd: bool, hyph: Option<Hyph>) -> Result<Prim, ()> {
        let x = Ctx::new(&rules);
        let cl = if fwd { x.text.clone() } else { x.dots.clone() };
        let mut p = Prim {
            fwd,
            trie: Trie::default(),
            nocross: Trie::default(),
            comp6: Trie::default(),
            matches: vec![],
            contexts: vec![],
            chars: HashMap::new(),
            undefined: None,
            digit_over: HashMap::new(),
            compbrl: vec![],
            constr: Constr { hyph, ..Constr::default() },
            numeric: Numeric::new(&rules, &x),
            letsign: LetSign::new(&rules),
            caps: Caps::new(&rules),
            emph: Emph::new(&rules),
            rules: rules.iter().map(|r| (*r).clone()).collect(),
            x: Ctx::default(),
        };
        let litdigits: HashSet<char> = rules.iter().filter(|r| r.op == "litdigit").map(|r| r.ch(0)).collect();
        let letter_dots: HashSet<&str> = rules
            .iter()
            .filter(|r| matches!(r.op, "letter" | "lowercase" | "uppercase"))
            .map(|r| r.x(1))
            .collect();
        let none = || Spec { start: None, end: None, after: vec![], before: vec![] };
        let mut char_rules: Vec<(&Rule, char, String)> = vec![];
        for first in [true, false] {
            for r in &rules {
                let early = matches!(r.op, "decpoint" | "hyphen");
                if CHAR_OPS.contains(&r.op) && early == first {
                    char_rules.push((r, r.ch(0), r.x(1).to_string()));
                } else if r.op == "base"
                    && !first
                    && let Some(d) = x.defs.get(&r.ch(2))
                {
                    char_rules.push((r, r.ch(1), d.clone()));
                }
            }
        }
        // literal rules and character definitions share one trie when translating backward, so
        // keep the order in which they occur
        for (r, c, d) in &char_rules {
            if fwd && !(r.op == "digit" && litdigits.contains(c)) {
                p.chars.entry(*c).or_insert((d.clone(), r.line, r.op));
            }
        }
        let literal = |p: &mut Prim, r: &Rule, chars: &str, d: &str, sp: Spec, which: u8| {
            let (from, to) = if fwd { (chars, d) } else { (d, chars) };
            let t = match which {
                0 => &mut p.trie,
                1 => &mut p.nocross,
                _ => &mut p.comp6,
            };
            t.insert(from, to, &sp, &cl, prec(r.op), r.line, r.op);
        };
        if !fwd {
            for (r, c, d) in char_rules.iter().filter(|r| matches!(r.0.op, "decpoint" | "hyphen")) {
                literal(&mut p, r, &c.to_string(), d, none(), 0);
            }
        }
        for r in &rules {
            let dots = |i: usize| -> Result<String, ()> {
                match r.d(i) {
                    Some(d) => Ok(d.to_string()),
                    None => x.implicit(r.s(i - 1)),
                }
            };
            let indicator = |p: &mut Prim| -> Option<Vec<char>> {
                let d = r.x(0);
                if fwd || letter_dots.contains(d) {
                    return None;
                }
                p.trie.insert(d, "", &none(), &cl, prec(r.op), r.line, r.op);
                Some(d.chars().collect())
            };
            match r.op {
                "undefined" => p.undefined = Some(r.x(0).to_string()),
                "numsign" => {
                    if let v @ Some(_) = indicator(&mut p) {
                        p.constr.numsign = v
                    }
                }
                "nonumsign" => {
                    if let v @ Some(_) = indicator(&mut p) {
                        p.constr.nonumsign = v
                    }
                }
                "capsletter" => {
                    if let v @ Some(_) = indicator(&mut p) {
                        p.constr.capsletter = v
                    }
                }
                "begcapsword" => {
                    if let v @ Some(_) = indicator(&mut p) {
                        p.constr.begcapsword = v
                    }
                }
                "endcapsword" => {
                    if let v @ Some(_) = indicator(&mut p) {
                        p.constr.endcapsword = v
                    }
                }
                "compbrl" => p.compbrl.push(r.s(0).chars().collect()),
                "comp6" => literal(&mut p, r, r.s(0), &dots(1)?, none(), 2),
                "match" => p.matches.push(MatchRule {
                    re: resolve(
                        &Re::Cat(vec![
                            r.t(0).clone(),
                            Re::Cap(Box::new(Re::CiStr(r.s(1).chars().collect()))),
                            r.t(2).clone(),
                        ]),
                        &x.text,
                    ),
                    chars: r.s(1).chars().collect(),
                    out: match r.d(3) {
                        Some(d) => d.to_string(),
                        None => x.implicit(r.s(1))?,
                    },
                    line: r.line,
                }),
                "context" => p.contexts.push(Pat::new(r, &x.text, &x)?),
                "prepunc" | "postpunc"
                    if !r.s(0).chars().all(|c| super::ctx::has(&x.text, "punctuation", c)) => {}
                "decpoint" | "hyphen" => {}
                op => {
                    if !fwd && (CHAR_OPS.contains(&op) || op == "base") {
                        if let Some((_, c, d)) = char_rules.iter().find(|q| std::ptr::eq(q.0, *r)) {
                            literal(&mut p, r, &c.to_string(), d, none(), 0);
                            let mut it = d.chars();
                            if matches!(op, "digit" | "litdigit")
                                && letter_dots.contains(d.as_str())
                                && let (Some(cell), None) = (it.next(), it.next())
                            {
                                p.digit_over.insert(cell, (*c, r.line, r.op));
                            }
                        }
                    }
                    let Some(bs) = bounds(op) else { continue };
                    let d = if op == "contraction" { x.implicit(r.s(0))? } else { dots(1)? };
                    if matches!(op, "prepunc" | "postpunc") {
                        p.constr.punct = true;
                    }
                    for (start, end) in bs {
                        let known = |want: bool| -> Vec<String> {
                            r.mods
                                .iter()
                                .filter(|(after, c)| {
                                    *after == want && classes_allowed(op) && x.text.contains_key(c)
                                })
                                .map(|m| m.1.clone())
                                .collect()
                        };
                        let sp = Spec { start: *start, end: *end, after: known(true), before: known(false) };
                        literal(&mut p, r, r.s(0), &d, sp, r.nocross as u8);
                    }
                }
            }
        }
        p.constr.cells(&rules, &x);
        p.x = x;
        Ok(p)
    }

    fn undefined_hex(&self, c: char) -> String {
        format!("\\x{:x}", c as u32)
            .chars()
            .map(|c| match self.x.defs.get(&c) {
                Some(d) => d.clone(),
                None => nabcc(c).to_string(),
            })
            .collect()
    }

    fn spans(&self, s: &[char], spans: &[Span]) -> Vec<Span> {
        let mut v = spans.to_vec();
        let space = |i: usize| super::ctx::has(&self.x.text, "space", s[i]);
        let mut p = 0;
        while p < s.len() {
            if self.compbrl.iter().any(|t| s[p..].starts_with(t)) {
                let start = (0..p).rev().find(|i| space(*i)).map_or(0, |i| i + 1);
                let end = (p..s.len()).find(|i| space(*i)).unwrap_or(s.len());
                let sp = Span { class: "computer_braille".into(), start, end };
                if !v.contains(&sp) {
                    v.push(sp);
                }
                p = end.max(p + 1);
            } else {
                p += 1;
            }
        }
        v
    }

    /// The signs at each place, and whether those for capitals, emphasis and computer braille are among them
    fn indications(&self, s: &[char], spans: &[Span]) -> (Vec<Vec<Step>>, Vec<bool>) {
        let rules: Vec<&Rule> = self.rules.iter().collect();
        let mut slots = vec![vec![]; s.len() + 1];
        let mut change = vec![false; s.len() + 1];
        for (marks, ind) in [
            (true, indic::computer_braille(&rules, s.len(), spans)),
            (true, self.emph.get(s, spans, &self.x)),
            (false, self.numeric.get(s)),
            (false, self.letsign.get(s, &self.x)),
            (true, self.caps.get(s, &self.x)),
            (false, indic::nocontract(&rules, s, &self.x)),
        ] {
            for (pos, out, line) in ind {
                change[pos] |= marks;
                slots[pos].push(Step { from: String::new(), to: out, line, op: "indicator" });
            }
        }
        (slots, change)
    }

    pub fn run(&self, s: &[char], spans: &[Span]) -> Vec<Step> {
        let spans = self.spans(s, spans);
        let (slots, mut change) = self.indications(s, &spans);
        let f: Flags = self.constr.flags(s, &spans, self.fwd, &self.x, &self.numeric);
        for i in 1..s.len().min(f.comp6.len()) {
            change[i] |= f.comp6[i] != f.comp6[i - 1];
        }
        // no rule swallows a sign or goes across an edge of computer braille
        let across = |p: usize, c: &Cand| (1..c.len).any(|i| change[p + i]);
        let mut out: Vec<Step> = vec![];
        let mut env = Env::new();
        let mut seen: HashSet<Key> = HashSet::new();
        let mut delayed: Vec<Cand> = vec![];
        let mut prev: Option<char> = None;
        let mut shown = None;
        let mut p = 0;
        // cells only are a sign if they were read as one: where the last sign ended, and whether the
        // capitals and the digits from there on go on
        let (mut sign_end, mut word, mut number) = (None, false, false);
        loop {
            if shown != Some(p) {
                out.extend(slots[p].iter().cloned());
                shown = Some(p);
            }
            let rest = &s[p..];
            let flag = |v: &[bool]| v.get(p).copied().unwrap_or(false);
            let lit = |t: &Trie| -> Vec<Cand> {
                t.find(rest, prev)
                    .map(|e| Cand {
                        input: e.input.clone(),
                        output: e.output.clone(),
                        len: e.input.len(),
                        weight: e.weight,
                        offset: 0,
                        effects: vec![],
                        line: e.line,
                        op: e.op,
                    })
                    .collect()
            };
            let nocross = lit(&self.nocross)
                .into_iter()
                .filter(|c| !(p..p + c.len - 1).any(|i| f.brk[i]))
                .filter(|c| !flag(&f.numeric) || c.len <= 1)
                .filter(|c| !flag(&f.comp6) && !across(p, c))
                .max_by_key(|c| c.weight);

            let mut cands = lit(&self.trie);
            let empty = Env::new();
            // the match rules whose first pattern begins at `from`
            let matches = |from: usize| -> Vec<Cand> {
                let text = M { s: &s[from..], env: &empty, at_start: from == 0 };
                let cand = |m: &MatchRule, st: St| Cand {
                    input: m.chars.clone(),
                    output: m.out.clone(),
                    len: m.chars.len(),
                    weight: st.at,
                    offset: from + st.cap.0 - p,
                    effects: vec![],
                    line: m.line,
                    op: "match",
                };
                self.matches.iter().rev().filter_map(|m| text.find(&m.re).map(|st| cand(m, st))).collect()
            };
            let context: Vec<Cand> = self.contexts.iter().rev().filter_map(|c| c.find(rest, &env, p == 0)).collect();
            for c in matches(p).into_iter().chain(context) {
                if c.offset == 0 { cands.push(c) } else { delayed.push(c) }
            }
            let (now, later): (Vec<_>, Vec<_>) = delayed.into_iter().partition(|c| c.offset == 0);
            delayed = later;
            cands.extend(now.iter().cloned());
            cands.retain(|c| match c.op {
                "prepunc" => f.prepunc.get(p).copied().unwrap_or(false),
                "postpunc" => f.postpunc.get(p).copied().unwrap_or(false),
                _ => true,
            });
            if flag(&f.digit)
                && number
                && let Some((c, line, op)) = rest.first().and_then(|c| self.digit_over.get(c))
            {
                cands.retain(|c| c.len != 1);
                cands.push(Cand {
                    input: vec![rest[0]],
                    output: c.to_string(),
                    len: 1,
                    weight: 1,
                    offset: 0,
                    effects: vec![],
                    line: *line,
                    op,
                });
            }
            if flag(&f.numeric) {
                cands.retain(|c| c.len <= 1);
            }
            if flag(&f.comp6) {
                cands = lit(&self.comp6);
            }
            cands.retain(|c| !across(p, c));
            let chosen = best(&cands, &seen);
            let mode = match f.caps.get(p) {
                Some(CapsMode::Upper) if !word => None,
                Some(CapsMode::Title) if sign_end != Some(p) => None,
                m => m.copied(),
            };
            let mut read = |op: &str, from: usize, to: usize| {
                let sign = matches!(op, "capsletter" | "begcapsword" | "endcapsword" | "numsign" | "nonumsign");
                if sign {
                    sign_end = Some(to);
                }
                word = sign || word && (from..to).all(|i| matches!(f.caps.get(i), Some(CapsMode::Upper)));
                number = sign || number && (from..to).all(|i| f.digit.get(i) == Some(&true));
            };
            let cased = |o: &str| match mode {
                Some(CapsMode::Upper) => o.to_uppercase(),
                Some(CapsMode::Title) => {
                    let mut it = o.chars();
                    it.next().map_or(String::new(), |c| c.to_uppercase().chain(it).collect())
                }
                _ => o.to_string(),
            };
            match (nocross, chosen) {
                (Some(n), c) if c.as_ref().is_none_or(|c| n.weight >= c.weight) => {
                    seen.clear();
                    read(n.op, p, p + n.len);
                    (1..n.len).for_each(|i| delayed.extend(matches(p + i)));
                    p += n.len;
                    prev = n.input.last().copied();
                    advance(&mut delayed, n.len);
                    out.push(Step { to: cased(&n.output), ..n.step() });
                }
                (_, Some(c)) => {
                    if c.len == 0 {
                        seen.insert(c.key());
                        delayed.extend(now);
                        out.push(Step { to: cased(&c.output), ..c.step() });
                    } else {
                        seen.clear();
                        out.push(Step { to: cased(&c.output), ..c.step() });
                        read(c.op, p, p + c.len);
                        (1..c.len).for_each(|i| delayed.extend(matches(p + i)));
                        p += c.len;
                        prev = c.input.last().copied();
                        advance(&mut delayed, c.len);
                    }
                    c.effects.iter().for_each(|e| apply(&mut env, e));
                }
                _ if p < s.len() => {
                    seen.clear();
                    let c = s[p];
                    let (to, line, op) = match (self.chars.get(&c), &self.undefined) {
                        (Some((d, l, o)), _) => (d.clone(), *l, *o),
                        (None, Some(u)) => (u.clone(), 0, ""),
                        _ => (self.undefined_hex(c), 0, ""),
                    };
                    out.push(Step { from: c.to_string(), to, line, op });
                    prev = Some(c);
                    read("", p, p + 1);
                    p += 1;
                    advance(&mut delayed, 1);
                }
                _ => return out,
            }
        }
    }
}

/// North American Braille Computer Code, as far as `\x0123456789abcdef` is concerned
fn nabcc(c: char) -> char {
    let d = match c {
        '0' => "356",
        '1' => "2",
        '2' => "23",
        '3' => "25",
        '4' => "256",
        '5' => "26",
        '6' => "235",
        '7' => "2356",
        '8' => "236",
        '9' => "35",
        'a' => "1",
        'b' => "12",
        'c' => "14",
        'd' => "145",
        'e' => "15",
        'f' => "124",
        '\\' => "1256",
        'x' => "1346",
        _ => unreachable!(),
    };
    super::parse::cell(d).unwrap()
}
