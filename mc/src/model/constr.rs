//! Positions at which special rules apply.
use super::ctx::{Ctx, has};
use super::indic::{Numeric, Span};
use super::parse::Rule;
use std::collections::{BTreeSet, HashMap};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CapsMode {
    No,
    Title,
    Upper,
}

pub struct Flags {
    pub comp6: Vec<bool>,
    pub numeric: Vec<bool>,
    pub caps: Vec<CapsMode>,
    pub digit: Vec<bool>,
    pub brk: Vec<bool>,
    pub prepunc: Vec<bool>,
    pub postpunc: Vec<bool>,
}

#[derive(Default)]
pub struct Constr {
    pub numsign: Option<Vec<char>>,
    pub nonumsign: Option<Vec<char>>,
    pub capsletter: Option<Vec<char>>,
    pub begcapsword: Option<Vec<char>>,
    pub endcapsword: Option<Vec<char>>,
    pub letter_cells: BTreeSet<char>,
    pub digit_cells: BTreeSet<char>,
    pub punct: bool,
    pub hyph: Option<Hyph>,
}

impl Constr {
    pub fn cells(&mut self, rules: &[&Rule], x: &Ctx) {
        self.letter_cells = x.dots.get("letter").cloned().unwrap_or_default();
        for r in rules {
            if r.op == "always" && r.s(0).chars().all(char::is_alphabetic) {
                self.letter_cells.extend(r.d(1).unwrap_or("=").chars());
            }
        }
        for k in ["digit", "litdigit"] {
            self.digit_cells.extend(x.dots.get(k).cloned().unwrap_or_default());
        }
    }

    pub fn flags(&self, s: &[char], spans: &[Span], fwd: bool, x: &Ctx, num: &Numeric) -> Flags {
        let n = s.len();
        let mut f = Flags {
            comp6: (0..n)
                .map(|i| spans.iter().any(|p| p.class == "computer_braille" && p.start <= i && i < p.end))
                .collect(),
            numeric: num.inside(s),
            caps: vec![CapsMode::No; n],
            digit: vec![false; n],
            brk: vec![false; n],
            // opening and closing punctuation is recognized in print only
            prepunc: vec![false; n],
            postpunc: vec![false; n],
        };
        if fwd {
            if self.punct {
                let space = |i: usize| has(&x.text, "space", s[i]);
                let letter = |i: usize| has(&x.text, "letter", s[i]);
                let alnum = |i: usize| letter(i) || has(&x.text, "digit", s[i]);
                for i in 0..n {
                    let first = (i + 1..n).find(|&j| space(j) || alnum(j));
                    f.prepunc[i] = !(i > 0 && letter(i - 1)) && first.is_some_and(alnum);
                    let last = (0..i).rev().find(|&j| space(j) || alnum(j));
                    f.postpunc[i] = !(i + 1 < n && letter(i + 1)) && last.is_some_and(alnum);
                }
            }
            if let Some(h) = &self.hyph {
                let mut i = 0;
                while i < n {
                    if !has(&x.text, "letter", s[i]) {
                        i += 1;
                        continue;
                    }
                    let st = i;
                    while i < n && has(&x.text, "letter", s[i]) {
                        i += 1;
                    }
                    for b in h.breaks(&s[st..i]) {
                        f.brk[st + b] = true;
                    }
                }
            }
        } else {
            self.back_caps(s, &mut f);
            self.back_num(s, &mut f);
        }
        f
    }

    fn back_caps(&self, s: &[char], f: &mut Flags) {
        if self.capsletter.is_none() && self.begcapsword.is_none() {
            return;
        }
        let at = |o: &Option<Vec<char>>, i: usize| o.as_ref().filter(|d| s[i..].starts_with(d)).map(|d| d.len());
        let mut i = 0;
        while i < s.len() {
            if let Some(l) = at(&self.begcapsword, i) {
                i += l;
                while i < s.len() {
                    if let Some(l) = at(&self.endcapsword, i) {
                        i += l;
                        break;
                    }
                    if !self.letter_cells.contains(&s[i]) {
                        break;
                    }
                    f.caps[i] = CapsMode::Upper;
                    i += 1;
                }
            } else if let Some(l) = at(&self.capsletter, i) {
                i += l;
                if i < s.len() {
                    f.caps[i] = CapsMode::Title;
                }
            } else {
                i += 1;
            }
        }
    }

    fn back_num(&self, s: &[char], f: &mut Flags) {
        let Some(ns) = &self.numsign else { return };
        let mut on = false;
        let mut i = 0;
        while i < s.len() {
            if s[i..].starts_with(ns) && (i == 0 || !self.letter_cells.contains(&s[i - 1])) {
                on = true;
                i += ns.len();
            } else if on && self.nonumsign.as_ref().is_some_and(|d| s[i..].starts_with(d)) {
                on = false;
                i += self.nonumsign.as_ref().unwrap().len();
            } else {
                on = on && self.digit_cells.contains(&s[i]);
                f.digit[i] = on;
                i += 1;
            }
        }
    }
}

/// Liang's algorithm
pub struct Hyph {
    pats: HashMap<String, Vec<u8>>,
    left: usize,
    right: usize,
}

impl Hyph {
    pub fn parse(text: &str) -> Result<Hyph, ()> {
        let mut h = Hyph { pats: HashMap::new(), left: 1, right: 1 };
        for (i, l) in text.lines().enumerate() {
            let l = l.trim();
            if i == 0 && l.eq_ignore_ascii_case("UTF-8") {
                continue;
            }
            if i == 0 && l.eq_ignore_ascii_case("ISO8859-1") {
                return Err(());
            }
            if l.is_empty() || l.starts_with('#') || l.starts_with('%') {
                continue;
            }
            if let Some(v) = l.strip_prefix("LEFTHYPHENMIN") {
                h.left = v.trim().parse().map_err(|_| ())?;
                continue;
            }
            if let Some(v) = l.strip_prefix("RIGHTHYPHENMIN") {
                h.right = v.trim().parse().map_err(|_| ())?;
                continue;
            }
            let mut letters = String::new();
            let mut scores = vec![0u8];
            for c in l.chars() {
                if let Some(d) = c.to_digit(10) {
                    *scores.last_mut().unwrap() = d as u8;
                } else {
                    letters.push(c);
                    scores.push(0);
                }
            }
            if scores.iter().all(|s| *s == 0) {
                return Err(());
            }
            h.pats.insert(letters, scores);
        }
        Ok(h)
    }

    /// i such that the word may be broken after its i-th character
    pub fn breaks(&self, w: &[char]) -> Vec<usize> {
        let n = w.len();
        if n < 2 || n < self.left.saturating_add(self.right) {
            return vec![];
        }
        let mut d = vec!['.'];
        d.extend(w);
        d.push('.');
        let mut sc = vec![0u8; d.len() + 1];
        for a in 0..d.len() {
            for b in a + 1..=d.len() {
                if let Some(p) = self.pats.get(&d[a..b].iter().collect::<String>()) {
                    for (k, v) in p.iter().enumerate() {
                        sc[a + k] = sc[a + k].max(*v);
                    }
                }
            }
        }
        // the gap after w[i] is the gap before d[i + 2]
        (0..n - 1).filter(|&i| sc[i + 2] % 2 == 1 && i + 1 >= self.left && i + 1 <= n - self.right).collect()
    }
}
