//! Reference matcher: the set of states an expression can lead to, in the order of preference.
use super::ctx::Classes;
use super::parse::{Attr, Cmp, Re};
use std::collections::{BTreeSet, HashMap, HashSet};

pub type Env = HashMap<u8, u8>;

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct St {
    pub at: usize,
    pub cap: (usize, usize),
}

pub struct M<'a> {
    /// remaining input
    pub s: &'a [char],
    pub env: &'a Env,
    pub at_start: bool,
}

/// Replace class names by their members.
pub fn resolve(re: &Re, cl: &Classes) -> Re {
    let b = |r: &Re| Box::new(resolve(r, cl));
    match re {
        Re::Set(attrs, pos) => {
            let set: BTreeSet<char> = attrs
                .iter()
                .flat_map(|a| match a {
                    Attr::Class(n) => cl.get(n).cloned().unwrap_or_default(),
                    Attr::Nothing => BTreeSet::new(),
                })
                .collect();
            Re::Chars(set.into_iter().collect(), *pos)
        }
        Re::Cat(v) => Re::Cat(v.iter().map(|r| resolve(r, cl)).collect()),
        Re::Alt(l, r) => Re::Alt(b(l), b(r)),
        Re::Opt(r) => Re::Opt(b(r)),
        Re::Star(r) => Re::Star(b(r)),
        Re::Plus(r) => Re::Plus(b(r)),
        Re::Rep(n, m, r) => Re::Rep(*n, *m, b(r)),
        Re::Cap(r) => Re::Cap(b(r)),
        x => x.clone(),
    }
}

impl M<'_> {
    pub fn find(&self, re: &Re) -> Option<St> {
        self.ends(re, St { at: 0, cap: (0, 0) }).into_iter().next()
    }

    fn one(&self, st: St, ok: impl Fn(char) -> bool) -> Vec<St> {
        match self.s.get(st.at) {
            Some(&c) if ok(c) => vec![St { at: st.at + 1, ..st }],
            _ => vec![],
        }
    }

    fn str(&self, s: &[char], st: St, ok: impl Fn(char, char) -> bool) -> Vec<St> {
        let end = st.at + s.len();
        if end > self.s.len() || !s.iter().zip(&self.s[st.at..end]).all(|(e, a)| ok(*a, *e)) {
            return vec![];
        }
        vec![St { at: end, ..st }]
    }

    /// All the states after the expression was matched from `st`, the preferred ones first, each once.
    fn ends(&self, re: &Re, st: St) -> Vec<St> {
        let iff = |b: bool| if b { vec![st] } else { vec![] };
        match re {
            Re::Empty => vec![st],
            Re::Never => vec![],
            Re::Any => self.one(st, |_| true),
            Re::Set(..) => unreachable!(),
            Re::Chars(s, pos) => self.one(st, |c| s.contains(&c) == *pos),
            Re::Str(s, pos) => self.str(s, st, |a, e| (a == e) == *pos),
            Re::CiStr(s) => self.str(s, st, |a, e| {
                let mut l = a.to_lowercase();
                l.next() == Some(e) && l.next().is_none()
            }),
            Re::Cat(v) => v.iter().fold(vec![st], |l, r| self.each(r, &l)),
            Re::Alt(l, r) => {
                let mut v = self.ends(l, st);
                self.ends(r, st).into_iter().for_each(|s| add(&mut v, s));
                v
            }
            Re::Opt(r) => {
                let mut v = self.ends(r, st);
                add(&mut v, st);
                v
            }
            Re::Star(r) => self.star(r, vec![st]),
            Re::Plus(r) => {
                let (same, on): (Vec<St>, Vec<St>) = self.ends(r, st).into_iter().partition(|s| s.at == st.at);
                let mut v = self.star(r, on);
                same.into_iter().for_each(|s| add(&mut v, s));
                v
            }
            Re::Rep(lo, hi, r) => {
                let first = (0..*lo).fold(vec![st], |l, _| self.each(r, &l));
                let mut v = vec![];
                let mut seen = HashSet::new();
                first.into_iter().for_each(|s| self.upto(hi - lo, r, s, &mut seen, &mut v));
                v
            }
            Re::Cap(r) => self
                .ends(r, St { at: st.at, cap: (st.at, 0) })
                .into_iter()
                .map(|s| St { at: s.at, cap: (s.cap.0, s.at) })
                .collect(),
            Re::Start(pos) => iff((self.at_start && st.at == 0) == *pos),
            Re::End(pos) => iff((st.at == self.s.len()) == *pos),
            Re::Var(v, op, n, pos) => {
                let a = self.env.get(v).unwrap_or(&0);
                let t = match op {
                    Cmp::Eq => a == n,
                    Cmp::Lt => a < n,
                    Cmp::Le => a <= n,
                    Cmp::Gt => a > n,
                    Cmp::Ge => a >= n,
                };
                iff(t == *pos)
            }
        }
    }

    fn each(&self, r: &Re, from: &[St]) -> Vec<St> {
        match from {
            [one] => self.ends(r, *one),
            _ => {
                let mut v = vec![];
                from.iter().flat_map(|s| self.ends(r, *s)).for_each(|s| add(&mut v, s));
                v
            }
        }
    }

    /// As often as possible; a state met before has contributed already.
    fn star(&self, r: &Re, from: Vec<St>) -> Vec<St> {
        fn go(m: &M, r: &Re, st: St, seen: &mut HashSet<St>, out: &mut Vec<St>) {
            if seen.insert(st) {
                for s in m.ends(r, st).into_iter().filter(|s| s.at != st.at) {
                    go(m, r, s, seen, out);
                }
                out.push(st);
            }
        }
        let (mut seen, mut out) = (HashSet::new(), vec![]);
        from.into_iter().for_each(|s| go(self, r, s, &mut seen, &mut out));
        out
    }

    /// Up to `n` times, as often as possible.
    fn upto(&self, n: u8, r: &Re, st: St, seen: &mut HashSet<(u8, St)>, out: &mut Vec<St>) {
        if seen.insert((n, st)) {
            if n > 0 {
                self.ends(r, st).into_iter().for_each(|s| self.upto(n - 1, r, s, seen, out));
            }
            add(out, st);
        }
    }
}

fn add(v: &mut Vec<St>, s: St) {
    if !v.contains(&s) {
        v.push(s);
    }
}
