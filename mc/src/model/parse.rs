//! Reference parser: table text -> rules. Written from the documented table grammar as one
//! declarative opcode specification plus small recursive-descent parsers for the embedded
//! languages. A line is either a rule or an error; errors are reported by line number only.

#[derive(Clone, Debug, PartialEq)]
pub enum Re {
    Empty,
    Never,
    Any,
    Set(Vec<Attr>, bool),
    Chars(Vec<char>, bool),
    Str(Vec<char>, bool),
    CiStr(Vec<char>),
    Cat(Vec<Re>),
    Alt(Box<Re>, Box<Re>),
    Opt(Box<Re>),
    Star(Box<Re>),
    Plus(Box<Re>),
    Rep(u8, u8, Box<Re>),
    Cap(Box<Re>),
    Start(bool),
    End(bool),
    Var(u8, Cmp, u8, bool),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Attr {
    Class(String),
    Nothing,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cmp {
    Eq,
    Lt,
    Le,
    Gt,
    Ge,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Act {
    Lit(String, bool),
    Capture,
    Swap(String),
    Set(u8, u8),
    Inc(u8),
    Dec(u8),
    Ignore,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Arg {
    S(String),
    D(Option<String>),
    L(Vec<String>),
    N(i32),
    Before(bool),
    T(Re),
    A(Vec<Act>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum OnlyDir {
    Both,
    Forward,
    Backward,
}

#[derive(Clone, Debug)]
pub struct Rule {
    pub line: usize,
    pub dir: OnlyDir,
    pub nocross: bool,
    pub before: Vec<String>,
    pub after: Vec<String>,
    /// class modifiers in source order: (true = after/look-behind, class)
    pub mods: Vec<(bool, String)>,
    pub op: &'static str,
    pub a: Vec<Arg>,
}

impl Rule {
    pub fn s(&self, i: usize) -> &str {
        match &self.a[i] {
            Arg::S(s) => s,
            _ => panic!("arg kind"),
        }
    }
    pub fn ch(&self, i: usize) -> char {
        self.s(i).chars().next().unwrap()
    }
    pub fn d(&self, i: usize) -> Option<&str> {
        match &self.a[i] {
            Arg::D(d) => d.as_deref(),
            _ => panic!("arg kind"),
        }
    }
    /// explicit dots
    pub fn x(&self, i: usize) -> &str {
        self.d(i).unwrap()
    }
    pub fn l(&self, i: usize) -> &[String] {
        match &self.a[i] {
            Arg::L(l) => l,
            _ => panic!("arg kind"),
        }
    }
    pub fn n(&self, i: usize) -> i32 {
        match &self.a[i] {
            Arg::N(n) => *n,
            _ => panic!("arg kind"),
        }
    }
    pub fn before_pos(&self, i: usize) -> bool {
        match &self.a[i] {
            Arg::Before(b) => *b,
            _ => panic!("arg kind"),
        }
    }
    pub fn t(&self, i: usize) -> &Re {
        match &self.a[i] {
            Arg::T(t) => t,
            _ => panic!("arg kind"),
        }
    }
    pub fn acts(&self, i: usize) -> &[Act] {
        match &self.a[i] {
            Arg::A(t) => t,
            _ => panic!("arg kind"),
        }
    }
    pub fn applies(&self, forward: bool) -> bool {
        match self.dir {
            OnlyDir::Both => true,
            OnlyDir::Forward => forward,
            OnlyDir::Backward => !forward,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum K {
    One,
    Chars,
    Name,
    X,
    D,
    Dots2,
    Names2,
    Cell,
    Cells2,
    DotsList,
    CellsList,
    Num,
    Pos,
    MaybeChars,
    File,
    Test,
    Action,
    Pre,
    Post,
}

/// which prefixes an opcode takes: 0 none, 1 nofor/noback, 2 nocross as well
const SPEC: &[(&str, u8, &[K])] = {
    use K::*;
    &[
        ("include", 0, &[File]),
        ("undefined", 0, &[X]),
        ("letsign", 0, &[X]),
        ("numsign", 0, &[X]),
        ("begcaps", 0, &[X]),
        ("endcaps", 0, &[X]),
        ("begcapsphrase", 0, &[X]),
        ("display", 1, &[One, Cell]),
        ("multind", 1, &[X, Names2]),
        ("space", 1, &[One, X]),
        ("punctuation", 1, &[One, X]),
        ("digit", 1, &[One, X]),
        ("letter", 1, &[One, X]),
        ("lowercase", 1, &[One, X]),
        ("uppercase", 1, &[One, X]),
        ("litdigit", 1, &[One, X]),
        ("sign", 1, &[One, X]),
        ("math", 1, &[One, X]),
        ("hyphen", 1, &[One, X]),
        ("decpoint", 0, &[One, X]),
        ("grouping", 1, &[Name, Chars, Cells2]),
        ("base", 0, &[Name, One, One]),
        ("modeletter", 1, &[Name, X]),
        ("begmodeword", 1, &[Name, X]),
        ("capsletter", 1, &[X]),
        ("begcapsword", 1, &[X]),
        ("endcapsword", 1, &[X]),
        ("nocontractsign", 1, &[X]),
        ("nonumsign", 1, &[X]),
        ("begcomp", 1, &[X]),
        ("endcomp", 1, &[X]),
        ("capsmodechars", 0, &[Chars]),
        ("noletsign", 0, &[Chars]),
        ("noletsignbefore", 0, &[Chars]),
        ("noletsignafter", 0, &[Chars]),
        ("numericnocontchars", 0, &[Chars]),
        ("numericmodechars", 0, &[Chars]),
        ("midendnumericmodechars", 0, &[Chars]),
        ("seqdelimiter", 0, &[Chars]),
        ("seqbeforechars", 0, &[Chars]),
        ("seqafterchars", 0, &[Chars]),
        ("endcapsphrase", 0, &[Pos, X]),
        ("lencapsphrase", 0, &[Num]),
        ("class", 0, &[Name, Chars]),
        ("begmodephrase", 0, &[Name, X]),
        ("endmodephrase", 0, &[Name, Pos, X]),
        ("lenmodephrase", 0, &[Name, Num]),
        ("seqafterpattern", 0, &[Chars]),
        ("seqafterexpression", 0, &[Chars]),
        ("emphclass", 0, &[Name]),
        ("begemph", 1, &[Name, X]),
        ("endemph", 1, &[Name, X]),
        ("noemphchars", 0, &[Name, Chars]),
        ("emphmodechars", 0, &[Name, Chars]),
        ("emphletter", 0, &[Name, X]),
        ("begemphword", 0, &[Name, X]),
        ("endemphword", 0, &[Name, X]),
        ("begemphphrase", 0, &[Name, X]),
        ("endemphphrase", 0, &[Name, Pos, X]),
        ("lenemphphrase", 0, &[Name, Num]),
        ("capsnocont", 0, &[]),
        ("compbrl", 1, &[Chars]),
        ("comp6", 0, &[Chars, D]),
        ("nocont", 0, &[Chars]),
        ("contraction", 0, &[Chars]),
        ("exactdots", 0, &[Chars]),
        ("literal", 0, &[Chars]),
        ("replace", 0, &[Chars, MaybeChars]),
        ("always", 2, &[Chars, D]),
        ("sufword", 2, &[Chars, D]),
        ("prfword", 2, &[Chars, D]),
        ("begword", 2, &[Chars, D]),
        ("begmidword", 2, &[Chars, D]),
        ("midword", 2, &[Chars, D]),
        ("midendword", 2, &[Chars, D]),
        ("endword", 2, &[Chars, D]),
        ("partword", 2, &[Chars, D]),
        ("word", 1, &[Chars, D]),
        ("syllable", 0, &[Chars, D]),
        ("joinword", 0, &[Chars, X]),
        ("lowword", 1, &[Chars, X]),
        ("largesign", 0, &[Chars, X]),
        ("repeated", 1, &[Chars, X]),
        ("repword", 0, &[Chars, X]),
        ("rependword", 0, &[Chars, Dots2]),
        ("prepunc", 2, &[Chars, X]),
        ("postpunc", 2, &[Chars, X]),
        ("begnum", 2, &[Chars, X]),
        ("midnum", 2, &[Chars, X]),
        ("joinnum", 2, &[Chars, X]),
        ("endnum", 2, &[Chars, D]),
        ("attribute", 0, &[Name, Chars]),
        ("swapcd", 0, &[Name, Chars, DotsList]),
        ("swapdd", 0, &[Name, CellsList, DotsList]),
        ("swapcc", 0, &[Name, Chars, Chars]),
        ("context", 1, &[Test, Action]),
        ("correct", 1, &[Test, Action]),
        ("pass2", 1, &[Test, Action]),
        ("pass3", 1, &[Test, Action]),
        ("pass4", 1, &[Test, Action]),
        ("match", 1, &[Pre, Chars, Post, D]),
    ]
};

pub fn opcodes() -> impl Iterator<Item = (&'static str, u8, usize)> {
    SPEC.iter().map(|(n, c, k)| (*n, *c, k.len()))
}

type R<T> = Result<T, ()>;

pub fn cell(dots: &str) -> R<char> {
    if dots.is_empty() {
        return Err(());
    }
    let mut bits = 0u32;
    for c in dots.chars() {
        let d = match c {
            '0'..='9' => c as u32 - '0' as u32,
            'a'..='f' => c as u32 - 'a' as u32 + 10,
            _ => return Err(()),
        };
        if d > 0 {
            bits |= 1 << (d - 1);
        }
    }
    let plane = if bits > 0xff { 0xF0000 } else { 0x2800 };
    Ok(char::from_u32(plane | bits).unwrap())
}

pub fn dots(s: &str) -> R<String> {
    s.split('-').map(cell).collect()
}

fn escape(tok: &str, keep: bool) -> R<String> {
    // code units of \x escapes may form surrogate pairs; collect with pairing
    let cs: Vec<char> = tok.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    let hex = |cs: &[char], i: usize, n: usize| -> R<u32> {
        if i + n > cs.len() {
            return Err(());
        }
        let s: String = cs[i..i + n].iter().collect();
        u32::from_str_radix(&s, 16).map_err(|_| ())
    };
    while i < cs.len() {
        if cs[i] != '\\' {
            out.push(cs[i]);
            i += 1;
            continue;
        }
        let e = *cs.get(i + 1).ok_or(())?;
        i += 2;
        match e {
            'f' => out.push('\x0c'),
            'n' => out.push('\n'),
            'r' => out.push('\r'),
            't' => out.push('\t'),
            's' => out.push(' '),
            'v' => out.push('\x0b'),
            'e' => out.push('\x1b'),
            '\\' => out.push('\\'),
            '(' | ')' | ']' if keep => {
                out.push('\\');
                out.push(e)
            }
            'x' => {
                let v = hex(&cs, i, 4)?;
                i += 4;
                if (0xD800..0xDC00).contains(&v)
                    && cs.get(i) == Some(&'\\')
                    && cs.get(i + 1) == Some(&'x')
                    && let Ok(w) = hex(&cs, i + 2, 4)
                    && (0xDC00..0xE000).contains(&w)
                {
                    out.push(char::from_u32(0x10000 + ((v - 0xD800) << 10) + (w - 0xDC00)).unwrap());
                    i += 6;
                } else {
                    out.push(char::from_u32(v).unwrap_or('\u{FFFD}'));
                }
            }
            'y' => {
                let v = hex(&cs, i, 5)?;
                i += 5;
                out.push(char::from_u32(v).ok_or(())?);
            }
            _ => return Err(()),
        }
    }
    Ok(out)
}

struct P {
    c: Vec<char>,
    i: usize,
}

impl P {
    fn new(s: &str) -> P {
        P { c: s.chars().collect(), i: 0 }
    }
    fn peek(&self) -> Option<char> {
        self.c.get(self.i).copied()
    }
    fn next(&mut self) -> Option<char> {
        let c = self.peek();
        self.i += c.is_some() as usize;
        c
    }
    fn eat(&mut self, c: char) -> bool {
        let y = self.peek() == Some(c);
        self.i += y as usize;
        y
    }
    fn want(&mut self, c: char) -> R<()> {
        if self.eat(c) { Ok(()) } else { Err(()) }
    }
    fn take(&mut self, f: impl Fn(char) -> bool) -> String {
        let mut s = String::new();
        while let Some(c) = self.peek() {
            if !f(c) {
                break;
            }
            s.push(c);
            self.i += 1;
        }
        s
    }
    fn num(&mut self) -> R<u8> {
        self.take(|c| c.is_ascii_digit()).parse().map_err(|_| ())
    }
    fn dots(&mut self) -> R<String> {
        let s = self.take(|c| c.is_ascii_digit() || ('a'..='f').contains(&c) || c == '-');
        if s.is_empty() { Err(()) } else { dots(&s) }
    }
    fn quoted(&mut self) -> R<String> {
        self.want('"')?;
        let mut s = String::new();
        loop {
            match self.next() {
                None => return Err(()),
                Some('"') => return Ok(s),
                Some('\\') => match self.peek() {
                    None => return Err(()),
                    Some('s') => {
                        self.i += 1;
                        s.push(' ')
                    }
                    Some('"') => {
                        self.i += 1;
                        s.push('"')
                    }
                    Some(k @ ('x' | 'y')) => {
                        self.i += 1;
                        let n = if k == 'x' { 4 } else { 5 };
                        if self.i + n > self.c.len() {
                            return Err(());
                        }
                        let h: String = self.c[self.i..self.i + n].iter().collect();
                        self.i += n;
                        s.push(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32).ok_or(())?);
                    }
                    Some(_) => s.push('\\'),
                },
                Some(c) => s.push(c),
            }
        }
    }

    // ---- multipass tests
    fn quant(&mut self, re: Re) -> R<Re> {
        if self.eat('.') {
            return Ok(Re::Plus(Box::new(re)));
        }
        if self.peek().is_some_and(|c| c.is_ascii_digit()) {
            let lo = self.num()?;
            if self.eat('-') {
                let hi = self.num()?;
                if lo >= hi {
                    return Err(());
                }
                return Ok(Re::Rep(lo, hi, Box::new(re)));
            }
            return Ok(Re::Rep(lo, lo, Box::new(re)));
        }
        Ok(re)
    }
    /// returns the test and whether it is a bracketed one / a negated one
    fn test(&mut self) -> R<(Re, u8)> {
        match self.next() {
            Some('_') => {
                if self.peek().is_some_and(|c| c.is_ascii_digit()) {
                    self.num()?;
                }
                Ok((Re::Empty, 0))
            }
            Some('%') => {
                if let Some(c @ '1'..='7') = self.peek() {
                    self.i += 1;
                    return Ok((Re::Set(vec![Attr::Class(c.to_string())], true), 0));
                }
                let n = self.take(|c| c.is_ascii_alphabetic());
                if n.is_empty() {
                    return Err(());
                }
                Ok((self.quant(Re::Set(vec![Attr::Class(n)], true))?, 0))
            }
            Some('@') => Ok((Re::Str(self.dots()?.chars().collect(), true), 0)),
            Some('"') => {
                self.i -= 1;
                Ok((Re::Str(self.quoted()?.chars().collect(), true), 0))
            }
            Some('$') => {
                let s = self.take(|c| "adDlmpSsUuwxyz".contains(c));
                if s.is_empty() {
                    return Err(());
                }
                let re = if s.contains('a') {
                    Re::Any
                } else {
                    Re::Set(
                        s.chars()
                            .map(|c| match c {
                                'd' => Attr::Class("digit".into()),
                                'D' => Attr::Class("litdigit".into()),
                                'l' => Attr::Class("letter".into()),
                                'm' => Attr::Class("math".into()),
                                'p' => Attr::Class("punctuation".into()),
                                'S' => Attr::Class("sign".into()),
                                's' => Attr::Class("space".into()),
                                'U' => Attr::Class("uppercase".into()),
                                'u' => Attr::Class("lowercase".into()),
                                _ => Attr::Nothing,
                            })
                            .collect(),
                        true,
                    )
                };
                Ok((self.quant(re)?, 0))
            }
            Some('[') => {
                let ts = self.tests()?;
                self.want(']')?;
                Ok((Re::Cap(Box::new(Re::Cat(ts.into_iter().map(|t| t.0).collect()))), 1))
            }
            Some('#') => {
                let v = self.num()?;
                let op = match self.next() {
                    Some('=') => Cmp::Eq,
                    Some('<') => {
                        if self.eat('=') {
                            Cmp::Le
                        } else {
                            Cmp::Lt
                        }
                    }
                    Some('>') => {
                        if self.eat('=') {
                            Cmp::Ge
                        } else {
                            Cmp::Gt
                        }
                    }
                    _ => return Err(()),
                };
                let n = self.num()?;
                // a comparison no value can satisfy never holds, and its negation always does
                let never = (op == Cmp::Lt && n == 0) || (op == Cmp::Gt && n == u8::MAX);
                Ok((if never { Re::Never } else { Re::Var(v, op, n, true) }, 0))
            }
            Some('!') => {
                let (t, k) = self.test()?;
                if k != 0 {
                    return Err(());
                }
                Ok((negate(t), 2))
            }
            Some('`') => Ok((Re::Start(true), 0)),
            Some('~') => Ok((Re::End(true), 0)),
            _ => Err(()),
        }
    }
    fn tests(&mut self) -> R<Vec<(Re, u8)>> {
        let mut v = vec![];
        while self.peek().is_some_and(|c| "_%@\"$[#!`~".contains(c)) {
            v.push(self.test()?);
        }
        Ok(v)
    }

    // ---- match patterns
    fn mattr(&mut self) -> R<Option<String>> {
        Ok(Some(
            match self.next() {
                Some('_') => "space",
                Some('#') => "digit",
                Some('a') => "letter",
                Some('u') => "uppercase",
                Some('l') => "lowercase",
                Some('.') => "punctuation",
                Some('$') => "sign",
                Some('~') => "seqdelimiter",
                Some('<') => "seqbeforechars",
                Some('>') => "seqafterchars",
                Some('^') => return Ok(None),
                Some(c @ '0'..='7') => return Ok(Some(c.to_string())),
                _ => return Err(()),
            }
            .to_string(),
        ))
    }
    fn minner(&mut self, pre: bool) -> R<(Re, bool)> {
        let anchor = || if pre { Re::Start(true) } else { Re::End(true) };
        Ok(match self.peek().ok_or(())? {
            '.' => {
                self.i += 1;
                (Re::Any, false)
            }
            '%' => {
                self.i += 1;
                let mut attrs = vec![];
                let mut boundary = false;
                if self.eat('[') {
                    while self.peek() != Some(']') {
                        match self.mattr()? {
                            Some(n) => attrs.push(Attr::Class(n)),
                            None => boundary = true,
                        }
                    }
                    self.want(']')?;
                    if attrs.is_empty() && !boundary {
                        return Err(());
                    }
                } else {
                    match self.mattr()? {
                        Some(n) => attrs.push(Attr::Class(n)),
                        None => boundary = true,
                    }
                }
                let re = match (boundary, attrs.is_empty()) {
                    (true, true) => anchor(),
                    (true, false) => Re::Alt(Box::new(Re::Set(attrs, true)), Box::new(anchor())),
                    _ => Re::Set(attrs, true),
                };
                (re, false)
            }
            '^' | '$' => {
                self.i += 1;
                (anchor(), false)
            }
            '!' => {
                self.i += 1;
                let (p, neg) = self.mquant(pre)?;
                if neg {
                    return Err(());
                }
                (negate(p), true)
            }
            '[' => {
                self.i += 1;
                let mut set = vec![];
                while let Some(c) = self.peek() {
                    if c == ']' {
                        break;
                    }
                    self.i += 1;
                    if c == '\\' {
                        match self.next() {
                            Some(e @ (']' | '(' | ')')) => set.push(e),
                            _ => return Err(()),
                        }
                    } else {
                        set.push(c);
                    }
                }
                self.want(']')?;
                if set.is_empty() {
                    return Err(());
                }
                (Re::Chars(set, true), false)
            }
            '(' => {
                self.i += 1;
                let p = self.malt(pre)?;
                self.want(')')?;
                if p.is_empty() {
                    return Err(());
                }
                (Re::Cat(p), false)
            }
            _ => {
                let s = self.take(|c| !".*%^$![]()\\?*+|".contains(c));
                if s.is_empty() {
                    return Err(());
                }
                (Re::Str(s.chars().collect(), true), false)
            }
        })
    }
    fn mquant(&mut self, pre: bool) -> R<(Re, bool)> {
        let (p, neg) = self.minner(pre)?;
        if self.eat('?') {
            return Ok((Re::Opt(Box::new(p)), false));
        }
        if self.eat('*') {
            return Ok((Re::Star(Box::new(p)), false));
        }
        if self.eat('+') {
            return Ok((Re::Plus(Box::new(p)), false));
        }
        Ok((p, neg))
    }
    fn mseq(&mut self, pre: bool) -> R<Vec<Re>> {
        let mut v = vec![];
        while !matches!(self.peek(), None | Some('|') | Some(')')) {
            v.push(self.mquant(pre)?.0);
        }
        Ok(v)
    }
    fn malt(&mut self, pre: bool) -> R<Vec<Re>> {
        if self.peek() == Some('|') {
            return Err(());
        }
        let mut left = self.mseq(pre)?;
        while self.eat('|') {
            let right = self.mseq(pre)?;
            if right.is_empty() {
                return Err(());
            }
            left = vec![Re::Alt(Box::new(Re::Cat(left)), Box::new(Re::Cat(right)))];
        }
        Ok(left)
    }
}

/// Negation as the implementation documents it: pushed to the leaves.
fn negate(re: Re) -> Re {
    let b = |r: Box<Re>| Box::new(negate(*r));
    match re {
        Re::Empty => Re::Never,
        Re::Never => Re::Empty,
        Re::Any => Re::Never,
        Re::Set(s, p) => Re::Set(s, !p),
        Re::Chars(s, p) => Re::Chars(s, !p),
        Re::Str(s, p) => Re::Str(s, !p),
        Re::Cat(v) => Re::Cat(v.into_iter().map(negate).collect()),
        Re::Alt(l, r) => Re::Alt(b(l), b(r)),
        Re::Opt(r) => Re::Opt(b(r)),
        Re::Star(r) => Re::Star(b(r)),
        Re::Plus(r) => Re::Plus(b(r)),
        Re::Rep(n, m, r) => Re::Rep(n, m, b(r)),
        Re::Start(p) => Re::Start(!p),
        Re::End(p) => Re::End(!p),
        Re::Var(v, c, n, p) => Re::Var(v, c, n, !p),
        Re::Cap(_) | Re::CiStr(_) => unreachable!(),
    }
}

pub fn parse_test(tok: &str) -> R<Re> {
    let mut p = P::new(tok);
    let ts = p.tests()?;
    if ts.is_empty() || p.peek().is_some() {
        return Err(());
    }
    let bracketed = ts.iter().any(|t| t.1 == 1);
    let cat = Re::Cat(ts.into_iter().map(|t| t.0).collect());
    Ok(if bracketed { cat } else { Re::Cap(Box::new(cat)) })
}

pub fn parse_action(tok: &str) -> R<Vec<Act>> {
    let mut p = P::new(tok);
    let mut v = vec![];
    while let Some(c) = p.peek() {
        v.push(match c {
            '@' => {
                p.i += 1;
                Act::Lit(p.dots()?, true)
            }
            '"' => Act::Lit(p.quoted()?, true),
            '*' => {
                p.i += 1;
                Act::Capture
            }
            '?' => {
                p.i += 1;
                Act::Ignore
            }
            '%' => {
                p.i += 1;
                let n = p.take(|c| c.is_ascii_alphabetic());
                if n.is_empty() {
                    return Err(());
                }
                Act::Swap(n)
            }
            '#' => {
                p.i += 1;
                let n = p.num()?;
                match p.next() {
                    Some('=') => Act::Set(n, p.num()?),
                    Some('+') => Act::Inc(n),
                    Some('-') => Act::Dec(n),
                    _ => return Err(()),
                }
            }
            _ => return Err(()),
        });
    }
    if v.is_empty() { Err(()) } else { Ok(v) }
}

pub fn parse_match(tok: &str, pre: bool) -> R<Re> {
    let mut p = P::new(tok);
    if p.eat('-') {
        return Ok(Re::Empty);
    }
    let v = p.malt(pre)?;
    if p.peek().is_some() {
        return Err(());
    }
    Ok(Re::Cat(v))
}

fn arg(k: K, tok: Option<&str>) -> R<Arg> {
    if k == K::MaybeChars {
        return Ok(match tok {
            None => Arg::L(vec![]),
            Some(t) => Arg::L(vec![t.to_string()]),
        });
    }
    let t = tok.ok_or(())?;
    let list = |cells: bool| -> R<Vec<String>> {
        t.split(',')
            .map(|d| if cells { cell(d).map(String::from) } else { dots(d) })
            .collect()
    };
    Ok(match k {
        K::One => {
            let s = escape(t, false)?;
            if s.chars().count() != 1 {
                return Err(());
            }
            Arg::S(s)
        }
        K::Chars => Arg::S(escape(t, false)?),
        K::File => Arg::S(t.to_string()),
        K::Name | K::Names2 => {
            if !t.chars().all(|c| c.is_ascii_alphanumeric()) {
                return Err(());
            }
            Arg::S(t.to_string())
        }
        K::X => Arg::D(Some(dots(t)?)),
        K::D => Arg::D(if t == "=" { None } else { Some(dots(t)?) }),
        K::Cell => Arg::S(cell(t)?.to_string()),
        K::Dots2 | K::Cells2 => {
            let l = list(k == K::Cells2)?;
            if l.len() != 2 {
                return Err(());
            }
            Arg::L(l)
        }
        K::DotsList => Arg::L(list(false)?),
        K::CellsList => Arg::L(list(true)?),
        K::Num => Arg::N(t.parse().map_err(|_| ())?),
        K::Pos => Arg::Before(match t {
            "before" => true,
            "after" => false,
            _ => return Err(()),
        }),
        K::Test => Arg::T(parse_test(t)?),
        K::Action => Arg::A(parse_action(t)?),
        K::Pre => Arg::T(parse_match(&escape(t, true)?, true)?),
        K::Post => Arg::T(parse_match(&escape(t, true)?, false)?),
        K::MaybeChars => unreachable!(),
    })
}

pub fn parse_line(line: usize, text: &str) -> R<Rule> {
    let toks: Vec<&str> = text.split_ascii_whitespace().collect();
    let mut i = 0;
    let mut r = Rule {
        line,
        dir: OnlyDir::Both,
        nocross: false,
        before: vec![],
        after: vec![],
        mods: vec![],
        op: "",
        a: vec![],
    };
    let mut level = 0;
    match toks.get(i) {
        Some(&"nofor") => {
            r.dir = OnlyDir::Backward;
            i += 1;
            level = 1
        }
        Some(&"noback") => {
            r.dir = OnlyDir::Forward;
            i += 1;
            level = 1
        }
        _ => {}
    }
    if toks.get(i) == Some(&"nocross") {
        r.nocross = true;
        i += 1;
        level = 2;
    }
    while let Some(&(t @ ("before" | "after"))) = toks.get(i) {
        // accepted before every opcode; only the literal rules heed it
        let n = toks.get(i + 1).ok_or(())?;
        r.mods.push((t == "after", n.to_string()));
        i += 2;
    }
    while let Some(&("empmatchbefore" | "empmatchafter")) = toks.get(i) {
        i += 1;
    }
    let op = toks.get(i).ok_or(())?;
    i += 1;
    let (name, allowed, ks) = SPEC.iter().find(|s| s.0 == *op).ok_or(())?;
    if level > *allowed {
        return Err(());
    }
    r.op = name;
    for k in *ks {
        if *k == K::Names2 {
            // at least two names; everything that follows belongs to the list
            let rest = &toks[i.min(toks.len())..];
            if rest.len() < 2 {
                return Err(());
            }
            for t in rest {
                r.a.push(Arg::S(t.to_string()));
            }
            break;
        }
        r.a.push(arg(*k, toks.get(i).copied())?);
        i += 1;
    }
    let count = |i: usize| r.s(i).chars().count();
    let ok = match *name {
        "swapcd" => count(1) == r.l(2).len(),
        "swapdd" => r.l(1).len() == r.l(2).len(),
        "swapcc" => count(1) == count(2),
        _ => true,
    };
    if ok { Ok(r) } else { Err(()) }
}

pub fn is_rule_line(line: &str) -> bool {
    let t = line.trim();
    !t.is_empty() && !t.starts_with('#')
}

/// Parse a table held in memory. `Err` carries the 1-based numbers of the offending lines.
pub fn parse_table(text: &str) -> Result<Vec<Rule>, Vec<usize>> {
    let mut rules = vec![];
    let mut errs = vec![];
    for (i, l) in text.lines().enumerate() {
        if !is_rule_line(l) {
            continue;
        }
        match parse_line(i + 1, l) {
            Ok(r) => rules.push(r),
            Err(()) => errs.push(i + 1),
        }
    }
    if errs.is_empty() { Ok(rules) } else { Err(errs) }
}
