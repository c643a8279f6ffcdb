//! Character definitions, classes and swap maps a table defines.
use super::parse::{OnlyDir, Rule};
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub type Classes = HashMap<String, BTreeSet<char>>;

#[derive(Default, Debug)]
pub struct Ctx {
    pub defs: HashMap<char, String>,
    pub text: Classes,
    pub dots: Classes,
    pub swaps: HashMap<String, BTreeMap<char, String>>,
}

pub fn has(cl: &Classes, class: &str, c: char) -> bool {
    cl.get(class).is_some_and(|s| s.contains(&c))
}

fn put(cl: &mut Classes, class: &str, c: char) {
    cl.entry(class.to_string()).or_default().insert(c);
}

pub const CHAR_OPS: &[&str] = &[
    "space", "punctuation", "digit", "letter", "lowercase", "uppercase", "litdigit", "sign", "math", "hyphen",
    "decpoint",
];

impl Ctx {
    pub fn new(rules: &[&Rule]) -> Ctx {
        let mut x = Ctx::default();
        for r in rules {
            if CHAR_OPS.contains(&r.op) {
                let (c, d) = (r.ch(0), r.x(1));
                x.defs.entry(c).or_insert_with(|| d.to_string());
                let classes: &[&str] = match r.op {
                    "hyphen" | "decpoint" => &["punctuation"],
                    "lowercase" => &["lowercase", "letter"],
                    "uppercase" => &["uppercase", "letter"],
                    o => &[o],
                };
                for cl in classes {
                    put(&mut x.text, cl, c);
                    let mut it = d.chars();
                    if let (Some(cell), None) = (it.next(), it.next()) {
                        put(&mut x.dots, cl, cell);
                    }
                }
            } else if r.op == "always" && r.s(0).chars().all(char::is_alphabetic) {
                for cell in r.d(1).unwrap_or("=").chars() {
                    put(&mut x.dots, "letter", cell);
                }
            }
        }
        for r in rules {
            match r.op {
                "base" => {
                    let (name, derived, base) = (r.s(0), r.ch(1), r.ch(2));
                    if let Some(d) = x.defs.get(&base).cloned() {
                        x.defs.entry(derived).or_insert(d);
                        put(&mut x.text, name, derived);
                        if name == "uppercase" || name == "lowercase" {
                            put(&mut x.text, "letter", derived);
                        }
                    }
                }
                "attribute" => {
                    for c in r.s(1).chars() {
                        x.put_with_dot(r.s(0), c);
                    }
                }
                "seqdelimiter" | "seqbeforechars" | "seqafterchars" => {
                    for c in r.s(0).chars() {
                        x.put_with_dot(r.op, c);
                    }
                }
                "swapcc" => {
                    let m = r.s(1).chars().zip(r.s(2).chars().map(|c| c.to_string())).collect();
                    for c in r.s(1).chars() {
                        x.put_with_dot(r.s(0), c);
                    }
                    x.swaps.insert(r.s(0).to_string(), m);
                }
                "swapcd" => {
                    let m = r.s(1).chars().zip(r.l(2).iter().cloned()).collect();
                    for c in r.s(1).chars() {
                        x.put_with_dot(r.s(0), c);
                    }
                    x.swaps.insert(r.s(0).to_string(), m);
                }
                "swapdd" => {
                    let cells: Vec<char> = r.l(1).iter().map(|s| s.chars().next().unwrap()).collect();
                    for c in &cells {
                        put(&mut x.text, r.s(0), *c);
                        put(&mut x.dots, r.s(0), *c);
                    }
                    x.swaps.insert(r.s(0).to_string(), cells.into_iter().zip(r.l(2).iter().cloned()).collect());
                }
                _ => {}
            }
        }
        x
    }

    fn put_with_dot(&mut self, class: &str, c: char) {
        put(&mut self.text, class, c);
        if let Some(d) = self.defs.get(&c) {
            let mut it = d.chars();
            if let (Some(cell), None) = (it.next(), it.next()) {
                put(&mut self.dots, class, cell);
            }
        }
    }

    pub fn implicit(&self, chars: &str) -> Result<String, ()> {
        chars.chars().map(|c| self.defs.get(&c).map(String::as_str).ok_or(())).collect()
    }
}

pub fn filter(rules: &[Rule], forward: bool) -> Vec<&Rule> {
    rules
        .iter()
        .filter(|r| r.applies(forward))
        .collect()
}
