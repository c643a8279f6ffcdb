//! The reference model: an executable specification of table parsing and translation.
pub mod constr;
pub mod ctx;
pub mod indic;
pub mod parse;
pub mod prim;
pub mod re;
pub mod trie;
pub mod world;

pub use indic::Span;
pub use prim::Step;

use parse::{Act, Rule};
use prim::{Multi, Pat, Prim};

pub enum Stage {
    Multi(u8, Multi),
    Prim(Box<Prim>),
}

pub struct Model {
    pub stages: Vec<Stage>,
}

#[derive(Debug, PartialEq, Clone)]
pub enum Reject {
    Lines(Vec<usize>),
    /// of table files, in order
    Errors(Vec<String>),
    Compile,
}

pub struct Run {
    pub output: String,
    /// per executed stage: 0 correct, 1 main, 2..4 pass2..pass4
    pub stages: Vec<(u8, Vec<Step>)>,
    pub steps: u64,
}

impl Model {
    pub fn from_source(text: &str, fwd: bool) -> Result<Model, Reject> {
        if world::is_world(text) {
            return world::World::parse(text).model(fwd);
        }
        let rules = parse::parse_table(text).map_err(Reject::Lines)?;
        if rules.iter().any(|r| r.op == "include") {
            // included tables cannot be found from memory
            return Err(Reject::Lines(vec![]));
        }
        Model::compile(&rules, fwd, None)
    }

    pub fn compile(rules: &[Rule], fwd: bool, hyph: Option<constr::Hyph>) -> Result<Model, Reject> {
        let mine = ctx::filter(rules, fwd);
        let all = ctx::Ctx::new(&mine);
        let mut stages = vec![];
        for (no, op) in ["correct", "", "pass2", "pass3", "pass4"].iter().enumerate() {
            if no == 1 {
                continue;
            }
            let cl = if no == 0 { &all.text } else { &all.dots };
            let rs: Vec<&&Rule> = mine.iter().filter(|r| r.op == *op).collect();
            if rs.is_empty() {
                continue;
            }
            let mut pats = vec![];
            for r in rs {
                if !fwd && !r.acts(1).iter().any(|a| matches!(a, Act::Lit(..))) {
                    continue;
                }
                pats.push(Pat::new(r, cl, &all).map_err(|_| Reject::Compile)?);
            }
            stages.push(Stage::Multi(no as u8, Multi { pats }));
        }
        let prim = Prim::new(mine, fwd, hyph).map_err(|_| Reject::Compile)?;
        let at = stages.iter().filter(|s| matches!(s, Stage::Multi(0, _))).count();
        stages.insert(at, Stage::Prim(Box::new(prim)));
        if !fwd {
            stages.reverse();
        }
        Ok(Model { stages })
    }

    pub fn run(&self, input: &str, spans: &[Span]) -> Run {
        let mut cur: Vec<char> = input.chars().collect();
        let mut r = Run { output: String::new(), stages: vec![], steps: 0 };
        let mut spans = spans.to_vec();
        for st in &self.stages {
            let (no, steps) = match st {
                Stage::Multi(no, m) => (*no, m.run(&cur)),
                Stage::Prim(p) => (1, p.run(&cur, &spans)),
            };
            let text: String = steps.iter().map(|s| s.to.as_str()).collect();
            if no == 0 {
                spans = after_corrections(&spans, &steps);
            }
            cur = text.chars().collect();
            r.output = text;
            r.steps += steps.len() as u64;
            r.stages.push((no, steps));
        }
        r
    }
}

/// Where the spans lie in the corrected text: each character of a replacement counts as the one it
/// replaces, the surplus ones as the last.
fn after_corrections(spans: &[Span], steps: &[Step]) -> Vec<Span> {
    let mut from: Vec<usize> = vec![];
    let mut at = 0;
    for s in steps {
        let (len, new) = (s.from.chars().count(), s.to.chars().count());
        for i in 0..new {
            from.push(if i < len { at + i } else { at + len.max(1) - 1 });
        }
        at += len;
    }
    let place = |p: usize| from.iter().filter(|f| **f < p).count();
    spans.iter().map(|s| Span { class: s.class.clone(), start: place(s.start), end: place(s.end) }).collect()
}
