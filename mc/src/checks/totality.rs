//! Loading and translating always come to an end with a result.
use super::history::{B0, FEATURES};
use super::*;
use crate::model::{Span, parse};

fn s(class: &str, a: usize, b: usize) -> Span {
    Span { class: class.into(), start: a, end: b }
}

/// options and emphasis, well-formed or not
fn odd_spans() -> Vec<Vec<Span>> {
    let m = usize::MAX;
    vec![
        vec![],
        vec![s("em", 0, 3)],
        vec![s("em", 1, 2), s("bo", 0, 9), s("computer_braille", 2, 4)],
        vec![s("em", 5, m), s("bo", m, m), s("tr", 0, 0), s("em", 3, 1)],
        vec![s("computer_braille", 0, m), s("computer_braille", 1, 1)],
        vec![s("#mode", 127, 0), s("#cursor", 1, 0), s("em", 0, 2)],
        vec![s("#mode", 85, 0), s("#cursor", m, 0)],
    ]
}

fn odd_inputs() -> Vec<String> {
    let mut v = lines(&[
        "", " ", "a", "ab", "aab ab", "abc-abc", "A", "AB ABC", "1", "11a1", "a\0b", "\n\t", "é", "ÀÉ", "ßẞİıǅ", "😀ab", "⠁⠃", "⠀⠠⠁⠼⠁", "\u{f0001}\u{f7fff}",
        "\u{2800}\u{28ff}", "\\x0041", "a,-$(1)", "((a))", "e\u{301}a", "\u{10ffff}", "🏳\u{200d}🌈", "ab\u{202e}ba", "\u{feff}", "\u{e000}", "ÿab",
    ]);
    v.push("ab".repeat(40));
    v.push("A1 ".repeat(30));
    v.push("⠁⠠".repeat(30));
    v
}

/// One file of the known findings: "known: property=ID case=NAME text"
pub fn is_known(prop: &str, case: &str) -> Option<String> {
    let f = std::fs::read_to_string(format!("{}/known_findings.txt", crate::root())).unwrap_or_default();
    let head = format!("known: property={prop} case={case} ");
    f.lines().find_map(|l| l.strip_prefix(&head).map(String::from))
}

/// Deeply nested or very long patterns, each tried in a process of its own.
pub fn deep_table(name: &str, n: usize) -> Option<String> {
    let base = "letter a 1\nletter b 12\n";
    let rule = match name {
        "nested-groups" => format!("match {}a{} b - 1", "(".repeat(n), ")".repeat(n)),
        "nested-negations" => format!("match {}a b - 1", "!".repeat(n)),
        "context-negations" => format!("context {}\"a\" @1", "!".repeat(n)),
        "context-brackets" => format!("context {}\"a\"{} @1", "[".repeat(n), "]".repeat(n)),
        "alternatives" => format!("match {}a b - 1", "a|".repeat(n)),
        "context-strings" => format!("context {} @1", "\"a\"".repeat(n)),
        "attributes" => format!("match {} b - 1", "%a".repeat(n)),
        "characters" => format!("match {} b - 1", "a".repeat(n)),
        "literal" => format!("always {} 1", "a".repeat(n)),
        "dots" => format!("always a {}1", "1-".repeat(n)),
        "actions" => format!("context \"a\" {}", "@1".repeat(n)),
        "set" => format!("match [{}] b - 1", "ab".repeat(n)),
        "swap" => format!("swapcc foo {0} {0}\ncontext %foo. %foo", "ab".repeat(n)),
        "quantifiers" => format!("context {} @1", "$l0-255".repeat(100)),
        "rules" => (0..n).map(|i| format!("always {} 1\n", "ab".repeat(1 + i % 50))).collect(),
        "correct-string" => format!("correct \"{}\" \"a\"", "a".repeat(n)),
        _ => return None,
    };
    Some(format!("{base}{rule}\n"))
}

pub const DEEP: &[&str] = &[
    "nested-groups", "nested-negations", "context-negations", "context-brackets", "alternatives", "context-strings", "attributes", "characters",
    "literal", "dots", "actions", "set", "swap", "quantifiers", "rules", "correct-string",
];

pub fn deep(name: &str, n: &str) -> i32 {
    let t = deep_table(name, n.parse().unwrap()).unwrap();
    for fwd in [true, false] {
        if let Ok(tr) = build(&t, fwd) {
            for i in ["ab", "aaab", "⠁⠃", ""] {
                let _ = tr.translate(i);
            }
        }
    }
    0
}

pub fn p01(r: &mut Run) {
    // every opcode with every operand and prefix
    let mut t: Vec<String> = op_set(r).into_iter().map(|l| format!("{B0}{l}\n")).collect();
    t.sort();
    t.dedup();
    r.suite(Suite::new("single rules", B0, t, FB, if r.thorough { odd_inputs() } else { odd_inputs().into_iter().step_by(3).collect() }).with_spans(odd_spans()[..r.b(3, 7)].to_vec()).totality());
    // every pair of rules
    let mut rules: Vec<String> = parse::opcodes().map(|(o, _, _)| format!("{o} {}\n", loading::sample_args(o).join(" "))).collect();
    rules.retain(|l| !l.starts_with("include"));
    rules.extend(lines(&[
        "context $l[\"b\"] @4\n", "context []\"a\" @4\n", "context \"a\" *#1+\n", "context `[$a.] *\n", "correct [] \"a\"\n", "correct \"a\"[] \"a\"\n", "correct $l. ?\n",
        "pass2 [] @1\n", "pass2 $a[]~ *@1\n", "pass3 `[$l0-9] @1*\n", "pass4 @1 @1-1\n", "match a* b c* 4\n", "match !a+ ab %_? 46\n", "match - a - =\n", "compbrl a\n", "compbrl \\s\n",
        "swapcd foo ab 1,2\ncontext %foo. %foo\n", "base uppercase A b\n", "base uppercase b A\n", "endcapsphrase after 6\nbegcapsphrase 6-6\nlencapsphrase 0\n", "lencapsphrase -1\nbegcapsphrase 6\n",
        "lenemphphrase em -1\nbegemphphrase em 6\nbegemphword em 5\nemphclass em\n", "midnum a 1\nnumsign 3456\nlitdigit 1 1\n", "numericmodechars ab1\nnumsign 1\n", "capsletter 1\nbegcapsword 1-1\nendcapsword 1\n",
        "nocross always ab 4\n", "before x always a 2\nattribute x a\n", "undefined 1-2-3\n", "prepunc a 4\npostpunc a 5\n", "always a =\n", "always \\s 0\n", "letter \\xffff 1\n", "always \\y10fff 1\n",
    ]));
    rules.extend(FEATURES.iter().map(|f| f.to_string()));
    let mut t = vec![];
    for a in &rules {
        for b in &rules {
            t.push(format!("{B0}{a}{b}"));
            if r.thorough {
                t.push(format!("{a}{b}{B0}"));
            }
        }
    }
    r.suite(Suite::new("pairs of rules", B0, t, FB, odd_inputs().into_iter().skip(1).step_by(r.b(4, 1)).collect()).with_spans(odd_spans()[1..r.b(4, 7)].to_vec()).totality());
    // every option
    let t: Vec<String> = FEATURES.iter().map(|f| format!("{B0}{f}")).chain([format!("{B0}{}", FEATURES.concat()), String::new()]).collect();
    let mut sp = vec![];
    for m in 0..128 {
        sp.push(vec![s("#mode", m, 0), s("em", 1, 3)]);
    }
    for c in [0, 1, 2, 3, 5, 80, 81, usize::MAX / 2, usize::MAX] {
        for m in [0, 2, 8, 10, 127] {
            sp.push(vec![s("#cursor", c, 0), s("#mode", m, 0)]);
        }
    }
    r.suite(Suite::new("options", B0, t.clone(), FB, odd_inputs()).with_spans(sp).totality());
    // every span over every end, for well-known and unknown classes
    let ends = [0, 1, 2, 4, 5, 6, 100, usize::MAX - 1, usize::MAX];
    let mut sp = vec![];
    for c in ["em", "bo", "computer_braille", "nosuch", ""] {
        for a in ends {
            for b in ends {
                sp.push(vec![s(c, a, b)]);
                sp.push(vec![s("em", 1, 3), s(c, a, b)]);
            }
        }
    }
    r.suite(Suite::new("spans", B0, t.clone(), FB, lines(&["", "a", "a b", "Ab 1a", "éa ab", "⠁⠃"])).with_spans(sp).totality());
    // every character
    let chars: Vec<String> = (0u32..0x110000).filter_map(char::from_u32).collect::<Vec<_>>().chunks(r.b(16, 1)).map(|c| c.iter().flat_map(|c| [*c, 'a']).collect()).collect();
    let mut every = vec![String::new(), format!("{B0}capsletter 6\nundefined 26\nnumsign 3456\nlitdigit 1 1\nletsign 56\ncontraction ab\n"), format!("{B0}compbrl a\nalways a 4-5\n")];
    if r.thorough {
        every.extend(t.iter().cloned());
    }
    r.suite(Suite::new("every character", B0, every, FB, chars).totality());
    // long texts and nested patterns
    let mut ins = vec![];
    for p in ["a", "ab", "A", "1", "1a", " ", ",", "Ab-", "é", "⠁", "⠠⠁", "⠼⠁⠃", "ab1 A,-$"] {
        for n in [100, 255, 256, 257, r.b(400, 1000)] {
            ins.push(p.repeat(n));
        }
    }
    r.suite(Suite::new("long texts", B0, t, FB, ins).with_spans(odd_spans()[..r.b(2, 7)].to_vec()).totality());
    let mut t = vec![];
    for n in (0..=64).step_by(r.b(4, 1)) {
        for l in [
            format!("match {}a{} b - 1", "(".repeat(n), ")".repeat(n)), format!("match {}a b - 1", "!".repeat(n)), format!("match - b {}a 1", "a|".repeat(n)),
            format!("context {}\"a\" @1", "!".repeat(n)), format!("context {}\"a\"{} @1", "[".repeat(n), "]".repeat(n)), format!("context {}\"a\" @1", "\"a\"".repeat(n)),
            format!("match {}a b - 1", "%a".repeat(n)), format!("match {}b - 1", "a*".repeat(n % 10) + " "), format!("context {}\"b\" @1", "$l.".repeat(n % 8)),
            format!("context $l{n}-{} @1", 2 * n), format!("match {}a{} b - 1", "(".repeat(n), ")*".repeat(n)), format!("match {}a{} b - 1", "!(".repeat(n), ")".repeat(n)),
            format!("always {}b 1", "a".repeat(n)), format!("correct {}~ \"b\"", "\"a\"".repeat(n)), format!("context _{n}\"a\"[\"b\"] @1"), format!("context \"a\" {}", "@1".repeat(n)),
        ] {
            t.push(format!("{B0}{l}\n"));
        }
    }
    r.suite(Suite::new("nesting", B0, t, FB, ["ab", "aaaaaaaab", "bbbb", "⠁⠃⠁", ""].iter().map(|s| s.to_string()).chain(["a".repeat(100), "ab".repeat(60)]).collect()).totality());
    // extreme sizes, each in its own process
    let me = std::env::current_exe().unwrap();
    for name in DEEP {
        for n in ["2000", "100000"] {
            if *name == "swap" && n != "2000" || *name == "rules" && n != "2000" {
                continue;
            }
            let st = std::process::Command::new(&me).args(["deep", name, n]).stderr(std::process::Stdio::null()).status();
            r.add("extreme_patterns", 1);
            r.totals.traces += 1;
            if st.as_ref().map(|s| s.code() == Some(0)).unwrap_or(false) {
                continue;
            }
            match is_known("P01", &format!("{name}-{n}")) {
                Some(k) => r.known.push(format!("{name}-{n} {k}")),
                None => r.violate("deep", format!("case {name}-{n}\nexpected a table or an error\ngot {st:?}\n")),
            }
        }
    }
}

fn op_set(r: &Run) -> Vec<String> {
    // the second operands are varied together only when thorough, and there P02 does it
    let quick = Run::new(&r.prop, false);
    loading::op_lines(&quick)
}
