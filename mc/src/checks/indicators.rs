//! Indicators: numbers, capitals, emphasis, letter sign, computer braille; and their inverses.
use super::*;
use crate::model::Span;

pub fn p09(r: &mut Run) {
    const T: &str = "\
space \\s 0
punctuation , 2
punctuation . 256
punctuation - 36
letter a 1
letter b 12
digit 1 2
digit 2 23
litdigit 1 16
litdigit 2 126
";
    let ins = words("12a,. ", 0, r.b(5, 7));
    let t = product(
        T,
        &[
            &["", "numsign 3456", "numsign 3456-4"],
            &["", "nonumsign 56"],
            &["", "numericnocontchars ab", "numericnocontchars a\nnumericnocontchars b", "numericnocontchars .b"],
            &["", "numericmodechars .,", "numericmodechars ,", "numericmodechars a"],
            &["", "midnum , 6", "decpoint . 46", "midnum . 4-6\ndecpoint , 46", "midendnumericmodechars ,"],
        ],
    );
    r.suite(Suite::new("modes", T, t, F, ins));
    // contractions and number rules inside and around numbers
    let pool = lines(&[
        "always 12 4", "always 1a 5", "word 1 45", "begnum , 46", "midnum , 456", "endnum , 56", "endnum a 4-4",
        "always 1 5-5", "always ,1 4-5", "begnum a 6-6", "joinnum a 5-6", "litdigit 1 4-1", "context \"1\" @14",
    ]);
    let base = format!("{T}numsign 3456\nnonumsign 56\nnumericnocontchars ab\n");
    r.suite(Suite::new("rules", &base, perms(&base, &pool, 0, r.b(2, 3)), F, words("12a, ", 0, r.b(5, 6))));
    // which characters count as digits
    let defs = ["digit 3 25", "litdigit 3 14", "attribute litdigit 4", "attribute digit 4", "base litdigit 4 1", "sign 4 256"];
    let b2 = format!("{T}numsign 3456\nnonumsign 56\nnumericnocontchars a\nmidnum , 6\n");
    r.suite(Suite::new("digits", &b2, subsets(&b2, &defs, 0, 6), F, words("1234a,", 0, r.b(4, 6))));
    let only = "space \\s 0\nletter a 1\ndigit 1 2\nnumsign 3456\nnonumsign 56\nnumericnocontchars a\n";
    r.suite(Suite::new("no literary digits", only, product(only, &[&["", "litdigit 2 4"], &["", "always 11 4"]]), F, words("12a ", 0, r.b(5, 6))));
    let rep = product(T, &[&["numsign 3456", "numsign 3\nnumsign 4"], &["", "nonumsign 5\nnonumsign 6"], &["numericnocontchars a", "numericnocontchars a\nnumericnocontchars ,"], &["", "numericmodechars .\nnumericmodechars ,"], &["", "midnum , 6\nmidnum . 5"]]);
    r.suite(Suite::new("repeated settings", T, rep, F, words("12a,.", 0, r.b(5, 6))));
}

pub const CAPS: &str = "\
space \\s 0
punctuation - 36
lowercase a 1
lowercase b 12
base uppercase A a
base uppercase B b
digit 1 16
";

pub fn p10(r: &mut Run) {
    let t = product(
        CAPS,
        &[
            &["", "capsletter 6"],
            &["", "begcapsword 6-6", "begcapsword 6-6\nendcapsword 6-3", "endcapsword 6-3"],
            &["", "begcaps 4", "begcaps 4\nendcaps 5", "endcaps 5"],
            &["", "begcapsphrase 6-6-6"],
            &["", "endcapsphrase before 45", "endcapsphrase after 46"],
            &["", "lencapsphrase 1", "lencapsphrase 3"],
            &["", "capsmodechars -"],
        ],
    );
    r.suite(Suite::new("words", CAPS, t.clone(), F, words("aAB -", 0, r.b(4, 6))));
    r.suite(Suite::new("phrases", CAPS, t.clone(), F, seqs(&["A", "AB", " ", "-", "a", "1"], 0, r.b(4, 5))));
    let three: Vec<String> = seqs(&["A ", "AB ", "A-B ", "Ab ", "1 ", "- "], 0, r.b(4, 5));
    r.suite(Suite::new("longer phrases", CAPS, t, F, three));
    // how capitals are defined, other characters, contractions
    const T2: &str = "space \\s 0\npunctuation - 36\npunctuation , 2\nletter a 1\nletter b 12\nsign $ 4-1\n";
    let t2 = product(
        T2,
        &[
            &["base uppercase A a", "uppercase A 17", "uppercase A 17\nbase uppercase A a", "letter A 17", "attribute uppercase A\nletter A 17"],
            &["base uppercase B b", "uppercase B 127", ""],
            &["capsletter 6", "begcapsword 6-6", "capsletter 6\nbegcapsword 6-6\nendcapsword 6-3", "capsletter 6\nbegcapsword 6-6\nbegcapsphrase 6-6-6\nendcapsphrase after 46"],
            &["", "always ab 126", "word ab 126\nalways ba 4", "always b$ 45"],
            &["", "lencapsphrase 2", "lencapsphrase 0", "lencapsphrase 4"],
            &["", "capsmodechars $", "capsmodechars -\ncapsmodechars ,"],
        ],
    );
    r.suite(Suite::new("definitions", T2, t2, F, words("aAB $-", 0, r.b(4, 5))));
    let t3 = product(
        CAPS,
        &[
            &["capsletter 6", "capsletter 6\ncapsletter 5"],
            &["", "begcapsword 6-6", "begcapsword 6-6\nbegcapsword 5-5"],
            &["", "begcapsphrase 6-6-6", "begcapsphrase 6-6-6\nbegcapsphrase 5-5-5"],
            &["", "endcapsphrase before 45\nendcapsphrase after 46", "endcapsphrase after 46\nendcapsphrase before 45"],
            &["", "lencapsphrase 1\nlencapsphrase 3", "lencapsphrase 3\nlencapsphrase 1"],
            &["", "capsnocont", "numsign 3456\nlitdigit 1 2", "letsign 56"],
        ],
    );
    r.suite(Suite::new("repeated settings", CAPS, t3, F, seqs(&["A", "B", "a", " ", "1"], 0, r.b(5, 6))));
    let t4 = product(
        CAPS,
        &[
            &["capsletter 6", "begcapsword 6-6\nendcapsword 6-3", "capsletter 6\nbegcapsword 6-6\nendcapsword 6-3", "capsletter 6\nbegcaps 4\nendcaps 5",
              "capsletter 6\nbegcapsword 6-6\nendcapsword 6-3\nbegcapsphrase 6-6-6\nendcapsphrase before 45\nlencapsphrase 2",
              "begcapsphrase 6-6-6\nendcapsphrase after 45\nlencapsphrase 1"],
            ACROSS,
            &["", "always aa 5", "match - ba - 46-1"],
            &["", "noback correct \"bb\" \"Ab\""],
        ],
    );
    r.suite(Suite::new("rules across signs", CAPS, t4, F, words("aAbB ", 0, r.b(4, 6))));
}

/// rules that may cover a place where a sign stands
const ACROSS: &[&str] = &[
    "", "always ab 123", "word ab 123", "begword ab 123\nendword ba 456", "partword ab 123", "match - ab - 123", "match a b - 123\nalways b\\sa 46",
    "context \"ab\" @123", "context \"a\"[\"b\"] @123", "context [$l2] @123", "context \"a\"[\"bab\"] *", "context [] @5", "nocross always ab 123",
    "always aba 14\nalways ab 123\nalways ba 3", "comp6 ab 123", "always a\\sb 123", "joinword ab 123", "largesign ab 123", "lowword ab 123", "prepunc ab 123\nsuffixableword ab 4",
    "swapcd foo abAB 12,23,13,45\ncontext $l2 %foo", "repeated ab 123", "before letter always ab 123", "always ab =",
];

/// all spans within 0..=n (non-empty)
fn all_spans(class: &str, n: usize) -> Vec<Span> {
    let mut v = vec![];
    for a in 0..n {
        for b in a + 1..=n {
            v.push(Span { class: class.into(), start: a, end: b });
        }
    }
    v
}

fn pairs(a: &[Span], b: &[Span]) -> Vec<Vec<Span>> {
    let mut v = vec![];
    for x in a {
        for y in b {
            v.push(vec![x.clone(), y.clone()]);
        }
    }
    v
}

pub fn p11(r: &mut Run) {
    const T: &str = "space \\s 0\npunctuation - 36\nletter a 1\nletter b 12\nemphclass em\n";
    let mut t = product(
        T,
        &[
            &["", "emphletter em 4"],
            &["", "begemphword em 45", "begemphword em 45\nendemphword em 46"],
            &["", "begemphphrase em 5", "begemphphrase em 5\nendemphphrase em before 56", "begemphphrase em 5\nendemphphrase em after 56"],
            &["", "lenemphphrase em 1", "lenemphphrase em 2"],
            &["", "begemph em 6", "begemph em 6\nendemph em 3"],
            &["", "emphmodechars em -", "noemphchars em -"],
        ],
    );
    let n = r.b(5, 6);
    let mut singles: Vec<Vec<Span>> = all_spans("em", n).into_iter().map(|s| vec![s]).collect();
    singles.extend(all_spans("other", 2).into_iter().map(|s| vec![s]));
    r.suite(Suite::new("one span", T, t.clone(), F, words("a -", 0, n)).with_spans(singles));
    t.retain(|t| !t.contains("noemphchars"));
    let p = pairs(&all_spans("em", 4), &all_spans("em", 4));
    r.suite(Suite::new("two spans", T, t, F, words("a ", 4, 4)).with_spans(p));
    // two classes: nesting and order
    let t2 = product(
        &format!("{T}emphclass bo\n"),
        &[
            &["begemph em 6\nendemph em 3", "emphletter em 4\nbegemphword em 45\nendemphword em 46", "begemphphrase em 5\nendemphphrase em after 56\nlenemphphrase em 1", "begemph em 6"],
            &["begemph bo 6-1\nendemph bo 3-1", "emphletter bo 4-1\nbegemphword bo 45-1\nendemphword bo 46-1", "begemphphrase bo 5-1\nendemphphrase bo after 56-1\nlenemphphrase bo 1"],
            &["", "begemph tr 4-1\nendemph tr 4-2"],
        ],
    );
    let b2 = format!("{T}emphclass bo\n");
    let p = pairs(&all_spans("em", 4), &all_spans("bo", 4));
    let q: Vec<Vec<Span>> = p.iter().map(|v| vec![v[1].clone(), v[0].clone()]).collect();
    r.suite(Suite::new("two classes", &b2, t2.clone(), F, words("a ", 4, r.b(4, 5))).with_spans(p));
    r.suite(Suite::new("two classes, reversed", &b2, t2.clone(), F, words("a ", 4, r.b(4, 4))).with_spans(q));
    let mut three = vec![];
    let s3 = all_spans("em", 3);
    for a in &s3 {
        for b in all_spans("bo", 3) {
            for c in all_spans("tr", 3) {
                three.push(vec![a.clone(), b.clone(), c.clone()]);
            }
        }
    }
    r.suite(Suite::new("three classes", &b2, t2, F, words("a ", 3, 3)).with_spans(three));
    // longer phrases, default phrase length
    let t3 = product(T, &[
        &["emphletter em 4\nbegemphword em 45", "begemphword em 45\nendemphword em 46"],
        &["begemphphrase em 5\nendemphphrase em before 56", "begemphphrase em 5\nendemphphrase em after 56", "begemphphrase em 5", "begemphphrase em 5\nbegemphphrase em 5-5\nendemphphrase em before 56\nendemphphrase em after 56-6"],
        &["", "lenemphphrase em 3", "lenemphphrase em 5", "lenemphphrase em 5\nlenemphphrase em 2"],
        &["", "numsign 3456\nlitdigit 1 16", "capsletter 6\nbase uppercase A a"],
    ]);
    let ins = vec!["a b a b a", "ab ab ab ab", "a  b a -b", "a-b a", "A 1 a b", "ab-a b ab a", " a b ", "é a é b"];
    r.suite(Suite::new("phrases", T, t3, F, lines(&ins)).with_spans(all_spans("em", 12).into_iter().map(|s| vec![s]).collect()));
    // spans that do not fit the text
    let wild = [(0, 0), (1, 1), (0, 9), (3, 9), (4, 4), (4, 5), (5, 9), (9, 12), (0, usize::MAX), (2, usize::MAX)];
    let mut ws: Vec<Vec<Span>> = vec![vec![]];
    for (a, b) in wild {
        ws.push(vec![Span { class: "em".into(), start: a, end: b }]);
        for (c, d) in wild {
            ws.push(vec![Span { class: "em".into(), start: a, end: b }, Span { class: "bo".into(), start: c, end: d }]);
        }
    }
    let t4 = product(&b2, &[
        &["begemph em 6\nendemph em 3", "emphletter em 4\nbegemphword em 45\nendemphword em 46", "begemphphrase em 5\nendemphphrase em after 56\nlenemphphrase em 1"],
        &["begemph bo 6-1\nendemph bo 3-1", "emphletter bo 4-1\nbegemphword bo 45-1"],
    ]);
    r.suite(Suite::new("ill-fitting spans", &b2, t4.clone(), F, words("a ", 0, 4)).with_spans(ws));
    // rules for several characters against signs inside their text
    let signs: &[&str] = &[
        "begemph em 6\nendemph em 3", "emphletter em 4\nbegemphword em 45\nendemphword em 46", "begemphphrase em 5\nendemphphrase em after 56\nlenemphphrase em 1",
        "begemphword em 45", "begemph em 6", "emphletter em 4",
    ];
    let one: Vec<Vec<Span>> = all_spans("em", 4).into_iter().map(|s| vec![s]).collect();
    r.suite(Suite::new("rules across signs", T, product(T, &[signs, ACROSS]), F, words("ab ", 2, r.b(4, 5))).with_spans(one));
    let p = pairs(&all_spans("em", 3), &all_spans("bo", 4));
    let two = product(&b2, &[&signs[..2], &["begemph bo 6-1\nendemph bo 3-1", "emphletter bo 4-1\nbegemphword bo 45-1\nendemphword bo 46-1"], ACROSS]);
    r.suite(Suite::new("rules across signs of two classes", &b2, two, F, words("ab", 4, 4)).with_spans(p));
    // spans through corrections
    let fix = [
        "correct \"ab\" \"b\"", "correct \"a\" \"bb\"", "correct \"b\" ?", "correct \"ab\" \"ba\"", "correct \"a\"[\"b\"]\"a\" \"aab\"", "correct []\"b\" \" \"",
        "correct \"  \" \" \"", "correct [\"b\"]\"a\" *\"a\"", "correct \"a\"[] \"b\"", "swapcc foo ab ba\ncorrect $l2 %foo", "nofor correct \"a\" \"bb\"", "correct \"baba\" \" \"",
        "correct \" \" ?\ncorrect \"a\" \"bab\"", "correct [\"a\"]\"b\" \"a \"",
    ];
    let one: Vec<Vec<Span>> = all_spans("em", 5).into_iter().map(|s| vec![s]).collect();
    r.suite(Suite::new("corrected texts", T, product(T, &[signs, &fix, &["", "always ab 123"]]), F, words("ab ", 0, r.b(5, 6))).with_spans(one));
    let mut ws = pairs(&all_spans("em", 3), &all_spans("bo", 3));
    for b in [5, 9, usize::MAX] {
        ws.push(vec![Span { class: "em".into(), start: 1, end: b }, Span { class: "bo".into(), start: b - 1, end: b }]);
    }
    let t5: Vec<String> = t4.iter().flat_map(|t| fix.iter().map(move |f| format!("{t}{f}\n"))).collect();
    r.suite(Suite::new("corrected texts, two classes", &b2, t5, F, words("ab", 0, 4)).with_spans(ws));
    // settings given more than once: in each order, and next to those of another class
    let two = format!("{T}punctuation , 2\nemphclass bo\nbegemphword em 45\nbegemphword bo 45-1\n");
    let pool = lines(&[
        "emphmodechars em -", "emphmodechars em ,", "emphmodechars em -,", "emphmodechars bo ,", "noemphchars em -", "noemphchars em ,", "noemphchars bo -", "noemphchars em \\s",
        "begemphword em 4-4", "endemphword em 46", "endemphword em 4-6", "emphletter em 5", "emphletter em 5-5", "begemph em 6", "begemph em 6-6", "endemph em 3", "endemph em 3-3", "emphclass em",
        "begemphphrase em 56\nendemphphrase em before 1-6\nlenemphphrase em 2", "endemphphrase em after 6-6", "lenemphphrase em 1", "begemphphrase em 5-6", "emphclass tr\nemphmodechars tr -",
    ]);
    let sp: Vec<Vec<Span>> = all_spans("em", 5).into_iter().map(|s| vec![s]).chain(pairs(&all_spans("em", 3), &all_spans("bo", 4))).collect();
    r.suite(Suite::new("repeated settings", &two, perms(&two, &pool, 1, 2), F, seqs(&["a-", "a,", "a", " a"], 2, r.b(3, 4))).with_spans(sp));
    // names that differ in little are names of different classes
    let names = ["em", "Em", "EM", "e", "emm", "bold", "letter", "1", "\\xe9", "é"];
    let mut t = vec![];
    for a in names {
        for b in names {
            for rest in ["begemph {a} 6\nendemph {a} 3\nbegemph {b} 6-1\nendemph {b} 3-1", "emphletter {b} 4-1\nbegemphword {b} 45-1\nemphletter {a} 4\nbegemphword {a} 45", "begemph {b} 6"] {
                t.push(format!("space \\s 0\nletter a 1\nemphclass {a}\nemphclass {b}\n{}\n", rest.replace("{a}", a).replace("{b}", b)));
            }
        }
    }
    let mut sp = vec![];
    for n in names.iter().chain(&["", "em ", "{a}", "É"]) {
        sp.extend(all_spans(n, 2).into_iter().map(|s| vec![s]));
        sp.push(vec![Span { class: n.to_string(), start: 0, end: 2 }, Span { class: "Em".into(), start: 1, end: 3 }]);
    }
    r.suite(Suite::new("names of classes", "", t, F, lines(&["a", "aa", "aaa a"])).with_spans(sp));
}

pub fn p12(r: &mut Run) {
    const T: &str = "\
space \\s 0
punctuation , 2
punctuation - 36
letter a 1
lowercase b 12
uppercase C 14
letter c 14
digit 1 16
";
    let t = product(
        T,
        &[
            &["", "letsign 56", "letsign 56-5"],
            &["", "nocontractsign 46"],
            &["", "contraction ab", "contraction a\ncontraction ab", "contraction b\ncontraction a1"],
            &["", "noletsign a", "noletsign a\nnoletsign C"],
            &["", "noletsignbefore ,", "noletsignbefore -b"],
            &["", "noletsignafter -", "noletsignafter ,\nnoletsignafter 1"],
        ],
    );
    r.suite(Suite::new("letters", T, t.clone(), F, words("ab1, ", 0, r.b(5, 6))));
    r.suite(Suite::new("other characters", T, t, F, words("aBC-x ", 0, r.b(4, 6))));
    let t2 = product(
        T,
        &[
            &["letsign 56", "letsign 56\nletsign 5", "letsign 56\nnocontractsign 46\nnocontractsign 4"],
            &["contraction ab", "contraction ab\nword ab 4", "word ab 4\ncontraction ab", "always ab 45\ncontraction abc", "contraction a-b", "nocont ab", "contraction aB"],
            &["", "numsign 3456\nlitdigit 1 16\nnonumsign 6\nnumericnocontchars ab", "capsletter 6\nbase uppercase A a"],
            &["", "sign $ 4", "attribute letter $\nsign $ 4"],
        ],
    );
    r.suite(Suite::new("contractions", T, t2.clone(), F, words("abA- ", 0, r.b(5, 6))));
    r.suite(Suite::new("words", T, t2, F, seqs(&["ab", "abc", "AB", "a", " ", ",", "1", "$"], 0, r.b(4, 5))));
}

pub fn p13(r: &mut Run) {
    const T: &str = "\
space \\s 0
space \\t 0
punctuation , 2
punctuation @ 4-1
letter a 1
letter b 12
digit 1 16
base uppercase A a
";
    let t = product(
        T,
        &[
            &["", "begcomp 456-346", "begcomp 456-346\nendcomp 456-156", "endcomp 456-156"],
            &["", "compbrl @", "compbrl ab", "compbrl @\ncompbrl b1", "compbrl \\s@", "compbrl aa\ncompbrl a"],
            &["", "comp6 a 145", "comp6 a 145\ncomp6 ab 45-46", "comp6 @ =\ncomp6 a =", "comp6 b 3\ncomp6 b 4", "comp6 \\s 3"],
            &["", "always ab 6", "word ab 6\nalways a@ 5", "undefined 26"],
        ],
    );
    r.suite(Suite::new("triggers", T, t.clone(), F, words("ab@ 1", 0, r.b(4, 6))));
    r.suite(Suite::new("long words", T, t.clone(), F, seqs(&["ab", "@", "b1", " ", "a", "A,"], 0, r.b(4, 5))));
    let spans: Vec<Vec<Span>> = all_spans("computer_braille", 5).into_iter().map(|s| vec![s]).collect();
    r.suite(Suite::new("spans", T, t.clone(), F, words("ab@ ", 3, r.b(4, 5))).with_spans(spans));
    let mut p = pairs(&all_spans("computer_braille", 3), &all_spans("computer_braille", 3));
    p.push(vec![Span { class: "computer_braille".into(), start: 2, end: 2 }]);
    p.push(vec![Span { class: "computer_braille".into(), start: 1, end: 99 }]);
    p.push(vec![Span { class: "computer_braille".into(), start: 7, end: 99 }]);
    r.suite(Suite::new("two spans", T, t, F, words("ab ", 2, 3)).with_spans(p));
    // computer braille against everything else that could apply
    let b2 = format!("{T}begcomp 456-346\nendcomp 456-156\ncompbrl @\ncomp6 a 145\n");
    let pool = lines(&[
        "always ab 6", "context \"a\" @5", "match - ab - 4", "nocross always ab 46", "numsign 3456\nlitdigit 1 16", "capsletter 6",
        "letsign 56", "noback compbrl b", "nofor compbrl b", "contraction ab", "always a@ 4-4", "prepunc @ 5-5",
        "swapcd foo ab 3,4\ncontext %foo %foo", "comp6 1 35", "compbrl 1",
    ]);
    r.suite(Suite::new("other rules", &b2, perms(&b2, &pool, 0, r.b(2, 3)), F, words("abA@1 ", 0, r.b(4, 5))));
    r.suite(Suite::new("backward", &b2, perms(&b2, &pool, 0, 1), B, words("⠁⠃⠙⠀⠈", 0, r.b(4, 5))));
    // rules across the edges of a marked span, with and without signs there
    let one: Vec<Vec<Span>> = all_spans("computer_braille", 4).into_iter().map(|s| vec![s]).collect();
    let t3 = product(T, &[&["", "begcomp 456-346\nendcomp 456-156", "endcomp 456-156"], ACROSS, &["", "comp6 ba 145", "compbrl bb", "correct \"b\" \"aa\"", "correct \"ab\" ?"]]);
    r.suite(Suite::new("rules across edges", T, t3, F, words("ab ", 2, r.b(4, 5))).with_spans(one));
}

pub fn p27(r: &mut Run) {
    const T: &str = "\
space \\s 0
punctuation - 36
lowercase a 1
lowercase b 12
base uppercase A a
base uppercase B b
digit 1 16
";
    let t = product(
        T,
        &[
            &["", "capsletter 6", "capsletter 46", "capsletter 6-4", "capsletter 1"],
            &["", "begcapsword 6-6", "begcapsword 45", "begcapsword 12"],
            &["", "endcapsword 6-3", "endcapsword 3", "endcapsword 6"],
            &["", "always ab 126", "always ab 126-1", "always ßa 126\nletter ß 2346", "word ab 126"],
            &["", "begcaps 5", "uppercase C 14"],
        ],
    );
    r.suite(Suite::new("signs", T, t.clone(), B, words("⠁⠃⠠⠄⠀", 0, r.b(4, 6))));
    r.suite(Suite::new("runs", T, t, B, seqs(&["⠁", "⠃", "⠠", "⠠⠠", "⠠⠄", "⠄", "⠘", "⠀", "⠤"][..r.b(7, 9)], 0, r.b(4, 5))));
    let t2 = product(
        T,
        &[
            &["capsletter 6", "capsletter 6\nbegcapsword 6-6", "capsletter 6\nbegcapsword 6-6\nendcapsword 6-3"],
            &["", "capsletter 5", "nofor capsletter 4", "noback capsletter 4"],
            &["", "letter é 123456", "sign $ 4-1", "letter x 1346\nuppercase X 1346-7"],
            &["", "always abb 2-3", "nofor always b 6", "always a 6-1", "begword ab 126", "always bb 6-12"],
            &["", "context @126 \"ab\"", "pass2 @1 @12", "correct \"a\" \"b\"", "numsign 3456\nlitdigit 1 1"],
        ],
    );
    r.suite(Suite::new("other rules", T, t2, B, words(r.b("⠁⠃⠠⠆⠿⠄", "⠁⠃⠠⠆⠿⠄⠀"), 0, r.b(4, 5))));
    // whose cell a sign shares
    let mut t2 = vec![];
    for a in ["letter", "lowercase", "uppercase", "sign", "punctuation", "math", "space", "digit", "litdigit", "noback letter", "nofor letter", "hyphen", "decpoint", "always"] {
        for n in ["capsletter 145", "begcapsword 145", "capsletter 145\nbegcapsword 145-145", "capsletter 6\nendcapsword 145", "begcapsword 145-1\nendcapsword 6", "capsletter 145-1-145", "begcapsword 6\nendcapsword 145-6", "capsletter 6-145"] {
            let a = if a == "always" { "always x 145".to_string() } else { format!("{a} D 145") };
            t2.push(format!("{T}{a}\n{n}\n"));
            t2.push(format!("{T}{n}\n{a}\n"));
        }
    }
    r.suite(Suite::new("shared cells", T, t2, B, words("⠁⠙⠠⠃⠀", 0, r.b(4, 5))));
    // letters whose capital is not in the table, is more than one character, or does not exist
    let wide = wide_table();
    let t3 = product(
        &wide,
        &[
            &["capsletter 7", "begcapsword 8", "capsletter 7\nbegcapsword 8\nendcapsword 78", "begcapsword 7\nendcapsword 8"],
            &["", "always ßx 3-8", "always ﬁ 4-8", "always xß 5-8\nalways iǆ 6-8", "sign ŉ 1-8", "base uppercase Q ß\nsign + 2-8"],
        ],
    );
    let cell = |i: usize| char::from_u32(0x2800 + i as u32 + 1).unwrap();
    let n = WIDE_LETTERS.chars().count();
    let mut ins = vec![];
    for i in (0..n).chain([0x2c, 0x83, 0x87, 0x8b, 0xa0]) {
        for f in ["⡀?", "⢀?", "⢀?+", "⢀+?", "⢀+?+⠀?", "⢀??", "⢀+?⣀?", "⢀?⣀+", "⡀?⡀?", "⡀+?", "⢀⡀?", "⡀⢀?+", "?⡀?", "⢀⠀?", "⡀?+?", "?⢀?"] {
            ins.push(f.replace('?', &cell(i).to_string()).replace('+', "⠭"));
        }
        for j in 0..n {
            ins.push(format!("⢀{}{}", cell(i), cell(j)));
            ins.push(format!("⡀{}⡀{}", cell(i), cell(j)));
        }
    }
    r.suite(Suite::new("capitals beyond ASCII", &wide, t3, B, ins));
    // cells like a sign at the beginning, in the middle and at the end of other rules' cells
    let signs: &[&str] = &[
        "capsletter 6", "begcapsword 6", "capsletter 6\nbegcapsword 6-6", "begcapsword 6-6\nendcapsword 6-3", "capsletter 6\nbegcapsword 6-6\nendcapsword 3", "capsletter 6-3\nbegcapsword 6", "capsletter 6\nbegcapsword 6\nendcapsword 6",
    ];
    let covers: &[&str] = &[
        "always aa 36-6", "sign $ 36-6", "always ba 6-36", "sign $ 36-6-6", "sign $ 36-6-36", "always ab 1-6", "always ab 1-6-12", "always b$ 12-6-6", "always a- 6-6-6", "sign $ 6", "always a 6", "sign $ 6-6", "sign $ 6-3", "always ab 1-6-3",
        "sign $ 3-6", "nocross always aa 36-6", "word aa 36-6", "endword ba 12-6", "partword ab 6-12", "context @36-6 \"a\"", "context @36-6 ?", "context @36[@6] \"b\"", "context [@36]@6 \"b\"", "context []@1 \"b\"", "match - aa - 36-6", "pass2 @6 @36", "noback sign $ 36-6", "uppercase C 36-6",
        "sign $ 6-1", "letsign 36-6", "undefined 6", "nofor correct \"a\" \"b\"", "begword aa 6-1", "space \\t 36-6", "numsign 36-6", "context [@1] *",
    ];
    r.suite(Suite::new("signs inside other rules", T, product(T, &[signs, covers]), B, words("⠁⠃⠠⠤⠄", 0, r.b(5, 6))));
    r.suite(Suite::new("signs inside two other rules", T, product(T, &[&signs[..r.b(4, 7)], &perms("", &lines(covers), 2, 2).iter().map(|x| x.trim()).collect::<Vec<_>>()]), B, words("⠁⠠⠤", 2, r.b(4, 5))));
}

pub fn p28(r: &mut Run) {
    const T: &str = "\
space \\s 0
punctuation , 2
lowercase a 1
lowercase b 12
letter c 14
digit 1 2
digit 2 23
";
    let t = product(
        T,
        &[
            &["", "numsign 3456", "numsign 3456-6", "numsign 1"],
            &["", "nonumsign 56", "nonumsign 5-6"],
            &["", "litdigit 1 1\nlitdigit 2 12", "litdigit 1 1-3\nlitdigit 2 12", "digit 3 1\ndigit 4 14", "litdigit 3 145"],
            &["", "always ab 126", "always ab 1-12", "word a 4", "midnum , 2", "always c 14-1"],
            &["", "hyphen - 36", "decpoint . 2", "decpoint . 256"],
        ],
    );
    r.suite(Suite::new("runs", T, t.clone(), B, words("⠁⠃⠼⠰⠂⠀", 0, r.b(4, 6))));
    r.suite(Suite::new("longer runs", T, t, B, seqs(&["⠁", "⠃", "⠼", "⠰", "⠠", "⠂⠁", "⠉"], 0, r.b(4, 5))));
    // whose cell a digit shares
    let mut t2 = vec![];
    for a in ["letter", "lowercase", "uppercase", "sign", "punctuation", "math", "space", "noback letter", "nofor letter", "nofor uppercase", "hyphen", "decpoint", "attribute"] {
        for d in ["digit 3 145", "litdigit 3 145", "digit 3 145\nlitdigit 3 24", "nofor digit 3 145", "litdigit 3 145-145"] {
            for n in ["numsign 3456", "numsign 145", "numsign 3456\nnonumsign 145", "numsign 145-1\nnonumsign 56", "numsign 145-1-145"] {
                let a = if a == "attribute" { "always x 145".to_string() } else { format!("{a} D 145") };
                t2.push(format!("{T}{a}\n{d}\n{n}\n"));
                t2.push(format!("{T}{d}\n{n}\n{a}\n"));
            }
        }
    }
    r.suite(Suite::new("shared cells", T, t2, B, words("⠁⠙⠼⠰⠊", 0, r.b(4, 5))));
    let t2 = product(
        T,
        &[
            &["numsign 3456\nlitdigit 1 1\nlitdigit 2 12", "numsign 3456\nnonumsign 56\nlitdigit 1 1\nlitdigit 2 12\ndigit 3 14"],
            &["", "numsign 345", "nofor numsign 6", "noback numsign 6", "letsign 56"],
            &["", "always bc 12-14", "always aa 1-1", "context @1-1 \"x\"", "match - a - 1", "noback digit 5 1", "nofor litdigit 5 1", "litdigit 4 1"],
            &["", "capsletter 6\nbase uppercase A a", "begcapsword 6\nendcapsword 3", "numericmodechars ,", "numericnocontchars ab"],
            &["", "pass2 @1 @12", "correct \"1\" \"2\"", "uppercase A 1-7", "sign $ 1"],
        ],
    );
    r.suite(Suite::new("other rules", T, t2, B, words("⠁⠃⠼⠰⠠⠂", 0, r.b(4, 5))));
    // digits, letters and literal digits beyond ASCII, and characters of one role that look like another
    const ODD: &str = "space \\s 0\nspace _ 8\nletter x 1346\nletter 7 12\nletter é 14\nsign 5 145\ndigit ٣ 15\ndigit Ⅷ 124\ndigit z 1245\npunctuation q 24\nletter ⠁ 245\n";
    let t3 = product(
        ODD,
        &[
            &["numsign 3456", "numsign 3456\nnonumsign 56", "nonumsign 56"],
            &["", "litdigit ٣ 12", "litdigit z 14\nlitdigit Ⅷ 1346", "litdigit 7 15", "litdigit 5 1346\nlitdigit x 145", "litdigit é 24\nlitdigit _ 8"],
            &["", "letter ä 15", "always é٣ 14-15", "math z 124"],
        ],
    );
    // cells like a sign at the beginning, in the middle and at the end of other rules' cells
    let signs: &[&str] = &["numsign 6", "numsign 6-6", "numsign 6\nnonumsign 3", "numsign 6-3\nnonumsign 6", "numsign 36\nnonumsign 36", "numsign 6\ncapsletter 36\nbase uppercase A a"];
    let covers: &[&str] = &[
        "sign $ 36-6", "always aa 36-6", "sign $ 6-36", "sign $ 36-6-6", "sign $ 36-6-36", "always ab 1-6", "always ab 1-6-12", "always b$ 12-6-6", "sign $ 6", "always a 6", "sign $ 6-6", "sign $ 6-3", "always ab 1-6-3", "sign $ 3-6", "nocross always aa 36-6",
        "word aa 36-6", "endword ba 12-6", "partword ab 6-12", "context @36-6 \"a\"", "context @36-6 ?", "context @36[@6] \"b\"", "context [@36]@6 \"b\"", "context []@1 \"b\"", "match - aa - 36-6", "pass2 @6 @36", "noback sign $ 36-6", "sign $ 6-1", "letsign 36-6", "undefined 6",
        "always 12 1-12", "always aa 1-1", "midnum - 36", "sign - 36", "space \\t 36-6",
    ];
    const L: &str = "space \\s 0\nlowercase a 1\nlowercase b 12\nlitdigit 1 1\nlitdigit 2 12\ndigit 1 2\ndigit 2 23\n";
    r.suite(Suite::new("signs inside other rules", L, product(L, &[signs, covers]), B, words("⠁⠃⠠⠤⠄", 0, r.b(5, 6))));
    r.suite(Suite::new("signs inside two other rules", L, product(L, &[&signs[..r.b(4, 6)], &perms("", &lines(covers), 2, 2).iter().map(|x| x.trim()).collect::<Vec<_>>()]), B, words("⠁⠠⠤", 2, r.b(4, 5))));
    r.suite(Suite::new("digits beyond ASCII", ODD, t3, B, [words("⠼⠰⠃⠉⠙⠑⠭", 0, r.b(4, 5)), words("⠼⠋⠛⠚⠊⢀⠀⠭⠰", 1, r.b(3, 4))].concat()));
}
