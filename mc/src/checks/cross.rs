//! The rules of each property together with one rule of every other kind: what a rule does must not
//! depend on which unrelated rules a table has.
use super::*;
use super::cli::Part;
use crate::model::{Model, Span};

pub const X: &str = "\
space \\s 0
punctuation , 2
punctuation . 256
sign $ 46
letter a 1
letter b 12
letter c 14
digit 1 16
digit 2 126
litdigit 1 1
litdigit 2 12
base uppercase A a
base uppercase B b
attribute x ac
swapcc sw ab bc
swapcd sd ab 25,26
swapdd dd 1,12 14,15
";

/// one or more of every kind of rule
pub const ALL: &[&str] = &[
    "always ab 5", "always ba 45", "always a1 35", "always .2 34", "always a 16-16", "always b, 246", "always a\\sb 2456", "always AB 1-1", "always A 1-6",
    "word ab 5-5", "word a 5-6", "begword a 5-1", "begword ab 5-2", "midword b 5-3", "midword ab 5-4", "endword b 5-12", "endword ba 5-13",
    "partword ab 5-14", "begmidword a 5-15", "begmidword ba 5-16", "midendword b 5-23", "midendword ab 5-24", "sufword a 5-25", "prfword b 5-26",
    "joinword ab 5-34", "lowword a 5-35", "largesign ab 5-36", "syllable ba 5-45", "contraction ab", "letsign 56\ncontraction ab",
    "letsign 56\nnoletsign b\nnoletsignafter .\nnoletsignbefore ,", "nocontractsign 56-6\ncontraction ba",
    "begnum , 4-1", "midnum , 4-2", "midnum . 4-3", "endnum , 4-4", "endnum a 4-5", "decpoint . 4-6", "hyphen - 36",
    "before x always b 4-12", "after x always b 4-13", "after digit always a 4-14", "before uppercase always a 4-15", "after punctuation word ab 4-16",
    "nocross always ab 6-1", "nocross always a 6-2", "nocross word ba 6-3", "prepunc , 6-4", "postpunc . 6-5", "prepunc .\u{2c} 6-6", "postpunc ,. 6-12",
    "match a b - 6-13", "match - a b 6-14", "match %a+ b - 6-15", "match - ba %1 6-16", "match ^ a $ 6-23", "match a ab - 6-24", "match [,.] a - 6-25", "match - ab !%a 6-26",
    "context \"a\" @1-2", "context \"a\"[\"b\"] @1-3", "context []\"b\" @1-4", "context $l1-2 @1-5", "context `\"a\" @1-6", "context \"b\"~ @1-12", "context %sw %sw",
    "context #1=0\"b\" @1-13#1=1", "context \"a\" *#1+", "context #1=1\"1\" @1-14", "context _1\"a\"[\"b\"] @1-15", "context $d[\"a\"] *", "context [] @1-16\ncontext \"b\" @1-23",
    "correct \"a\" \"b\"", "correct \"ab\" \"a\"", "correct [\",\"]\"a\" ?", "correct $u \"a\"", "correct \"b\" \"ab\"", "correct $d[] \",\"",
    "pass2 @1 @2-1", "pass2 @1-12 @2", "pass2 @1[@0] ?", "pass3 @5 @2-3", "pass3 %dd %dd", "pass4 [] @2-4\npass4 @2 @2-5", "pass4 @12~ @2-6",
    "numsign 3456", "numsign 3456\nnonumsign 3456-6\nnumericnocontchars ab", "numsign 3456\nnumericmodechars .", "numsign 3456\nmidnum , 2-2",
    "capsletter 6", "capsletter 6\nbegcapsword 6-6", "capsletter 6\nbegcapsword 6-6\nendcapsword 6-3", "begcaps 46-6\nendcaps 46-3", "capsletter 6\nbegcapsphrase 46-46\nendcapsphrase after 46-3\ncapsmodechars .",
    "emphclass italic\nemphletter italic 456-1\nbegemphword italic 456-2\nendemphword italic 456-3", "emphclass italic\nbegemph italic 456-4\nendemph italic 456-5",
    "emphclass bold\nbegemph bold 45-4\nendemph bold 45-5", "begcomp 456-6\nendcomp 456-12", "begcomp 456-6\ncompbrl a\ncomp6 a 456-13", "compbrl ,", "comp6 ab 456-14\ncompbrl 1",
    "undefined 123456", "undefined 0", "attribute x b", "attribute y b\nafter y always a 456-15", "letter d 145", "letter a 13", "base uppercase D a", "uppercase A 17", "lowercase b 127", "sign \u{1f600} 78",
    "noback always ab 456-16", "nofor always ab 456-23", "nofor letter c 456-24", "noback context \"b\" @456-25", "nofor pass2 @1 @456-26", "nofor correct \"a\" \"c\"", "noback pass2 @12 @456-34",
    "emphclass trans\nnoemphchars trans a\nbegemphword trans 4", "seqdelimiter .\nseqbeforechars a\nseqafterchars b", "# comment\n", "display a 1",
    "include-nothing",
];

pub fn own(prop: &str) -> &'static [&'static str] {
    match prop {
        "P04" => &["always ab 3-1", "always a 3-2", "always aba 3-3", "always A 3-4", "always ab 3-5\nword ab 3-6", "word ab 3-1\nbegword ab 3-2", "always b 3-12\nalways b 3-13", "always b\\s 3-14"],
        "P05" => &["word a 3-1", "begword ab 3-2", "midword a 3-3", "endword a 3-4", "partword a 3-5", "begmidword ab 3-6", "midendword a 3-12", "sufword b 3-13", "prfword a 3-14", "joinword a 3-15", "lowword ab 3-16", "begnum a 3-23", "midnum a 3-24", "endnum b 3-25", "contraction b"],
        "P06" => &["before x always a 3-1", "after x always b 3-2", "before digit always ab 3-3", "after space always a 3-4", "before y always a 3-5\nattribute y ab", "after uppercase word b 3-6", "after y begword a 3-12\nattribute y ,\nattribute y .", "before letter partword a 3-13", "before x after x always b 3-14", "before punctuation always A 3-15", "after litdigit always b 3-16", "before none always a 3-23"],
        "P07" => &["letter d 145\nbase uppercase D d", "sign a 3-1", "lowercase a 3-2", "uppercase A 3-3", "undefined 3-4", "always ab =", "word ba =", "base letter d a\nalways ad =", "letter C 3-5", "punctuation \\x00e9 3-6", "sign $ 3-12", "attribute z ab\nbase z é b", "litdigit 1 3-13", "decpoint , 3-14", "hyphen . 3-15", "math 1 3-16"],
        "P08" => &["always ab 3-1", "always ab 3", "word ab 3-3", "always b 1-3", "endword b 3-12", "nofor always a 3-13", "noback always ab 3", "letter d 3", "always cab 3-0-3", "midendword b 3-3-3", "undefined 3-14"],
        "P09" => &["numsign 3456", "numsign 3456\nnonumsign 56\nnumericnocontchars ab", "numsign 3456\nnumericmodechars .", "numsign 3456\nnumericmodechars a\nmidnum . 3-1", "numsign 3456\nmidnum , 3-2", "numsign 3456\ndecpoint . 3-3", "numsign 3456\nnonumsign 56\nnumericnocontchars ,a\nnumericmodechars .", "numsign 3-3456\nmidnum ,. 3-4", "numsign 3456\nlitdigit a 3-5"],
        "P10" => &["capsletter 3", "capsletter 3\nbegcapsword 3-3", "capsletter 3\nbegcapsword 3-3\nendcapsword 3-4", "begcaps 3-5\nendcaps 3-6", "capsletter 3\nbegcapsphrase 3-5\nendcapsphrase after 3-6", "capsletter 3\nbegcapsword 3-3\nbegcapsphrase 3-5\nendcapsphrase before 3-6", "capsletter 3\nbegcapsword 3-3\ncapsmodechars .\nendcapsword 3-4", "begcapsword 3-3\nbegcapsphrase 3-5\nlencapsphrase 3", "begcapsphrase 3-5\nendcaps 3-6"],
        "P11" => &[
            "emphclass italic\nemphletter italic 3-1\nbegemphword italic 3-2\nendemphword italic 3-3", "emphclass italic\nbegemph italic 3-4\nendemph italic 3-5", "emphclass italic\nbegemphphrase italic 3-6\nendemphphrase italic after 3-12\nlenemphphrase italic 2\nbegemphword italic 3-2",
            "emphclass italic\nemphclass bold\nbegemph italic 3-4\nendemph italic 3-5\nbegemph bold 3-13\nendemph bold 3-14", "emphclass italic\nbegemphword italic 3-2\nendemphword italic 3-3\nemphmodechars italic .", "emphclass italic\nbegemphword italic 3-2\nendemphword italic 3-3\nnoemphchars italic a",
            "emphclass italic\nbegemphphrase italic 3-6\nendemphphrase italic before 3-12\nlenemphphrase italic 2\nbegemphword italic 3-2",
        ],
        "P12" => &["letsign 3\ncontraction ab", "letsign 3\ncontraction ab\nnoletsign a", "letsign 3", "letsign 3\nnoletsignafter ,\nnoletsignbefore .", "nocontractsign 3\ncontraction ab", "nocontractsign 3\ncontraction a\ncontraction ab", "letsign 3\nnocontractsign 3-3\ncontraction b", "contraction ab", "letsign 3\nnoletsign ab\ncontraction ba"],
        "P13" => &["begcomp 3-1\nendcomp 3-2\ncompbrl 1", "compbrl ,\ncomp6 a 3-3", "begcomp 3-1\nendcomp 3-2", "begcomp 3-1", "comp6 ab 3-4\ncompbrl ab", "comp6 a 3-5\nbegcomp 3-1\nendcomp 3-2\ncompbrl .", "compbrl a\ncompbrl A", "comp6 A 3-6\ncompbrl ,"],
        "P14" => &["match a b - 3-1", "match - a b 3-2", "match a b a 3-3", "match %a+ b - 3-4", "match - a %1 3-5", "match ^ b - 3-6", "match - a $ 3-12", "match ab a - 3-13", "match [,.] ab - 3-14", "match (a|1) b - 3-15", "match !%a a !%a 3-16", "match a? b %_ 3-23", "match - ab b 3-24", "match . b . 3-25", "match A b - 3-26"],
        "P15" => &[
            "context \"a\" @3-1", "context \"a\"[\"b\"] @3-2", "context \"a\"[\"b\"]\"a\" @3-3", "context [\"a\"]\"b\" *", "context $l2[] @3-4", "context []$d @3-5", "context `[\"a\"] @3-6", "context [\"b\"]~ *@3-12", "context _1$l[$d] @3-13*", "context !\"a\"[\"b\"] ?", "context %x[\"b\"] @3-14", "context $l1-2[\",\"] @3-15", "context $a\"b\" @3-16",
            "correct \"a\"[\"b\"] \"a\"", "correct [$p]$l ?", "pass2 @1[@12] @3-2", "pass2 $l2 @3-3", "pass3 [@1]@12 ?", "pass4 @12[] @3-4",
        ],
        "P16" => &["context \"a\" *#1=1\ncontext #1=1\"b\" @3-1", "context #1=0\"a\" @3-2#1=1\ncontext #1=1\"a\" @3-3#1=0", "context \"a\" *#1+\ncontext #1>1\"b\" @3-4", "context [] #1+\ncontext #1>=2\"b\" @3-5", "correct \"a\" *#1=1\ncorrect #1=1\"b\" \"a\"", "pass2 @1 *#1=1\npass2 #1=1@12 @3-6", "context \"b\" *#1=3\ncontext \"1\" *#1-\ncontext #1<=2\"a\" @3-12", "context !#1=0\"a\" @3-13\ncontext \"b\" *#1=2#2=1", "context #1<3[]\"b\" @3-14#1+"],
        "P17" => &["correct \"a\" \"b\"\nalways b 3-1", "always a 3\npass2 @3 @3-2", "pass2 @1 @3\npass3 @3 @3-3", "pass3 @12 @3\npass4 @3 @3-4", "pass4 @1 @3-5\ncorrect \"b\" \"a\"", "correct \"ab\" \"b\"\npass2 @12 @1", "context \"a\" @3\npass2 @3-12 @3-6", "pass3 @1 @12\npass2 @12 @1", "correct \"a\" ?\npass2 `[]~ @3-12"],
        "P18" => &["context %sw %sw", "context \"a\"[%sw] %sw", "context [\"ab\"] %sd", "correct %sw2 %sw", "pass2 %dd %dd", "pass2 @1[%dd] %dd", "swapcc s2 ab1 ba2\ncontext %s2. %s2", "swapcd s3 ab 3-1,3-2\ncontext $l %s3", "swapdd s4 1,12 3,3-4\npass3 %s4 %s4", "context \"b\" %sd@3"],
        "P20" => &["prepunc , 3-1", "postpunc , 3-2", "prepunc ,. 3-3", "postpunc ., 3-4", "prepunc . 3-5\npostpunc . 3-6", "prepunc a 3-12", "nocross prepunc , 3-13", "prepunc , 3-14\nalways , 3-15"],
        "P23" => &["nofor always ab 3-1", "noback always ab 3-2", "nofor word a 3-3", "noback context \"a\" @3-4", "nofor context \"a\" @3-5", "noback correct \"a\" \"b\"", "nofor correct \"a\" \"b\"", "noback pass2 @1 @3-6", "nofor pass2 @1 @3-12", "noback match a b - 3-13", "nofor letter d 3-14", "noback sign $ 3-15", "nofor begnum a 3-16", "noback numsign 3456", "nofor attribute x b\nafter x always b 3-3"],
        "P27" => &["capsletter 6", "capsletter 6\nbegcapsword 6-6", "capsletter 6\nbegcapsword 6-6\nendcapsword 6-3", "begcapsword 6-6", "capsletter 46", "capsletter 6-4\nbegcapsword 6\nendcapsword 3"],
        "P28" => &["numsign 3456", "numsign 3456\nnonumsign 56", "numsign 3456\nnonumsign 3456-6", "numsign 3456-3456", "numsign 3456\ndigit a 12"],
        _ => &[],
    }
}

/// which directions the property is about
pub fn directions(prop: &str) -> (bool, bool) {
    match prop {
        "P08" | "P27" | "P28" => (false, true),
        "P15" | "P16" | "P17" | "P18" | "P23" => (true, true),
        _ => (true, false),
    }
}

/// the rules of the property with every other rule, in both orders
pub fn cross(r: &mut Run) {
    let own = own(&r.prop.clone());
    if own.is_empty() {
        return;
    }
    let (fwd, bwd) = directions(&r.prop);
    let spans = matches!(r.prop.as_str(), "P11" | "P13");
    let mut tables = vec![];
    for o in own {
        for g in ALL {
            tables.push(format!("{X}{o}\n{g}\n"));
            tables.push(format!("{X}{g}\n{o}\n"));
        }
    }
    roles(r, own);
    orders(r, own);
    origins(r, own);
    command_line(r, own);
    let own: Vec<String> = own.iter().flat_map(|o| o.lines()).map(|l| l.to_string()).collect();
    if fwd && !spans {
        let mut ins = words("ab1A, .", 0, r.b(3, 4));
        ins.extend(words("ab1", 4, r.b(4, 6)));
        ins.extend(words("AB .", 4, r.b(4, 6)));
        ins.extend(words("ab,", 4, r.b(4, 6)));
        ins.extend(lines(&["ab ba", "AB AB", "AB ab", "aab1", "a1b,2", "1,2.1", "1.,2", "ab.ab", ",.a.,", "abab ab", "A,B AB aB", "$a é", "a$b", "cab", "bac ca", "12 ab 21", "d da", "C c", "\u{1f600}a"]));
        r.suite(Suite::new("with every other rule", X, tables.clone(), F, ins).of(&own));
    }
    if fwd && spans {
        let ins = words("ab1 .", 2, r.b(3, 4));
        let classes: &[&str] = if r.prop == "P11" { &["italic", "bold"] } else { &["computer_braille", "italic"] };
        let mut sp: Vec<Vec<Span>> = vec![vec![]];
        let s = |c: &str, a: usize, b: usize| Span { class: c.into(), start: a, end: b };
        for a in 0..3 {
            for b in a + 1..=3 {
                sp.push(vec![s(classes[0], a, b)]);
            }
        }
        sp.push(vec![s(classes[0], 0, 2), s(classes[1], 1, 3)]);
        sp.push(vec![s(classes[1], 0, 2), s(classes[0], 0, 2)]);
        sp.push(vec![s(classes[0], 0, 1), s(classes[0], 2, 4)]);
        r.suite(Suite::new("with every other rule", X, tables.clone(), F, ins).with_spans(sp).of(&own));
    }
    if bwd {
        let mut ins = seqs(&["⠁", "⠃", "⠉", "⠀", "⠂", "⠠", "⠼", "⠄"], 0, r.b(3, 4));
        ins.extend(seqs(&["⠁", "⠃", "⠠", "⠄"], 4, r.b(4, 6)));
        ins.extend(seqs(&["⠁", "⠃", "⠼", "⠀", "⠐"], 4, r.b(4, 5)));
        r.suite(Suite::new("with every other rule, backward", X, tables, B, ins).of(&own));
    }
}

/// The same tables through the command line tool, which has a path of its own through the passes:
/// every text of a list, line by line in one process per table.
fn command_line(r: &mut Run, own: &[&str]) {
    let (fwd, bwd) = directions(&r.prop);
    let mine: Vec<&str> = own.iter().flat_map(|o| o.lines()).collect();
    let tables: Vec<String> = own.iter().flat_map(|o| ALL.iter().flat_map(move |g| [format!("{X}{o}\n{g}\n"), format!("{X}{g}\n{o}\n")])).collect();
    let ins = [words("ab1A, .", 0, r.b(2, 3)), words("ab", 3, r.b(3, 5)), lines(&["aab1", "a1b,2", "1.,2", "ab.ab", ",.a.,", "A,B AB aB", "AB", "aA", "$a é", "ba ab", "12 ab 21", "d da", "C c"])].concat();
    let cells = [seqs(&["⠁", "⠃", "⠀", "⠠", "⠼", "⠄"], 0, r.b(2, 3)), seqs(&["⠁", "⠃"], 3, r.b(4, 5)), lines(&["⠼⠁⠃⠀⠁", "⠠⠠⠁⠃⠠⠄⠁", "⠄⠁⠃⠂", "a⠁", "⠿⠁"])].concat();
    let run = |fwd: bool, table: &str, ins: &[String]| -> Option<(usize, u64, String, String)> {
        let m = Model::from_source(table, fwd).ok()?;
        let name = cli::place(table).remove(0);
        let stdin: String = ins.iter().map(|i| format!("{i}\n")).collect();
        let o = cli::run(&["translate", &name, "-d", if fwd { "forward" } else { "backward" }], stdin.as_bytes(), &[]);
        let mut steps = 0;
        let mut exp = String::new();
        for i in ins {
            let r = m.run(i, &[]);
            steps += r.steps;
            exp += &format!("> {}\n", r.output);
        }
        exp += "> ";
        if exp == o.out {
            return Some((usize::MAX, steps, String::new(), String::new()));
        }
        let k = exp.lines().zip(o.out.lines()).position(|(a, b)| a != b).unwrap_or(ins.len());
        Some((k, steps, exp.lines().nth(k).unwrap_or("the end").to_string(), format!("{} {}", o.out.lines().nth(k).unwrap_or("the end"), o.err)))
    };
    for (go, f, ins) in [(fwd, true, &ins), (bwd, false, &cells)] {
        if !go {
            continue;
        }
        r.each(if f { "on the command line" } else { "on the command line, backward" }, &tables, |w, t| {
            let mut p = Part::default();
            crate::shared::table(w, t, f);
            crate::shared::input(w, "", &[]);
            match run(f, t, ins) {
                None => p.rejected += 1,
                Some((k, steps, exp, got)) => {
                    p.traces += ins.len() as u64;
                    p.states += steps;
                    p.transitions += steps;
                    p.nontrivial += 1;
                    let rest: String = t.lines().filter(|l| !mine.contains(l)).map(|l| format!("{l}\n")).collect();
                    if k != usize::MAX && run(f, &rest, ins).is_none_or(|x| x.0 == usize::MAX) {
                        p.bad.push(("cli".into(), cli::text_of(t, if f { "translate -d forward" } else { "translate -d backward" }, ins.get(k).map_or("", String::as_str), &exp, &got)));
                    }
                }
            }
            p
        });
    }
}

/// Characters whose role in the table is not the one their Unicode category suggests, and characters
/// of every category that the table does not define.
const ROLES: &str = "\
space _ 0
letter + 346
letter é 12346
punctuation q 1234
digit z 1356
sign 7 123456
uppercase @ 4-1
lowercase # 4-2
litdigit ; 4-3
math l 4-4
base uppercase ¤ +
hyphen r 4-5
decpoint u 4-6
";

/// the rules of the property in a table with such characters
fn roles(r: &mut Run, own: &[&str]) {
    let (fwd, _) = directions(&r.prop);
    if !fwd {
        return;
    }
    let base = format!("{X}{ROLES}");
    let tables: Vec<String> = own.iter().map(|o| format!("{base}{o}\n")).collect();
    let rules: Vec<String> = own.iter().flat_map(|o| o.lines()).map(|l| l.to_string()).collect();
    let odd: Vec<char> = "_+éqz7@#;l¤ru\t\n\u{a0}\u{2003}9Z!ÉxǅⅧ٣_\u{301}\u{200b}".chars().collect();
    let mut ins: Vec<String> = vec![];
    for c in &odd {
        for f in ["?", "a?", "?a", "a?b", "ab?ab", "AB?AB", "A?B", "AB?", "1?1", "1?a", "12?2a", "a?.", ",?a", ".?,", "a ?b", "b? a", "ab.?a", "?ab ba", "ab? ab", "a??b", "AB?AB?AB"] {
            ins.push(f.replace('?', &c.to_string()));
        }
        for d in &odd {
            for f in ["?!", "a?!b", "?a!", "A?!B", "1?!a"] {
                ins.push(f.chars().map(|x| if x == '?' { *c } else if x == '!' { *d } else { x }).collect());
            }
        }
    }
    ins.extend(words("ab_+q", 3, r.b(4, 5)));
    ins.extend(words("aA_@¤", 2, r.b(4, 5)));
    ins.extend(words("1az7_", 2, r.b(4, 5)));
    ins.sort();
    ins.dedup();
    let mut suite = Suite::new("characters in unusual roles", &base, tables, F, ins);
    if matches!(r.prop.as_str(), "P11" | "P13") {
        let class = if r.prop == "P11" { "italic" } else { "computer_braille" };
        let s = |a: usize, b: usize| vec![Span { class: class.into(), start: a, end: b }];
        suite = suite.with_spans(vec![vec![], s(0, 2), s(0, 4), s(1, 3), s(2, 5), s(0, 9)]);
    }
    r.suite(suite.of(&rules));
}

/// the lines of the table in other orders: definitions after their use, or the other way round
fn orders(r: &mut Run, own: &[&str]) {
    let (fwd, bwd) = directions(&r.prop);
    let back = |s: &str| s.lines().rev().map(|l| format!("{l}\n")).collect::<String>();
    let cut = X.match_indices('\n').nth(X.lines().count() / 2).unwrap().0 + 1;
    let (xb, some) = (back(X), "begword a 5-1\nafter x always b 5-2\nbefore z1 always 1 5-3\nmidendword b 5-4\nattribute z1 a2\nbase lowercase d C\nbase digit 3 1\nletter C 1456\n");
    let mut tables = vec![];
    for o in own {
        let o = format!("{o}\n");
        let ob = back(&o);
        for m in ["", some] {
            let mb = back(m);
            for t in [format!("{o}{m}{X}"), format!("{X}{m}{ob}"), format!("{xb}{m}{o}"), format!("{o}{mb}{xb}"), format!("{ob}{xb}{m}"), format!("{m}{X}{o}"), format!("{mb}{o}{X}"), format!("{}{o}{m}{}", &X[..cut], &X[cut..])] {
                tables.push(t);
            }
        }
    }
    tables.sort();
    tables.dedup();
    let rules: Vec<String> = own.iter().flat_map(|o| o.lines()).map(|l| l.to_string()).collect();
    let mut f = Suite::new("lines in other orders", "", tables.clone(), F, [words("ab1A, .", 0, r.b(3, 4)), words("adC1", 2, r.b(4, 5)), lines(&["ab ba", "AB AB", "AB ab", "aab1", "a1b,2", "1,2.1", "A,B AB aB", "$a é", "d da cd", "C c 3a 13"])].concat());
    if fwd && matches!(r.prop.as_str(), "P11" | "P13") {
        let class = if r.prop == "P11" { "italic" } else { "computer_braille" };
        let s = |a: usize, b: usize| vec![Span { class: class.into(), start: a, end: b }];
        f = f.with_spans(vec![vec![], s(0, 1), s(1, 3), s(0, 4)]);
    }
    if fwd {
        r.suite(f.of(&rules));
    }
    if bwd {
        r.suite(Suite::new("lines in other orders, backward", "", tables, B, [seqs(&["⠁", "⠃", "⠉", "⠀", "⠂", "⠠", "⠼", "⠄"], 0, r.b(3, 4)), seqs(&["⠁", "⠹", "⠠", "⠼"], 3, r.b(4, 5))].concat()).of(&rules));
    }
}

/// what the characters are, and by which rules they became it
fn origins(r: &mut Run, own: &[&str]) {
    let (fwd, bwd) = directions(&r.prop);
    let without: String = X.lines().filter(|l| !l.ends_with(" b 12") && *l != "base uppercase B b").map(|l| format!("{l}\n")).collect();
    let mut tables = vec![];
    for way in super::rules::WAYS {
        for o in own {
            tables.push(format!("{without}{}\n{o}\n", way.replace('?', "b")));
            tables.push(format!("{X}{o}\n{}\n", way.replace('?', "d")));
            tables.push(format!("{X}{}\n{o}\n", way.replace('?', "D")));
            tables.push(format!("{X}{o}\n{}\n", way.replace('?', "'")));
            tables.push(format!("{without}letter b 12-3\n{}\n{o}\n", way.replace('?', "b")));
        }
    }
    tables.sort();
    tables.dedup();
    let rules: Vec<String> = own.iter().flat_map(|o| o.lines()).map(|l| l.to_string()).collect();
    if fwd {
        let mut f = Suite::new("what characters are", "", tables.clone(), F, [words("ab1B ", 0, 3), words("adD'", 1, r.b(2, 3)), lines(&["d", "D", " d ", ",d.", "1d", "d1", "1,d", "d'd", "1'1", "dd dd dd dd", "DD DD DD DD", "D'D A'A", "AD DA", "aDa", "$d", "d$", "bB b1 1b", "BB BB BB", "B'B"])].concat());
        if matches!(r.prop.as_str(), "P11" | "P13") {
            let class = if r.prop == "P11" { "italic" } else { "computer_braille" };
            let s = |a: usize, b: usize| vec![Span { class: class.into(), start: a, end: b }];
            f = f.with_spans(vec![vec![], s(0, 1), s(1, 3), s(0, 9)]);
        }
        r.suite(f.of(&rules));
    }
    if bwd {
        r.suite(Suite::new("what characters are, backward", "", tables, B, seqs(&["⠁", "⠃", "⠑", "⠀", "⠠", "⠼", "⠂"], 1, r.b(3, 4))).of(&rules));
    }
}
