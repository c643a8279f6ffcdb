//! Pattern rules: match, context and the passes; variables; swap classes; pass order.
use super::cli::Part;
use super::*;
use crate::engine::{build, guarded, translate};
use crate::model::{Reject, Span};
use crate::shared;

const T: &str = "\
space \\s 0
punctuation , 2
sign $ 4-1
letter a 1
lowercase b 12
uppercase C 14
letter c 14
digit 1 16
litdigit 2 23
math + 346
attribute vow ab
attribute 1 b1
seqdelimiter ,
seqbeforechars c
seqafterchars $
";

/// classes with the names a pattern can use
const SEVEN: &str = "attribute 0 b,\nattribute 2 c\nattribute 3 C\nattribute 4 1\nattribute 5 2\nattribute 6 a1\nattribute 7 $\nattribute 8 a\nattribute w a\nattribute q b\n";

/// All patterns of the given atoms, each with every quantifier, in sequences of lo..=hi.
fn patterns(atoms: &[&str], quants: &[&str], lo: usize, hi: usize) -> Vec<String> {
    let pieces: Vec<String> = atoms.iter().flat_map(|a| quants.iter().map(move |q| format!("{a}{q}"))).collect();
    let p: Vec<&str> = pieces.iter().map(String::as_str).collect();
    let mut v = seqs(&p, lo, hi);
    v.retain(|s| !s.is_empty());
    v
}

pub fn p14(r: &mut Run) {
    let def = wide_table();
    let t = WIDE_LETTERS.chars().flat_map(|c| [format!("match {c} x - 8-1"), format!("match - x {c} 8-1"), format!("match - {c} - 8-1"), format!("match - x{c} - 8-1"), format!("match [{c}y] x [{c}] 8-1"), format!("match !{c} x - 8-1")]).map(|l| format!("{def}{l}\n")).collect();
    r.suite(Suite::new("letters beyond ASCII", "", t, F, wide_texts()));
    let atoms = ["a", "%a", "%_", "%[_.^]", "[ab]", "(ab)", "!a", "!%a", "%^", ".", "(a|b)", "!(a)", "%1", "%<", "^", "$"];
    let pats = patterns(&atoms, &["", "?", "*", "+"], 1, 1);
    let mut t = vec![];
    for p in &pats {
        t.push(format!("{T}match {p} b - 456\n"));
        t.push(format!("{T}match - b {p} 456\n"));
        for q in &pats {
            t.push(format!("{T}match {p} b {q} 456\n"));
        }
    }
    r.suite(Suite::new("contexts", T, t, F, words("abc ,", 0, r.b(4, 5))));
    // two-element contexts
    let atoms2 = ["a", "%a", "%_", "[ab]", "!%a", "%^", ".", "(a|c)", "(,|a%_)"];
    let two: Vec<String> = patterns(&atoms2, &["", "?", "*"], 2, 2);
    let mut t2 = vec![];
    for p in &two {
        t2.push(format!("{T}match {p} b - 456\n"));
        t2.push(format!("{T}match - b {p} 456\n"));
    }
    r.suite(Suite::new("longer contexts", T, t2, F, words("abc ,", 0, r.b(4, 5))));
    // attributes one by one, both as single attribute and in a set
    let mut t3 = vec![];
    for a in ["_", "#", "a", "u", "l", ".", "$", "~", "<", ">", "^", "0", "1", "2", "7"] {
        for form in [format!("%{a}"), format!("%[{a}]"), format!("!%{a}"), format!("%[{a}_]"), format!("!%[^{a}]"), format!("%{a}+"), format!("(%{a}|a)")] {
            t3.push(format!("{T}match {form} b - 456\n"));
            t3.push(format!("{T}match - b {form} 456\n"));
        }
    }
    let nb = ["", " ", ",", "$", "a", "b", "C", "c", "1", "2", "+", "é"];
    let mut ins = vec![];
    for a in nb {
        for b in nb {
            for c in ["b", "ab", "B", "bb"] {
                ins.push(format!("{a}{b}{c}"));
                ins.push(format!("{c}{a}{b}"));
                ins.push(format!("{a}{c}{b}"));
            }
        }
    }
    r.suite(Suite::new("attributes", T, t3, F, ins));
    // every character as the name of an attribute
    let mut t4 = vec![];
    for a in (' '..='~').chain(['é', '\u{a0}', '⠁']) {
        for form in [format!("%{a}"), format!("%[{a}]"), format!("%[#{a}_]"), format!("!%{a}")] {
            t4.push(format!("{T}{SEVEN}match {form} b - 456\n"));
            t4.push(format!("{T}{SEVEN}match - b {form} 456\n"));
        }
    }
    r.suite(Suite::new("names of attributes", T, t4, F, {
        let nb = ["", " ", ",", "$", "a", "b", "C", "c", "1", "2", "+", "é"];
        nb.iter().flat_map(|a| nb.iter().map(move |b| format!("{a}b{b}"))).collect()
    }));
    // several match rules, and the other rules they compete with
    let pool = lines(&[
        "match a b - 4", "match - b c 5", "match - b - 6", "match a b c 45", "match %a+ b - 46", "always b 56",
        "always ab 456", "match ab c - 4-5", "word b 4-6", "match - ab - 5-6", "match c ab - 6-6", "match ^ b $ =",
        "match - bC - 5-5", "match - B - 4-4", "noback match - c - 1-1", "nofor match - a - 2-2",
    ]);
    r.suite(Suite::new("several rules", T, perms(T, &pool, 1, r.b(2, 3)), F, words("abcC ", 0, r.b(4, 5))));
    r.suite(Suite::new("longer texts", T, perms(T, &pool[..12], 1, r.b(2, 2)), F, words("abc ", 0, r.b(5, 6))));
    // quoting in the pattern language
    let q = lines(&[
        "match [\\]a] b - 4", "match [\\(] b - 4", "match [\\s] b - 4", "match - b \\s 4", "match \\x0061 b - 4",
        "match - b \\x0063+ 4", "match - \\x0062 - 4", "match - b (c|,)* 4", "match (a|(b|c)) b - 4", "match (ab|a)c* b - 4",
        "match - b (a|b)+c 4", "match !(a|b) b - 4", "match !!a b - 4", "match !^ b - 4", "match - b !$ 4", "match -a b - 4",
        "match a- b - 4", "match (a b - 4", "match a) b - 4", "match % b - 4", "match %[] b - 4", "match [] b - 4",
        "match *a b - 4", "match a| b - 4", "match |a b - 4", "match a b", "match a b -", "match %z b - 4", "match \\( b - 4",
        "match !a? b - 4", "match !(a+) b - 4", "match - b - =", "match - b1 - =", "match - bx - =",
    ]);
    r.suite(Suite::new("syntax", T, perms(T, &q, 1, 1), F, words("abc ,(]1", 0, r.b(3, 4))));
}

pub fn p15(r: &mut Run) {
    let def = wide_table();
    let t = WIDE_LETTERS.chars().flat_map(|c| [format!("context \"{c}\" @8"), format!("context \"x{c}\" @8"), format!("context \"{c}\"[\"x\"] @8"), format!("context [\"x\"]\"{c}\" @8"), format!("context !\"{c}\"[\"x\"] @8"), format!("correct \"{c}\" \"x\""), format!("attribute q {c}\ncontext %q @8")]).map(|l| format!("{def}{l}\n")).collect();
    r.suite(Suite::new("letters beyond ASCII", "", t, F, wide_texts()));
    let quants = ["", ".", "1", "2", "1-2", "0", "0-1"];
    let mut atoms = vec!["`", "~", "!\"a\"", "!$l", "!%vow", "\"ab\"", "_", "_1", "!`", "!~", "$a", "%1"];
    let mut pieces: Vec<String> = vec![];
    for a in ["$l", "$s", "%vow", "$sp", "$a", "!$s"] {
        for q in quants {
            pieces.push(format!("{a}{q}"));
        }
    }
    atoms.push("\"a\"");
    pieces.extend(atoms.iter().map(|s| s.to_string()));
    let mut t = vec![];
    for p in &pieces {
        t.push(format!("{T}context {p} @456\n"));
        t.push(format!("{T}context [{p}] @456\n"));
        t.push(format!("{T}context {p}[] @456\n"));
        t.push(format!("{T}context []{p} @456\n"));
        for q in &pieces {
            t.push(format!("{T}context {p}[{q}] @456*\n"));
            t.push(format!("{T}context [{p}]{q} @456\n"));
        }
    }
    r.suite(Suite::new("tests", T, t, F, words("ab ,", 0, r.b(4, 5))));
    let small: Vec<&str> = vec!["$l", "$s.", "\"a\"", "%vow1-2", "~", "`", "!$l", "$a", "$l2"];
    let mut t = vec![];
    for a in &small {
        for b in &small {
            for c in &small {
                t.push(format!("{T}context {a}[{b}]{c} @456\n"));
                t.push(format!("{T}pass2 [{a}{b}]{c} @456\n").replace('"', "").replace("[a", "[@1"));
                t.push(format!("{T}correct {a}{b}[{c}] \"b\"\n"));
            }
        }
    }
    r.suite(Suite::new("three tests", T, t, F, words("ab ,", 0, r.b(4, 5))));
    // character attributes
    let mut t = vec![];
    for a in "adDlmpSsUuwxyz".chars() {
        for (k, form) in [format!("${a}"), format!("!${a}"), format!("${a}s"), format!("${a}."), format!("[${a}]$l"), format!("$s[${a}2]")].iter().enumerate() {
            t.push(format!("{T}context {form} @456\n"));
            if k < 4 {
                t.push(format!("{T}correct {form} \"a\"\n"));
                t.push(format!("{T}pass2 {form} @456\n"));
                t.push(format!("{T}pass4 {form} @456\n"));
            }
        }
    }
    r.suite(Suite::new("attributes", T, t.clone(), F, words("ab ,C12+$é", 0, r.b(3, 4))));
    r.suite(Suite::new("attributes of cells", T, t, B, words("⠁⠃⠉⠀⠂⠡⠆⠬⣿", 0, r.b(3, 4))));
    // every character in the name of a class
    let mut t = vec![];
    for c in (' '..='~').chain(['é', '\u{a0}', '⠁']) {
        for rest in ["", "1", "a", ".", "1-2", "\"b\"", "[$l]"] {
            t.push(format!("{T}{SEVEN}context %{c}{rest} @456\n"));
            t.push(format!("{T}{SEVEN}context !%{c}{rest} @456\n"));
            t.push(format!("{T}{SEVEN}attribute {c} a\ncorrect %w{c}{rest} \"b\"\n"));
            t.push(format!("{T}{SEVEN}pass2 $l[%{c}]{rest} @456\n"));
            t.push(format!("{T}{SEVEN}swapcc {c} ab ba\ncorrect %{c}{rest} %{c}\n"));
            t.push(format!("{T}{SEVEN}swapcc v{c} ab ba\ncorrect %v{c}{rest} %v{c}\n"));
        }
    }
    r.suite(Suite::new("names of classes", T, t, F, words("abC12,", 1, r.b(2, 3))));
    // the classes of a table in the order of their definition
    let names = ["vow", "1", "one", "w", "x", "y", "z", "letter"];
    let mut t = vec![];
    for order in seqs(&["0", "1", "2", "3", "4", "5"], 1, 5).into_iter().filter(|s| s.len() <= 2 || s.starts_with("012") || s.ends_with("3210") || s == "10234" || s == "21034" || s == "24130") {
        let defs: String = order.bytes().enumerate().map(|(i, k)| format!("attribute {} {}\n", names[(k - b'0') as usize + i % 2], ["a", "b", "c", "C", "1", "2,"][(i + k as usize) % 6])).collect();
        for a in "wxyz".chars() {
            for form in [format!("${a}"), format!("!${a}"), format!("${a}s."), format!("[${a}]$l")] {
                t.push(format!("{}{defs}context {form} @456\n", T.replace("attribute", "#")));
                t.push(format!("{}{defs}pass2 {form} @456\n", T.replace("attribute", "#")));
            }
        }
    }
    r.suite(Suite::new("attributes by order", T, t, FB, [words("abcC12, ", 1, 2), words("⠁⠃⠉⠂⠆", 1, 2)].concat()));
    // the passes
    let mut t = vec![];
    for (st, conv) in [("correct", 0), ("pass2", 1), ("pass3", 1), ("pass4", 1), ("context", 0)] {
        let forms = [
            ("\"a\"", "@1"), ("\"ab\"", "@1-12"), ("\"a\"[\"b\"]", "@1[@12]"), ("[\"a\"]\"b\"", "[@1]@12"), ("`\"a\"", "`@1"),
            ("\"a\"~", "@1~"), ("$l[$s]$l", "$l[$s]$l"), ("[]\"a\"", "[]@1"), ("\"a\"[]", "@1[]"), ("$l.[\"b\"]", "$l.[@12]"),
            ("!\"a\"\"b\"", "!@1@12"), ("`[$a]", "`[$a]"),
        ];
        let acts = [("\"b\"", "@12"), ("?", "?"), ("*", "*"), ("*\"a\"", "*@1"), ("\"ba\"*", "@12-1*"), ("**", "**"), ("\"\"", "@0")];
        for f in forms {
            for a in acts {
                let (f, a) = if conv == 1 { (f.1, a.1) } else { (f.0, a.0) };
                t.push(format!("{T}{st} {f} {a}\n"));
            }
        }
    }
    r.suite(Suite::new("actions", T, t.clone(), F, words("ab ", 0, r.b(5, 7))));
    r.suite(Suite::new("actions backward", T, t, B, words("⠁⠃⠀", 0, r.b(5, 6))));
    // several rules in one stage
    let pool = lines(&[
        "context \"a\" @4", "context \"ab\" @5", "context $l[\"b\"] @6", "context []\"a\" @45", "context [\"b\"]$s @46", "context `\"b\" @56",
        "context \"b\"~ @456", "context %vow. @4-4", "always ab 5-5", "context $l[]$l @6-6", "noback context \"b\" @1-1",
        "nofor context @1 \"b\"",
    ]);
    r.suite(Suite::new("several rules", T, perms(T, &pool, 1, r.b(2, 3)), F, words("ab ", 0, r.b(5, 6))));
    let pool: Vec<String> = pool.iter().map(|l| l.replace("context", "correct").replace("@4-4", "\"ba\"").replace("@456", "\"c\"").replace("@45", "\"bb\"").replace("@46", "\"1\"").replace("@4", "\"b\"").replace("@56", "\" \"").replace("@5", "\"aa\"").replace("@6-6", "\"c1\"").replace("@6", "\"a\"")).collect();
    r.suite(Suite::new("several corrections", T, perms(T, &pool, 1, r.b(2, 3)), F, words("ab ", 0, r.b(5, 6))));
    let pool = lines(&[
        "pass2 @1 @4", "pass2 @1-12 @5", "pass2 $l[@12] @6", "pass2 []@1 @45", "pass2 [@12]$s @46", "pass2 `@12 @56", "pass2 @12~ ?",
        "pass2 $l. *", "pass2 @4 @4-4", "pass2 $s[] @5", "nofor pass2 @1 @12",
    ]);
    r.suite(Suite::new("several pass2 rules", T, perms(T, &pool, 1, r.b(2, 3)), FB, seqs(&["a", "b", " ", "⠁", "⠃", "⠀"], 0, r.b(4, 5))));
}

pub fn p16(r: &mut Run) {
    const V: &str = "space \\s 0\nletter a 1\nletter b 12\nletter c 14\nletter d 145\n";
    let conv = |l: &str, st: &str| -> String {
        // the same rule for another stage
        if st == "context" || st == "correct" {
            let l = l.replace("context", st);
            if st == "correct" { l.replace("@4", "\"c\"").replace("@5", "\"dd\"") } else { l }
        } else {
            l.replace("context", st).replace("\"a\"", "@1").replace("\"b\"", "@12").replace("\"c\"", "@14").replace("\"d\"", "@145")
        }
    };
    // one rule that changes the variable, one that depends on it
    let mut t = vec![];
    for st in ["context", "correct", "pass2", "pass3", "pass4"] {
        for act in ["#1=0", "#1=1", "#1=2", "#1+", "#1-", "#1=255", "#1=1#2=1", "#2=1", "#1+#1+"] {
            for op in ["=0", "=1", "=2", "<1", "<2", "<=1", ">0", ">1", ">=1", ">=2", "<0", ">255", "<=255", ">=0"] {
                let s = conv(&format!("context \"a\" *{act}\ncontext #1{op}\"b\" @4\n"), st);
                t.push(format!("{V}{s}"));
            }
        }
        for neg in ["!#1=1", "!#1<1", "!#1>0", "#1=1#2=0", "#1=1!#2=1"] {
            for act in ["#1=0", "#1=1", "#1+", "#1=1#2=0", "#2=1#1=1"] {
                let s = conv(&format!("context \"a\" *{act}\ncontext {neg}\"b\" @4\n"), st);
                t.push(format!("{V}{s}"));
            }
        }
    }
    r.suite(Suite::new("one variable", V, t.clone(), F, words("ab ", 0, r.b(5, 7))));
    let b: Vec<String> = t.iter().map(|t| if t.contains("correct") { t.replace(" *#", " \"c\"#") } else { t.replace(" *#", " @6#") }).collect();
    r.suite(Suite::new("one variable, backward", V, b, B, seqs(&["⠁", "⠃", "⠀", "a", "b"], 0, r.b(4, 6))));
    // three rules: set, change, test
    let mut t = vec![];
    for st in ["context", "correct", "pass2"] {
        for a in ["#1=0", "#1=1", "#1=254", "#1=2"] {
            for b in ["#1+", "#1-", "#1=0", "#1+#2=1", "#2=1"] {
                for c in ["#1=0", "#1=1", "#1>1", "#1<=1", "#1=255", "#2=1#1>=1", "#1=3"] {
                    let s = conv(&format!("context \"a\" *{a}\ncontext \"c\" *{b}\ncontext #{}\"b\" @4\ncontext \"b\" @5\n", &c[1..]), st);
                    t.push(format!("{V}{s}"));
                }
            }
        }
    }
    r.suite(Suite::new("set, change, test", V, t, F, words("abc", 0, r.b(5, 7))));
    // rules that test and change the same variable, on nothing, a character or several
    let pool = lines(&[
        "context #1=1\"b\" @4#1=0", "context \"a\" *#1=1", "context #1=0\"a\" @5#1=1", "context #1=1[] @4#1=0", "context []\"a\" #1=1",
        "context #1=1\"a\"[\"b\"] @4#1=2", "context #1=2\"b\" *#1-", "context \"b\" *#2+", "context #2=2\"a\" @5#2=0", "context ` *#1=1",
        "context `[] *#1=0", "context #1=0~ @4#1=1", "context \"ab\" *#1+", "context !#1=1\"c\" @5",
    ]);
    for st in ["context", "correct", "pass2"] {
        let p: Vec<String> = pool.iter().map(|l| conv(l, st)).collect();
        r.suite(Suite::new(&format!("state machines: {st}"), V, perms(V, &p, 1, r.b(3, 3)), F, words("abc", 0, r.b(4, 7))));
    }
    // variables do not leak between stages or from rules that do not apply
    let pool = lines(&[
        "correct \"a\" *#1=1", "context #1=1\"b\" @4", "context \"a\" *#1=1", "pass2 #1=1@12 @5", "pass2 @1 *#1=1", "pass3 #1=1@12 @6",
        "noback context \"c\" *#1=1", "nofor context \"c\" *#1=2", "correct #1=1\"b\" \"c\"", "always ab 56", "match - a b 46",
    ]);
    r.suite(Suite::new("scope", V, perms(V, &pool, 1, r.b(3, 3)), F, words("abc", 0, r.b(4, 5))));
    // variables are independent of each other
    let some = [0usize, 1, 2, 3, 7, 8, 9, 10, 15, 16, 31, 32, 49, 50, 51, 52, 63, 64, 99, 100, 101, 127, 128, 129, 200, 254, 255];
    let mut t = vec![];
    let all: Vec<usize> = (0..=255).collect();
    for &i in &all {
        for j in all.iter().filter(|j| r.thorough || some.contains(j) && some.contains(&i) || **j == i || **j == i.wrapping_sub(1) || **j == i % 50 || **j == (i + 128) % 256) {
            t.push(format!("{V}context \"a\" *#{i}=1\ncontext #{j}=1\"b\" @4\n"));
        }
    }
    r.suite(Suite::new("pairs of variables", V, t, F, lines(&["ab", "ba", "b", "aab"])));
    // many steps: saturation
    let mut t = vec![];
    for (a, b) in [("#1=253", "#1+"), ("#1=2", "#1-"), ("#1=0", "#1+"), ("#1=255", "#1-")] {
        for c in ["#1=255", "#1=254", "#1=0", "#1=1", "#1>=254", "#1<=1"] {
            t.push(format!("{V}context \"a\" *{a}\ncontext \"c\" *{b}\ncontext {c}\"b\" @4\n"));
        }
    }
    let mut ins: Vec<String> = (0..6).map(|n| format!("a{}b", "c".repeat(n))).collect();
    ins.extend((250..260).map(|n| format!("a{}b", "c".repeat(n))));
    ins.extend(words("abc", 0, 5));
    r.suite(Suite::new("saturation", V, t, F, ins));
}

pub fn p17(r: &mut Run) {
    const V: &str = "space \\s 0\nletter a 1\nletter b 12\nletter c 14\nletter d 145\npunctuation , 2\n";
    let pool = lines(&[
        "correct \"a\" \"b\"", "correct \"bc\" \"a\"", "always b 3", "always ab 4", "pass2 @1 @12", "pass2 @3 @4", "pass3 @12 @14", "pass3 @4 @1",
        "pass4 @14 @145", "pass4 @1 @12", "context \"c\" @1", "noback pass2 @12 @1", "nofor pass3 @14 @12", "noback correct \"c\" \"ab\"",
        "nofor correct \"b\" \"c\"",
    ]);
    r.suite(Suite::new("forward", V, perms(V, &pool, 1, r.b(3, 4)), F, words("abc", 0, r.b(4, 4))));
    r.suite(Suite::new("backward", V, perms(V, &pool, 1, r.b(3, 4)), B, words("⠁⠃⠉⠄", 0, r.b(3, 4))));
    // lengths change between the passes; zero-length replacements; rules at the ends
    let pool = lines(&[
        "correct \"a\" ?", "correct `[]\"b\" \"a\"", "correct \"c\"[] \"c\"", "pass2 @1 ?", "pass2 @12 @12-12", "pass2 ~ @145", "pass3 `[] @145",
        "pass3 @12-12 @1", "pass4 [@1]~ @14", "pass4 $l. @145", "correct [$l]~ \"d\"", "word ab 145", "pass2 `[]~ @3", "pass4 `[]~ @6", "correct `[]~ \"c\"",
    ]);
    // with and without options: both ways into the library
    let options = vec![vec![], vec![Span { class: "#cursor".into(), start: 0, end: 0 }]];
    r.suite(Suite::new("lengths", V, perms(V, &pool, 1, r.b(2, 3)), FB, seqs(&["a", "b", "c", "⠁", "⠃", "⠙", " "], 0, r.b(3, 4))).with_spans(options));
    let pool = lines(&[
        "correct \"a\" \"A\"", "base uppercase A a\ncapsletter 6", "pass2 @6 @6-6", "litdigit 1 16\nnumsign 3456", "correct \"b\" \"1\"",
        "pass2 @3456 @3-4", "compbrl ,", "begcomp 456", "pass4 @456 @4-5", "pass3 @6-6 @6", "letsign 56",
    ]);
    r.suite(Suite::new("indicators and passes", V, perms(V, &pool, 1, r.b(3, 4)), F, words("ab,", 0, r.b(4, 5))));
    // every subset of stages, in every source order
    let stages = lines(&["correct \"a\" \"b\"", "pass2 @12 @14", "pass3 @14 @145", "pass4 @145 @1", "context \"c\" @14-14"]);
    r.suite(Suite::new("source order", V, perms(V, &stages, 0, 5), FB, seqs(&["a", "b", "c", "⠁", "⠃", "⠉", "⠙"], 0, r.b(4, 5))));
}

pub fn p18(r: &mut Run) {
    const V: &str = "space \\s 0\nletter a 1\nletter b 12\nletter c 14\nletter d 145\npunctuation , 2\ndigit 1 16\n";
    let pool = [
        "swapcc foo ab bc", "swapcc foo abc bca", "swapcc foo aa bc", "swapcd foo ab 4,5", "swapcd foo abc 4-5,5,6-6", "swapdd foo 1,12 4,5-5",
        "swapdd foo 1,12,14 12,14,1", "swapcd foo a 0", "swapcd foo abc 4,4,5", "swapcd foo ab 4-5,4-5", "swapdd foo 1,12 4-5,4-5", "swapcc foo é x", "swapcd foo ab 12,1",
    ];
    let rules = [
        "context %foo %foo", "context [%foo]\"b\" %foo", "context %foo. %foo", "context %foo2 %foo@6", "context \"c\"[%foo] %foo", "correct %foo %foo",
        "correct [%foo.]$s %foo", "pass2 %foo %foo", "pass2 [%foo]@12 %foo@6", "pass3 %foo. %foo", "pass4 %foo1-2 @6%foo", "context !%foo @6",
        "pass2 !%foo @6", "correct %foo \"c\"", "context \"ab\" %foo", "correct \"abc\" %foo*", "pass2 @1-12 *%foo", "context $l. %foo",
        "pass2 $l. %foo", "match %foo a - 4", "before foo always c 6", "after foo always c 6", "context $l %foo%foo", "context %foo %foo#1=1",
        "noback pass2 %foo %foo", "nofor context %foo %foo", "pass2 %foo0 %foo", "context %foo0 *%foo",
    ];
    let mut t = vec![];
    for p in pool {
        for q in rules {
            t.push(format!("{V}{p}\n{q}\n"));
            t.push(format!("{V}{q}\n{p}\n"));
            for q2 in &rules[..12] {
                t.push(format!("{V}{p}\n{q}\n{q2}\n"));
            }
        }
    }
    r.suite(Suite::new("forward", V, t.clone(), F, words("abc,", 0, r.b(4, 6))));
    r.suite(Suite::new("backward", V, t, B, words("⠁⠃⠉⠂", 0, r.b(4, 5))));
    // members that are capitals, and capitals of members
    let up = format!("{V}base uppercase A a\nbase uppercase B b\ncapsletter 6\n");
    let mut t = vec![];
    for p in ["swapcc foo ab bc", "swapcc foo A c", "swapcc foo aA bB", "swapcd foo A 4", "swapcc foo Ab dA", "swapcd foo aB 4,5"] {
        for q in ["correct %foo %foo", "correct [$l]%foo. %foo", "correct [$l] %foo", "correct [$U] %foo", "correct %foo. %foo", "correct [$a.] %foo", "context %foo %foo", "context [$l.] %foo", "context [$U] %foo", "match %foo a - 4", "noback correct [$al.] %foo"] {
            t.push(format!("{up}{p}\n{q}\n"));
            t.push(format!("{up}{q}\n{p}\n"));
        }
    }
    r.suite(Suite::new("capitals", &up, t, F, words("abAB,", 0, r.b(4, 6))));
    // two swap classes, one redefining the other
    let mut t = vec![];
    for p in pool {
        for q in pool {
            for x in ["", "bar"] {
                let q = if x.is_empty() { q.to_string() } else { q.replace("foo", "bar") };
                for rule in ["context %foo %foo", "context %foo. %foo\ncontext %bar %bar", "pass2 %foo %foo\npass3 %bar %bar", "correct %foo %bar"] {
                    t.push(format!("{V}{p}\n{q}\n{rule}\n"));
                }
            }
        }
    }
    r.suite(Suite::new("two classes", V, t, FB, seqs(&["a", "b", "c", "⠁", "⠃", "⠈"], 0, r.b(3, 4))));
    // ill-formed definitions
    let bad = lines(&[
        "swapcc foo ab b", "swapcc foo a bc", "swapcd foo ab 4", "swapcd foo a 4,5", "swapdd foo 1 4,5", "swapdd foo 1,2 4", "swapdd foo 1-2 4",
        "swapcd foo ab 4,", "swapcd foo", "swapcc foo ab", "context %none %none", "context \"a\" %none", "pass2 @1 %none", "correct \"a\" %none",
        "swapcd f_o a 4", "swapcd 1foo a 4\ncontext %foo %foo", "swapcc foo \\x0061 \\x0062\ncontext %foo %foo", "swapdd foo 1,2 4,5-x",
    ]);
    r.suite(Suite::new("ill-formed", V, perms(V, &bad, 1, 2), FB, words("ab⠁", 0, 3)));
}

pub fn p20(r: &mut Run) {
    const V: &str = "\
space \\s 0
punctuation , 2
punctuation ( 126
punctuation ) 345
letter a 1
lowercase b 12
uppercase C 14
digit 1 16
litdigit 2 23
sign $ 4-1
";
    let pool = lines(&[
        "prepunc ( 5-126", "postpunc ) 6-345", "prepunc , 5-2", "postpunc , 6-2", "prepunc (, 4-4", "postpunc ), 4-5", "always ( 3", "always ),  3-3",
        "prepunc a 6-1", "postpunc $ 46", "noback prepunc ( 45", "nofor postpunc ) 46", "prepunc ( 2-2", "before letter prepunc , 5-5", "postpunc )) 456",
    ]);
    r.suite(Suite::new("neighbours", V, perms(V, &pool, 1, r.b(2, 3)), F, words("a1(,) ", 0, r.b(4, 5))));
    r.suite(Suite::new("other characters", V, perms(V, &pool, 1, r.b(2, 2)), F, words("bC2$(), x", 0, r.b(3, 5))));
    // rules whose text is not all punctuation are not used
    let mixed: Vec<String> = seqs(&["(", ",", "$", "a", "1", "z"], 2, 3).iter().flat_map(|t| [format!("prepunc {t} 5-5"), format!("postpunc {t} 5-6"), format!("prepunc ( 2-2\nprepunc {t} 5-5"), format!("postpunc , 2-2\npostpunc {t} 5-6")]).collect();
    let ins = seqs(&["(", ",", "$", "a", "1", "z"], 2, 3).iter().flat_map(|t| ["?", "a?", "?a", "1?", "?1", "a?a", " ?a", "a? "].map(|f| f.replace('?', t))).collect();
    r.suite(Suite::new("texts with other characters", V, perms(V, &mixed, 1, 1), F, ins));
    let long = perms(V, &pool[..6], 1, 2);
    r.suite(Suite::new("longer texts", V, long, F, seqs(&["((", "(", "a", "1", ",", ")", " ", "$"], 0, r.b(4, 5))));
    let pool2 = lines(&["nocross prepunc ( 5-126", "nocross postpunc ) 6-345", "prepunc ( 5-2", "compbrl a", "capsletter 6", "match - ( - 6", "context \"(\" @5", "word ( 3", "begword ( 3-2", "always (a 56"]);
    r.suite(Suite::new("with other rules", V, perms(V, &pool2, 1, r.b(2, 3)), F, words("aC(), ", 0, r.b(4, 5))));
    r.suite(Suite::new("backward", V, perms(V, &pool, 1, 2), B, words("⠁⠐⠂⠷⠾⠀", 0, r.b(4, 5))));
}

/// escapes and dot patterns
pub fn p21(r: &mut Run) {
    let esc = [
        "\\s", "\\t", "\\n", "\\r", "\\f", "\\v", "\\e", "\\\\", "\\x0041", "\\x00e9", "\\y1f600", "\\xd83d\\xde00", "\\xd83d", "\\xde00", "\\xd83da",
        "\\xd83d\\x0041", "\\y10fff", "\\x004", "\\y1f60", "\\z", "\\", "\\x00g1", "\\q", "\\x2801", "\\yfffff", "\\S", "\\(", "\\\"", "a", "#", "\\x000a",
    ];
    let mut t = vec![];
    for e in esc {
        t.push(format!("letter {e} 1\n"));
        t.push(format!("letter a 1\nalways a{e} 12\nletter {e} 3\n"));
        t.push(format!("letter a 1\nalways {e}a 12\n"));
        t.push(format!("letter a 1\nletter {e} 3\ncorrect \"{e}\" \"a\"\n"));
        t.push(format!("letter a 1\nletter {e} 3\ncontext \"a\"[\"{e}\"] @12\n"));
        t.push(format!("letter a 1\nletter {e} 3\nmatch a {e} - 12\nmatch {e} a - 14\n"));
        t.push(format!("letter a 1\nletter {e} 3\nmatch - a [{e}] 12\n"));
        t.push(format!("letter a 1\nattribute foo {e}\nbefore foo always a 12\n"));
        t.push(format!("letter a 1\nswapcc foo a {e}\ncorrect %foo %foo\n"));
        t.push(format!("base uppercase {e} a\nletter a 1\n"));
        t.push(format!("letter a 1\ncompbrl {e}\nbegcomp 456\n"));
        t.push(format!("letter {e}{e} 1\n"));
        t.push(format!("letter a 1\ncorrect \"a\" \"{e}\"\n"));
    }
    let cs = [" ", "\t", "\n", "\r", "\x0c", "\x0b", "\x1b", "\\", "A", "é", "😀", "\u{fffd}", "\u{10fff}", "\u{fffff}", "⠁", "z", "q", "a", "#", "S", "(", "\"", "s", "n", "x", "Á", "\u{1f60}"];
    let mut ins = seqs(&cs, 0, r.b(2, 2));
    for c in cs {
        ins.push(format!("a{c}a"));
        ins.push(format!("{c}aa{c}"));
    }
    r.suite(Suite::new("escapes", "", t.clone(), FB, ins));
    // all strings over the escape alphabet as a definition
    let toks: Vec<String> = words("\\xysd80", 1, r.b(5, 6)).into_iter().map(|w| format!("letter {w} 1\n")).collect();
    r.suite(Suite::new("escape syntax", "", toks, F, lines(&["", "s", " ", "x", "\\", "8", "\u{8080}", "d0"])));
    // all dot patterns of one, two and three cells over an alphabet that covers the notation
    let d: Vec<String> = words("0178afg-=", 1, r.b(4, 5)).into_iter().collect();
    let t: Vec<String> = d.iter().map(|w| format!("letter a {w}\n")).collect();
    r.suite(Suite::new("dots of characters", "", t, F, lines(&["a", "aa"])));
    let d: Vec<String> = words("018a-=", 1, r.b(4, 5)).into_iter().collect();
    let mut t = vec![];
    for w in &d {
        t.push(format!("letter a 1\nletter b 2\nalways ab {w}\n"));
        t.push(format!("letter a 1\nletter b 2\ncontext \"ab\" @{w}\n"));
        t.push(format!("letter a 1\nletter b 2\npass2 @{w} @3\n"));
        t.push(format!("letter a 1\ncapsletter {w}\nbase uppercase A a\n"));
        t.push(format!("letter a 1\nletter b 2\nswapcd foo ab {w},1\ncontext %foo %foo\n"));
        t.push(format!("letter a 1\nletter b 2\nswapdd foo 1,{w} 3,4\npass2 %foo %foo\n"));
    }
    r.suite(Suite::new("dots of other rules", "", t, FB, lines(&["ab", "a", "Ab", "⠁", "⠀", "⢁⠁", "\u{f0201}", "⠂"])));
    // every dot, alone and in pairs, in every place where the passes take cells
    let mut t = vec![];
    for w in words("0123456789abcdefgAF-", 1, 2) {
        t.push(format!("letter a 1\nletter b {w}\npass2 @{w} @3\n"));
        t.push(format!("letter a 1\nletter b 2\npass2 @1-{w} @3-{w}\n"));
        t.push(format!("letter a 1\nletter b 2\ncontext \"ab\" @{w}-3\n"));
        t.push(format!("letter a 1\nletter b 2\nmatch a b - {w}\n"));
        t.push(format!("letter a 1\nletter b {w}\npass3 [@{w}]@1 *\n"));
        t.push(format!("letter a 1\nletter b 2\nletter c {w}\nswapdd foo 1,{w} 3,{w}\npass2 %foo %foo\n"));
        t.push(format!("letter a 1\nletter b 2\nletter c {w}\nemphclass e\nbegemph e {w}-3\nendemph e 3-{w}\n"));
    }
    r.suite(Suite::new("every dot", "", t, FB, lines(&["ab", "ba", "abc", "⠁⠄", "⠂⠁"])));
    // every cell of the plain and the large plane
    let mut t = vec![];
    for bits in 0u32..1 << 15 {
        let ds: String = (0..15).filter(|i| bits >> i & 1 == 1).map(|i| char::from_digit(i + 1, 16).unwrap()).collect();
        if bits % 128 == 0 {
            t.push(String::new());
        }
        let c = char::from_u32(0x4e00 + bits % 128).unwrap();
        let last = t.last_mut().unwrap();
        *last += &format!("letter {c} {}\n", if ds.is_empty() { "0".to_string() } else { ds });
    }
    let all: String = (0..128).filter_map(|i| char::from_u32(0x4e00 + i)).collect();
    r.suite(Suite::new("every cell", "", t, F, vec![all]));
    let perm: Vec<String> = ["123", "321", "213", "11", "121", "0123", "1230", "fedcba987654321", "f", "ff", "10", "01", "00", "F", "A", "1-", "-1", "1--2", "-"].iter().map(|d| format!("letter a {d}\n")).collect();
    r.suite(Suite::new("order of dots", "", perm, FB, lines(&["a", "⠇", "⠁", "⠀", "\u{f7fff}"])));
}

/// nofor and noback, for every opcode that takes them
pub fn p23(r: &mut Run) {
    const V: &str = "\
space \\s 0
punctuation , 2
punctuation ( 126
letter a 1
letter b 12
letter c 14
digit 1 16
base uppercase A a
attribute vow a
swapcd foo ab 4,5
emphclass em
";
    let ruleset = [
        "display a 5", "multind 56-6 letsign capsletter", "space x 3", "punctuation x 3", "digit x 3", "letter x 3", "lowercase x 3", "uppercase x 3",
        "litdigit 1 1", "sign x 3", "math x 3", "hyphen - 36", "modeletter foo 4", "begmodeword foo 4", "capsletter 6", "begcapsword 6-6",
        "endcapsword 6-3", "nocontractsign 56\ncontraction ab", "nonumsign 56\nnumsign 3456\nlitdigit 1 1\nnumericnocontchars a", "begcomp 456", "endcomp 456-6", "begemph em 4",
        "endemph em 4-6", "compbrl b", "always ab 4", "sufword ab 4", "prfword ab 4", "begword ab 4", "begmidword ab 4", "midword b 4", "midendword b 4",
        "endword b 4", "partword b 4", "word ab 4", "lowword ab 4", "repeated aa 4", "prepunc ( 4", "postpunc , 4", "begnum a 4", "midnum , 4", "joinnum a 4",
        "endnum a 4", "context \"ab\" @4", "correct \"ab\" \"c\"", "pass2 @1 @4", "pass3 @1 @4", "pass4 @1 @4", "match - b - 4", "include x", "undefined 3",
        "letsign 3", "numsign 3", "begcaps 3", "endcaps 3", "begcapsphrase 3", "decpoint . 3", "grouping foo () 1,2", "base foo b a", "capsmodechars a",
        "noletsign a", "numericmodechars ,", "endcapsphrase before 3", "lencapsphrase 2", "class foo a", "emphclass bo", "noemphchars em a", "emphletter em 3",
        "begemphword em 3", "lenemphphrase em 3", "capsnocont", "comp6 a 3", "nocont ab", "contraction ab", "exactdots a", "literal a", "replace a b", "syllable ab 4",
        "joinword ab 3", "largesign ab 3", "repword ab 3", "rependword ab 3,4", "attribute bar a", "swapcd bar a 3", "swapdd bar 1 3", "swapcc bar a b",
    ];
    let mut t = vec![];
    for l in ruleset {
        let (first, rest) = l.split_once('\n').map_or((l, String::new()), |(a, b)| (a, format!("\n{b}")));
        for p in ["", "nofor ", "noback ", "nocross ", "nofor nocross ", "noback nocross ", "nofor noback ", "before vow ", "after vow ", "noback before vow ", "nofor after vow ", "nofor nocross before vow ", "nocross nofor ", "before vow nofor ", "empmatchbefore ", "nofor empmatchafter ", "noback after vow empmatchafter ", "empmatchbefore empmatchafter "] {
            t.push(format!("{V}{p}{first}{rest}\n"));
        }
    }
    let ins = seqs(&["a", "b", "A", "1", " ", ",", "("], 0, r.b(4, 5));
    r.suite(Suite::new("forward", V, t.clone(), F, ins));
    r.suite(Suite::new("backward", V, t, B, words("⠁⠃⠈⠄⠀⠂⠠", 0, r.b(4, 4))));
    let pool = lines(&[
        "nofor letter x 1", "noback letter x 1", "letter x 1", "nofor always ab 4", "noback always ab 5", "always ab 6", "nofor pass2 @4 @5", "noback pass2 @4 @5",
        "nofor context @12 \"c\"", "noback context \"b\" @4", "nofor capsletter 6", "noback capsletter 5",
    ]);
    r.suite(Suite::new("combinations", V, perms(V, &pool, 1, r.b(2, 3)), FB, seqs(&["a", "b", "x", "A", "⠁", "⠃", "⠈", "⠠"], 0, r.b(3, 4))));
    // the implementation against itself: in the other direction the rule might as well not be there, in
    // its own direction the prefix might as well not be there
    let mut own: Vec<&str> = ruleset.iter().flat_map(|l| l.lines()).collect();
    own.extend(["letter d 145", "sign d 145", "digit d 145", "punctuation d 145", "space d 145", "lowercase d 145", "uppercase d 145", "litdigit d 145", "math d 145", "letter a 13", "sign a 1", "uppercase B 127", "always ad =", "word d 1-145", "undefined 123", "context $l[] @3", "pass2 $l @3", "correct $l \"b\"", "letsign 56", "compbrl d"]);
    let mut others: Vec<String> = cross::ALL.iter().map(|s| s.to_string()).collect();
    others.extend(lines(&["correct $l \"a\"", "correct $S \"a\"", "correct $d \"a\"", "correct $p \"a\"", "correct $s \"a\"", "correct $u \"a\"", "correct $U \"a\"", "pass2 $l @3", "pass2 $d @3", "pass2 $S @3", "pass3 $p @3", "pass4 $l[] @3", "context $l[] @3", "context $S @3", "context $d[$l] @3", "match %a a - 3", "match - a %_ 3", "match %# a %. 3", "after letter always a 3", "before sign always a 3", "always d =", "always ad =", "correct \"$\" \"d\"", "pass2 @145 @3", "base uppercase D d", "always $a 3"]));
    let items: Vec<(String, String)> = own.iter().flat_map(|o| others.iter().map(move |g| (o.to_string(), g.clone()))).collect();
    let fins: Vec<String> = [words("ad1$", 1, 2), lines(&["ab", "abc d", "AB aB", "1,2a", "x", "aa", "Dad", "ad ab, d", "éa", "$ad1", "cab", "(a)", "a b c d"])].concat();
    let bins: Vec<String> = [words("⠁⠃⠙⠄", 1, 2), lines(&["⠠⠁⠃ ⠙", "⠼⠁⠙", "⠁⠃⠉⠀⠙", "⠠⠠⠁⠙", "⠂⠐⠙", "⠨⠿⠁"])].concat();
    r.each("as if the rule, or the prefix, were not there", &items, |w, (o, g)| {
        let mut p = Part::default();
        for fwd in [true, false] {
            let (keep, drop) = if fwd { ("noback ", "nofor ") } else { ("nofor ", "noback ") };
            let ins = if fwd { &fins } else { &bins };
            let mut run = |line: &str, first: bool| -> Vec<String> {
                let t = if first { format!("{}{line}{g}\n", cross::X) } else { format!("{}{g}\n{line}", cross::X) };
                shared::table(w, &t, fwd);
                shared::input(w, "", &[]);
                p.states += 1;
                match guarded(|| build(&t, fwd)) {
                    Ok(Ok(tr)) => ins.iter().map(|i| guarded(|| translate(&tr, i, &[])).unwrap_or_else(|m| format!("panic {m}"))).collect(),
                    Ok(Err(Reject::Lines(_))) => vec!["ill-formed".into()],
                    _ => vec!["rejected".into()],
                }
            };
            for first in [true, false] {
                for (a, b) in [(format!("{drop}{o}\n"), String::new()), (format!("{keep}{o}\n"), format!("{o}\n"))] {
                    let (x, y) = (run(&a, first), run(&b, first));
                    if x == ["ill-formed"] || y == ["ill-formed"] {
                        p.rejected += 1; // the opcode takes no prefix
                        continue;
                    }
                    p.traces += ins.len() as u64;
                    p.transitions += ins.len() as u64;
                    p.nontrivial += x.iter().filter(|o| !o.is_empty()).count() as u64;
                    if x != y {
                        let k = x.iter().zip(&y).position(|(a, b)| a != b).unwrap_or(0);
                        p.bad.push(("pair".into(), format!("{} {:?}: {:?} with the line {a:?}, {:?} with {b:?} in its place, next to the line {g:?} ({}) in table\n{}", if fwd { "forward" } else { "backward" }, ins[k], x[k], y[k], if first { "after it" } else { "before it" }, cross::X)));
                        return p;
                    }
                }
            }
        }
        p
    });
}
