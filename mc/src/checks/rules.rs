//! Literal rules: selection, word positions, class conditions, character definitions, backward.
use super::*;

pub fn p04(r: &mut Run) {
    let pool = lines(&[
        "always a 2-3", "always ab 5", "always ab 6", "word ab 56", "begword ab 46", "always abc 456", "always b 3-3",
        "sufword ab 4-5",
    ]);
    r.suite(Suite::new("always/word", BASE, perms(BASE, &pool, 0, r.b(2, 3)), F, words("abAc, ", 0, r.b(5, 6))));
    let pool = lines(&[
        "always a 4", "always aa 45", "always aaa 456", "always ab 4-5", "always ba 4-6", "always aba 56-4",
        "noback always aa 46", "nofor always aa 6",
    ]);
    r.suite(Suite::new("overlaps", BASE, perms(BASE, &pool, 0, r.b(3, 4)), F, words("aBb", 0, r.b(6, 7))));
    // all opcodes that may carry the same text, every ordered pair
    let ops: Vec<String> = [
        "always", "word", "begword", "midword", "endword", "midendword", "begmidword", "prfword", "sufword",
        "partword", "joinword", "lowword", "syllable", "largesign",
    ]
    .iter()
    .enumerate()
    .map(|(i, o)| format!("{o} ab 4-{:x}", i + 1))
    .collect();
    r.suite(Suite::new("same text", BASE, perms(BASE, &ops, 1, 2), F, words("abc ,", 0, r.b(5, 6))));
    // equally long rules of different texts and restrictions: the first defined wins
    const T: &str = "space \\s 0\npunctuation , 2\nletter a 1\nletter b 12\nletter c 14\ndigit 1 16\nattribute v ab\nattribute w a1\nattribute z cb,\n";
    let pool: Vec<String> = [
        "after v always b", "before v always b", "before w always b", "after w always b", "after z always b", "before z always b", "partword b", "always bc", "always ba", "begword b", "endword b", "midword b",
        "begmidword b", "midendword b", "before v after w always b", "after v before z always b", "after z partword b", "always bca", "word b", "prfword b", "sufword b", "before v partword b", "after w partword b", "lowword b",
        "nocross always bc", "nocross after v always b", "endnum b", "midnum b", "begnum b", "always bab", "after v always bc", "partword ba", "syllable b", "largesign b",
    ]
    .iter()
    .enumerate()
    .map(|(i, o)| format!("{o} 4-{}{}-5", i / 8 + 1, (i % 8 + 1).to_string().replace(&(i / 8 + 1).to_string(), "9")))
    .collect();
    r.suite(Suite::new("equally long", T, perms(T, &pool, 1, 2), F, words("abc1 ,", 1, r.b(4, 5))));
    r.suite(Suite::new("equally long, three", T, perms(T, &pool[..r.b(12, 20)], 3, 3), F, words("abc ", 1, r.b(3, 4))));
    // backward, where the restrictions are on the cells: all rules of the same cells
    let back: Vec<String> = pool.iter().enumerate().map(|(i, o)| {
        let mut w: Vec<&str> = o.split(' ').collect();
        let text: String = [i / 3, i % 3, i / 9].iter().map(|k| ['a', 'b', 'c'][k % 3]).collect();
        let n = w.len();
        (w[n - 2], w[n - 1]) = (&text, if i % 4 == 3 { "12-1" } else { "12" });
        w.join(" ")
    }).collect();
    r.suite(Suite::new("equally long, backward", T, perms(T, &back, 1, 2), B, words("⠁⠃⠀⠂⠡", 1, r.b(4, 5))));
    // duplicates: the first definition wins, for every opcode
    let mut t = vec![];
    for o in &ops {
        let (op, _) = o.split_once(' ').unwrap();
        for order in ["ab 4;ab 5;ab 6", "ab =;ab 5", "ab 5;ab =", "a 5;ab 5;a 6", "ab 4;a 5;ab 6;a 45"] {
            let rules: String = order.split(';').map(|x| format!("{op} {x}\n")).collect();
            t.push(format!("{BASE}{rules}"));
        }
    }
    r.suite(Suite::new("duplicates", BASE, t, F, words("abc 1", 0, r.b(5, 6))));
    // literal rules against match and context rules
    let pool = lines(&[
        "always ab 4", "word ab 45", "match a ab - 46", "match - ab b 56", "match - ab - 456", "context \"ab\" @6",
        "context \"ab\"[\"c\"] @5", "context [\"a\"]\"b\" @45-5", "always abc 456-4",
    ]);
    r.suite(Suite::new("match and context", BASE, perms(BASE, &pool, 1, r.b(2, 3)), F, words("abc ", 0, r.b(5, 6))));
    let long = lines(&["always abcd 4", "begword ab 5", "midword bc 6", "always bcd 45", "word abc 46", "endword cd 56"]);
    r.suite(Suite::new("long rules", BASE, perms(BASE, &long, 1, r.b(3, 4)), F, words("abcd ", 0, r.b(5, 6))));
    let pool = lines(&["always a 2-3", "always ab 5", "always ab 6", "word ab 56", "begword ab 46", "always abc 456", "always b 3-3"]);
    r.suite(Suite::new("backward", BASE, perms(BASE, &pool, 0, r.b(2, 3)), B, words("⠁⠃⠉⠆⠀⠐⠄", 0, r.b(4, 5))));
    let def = wide_table();
    let mut t = vec![];
    for c in WIDE_LETTERS.chars() {
        for rule in [format!("always {c} 8-1"), format!("always x{c} 8-1"), format!("always {c}x 8-1"), format!("word {c}{c} 8-2\nalways {c} 8-1"), format!("always {c}x =\nalways x{c} 8-1")] {
            t.push(format!("{def}{rule}\n"));
            // where the letter is not defined by itself
            t.push(format!("space \\s 0\nletter x 1346\n{rule}\n"));
        }
    }
    r.suite(Suite::new("upper and lower case beyond ASCII", "", t, F, wide_texts()));
}

const POSITIONAL: &[&str] = &[
    "word", "begword", "midword", "endword", "midendword", "begmidword", "prfword", "sufword", "partword",
    "joinword", "lowword", "syllable", "largesign", "begnum", "midnum", "endnum", "contraction", "repeated",
    "repword", "always", "joinnum",
];

const WIDE: &str = "\
space \\s 0
space \\t 0
punctuation , 2
punctuation - 36
letter a 1
letter b 12
lowercase c 14
uppercase D 145
sign $ 46-16
math + 346
digit 1 16
litdigit 2 23
";

fn rule(op: &str, t: &str) -> String {
    match op {
        "contraction" => format!("contraction {t}\n"),
        _ => format!("{op} {t} 456\n"),
    }
}

pub fn p05(r: &mut Run) {
    let mut t = vec![];
    for op in POSITIONAL {
        for text in ["a", "ab", "b", "1", "-", "a-", "a1", "aa"] {
            t.push(format!("{WIDE}{}", rule(op, text)));
            if text != "ab" {
                t.push(format!("{WIDE}always a 3\n{}", rule(op, text)));
            }
        }
    }
    // every kind of neighbour on both sides
    let nb = ["", " ", "\t", ",", "-", "a", "b", "c", "C", "D", "$", "+", "1", "2", "é", "ß", "x"];
    let mut ins = vec![];
    for l in nb {
        for m in ["a", "ab", "b", "1", "-", "a-", "a1", "aa", "A", "AB", "aab", "aba"] {
            for rr in nb {
                ins.push(format!("{l}{m}{rr}"));
            }
        }
    }
    r.suite(Suite::new("neighbours", WIDE, t.clone(), F, ins));
    r.suite(Suite::new("words", WIDE, t.clone(), F, words("ab, 1-D", 0, r.b(4, 6))));
    let mut t2 = vec![];
    for (i, a) in POSITIONAL.iter().enumerate() {
        for b in &POSITIONAL[i + 1..] {
            let (x, y) = (rule(a, "ab"), rule(b, "ab").replace("456", "56"));
            let (z, w) = (rule(a, "ab"), rule(b, "b").replace("456", "56"));
            let (u, v) = (rule(a, "a"), rule(b, "ab").replace("456", "56"));
            t2.push(format!("{BASE}{x}{y}"));
            t2.push(format!("{BASE}{y}{x}"));
            t2.push(format!("{BASE}{z}{w}"));
            t2.push(format!("{BASE}{u}{v}"));
        }
    }
    r.suite(Suite::new("pairs", BASE, t2, F, words("abc ,", 0, r.b(5, 6))));
    // backward, where the letters are cells
    r.suite(Suite::new("backward", WIDE, t, B, words("⠁⠃⠸⠂⠀⠡", 0, r.b(4, 5))));
    kinds(r, POSITIONAL);
    // rules for long texts
    let (mut t5, mut ins) = (vec![], vec![]);
    let ns: &[usize] = r.b(&[3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100], &[3, 5, 6, 7, 8, 9, 14, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257]);
    for &n in ns {
        let text: String = "ab1-".chars().cycle().take(n).collect();
        for op in POSITIONAL {
            t5.push(format!("{WIDE}{}", rule(op, &text)));
        }
        for l in ["", " ", ",", "a", "1", "x"] {
            for e in ["", " ", ",", "b", "1", "$"] {
                ins.push(format!("{l}{text}{e}"));
            }
        }
        ins.push(text.to_uppercase());
        ins.push(text.repeat(2));
        ins.push(text[1..].into());
        ins.push(text[..n - 1].into());
    }
    r.suite(Suite::new("long rules", WIDE, t5, F, ins));
}

/// how the neighbours became what they are
pub const WAYS: &[&str] = &[
    "letter ? 15", "lowercase ? 15", "uppercase ? 15", "base lowercase ? A", "base uppercase ? a", "base letter ? a", "base punctuation ? ,", "base space ? a", "base digit ? 1", "base litdigit ? 1", "base x ? a", "base math ? $", "base sign ? a",
    "attribute letter ?", "attribute space ?", "attribute punctuation ?", "attribute digit ?", "attribute litdigit ?", "attribute uppercase ?", "attribute lowercase ?", "attribute x ?", "sign ? 15", "math ? 15", "punctuation ? 15", "space ? 15", "digit ? 15", "litdigit ? 15", "hyphen ? 15", "decpoint ? 15",
    "letter ? 15-1", "always ? 15", "display ? 15", "noback letter ? 15", "nofor letter ? 15", "swapcc letter ? a", "seqdelimiter ?", "noback punctuation ? 15", "nofor space ? 15", "sign ? 15\nattribute letter ?", "letter ? 15\nattribute space ?",
];

/// how the neighbours became what they are
fn kinds(r: &mut Run, ops: &[&str]) {
    const SMALL: &str = "space \\s 0\npunctuation , 2\nletter a 1\nletter b 12\nuppercase A 1\ndigit 1 16\nmath $ 6\n";
    for c in ['c', 'C', '-'] {
        let mut t6 = vec![];
        for way in WAYS {
            let way = way.replace('?', &c.to_string());
            for op in ops {
                t6.push(format!("{SMALL}{way}\n{}", rule(op, "ab")));
                t6.push(format!("{SMALL}{}{way}\n", rule(op, "b")));
            }
        }
        r.suite(Suite::new("how neighbours got their kind", SMALL, t6.clone(), F, words(&format!("ab{c} "), 0, r.b(4, 5))));
        r.suite(Suite::new("how neighbours got their kind, backward", SMALL, t6, B, words("⠁⠃⠑⠀⠸", 2, r.b(3, 4))));
    }
}

pub fn p06(r: &mut Run) {
    const T: &str = "\
space \\s 0
punctuation , 2
letter a 1
letter b 12
lowercase c 14
uppercase D 145
digit 1 16
litdigit 2 23
sign $ 46-16
attribute vow ab
attribute dig 12,
attribute empty z
";
    let ops = ["always", "word", "sufword", "prfword", "begword", "begmidword", "midword", "midendword", "endword", "partword"];
    let mods = [
        "before vow", "after vow", "before dig", "after dig", "before letter", "after digit", "before space",
        "after space", "after uppercase", "before lowercase", "before punctuation", "after litdigit", "before sign",
        "before nosuch", "after nosuch", "after empty", "before empty", "before vow after vow", "after vow before dig",
        "after vow after dig", "before vow before dig", "after letter before letter", "before vow before vow",
    ];
    let mut t = vec![];
    for o in ops {
        for m in mods {
            for text in ["ab", "c", "1"] {
                t.push(format!("{T}{m} {o} {text} 456\n"));
                t.push(format!("{T}always {text} 3\n{m} {o} {text} 456\n"));
            }
        }
    }
    r.suite(Suite::new("single", T, t.clone(), F, words("abc1, ", 0, r.b(4, 6))));
    r.suite(Suite::new("other neighbours", T, t.clone(), F, {
        let nb = ["", " ", ",", "a", "A", "c", "C", "D", "d", "1", "2", "$", "z", "é"];
        let mut v = vec![];
        for l in nb {
            for m in ["ab", "c", "1", "AB", "C"] {
                for x in nb {
                    v.push(format!("{l}{m}{x}"));
                }
            }
        }
        v
    }));
    let pool: Vec<String> = ["after vow", "before vow", "after dig", "before dig", "after vow before dig", ""]
        .iter()
        .enumerate()
        .map(|(i, m)| format!("{m} always c 4-{}", i + 1))
        .collect();
    r.suite(Suite::new("competing", T, perms(T, &pool, 1, r.b(3, 4)), F, words("ac1, ", 0, r.b(5, 6))));
    // the direction prefixes and the class defined after its use, extended, or defined twice
    let mut t3 = vec![];
    for p in ["", "nofor ", "noback "] {
        for m in ["before late", "after late", "after two", "before two"] {
            for o in ops {
                t3.push(format!("{T}attribute two a\n{p}{m} {o} c 456\nattribute late ab\nattribute two 1\n"));
            }
        }
    }
    r.suite(Suite::new("late classes", T, t3, F, words("abc1 ", 0, r.b(4, 6))));
    // names that differ in little are names of different classes
    let names = ["vow", "Vow", "VOW", "vo", "vowe", "Letter", "letter", "LETTER", "Digit", "before", "always", "x", "X", "numericmodechars", "noemphchars", "9"];
    let mut t4 = vec![];
    for a in names {
        for b in names {
            t4.push(format!("{T}attribute {a} a\nattribute {b} b\nbefore {a} always c 456\nafter {b} always c 56\n"));
            t4.push(format!("{T}attribute {b} 1\nattribute {a} b\nafter {a} always c 456\n"));
            t4.push(format!("{T}attribute {a} b1\nafter {b} before {a} always c 456\n"));
        }
    }
    r.suite(Suite::new("names of classes", T, t4, F, words("abc1", 2, r.b(3, 4))));
    r.suite(Suite::new("backward", T, t, B, words("⠁⠉⠸⠂⠀⠡", 0, r.b(4, 5))));
    // every class, every way into it
    let mut t7 = vec![];
    for way in WAYS {
        for class in ["space", "digit", "litdigit", "letter", "lowercase", "uppercase", "punctuation", "sign", "math", "hyphen", "x", "seqdelimiter", "seqbeforechars", "seqafterchars", "decpoint"] {
            for (ch, own) in [("d", ""), ("D", ""), ("-", ""), ("d", "letter d 15\n"), ("d", "letter d 15-4\n"), ("d", "nofor letter d 15\n"), ("d", "noback letter d 15\n"), ("d", "punctuation d 15\n")] {
                let way = way.replace('?', ch);
                let base = format!("space \\s 0\npunctuation , 2\nletter a 1\nuppercase A 17\ndigit 1 16\nlitdigit 2 23\nmath $ 6\nletter c 14\n{own}");
                t7.push(format!("{base}{way}\nbefore {class} always c 456\nafter {class} always c 45\n"));
            }
        }
    }
    r.suite(Suite::new("ways into classes", "", t7, FB, [words("cdD", 1, 3), words("c-", 1, 3), seqs(&["⠉", "⠑", "⠈", "⠸", "⠘"], 1, r.b(3, 4)), lines(&["ca", "ac", "cA", "Ac", "1c", "c1", "2c", "c2", "$c", "c$", ",c", "c,", " c", "c ", "⠁⠸", "⠸⠁", "⠡⠘", "⠸⠡", "⠂⠘", "⠸⠂", "⠸⠀", "⠀⠘", "⠆⠘", "⠸⠆", "⠠⠘", "⠸⠠", "⡁⠘", "⠸⡁"])].concat()));
    // the lines of a table in every order
    let ls = lines(&["letter a 1", "letter c 14", "attribute q a", "after q always c 456", "base q b a"]);
    let mut t5 = perms("space \\s 0\n", &ls, 4, 5);
    t5.extend(perms("space \\s 0\n", &lines(&["letter a 1", "letter c 14", "attribute q a", "before q always c 456", "nofor letter a 3"]), 4, 5));
    r.suite(Suite::new("order of lines", "", t5, FB, [words("abcA ", 0, r.b(3, 4)), words("⠁⠉⠄⠸⠀", 0, r.b(3, 4))].concat()));
}

pub fn p07(r: &mut Run) {
    let defs = [
        "letter", "lowercase", "uppercase", "punctuation", "digit", "litdigit", "sign", "math", "hyphen", "decpoint",
        "space",
    ];
    let mut pool = vec![];
    for d in defs {
        pool.push(format!("{d} a 1"));
        pool.push(format!("{d} a 2-3"));
    }
    pool.extend(lines(&[
        "base uppercase A a", "base lowercase a A", "base foo a b", "base uppercase a b", "letter b 12", "letter A 1-7",
        "undefined 26", "undefined 3-26", "display a 5", "letter x 1346", "letter \\\\ 34-3",
    ]));
    r.suite(Suite::new("definitions", "", perms("", &pool, 0, 2), FB, words("aAb⠁⠆", 0, r.b(3, 4))));
    let mut three = vec![];
    for d in ["letter", "uppercase", "digit", "punctuation", "litdigit", "decpoint"] {
        three.push(format!("{d} a 1"));
        three.push(format!("{d} a 2-3"));
    }
    three.extend(lines(&["base uppercase A a", "base lowercase a b", "letter A 1-7", "letter b 5", "undefined 26"]));
    r.suite(Suite::new("three definitions", "", perms("", &three, 3, 3), FB, words("aAb⠁⠆", 0, r.b(2, 3))));
    // characters without a definition
    let und = [
        "", "undefined 26\n", "undefined 3-4-5\n", "letter x 1346\n", "digit 1 16\ndigit 0 245\n",
        "letter x 1346\nundefined 26\n", "sign \\\\ 1256-1\n", "letter e 15\ndigit 9 24\n", "uppercase x 46\n",
        "undefined 26\nundefined 35\n",
    ];
    let mut ins: Vec<String> = (0x20u32..0x250).filter_map(char::from_u32).map(String::from).collect();
    for c in ['\0', '\n', '\t', '\u{7f}', '\u{200b}', '\u{2028}', '⠁', '⣿', '\u{e000}', '\u{f1b2}', '\u{f7ff}', '\u{fffd}',
        '\u{ffff}', '\u{10000}', '\u{10ffff}', '\u{f0000}', '\u{f7fff}', '\u{12345}', '\u{6789a}', '\u{bcdef}', '😀', 'ﬁ', 'İ', 'ǆ']
    {
        for p in ["", "x", "1 "] {
            ins.push(format!("{p}{c}"));
            ins.push(format!("{p}{c}{c}x"));
        }
    }
    r.suite(Suite::new("undefined characters", "", und.iter().map(|s| s.to_string()).collect(), FB, ins));
    kinds(r, &["word", "begword", "midword", "endword", "begnum", "always"]);
    // case: a rule in lower case applies to capital letters too
    let rules = lines(&[
        "letter a 1", "uppercase A 17", "base uppercase A a", "lowercase b 12", "uppercase B 127", "always ab 4",
        "word ab 5", "always aB 6", "letter é 123456", "uppercase É 2-3", "always é 5-5", "letter ß 2346", "letter ǆ 3",
        "undefined 26",
    ]);
    r.suite(Suite::new("letter case", "", perms("", &rules, 1, r.b(3, 3)), F, seqs(&["a", "A", "b", "B", " ", "É"], 0, r.b(3, 4))));
    r.suite(Suite::new("unusual case", "", perms("", &rules, 1, 2), F, seqs(&["ß", "ẞ", "ǅ", "ǆ", "é", "İ", "ς", "Σ", "ﬁ"], 0, r.b(3, 4))));
    // rules spelled with implicit dots
    let imp = lines(&[
        "letter a 1", "letter b 12-3", "base uppercase A a", "always ab =", "word ab =", "always aA =", "always ac =",
        "contraction ab", "letter c 14", "noback always b =", "always aab =", "match - ab - =", "comp6 ab =",
        "endnum a =", "nofor letter a 5", "noback letter a 6", "base x $ a\nalways a$ =", "base x \\x00e9 b\nalways éa =", "base digit 1 $\nbase x $ a\nalways $1 =",
    ]);
    r.suite(Suite::new("implicit dots", "", perms("", &imp, 1, r.b(3, 4)), FB, words("aAbc$é⠁⠃⠄", 0, r.b(3, 3))));
}

pub fn p08(r: &mut Run) {
    const T: &str = "\
space \\s 0
punctuation , 2
letter a 1
letter b 12
letter c 14
digit 1 16
";
    let pool = lines(&[
        "always ab 12", "always abc 123", "always ca 1-1", "word ab 1-12", "letter d 1-14", "always cab 14-1",
        "begword ba 12-12", "endword ab 14-14", "noback always bb 12-1", "nofor always cc 12-1", "always a 14",
        "midword bb 1-1", "undefined 26",
    ]);
    r.suite(Suite::new("candidates", T, perms(T, &pool, 0, r.b(2, 3)), B, words("⠁⠃⠉⠀⠂⠇", 0, r.b(5, 6))));
    let pool = lines(&[
        "letter d 1", "letter e 12-12", "uppercase A 1", "base uppercase A a", "digit 2 1", "litdigit 3 12", "sign $ 4-1",
        "punctuation . 12", "decpoint . 2", "hyphen - 36", "math + 4", "letter c 14-1", "nofor letter f 14",
        "noback letter g 124",
    ]);
    r.suite(Suite::new("characters", T, perms(T, &pool, 0, r.b(2, 3)), B, words("⠁⠃⠉⠈⠂⠤", 0, r.b(4, 5))));
    // several rules of the same cells, of texts longer and shorter than these
    let pool = lines(&[
        "sign $ 1-12", "math + 1-12", "letter e 15", "letter e 1-12", "always ab 1-12", "always abcabc 1-12", "always abc 15", "always abcabc 15", "word ab 15", "word a 1-12", "begword abca 15", "endword b 15", "midword b 1-12",
        "contraction bb", "sign # 15", "context \"abc\" @15", "match - abcabc - 15", "always a 1-12-1", "letter f 1-12-1", "punctuation . 15", "largesign abc 15", "largesign b 15",
    ]);
    r.suite(Suite::new("the same cells", T, perms(T, &pool, 0, r.b(2, 3)), B, words("⠁⠃⠑⠀⠂", 0, r.b(4, 5))));
    // all opcodes
    let mut t = vec![];
    for op in POSITIONAL {
        for (text, d) in [("ab", "1-12"), ("a", "4"), ("bc", "1"), ("a1", "12-4"), ("abc", "4-1")] {
            let l = if *op == "contraction" { format!("{op} {text}\n") } else { format!("{op} {text} {d}\n") };
            t.push(format!("{T}{l}"));
            t.push(format!("{T}always ba 4\n{l}always cb 4-1\n"));
        }
    }
    r.suite(Suite::new("opcodes", T, t, B, words("⠁⠃⠈⠀⠂⠡", 0, r.b(4, 6))));
    // cells no rule knows, text that is no braille, the large plane
    let odd = ["letter f 1a", "letter g 9-1", "undefined 26", "display a 1", "space \\t 0", "numsign 3456", "letsign 56", "nocontractsign 46"];
    r.suite(Suite::new("unusual cells", T, subsets(T, &odd, 0, 8), B, seqs(&["⠁", "\u{f0201}", "\u{f0100}", "⣿", "x", "⠼", "⠰", "é"], 0, r.b(4, 5))));
    roundtrip(r);
}

/// Backward translation inverts forward translation where the table is uniquely decodable.
fn roundtrip(r: &mut Run) {
    let t = "\
space \\s 0
punctuation , 2
letter a 1
letter b 12
letter c 14
letter d 145
";
    let rules = ["always ab 126", "always cd 16", "word abc 4-1", "word d 4-145", "always dd 2356", "always bcd 34"];
    let tables = subsets(t, &rules, 0, rules.len());
    let ins: Vec<String> = words("abcd ,", 0, r.b(5, 6));
    let mut n = 0;
    for t in &tables {
        let (Ok(f), Ok(b)) = (build(t, true), build(t, false)) else {
            return r.violate("roundtrip", format!("table rejected\n{t}"));
        };
        for i in &ins {
            let there = translate(&f, i, &[]);
            let back = translate(&b, &there, &[]);
            n += 1;
            if &back != i {
                return r.violate("roundtrip", format!("input {i:?} forward {there:?} backward {back:?}\n{t}"));
            }
        }
    }
    r.add("roundtrips", n);
}
