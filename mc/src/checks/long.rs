//! Sizes: long texts, long runs, long rules and many conditions. Every length up to a bound and the
//! lengths around the powers of two, where a counter or a buffer would run over.
use super::*;
use crate::model::Span;

const B0: &str = "\
space \\s 0
punctuation , 2
punctuation . 256
sign $ 46
letter a 1
letter b 12
letter c 14
letter d 145
digit 1 16
digit 2 126
litdigit 1 1
litdigit 2 12
base uppercase A a
base uppercase B b
attribute x ac
attribute y ab
attribute z ad
swapcc sw ab bc
swapcd sd ab 25,26
swapdd dd 1,12 14,15
";

fn counts(hi: usize, big: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=hi).collect();
    v.extend([15, 16, 17, 31, 32, 33, 34, 63, 64, 65, 66]);
    if big {
        v.extend([127, 128, 129, 254, 255, 256, 257, 258]);
    }
    v.sort_unstable();
    v.dedup();
    v
}

/// prefix unit^n suffix
fn runs(units: &[&str], pre: &[&str], post: &[&str], ns: &[usize]) -> Vec<String> {
    let mut v = vec![];
    for u in units {
        for p in pre {
            for q in post {
                for n in ns {
                    v.push(format!("{p}{}{q}", u.repeat(*n)));
                }
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

fn cells(s: &str) -> String {
    s.chars()
        .map(|c| match c {
            'a' => '⠁',
            'b' => '⠃',
            'c' => '⠉',
            'd' => '⠙',
            ',' => '⠂',
            ' ' => '⠀',
            '^' => '⠠',
            '#' => '⠼',
            '.' => '⠲',
            c => c,
        })
        .collect()
}

pub fn long(r: &mut Run) {
    let own = cross::own(&r.prop.clone());
    if own.is_empty() {
        return;
    }
    let (fwd, bwd) = cross::directions(&r.prop);
    let spans = matches!(r.prop.as_str(), "P11" | "P13");
    let mut tables: Vec<String> = own.iter().map(|o| format!("{B0}{o}\n")).collect();
    let ns = counts(r.b(12, 40), true);
    let f = |t: &str| format!("{B0}{t}\n");
    let rep = |s: &str, n: usize| s.repeat(n);
    let dots = |d: &str, n: usize| vec![d; n].join("-");
    // rules whose own size varies
    match r.prop.as_str() {
        "P04" | "P08" => {
            for n in counts(r.b(12, 30), true) {
                if n > 0 {
                    tables.push(f(&format!("always {} 3", rep("a", n))));
                    tables.push(f(&format!("always {} {}", rep("a", n), dots("3", n))));
                    tables.push(f(&format!("always b {}", dots("3", n))));
                    tables.push(f(&format!("always {} 3\nalways {}b 6", rep("a", n), rep("a", n.saturating_sub(1)))));
                    tables.push(f(&format!("always {} 3\nalways {} 6\nword {} 5", rep("a", n), rep("a", n), rep("a", n))));
                }
            }
        }
        "P06" => {
            let c = ["before x", "before y", "before z", "after x", "after y", "after z"];
            for m in seqs(&["0", "1", "2", "3", "4", "5"], 3, r.b(3, 4)) {
                let mods: Vec<&str> = m.chars().map(|k| c[k as usize - 48]).collect();
                tables.push(f(&format!("{} always a 3", mods.join(" "))));
                if m.len() == 3 {
                    tables.push(f(&format!("{} word b 3", mods.join(" "))));
                }
            }
        }
        "P14" => {
            for n in counts(r.b(10, 20), true) {
                let a = rep("a", n.max(1));
                tables.push(f(&format!("match {a} b - 3")));
                tables.push(f(&format!("match - b {a} 3")));
                tables.push(f(&format!("match {a} b c 3\nalways ab 5\nalways aa 6")));
                tables.push(f(&format!("match {} b c 3\nalways ab 5\nalways ba 6", rep("ab", n.max(1)))));
                tables.push(f(&format!("match {} b c 3", rep("a?", n.clamp(1, 8)))));
                tables.push(f(&format!("match - {} , 3", rep("a", n.max(1)))));
                tables.push(f(&format!("match - b ({}|c)* 3", a)));
            }
        }
        "P15" => {
            let m: &[usize] = if r.b(0, 1) == 0 { &[0, 1, 2, 15, 20, 31, 32, 33, 40, 63, 64, 65, 255] } else { &[0, 1, 2, 3, 7, 15, 16, 19, 20, 30, 31, 32, 33, 40, 62, 63, 64, 65, 66, 100, 127, 128, 200, 254, 255] };
            for &lo in m {
                for &hi in m {
                    if hi >= lo {
                        tables.push(f(&format!("context $l{lo}-{hi}[\",\"] @3")));
                        if lo % 2 == 0 {
                            tables.push(f(&format!("pass2 [%x{lo}-{hi}] @3")));
                        }
                        if lo % 3 == 0 {
                            tables.push(f(&format!("correct [\"b\"]$l{lo}-{hi} \"c\"")));
                        }
                    }
                }
                tables.push(f(&format!("context $l{lo} @3")));
                tables.push(f(&format!("context %x{lo} @3\npass2 [%x{lo}]@12 @3\ncorrect $l{lo}[\"b\"] \"c\"")));
                tables.push(f(&format!("context %x{lo} @3")));
                tables.push(f(&format!("context \"{}\"[\",\"] @3\nalways aa 5", rep("a", lo))));
                tables.push(f(&format!("context [\"{}\"]\",\" @3\nalways aa 5", rep("a", lo))));
                tables.push(f(&format!("pass2 {}[@2] @3", if lo == 0 { String::new() } else { format!("@{}", dots("1", lo)) })));
                tables.push(f(&format!("context [\"b\"]\"{}\"\",\" {}", rep("a", lo), if lo == 0 { "?".into() } else { format!("@{}", dots("3", lo)) })));
            }
        }
        "P16" => {
            for n in [1usize, 2, 3, 10, 100, 127, 128, 254, 255] {
                tables.push(f(&format!("context \"a\" @5#1+\ncontext #1={n}\"b\" @6")));
                tables.push(f(&format!("context \"a\" @5#1+\ncontext #1>={n}\"b\" @6\ncontext \",\" *#1=0")));
                tables.push(f(&format!("context `[] #1={n}\ncontext \"a\" @5#1-\ncontext #1<1\"b\" @6")));
                tables.push(f(&format!("pass2 @1 *#1+\npass2 #1={n}@12 @6")));
                tables.push(f(&format!("correct \"a\" *#1+\ncorrect #1={n}\"b\" \"c\"")));
                tables.push(f(&format!("context \"a\" @5{}\ncontext #1={n}\"b\" @6", rep("#1+", n))));
                tables.push(f(&format!("context \"a\" @5#{n}=3\ncontext #{n}=3\"b\" @6\ncontext #{}=3\"c\" @4", n - 1)));
            }
        }
        "P17" => {
            // every selection of passes, each adding its mark
            let pool = ["correct \"a\" \"b\"", "context \"b\" @3", "pass2 @3 @3-2", "pass3 @3 @3-3", "pass4 @3 @3-4", "pass2 @2 @3", "pass3 @2 @3", "pass4 @2 @12"];
            tables.extend(subsets(B0, &pool, 1, 8));
        }
        "P18" => {
            let al = "abcd12,.$";
            let c: Vec<char> = al.chars().collect();
            for n in 1..=c.len() {
                let from: String = c[..n].iter().collect();
                let rot: String = (0..n).map(|i| c[(i + 1) % n]).collect();
                tables.push(f(&format!("swapcc s {from} {rot}\ncontext %s1-255 %s")));
                tables.push(f(&format!("swapcc s {from} {}\ncontext [%s.] %s", rep("a", n))));
                tables.push(f(&format!("swapcd s {from} {}\ncontext %s %s", vec!["4"; n].join(","))));
                tables.push(f(&format!("swapcd s {from} {}\ncontext %s1-255 %s", (0..n).map(|i| dots("4", 1 + i % 3)).collect::<Vec<_>>().join(","))));
                tables.push(f(&format!("swapcd s {from} {}\ncorrect \"x\" \"y\"\ncontext %s. %s", (0..n).map(|i| dots("46", n - i)).collect::<Vec<_>>().join(","))));
                let cs = ["1", "12", "14", "145", "16", "126", "2", "256", "46"];
                tables.push(f(&format!("swapdd s {} {}\npass2 %s. %s", cs[..n].join(","), (0..n).map(|i| cs[(i + 1) % n].to_string()).collect::<Vec<_>>().join(","))));
                tables.push(f(&format!("swapdd s {} {}\npass2 %s %s", cs[..n].join(","), (0..n).map(|i| dots("4", 1 + i % 2)).collect::<Vec<_>>().join(","))));
            }
        }
        _ => {}
    }
    // phrases of at least so many words
    let ns2: Vec<usize> = counts(r.b(16, 70), true);
    if r.prop == "P10" {
        let mut t = vec![];
        for n in &ns2 {
            t.push(f(&format!("capsletter 3\nbegcapsphrase 3-5\nendcapsphrase after 3-6\nlencapsphrase {n}")));
            t.push(f(&format!("begcapsword 3-3\nbegcapsphrase 3-5\nendcapsphrase before 3-6\nlencapsphrase {n}")));
        }
        r.suite(Suite::new("lengths of phrases", B0, t, F, runs(&["AB "], &["", "a "], &["", "a"], &ns2)));
    }
    if r.prop == "P11" {
        let mut t = vec![];
        for n in &ns2 {
            let e = "emphclass italic\nbegemphphrase italic 3-6\nbegemphword italic 3-2";
            t.push(f(&format!("{e}\nendemphphrase italic before 3-12\nlenemphphrase italic {n}")));
            t.push(f(&format!("{e}\nendemphphrase italic after 3-12\nlenemphphrase italic {n}")));
        }
        let sp = |a: usize, b: usize| vec![Span { class: "italic".into(), start: a, end: b }];
        r.suite(Suite::new("lengths of phrases", B0, t, F, runs(&["ab "], &["", "b "], &[""], &ns2)).with_spans(vec![sp(0, 5000), sp(2, 5000)]));
    }
    if fwd {
        let mut ins = match r.prop.as_str() {
            "P09" => runs(&["1", "12", "1,", "1.", "1a", "1 ", ",", ".2", "a1"], &["", "a", "1", ", "], &["", "a", "1", " 1", ",1"], &ns),
            "P10" => runs(&["A", "AB ", "A ", "A,", "Ab ", "AB, ", "AB 1 ", "."], &["", "a", "a ", "AB "], &["", "a", "AB", " a", ".A"], &counts(r.b(12, 30), false)),
            "P16" => runs(&["a", "ab", "ac", "ba"], &["", ",", "c"], &["", "b", ",b", "bb"], &ns),
            "P20" => runs(&[",", ".", ",.", "a,", ", ", "1."], &["", "a", "1", " ", "$"], &["", "a", "1", " ", "$"], &ns),
            "P07" => runs(&["a", "D", "é", "ab", "$"], &["", "a"], &["", "A", "x"], &ns),
            "P17" => runs(&["a", "ab"], &["", "b"], &["", "b"], &[0, 1, 2, 3, 4, 5, 8, 33, 65]),
            "P06" => runs(&["a", "ab", "ac"], &["", "b"], &["", "b", "c"], &[5, 16, 33]),
            "P14" => runs(&["a", "ab"], &["", "b", ", "], &["", "bc", "b,", "c"], &ns),
            "P15" => runs(&["a", "ab"], &["", "b"], &["", ",", "b"], &ns),
            "P04" => runs(&["a", "aA"], &["", "b", "c "], &["", "b", " a"], &ns),
            _ => runs(&["a", "ab", "aA", "ac", "b", ", ", "1"], &["", "b", "c "], &["", ",", "b", "c", "bc", " a"], &ns),
        };
        if matches!(r.prop.as_str(), "P18") {
            ins.extend(seqs(&["a", "b", "d", "1", "2", ",", ".", "$", "x"], 1, r.b(3, 4)));
        }
        if r.prop == "P06" {
            ins.extend(words("abcd ", 1, r.b(4, 5)));
        }
        if !spans {
            r.suite(Suite::new("sizes", B0, tables.clone(), F, ins));
        } else {
            let classes: &[&str] = if r.prop == "P11" { &["italic", "bold"] } else { &["computer_braille", "italic"] };
            let ins = runs(&["a", "ab ", "1,"], &["", "b "], &["", " a"], &ns);
            let mut sp = vec![];
            for n in [1usize, 2, 3, 4, 6, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 600] {
                sp.push(vec![Span { class: classes[0].into(), start: 0, end: n }]);
                sp.push(vec![Span { class: classes[0].into(), start: 2, end: n + 2 }]);
                // many spans
                sp.push((0..n.min(64)).map(|i| Span { class: classes[i % 2].into(), start: 2 * i, end: 2 * i + 1 }).collect());
                sp.push((0..n.min(64)).map(|i| Span { class: classes[0].into(), start: 3 * i, end: 3 * i + 2 }).collect());
            }
            r.suite(Suite::new("sizes", B0, tables.clone(), F, ins).with_spans(sp));
        }
    }
    if bwd {
        let ins = match r.prop.as_str() {
            "P08" => runs(&["a", "⠄", "aab"], &["", "b"], &["", "b", " a", "⠄b"], &ns),
            "P15" => runs(&["a", "ab"], &["", "b"], &["", ",", "b"], &ns),
            "P17" => runs(&["a", "⠄"], &["", "b"], &["", "b"], &[0, 1, 2, 3, 4, 5, 8, 33, 65]),
            "P16" | "P18" => runs(&["a", "ab", "⠐", "⠄"], &["", "b"], &["", "b", " a"], &ns),
            _ => runs(&["a", "ab", "c", "^a", "#a", "^", "#", "ac ", "⠄"], &["", "^", "#", "b", "^^"], &["", "b", "c", " a", ",", "⠄b"], &ns),
        };
        let ins: Vec<String> = ins
            .iter()
            .map(|s| cells(s))
            .collect();
        r.suite(Suite::new("sizes, backward", B0, tables, B, ins));
    }
    others(r, own);
}

/// the rules of the property among many others that have nothing to do with the text, and texts that go
/// on for long
fn others(r: &mut Run, own: &[&str]) {
    let (fwd, bwd) = cross::directions(&r.prop);
    // the k-th of many characters and of many cells
    let ch = |k: usize| char::from_u32(0x4e00 + k as u32).unwrap();
    let cell = |k: usize| (0..12).filter(|b| (k + 1) >> b & 1 == 1).map(|b| ["7", "8", "9", "a", "b", "c", "d", "e", "f", "1", "2", "3"][b]).collect::<String>();
    let letters = |n: usize| (0..n).map(|k| format!("letter {} {}\n", ch(k), cell(k))).collect::<String>();
    let each = |n: usize, f: &dyn Fn(usize) -> String| (0..n).map(|k| f(k) + "\n").collect::<String>();
    let filler = |kind: usize, n: usize| -> String {
        match kind {
            0 => letters(n),
            1 => each(n, &|k| format!("always {}{} {}", ch(k), ch(k + 1), cell(k))),
            2 => each(n, &|k| format!("word a{} {}", ch(k), cell(k))),
            3 => each(n, &|k| format!("match a {} b {}", ch(k), cell(k))),
            4 => each(n, &|k| format!("context \"{}\" @{}", ch(k), cell(k))),
            5 => each(n, &|k| format!("correct \"{}\" \"a\"", ch(k))),
            6 => each(n, &|k| format!("pass2 @{} @1", cell(k))),
            7 => each(n, &|k| format!("attribute k{} {}", char::from_u32(97 + (k % 26) as u32).unwrap().to_string().repeat(1 + k / 26), ch(k))),
            8 => each(n, &|k| format!("swapcc s{} {} {}", char::from_u32(97 + (k % 26) as u32).unwrap().to_string().repeat(1 + k / 26), ch(k), ch(k + 1))),
            9 => each(n, &|k| format!("sign {} {}\nbase uppercase {} {}", ch(k), cell(k), char::from_u32(0x6e00 + k as u32).unwrap(), ch(k))),
            10 => format!("numericmodechars {0}\ncapsmodechars {0}\nnoletsign {0}\nattribute x {0}\nattribute y {0}\n", each(n.max(1), &|k| ch(k).to_string()).replace('\n', "")),
            11 => letters(n + 1) + &each(n, &|k| format!("contraction {}{}", ch(k), ch(k + 1))),
            12 => each(n, &|k| format!("compbrl {}\nmidnum {} {}", ch(k), ch(k), cell(k))),
            _ => each(n, &|k| format!("before {} always {} {}", ["x", "y", "z"][k % 3], ch(k), cell(k))),
        }
    };
    let ns: &[usize] = r.b(&[20, 63, 64, 65, 127, 128, 129, 255, 256, 257], &[1, 20, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025]);
    let mut tables = vec![];
    for (i, o) in own.iter().enumerate() {
        for kind in 0..14 {
            for (j, n) in ns.iter().enumerate() {
                let f = filler(kind, *n);
                if r.thorough || (i + j + kind) % 2 == 0 {
                    tables.push(format!("{B0}{o}\n{f}"));
                }
                if r.thorough || (i + j + kind) % 2 == 1 {
                    tables.push(format!("{B0}{f}{o}\n"));
                }
            }
        }
    }
    let rules: Vec<String> = own.iter().flat_map(|o| o.lines()).map(|l| l.to_string()).collect();
    if fwd {
        let mut ins = lines(&["ab", "a", "aba b", "AB ab", "aB AB A", "1,2.1a", "a1 b2", ",a.", "b a ab", "ac,ba ca", "$a$ d", "aabb abab"]);
        for k in [0usize, 1, 62, 63, 64, 127, 254, 255, 256] {
            let (c, d) = (ch(k), ch(k + 1));
            ins.extend([format!("a{c}b"), format!("{c}{d}a"), format!("ab{c}"), format!("{c} a{c} ab")]);
        }
        let mut suite = Suite::new("among many rules", B0, tables.clone(), F, ins);
        if matches!(r.prop.as_str(), "P11" | "P13") {
            let class = if r.prop == "P11" { "italic" } else { "computer_braille" };
            let s = |a: usize, b: usize| vec![Span { class: class.into(), start: a, end: b }];
            suite = suite.with_spans(vec![vec![], s(0, 2), s(1, 4)]);
        }
        r.suite(suite.of(&rules));
    }
    if bwd {
        let mut ins: Vec<String> = ["ab", "a", "^ab ^a", "^^ab a", "#a,b", "ab ba", "c,a", ".ab", "aabb abab"].iter().map(|s| cells(s)).collect();
        for k in [0usize, 1, 62, 63, 64, 127, 254, 255, 256] {
            let c = char::from_u32(0x2800 + ((k as u32 + 1) & 0xff)).unwrap();
            ins.extend([format!("⠁{c}⠃"), format!("{c}{c}⠁"), format!("⠠{c}⠼{c}")]);
        }
        r.suite(Suite::new("among many rules, backward", B0, tables, B, ins).of(&rules));
    }
    // long texts
    let tables: Vec<String> = own.iter().map(|o| format!("{B0}{o}\n")).collect();
    let ns: &[usize] = r.b(&[511, 512, 513, 1000, 1023, 1024, 1025, 4097], &[511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8193]);
    if fwd {
        let mut ins = vec![];
        for n in ns {
            for u in ["ab ba, ", "AB aB 1,2 ", "a", "cab1.", " "] {
                let t: String = u.chars().cycle().take(*n).collect();
                ins.extend([format!("{t}ab AB 1a, b.a"), t]);
            }
        }
        let mut suite = Suite::new("long texts", B0, tables.clone(), F, ins);
        if matches!(r.prop.as_str(), "P11" | "P13") {
            let class = if r.prop == "P11" { "italic" } else { "computer_braille" };
            let s = |a: usize, b: usize| vec![Span { class: class.into(), start: a, end: b }];
            suite = suite.with_spans(vec![vec![], s(2, 5), s(510, 515), s(1020, 1029), s(3, 100_000)]);
        }
        r.suite(suite);
    }
    if bwd {
        let mut ins = vec![];
        for n in ns {
            for u in ["ab ba,", "^ab ^^a ", "#a,b", "a", "⠄ "] {
                let t: String = cells(u).chars().cycle().take(*n).collect();
                ins.extend([format!("{t}⠁⠃⠠⠁⠼⠁"), t]);
            }
        }
        r.suite(Suite::new("long texts, backward", B0, tables, B, ins));
    }
}
