//! Checks over table files: hyphenation dictionaries (P19) and includes (P22).
use super::*;

fn with_dic(table: &str, dic: &str) -> String {
    format!("=== load @/t\n=== A:t\n{table}\n=== A:h.dic\n{dic}\n")
}

/// every selection of lo..=hi distinct patterns of the pool, one per line
fn choices(pool: &[&str], lo: usize, hi: usize) -> Vec<String> {
    let pool: Vec<&str> = pool.to_vec();
    let mut out: Vec<Vec<usize>> = vec![vec![]];
    let mut all = vec![];
    for n in 0..=hi {
        if n >= lo {
            all.extend(out.iter().map(|c| c.iter().map(|i| pool[*i]).collect::<Vec<_>>().join("\n")));
        }
        out = out
            .iter()
            .flat_map(|c| {
                (c.last().map_or(0, |l| l + 1)..pool.len()).map(move |i| {
                    let mut c = c.clone();
                    c.push(i);
                    c
                })
            })
            .collect();
    }
    all
}

pub fn p19(r: &mut Run) {
    let inc = "include @/h.dic\n";
    // the points of a dictionary, made visible by rules for every pair of letters
    let probe = format!("{BASE}{inc}uppercase A 1\nnocross always ab 3\nnocross always ba 4\nnocross always aa 5\nnocross always bb 6\n");
    let pool = [
        "a1b", "b1a", "a1a", "b1b", "a2b", "b2a", "1a", "a1", "1b", "b1", ".a1", ".ab1", "1a.", "1ba.", "a1b2a", "a2b3", "3ab", "ab4", "a3ba", "2b1b", "ab1ab", "9b8", "A1b", "a1-b", "é1a", "1", ".1a", "a1.",
        "a12b", "a1b.", "b1ab", "a21b", "3a10b",
    ];
    let dics = choices(&pool, 0, r.b(3, 4));
    let n = r.b(6, 7);
    let tables = dics.iter().map(|d| with_dic(&probe, &format!("UTF-8\n{d}"))).collect();
    r.suite(Suite::new("dictionary points", BASE, tables, F, words("ab", 0, n)));
    let tables = dics.iter().filter(|d| d.lines().count() <= r.b(2, 3)).map(|d| with_dic(&probe, &format!("UTF-8\n{d}"))).collect();
    r.suite(Suite::new("dictionary points, other characters", BASE, tables, F, words("abA- 1", 0, r.b(4, 5))));

    // several digits at one place
    let mut pats: Vec<String> = vec![];
    for d in words("0123", 1, r.b(3, 4)) {
        pats.extend([format!("a{d}b"), format!("{d}ab"), format!("b{d}."), format!(".a{d}b"), format!("a{d}b2a")]);
    }
    let tables = pats.iter().flat_map(|p| ["", "a1b", "a2b"].map(|q| with_dic(&probe, &format!("UTF-8\n{p}\n{q}")))).collect();
    r.suite(Suite::new("several digits at one place", BASE, tables, F, words("ab", 2, 5)));

    // margins
    let mut heads = vec![];
    for l in ["", "LEFTHYPHENMIN 0", "LEFTHYPHENMIN 1", "LEFTHYPHENMIN 2", "LEFTHYPHENMIN 3", "LEFTHYPHENMIN 9", "LEFTHYPHENMIN 18446744073709551615", "LEFTHYPHENMIN2"] {
        for q in ["", "RIGHTHYPHENMIN 0", "RIGHTHYPHENMIN 1", "RIGHTHYPHENMIN 2", "RIGHTHYPHENMIN\t3 ", "RIGHTHYPHENMIN 4", "RIGHTHYPHENMIN 18446744073709551615"] {
            heads.push(format!("{l}\n{q}"));
            heads.push(format!("{q}\n{l}"));
        }
    }
    let mut tables = vec![];
    for h in &heads {
        for d in ["1a\n1b", "a1b\nb1a", "a1", ".a1\nb1."] {
            tables.push(with_dic(&probe, &format!("UTF-8\n{h}\n{d}")));
            tables.push(with_dic(&probe, &format!("UTF-8\n{d}\n{h}")));
        }
    }
    r.suite(Suite::new("margins", BASE, tables, F, words("ab", 0, n)));

    // the format of a dictionary: every sequence of lines
    let bits = [
        "UTF-8\n", "utf-8\n", "ISO8859-1\n", "iso8859-1\n", "ISO8859-2\n", "\n", "# a1\n", "% a1\n", "  a1b  \n", "a1b\r\n", "ab\n", "a0b\n", "0\n", "1\n", "LEFTHYPHENMIN\n", "LEFTHYPHENMIN x\n", "LEFTHYPHENMIN -1\n",
        "RIGHTHYPHENMIN 1 2\n", "LEFTHYPHENMIN 2\n", "RIGHTHYPHENMIN 2\n", "a1b # c\n", "a1b c\n", "NEXTLEVEL\n", "a1b", "\u{feff}UTF-8\n", "a\u{661}b\n", "COMPOUNDLEFTHYPHENMIN 2\n",
    ];
    let texts = seqs(&bits, 0, r.b(2, 3));
    let mut tables = vec![];
    for t in &texts {
        tables.push(format!("=== load @/t\n=== A:t\n{probe}=== A:h.dic nonl\n{t}"));
    }
    r.suite(Suite::new("dictionary format", BASE, tables, FB, lines(&["", "ab", "ba", "abab", "aab"])));

    // where the dictionary is, and which one counts
    let one = |secs: &str, inc: &str| format!("=== load @/t\n=== A:t\n{BASE}nocross always ab 3\nnocross always ba 4\n{inc}{secs}");
    let files = ["", "=== A:h.dic\nUTF-8\na1b\n", "=== A:h.dic\nUTF-8\nb1a\n", "=== A:h.dic binary\n", "=== A:h.dic dir\n", "=== A:h.dic link A:g.dic\n", "=== A:h.dic\nab\n", "=== A:h.dic nonl\n"];
    let others = ["", "=== A:g.dic\nUTF-8\nb1a\n", "=== B:h.dic\nUTF-8\n1a\n", "=== A:d/h.dic\nUTF-8\n1b\n", "=== A:inc\ninclude @/g.dic\n=== A:g.dic\nUTF-8\n1b\n"];
    let incs = [
        "", "include @/h.dic\n", "include @/g.dic\n", "include @/h.dic\ninclude @/g.dic\n", "include @/g.dic\ninclude @/h.dic\n", "include @/d/h.dic\n", "include @/d/../h.dic\n", "include @/inc\n",
        "include @/inc\ninclude @/h.dic\n", "include @/h.dic\ninclude @/inc\n", "include %ROOT%/A/@/h.dic\n", "include @/h.DIC\n", "include @/.dic\n", "include @/h.dic\ninclude @/h.dic\n",
    ];
    let mut tables = vec![];
    for f in files {
        for o in others {
            for i in incs {
                tables.push(one(&format!("{f}{o}"), i));
            }
        }
    }
    r.suite(Suite::new("where dictionaries are", BASE, tables, FB, words("ab ", 0, r.b(4, 5))));

    // which rule is used instead, and what is left alone
    let dics2: &[&str] = r.b(&["a1b", "b1a\nb1b", ".a1", "1c"], &["a1b", "b1a\nb1b", ".a1", "1c", "a1b\nb1c", "c1", "1a\n1b\n1c", "a1b2c"]);
    let pool = lines(&[
        "nocross always ab 3", "nocross always abc 4", "nocross always bc 5", "always ab 6", "always abc 13", "nocross word ab 23", "word ab 24", "nocross begword ab 25", "nocross midword ab 26", "nocross endword ab 34",
        "nocross endword bc 35", "begword ab 36", "nocross noback always ab 45", "nocross nofor always ab 46", "nocross always a 56", "contraction ab", "numericmodechars b\nnumsign 3456", "compbrl c", "context \"ab\" @123",
        "match - ab - 124", "nocross largesign ab 125", "nocross after letter always bc 126", "partword ab 134", "nocross partword bc 135", "nocross prfword ab 136", "nocross sufword ab 145", "nocross begmidword ab 146",
        "nocross midendword ab 156", "nocross joinword ab 2345", "capsletter 6\nbegcapsword 6-6", "always A 1", "nocross always Ab 12345",
    ]);
    let k = r.b(2, 3);
    let tables = perms(&format!("{BASE}uppercase A 1\n{inc}"), &pool, 1, k);
    let nocross_tables: Vec<String> = tables.into_iter().filter(|t| t.contains("nocross") && t.lines().filter(|l| l.contains("ab") || l.contains("bc") || l.contains("Ab")).count() > 0).collect();
    for d in dics2 {
        let ts = nocross_tables.iter().map(|t| with_dic(t, &format!("UTF-8\n{d}"))).collect();
        let ws = if r.thorough { words("abc ", 1, 4) } else { words("abc", 1, 4) };
        r.suite(Suite::new(&format!("rules under {}", d.replace('\n', " ")), &format!("{BASE}uppercase A 1\n{inc}"), ts, F, ws));
    }
    let ts: Vec<String> = nocross_tables.iter().filter(|t| !t.contains("match")).step_by(1).map(|t| with_dic(t, "UTF-8\na1b\n1c")).collect();
    r.suite(Suite::new("backward is not affected", BASE, ts, B, r.b(vec!["⠁⠃⠉".into(), "⠄".into(), "⠂⠁⠄⠃".into(), "⠈⠄⠐".into()], words("⠁⠃⠉⠄⠈⠐⠠", 1, 2))));
    // long words, long patterns, many patterns, wide margins
    let mut ns: Vec<usize> = (1..=r.b(24, 70)).collect();
    ns.extend([31, 32, 33, 34, 63, 64, 65, 66, 100, 127, 128, 129, 255, 256, 257]);
    let mut tables = vec![];
    for &n in &ns {
        let ab: String = "ab".repeat(n)[..n].to_string();
        let ba: String = "ba".repeat(n)[..n].to_string();
        for d in [format!("{ab}1a"), format!("{ab}1b"), format!("a1{ba}"), format!(".{ab}1a"), format!("a1{ba}."), format!(".{ab}."), format!("b1{ab}b"), format!("a1b\nLEFTHYPHENMIN {n}"), format!("a1b\nb1a\nRIGHTHYPHENMIN {n}")] {
            tables.push(with_dic(&probe, &format!("UTF-8\n{d}")));
        }
        let many: String = (0..n).map(|i| format!("{}c\n", "ab".repeat(i + 1))).collect();
        tables.push(with_dic(&probe, &format!("UTF-8\n{many}a1b")));
    }
    let mut ins = vec![];
    for n in ns.iter().map(|n| n + 1).chain([1]) {
        let w: String = "ab".repeat(n)[..n].to_string();
        ins.extend([w.clone(), format!("{w} "), format!("{w} {w}"), format!("b{w}")]);
    }
    r.suite(Suite::new("how long words and patterns are", BASE, tables, F, ins));
    // letters beyond ASCII, and characters in unusual roles
    let odd = format!("{BASE}uppercase A 1\nletter ä 345\nletter é 12346\nletter \u{10400} 1256\nletter + 346\nspace _ 0\npunctuation q 1234\ndigit z 1356\nsign 7 123456\nsign É 3-3\nletter ⠁ 35\n");
    let pool = lines(&["nocross always äb 3", "nocross always aä 4", "nocross always ba 5", "nocross always ab 6", "nocross always \u{10400}b 16", "nocross always +a 26", "nocross always bä 36", "nocross always äbä 46", "nocross always éa 56", "always äb 1-1", "nocross always ⠁b 2-2"]);
    let mut tables = vec![];
    for d in ["b1b", "ä1b", "a1ä", "1b", "1ä", "b1a", "é1a", "+1a", "b1ä", "a1b", "ä1b1ä", ".ä1b", "ä1b.", "\u{10400}1b", "⠁1b", "b1b\nä1b", "ab1\u{e9}", "Ä1b", "7b1a", "_1b"] {
        for m in ["", "LEFTHYPHENMIN 1\nRIGHTHYPHENMIN 1\n", "LEFTHYPHENMIN 2\nRIGHTHYPHENMIN 1\n", "LEFTHYPHENMIN 1\nRIGHTHYPHENMIN 3\n"] {
            for t in perms(&odd, &pool, 1, r.b(1, 2)) {
                tables.push(with_dic(&format!("{t}\n{inc}"), &format!("UTF-8\n{m}{d}")));
            }
        }
    }
    let mut ins = words("abä", 1, r.b(4, 5));
    for w in ["ab", "ba", "bba", "aba", "äbb", "aäb", "äb", "bäa"] {
        for c in "_+éqz7É\u{10400}\u{10428}9!Zö\u{a0}⠁⠂-' ".chars() {
            ins.extend([format!("{w}{c}"), format!("{c}{w}"), format!("{w}{c}{w}"), format!("a{c}{w}"), format!("{w}{c}b"), format!("{c}{c}{w}{c}")]);
        }
    }
    r.suite(Suite::new("letters beyond ASCII", &odd, tables, F, ins));
    // in other stages and next to computer braille and numbers
    let pool = ["", "nocross always ab 3", "nocross always 1a 4", "nocross always -a 5"];
    let mut tables = vec![];
    for a in pool {
        for b in ["", "correct \"b\" \"ab\"", "correct \"ab\" \"a\"", "pass2 @3 @4", "noback correct \"-\" ?"] {
            for c in ["", "compbrl -", "numsign 3456", "numsign 3456\nnumericmodechars a", "numsign 3456\nmidnum - 36", "begcomp 456\nendcomp 56\ncompbrl 1"] {
                for d in ["a1b", "1a", "b1a"] {
                    if !a.is_empty() {
                        tables.push(with_dic(&format!("{BASE}{inc}{a}\n{b}\n{c}\n"), &format!("UTF-8\n{d}")));
                    }
                }
            }
        }
    }
    r.suite(Suite::new("with other stages and runs", BASE, tables, F, words("ab1- ", 0, r.b(4, 5))));
}

/// the pieces a file of an include graph is made of
const PIECES: &[&str] = &["", "letter a 1\n", "letter b 2\n", "always ab 3\n", "include @/a\n", "include @/b\n", "include @/c\n", "include @/none\n", "nonsense x\n"];

pub fn p22(r: &mut Run) {
    let texts = || lines(&["", "a", "b", "ab", "ba", "aab"]);
    // every graph of three files, each of up to two pieces
    let two = seqs(PIECES, 0, 2);
    let one = seqs(PIECES, 0, 1);
    let small = seqs(&["letter a 1\n", "letter b 2\n", "include @/a\n", "include @/b\n", "include @/c\n"], 0, 2);
    let (xs, ys, zs) = if r.thorough { (&two, &two, &two) } else { (&two, &small, &one) };
    let mut tables = vec![];
    for x in xs {
        for y in ys {
            for z in zs {
                tables.push(format!("=== load @/a\n=== A:a\n{x}=== A:b\n{y}=== A:c\n{z}"));
            }
        }
    }
    r.suite(Suite::new("graphs of three files", "", tables, r.b(F, FB), lines(&["ab", "ba"])));
    let three = seqs(PIECES, 3, r.b(3, 4));
    let mut tables = vec![];
    for x in &three {
        for rest in ["=== A:b\nletter b 3\n=== A:c\nletter c 4\n", "=== A:b\nalways ab 5\ninclude @/c\n=== A:c\nletter a 4\n", "=== A:b\nbad\nworse\n=== A:c\ninclude @/b\n", "=== A:b\ninclude @/none\ninclude @/c\n=== A:c\nletter q\n"] {
            tables.push(format!("=== load @/a\n=== A:a\n{x}{rest}"));
        }
    }
    r.suite(Suite::new("long files", "", tables, FB, texts()));

    // kinds of files, names and places
    let kinds = [
        "", "=== A:b\nletter a 1\n", "=== B:b\nletter a 2\n", "=== A:b\nletter a 1\n=== B:b\nletter a 2\n", "=== A:b dir\n", "=== A:b dir\n=== B:b\nletter a 2\n", "=== A:b binary\n", "=== A:b binary\n=== B:b\nletter a 2\n",
        "=== A:b link A:c\n=== A:c\nletter a 3\n", "=== A:b link A:c\n", "=== A:b link A:c\n=== B:b\nletter a 2\n", "=== A:b link A:a\n", "=== A:b link B:c\n=== B:c\nletter a 4\ninclude @/d\n=== B:d\nletter b 5\n",
        "=== A:b link A:c\n=== A:c link A:b\n", "=== A:b nonl\nletter a 6", "=== A:b\nletter a 1\r\nletter b 2\r\n", "=== A:b nonl\n", "=== A:b nonl\nbad", "=== A:b\nok\n", "=== A:b nonl\n# only a comment", "=== A:b\n\n\n", "=== A:b\n\u{feff}letter a 1\n",
        "=== A:s/b\nletter a 7\ninclude @/b\n=== A:b\nletter b 8\n", "=== A:s/b\nletter a 7\ninclude @/s/c\n=== A:s/c\nletter b 9\n", "=== B:s/b\nletter a 7\n", "=== A:s dir\n=== A:b\nletter b 8\n", "=== A:s dir\n=== B:s/b\nletter b 8\n",
        "=== A:b.dic\nUTF-8\na1b\n", "=== A:b.dic\nbad\n", "=== A:b.ctb\nletter a 1\n", "=== A:b.Dic\nletter a 1\n", "=== A:b.DIC\nUTF-8\na1b\n", "=== A:b.dic.x\nletter a 1\n", "=== A:b.dict\nletter a 1\n", "=== A:bdic\nletter a 1\n", "=== A:b.x.dic\nUTF-8\na1b\n", "=== A:b.dic/b\nletter a 1\n", "=== A:.dic\nletter a 1\n", "=== A:dic\nletter a 1\n", "=== A:é\nletter a 1\n", "=== A:s link A:u\n=== A:u dir\n",
    ];
    let names = [
        "@/b", "@/s/b", "@/s/../b", "@/./b", "@//b", "@/../@/b", "%ROOT%/A/@/b", "%ROOT%/B/@/b", "@/b.dic", "@/b.ctb", "@/dic", "@/é", "@/B", "@/b/", "@/a/../b", "@/s/./b", "@/none/../b", "@/", "%ROOT%/A/@/s/b", "@/b.tbl", "@/.dic", "@/b.Dic", "@/b.DIC", "@/b.dic.x", "@/b.dict", "@/bdic", "@/b.x.dic", "@/b.dic/b",
    ];
    let mut tables = vec![];
    for k in kinds {
        for n in names {
            for (pre, post) in [("", ""), ("letter a 12\n", ""), ("", "letter a 12\nalways ab 13\n"), ("", "include @/none\n"), ("letter b 45\n", "bad\n")] {
                tables.push(format!("=== load @/a\n=== A:a\n{pre}include {n}\n{post}{k}"));
            }
            tables.push(format!("=== load {n}\n{k}"));
            tables.push(format!("=== load @/a {n}\n=== A:a\nletter a 1\n{k}"));
            tables.push(format!("=== load {n} @/a\n=== A:a\nletter a 1\n{k}"));
        }
    }
    r.suite(Suite::new("names, places and kinds", "", tables, FB, texts()));

    // a table that is not in a file cannot include one
    let pieces = ["letter a 1\n", "include x\n", "always ab 3\n", "bad\n", "\n", "include\n", "include @/b extra\n", "# include x\n", "noback include x\n", "display x 1\n"];
    r.suite(Suite::new("includes in memory", "", seqs(&pieces, 0, r.b(4, 5)), FB, lines(&["a"])));
    // which directory a file is taken from: one next to the including file, or in the
    // current directory, is not on the search path
    let at = ["A:b", "B:b", "A:@/b", "B:@/b", "A:s/b", "B:s/b", "A:s/@/b", "B:s/@/b", "C:b"];
    let mut tables = vec![];
    for m in 0u32..1 << at.len() {
        let mut files = String::new();
        for (i, a) in at.iter().enumerate() {
            if m >> i & 1 == 1 {
                files += &format!("=== {a}\nletter a {}\n", i + 1);
            }
        }
        for (main, load) in [("A:a", "@/a"), ("B:a", "@/a"), ("A:s/a", "@/s/a"), ("B:s/a", "@/s/a"), ("B:s/a", "%ROOT%/B/@/s/a")] {
            for inc in ["@/b", "@/s/b"] {
                tables.push(format!("=== load {load}\n=== {main}\ninclude {inc}\n{files}"));
            }
        }
        tables.push(format!("=== load @/b\n{files}"));
        tables.push(format!("=== load @/s/b @/b\n{files}"));
        // odd digits allow a break, even ones don't
        let dic = files.replace("b\nletter a ", "b.dic\nUTF-8\na").lines().map(|l| if l.len() == 2 { format!("a{}b\n", l[1..].parse::<u32>().unwrap() + m % 2) } else { format!("{l}\n") }).collect::<String>();
        tables.push(format!("=== load @/a\n=== B:a\nletter a 1\nletter b 2\nnocross always ab 3\ninclude @/b.dic\n{dic}"));
    }
    r.suite(Suite::new("directories", "", tables, r.b(F, FB), texts()));

    // the order in which definitions meet
    let parts = ["letter a 1\n", "letter a 2\nletter b 3\n", "always ab 4\n", "letter b 5\nalways ab 6\n", "class x a\n", "after x always b 56\n", "pass2 @4 @46\n", "numsign 3456\n", "noback letter a 36\n"];
    let mut tables = vec![];
    for p in parts {
        for q in parts {
            for s in parts {
                tables.push(format!("=== load @/a\n=== A:a\n{p}include @/b\n{s}=== A:b\n{q}"));
                tables.push(format!("=== load @/a @/b @/c\n=== A:a\n{p}=== A:b\n{q}=== A:c\n{s}"));
                tables.push(format!("=== load @/a\n=== A:a\ninclude @/b\ninclude @/c\n{s}=== A:b\n{q}include @/c\n=== A:c\n{p}"));
            }
        }
    }
    r.suite(Suite::new("order of definitions", "", tables, FB, [texts(), words("⠁⠂⠄⠈⠤", 0, 2)].concat()));

    // several files at once
    let files = ["", "=== A:? nonl\n", "=== A:?\nletter a 1\n", "=== A:?\nalways ab 3\n", "=== A:?\nbad\n", "=== A:?\ninclude @/none\n", "=== A:?\ninclude @/?\n", "=== A:? binary\n", "=== A:?\nletter b 4\ninclude @/z\n"];
    let mut tables = vec![];
    for load in ["@/x @/y", "@/y @/x", "@/x @/x", "@/x @/y @/x", "@/x", "@/x @/y @/z", "@/z @/y @/x", "@/x @/q @/y", "@/q @/x"] {
        for x in files {
            for y in files {
                for z in ["", "=== A:z\nletter a 5\nletter b 6\n", "=== B:z\nletter a 7\nbad\n"] {
                    tables.push(format!("=== load {load}\n{}{}{z}", x.replace('?', "x"), y.replace('?', "y")));
                }
            }
        }
    }
    tables.push("=== load\n".into());
    r.suite(Suite::new("several files", "", tables, FB, texts()));

    // deep chains, long cycles, diamonds
    let mut tables = vec![];
    let chain = |n: usize, end: &str| {
        let mut t = "=== load @/f0\n".to_string();
        for i in 0..n {
            t += &format!("=== A:f{i}\ninclude @/f{}\n", i + 1);
        }
        t + &format!("=== A:f{n}\n{end}")
    };
    let depths: Vec<usize> = if r.thorough { (0..80).collect() } else { vec![0, 1, 2, 3, 30, 61, 62, 63, 64, 65, 66, 70] };
    for n in depths {
        for end in ["letter a 1\n", "bad\n", "include @/f0\n", "include @/none\n", "include @/f1\nletter a 2\n"] {
            tables.push(chain(n, end));
        }
        let mut t = chain(n, "letter b 1\n");
        t = t.replacen("include @/f1\n", "include @/f1\ninclude @/f1\nletter a 3\n", 1);
        tables.push(t);
        tables.push(format!("{}=== A:g\nletter a 3\ninclude @/f0\n", chain(n, "letter b 1\n").replace("load @/f0", "load @/g")));
        tables.push(format!("{}=== A:g\ninclude @/f0\nletter a 3\n", chain(n, "letter b 1\n").replace("load @/f0", "load @/f0 @/g")));
    }
    for n in 1..r.b(8, 13) {
        let mut t = "=== load @/f0\n".to_string();
        for i in 0..n {
            t += &format!("=== A:f{i}\ninclude @/f{}\ninclude @/f{}\n", i + 1, i + 1);
        }
        tables.push(format!("{t}=== A:f{n}\nletter a 1\nalways ab 3\n"));
        if n < 8 {
            tables.push(format!("{t}=== A:f{n}\nbad\ninclude @/f0\n"));
            tables.push(format!("{t}=== A:f{n}\ninclude @/f0\n"));
        }
    }
    r.suite(Suite::new("deep chains and diamonds", "", tables, FB, texts()));
    // how many includes, rules, tables and errors
    let mut ns: Vec<usize> = (0..=r.b(20, 130)).collect();
    ns.extend([31, 32, 33, 49, 50, 51, 63, 64, 65, 66, 99, 100, 101, 127, 128, 129, 255, 256, 257, r.b(300, 1025)]);
    ns.sort_unstable();
    ns.dedup();
    let mut tables = vec![];
    for n in ns {
        let many = |text: &dyn Fn(usize) -> String, own: &str| (0..n).map(|i| format!("=== {}:f{i}\n{}", if i % 3 == 1 { "B" } else { "A" }, if i + 1 == n { own.to_string() } else { text(i) })).collect::<String>();
        let incs: String = (0..n).map(|i| format!("include @/f{i}\n")).collect();
        let load: String = (0..n).map(|i| format!(" @/f{i}")).collect();
        for (text, own) in [("", "letter a 1\n"), ("letter b 12\n", "letter a 1\nletter b 2\n"), ("bad\n", "bad\n"), ("letter b 12\n", "bad\n"), ("", "include @/none\n"), ("include @/g\n", "letter a 1\n")] {
            let g = if text.contains("@/g") { "=== A:g\nalways ab 3\n" } else { "" };
            tables.push(format!("=== load @/a\n=== A:a\n{incs}letter b 4\n{}{g}", many(&|_| text.into(), own)));
            if n > 0 {
                tables.push(format!("=== load{load}\n{}{g}", many(&|_| text.into(), own)));
            }
        }
        tables.push(format!("=== load @/a\n=== A:a\n{}letter a 1\n", "include @/b\n".repeat(n) + "=== B:b\nalways ab 3\nletter b 4\n"));
        tables.push(format!("=== load @/a\n=== A:a\n{}letter a 1\n=== B:b\nalways ab 3\nletter b 4\n", "include @/b\n".repeat(n)));
        tables.push(format!("=== load @/a\n=== A:a\n{}letter a 1\n", "include @/none\n".repeat(n)));
        tables.push(format!("=== load @/a\n=== A:a\n{}include @/b\n=== B:b\nletter a 1\n", "always ab 3\n".repeat(n)));
    }
    r.suite(Suite::new("how many", "", tables, FB, texts()));

    r.assumptions.push("the files of a case do not change while it is loaded".into());
}
