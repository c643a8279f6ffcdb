//! Loading of tables: every line is a rule or a reported error; includes.
use super::*;
use crate::model::parse;

/// one well-formed operand list per opcode
pub fn sample_args(op: &str) -> &'static [&'static str] {
    match op {
        "include" => &["x"],
        "undefined" | "letsign" | "numsign" | "begcaps" | "endcaps" | "begcapsphrase" | "capsletter" | "begcapsword"
        | "endcapsword" | "nocontractsign" | "nonumsign" | "begcomp" | "endcomp" => &["1-2"],
        "display" => &["a", "1"],
        "multind" => &["1-2", "letsign", "capsletter"],
        "space" | "punctuation" | "digit" | "letter" | "lowercase" | "uppercase" | "litdigit" | "sign" | "math" | "hyphen"
        | "decpoint" => &["a", "1-2"],
        "grouping" => &["name", "()", "1,2"],
        "base" => &["uppercase", "A", "a"],
        "modeletter" | "begmodeword" | "begmodephrase" | "begemph" | "endemph" | "emphletter" | "begemphword"
        | "endemphword" | "begemphphrase" => &["name", "1-2"],
        "capsmodechars" | "noletsign" | "noletsignbefore" | "noletsignafter" | "numericnocontchars" | "numericmodechars"
        | "midendnumericmodechars" | "seqdelimiter" | "seqbeforechars" | "seqafterchars" | "seqafterpattern"
        | "seqafterexpression" | "compbrl" | "nocont" | "contraction" | "exactdots" | "literal" => &["ab"],
        "endcapsphrase" => &["before", "1-2"],
        "lencapsphrase" => &["3"],
        "class" | "noemphchars" | "emphmodechars" | "attribute" => &["name", "ab"],
        "emphclass" => &["name"],
        "endemphphrase" | "endmodephrase" => &["name", "after", "1-2"],
        "lenemphphrase" | "lenmodephrase" => &["name", "3"],
        "capsnocont" => &[],
        "replace" => &["ab", "b"],
        "rependword" => &["ab", "1,2"],
        "swapcd" => &["name", "ab", "1,2"],
        "swapdd" => &["name", "1,2", "3,4"],
        "swapcc" => &["name", "ab", "ba"],
        "context" => &["\"a\"", "@1"],
        "correct" => &["\"a\"", "\"b\""],
        "pass2" | "pass3" | "pass4" => &["@1", "@2"],
        "match" => &["a", "b", "-", "1"],
        _ => &["ab", "1-2"],
    }
}

const PROBES: &[&str] = &[
    "", "a", "ab", "abc", "A", "1", "12", "0", "1-2", "1-", "-1", "-", "--", "=", "1,2", "1,2-3", "12,3", "1,2,3", ",", "1,", "before", "after", "nofor",
    "noback", "nocross", "letsign", "3", "-3", "+3", "999999999999", "3x", "name", "na_me", "näme", "9g", "fedcba", "\\s", "\\x0041", "\\x004", "\\", "\\q",
    "\\y1f600", "#", "#x", "\"a\"", "\"a", "@1", "@", "@1-", "@g", "*", "?", "%name", "%", "%1", "$l", "$", "$q", "`", "~", "[@1]", "[@1", "@1]", "[]", "!@1", "!",
    "!!@1", "![@1]", "_", "_1", "#1=1", "#1", "#1+", "#1-", "#=1", "#1<2", "#1>=2", "#1=300", "#300=1", "$l.", "$l2", "$l2-3", "$l3-2", "$l2-2", "$l2-", "\"a\"@1", "*@1%name",
    "%[_]", "%[", "[ab]", "[", "(a)", "(", "a|b", "|", "a|", "!a", "a?", "a*", "a+", "?a", ".", "^", "$$", "%a", "%_.", "(a|b)*", "\\(", "()", "é", "\u{a0}", "a\u{a0}b", "⠁", "\"\\s\"", "\"\\x0041\"", "\"\\q\"", "\"\\y1f600\"", "\"\\y00041b\"", "\"\\x0041\\y00062\"", "\"\\s\\\"b\"", "\"\\y0041\"", "\"\\\"\"", "\"\"",
];

pub fn op_lines(r: &Run) -> Vec<String> {
    let mut v = vec![];
    for (op, _, _) in parse::opcodes() {
        let args = sample_args(op);
        let line = |a: &[&str]| format!("{op} {}", a.join(" "));
        v.push(line(args));
        for p in [
            "nofor", "noback", "nocross", "nofor nocross", "noback nocross", "nofor noback", "nocross noback", "before x", "after x", "before", "after x before y",
            "before x nofor", "nocross after x", "empmatchbefore", "empmatchafter empmatchbefore", "empmatchbefore before x", "after x empmatchafter", "before x_y",
            "nofor nofor", "nocross nocross", "noback nocross before x after y empmatchafter",
        ] {
            v.push(format!("{p} {}", line(args)));
        }
        // every arity
        let mut more: Vec<&str> = args.to_vec();
        for n in 0..args.len() {
            v.push(line(&args[..n]));
        }
        for x in ["extra", "1", "#", "# comment"] {
            more.push(x);
            v.push(line(&more));
            more.pop();
        }
        // every operand replaced by every probe
        for i in 0..args.len() {
            for p in PROBES {
                let mut a: Vec<&str> = args.to_vec();
                a[i] = p;
                v.push(line(&a));
            }
        }
        if r.thorough {
            for i in 0..args.len() {
                for j in i + 1..args.len() {
                    for p in PROBES {
                        for q in PROBES {
                            let mut a: Vec<&str> = args.to_vec();
                            a[i] = p;
                            a[j] = q;
                            v.push(line(&a));
                        }
                    }
                }
            }
        }
        v.push(format!("{} {}", op.to_uppercase(), args.join(" ")));
        v.push(format!("{op}x {}", args.join(" ")));
        v.push(format!("\t {op}\t \t{}  ", args.join("\t")));
    }
    v
}

pub fn p02(r: &mut Run) {
    // every opcode, prefix, arity and operand
    let t: Vec<String> = op_lines(r).into_iter().map(|l| format!("{l}\n")).collect();
    r.suite(Suite::new("operands", "", t, FB, lines(&[""])));
    // every sequence of prefixes
    let pre = ["nofor", "noback", "nocross", "before x", "after x", "after letter", "empmatchbefore", "empmatchafter", "before"];
    let mut v = vec![];
    for n in 0..=r.b(4, 5) {
        let mut seq: Vec<String> = vec![String::new()];
        for _ in 0..n {
            seq = seq.iter().flat_map(|s| pre.iter().map(move |p| format!("{s}{p} "))).collect();
        }
        for s in seq {
            for rule in ["always ab 3", "letter c 3", "word ab 3", "match - ab - 3", "pass2 @1 @2", "context \"ab\" @3", "contraction ab", "letsign 56", "class x a"] {
                if n < 4 || r.thorough || rule == "always ab 3" {
                    v.push(format!("class x a\nletter a 1\nletter b 2\n{s}{rule}\n"));
                }
            }
        }
    }
    r.suite(Suite::new("prefixes", "", v, FB, lines(&["", "ab", "aab", "⠄"])));
    // where the errors are reported
    let pieces = ["letter a 1\n", "lettr a 1\n", "letter b\n", "# x\n", "\n", "  \t\n", "letter c 1\r\n", "\r\n", " # bad 1\n", "always ab x\n"];
    r.suite(Suite::new("error lines", "", seqs(&pieces, 0, r.b(5, 6)), F, lines(&["", "ac"])));
    let unusual = [
        "letter a 1", "\u{feff}letter a 1", "letter\u{a0}a\u{a0}1", "letter a 1 # comment", "#", "# é", "\u{2003}", "\u{2003}letter a 1", "\x0bletter a 1", "letter\x0ca\x0c1", "nofor",
        "nocross", "before", "noback letter a 1", "\0", "letter \0 1", "letter a 1\0", "\r", "letter b 2\rletter c 3", "letter é 2", "\u{85}", "\u{1f600}",
    ];
    let mut v = vec![];
    for a in unusual {
        for nl in ["", "\n", "\r\n", "\n\n"] {
            v.push(format!("{a}{nl}"));
            for b in unusual {
                v.push(format!("{a}\n{b}{nl}"));
                v.push(format!("{a}\r\n{b}{nl}"));
            }
        }
    }
    r.suite(Suite::new("unusual lines", "", v, FB, lines(&["", "a", "\0é", "b\rc"])));
    // many errors: exactly the bad lines are reported, in order
    let mut v = vec![];
    for m in 0u32..1 << 13 {
        let mut t = String::new();
        for i in 0..13 {
            t += if m >> i & 1 == 1 { "letter a\n" } else { "letter a 1\n" };
        }
        v.push(t);
    }
    r.suite(Suite::new("every set of bad lines", "", v, F, lines(&["a"])));
    let mut v = vec![];
    let mut ns: Vec<usize> = (0..=r.b(70, 300)).collect();
    ns.extend([99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1024, 5000]);
    for n in ns {
        for (good, bad) in [("", "letter a\n"), ("letter a 1\n", "nonsense x\n"), ("# comment\n", "always\n"), ("\n", "letter b 2\nalways x\n")] {
            v.push(bad.repeat(n));
            v.push(format!("{}{bad}", good.repeat(n)));
            v.push(format!("{bad}{}{bad}", good.repeat(n)));
            v.push(format!("{good}{bad}").repeat(n));
        }
        v.push(format!("letter a 1\n{}always {} 3\n", "\n".repeat(n), "a".repeat(n)));
        v.push(format!("letter a 1{}\nlettr\n", " ".repeat(n)));
        v.push(format!("letter{}a 1\nlettr\n", " ".repeat(n)));
        v.push(format!("letter a 1 {}\nlettr\n", "x".repeat(n)));
        v.push(format!("# {}\nlettr\n", "é".repeat(n)));
        v.push(format!("{} a 1\nletter b 2\n", "l".repeat(n)));
    }
    r.suite(Suite::new("how many lines, and how long", "", v, F, lines(&["a"])));
    // all short lines over the characters of a rule, as tests, actions and match patterns
    let n = 5;
    let mut v = vec![];
    for w in words("@1-\"a[]!$l.%#=*?`~_", 1, n) {
        v.push(format!("pass2 {w} @1\n"));
        v.push(format!("correct \"a\" {w}\n"));
    }
    r.suite(Suite::new("syntax of tests and actions", "", v, F, lines(&["", "a", "⠁"])));
    let mut v = vec![];
    for w in words("ab%_[]()!|?*^-\\", 1, r.b(n, n + 1)) {
        v.push(format!("letter b 2\nmatch {w} b - 1\n"));
        v.push(format!("letter b 2\nmatch - b {w} 1\n"));
    }
    r.suite(Suite::new("syntax of match patterns", "", v, F, lines(&["", "b", "ab", "ba"])));
    // rules that can only be rejected once the whole table is known
    let pool = lines(&[
        "always ab =", "letter a 1", "letter b 2", "contraction ab", "match - ab - =", "context %foo %foo", "swapcc foo a b", "comp6 ab =", "nofor always ab =",
        "noback contraction ab", "pass2 %foo @1", "pass2 @1 %foo", "base uppercase A a", "always aA =", "nofor swapcc foo a b",
    ]);
    r.suite(Suite::new("missing definitions", "", perms("", &pool, 0, r.b(3, 4)), FB, lines(&["", "ab", "A", "⠁⠂"])));
}
