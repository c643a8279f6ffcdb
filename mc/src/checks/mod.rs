//! The check of each property: which finite families are explored, and against what.
use crate::engine::*;

mod cli;
mod cross;
mod files;
mod history;
mod indicators;
mod loading;
mod long;
mod patterns;
mod query;
mod rules;
mod totality;
mod yaml;

pub const BASE: &str = "\
space \\s 0
punctuation , 2
punctuation - 36
letter a 1
letter b 12
letter c 14
letter d 145
digit 1 16
";

pub const FB: &[bool] = &[true, false];
pub const F: &[bool] = &[true];
pub const B: &[bool] = &[false];

pub fn run(r: &mut Run) -> bool {
    match r.prop.as_str() {
        "P01" => totality::p01(r),
        "P02" => loading::p02(r),
        "P03" => history::p03(r),
        "P04" => rules::p04(r),
        "P05" => rules::p05(r),
        "P06" => rules::p06(r),
        "P07" => rules::p07(r),
        "P08" => rules::p08(r),
        "P09" => indicators::p09(r),
        "P10" => indicators::p10(r),
        "P11" => indicators::p11(r),
        "P12" => indicators::p12(r),
        "P13" => indicators::p13(r),
        "P14" => patterns::p14(r),
        "P15" => patterns::p15(r),
        "P16" => patterns::p16(r),
        "P17" => patterns::p17(r),
        "P18" => patterns::p18(r),
        "P19" => files::p19(r),
        "P20" => patterns::p20(r),
        "P21" => patterns::p21(r),
        "P22" => files::p22(r),
        "P23" => patterns::p23(r),
        "P24" => cli::p24(r),
        "P25" => yaml::p25(r),
        "P26" => query::p26(r),
        "P27" => indicators::p27(r),
        "P28" => indicators::p28(r),
        "P29" => cli::p29(r),
        _ => return false,
    }
    cross::cross(r);
    long::long(r);
    true
}

pub use totality::deep;

pub fn owned(v: &[&str]) -> Vec<String> {
    lines(v)
}

/// every base with every one of the inputs' subsets of `extra` lines
pub fn subsets(base: &str, pool: &[&str], lo: usize, hi: usize) -> Vec<String> {
    let mut out = vec![];
    for m in 0u32..1 << pool.len() {
        let n = m.count_ones() as usize;
        if n < lo || n > hi {
            continue;
        }
        let mut t = base.to_string();
        for (i, l) in pool.iter().enumerate() {
            if m >> i & 1 == 1 {
                t += l;
                t.push('\n');
            }
        }
        out.push(t);
    }
    out
}

/// letters in upper and lower case, within and beyond ASCII, one to one and not
pub const WIDE_LETTERS: &str = "aAäÄßẞiIİıσςΣяЯǆǅǄkK\u{212a}å\u{212b}ŉſs\u{10400}\u{10428}ა\u{1c90}ŐőfﬁÿŸ⠁1é";

/// one definition for each of them and for x
pub fn wide_table() -> String {
    let def: String = WIDE_LETTERS.chars().enumerate().map(|(i, c)| format!("letter {c} {}\n", (1..=8).filter(|k| (i + 1) >> (k - 1) & 1 == 1).map(|k| k.to_string()).collect::<String>())).collect();
    format!("space \\s 0\nletter x 1346\n{def}")
}

/// each of them, alone, doubled and next to x
pub fn wide_texts() -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for c in WIDE_LETTERS.chars() {
        v.extend([format!("{c}"), format!("x{c}"), format!("{c}x"), format!("x{c}x"), format!("X{c}X")]);
        for d in WIDE_LETTERS.chars() {
            v.extend([format!("{c}{d}"), format!("x{c}{d}x")]);
        }
    }
    v
}
