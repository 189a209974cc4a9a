//! Replaying the lexer specification's vectors, and recording runs for it to judge.
use crate::guard;
use crate::json::{self, J};
use crate::lexrec;
use crate::report::Report;
use crate::rng::Rng;
use std::io::{BufRead, Write};

/// What a property talks about, of one token.
fn project(prop: &str, t: &J) -> J {
    let a = t.arr();
    let kind = a[0].s();
    let nil = J::A(vec![]);
    let cls = |k: &str, p: &J| J::A(vec![J::S(k.to_string()), p.clone()]);
    match prop {
        "C04" => match kind {
            "int" | "float" => cls("num", &nil),
            "str" => cls("str", &nil),
            k => cls(k, &a[1]),
        },
        "C05" => match kind {
            "int" | "float" | "str" | "bool" | "noob" | "sym" => cls(kind, &a[1]),
            "slot" | "ell" | "comma" | "bang" | "qm" => cls(kind, &nil),
            "cs" | "cm" => cls("comment", &nil),
            _ => cls("word", &nil),
        },
        _ => t.clone(),
    }
}

/// Vectors: [text, status, tokens].  For C02 and C03 a run that differs from the specification's
/// own is not judged here but written out for the trace specification.
pub fn replay(prop: &str, vectors: &str, diffs: &str) -> Report {
    let mut rep = Report::new();
    let f = std::io::BufReader::new(std::fs::File::open(vectors).unwrap());
    let mut out = std::fs::File::create(diffs).unwrap();
    let mut ndiff = 0;
    for line in f.lines() {
        let line = match line {
            Ok(l) => l,
            Err(_) => continue,
        };
        let v = match json::parse_tlc_line(&line) {
            Some(v) => v,
            None => continue,
        };
        rep.line = line.clone();
        let text = json::from_cps(&v.arr()[0]);
        let (want_st, want) = (v.arr()[1].s().to_string(), v.arr()[2].arr());
        guard::at(&text);
        rep.seen += 1;
        let (st, got) = lexrec::lex(&text);
        let bytes = |v: &[J]| v.iter().map(|p| p.arr().get(2).cloned().unwrap_or(J::N(-1))).collect::<Vec<_>>();
        match prop {
            "C01" => {
                if st != want_st || (st == "err" && bytes(&got) != bytes(want)) {
                    rep.bad(&text, &format!("expected {} got {}", want_st, st));
                }
            }
            "C02" | "C03" => {
                if st != want_st || got != want {
                    ndiff += 1;
                    if ndiff <= 400 {
                        let r = J::O(vec![("s".into(), json::cps(&text)), ("st".into(), J::S(st)), ("t".into(), J::A(got))]);
                        let _ = writeln!(out, "{}", r.show());
                    }
                }
            }
            _ => {
                let p = |v: &[J]| v.iter().map(|t| project(prop, t)).collect::<Vec<_>>();
                if st != want_st || (st == "ok" && p(&got) != p(want)) {
                    rep.bad(&text, &format!("expected {} {} got {} {}", want_st, J::A(p(want)).show(), st,
                        if st == "ok" { J::A(p(&got)).show() } else { String::new() }));
                }
            }
        }
    }
    rep.note("diffs", ndiff);
    rep
}

const WORDS: &[&str] = &[
    "HAI", "KTHXBYE", "I HAS A", "HAS A", "ITZ", "R", "A", "AN", "SUM OF", "ANY OF", "ALL OF", "BOTH SAEM", "BOTH OF",
    "O RLY", "YA RLY", "NO WAI", "MEBBE", "OIC", "WTF", "OMG", "OMGWTF", "IM IN YR", "IM OUTTA YR", "HOW IZ I",
    "IF U SAY SO", "I IZ", "MKAY", "YR", "FOUND YR", "GTFO", "VISIBLE", "GIMMEH", "SMOOSH", "MAEK", "IS NOW", "NOT",
    "DIFFRINT", "UPPIN", "NERFIN", "TIL", "WILE", "SRS", "BUKKIT", "NUMBR", "NUMBAR", "YARN", "TROOF", "NOOB", "WIN",
    "FAIL", "TLDR", "QUOSHUNT OF", "PRODUKT OF", "MOD OF", "BIGGR OF", "SMALLR OF", "EITHER OF", "WON OF", "DIFF OF",
];
const BITS: &[&str] = &[
    " ", " ", " ", "\n", "\n", "\t", "\r\n", ",", "!", "?", "...", "\u{2026}", "'Z", "'", "+", "-", ".", "..", "#", "(",
    "é", "😀", "\u{301}", "\u{a0}", "€", "ß", ":", "::", "\\", "0", "1", "7.5", "-3", "+.5", "2147483647", "-2147483648",
    "2147483648", "99999999999999999999", "1.", "1...", "x", "var", "RESULT", "ANT", "_a1", "WINNER", "NOOBS", "b2c",
    "OBTW", "TLDR", "BTW", "OBTW c\nd TLDR", "BTW note\n", "BTWx\n", "\"", "\"str\"", "\"a:\"b\"", "\"::\"", "\"l1\nl2\"",
    "\"é😀\n\"", "\"\"", "\":\"", "OBTW 😀 BTW TLDR", "I  HAS A", "i has a", "0.1", "3.4028236e38", "16777217.0",
];

pub fn text(r: &mut Rng, size: usize) -> String {
    let mut s = String::new();
    let style = r.below(4);
    for _ in 0..size {
        match r.below(10) {
            0..=2 => s.push_str(r.pick(WORDS)),
            3 => {
                let w = r.pick(WORDS);
                let cut = r.below(w.len() + 1);
                s.push_str(&w[..cut]);
            }
            4 if style == 0 => {
                if let Some(c) = char::from_u32(r.below(0x2500) as u32) {
                    s.push(c)
                }
            }
            5 => {
                for _ in 0..r.below(12) {
                    s.push((b"abzAZ_019."[r.below(10)]) as char)
                }
            }
            _ => s.push_str(r.pick(BITS)),
        }
        if r.chance(if style == 1 { 90 } else { 40 }) {
            s.push(' ')
        }
    }
    s
}

/// Texts whose size, not shape, is unusual.
pub fn big(n: usize) -> Vec<String> {
    let rep = |s: &str, k: usize| s.repeat(k);
    vec![
        rep("\n", n) + "x \"é\n\" y",
        rep(" ", n) + "x\ny",
        rep("a", n) + " VISIBLE\nb",
        rep("é", n / 50) + "x",
        format!("\"{}\n\" z", rep("s", n)),
        format!("\"{}\" z", rep("é\n", n / 2)),
        format!("\"{}", rep("open ", n / 5)),
        format!("BTW {}\nx", rep("c", n)),
        format!("OBTW {} TLDR x", rep("c\n", n / 2)),
        format!("OBTW {}", rep("c\n", n / 2)),
        format!("x {}1 y", rep("0", n)),
        format!("{}7.5", rep("9", 60)),
        format!("0.{}1", rep("0", 60)),
        format!("{} y", rep("9", n)),
        rep("😀", n / 50) + "\n\"q\"",
        rep("\r\n", n / 2) + "x\ty",
    ]
}

/// Tokens of a length, and runs of tokens of a length, next to where some buffer or counter could end.
pub fn edges(r: &mut Rng) -> Vec<String> {
    let mut out = vec![];
    for k in [31, 63, 127, 255, 511, 1023, 2047, 4095] {
        for n in [k - 1, k, k + 1, k + 2] {
            let rep = |s: &str| s.repeat(n);
            let all = [
                format!("{} y", rep("a")),
                format!("{}1 y", rep("0")),
                format!("1.{}5 y", rep("0")),
                format!("-{}", rep("9")),
                format!("\"{}\" y", rep("s")),
                format!("\"é{}\" y", rep("s")),
                format!("\"{}\" y", rep(":\"")),
                format!("x BTW{}\ny", rep("c")),
                format!("OBTW{} TLDR y", rep("c")),
                format!("OBTW{} TLDR y", rep("\r\n")),
                format!("{}x\ny", rep(" ")),
                format!("{}y", rep("\n")),
                format!("\"{}\" y", rep("\n")),
                format!("{}y", rep("#")),
                format!("{}y", rep("x ")),
                format!("x{}y", rep("'Z a")),
                format!("{}y", rep("AN,")),
                format!("{}", rep("...\n")),
                format!("{} y", rep("é")),
                format!("_{}R y", rep("AN")),
            ];
            if k <= 255 {
                out.extend(all);
            } else {
                out.push(r.pick(&all).clone());
                out.push(r.pick(&all).clone());
            }
        }
    }
    out.push(text(r, 3000));
    out.push("x ".repeat(33000) + "\"a\" y");
    out
}

/// Records runs of the tokenizer on random and large texts.
pub fn record(seed: u64, count: usize, bign: usize, out: &str) -> Report {
    let mut rep = Report::new();
    let mut f = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    let mut r = Rng::new(seed);
    let mut texts = vec![];
    for k in 0..count {
        let size = if k % 10 == 9 { 120 } else { 4 + r.below(24) };
        texts.push(text(&mut r, size));
    }
    if bign > 0 {
        texts.extend(big(bign));
        texts.extend(edges(&mut r));
    }
    for t in texts {
        guard::at(&t);
        rep.seen += 1;
        let _ = writeln!(f, "{}", lexrec::record(&t).show());
    }
    rep
}

/// Records the run on one text, given as its characters.
pub fn one(src: &str, out: &str) -> Report {
    let mut rep = Report::new();
    let text = json::from_cps(&json::parse(&std::fs::read_to_string(src).unwrap()));
    guard::at(&text);
    rep.seen = 1;
    std::fs::write(out, lexrec::record(&text).show() + "\n").unwrap();
    rep
}
