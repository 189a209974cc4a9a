//! Token lists no tokenizer gave: any kinds, any lines, any size.
use crate::guard;
use crate::program;
use crate::report::Report;
use crate::rng::Rng;
use lolcode_ast::lexer::{NumberToken, Position, Range, Token, TokenType, TokenValue};

fn kinds() -> Vec<String> {
    let mut v: Vec<String> = program::KEYWORDS.iter().map(|s| s.to_string()).collect();
    for k in ["Id", "Lit", "ML", "CM", "CM2", "CS", "Sym", "SymQ", "Slot", "Ell", "Comma", "Bang", "Qm"] {
        v.push(k.to_string());
        v.push(k.to_string());
    }
    v
}

const PHRASES: &[&str] = &[
    "O_RLY Qm NL", "YA_RLY NL", "NO_WAI NL", "MEBBE Id NL", "OIC NL", "WTF Qm NL", "OMG Lit NL", "OMGWTF NL",
    "IM_IN_YR Id NL", "IM_OUTTA_YR Id NL", "HOW_IZ_I Id YR Id NL", "IF_U_SAY_SO NL", "GTFO NL", "Id R Lit NL",
    "Id HAS_A Id ITZ Lit", "I_IZ Id YR Lit MKAY", "SRS", "Id Slot", "SMOOSH Lit AN", "IM_IN_YR Id UPPIN YR Id TIL",
];

fn shape(r: &mut Rng, p: &mut Vec<Token>) {
    match r.below(6) {
        // As a text would have it.
        0 => {}
        // All on one line.
        1 => p.iter_mut().for_each(|t| {
            t.range.0.line = 1;
            t.range.1.line = 1;
        }),
        // Any line at all, also backwards, also ending before it starts.
        2 => p.iter_mut().for_each(|t| {
            t.range.0.line = r.below(4) as i32 - 1;
            t.range.1.line = r.below(4) as i32 - 1;
        }),
        // All positions the same.
        3 => {
            let at = Position { line: 0, column: 0, bytes: 0, chars: 0 };
            p.iter_mut().for_each(|t| t.range = Range(at, at));
        }
        // One token per line.
        4 => p.iter_mut().enumerate().for_each(|(i, t)| {
            t.range.0.line = i as i32;
            t.range.1.line = i as i32;
        }),
        // The ends of the number range.
        _ => p.iter_mut().for_each(|t| {
            t.range.0.line = *r.pick(&[i32::MAX, i32::MIN, 0]);
            t.range.1.line = *r.pick(&[i32::MAX, i32::MIN, 0]);
        }),
    }
}

/// What tokens hold that no tokenizer would put there.
fn payloads(r: &mut Rng, p: &mut [Token]) {
    const TEXTS: &[&str] = &["", "?", "??", "é", "\n", "😀", "VISIBLE", "a b", "\0", "'Z", "...", "?x", "x?", "MKAY", ":", "\"", "\u{301}"];
    for t in p {
        if r.chance(50) {
            continue;
        }
        let s = r.pick(TEXTS).to_string();
        match &mut t.token_type {
            TokenType::Identifier(x) | TokenType::Symbol(x) | TokenType::CommentSingleLine(x) | TokenType::CommentMultiLine(x) => *x = s,
            TokenType::Value(v) => {
                *v = match r.below(4) {
                    0 => TokenValue::String(s),
                    1 => TokenValue::Number(NumberToken::Float(*r.pick(&[f32::NAN, f32::INFINITY, f32::NEG_INFINITY, -0.0, f32::MIN_POSITIVE]))),
                    2 => TokenValue::Number(NumberToken::Int(*r.pick(&[i32::MIN, i32::MAX, -1]))),
                    _ => TokenValue::NOOB,
                }
            }
            _ => {}
        }
    }
}

fn look(block: &lolcode_ast::parser::ASTBlock) -> usize {
    block.iter_errors().count() + block.0.len()
}

fn one(rep: &mut Report, name: &str, ts: Vec<Token>) {
    guard::at(name);
    rep.seen += 1;
    if guard::quiet(move || look(&lolcode_ast::parse(ts))).is_none() {
        rep.bad(name, "no tree");
    }
}

/// Long lists: n times the same piece.
fn sizes(rep: &mut Report, n: usize) {
    for piece in [
        "Ell", "Comma", "NL Ell", "Ell NL", "Id", "NL Id", "Lit Comma", "CM", "VISIBLE", "HAI", "MKAY", "OIC NL", "AN", "Bang",
        "GTFO Comma", "Id Id NL", "YR", "Slot", "CS NL", "Sym", "I_HAS_A Id ITZ Lit NL", "OIC", "YA_RLY NL", "IM_OUTTA_YR Id NL",
        "Comma Ell NL", "O_RLY Qm NL OIC NL", "IM_IN_YR Id NL IM_OUTTA_YR Id NL", "WTF NL", "SRS NL",
    ] {
        for (before, after) in [("", ""), ("VISIBLE", "Lit"), ("Id R SMOOSH", "MKAY"), ("O_RLY Qm NL YA_RLY NL", "NL OIC")] {
            let words: Vec<&str> = piece.split(' ').collect();
            let mut items: Vec<String> = before.split_whitespace().map(|s| s.to_string()).collect();
            for _ in 0..n {
                items.extend(words.iter().map(|s| s.to_string()));
            }
            items.extend(after.split_whitespace().map(|s| s.to_string()));
            let p = program::build(&items, program::PLAIN);
            one(rep, &format!("{} ({}) x {} {}", before, piece, n, after), p.tokens.clone());
            if n <= 20000 {
                let t = p.text;
                rep.seen += 1;
                if guard::quiet(move || lolcode_ast::tokenize_and_parse(t).map(|b| look(&b)).is_ok()).is_none() {
                    rep.bad(&format!("{} ({}) x {} {}", before, piece, n, after), "no tree from the text");
                }
            }
        }
    }
}

pub fn parse(seed: u64, count: usize, big: usize) -> Report {
    let mut rep = Report::new();
    let mut r = Rng::new(seed);
    let kinds = kinds();
    for _ in 0..count {
        let mut items: Vec<String> = vec![];
        let most = if r.chance(10) { 120 } else { 14 };
        let n = 1 + r.below(most);
        let phrases = r.below(100);
        while items.len() < n {
            if r.chance(phrases) {
                items.extend(r.pick(PHRASES).split(' ').map(|s| s.to_string()));
            } else if r.chance(12) {
                items.push("NL".into());
            } else {
                items.push(r.pick(&kinds).clone());
            }
        }
        let mut p = program::build(&items, program::PLAIN).tokens;
        shape(&mut r, &mut p);
        if r.chance(40) {
            payloads(&mut r, &mut p);
        }
        let lines: Vec<String> = p.iter().map(|t| format!("{}-{}", t.range.0.line, t.range.1.line)).collect();
        one(&mut rep, &format!("{} lines {}", items.join(" "), lines.join(" ")), p);
    }
    if big > 0 {
        sizes(&mut rep, big);
    }
    rep
}
