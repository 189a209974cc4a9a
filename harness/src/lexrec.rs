//! What the real tokenizer did with a text, in the vocabulary of spec/Lexer.tla.
use crate::json::{self, J};
use crate::guard::quiet;
use lolcode_ast::lexer::{NumberToken, Position, Token, TokenError, TokenType, TokenValue};

pub fn pos(p: &Position) -> J {
    J::A(vec![J::N(p.line as i64), J::N(p.column as i64), J::N(p.bytes as i64), J::N(p.chars as i64)])
}

/// Text under a byte range, if the range is one.
fn under<'a>(text: &'a str, t: &Token) -> Option<&'a str> {
    let (a, b) = (t.range.0.bytes, t.range.1.bytes);
    if a < 0 || b < a {
        return None;
    }
    text.get(a as usize..b as usize)
}

pub fn token(text: &str, t: &Token) -> J {
    let (kind, pay): (String, J) = match &t.token_type {
        TokenType::Identifier(s) => ("id".into(), json::cps(s)),
        TokenType::Keyword(k) => (format!("{:?}", k), json::cps(k.to_string_slice())),
        TokenType::Symbol(s) => ("sym".into(), json::cps(s)),
        TokenType::Value(TokenValue::Number(NumberToken::Int(n))) => ("int".into(), J::A(vec![J::N(*n as i64)])),
        TokenType::Value(TokenValue::Number(NumberToken::Float(x))) => {
            // The value the standard library reads from the same characters is the oracle for
            // rounding; the specification decides which characters those are.
            let raw = under(text, t).unwrap_or("");
            match raw.parse::<f32>() {
                Ok(y) if y.to_bits() == x.to_bits() => ("float".into(), json::cps(raw)),
                _ => ("float".into(), J::A(vec![J::N(-1)])),
            }
        }
        TokenType::Value(TokenValue::String(s)) => ("str".into(), json::cps(s)),
        TokenType::Value(TokenValue::Boolean(b)) => ("bool".into(), J::A(vec![J::N(*b as i64)])),
        TokenType::Value(TokenValue::NOOB) => ("noob".into(), J::A(vec![])),
        TokenType::CommentSingleLine(s) => ("cs".into(), json::cps(s)),
        TokenType::CommentMultiLine(s) => ("cm".into(), json::cps(s)),
        TokenType::BukkitSlotAccess => ("slot".into(), J::A(vec![])),
        TokenType::Ellipsis => ("ell".into(), J::A(vec![])),
        TokenType::Comma => ("comma".into(), J::A(vec![])),
        TokenType::ExclamationMark => ("bang".into(), J::A(vec![])),
        TokenType::QuestionMark => ("qm".into(), J::A(vec![])),
    };
    J::A(vec![J::S(kind), pay, pos(&t.range.0), pos(&t.range.1)])
}

/// ("ok", tokens), ("err", [start, end]) or ("panic", [])
pub fn lex(text: &str) -> (String, Vec<J>) {
    match quiet(|| lolcode_ast::tokenize(text.to_string())) {
        None => ("panic".into(), vec![]),
        Some(Ok(ts)) => ("ok".into(), ts.iter().map(|t| token(text, t)).collect()),
        Some(Err(TokenError::UnclosedMultilineComment(r))) => ("err".into(), vec![pos(&r.0), pos(&r.1)]),
    }
}

pub fn record(text: &str) -> J {
    let (st, ts) = lex(text);
    J::O(vec![("s".into(), json::cps(text)), ("st".into(), J::S(st)), ("t".into(), J::A(ts))])
}
