//! Programs of the parser specification (sequences of items) as source text and as token lists.
use lolcode_ast::lexer::{Keywords, NumberToken, Position, Range, Token, TokenType, TokenValue};

macro_rules! kws {
    ($($k:ident)*) => {
        pub fn keyword(name: &str) -> Option<Keywords> {
            match name { $(stringify!($k) => Some(Keywords::$k),)* _ => None }
        }
        pub const KEYWORDS: &[&str] = &[$(stringify!($k)),*];
    };
}
kws! { BTW HAS_A OBTW SRS TLDR BUKKIT HAI KTHXBYE I_HAS_A ITZ NOOB TROOF FAIL WIN NUMBR NUMBAR YARN MKAY AN SUM_OF
DIFF_OF PRODUKT_OF QUOSHUNT_OF MOD_OF BIGGR_OF SMALLR_OF BOTH_SAEM BOTH_OF EITHER_OF WON_OF NOT UPPIN NERFIN ALL_OF
ANY_OF DIFFRINT SMOOSH MAEK IS_NOW VISIBLE GIMMEH O_RLY YA_RLY NO_WAI OIC MEBBE WTF OMGWTF OMG GTFO IM_IN_YR YR TIL
WILE IM_OUTTA_YR HOW_IZ_I IF_U_SAY_SO FOUND_YR I_IZ R A }

/// Kinds no text can produce at token level.
const UNLEXABLE: &[&str] = &["NOOB", "SymQ", "WIN", "FAIL", "BTW", "OBTW"];

pub struct Program {
    pub text: String,
    /// Every token, as the tokenizer should give it.
    pub tokens: Vec<Token>,
    /// Whether the text says the same as the tokens.
    pub faithful: bool,
    /// Byte ranges of the comments in the text.
    pub comments: Vec<(usize, usize)>,
}

/// How a program is written out: spelling of names, literals and gaps, and where in a file it is.
#[derive(Clone, Copy)]
pub struct Dress {
    pub spell: usize,
    /// Empty lines before the program.
    pub above: usize,
    /// Lines of the program are this far apart (on the token level).
    pub apart: i32,
    /// Everything is this far to the right (on the token level).
    pub right: i32,
    /// All tokens of a line are at one and the same place, and those of one kind hold the same
    /// (on the token level).
    pub still: bool,
    /// Which of the spellings made by hand come first.
    pub salt: usize,
}

pub const PLAIN: Dress = Dress { spell: 0, above: 0, apart: 1, right: 0, still: false, salt: 0 };

impl Dress {
    pub fn shown(&self) -> String {
        format!("[written {} {} {} {}{}]", self.spell, self.above, self.apart, self.right, if self.still { " still".to_string() } else if self.salt > 0 { format!(" salt {}", self.salt) } else { String::new() })
    }
}

/// The spelling that only tokens made by hand can have.
pub const HAND_MADE: usize = 5;

fn name(n: usize, spell: usize) -> String {
    match spell {
        0 => match n % 5 {
            0 => format!("v{}", n),
            1 => format!("Cat_{}", n),
            2 => format!("_x{}", n),
            3 => format!("ITZ{}", n),
            _ => format!("z{}R", n),
        },
        // The same name everywhere.
        1 => "x".into(),
        2 => ["OF", "mkay", "Z", "an", "oic", "R_", "yr", "RLY", "i", "_"][n % 10].into(),
        // Names of what the literals of this spelling spell.
        4 => ["WIN_", "x1", "NOOB0", "_", "IT", "it", "x1"][n % 7].into(),
        6 => ["I", "IM", "HOW", "IF", "YA", "NO", "a", "r", "win", "gtfo", "Kthxbye", "IZ", "OUTTA", "AND", "RR", "A_", "OMGW", "visible"][n % 18].into(),
        // What no tokenizer would take for a name.
        HAND_MADE => ["", "?", "a b", "MKAY", "'Z", "\n", "é", "I HAS A", "0", "...", "!"][n % 11].into(),
        _ => "long_Name9".repeat(1 + (n * 13) % 60),
    }
}

fn literal(n: usize, spell: usize) -> (String, TokenType) {
    let val = |s: String, v: TokenValue| (s, TokenType::Value(v));
    let text = |s: &str| val(format!("\"{}\"", s), TokenValue::String(s.to_string()));
    let int = |s: &str, i: i32| val(s.to_string(), TokenValue::Number(NumberToken::Int(i)));
    let float = |s: &str, x: f32| val(s.to_string(), TokenValue::Number(NumberToken::Float(x)));
    match spell {
        0 => match n % 8 {
            0 => val(format!("{}", n), TokenValue::Number(NumberToken::Int(n as i32))),
            1 => float("0.5", 0.5),
            2 => text("a, b... BTW 'Z"),
            3 => val("WIN".into(), TokenValue::Boolean(true)),
            4 => val("FAIL".into(), TokenValue::Boolean(false)),
            5 => val("NOOB".into(), TokenValue::NOOB),
            6 => int("-3", -3),
            _ => text("é OIC"),
        },
        1 => [text(""), int("0", 0), int("1", 1), text("x")][n % 4].clone(),
        2 => [
            int("-2147483648", i32::MIN), text("MKAY"), text("::"), float("-.5", -0.5), int("+007", 7), text(":\""), text("?"),
            float("3.", 3.0), text("OBTW"), val("NOOB".into(), TokenValue::NOOB), text("\t"), int("2147483647", i32::MAX),
        ][n % 12].clone(),
        4 => [text("IT"), text("x1"), float("1.0", 1.0), int("1", 1), text("1"), text("WIN"), int("-0", 0), float("-0.0", -0.0),
              text(" x1 "), text("0"), val("WIN".into(), TokenValue::Boolean(true))][n % 11].clone(),
        6 => [
            text(":)"), text("a:>"), text(":o"), text(":(41)"), text("!"), text(":{x}"), text("..."), text(":[DIGIT ONE]"), text(" "), text("x:\"y"), text("1.2"),
            text("::::"), text("'Z"), text("\\n"), text("{0}"), text("%d"), text(":)x"), text("..."), text("x\u{301}"), float("0.0", 0.0), float("16777216.0", 16777216.0),
            int("00", 0), int("+0", 0), text(":\"..."), text("BTW x"), text("TLDR"), text("NOOB"),
        ][n % 27].clone(),
        HAND_MADE => [
            text("\n"), text("?"), text("a\nb\n"), float("", f32::INFINITY), text("\""), float("", f32::NEG_INFINITY), text("\0"),
            float("", f32::MIN_POSITIVE), int("", -1), text(","), float("", 1e30), text("\r"),
        ][n % 12].clone(),
        _ => match n % 3 {
            0 => text(&"😀 ".repeat(1 + n * 17 % 90)),
            1 => int(&("0".repeat(n * 7 % 80) + "42"), 42),
            _ => val("FAIL".into(), TokenValue::Boolean(false)),
        },
    }
}

fn piece(kind: &str, n: usize, spell: usize) -> (String, TokenType) {
    let text = |s: &str| (format!("\"{}\"", s), TokenType::Value(TokenValue::String(s.to_string())));
    match kind {
        "Id" => {
            let s = name(n, spell);
            (s.clone(), TokenType::Identifier(s))
        }
        "Lit" => literal(n, spell),
        "ML" => match spell {
            1 => text("\n"),
            2 => text("a\r\n\tOIC, MKAY "),
            // Held without its line break.
            HAND_MADE => ("one\ntwo".into(), TokenType::Value(TokenValue::NOOB)),
            _ => text("one\ntwo"),
        },
        "CS" | "CM" if spell == 1 => match kind {
            "CS" => ("BTW".into(), TokenType::CommentSingleLine("".into())),
            _ => ("OBTWTLDR".into(), TokenType::CommentMultiLine("".into())),
        },
        "CS" | "CM" | "CM2" if spell == HAND_MADE => {
            let held = ["", "?", "\n", "OBTW", "TLDR", "é\n\n"][n % 6].to_string();
            (
                if kind == "CM2" { "\n".into() } else { "x".into() },
                if kind == "CS" { TokenType::CommentSingleLine(held) } else { TokenType::CommentMultiLine(held) },
            )
        }
        "CM" if spell == 6 => {
            let s = ["\r", " :) ", "OBTW OBTW", " 'Z ... ! ? ", "TL DR TLD", "\"", " IF U SAY SO, OIC"][n % 7];
            (format!("OBTW{}TLDR", s), TokenType::CommentMultiLine(s.into()))
        }
        "CS" if spell == 6 => {
            let s = ["\rGTFO", " ...", " … ,", "\r x\r\r", "TLDR", " \"", "OBTW x TLDR y"][n % 7];
            (format!("BTW{}", s), TokenType::CommentSingleLine(s.into()))
        }
        "CM" => match n % 2 {
            0 => ("OBTW a, b ... \" TLDR".into(), TokenType::CommentMultiLine(" a, b ... \" ".into())),
            _ => ("OBTW BTW TLDR".into(), TokenType::CommentMultiLine(" BTW ".into())),
        },
        "CM2" => ("OBTW x\n OIC TLDR".into(), TokenType::CommentMultiLine(" x\n OIC ".into())),
        "CS" => match n % 2 {
            0 => ("BTW note, \" OBTW...".into(), TokenType::CommentSingleLine(" note, \" OBTW...".into())),
            _ => ("BTW".into(), TokenType::CommentSingleLine("".into())),
        },
        "Sym" => {
            let s = match spell {
                0 => ["#", "(", "+", ";", "'"][n % 5],
                1 => "+",
                2 => ["é", "2147483648", "\\", "😀", ".", "/"][n % 6],
                4 => ["99999999999", "-", "'", "\u{feff}", "*", "="][n % 6],
                6 => ["<", ">", "{", "}", "[", "]", ")", "^", "|", "`", "\u{b4}", "\u{2019}"][n % 12],
                HAND_MADE => ["", "??", "?x", "x?", " ?", "\u{ff1f}", "!", "\n", "OIC", ",", ".", "...", "'Z", "x", "1"][n % 15],
                _ => ["&", ";", "-2147483649", "\u{a0}", "~", ":", ".", "-", "@", "$", "%"][n % 11],
            };
            (s.into(), TokenType::Symbol(s.into()))
        }
        "SymQ" => ("?".into(), TokenType::Symbol("?".into())),
        "Slot" => ("'Z".into(), TokenType::BukkitSlotAccess),
        "Ell" => match n % 3 {
            0 => ("…".into(), TokenType::Ellipsis),
            _ => ("...".into(), TokenType::Ellipsis),
        },
        "Comma" => (",".into(), TokenType::Comma),
        "Bang" => ("!".into(), TokenType::ExclamationMark),
        "Qm" => ("?".into(), TokenType::QuestionMark),
        k => match keyword(k) {
            Some(kw) => (k.replace('_', " "), TokenType::Keyword(kw)),
            None => panic!("unknown kind {}", k),
        },
    }
}

fn over(p: Position, s: &str) -> Position {
    let mut p = p;
    for c in s.chars() {
        if c == '\n' {
            p.line += 1;
            p.column = 1;
        } else {
            p.column += 1;
        }
        p.chars += 1;
        p.bytes += c.len_utf8() as i32;
    }
    p
}

pub fn build(items: &[String], dress: Dress) -> Program {
    let spell = dress.spell;
    let mut text = "\n".repeat(dress.above);
    let mut at = over(Position { line: 1, column: 1, bytes: 0, chars: 0 }, &text);
    let mut tokens = vec![];
    let mut comments = vec![];
    let mut faithful = dress.apart == 1 && dress.right == 0 && !dress.still && spell != HAND_MADE;
    let mut fresh = true;
    for (i, k) in items.iter().enumerate() {
        let n = tokens.len() + 1;
        if k == "NL" {
            let nl = if i % 4 == 3 || spell == 3 { "\r\n" } else { "\n" };
            // A line comment ends before the line feed: it would take the carriage return along.
            let nl = if i > 0 && items[i - 1] == "CS" { "\n" } else { nl };
            text.push_str(nl);
            at = over(at, nl);
            fresh = true;
            continue;
        }
        let tight = matches!(k.as_str(), "Comma" | "Bang" | "Qm" | "Slot" | "Ell") && n % 2 == 0;
        let gap = match spell {
            1 if fresh || tight => "",
            1 => " ",
            2 => "\t ",
            6 => ["\r", "   ", "\t\t", " \r ", "  "][n % 5],
            3 if fresh => "                ",
            3 => "     ",
            _ if fresh => if i % 3 == 1 { "  " } else { "" },
            _ if tight => "",
            _ if n % 7 == 0 => "\t ",
            _ => " ",
        };
        text.push_str(gap);
        at = over(at, gap);
        let (s, ty) = piece(k, if dress.still { 1 } else { n + dress.salt }, spell);
        let s = if s.is_empty() { "x".to_string() } else { s };
        if UNLEXABLE.contains(&k.as_str()) || (k == "CS" && i + 1 < items.len() && items[i + 1] != "NL") {
            faithful = false;
        }
        let from = text.len();
        text.push_str(&s);
        if k == "CS" || k == "CM" || k == "CM2" {
            comments.push((from, text.len()));
        }
        let end = over(at, &s);
        tokens.push(Token { token_type: ty, range: Range(at, end) });
        at = end;
        fresh = false;
    }
    for t in &mut tokens {
        for p in [&mut t.range.0, &mut t.range.1] {
            p.line *= dress.apart;
            p.column += dress.right;
            if dress.still {
                *p = Position { line: p.line, column: 7, bytes: p.line * 100, chars: p.line * 100 };
            }
        }
    }
    Program { text, tokens, faithful, comments }
}
