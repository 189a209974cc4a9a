//! Texts as long as one likes: spec/Stretch.tla says what repeating a unit does to the tokens.
use crate::guard::{self, quiet};
use crate::json::{self, J};
use crate::lexrec;
use crate::report::Report;
use lolcode_ast::lexer::{NumberToken, Position, Token, TokenError, TokenType, TokenValue};
use std::io::BufRead;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

type Place = [i64; 4];

#[derive(Clone, PartialEq, Debug)]
enum Pay {
    Text(String),
    Number(i64),
    Nothing,
}

struct Expected {
    kind: String,
    pay: Pay,
    from: Place,
    to: Place,
}

fn place(j: &J) -> Place {
    let v = j.arr();
    [v[0].n(), v[1].n(), v[2].n(), v[3].n()]
}

fn real_place(p: &Position) -> Place {
    [p.line as i64, p.column as i64, p.bytes as i64, p.chars as i64]
}

fn expected(j: &J) -> Expected {
    let a = j.arr();
    let kind = a[0].s().to_string();
    let pay = match kind.as_str() {
        "int" | "bool" => Pay::Number(a[1].arr()[0].n()),
        "noob" | "slot" | "ell" | "comma" | "bang" | "qm" => Pay::Nothing,
        _ => Pay::Text(json::from_cps(&a[1])),
    };
    Expected { kind, pay, from: place(&a[2]), to: place(&a[3]) }
}

/// Kind and payload of a real token, and whether the payload is the one wanted.
fn agrees(prop: &str, text: &str, t: &Token, e: &Expected) -> bool {
    let quoted = |s: &str, kind: &str| e.kind == kind && matches!(&e.pay, Pay::Text(x) if x == s);
    let kind = |k: &str| e.kind == k;
    let values = prop != "C04";
    let words = prop != "C05";
    const WORDLESS: [&str; 13] = ["int", "float", "str", "bool", "noob", "sym", "slot", "ell", "comma", "bang", "qm", "cs", "cm"];
    match &t.token_type {
        TokenType::Identifier(s) if words => quoted(s, "id"),
        TokenType::Keyword(k) if words => quoted(k.to_string_slice(), &format!("{:?}", k)),
        TokenType::Identifier(_) | TokenType::Keyword(_) => !WORDLESS.contains(&e.kind.as_str()),
        TokenType::Symbol(s) => quoted(s, "sym"),
        TokenType::Value(TokenValue::Number(NumberToken::Int(n))) if values => kind("int") && e.pay == Pay::Number(*n as i64),
        TokenType::Value(TokenValue::Number(NumberToken::Float(x))) if values => {
            let bits = |s: &str| s.parse::<f32>().map(|y| y.to_bits()).ok();
            kind("float") && matches!(&e.pay, Pay::Text(s) if bits(s) == Some(x.to_bits())) && text.len() >= t.range.1.bytes as usize
        }
        TokenType::Value(TokenValue::Number(_)) => kind("int") || kind("float"),
        TokenType::Value(TokenValue::String(s)) => if values { quoted(s, "str") } else { kind("str") },
        TokenType::Value(TokenValue::Boolean(b)) => kind("bool") && e.pay == Pay::Number(*b as i64),
        TokenType::Value(TokenValue::NOOB) => kind("noob"),
        TokenType::CommentSingleLine(s) => if words { quoted(s, "cs") } else { kind("cs") || kind("cm") },
        TokenType::CommentMultiLine(s) => if words { quoted(s, "cm") } else { kind("cs") || kind("cm") },
        TokenType::BukkitSlotAccess => kind("slot"),
        TokenType::Ellipsis => kind("ell"),
        TokenType::Comma => kind("comma"),
        TokenType::ExclamationMark => kind("bang"),
        TokenType::QuestionMark => kind("qm"),
    }
}

/// The rule the specification gives for a run that repeats a unit.
struct Plan {
    before: String,
    unit: String,
    after: String,
    status: String,
    base: Vec<J>,
    some: i64,
}

impl Plan {
    fn text(&self, m: i64) -> String {
        let mut s = String::with_capacity(self.before.len() + self.unit.len() * m as usize + self.after.len());
        s.push_str(&self.before);
        for _ in 0..m {
            s.push_str(&self.unit);
        }
        s.push_str(&self.after);
        s
    }

    fn stretched(&self, m: i64) -> Vec<Expected> {
        let j = m - self.some;
        let (len, bytes) = (self.unit.chars().count() as i64, self.unit.len() as i64);
        let lines = self.unit.matches('\n').count() as i64;
        let half = self.before.chars().count() as i64 + self.some / 2 * len;
        let upto: String = self.text(self.some).chars().take(half as usize).collect();
        let mid = 1 + upto.matches('\n').count() as i64;
        let moved = |p: Place, j: i64| [p[0] + j * lines, if lines == 0 && p[0] == mid { p[1] + j * len } else { p[1] }, p[2] + j * bytes, p[3] + j * len];
        if self.status == "err" {
            let p = |k: usize| {
                let p = place(&self.base[k]);
                if p[3] >= half { moved(p, j) } else { p }
            };
            return vec![Expected { kind: "err".into(), pay: Pay::Nothing, from: p(0), to: p(1) }];
        }
        let ts: Vec<Expected> = self.base.iter().map(expected).collect();
        let over = ts.iter().any(|t| t.from[3] < half && t.to[3] > half);
        let mut out = vec![];
        let shift = |t: &Expected, j: i64| Expected { kind: t.kind.clone(), pay: t.pay.clone(), from: moved(t.from, j), to: moved(t.to, j) };
        for t in ts.iter().filter(|t| t.from[3] < half) {
            let mut e = shift(t, 0);
            if t.to[3] > half {
                e.to = moved(t.to, j);
                let lead = match t.kind.as_str() { "str" => 1, "cs" => 3, "cm" => 4, _ => 0 };
                if let (true, Pay::Text(s)) = (["str", "cs", "cm", "id", "sym", "float"].contains(&t.kind.as_str()), &t.pay) {
                    let cut = (half - t.from[3] - lead) as usize;
                    let cut = s.char_indices().nth(cut).map(|x| x.0).unwrap_or(s.len());
                    e.pay = Pay::Text(s[..cut].to_string() + &self.unit.repeat(j as usize) + &s[cut..]);
                }
            }
            out.push(e);
        }
        let right: Vec<&Expected> = ts.iter().filter(|t| t.from[3] >= half).collect();
        if !over {
            for k in 0..j {
                out.extend(right.iter().filter(|t| t.from[3] < half + len).map(|t| shift(t, k)));
            }
        }
        out.extend(right.iter().map(|t| shift(t, j)));
        out
    }
}

/// Whether tokens that are not the expected ones still tile the text.
fn tiles(text: &str, ts: &[Token]) -> bool {
    let blank = |s: Option<&str>| s.is_some_and(|s| s.chars().all(|c| " \t\r\n".contains(c)));
    let mut at = 0;
    for t in ts {
        let (a, b) = (t.range.0.bytes.max(0) as usize, t.range.1.bytes.max(0) as usize);
        if a < at || b <= a || !blank(text.get(at..a)) {
            return false;
        }
        let raw = match text.get(a..b) {
            Some(r) => r,
            None => return false,
        };
        let between = |x: &str, s: &str, y: &str| raw.strip_prefix(x).and_then(|r| r.strip_suffix(y)) == Some(s);
        let ok = match &t.token_type {
            TokenType::Identifier(s) | TokenType::Symbol(s) => raw == s,
            TokenType::Keyword(k) => raw == k.to_string_slice(),
            TokenType::CommentSingleLine(s) => between("BTW", s, ""),
            TokenType::CommentMultiLine(s) => between("OBTW", s, "TLDR"),
            TokenType::Value(TokenValue::String(s)) => between("\"", s, "\"") || (b == text.len() && between("\"", s, "")),
            TokenType::Value(TokenValue::Boolean(x)) => raw == if *x { "WIN" } else { "FAIL" },
            TokenType::Value(TokenValue::NOOB) => raw == "NOOB",
            TokenType::Value(TokenValue::Number(n)) => raw.contains('.') == matches!(n, NumberToken::Float(_)) && raw.bytes().any(|c| c.is_ascii_digit()),
            TokenType::BukkitSlotAccess => raw == "'Z",
            TokenType::Ellipsis => raw == "..." || raw == "\u{2026}",
            TokenType::Comma => raw == ",",
            TokenType::ExclamationMark => raw == "!",
            TokenType::QuestionMark => raw == "?",
        };
        if !ok {
            return false;
        }
        at = b;
    }
    blank(text.get(at..))
}

/// Whether all places are what counting through the text gives.
fn counted(text: &str, places: &[Place]) -> bool {
    let (mut p, mut k) = ([1i64, 1, 0, 0], 0);
    let mut chars = text.chars();
    loop {
        while k < places.len() && places[k][2] == p[2] {
            if places[k] != p {
                return false;
            }
            k += 1;
        }
        match chars.next() {
            None => return k == places.len(),
            Some(c) => {
                p = if c == '\n' { [p[0] + 1, 1, p[2] + 1, p[3] + 1] } else { [p[0], p[1] + 1, p[2] + c.len_utf8() as i64, p[3] + 1] };
            }
        }
    }
}

/// None if the property is content with the run on the text with m units.
fn judge(prop: &str, plan: &Plan, m: i64) -> Option<String> {
    let text = plan.text(m);
    guard::at(&plan.text(plan.some));
    let res = match quiet(|| lolcode_ast::tokenize(text.clone())) {
        None => return Some("panics".into()),
        Some(r) => r,
    };
    let want = plan.stretched(m);
    match &res {
        Err(TokenError::UnclosedMultilineComment(r)) => {
            let got = [real_place(&r.0), real_place(&r.1)];
            match prop {
                "C02" => None,
                "C03" => if counted(&text, &got) { None } else { Some(format!("the error is at {:?}", got)) },
                _ if plan.status != "err" => Some("is refused".into()),
                "C01" if got[0][2] != want[0].from[2] || got[1][2] != want[0].to[2] =>
                    Some(format!("the error spans bytes {} to {}, expected {} to {}", got[0][2], got[1][2], want[0].from[2], want[0].to[2])),
                _ => None,
            }
        }
        Ok(ts) => {
            let first = || {
                let k = (0..ts.len().max(want.len())).find(|k| match (ts.get(*k), want.get(*k)) {
                    (Some(t), Some(e)) => !agrees("", &text, t, e) || real_place(&t.range.0) != e.from || real_place(&t.range.1) != e.to,
                    _ => true,
                }).unwrap_or(0);
                let show = |s: String| if s.len() > 300 { s.chars().take(120).chain("...".chars()).collect() } else { s };
                format!("token {}: expected {} got {}", k,
                    want.get(k).map_or("none".into(), |e| show(format!("{} {:?} {:?} {:?}", e.kind, e.from, e.to, e.pay))),
                    ts.get(k).map_or("none".into(), |t| show(lexrec::token("", &Token { token_type: shortened(&t.token_type), range: t.range.clone() }).show())))
            };
            if prop == "C02" || prop == "C03" {
                let same = plan.status == "ok" && ts.len() == want.len()
                    && ts.iter().zip(&want).all(|(t, e)| agrees("", &text, t, e) && real_place(&t.range.0) == e.from && real_place(&t.range.1) == e.to);
                if same {
                    return None;
                }
                let fine = if prop == "C02" { tiles(&text, ts) } else {
                    counted(&text, &ts.iter().flat_map(|t| [real_place(&t.range.0), real_place(&t.range.1)]).collect::<Vec<_>>())
                };
                return if fine { None } else { Some(first()) };
            }
            if plan.status != "ok" {
                return Some("is accepted, with a comment that is never closed".into());
            }
            if prop != "C01" && (ts.len() != want.len() || ts.iter().zip(&want).any(|(t, e)| !agrees(prop, &text, t, e))) {
                return Some(first());
            }
            None
        }
    }
}

fn shortened(t: &TokenType) -> TokenType {
    let cut = |s: &String| s.chars().take(40).collect::<String>();
    match t {
        TokenType::Identifier(s) => TokenType::Identifier(cut(s)),
        TokenType::Symbol(s) => TokenType::Symbol(cut(s)),
        TokenType::CommentSingleLine(s) => TokenType::CommentSingleLine(cut(s)),
        TokenType::CommentMultiLine(s) => TokenType::CommentMultiLine(cut(s)),
        TokenType::Value(TokenValue::String(s)) => TokenType::Value(TokenValue::String(cut(s))),
        t => t.clone(),
    }
}

/// Vectors: [text, status, tokens, beginning, unit, ending, times].  Sizes are in characters; every
/// text is tried at all of them, as long as the tokenizer is quick enough.
pub fn replay(prop: &str, sizes: &str, vectors: &str) -> Report {
    let sizes: Vec<i64> = sizes.split(',').map(|s| s.parse().unwrap()).collect();
    let lines: Vec<String> = std::io::BufReader::new(std::fs::File::open(vectors).unwrap()).lines().map_while(Result::ok).collect();
    let next = AtomicUsize::new(0);
    let total = Mutex::new((Report::new(), 0, 0));
    std::thread::scope(|s| {
        for _ in 0..8 {
            std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(s, || loop {
                let k = next.fetch_add(1, Ordering::SeqCst);
                let line = match lines.get(k) {
                    Some(l) => l,
                    None => break,
                };
                let v = match json::parse_tlc_line(line) {
                    Some(v) => v,
                    None => continue,
                };
                let (runs, left_out, why) = all_sizes(prop, &sizes, v.arr());
                let mut t = total.lock().unwrap();
                t.0.seen += 1;
                t.1 += runs;
                t.2 += left_out;
                if let Some(why) = why {
                    t.0.line = line.clone();
                    t.0.bad(&json::from_cps(&v.arr()[0]), &why);
                }
            }).unwrap();
        }
    });
    let (mut rep, runs, left_out) = total.into_inner().unwrap();
    rep.note("runs", runs);
    rep.note("left out, too slow", left_out);
    rep
}

fn all_sizes(prop: &str, sizes: &[i64], a: &[J]) -> (u64, u64, Option<String>) {
    let plan = Plan {
        before: json::from_cps(&a[3]), unit: json::from_cps(&a[4]), after: json::from_cps(&a[5]),
        status: a[1].s().to_string(), base: a[2].arr().to_vec(), some: a[6].n(),
    };
    let cycles = plan.status == "ok" && plan.stretched(plan.some + 1).len() > plan.base.len();
    let (mut runs, mut took) = (0, (0, Duration::ZERO));
    for size in sizes {
        let m = (size / plan.unit.chars().count() as i64).max(plan.some);
        if cycles && *size > 2000000 {
            break;
        }
        // Slow is not wrong.
        let ratio = if took.0 == 0 { 0.0 } else { m as f64 / took.0 as f64 };
        if took.1.as_secs_f64() * ratio * ratio > 60.0 && took.1.as_secs_f64() * ratio > 10.0 {
            return (runs, 1, None);
        }
        let t0 = Instant::now();
        let why = judge(prop, &plan, m);
        took = (m, t0.elapsed());
        runs += 1;
        if let Some(why) = why {
            return (runs, 0, Some(format!("with {:?} said {} times: {}", plan.unit, m, why)));
        }
    }
    (runs, 0, None)
}
