//! Histories of calls replayed into the real library, against what each call returns when it is
//! the first and only one of its process.
use crate::guard;
use crate::json::{self, J};
use crate::lexcheck;
use crate::lexrec;
use crate::report::Report;
use crate::rng::Rng;
use lolcode_ast::lexer::{Token, TokenError};
use lolcode_ast::parser::ASTBlock;
use std::collections::HashMap;
use std::io::{BufRead, Read, Write};
use std::process::{Command, Stdio};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::{Arc, Mutex};

/// The texts histories are made of.  Many look alike: same length, same beginning, same tokens.
pub const STOCK: &[&str] = &[
    "VISIBLE \"a\"\nGTFO",
    "VISIBLE \"b\"\nGTFO",
    "VISIBLE a1 ,\nGTFO",
    "HAI 1.2\nI HAS A x ITZ SUM OF 1 AN 2\nx R\nx x\nKTHXBYE",
    "O RLY?\nYA RLY\nIM IN YR l UPPIN YR i TIL WIN\nGTFO\nIM OUTTA YR l\nNO WAI\nx\nOIC",
    "O RLY?\nYA RLY\nVISIBLE x",
    "x OBTW never closed\n\"é\n",
    "",
    "\n\n\"é\n😀\" BTW note\nOBTW a\nb TLDR x'Z y R NOT z",
    "  \r\n\tVISIBLE \"a\"\nGTFO\n  ",
    "SMOOSH 1 AN 2147483648 AN -2147483648 AN 0.1 MKAY, NOOB, \"open : \"",
    "VISIBLE ab\nGTFO",
    "VISIBLE ba\nGTFO",
    "SUM OF ?\nNOT ?\nALL OF ?\nx'Z ?\nIM IN YR l\nNOT ,x\nx R\nIM OUTTA YR ?",
    "I HAS A\nI HAS A 1\nI IZ f\nVISIBLE SUM OF 1\nO RLY\nWTF\nGTFO\nHOW IZ I f\nNOT NOT\nSMOOSH",
    "OIC, IM OUTTA YR x, MAEK, HOW IZ I f YR a AN YR b\nFOUND YR a\nIF U SAY SO, I IZ f YR 1 MKAY",
];

fn block(b: Option<ASTBlock>) -> String {
    match b {
        None => "panic".into(),
        Some(b) => format!("{:?} {:?}", b, guard::quiet(|| b.iter_errors().count())),
    }
}

fn composed(r: Option<Result<ASTBlock, TokenError>>) -> String {
    match r {
        Some(Err(TokenError::UnclosedMultilineComment(r))) => {
            format!("error {} {}", lexrec::pos(&r.0).show(), lexrec::pos(&r.1).show())
        }
        Some(Ok(b)) => block(Some(b)),
        None => "panic".into(),
    }
}

fn tokens(text: &str) -> Vec<Token> {
    guard::quiet(|| lolcode_ast::tokenize(text.to_string()).ok()).flatten().unwrap_or_default()
}

fn call(op: &str, text: &str, ts: &[Token]) -> String {
    match op {
        "tokenize" => {
            let (st, ts) = lexrec::lex(text);
            format!("{} {}", st, J::A(ts).show())
        }
        "parse" => {
            let ts = ts.to_vec();
            block(guard::quiet(move || lolcode_ast::parse(ts)))
        }
        _ => composed(guard::quiet(|| lolcode_ast::tokenize_and_parse(text.to_string()))),
    }
}

/// The call alone, its result dropped.
fn again(op: &str, text: &str, ts: &[Token]) {
    guard::quiet(|| match op {
        "tokenize" => drop(lolcode_ast::tokenize(text.to_string())),
        "parse" => drop(lolcode_ast::parse(ts.to_vec())),
        _ => drop(lolcode_ast::tokenize_and_parse(text.to_string())),
    });
}

/// Tokenizing, then parsing what came out.
fn in_two_steps(text: &str) -> String {
    composed(guard::quiet(|| lolcode_ast::tokenize(text.to_string()).map(lolcode_ast::parse)))
}

/// One call, the only one of this process (parsing needs one more for its tokens).
pub fn one(op: &str) {
    let mut text = String::new();
    std::io::stdin().read_to_string(&mut text).unwrap();
    let ts = if op == "parse" { tokens(&text) } else { vec![] };
    print!("{}", call(op, &text, &ts));
}

fn fresh(op: &str, text: &str) -> String {
    let exe = std::env::current_exe().unwrap();
    let mut c = Command::new(exe)
        .args(["/dev/null", "session-one", op])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    let mut i = c.stdin.take().unwrap();
    let t = text.to_string();
    let w = std::thread::spawn(move || {
        let _ = i.write_all(t.as_bytes());
    });
    let mut s = String::new();
    let _ = c.stdout.take().unwrap().read_to_string(&mut s);
    let _ = w.join();
    let _ = c.wait();
    s
}

const OPS: &[&str] = &["tokenize", "parse", "both"];
type Base = HashMap<(String, usize), String>;

fn baseline(texts: &[String]) -> Base {
    let jobs: Vec<(String, usize)> = (0..texts.len()).flat_map(|k| OPS.iter().map(move |o| (o.to_string(), k))).collect();
    let next = Mutex::new(0);
    let out = Mutex::new(Base::new());
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let k = {
                    let mut n = next.lock().unwrap();
                    *n += 1;
                    *n - 1
                };
                if k >= jobs.len() {
                    break;
                }
                guard::at(&texts[jobs[k].1]);
                let v = fresh(&jobs[k].0, &texts[jobs[k].1]);
                out.lock().unwrap().insert(jobs[k].clone(), v);
            });
        }
    });
    out.into_inner().unwrap()
}

struct Worker {
    ask: Sender<(String, usize, usize)>,
    answer: Receiver<String>,
}

fn workers(n: usize, texts: Arc<Vec<String>>, toks: Arc<Vec<Vec<Token>>>) -> Vec<Worker> {
    (0..n)
        .map(|_| {
            let (ask, inbox) = channel::<(String, usize, usize)>();
            let (outbox, answer) = channel();
            let (texts, toks) = (texts.clone(), toks.clone());
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn(move || {
                    while let Ok((op, k, times)) = inbox.recv() {
                        for _ in 1..times {
                            again(&op, &texts[k], &toks[k]);
                        }
                        let _ = outbox.send(call(&op, &texts[k], &toks[k]));
                    }
                })
                .unwrap();
            Worker { ask, answer }
        })
        .collect()
}

fn compositions(rep: &mut Report, texts: &[String]) {
    for t in texts {
        guard::at(t);
        let (a, b) = (call("both", t, &[]), in_two_steps(t));
        if a != b {
            rep.bad(t, &format!("in one call {:.300} in two {:.300}", a, b));
        }
    }
}

/// Vectors: histories of <<"start" | "end", thread, op, arg, times>>.
pub fn replay(name: &str, seed: u64, count: usize, vectors: &str) -> Report {
    let mut rep = Report::new();
    let texts = arguments(name, seed, count);
    let base = baseline(&texts);
    compositions(&mut rep, &texts);
    let toks: Vec<Vec<Token>> = texts.iter().map(|t| tokens(t)).collect();
    let ws = workers(4, Arc::new(texts.clone()), Arc::new(toks));
    let f = std::io::BufReader::new(std::fs::File::open(vectors).unwrap());
    let (mut calls, mut overlaps) = (0, 0);
    for line in f.lines().map_while(Result::ok) {
        let v = match json::parse_tlc_line(&line) {
            Some(v) => v,
            None => continue,
        };
        rep.line = line.clone();
        rep.seen += 1;
        guard::at(&line);
        let mut open = 0;
        for e in v.arr() {
            let a = e.arr();
            let (w, op, k, times) = (&ws[a[1].n() as usize], a[2].s(), a[3].n() as usize - 1, a[4].n() as usize);
            if a[0].s() == "start" {
                calls += times as u64;
                open += 1;
                if open > 1 {
                    overlaps += 1;
                }
                let _ = w.ask.send((op.to_string(), k, times));
            } else {
                open -= 1;
                let got = w.answer.recv().unwrap_or_default();
                let want = &base[&(op.to_string(), k)];
                if &got != want {
                    rep.bad(&line, &format!("{} of {:?}: alone {:.300} here {:.300}", op, texts[k], want, got));
                }
            }
        }
    }
    rep.note("calls", calls);
    rep.note("calls started while others were running", overlaps);
    rep
}

/// Texts that leave the parser in the middle of something, in every way.
fn aborted() -> Vec<String> {
    let mut v: Vec<String> = STOCK.iter().map(|s| s.to_string()).collect();
    for op in ["NOT", "SUM OF", "DIFFRINT 1", "SUM OF 1 AN", "ALL OF", "SMOOSH 1 AN", "x'Z", "SRS", "x R", "x HAS A", "x HAS A y ITZ", "I HAS A",
        "I HAS A x ITZ", "GIMMEH", "VISIBLE", "VISIBLE NOT", "I IZ", "I IZ f YR", "FOUND YR", "HOW IZ I", "HOW IZ I f YR", "HOW IZ I f\nNOT",
        "IM IN YR", "IM IN YR l UPPIN YR", "IM IN YR l TIL", "IM IN YR l\nNOT", "O RLY?\nYA RLY\nx", "O RLY?\nMEBBE", "O RLY?\nMEBBE x\nNOT",
        "WTF?\nOMG", "WTF?\nOMG 1\nSUM OF", "WTF?\nOMGWTF\nALL OF", "OBTW", "\"", "x ...", "x OBTW TLDR", "x OBTW"] {
        for tail in ["", " ?", " MKAY", ", OIC", " NOT NOT ?", " \n\nx"] {
            v.push(format!("{}{}", op, tail));
        }
    }
    v
}

/// Texts that look alike next to each other: rearranged, one place changed, cut, doubled.
fn alike(seed: u64, count: usize) -> Vec<String> {
    let mut r = Rng::new(seed);
    let mut texts: Vec<String> = vec![];
    while texts.len() < count {
        let n = if r.chance(8) { 150 + r.below(400) } else { 2 + r.below(10) };
        let t = if n < 150 && r.chance(30) { r.pick(STOCK).to_string() } else { lexcheck::text(&mut r, n) };
        let c: Vec<char> = t.chars().collect();
        texts.push(t);
        if c.is_empty() {
            continue;
        }
        if r.chance(10) {
            // Long words, texts and notes that hardly differ.
            let n = 10 + r.below(300);
            let long: String = (0..n).map(|_| (b"abcxyzABC_019"[r.below(if n > 60 { 13 } else { 6 })]) as char).collect();
            let long = format!("k{}", long);
            let mut other: Vec<char> = long.chars().collect();
            let i = r.below(other.len());
            other[i] = if other[i] == 'q' { 'p' } else { 'q' };
            let other: String = other.into_iter().collect();
            for (a, b) in [("", ""), ("\"", "\""), ("BTW ", "\n"), ("OBTW ", " TLDR "), ("VISIBLE SRS ", "'Z x")] {
                for w in [&long, &long.to_uppercase(), &other, &format!("{}_", long)] {
                    texts.push(format!("{}{}{}", a, w, b));
                }
            }
        }
        for how in 0..4 {
            let mut d = c.clone();
            let (i, j) = (r.below(d.len()), r.below(d.len()));
            match how {
                0 => d.swap(i, j),
                1 => d.reverse(),
                2 => d[i] = *r.pick(&['a', 'b', '1', '2', ' ', '\n', 'é', ',', '"', 'R']),
                _ => d.rotate_left(i),
            }
            texts.push(d.into_iter().collect::<String>());
        }
    }
    texts.truncate(count);
    texts
}

/// The arguments of histories by name.
fn arguments(name: &str, seed: u64, count: usize) -> Vec<String> {
    let mut v: Vec<String> = match name {
        "stock" => STOCK.iter().map(|s| s.to_string()).collect(),
        "aborted" => aborted(),
        _ => alike(seed, count),
    };
    assert!(v.len() >= count);
    v.truncate(count);
    v
}

/// One call against two steps, on random texts dressed in what tools put around them.
pub fn compose(seed: u64, count: usize) -> Report {
    const BEFORE: &[&str] = &["", "", "\u{feff}", "#!/bin/lol\n", "\r", "\0", "\n", " ", ",", "...", "\u{2028}", "HAI 1.2\n", "BTW x\n", "\t", "\"", "OBTW\nTLDR"];
    const AFTER: &[&str] = &["", "", "\0", "\n", "\r", "\r\n", "\u{1a}", " ", ",", "...", "\nKTHXBYE", "\nKTHXBYE\n", "OBTW", " BTW", "\"", "\n\n\n", "\u{feff}", "'Z", "\t"];
    let mut rep = Report::new();
    let mut r = Rng::new(seed);
    for k in 0..count {
        let most = if k % 50 == 0 { 600 } else { 12 };
        let n = r.below(most);
        let body = match r.below(4) {
            0 => r.pick(STOCK).to_string(),
            1 => {
                let items = crate::gen::program(&mut r, ["mixed", "errors", "layout", "blocks"][k % 4], 5 + n);
                crate::program::build(&items, crate::program::Dress { spell: k % 5, ..crate::program::PLAIN }).text
            }
            _ => lexcheck::text(&mut r, n),
        };
        let t = format!("{}{}{}", r.pick(BEFORE), body, r.pick(AFTER));
        guard::at(&t);
        rep.seen += 1;
        let a = call("both", &t, &[]);
        let b = in_two_steps(&t);
        if a != b {
            rep.bad(&t, &format!("in one call {:.300} in two {:.300}", a, b));
        }
        let c = call("both", &t, &[]);
        if a != c {
            rep.bad(&t, &format!("first {:.300} again {:.300}", a, c));
        }
    }
    rep
}

/// Many different texts, each called several times, in random order, from several threads at once.
pub fn sweep(seed: u64, count: usize, rounds: usize) -> Report {
    let mut rep = Report::new();
    let mut r = Rng::new(seed);
    let mut texts: Vec<String> = vec![];
    for k in 0..count {
        let t = match k % 4 {
            // Texts that differ from the previous one in a single place.
            3 => {
                let mut c: Vec<char> = texts[k - 1].chars().collect();
                if !c.is_empty() {
                    let i = r.below(c.len());
                    c[i] = *r.pick(&['a', '1', ' ', '\n', 'é', ',', '"', 'R']);
                }
                c.into_iter().collect()
            }
            0 => r.pick(STOCK).to_string() + &lexcheck::text(&mut r, 3),
            _ => {
                let n = 2 + r.below(20);
                lexcheck::text(&mut r, n)
            }
        };
        texts.push(t);
    }
    let base = baseline(&texts);
    compositions(&mut rep, &texts);
    let toks: Vec<Vec<Token>> = texts.iter().map(|t| tokens(t)).collect();
    let bad = Mutex::new(vec![]);
    let seen = Mutex::new(0u64);
    std::thread::scope(|s| {
        for th in 0..4u64 {
            let (texts, toks, base, bad, seen) = (&texts, &toks, &base, &bad, &seen);
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn_scoped(s, move || {
                    let mut r = Rng::new(seed * 17 + th);
                    for _ in 0..rounds * count {
                        let k = r.below(count);
                        let op = *r.pick(OPS);
                        guard::at(&texts[k]);
                        let got = call(op, &texts[k], &toks[k]);
                        *seen.lock().unwrap() += 1;
                        let want = &base[&(op.to_string(), k)];
                        if &got != want {
                            bad.lock().unwrap().push((texts[k].clone(), format!("{}: alone {:.300} here {:.300}", op, want, got)));
                        }
                    }
                })
                .unwrap();
        }
    });
    rep.seen = seen.into_inner().unwrap();
    for (t, w) in bad.into_inner().unwrap() {
        rep.bad(&t, &w);
    }
    rep.note("different texts", count as u64);
    rep
}
