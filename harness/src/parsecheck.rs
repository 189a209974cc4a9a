//! Replaying the parser specification's vectors into the real tokenizer and parser.
use crate::canon::{self, Canon, E};
use crate::guard;
use crate::json;
use crate::program::{self, Dress, Program, HAND_MADE, PLAIN};
use crate::report::Report;
use lolcode_ast::lexer::{Position, Token};
use lolcode_ast::parser::expression::{ASTExpression, ASTExpressionValue};
use lolcode_ast::parser::statements::Node;
use lolcode_ast::parser::ASTBlock;
use std::io::BufRead;

/// One run of the real code: the tokens it started from and the tree.
struct Run {
    level: &'static str,
    tokens: Vec<Token>,
    block: Option<ASTBlock>,
    still: bool,
}

impl Run {
    fn canon(&self) -> Canon {
        if self.still {
            Canon::still(&self.tokens)
        } else {
            Canon::new(&self.tokens)
        }
    }
    fn tree(&self, block: &ASTBlock) -> Result<Vec<E>, String> {
        self.canon().block(&format!("{:?}", block))
    }
    /// Order is not seen where all places are the same.
    fn ordered(&self, v: Vec<E>) -> Vec<E> {
        if self.still {
            canon::bags(&canon::without_first(&v))
        } else {
            v
        }
    }
}

fn at_token_level(p: &Program, still: bool) -> Run {
    let ts = p.tokens.clone();
    Run { level: "tokens", tokens: p.tokens.clone(), block: guard::quiet(move || lolcode_ast::parse(ts)), still }
}

fn at_text_level(p: &Program) -> Option<Run> {
    if !p.faithful {
        return None;
    }
    let text = p.text.clone();
    let block = guard::quiet(move || lolcode_ast::tokenize_and_parse(text).ok()).flatten();
    Some(Run { level: "text", tokens: p.tokens.clone(), block, still: false })
}

fn shown(v: &[E]) -> String {
    let s = canon::show(v);
    if s.len() > 600 {
        let cut: String = s.chars().take(600).collect();
        format!("{}…", cut)
    } else {
        s
    }
}

/// Two trees, from a little before where they differ.
fn differ(a: &[E], b: &[E]) -> String {
    let (a, b): (Vec<char>, Vec<char>) = (canon::show(a).chars().collect(), canon::show(b).chars().collect());
    let same = a.iter().zip(&b).take_while(|(x, y)| x == y).count();
    let from = if a.len().max(b.len()) <= 600 { 0 } else { same.saturating_sub(200) };
    let cut = |v: &[char]| format!("{}{}{}", if from > 0 { "…" } else { "" }, v.iter().skip(from).take(600).collect::<String>(), if v.len() > from + 600 { "…" } else { "" });
    format!("expected {} got {}", cut(&a), cut(&b))
}

/// Errors next to each other count as one here: how many there are is not this property's matter.
fn merged(v: Vec<E>) -> Vec<E> {
    let mut out: Vec<E> = vec![];
    for e in v {
        let e = match e {
            E::N(n, _) if n == "asterror" => E::N(n, vec![]),
            e => e,
        };
        if matches!(&e, E::N(n, _) if n == "asterror") && out.last() == Some(&e) {
            continue;
        }
        out.push(e);
    }
    out
}

fn project(prop: &str, v: &[E]) -> Vec<E> {
    match prop {
        "C07" => merged(canon::extents(v)),
        "C09" => canon::flat_expressions(v),
        "C11" => canon::skeleton(v),
        "C12" => canon::errors(v),
        "C13" => canon::without_errors(v),
        _ => v.to_vec(),
    }
}

fn compare(rep: &mut Report, prop: &str, input: &str, want: &[E], run: &Run) {
    let block = match &run.block {
        Some(b) => b,
        None => return rep.bad(input, &format!("{}: no tree (panic or tokenizer error), expected {}", run.level, shown(want))),
    };
    match run.tree(block) {
        Err(e) => rep.bad(input, &format!("{}: unreadable tree: {}", run.level, e)),
        Ok(got) => {
            let want = run.canon().terms(&run.tokens, want);
            let (a, b) = (run.ordered(project(prop, &want)), run.ordered(project(prop, &got)));
            if a != b {
                rep.bad(input, &format!("{}: {}", run.level, differ(&a, &b)));
            }
        }
    }
}

/// C08: the program with its comments blanked out gives the same tree.
fn comments(rep: &mut Report, input: &str, p: &Program, count: bool) {
    if p.comments.is_empty() {
        rep.skipped += count as u64;
        return;
    }
    let is_comment = |t: &Token| format!("{:?}", t.token_type).starts_with("Comment");
    let without: Vec<Token> = p.tokens.iter().filter(|t| !is_comment(t)).cloned().collect();
    let (a, b) = (p.tokens.clone(), without);
    let (a, b) = (guard::quiet(move || lolcode_ast::parse(a)), guard::quiet(move || lolcode_ast::parse(b)));
    if b.is_some() && (a != b || format!("{:?}", a) != format!("{:?}", b)) {
        rep.bad(input, &format!("tokens: with comments {:.300?} without {:.300?}", a, b));
    }
    if !p.faithful {
        return;
    }
    let mut blank = String::new();
    let mut from = 0;
    for (a, b) in &p.comments {
        blank.push_str(&p.text[from..*a]);
        // As many bytes as the comment has: a blank for each, line breaks kept.
        blank.extend(p.text[*a..*b].bytes().map(|c| if c == b'\n' { '\n' } else { ' ' }));
        from = *b;
    }
    blank.push_str(&p.text[from..]);
    let (a, b) = (p.text.clone(), blank);
    let a = guard::quiet(move || lolcode_ast::tokenize_and_parse(a));
    let b = guard::quiet(move || lolcode_ast::tokenize_and_parse(b));
    if b.is_some() && (a != b || format!("{:?}", a) != format!("{:?}", b)) {
        rep.bad(input, &format!("text: with comments {:.300?} without {:.300?}", a, b));
    }
}

type Span = ((i32, i32, i32, i32), (i32, i32, i32, i32));
fn four(p: &Position) -> (i32, i32, i32, i32) {
    (p.line, p.column, p.bytes, p.chars)
}
fn span(r: (&Position, &Position)) -> Span {
    (four(r.0), four(r.1))
}

/// What iterating gives, and whether it ends for good.
fn walk<'a>(mut it: impl Iterator<Item = &'a Token>, limit: usize) -> (Vec<Token>, bool) {
    let mut v = vec![];
    while let Some(t) = it.next() {
        v.push(t.clone());
        if v.len() > limit {
            return (v, false);
        }
    }
    let done = (0..4).all(|_| it.next().is_none());
    (v, done)
}

fn events(v: &[String]) -> Vec<E> {
    v.iter().map(|t| E::T(t.clone())).collect()
}

fn expression(rep: &mut Report, input: &str, level: &str, c: &Canon, tokens: &[Token], want: &[String], x: &ASTExpression) {
    let limit = want.len() + 8;
    let at = |o: &String| o[1..].parse::<usize>().ok().and_then(|n| tokens.get(n - 1));
    let expected: Vec<Option<&Token>> = want.iter().map(at).collect();
    let walked = guard::quiet(|| {
        let mut w = vec![("expression", walk(x.tokens(), limit))];
        let mut r = vec![("expression", span(x.range()))];
        match x {
            ASTExpression::BinaryOperation(o) => w.push(("operation", walk(o.tokens(), limit))),
            ASTExpression::UnaryOperation(o) => w.push(("operation", walk(o.tokens(), limit))),
            ASTExpression::NaryOperation(o) => w.push(("operation", walk(o.tokens(), limit))),
            ASTExpression::Value(v) => {
                w.push(("value", walk(v.tokens(), limit)));
                r.push(("value", span(v.range())));
                if let ASTExpressionValue::VariableAccess(a) = v {
                    w.push(("variable access", walk(a.tokens(), limit)));
                    r.push(("variable access", span(a.range())));
                }
            }
        }
        (w, r)
    });
    let (w, r) = match walked {
        None => return rep.bad(input, &format!("{}: iterating panics", level)),
        Some(x) => x,
    };
    for (what, (v, done)) in w {
        // Whole tokens, all positions included.
        let same = expected.len() == v.len() && expected.iter().zip(&v).all(|(u, t)| {
            u.map_or(false, |u| u == t && (four(&u.range.0), four(&u.range.1)) == (four(&t.range.0), four(&t.range.1)))
        });
        let got: Vec<String> = v.iter().map(|t| c.ordinal(t)).collect();
        if !same || !done {
            rep.bad(input, &format!("{}: {} tokens {}{}", level, what, differ(&events(want), &events(&got)), if done { "" } else { ", does not end" }));
        }
    }
    if let (Some(Some(a)), Some(Some(b))) = (expected.first(), expected.last()) {
        let expected = span((&a.range.0, &b.range.1));
        for (what, got) in r {
            if got != expected {
                rep.bad(input, &format!("{}: {} range expected {:?} got {:?}", level, what, expected, got));
            }
        }
    }
}

/// C14: the bare expressions of the program, walked token by token.
fn expressions(rep: &mut Report, input: &str, want: &[E], run: &Run) -> u64 {
    let block = match &run.block {
        Some(b) if b.0.len() == want.len() => b,
        _ => {
            rep.skipped += 1;
            return 0;
        }
    };
    let c = run.canon();
    let mut n = 0;
    for (node, e) in block.0.iter().zip(want) {
        if let (Node::Expression(x), E::N(name, _)) = (node, e) {
            if canon::EXPRESSIONS.contains(&name.as_str()) {
                n += 1;
                expression(rep, input, run.level, &c, &run.tokens, &canon::tokens(std::slice::from_ref(e)), x);
            }
        }
    }
    n
}

/// C15: the errors listed are those in the tree; iterating a block gives its nodes.
fn listing(rep: &mut Report, input: &str, run: &Run) -> u64 {
    let block = match &run.block {
        Some(b) => b,
        None => {
            rep.skipped += 1;
            return 0;
        }
    };
    let c = run.canon();
    let want: Vec<E> = match run.tree(block) {
        Ok(t) => canon::errors(&t),
        Err(e) => {
            rep.bad(input, &format!("{}: unreadable tree: {}", run.level, e));
            return 0;
        }
    };
    let listed = guard::quiet(|| {
        let mut it = block.iter_errors();
        let mut v = vec![];
        while let Some(x) = it.next() {
            v.push(Node::from(x));
            if v.len() > want.len() + 5 {
                break;
            }
        }
        (v, it.next().is_none())
    });
    match listed {
        None => rep.bad(input, &format!("{}: listing errors panics", run.level)),
        Some((v, done)) => {
            let got: Vec<E> = v.iter().flat_map(|x| c.any(&format!("{:?}", x)).unwrap_or_default()).collect();
            let (want, got) = (run.ordered(want.clone()), run.ordered(got));
            if got != want || !done {
                rep.bad(input, &format!("{}: errors {}", run.level, differ(&want, &got)));
            }
        }
    }
    let own: Vec<Node> = block.0.iter().cloned().collect();
    let got: Option<Vec<Node>> = guard::quiet(|| block.clone().into_iter().take(own.len() + 3).collect());
    if got.as_ref() != Some(&own) {
        rep.bad(input, &format!("{}: iterating the block gives other nodes", run.level));
    }
    want.len() as u64
}

const OTHERS: &[Dress] = &[
    Dress { spell: 1, ..PLAIN },
    Dress { spell: 2, above: 300, ..PLAIN },
    Dress { above: 3, apart: 1000, ..PLAIN },
    Dress { spell: 3, ..PLAIN },
    Dress { spell: 1, above: 40000, apart: 5, ..PLAIN },
    Dress { spell: 2, apart: 2, right: 250, ..PLAIN },
    // Lines that differ by a multiple of every power of two up to there.
    Dress { spell: 3, above: 5, apart: 65536, ..PLAIN },
    Dress { spell: 4, ..PLAIN },
    Dress { spell: 4, right: 65530, ..PLAIN },
    Dress { spell: 6, ..PLAIN },
    Dress { spell: HAND_MADE, ..PLAIN },
];
const STILL: &[Dress] = &[Dress { spell: 1, still: true, ..PLAIN }, Dress { spell: 4, still: true, ..PLAIN }];

/// One program in these dresses: what was used, and runs from text.
pub fn play(rep: &mut Report, prop: &str, items: &[String], want: &[E], input: &str, dresses: &[Dress]) -> (u64, u64) {
    let (mut used, mut text_runs) = (0, 0);
    for (k, dress) in dresses.iter().enumerate() {
        let p = program::build(items, *dress);
        let input = if k == 0 { input.to_string() } else { format!("{} {}", input, dress.shown()) };
        if prop == "C08" {
            comments(rep, &input, &p, k == 0);
            continue;
        }
        let mut runs = vec![at_token_level(&p, dress.still)];
        if let Some(r) = at_text_level(&p) {
            text_runs += 1;
            runs.push(r);
        }
        for run in &runs {
            match prop {
                "C06" => {
                    if run.block.is_none() {
                        rep.bad(&input, &format!("{}: no tree", run.level));
                    }
                }
                "C14" => used += expressions(rep, &input, want, run),
                "C15" => used += listing(rep, &input, run),
                _ => compare(rep, prop, &input, want, run),
            }
        }
    }
    (used, text_runs)
}

/// Vectors: [items, [tree events]].
/// Each vector is played in so many other dressings.
pub fn replay(prop: &str, others: usize, vectors: &str) -> Report {
    let mut rep = Report::new();
    let f = std::io::BufReader::new(std::fs::File::open(vectors).unwrap());
    let (mut used, mut longest, mut nerrors, mut text_runs) = (0, 0, 0, 0);
    for line in f.lines() {
        let line = match line {
            Ok(l) => l,
            Err(_) => continue,
        };
        let v = match json::parse_tlc_line(&line) {
            Some(v) => v,
            None => continue,
        };
        rep.line = line.clone();
        let strings = |j: &json::J| j.arr().iter().map(|x| x.s().to_string()).collect::<Vec<String>>();
        let items = strings(&v.arr()[0]);
        let want = canon::events(&strings(&v.arr()[1]));
        let input = items.join(" ");
        guard::at(&input);
        rep.seen += 1;
        longest = longest.max(items.len() as u64);
        let errors = canon::errors(&want);
        let judged = match prop {
            "C09" | "C10" | "C11" => errors.is_empty(),
            _ => true,
        };
        if !judged {
            rep.skipped += 1;
            continue;
        }
        nerrors += errors.len() as u64;
        // As it comes, written out in other ways, and with nothing to tell its tokens apart by.
        let mut dresses = vec![PLAIN];
        for k in 0..others.min(OTHERS.len()) {
            let mut other = OTHERS[(rep.seen as usize + 3 * k) % OTHERS.len()];
            if other.spell == HAND_MADE {
                other.salt = rep.seen as usize / OTHERS.len();
            }
            dresses.push(other);
        }
        dresses.push(STILL[rep.seen as usize % STILL.len()]);
        let (u, t) = play(&mut rep, prop, &items, &want, &input, &dresses);
        used += u;
        text_runs += t;
    }
    rep.note("text level runs", text_runs);
    rep.note("longest program (items)", longest);
    rep.note("errors expected", nerrors);
    if used > 0 {
        rep.note("expressions walked or errors listed", used);
    }
    rep
}

/// For developing this harness: whether its programs' tokens are those their texts have.
pub fn dress_test() -> Report {
    let mut rep = Report::new();
    let mut kinds: Vec<&str> = program::KEYWORDS.to_vec();
    kinds.extend(["Id", "Lit", "ML", "CS", "CM", "CM2", "Sym", "Slot", "Ell", "Comma", "Bang", "Qm", "NL", "Sym", "Id", "Lit"]);
    let mut r = crate::rng::Rng::new(7);
    for k in 0..300000 {
        let items: Vec<String> = (0..8).map(|_| r.pick(&kinds).to_string()).collect();
        for spell in [0, 1, 2, 3, 4, 6] {
            let p = program::build(&items, Dress { spell, salt: k % 29, ..PLAIN });
            if p.faithful {
                rep.seen += 1;
                let got = lolcode_ast::tokenize(p.text.clone());
                if got != Ok(p.tokens.clone()) {
                    rep.bad(&p.text, &format!("{:?} {:?}", got, p.tokens));
                }
            }
        }
    }
    rep
}
