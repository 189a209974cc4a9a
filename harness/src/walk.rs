//! Histories of spec/Walk.tla replayed on the iterators of the real library.
use crate::gen;
use crate::guard;
use crate::json;
use crate::program;
use crate::report::Report;
use crate::rng::Rng;
use lolcode_ast::lexer::Token;
use lolcode_ast::parser::expression::{ASTExpression, ASTExpressionValue};
use lolcode_ast::parser::statements::Node;
use lolcode_ast::parser::ASTBlock;
use std::io::BufRead;

/// An iterator of its own type, each method called as that type has it.
trait Walker {
    fn step(&mut self, op: &str, k: usize) -> Option<Vec<String>>;
}

struct W<I, F> {
    it: Option<I>,
    new: F,
}

impl<I: Iterator, F: Fn() -> I> Walker for W<I, F>
where
    I::Item: std::fmt::Debug,
{
    /// None: the answer to a hint is out of bounds.
    fn step(&mut self, op: &str, k: usize) -> Option<Vec<String>> {
        let mut it = self.it.take().unwrap_or_else(|| (self.new)());
        let show = |x: Option<I::Item>| vec![x.map_or(String::new(), |x| format!("{:?}", x))];
        let v = match op {
            "next" => show(it.next()),
            "nth" => show(it.nth(k)),
            "take" => it.by_ref().take(k).map(|x| format!("{:?}", x)).collect(),
            "hint" => {
                let (a, b) = it.size_hint();
                if a > k || b.map_or(false, |b| b < k) {
                    return None;
                }
                vec![k.to_string()]
            }
            "count" => return Some(vec![it.count().to_string()]),
            "last" => return Some(show(it.last())),
            "collect" => return Some(it.map(|x| format!("{:?}", x)).collect()),
            _ => return Some(vec![]),
        };
        self.it = Some(it);
        Some(v)
    }
}

fn walker<'a, I: Iterator + 'a, F: Fn() -> I + 'a>(new: F) -> Box<dyn Walker + 'a>
where
    I::Item: std::fmt::Debug,
{
    Box::new(W { it: None, new })
}

/// Something to walk: what comes, and how to make iterators over it.
struct Thing {
    name: String,
    items: Vec<String>,
    block: ASTBlock,
    what: &'static str,
}

fn expression(b: &ASTBlock) -> Option<&ASTExpression> {
    match b.0.front() {
        Some(Node::Expression(x)) => Some(x),
        _ => None,
    }
}

fn make<'a>(t: &'a Thing) -> Option<Box<dyn Walker + 'a>> {
    let x = || expression(&t.block);
    Some(match t.what {
        "errors" => walker(move || t.block.iter_errors()),
        "nodes" => walker(move || t.block.clone().into_iter()),
        "expression" => {
            let x = x()?;
            walker(move || x.tokens())
        }
        _ => match x()? {
            ASTExpression::BinaryOperation(o) => walker(move || o.tokens()),
            ASTExpression::UnaryOperation(o) => walker(move || o.tokens()),
            ASTExpression::NaryOperation(o) => walker(move || o.tokens()),
            ASTExpression::Value(v) => match (t.what, v) {
                ("variable", ASTExpressionValue::VariableAccess(a)) => walker(move || a.tokens()),
                _ => walker(move || v.tokens()),
            },
        },
    })
}

fn parsed(items: &[String]) -> Option<(Vec<Token>, ASTBlock)> {
    let p = program::build(items, program::PLAIN);
    let ts = p.tokens.clone();
    guard::quiet(move || lolcode_ast::parse(ts)).map(|b| (p.tokens, b))
}

/// Expressions that are whole programs: their tokens are those of the program.
fn expressions(r: &mut Rng, most: usize) -> Vec<Thing> {
    let mut v = vec![];
    let mut programs: Vec<Vec<String>> = ["Lit", "Id", "NOOB", "SRS Id", "Id Slot Id", "SRS Id Slot SRS Id", "Id Slot Id Slot SRS Id", "NOT Id", "NOT NOT Lit",
        "SUM_OF Lit Id", "SUM_OF Id AN Lit", "DIFFRINT NOT Id AN Id Slot Id", "SMOOSH", "SMOOSH MKAY", "ALL_OF Id", "ANY_OF Id AN", "ALL_OF Id AN MKAY",
        "SMOOSH Lit AN Lit AN Id MKAY", "SMOOSH ALL_OF Id MKAY AN ANY_OF MKAY", "BOTH_OF SMOOSH Lit MKAY AN SRS Id", "NOT SMOOSH Lit Lit Lit Lit", "MOD_OF MOD_OF Lit Lit Lit"]
        .iter()
        .map(|s| s.split(' ').map(|s| s.to_string()).collect())
        .collect();
    for _ in 0..600 {
        let p: Vec<String> = gen::program(r, "expr", 8);
        programs.push(p.into_iter().take_while(|k| k != "NL" && k != "Comma").filter(|k| !matches!(k.as_str(), "Ell" | "CS" | "CM" | "CM2")).collect());
    }
    for items in programs {
        if items.is_empty() || items.len() > most {
            continue;
        }
        if let Some((ts, block)) = parsed(&items) {
            // Whether it parses as it should is not decided here.
            if block.0.len() != 1 || expression(&block).is_none() {
                continue;
            }
            for what in ["expression", "inner", "variable"] {
                v.push(Thing { name: items.join(" "), items: ts.iter().map(|t| format!("{:?}", t)).collect(), block: block.clone(), what });
            }
        }
    }
    v
}

/// Blocks: their nodes, and the errors in them as the tree shows them.
fn blocks(r: &mut Rng, most: usize) -> Vec<Thing> {
    fn errors(b: &str) -> usize {
        b.matches("ASTError(").count()
    }
    let mut v = vec![];
    for k in 0..1500 {
        let items = gen::program(r, ["errors", "mixed", "blocks"][k % 3], 5 + k % 60);
        if let Some((_, block)) = parsed(&items) {
            let nodes: Vec<String> = block.0.iter().map(|n| format!("{:?}", n)).collect();
            if nodes.len() <= most {
                v.push(Thing { name: items.join(" "), items: nodes, block: block.clone(), what: "nodes" });
            }
            // Which errors: those that one plain walk gives.  That these are the right ones is decided elsewhere.
            let errs: Vec<String> = guard::quiet(|| {
                let mut it = block.iter_errors();
                let mut v = vec![];
                while let Some(x) = it.next() {
                    v.push(format!("{:?}", x));
                    if v.len() > 10000 {
                        break;
                    }
                }
                v
            })
            .unwrap_or_default();
            if errs.len() <= most && errs.len() == errors(&format!("{:?}", block)) {
                v.push(Thing { name: items.join(" "), items: errs, block, what: "errors" });
            }
        }
    }
    v
}

/// Vectors: [length, [[operation, iterator, argument, answer]...]].
pub fn replay(pool: &str, seed: u64, each: usize, vectors: &str) -> Report {
    let mut rep = Report::new();
    let mut r = Rng::new(seed);
    let most = 40;
    let things = if pool == "C14" { expressions(&mut r, most) } else { blocks(&mut r, most) };
    let by_length: Vec<Vec<&Thing>> = (0..=most).map(|n| things.iter().filter(|t| t.items.len() == n).collect()).collect();
    let f = std::io::BufReader::new(std::fs::File::open(vectors).unwrap());
    let (mut walks, mut turn) = (0, 0);
    for line in f.lines().map_while(Result::ok) {
        let v = match json::parse_tlc_line(&line) {
            Some(v) => v,
            None => continue,
        };
        rep.line = line.clone();
        rep.seen += 1;
        let n = v.arr()[0].n() as usize;
        let fit = &by_length[n.min(most)];
        if fit.is_empty() {
            rep.skipped += 1;
            continue;
        }
        for _ in 0..each.min(fit.len()) {
            turn += 1;
            let t = fit[turn % fit.len()];
            guard::at(&t.name);
            walks += 1;
            let why = guard::quiet(|| {
                let mut w: Vec<Box<dyn Walker>> = match (make(t), make(t)) {
                    (Some(a), Some(b)) => vec![a, b],
                    _ => return None,
                };
                for (k, e) in v.arr()[1].arr().iter().enumerate() {
                    let a = e.arr();
                    let (op, i, arg) = (a[0].s(), a[1].n() as usize - 1, a[2].n() as usize);
                    let answer: Vec<usize> = a[3].arr().iter().map(|x| x.n() as usize).collect();
                    let want: Vec<String> = match op {
                        "hint" | "count" => vec![answer[0].to_string()],
                        _ => answer.iter().map(|&x| if x == 0 { String::new() } else { t.items[x - 1].clone() }).collect(),
                    };
                    let arg = if op == "hint" { answer[0] } else { arg };
                    match w[i].step(op, arg) {
                        Some(got) if got == want => {}
                        got => return Some(format!("{} {}: step {} ({} {} of iterator {}) gives {:?}, expected {:?}", t.what, t.name, k + 1, op, arg, i + 1, got, want)),
                    }
                }
                None
            });
            match why {
                None => rep.bad(&t.name, &format!("{}: panic in {}", t.what, line)),
                Some(Some(w)) => rep.bad(&t.name, &w),
                Some(None) => {}
            }
        }
    }
    rep.note("walks", walks);
    rep.note("things to walk", things.len() as u64);
    rep
}
