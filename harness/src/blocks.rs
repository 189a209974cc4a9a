//! Histories of spec/Blocks.tla replayed on real blocks.
use crate::guard;
use crate::json::{self, J};
use crate::report::Report;
use lolcode_ast::lexer::Token;
use lolcode_ast::parser::statements::Node;
use lolcode_ast::parser::ASTBlock;
use std::io::BufRead;

/// A node of the stock.
struct Item {
    tokens: Vec<Token>,
    node: Node,
    /// The lines its errors are on.
    errors: Vec<i32>,
}

/// What a statement without and one with an error may be.
const OK: &[&str] = &["GTFO", "KTHXBYE", "HAI 1.2", "VISIBLE x \"y\"!", "x R 1", "I HAS A x", "I HAS A x ITZ YARN", "GIMMEH x", "FOUND YR 1", "I IZ f YR 1 MKAY", "x", "1",
    "x HAS A y ITZ 1", "SUM OF 1 AN 2", "NOT x", "ALL OF x AN y MKAY"];
const BAD: &[&str] = &["I HAS A", "GIMMEH", "x R", "NOT", "I IZ f", "FOUND YR", "SUM OF 1", "MKAY", "IM IN YR", "x 1"];

/// Which of them a stock is written with: all the same, or each in turn.
struct Pick {
    variant: usize,
    said: usize,
}

impl Pick {
    fn of(&mut self, from: &[&'static str]) -> &'static str {
        self.said += 1;
        from[if self.variant < from.len() { self.variant } else { (self.said * 5 + self.variant) % from.len() }]
    }
}

/// The text of a tree; `lines` gets the lines of its errors.
fn write(t: &J, out: &mut String, lines: &mut Vec<i32>, pick: &mut Pick) {
    let t = t.arr();
    let mut sections = |first: &str, heads: &[&str], last: &str, t: &[J], out: &mut String| {
        out.push_str(first);
        for (head, block) in heads.iter().zip(t) {
            if block.arr().first().is_some_and(|x| x.arr()[0].s() == "absent") {
                continue;
            }
            out.push_str(head);
            for x in block.arr() {
                write(x, out, lines, pick);
            }
        }
        out.push_str(last);
    };
    match t[0].s() {
        "ok" => {
            out.push_str(pick.of(OK));
            out.push('\n');
        }
        "bad" => {
            lines.push(out.matches('\n').count() as i32 + 1);
            out.push_str(pick.of(BAD));
            out.push('\n');
        }
        "loop" => sections("IM IN YR l\n", &[""], "IM OUTTA YR l\n", &t[1..], out),
        "func" => sections("HOW IZ I f\n", &[""], "IF U SAY SO\n", &t[1..], out),
        "if" => sections("O RLY?\n", &["YA RLY\n", "MEBBE x\n", "MEBBE y\n", "NO WAI\n"], "OIC\n", &t[1..], out),
        "switch" => sections("WTF?\n", &["OMG 1\n", "OMG 2\n", "OMGWTF\n"], "OIC\n", &t[1..], out),
        x => panic!("unknown tree {}", x),
    }
}

const VARIANTS: usize = 18;

fn stock(trees: &[J], variant: usize) -> Option<Vec<Item>> {
    let mut pick = Pick { variant, said: 0 };
    trees
        .iter()
        .enumerate()
        .map(|(k, t)| {
            let mut text = "\n".repeat(100 * k);
            let mut errors = vec![];
            write(t, &mut text, &mut errors, &mut pick);
            let (tokens, block) = guard::quiet(move || {
                let tokens = lolcode_ast::tokenize(text).ok()?;
                Some((tokens.clone(), lolcode_ast::parse(tokens)))
            })??;
            let node = block.0.front()?.clone();
            (block.0.len() == 1).then_some(Item { tokens, node, errors })
        })
        .collect()
}

fn array(nodes: Vec<Node>) -> ASTBlock {
    macro_rules! sizes {
        ($($n:literal)*) => {
            match nodes.len() {
                $($n => {
                    let a: [Node; $n] = nodes.try_into().unwrap_or_else(|_| unreachable!());
                    ASTBlock::from(a)
                })*
                n => panic!("no array of {}", n),
            }
        };
    }
    sizes!(0 1 2 3 4 5 8 9 17 33 65 257 300)
}

/// The first line an error mentions.
fn line_of(s: &str) -> Option<i32> {
    let at = s.find(|c: char| c == '(').and_then(|_| {
        s.match_indices('(').map(|(k, _)| &s[k + 1..]).find(|r| r.starts_with(|c: char| c.is_ascii_digit()))
    })?;
    at.split(|c: char| !c.is_ascii_digit()).next()?.parse().ok()
}

fn run(prop: &str, stock: &[Item], hist: &[J]) -> Result<(), String> {
    let (mut a, mut b) = (ASTBlock::default(), ASTBlock::default());
    for (n, step) in hist.iter().enumerate() {
        let step = step.arr();
        let arg: Vec<usize> = step[1].ints().iter().map(|&k| k as usize - 1).collect();
        let node = |k: usize| stock[k].node.clone();
        match step[0].s() {
            "array" => a = array(arg.iter().map(|&k| node(k)).collect()),
            "default" => a = ASTBlock::default(),
            "parse" => a = lolcode_ast::parse(arg.iter().flat_map(|&k| stock[k].tokens.clone()).collect()),
            "push_back" => a.0.push_back(node(arg[0])),
            "push_front" => a.0.push_front(node(arg[0])),
            "insert" => a.0.insert(1, node(arg[0])),
            "pop_back" => drop(a.0.pop_back()),
            "pop_front" => drop(a.0.pop_front()),
            "rotate" => a.0.rotate_left(1),
            "reverse" => a.0.make_contiguous().reverse(),
            "append" => a.0.append(&mut b.0),
            "swap" => std::mem::swap(&mut a, &mut b),
            "copy" => b = a.clone(),
            "rebuild" => a = ASTBlock(std::mem::take(&mut a).into_iter().collect()),
            "without" => a.0.retain(|x| *x != stock[arg[0]].node),
            x => panic!("unknown operation {}", x),
        }
        let fail = |what: &str| Err(format!("after step {} ({}): {}", n + 1, step[0].s(), what));
        match prop {
            "C15" => {
                let want: Vec<i32> = step[4].arr().iter().map(|e| stock[e.arr()[0].n() as usize - 1].errors[e.arr()[1].n() as usize - 1]).collect();
                let got: Option<Vec<i32>> = a.iter_errors().map(|e| line_of(&format!("{:?}", e))).collect();
                if got.as_ref() != Some(&want) {
                    return fail(&format!("errors on lines {:?}, expected {:?}", got, want));
                }
            }
            "C18" => {
                let same = step[5].n() == 1;
                if (a == b) != same || (b == a) != same || (a != b) == same {
                    return fail(if same { "equal blocks differ" } else { "different blocks are equal" });
                }
            }
            _ => {}
        }
        // What the blocks hold.
        for (block, want) in [(&a, &step[2]), (&b, &step[3])] {
            let want = want.ints();
            let right = |got: &Node, k: &i64| got == &stock[*k as usize - 1].node;
            if block.0.len() != want.len() || !block.0.iter().zip(&want).all(|(x, k)| right(x, k)) {
                return fail("a block holds other nodes");
            }
            if want.len() < 40 || n + 1 == hist.len() {
                let out: Vec<Node> = block.clone().into_iter().collect();
                if out.len() != want.len() || !out.iter().zip(&want).all(|(x, k)| right(x, k)) {
                    return fail("a block hands out other nodes");
                }
            }
        }
    }
    Ok(())
}

/// Vectors: [the stock, history].
pub fn replay(prop: &str, vectors: &str) -> Report {
    let mut rep = Report::new();
    let mut items: Vec<Option<Option<Vec<Item>>>> = (0..VARIANTS).map(|_| None).collect();
    let f = std::io::BufReader::new(std::fs::File::open(vectors).unwrap());
    for line in f.lines().map_while(Result::ok) {
        let v = match json::parse_tlc_line(&line) {
            Some(v) => v,
            None => continue,
        };
        rep.seen += 1;
        let v = v.arr();
        let shown: Vec<String> = v[1].arr().iter().map(|s| format!("{} {}", s.arr()[0].s(), s.arr()[1].show())).collect();
        let input: String = shown.join(", ").chars().take(400).collect();
        guard::at(&input);
        rep.line = line.clone();
        let variant = rep.seen as usize % VARIANTS;
        let items = items[variant].get_or_insert_with(|| stock(v[0].arr(), variant));
        match items {
            None => rep.bad(&input, "the stock does not parse"),
            Some(items) => match guard::quiet(|| run(prop, items, v[1].arr())) {
                Some(Ok(())) => {}
                Some(Err(e)) => rep.bad(&input, &e),
                None => rep.bad(&input, "panic"),
            },
        }
    }
    rep
}
