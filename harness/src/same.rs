//! Equality and copies of tokens and trees, replayed against spec/Same.tla.
use crate::guard;
use crate::json::{self, J};
use crate::program;
use crate::report::Report;
use lolcode_ast::lexer::{NumberToken, Position, Range, Token, TokenType, TokenValue};
use lolcode_ast::parser::statements::Node;
use lolcode_ast::parser::ASTBlock;
use std::io::BufRead;

fn payload(k: &str, p: usize) -> TokenType {
    let text = |s: &str| TokenType::Value(TokenValue::String(s.to_string()));
    let int = |n: i32| TokenType::Value(TokenValue::Number(NumberToken::Int(n)));
    let float = |x: f32| TokenType::Value(TokenValue::Number(NumberToken::Float(x)));
    let long = |s: &str| format!("{}{}{}", "abcdefgh".repeat(12), s, "ijklmnop".repeat(12));
    match k {
        "Id" => TokenType::Identifier(
            ["x", "X", "y", "x_", "xx", &long("q"), &long("r"), "x1", "x2", "ITZx", "_", "é"][p].to_string(),
        ),
        "Lit" => match p {
            0 => int(1),
            1 => float(1.0),
            2 => text("1"),
            3 => int(2),
            4 => int(-1),
            5 => float(1.000_000_1),
            6 => text(""),
            7 => text(" "),
            8 => text("x"),
            9 => text("X"),
            10 => text("x "),
            11 => TokenType::Value(TokenValue::Boolean(true)),
            12 => TokenType::Value(TokenValue::Boolean(false)),
            13 => TokenType::Value(TokenValue::NOOB),
            14 => int(16_777_216),
            15 => int(16_777_217),
            16 => float(16_777_216.0),
            17 => text("WIN"),
            18 => text(&long("q")),
            _ => text(&long("r")),
        },
        "ML" => text(["one\ntwo", "one\nTwo", "one\n two", "\n"][p]),
        "CS" => TokenType::CommentSingleLine(["", " ", "a", "A"][p].to_string()),
        "CM" => TokenType::CommentMultiLine(["", " ", "a", "A"][p].to_string()),
        "CM2" => TokenType::CommentMultiLine(["\n", "\na"][p].to_string()),
        "Sym" => TokenType::Symbol(["#", "(", "é", "+", "##"][p].to_string()),
        "SymQ" => TokenType::Symbol("?".to_string()),
        "Slot" => TokenType::BukkitSlotAccess,
        "Ell" => TokenType::Ellipsis,
        "Comma" => TokenType::Comma,
        "Bang" => TokenType::ExclamationMark,
        "Qm" => TokenType::QuestionMark,
        k => TokenType::Keyword(program::keyword(k).unwrap_or_else(|| panic!("unknown kind {}", k))),
    }
}

fn token(j: &J) -> Token {
    let v = j.arr();
    let n = |i: usize| v[i].n() as i32;
    let at = |l: i32, c: i32| Position { line: l, column: c, bytes: l * 4000 + c, chars: l * 4000 + c };
    Token { token_type: payload(v[0].s(), v[1].n() as usize), range: Range(at(n(2), n(3)), at(n(4), n(5))) }
}

fn four(p: &Position) -> (i32, i32, i32, i32) {
    (p.line, p.column, p.bytes, p.chars)
}

/// `==` and `!=`, both ways round, give the verdict.
fn agree<T: PartialEq>(a: &T, b: &T, same: bool) -> bool {
    (a == b) == same && (b == a) == same && (a != b) != same && (b != a) != same
}

fn copied(t: &Token, u: &Token) -> bool {
    agree(t, u, true)
        && (four(&t.range.0), four(&t.range.1)) == (four(&u.range.0), four(&u.range.1))
        && format!("{:?}", t) == format!("{:?}", u)
}

fn trees(a: &ASTBlock, b: &ASTBlock, same: bool) -> Result<(), String> {
    if !agree(a, b, same) {
        return Err(format!("== between the trees is not {}", same));
    }
    if !agree(&a.0, &b.0, same) {
        return Err(format!("== between the lists of nodes is not {}", same));
    }
    let one: Vec<Node> = a.clone().into_iter().collect();
    let two: Vec<Node> = b.clone().into_iter().collect();
    if !agree(&one, &two, same) {
        return Err(format!("== between the nodes iterated is not {}", same));
    }
    let nodewise = one.len() == two.len() && one.iter().zip(&two).all(|(x, y)| agree(x, y, true));
    if nodewise != same {
        return Err(format!("node by node they are {}", if nodewise { "the same" } else { "not the same" }));
    }
    Ok(())
}

fn copy(a: &ASTBlock, b: &ASTBlock, same: bool) -> Result<(), String> {
    let c = a.clone();
    trees(a, &c, true).map_err(|e| format!("copy: {}", e))?;
    trees(&c, b, same).map_err(|e| format!("copy and the other tree: {}", e))?;
    trees(&c.clone(), &c, true).map_err(|e| format!("copy of a copy: {}", e))?;
    if format!("{:?}", a) != format!("{:?}", c) {
        return Err("a copy shows as something else".into());
    }
    for (x, y) in a.0.iter().zip(&c.0) {
        if let (Node::Expression(x), Node::Expression(y)) = (x, y) {
            let (x, y): (Vec<&Token>, Vec<&Token>) = (x.tokens().collect(), y.tokens().collect());
            if x.len() != y.len() || !x.iter().zip(&y).all(|(t, u)| copied(t, u)) {
                return Err("a copied expression has other tokens".into());
            }
        }
    }
    // Whatever became of the copy, the original stays as it was.
    let mut d = a.clone();
    d.0.clear();
    trees(a, &c, true).map_err(|e| format!("after a copy was emptied: {}", e))?;
    trees(a, &d, a.0.is_empty()).map_err(|e| format!("with an emptied copy: {}", e))
}

fn judge(one: &[Token], two: &[Token], pairs: &[J], same: bool) -> Result<(), String> {
    for (k, want) in pairs.iter().enumerate() {
        let (t, u) = (&one[k], &two[k]);
        let want = want.s() == "T";
        if !agree(t, u, want) {
            return Err(format!("== between {:?} and {:?} is not {}", t, u, want));
        }
        if want && !(agree(&t.token_type, &u.token_type, true) && agree(&t.range, &u.range, true)) {
            return Err(format!("type or range of {:?} and {:?} differ", t, u));
        }
        if !want && t.token_type == u.token_type && t.range == u.range {
            return Err(format!("type and range of {:?} and {:?} do not differ", t, u));
        }
    }
    if let Some(t) = one.iter().chain(two).find(|t| !copied(t, &(*t).clone())) {
        return Err(format!("copy of {:?} is {:?}", t, t.clone()));
    }
    let all = pairs.iter().all(|p| p.s() == "T") && one.len() == two.len();
    if !agree(&one.to_vec(), &two.to_vec(), all) {
        return Err(format!("== between the token lists is not {}", all));
    }
    let (a, b) = (lolcode_ast::parse(one.to_vec()), lolcode_ast::parse(two.to_vec()));
    trees(&a, &b, same)?;
    trees(&a, &a, true)?;
    copy(&a, &b, same)?;
    copy(&b, &a, same)
}

/// Vectors: [tokens, tokens, [same token], same tree, what was changed].
pub fn replay(vectors: &str) -> Report {
    let mut rep = Report::new();
    let f = std::io::BufReader::new(std::fs::File::open(vectors).unwrap());
    let (mut equal, mut different) = (0, 0);
    for line in f.lines().map_while(Result::ok) {
        let v = match json::parse_tlc_line(&line) {
            Some(v) => v,
            None => continue,
        };
        rep.line = line.clone();
        rep.seen += 1;
        let v = v.arr();
        let list = |j: &J| j.arr().iter().map(token).collect::<Vec<Token>>();
        let shown = |j: &J| j.arr().iter().map(|t| t.arr()[0].s().to_string()).collect::<Vec<_>>().join(" ");
        let input = format!("{} / {} ({})", shown(&v[0]), shown(&v[1]), v[4].s());
        guard::at(&input);
        let same = v[3].s() == "T";
        if same {
            equal += 1;
        } else {
            different += 1;
        }
        let (one, two) = (list(&v[0]), list(&v[1]));
        match guard::quiet(|| judge(&one, &two, v[2].arr(), same)) {
            Some(Ok(())) => {}
            Some(Err(e)) => rep.bad(&input, &e),
            None => rep.bad(&input, "panic"),
        }
    }
    rep.note("pairs of equal trees", equal);
    rep.note("pairs of different trees", different);
    rep
}
