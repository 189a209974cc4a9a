//! Conversions between tokens and what is made of them, replayed against spec/Convert.tla.
use crate::guard;
use crate::json::{self, J};
use crate::program;
use crate::report::Report;
use lolcode_ast::lexer::{NumberToken, Position, Range, Token, TokenType, TokenValue};
use lolcode_ast::parser::expression::binary_operation::BinaryOpt;
use lolcode_ast::parser::expression::nary_operations::NaryOpt;
use lolcode_ast::parser::expression::unary_operation::UnaryOpt;
use lolcode_ast::parser::expression::{ASTExpression, ASTExpressionValue, ASTType, ExpressionError};
use lolcode_ast::parser::statements::assignment::VariableAssignmentError;
use lolcode_ast::parser::statements::how_is_i::HowIsIError;
use lolcode_ast::parser::statements::i_has_a::IHasAError;
use lolcode_ast::parser::statements::i_is::IIzError;
use lolcode_ast::parser::statements::im_in_yr::ImInYrError;
use lolcode_ast::parser::statements::o_rly::ORlyError;
use lolcode_ast::parser::statements::Node;
use lolcode_ast::parser::ASTBlock;
use std::io::BufRead;

#[derive(Clone, PartialEq, Debug)]
enum Held {
    Token(Token),
    Type(ASTType),
    Binary(BinaryOpt),
    Unary(UnaryOpt),
    Nary(NaryOpt),
    Value(ASTExpressionValue),
    Node(Node),
    Gone,
}

/// What a token says is nothing to its kind.
const SAID: &[&str] = &[
    "x", "YARN", "TROOF", "NUMBR", "NUMBAR", "BUKKIT", "NOOB", "WIN", "FAIL", "", "1", "0", "I HAS A", "I_HAS_A", "yarn", "#", "?", "!", ",", "...", "\u{2026}",
    "'Z", "\"", "BTW", "\n", " ", "\u{e9}", "O RLY", "MKAY", "AN", "R", "A",
];
const INTS: &[i32] = &[7, 0, 1, -1, i32::MAX, i32::MIN, 10, 65536];
const FLOATS: &[f32] = &[0.5, 0.0, -0.0, 1.0, -7.25, f32::MAX, f32::MIN_POSITIVE, 1e-45, f32::INFINITY];

fn made(k: &str, n: usize) -> TokenType {
    let value = TokenType::Value;
    let said = || SAID[n % SAID.len()].to_string();
    match k {
        "Id" => TokenType::Identifier(said()),
        "Int" => value(TokenValue::Number(NumberToken::Int(INTS[n % INTS.len()]))),
        "Float" => value(TokenValue::Number(NumberToken::Float(FLOATS[n % FLOATS.len()]))),
        "String" => value(TokenValue::String(said())),
        "Bool" => value(TokenValue::Boolean(n % 2 == 1)),
        "Null" => value(TokenValue::NOOB),
        "Sym" => TokenType::Symbol(said()),
        "CS" => TokenType::CommentSingleLine(said()),
        "CM" => TokenType::CommentMultiLine(said()),
        "Slot" => TokenType::BukkitSlotAccess,
        "Ell" => TokenType::Ellipsis,
        "Comma" => TokenType::Comma,
        "Bang" => TokenType::ExclamationMark,
        "Qm" => TokenType::QuestionMark,
        k => TokenType::Keyword(program::keyword(k).unwrap_or_else(|| panic!("unknown kind {}", k))),
    }
}

fn name_of_type(t: &ASTType) -> &'static str {
    match t {
        ASTType::Bukkit(_) => "BUKKIT",
        ASTType::Numbr(_) => "NUMBR",
        ASTType::Numbar(_) => "NUMBAR",
        ASTType::Yarn(_) => "YARN",
        ASTType::Troof(_) => "TROOF",
        ASTType::Noob(_) => "NOOB",
    }
}

fn of_type(name: &str, t: Token) -> ASTType {
    match name {
        "BUKKIT" => ASTType::Bukkit(t),
        "NUMBR" => ASTType::Numbr(t),
        "NUMBAR" => ASTType::Numbar(t),
        "YARN" => ASTType::Yarn(t),
        "TROOF" => ASTType::Troof(t),
        _ => ASTType::Noob(t),
    }
}

fn operator(name: &str, t: Token) -> Held {
    match name {
        "NOT" => Held::Unary(UnaryOpt::Not(t)),
        "ALL_OF" => Held::Nary(NaryOpt::AllOf(t)),
        "ANY_OF" => Held::Nary(NaryOpt::AnyOf(t)),
        "SMOOSH" => Held::Nary(NaryOpt::Smoosh(t)),
        _ => Held::Binary(match name {
            "SUM_OF" => BinaryOpt::SumOf(t),
            "DIFF_OF" => BinaryOpt::DiffOf(t),
            "PRODUKT_OF" => BinaryOpt::ProduktOf(t),
            "QUOSHUNT_OF" => BinaryOpt::QuoshuntOf(t),
            "MOD_OF" => BinaryOpt::ModOf(t),
            "BIGGR_OF" => BinaryOpt::BiggrOf(t),
            "SMALLR_OF" => BinaryOpt::SmallrOf(t),
            "BOTH_SAEM" => BinaryOpt::BothSaem(t),
            "DIFFRINT" => BinaryOpt::Diffrint(t),
            "BOTH_OF" => BinaryOpt::BothOf(t),
            "EITHER_OF" => BinaryOpt::EitherOf(t),
            "WON_OF" => BinaryOpt::WonOf(t),
            x => panic!("unknown operator {}", x),
        }),
    }
}

fn error(name: &str, t: Token) -> Node {
    macro_rules! pick {
        ($($e:ident $v:ident)*) => {
            match name { $(stringify!($v) => Node::ASTError($e::$v(t).into()),)* x => panic!("unknown error {}", x) }
        };
    }
    pick! {
        VariableAssignmentError MissingR VariableAssignmentError ExpectedValue ExpressionError MissingOperands
        HowIsIError MissingNameIdentifier
        ImInYrError MissingYr ImInYrError MissingStartLabel ImInYrError InvalidStartLabel ImInYrError MissingEndLabel
        ImInYrError InvalidEndLabel ImInYrError MissingImOuttaYr ImInYrError InvalidOperation ImInYrError MissingOperand
        ImInYrError InvalidConditional ImInYrError MissingConditionalExpression
        IIzError MissingName IIzError MissingArgument IIzError MissingMkay
        ORlyError MissingQuestionMark ORlyError MissingMebbeExpression
        IHasAError InvalidIdentifier IHasAError MissingIdentifier IHasAError ExpectedInitialValue
    }
}

fn four(p: &Position) -> (i32, i32, i32, i32) {
    (p.line, p.column, p.bytes, p.chars)
}

fn same(t: &Token, u: &Token) -> bool {
    t == u && (four(&t.range.0), four(&t.range.1)) == (four(&u.range.0), four(&u.range.1))
}

/// The only token of these, if it is the only one.
fn only<'a>(mut it: impl Iterator<Item = &'a Token>) -> Option<Token> {
    let t = it.next()?.clone();
    it.next().is_none().then_some(t)
}

fn run(t: &Token, spelling: &str, steps: &[J]) -> Result<(), String> {
    let mut held = Held::Token(t.clone());
    for step in steps {
        let (what, arg, answer) = (step.arr()[0].s(), step.arr()[1].s(), step.arr()[2].s());
        let fail = |why: String| Err(format!("{} {}: {}", what, arg, why));
        held = match (what, held) {
            ("astype", Held::Token(u)) => match ASTType::try_from(u) {
                Ok(x) if name_of_type(&x) == answer => Held::Type(x),
                Err(back) if answer == "no" && same(&back, t) => Held::Token(back),
                x => return fail(format!("gives {:?}, expected {}", x, answer)),
            },
            ("asvalue", Held::Token(u)) => match ASTExpressionValue::try_from(u) {
                Ok(x) if answer == "yes" && matches!(x, ASTExpressionValue::LiteralValue(_)) => Held::Value(x),
                Err(()) if answer == "no" => Held::Gone,
                x => return fail(format!("gives {:?}, expected {}", x, answer)),
            },
            ("type", Held::Token(u)) => Held::Type(of_type(arg, u)),
            ("operator", Held::Token(u)) => operator(arg, u),
            ("error", Held::Token(u)) => {
                let node = error(arg, u);
                let block = ASTBlock::from([node.clone(), node.clone()]);
                let listed: Vec<Node> = block.iter_errors().map(Node::from).collect();
                if listed != [node.clone(), node.clone()] {
                    return fail("a block of two of it does not list it twice".into());
                }
                Held::Node(node)
            }
            ("node", Held::Value(x)) => {
                let e = ASTExpression::Value(x);
                let node = Node::from(e.clone());
                if node != Node::Expression(e.clone()) || Node::from(Ok::<_, _>(e)) != node {
                    return fail("is not a node of the expression".into());
                }
                if ASTBlock::from([node.clone()]).iter_errors().next().is_some() {
                    return fail("lists an error".into());
                }
                Held::Node(node)
            }
            ("copy", h) => {
                let c = h.clone();
                if c != h || format!("{:?}", c) != format!("{:?}", h) {
                    return fail(format!("{:?} of {:?}", c, h));
                }
                c
            }
            ("look", h) => {
                let seen = match &h {
                    Held::Token(u) => u,
                    Held::Type(x) => x.token(),
                    Held::Binary(x) => x.token(),
                    Held::Unary(x) => x.token(),
                    Held::Nary(x) => x.token(),
                    _ => return Err("harness: nothing to look at".into()),
                };
                if !same(seen, t) {
                    return fail(format!("shows {:?}", seen));
                }
                h
            }
            ("takeout", h) => {
                let u = match h {
                    Held::Type(x) => x.into_token(),
                    Held::Binary(x) => x.into_token(),
                    Held::Unary(x) => x.into_token(),
                    Held::Nary(x) => x.into_token(),
                    _ => return Err("harness: nothing to take out".into()),
                };
                if !same(&u, t) {
                    return fail(format!("gives {:?}", u));
                }
                Held::Token(u)
            }
            ("tokens", h) => {
                let (u, r) = match &h {
                    Held::Value(x) => (only(x.tokens()), x.range()),
                    Held::Node(Node::Expression(x)) => (only(x.tokens()), x.range()),
                    _ => return Err("harness: no tokens".into()),
                };
                if !u.map_or(false, |u| same(&u, t)) || (four(r.0), four(r.1)) != (four(&t.range.0), four(&t.range.1)) {
                    return fail("gives other tokens or another range".into());
                }
                h
            }
            ("spelled", Held::Token(u)) => {
                match &u.token_type {
                    TokenType::Keyword(k) if k.to_string_slice() == spelling => {}
                    x => return fail(format!("{:?} is not spelled {:?}", x, spelling)),
                }
                Held::Token(u)
            }
            (w, h) => return Err(format!("harness: {} of {:?}", w, h)),
        };
    }
    // Whatever it is in now, it can be told from the same with another token in it.
    let shows = match &held {
        Held::Gone => return Ok(()),
        h => format!("{:?}", h),
    };
    if !shows.contains(&format!("{:?} -> {:?}", t.range.0, t.range.1)) {
        return Err(format!("the token is not in {}", shows));
    }
    Ok(())
}

/// Vectors: [token, spelling, [[step, argument, answer]...]].
pub fn replay(vectors: &str) -> Report {
    let mut rep = Report::new();
    let f = std::io::BufReader::new(std::fs::File::open(vectors).unwrap());
    let on = |l: i32, c: i32| Position { line: l, column: c, bytes: 100 * l + c, chars: 90 * l + c };
    let places = [on(3, 5), on(3, 9), on(3, 1), on(4, 1), on(4, 5), on(7, 2), on(2, 300), on(65539, 5), Position::default(), on(0, 0), on(-1, -4)];
    for p in places {
        let r = Range::from(p);
        if (four(&r.0), four(&r.1)) != (four(&p), four(&p)) {
            rep.bad("Range::from(position)", &format!("{:?}", r));
        }
    }
    for (a, b) in places.iter().flat_map(|a| places.iter().map(move |b| (*a, *b))) {
        let (r, i): (Range, Range) = (Range::from((a, b)), (a, b).into());
        for r in [r, i] {
            if (four(&r.0), four(&r.1)) != (four(&a), four(&b)) {
                rep.bad("Range::from(positions)", &format!("{:?} of {:?} and {:?}", r, a, b));
            }
        }
    }
    if !ASTBlock::default().0.is_empty() || ASTBlock::default() != ASTBlock::from([]) {
        rep.bad("ASTBlock::default()", "is not empty");
    }
    for line in f.lines().map_while(Result::ok) {
        let v = match json::parse_tlc_line(&line) {
            Some(v) => v,
            None => continue,
        };
        rep.line = line.clone();
        rep.seen += 1;
        guard::at(&line);
        let v = v.arr();
        let steps = v[2].arr();
        // Short histories with everything a token can say.
        let variants = if steps.len() <= 2 { SAID.len() } else { 1 };
        for k in 0..variants {
            let n = if variants == 1 { rep.seen as usize } else { k };
            let t = Token { token_type: made(v[0].s(), n), range: Range(on(3, 5), [on(3, 9), on(5, 2), on(3, 5), on(4, 5)][n % 4]) };
            let input = format!("{:?}: {}", t.token_type, v[2].show());
            match guard::quiet(|| run(&t, &json::from_cps(&v[1]), steps)) {
                Some(Ok(())) => {}
                Some(Err(e)) => {
                    rep.bad(&input, &e);
                    break;
                }
                None => {
                    rep.bad(&input, "panic");
                    break;
                }
            }
        }
    }
    rep
}
