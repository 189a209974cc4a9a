//! Trees and errors of the real parser in the vocabulary of the specification.
//!
//! The only public view of a tree's inside is its `Debug` form.  It is read back here into nodes,
//! of which only those with a public name are kept; everything else (private helper types,
//! boxes, options, lists) is transparent.  What a node holds is put in source order.
use lolcode_ast::lexer::Token;
use std::collections::HashMap;

#[derive(Debug, Clone, PartialEq)]
pub enum V {
    /// A token: start line and column, end line and column, type.
    Tok((i32, i32), (i32, i32), String),
    Named(String, Vec<(Option<String>, V)>),
    List(Vec<V>),
}

struct P<'a> {
    s: &'a str,
    i: usize,
}

type R<T> = Result<T, String>;

impl<'a> P<'a> {
    fn rest(&self) -> &'a str {
        &self.s[self.i..]
    }
    fn ws(&mut self) {
        let r = self.rest();
        self.i += r.len() - r.trim_start().len();
    }
    fn peek(&self) -> char {
        self.rest().chars().next().unwrap_or('\0')
    }
    fn eat(&mut self, t: &str) -> bool {
        self.ws();
        let ok = self.rest().starts_with(t);
        if ok {
            self.i += t.len();
        }
        ok
    }
    fn want(&mut self, t: &str) -> R<()> {
        if self.eat(t) {
            Ok(())
        } else {
            Err(format!("expected {:?} at {:?}", t, self.rest().chars().take(60).collect::<String>()))
        }
    }
    fn int(&mut self) -> Option<i32> {
        self.ws();
        let r = self.rest();
        let n = r.char_indices().find(|(k, c)| !(c.is_ascii_digit() || (*k == 0 && *c == '-'))).map_or(r.len(), |x| x.0);
        let v = r[..n].parse().ok()?;
        self.i += n;
        Some(v)
    }
    fn pos(&mut self) -> Option<(i32, i32)> {
        if !self.eat("(") {
            return None;
        }
        let l = self.int()?;
        if !self.eat(",") {
            return None;
        }
        let c = self.int()?;
        if self.eat(")") {
            Some((l, c))
        } else {
            None
        }
    }
    fn token(&mut self) -> R<Option<V>> {
        let save = self.i;
        let head = (|| {
            let a = self.pos()?;
            if !self.eat("->") {
                return None;
            }
            Some((a, self.pos()?))
        })();
        match head {
            None => {
                self.i = save;
                Ok(None)
            }
            Some((a, b)) => {
                self.ws();
                let from = self.i;
                self.value()?;
                Ok(Some(V::Tok(a, b, self.s[from..self.i].to_string())))
            }
        }
    }
    fn word(&mut self) -> String {
        let r = self.rest();
        let n = r.find(|c: char| !(c.is_alphanumeric() || c == '_')).unwrap_or(r.len());
        self.i += n;
        r[..n].to_string()
    }
    fn value(&mut self) -> R<V> {
        self.ws();
        let c = self.peek();
        if c == '(' {
            if let Some(t) = self.token()? {
                return Ok(t);
            }
            self.want("(")?;
            return Ok(V::List(self.until(")")?));
        }
        if c == '[' {
            self.want("[")?;
            return Ok(V::List(self.until("]")?));
        }
        if c == '"' || c == '\'' {
            self.i += 1;
            loop {
                match self.peek() {
                    '\\' => {
                        self.i += 1;
                        self.i += self.peek().len_utf8();
                    }
                    '\0' => return Err("open string".into()),
                    d => {
                        self.i += d.len_utf8();
                        if d == c {
                            return Ok(V::List(vec![]));
                        }
                    }
                }
            }
        }
        if c.is_ascii_digit() || c == '-' || c == '+' {
            let r = self.rest();
            let n = r.char_indices().skip(1).find(|(_, d)| !(d.is_alphanumeric() || *d == '.' || *d == '-' || *d == '+')).map_or(r.len(), |x| x.0);
            self.i += n;
            return Ok(V::List(vec![]));
        }
        let w = self.word();
        if w.is_empty() {
            return Err(format!("unreadable at {:?}", self.rest().chars().take(60).collect::<String>()));
        }
        // The opening bracket of a node follows its name directly (a struct's after one space).
        if self.peek() == '(' {
            self.want("(")?;
            let v = self.until(")")?;
            return Ok(V::Named(w, v.into_iter().map(|x| (None, x)).collect()));
        }
        if self.rest().starts_with(" {") {
            self.want("{")?;
            let mut f = vec![];
            loop {
                if self.eat("}") {
                    return Ok(V::Named(w, f));
                }
                self.ws();
                let name = self.word();
                self.want(":")?;
                f.push((Some(name), self.value()?));
                self.eat(",");
            }
        }
        Ok(V::Named(w, vec![]))
    }
    fn until(&mut self, close: &str) -> R<Vec<V>> {
        let mut v = vec![];
        loop {
            if self.eat(close) {
                return Ok(v);
            }
            v.push(self.value()?);
            self.eat(",");
        }
    }
}

/// A tree in the specification's vocabulary.
#[derive(Debug, Clone, PartialEq)]
pub enum E {
    T(String),
    N(String, Vec<E>),
}

pub const ERRORS: &[&str] = &[
    "unexpectedtoken", "toomanytokens", "missingtoken", "missingblockclosingtoken", "missingnameidentifier",
    "missingidentifier", "invalididentifier", "expectedinitialvalue", "missingr", "expectedvalue", "missingoperands",
    "missingquestionmark", "missingmebbeexpression", "missingname", "missingargument", "missingmkay", "missingyr",
    "missingstartlabel", "invalidstartlabel", "missingendlabel", "invalidendlabel", "missingimouttayr",
    "invalidoperation", "missingoperand", "invalidconditional", "missingconditionalexpression", "howisi",
];
const NODES: &[&str] = &[
    "astblock", "visible", "ihasa", "hai", "iminyr", "bukkitsetslot", "variableassignment", "foundyr", "wtf", "orly",
    "iiz", "howizi", "gtfo", "gimmeh", "asterror", "kthxbye", "binaryoperation", "unaryoperation", "naryoperation",
    "variableaccess", "literalvalue", "eitherof", "wonof", "sumof", "diffof", "produktof", "quoshuntof", "modof",
    "biggrof", "smallrof", "bothsaem", "bothof", "diffrint", "not", "allof", "anyof", "smoosh", "bukkit", "numbr",
    "numbar", "yarn", "troof", "noob", "uppin", "nerfin", "til", "wile",
];

/// Fields whose order in the source is fixed by what they mean.
const ORDERS: &[&[&str]] = &[
    &["left", "an_token", "right"],
    &["identifier", "initial_value"],
    &["identifier", "accesses"],
    &["srs", "name"],
    &["bukkit", "slot_name", "value"],
    &["variable_access", "r_token", "expression"],
    &["name", "arguments", "body"],
    &["label", "on_iteration", "condition", "code_block", "end_label"],
    &["operation", "operand"],
    &["operator", "expressions", "mkay_token"],
    &["operator", "expression"],
    &["operand", "an_token"],
    &["if_true", "mebbes", "if_false"],
    &["expressions", "exclamation_mark"],
    &["condition", "block"],
    &["expression", "block"],
];

pub struct Canon {
    at: HashMap<(i32, i32), usize>,
    tokens: Vec<((i32, i32), String)>,
    /// Tokens that share their places are told apart by line and type alone.
    still: bool,
}

fn plain(name: &str) -> String {
    name.chars().filter(|c| *c != '_').flat_map(|c| c.to_lowercase()).collect()
}

impl Canon {
    pub fn new(tokens: &[Token]) -> Canon {
        Canon {
            at: tokens.iter().enumerate().map(|(i, t)| ((t.range.0.line, t.range.0.column), i)).collect(),
            tokens: tokens
                .iter()
                .map(|t| ((t.range.1.line, t.range.1.column), format!("{:?}", t.token_type)))
                .collect(),
            still: false,
        }
    }

    pub fn still(tokens: &[Token]) -> Canon {
        Canon { still: true, ..Canon::new(tokens) }
    }

    /// Expected nodes, in the terms of this reading.
    pub fn terms(&self, tokens: &[Token], v: &[E]) -> Vec<E> {
        if !self.still {
            return v.to_vec();
        }
        v.iter()
            .map(|e| match e {
                E::T(o) => E::T(o[1..].parse::<usize>().ok().and_then(|n| tokens.get(n - 1)).map_or(o.clone(), |t| self.ordinal(t))),
                E::N(n, w) => E::N(n.clone(), self.terms(tokens, w)),
            })
            .collect()
    }

    pub fn ordinal(&self, t: &Token) -> String {
        self.ord((t.range.0.line, t.range.0.column), (t.range.1.line, t.range.1.column), &format!("{:?}", t.token_type))
    }

    fn ord(&self, a: (i32, i32), b: (i32, i32), ty: &str) -> String {
        if self.still {
            return format!("{}-{}:{}", a.0, b.0, ty.trim_end());
        }
        match self.at.get(&a) {
            None => format!("#?{:?}", a),
            Some(&i) if self.tokens[i].0 == b && self.tokens[i].1 == ty.trim_end() => format!("#{}", i + 1),
            Some(&i) => format!("#{}!altered", i + 1),
        }
    }

    fn first(e: &[E]) -> Option<usize> {
        e.iter().find_map(|x| match x {
            E::T(t) => t.trim_start_matches('#').parse().ok().or(Some(usize::MAX)),
            E::N(_, v) => Canon::first(v),
        })
    }

    fn conv(&self, v: &V) -> Vec<E> {
        match v {
            V::Tok(a, b, ty) => vec![E::T(self.ord(*a, *b, ty))],
            V::List(v) => v.iter().flat_map(|x| self.conv(x)).collect(),
            V::Named(name, args) => {
                let mut parts: Vec<(Option<&str>, Option<usize>, Vec<E>)> = vec![];
                let mut out = vec![];
                for (f, x) in args {
                    let mut e = self.conv(x);
                    let first = Canon::first(&e);
                    if let (Some(f), V::Tok(_, _, ty)) = (f, inner(x)) {
                        if let Some(k) = f.strip_suffix("_token").map(plain) {
                            // A field named after a keyword holds that keyword.
                            let known = crate::program::KEYWORDS.iter().any(|w| plain(w) == k);
                            if known && ty.starts_with("Keyword(") && plain(ty.trim_end().trim_end_matches(')').trim_start_matches("Keyword(")) != k {
                                e.push(E::T("!kind".into()));
                            }
                        }
                    }
                    if !e.is_empty() {
                        parts.push((f.as_deref(), first, e));
                    }
                }
                if args.iter().any(|(f, _)| f.is_some()) {
                    for order in ORDERS {
                        let names: Vec<&str> = args.iter().filter_map(|(f, _)| f.as_deref()).collect();
                        if !order.iter().all(|o| names.contains(o)) {
                            continue;
                        }
                        let seq: Vec<usize> = order
                            .iter()
                            .filter_map(|o| parts.iter().find(|p| p.0 == Some(o)).and_then(|p| p.1))
                            .collect();
                        if seq.windows(2).any(|w| w[0] > w[1]) {
                            out.push(E::T("!swapped".into()));
                        }
                    }
                    parts.sort_by_key(|p| p.1.unwrap_or(usize::MAX));
                }
                out.extend(parts.into_iter().flat_map(|p| p.2));
                let n = plain(name);
                if !(NODES.contains(&n.as_str()) || ERRORS.contains(&n.as_str())) {
                    return out;
                }
                if let [E::N(m, _)] = &out[..] {
                    if *m == n {
                        return out;
                    }
                }
                if out.is_empty() && n != "asterror" {
                    return out;
                }
                vec![E::N(n, out)]
            }
        }
    }

    /// The nodes of a block, from its Debug form.
    pub fn block(&self, debug: &str) -> R<Vec<E>> {
        let e = self.any(debug)?;
        match e.as_slice() {
            [] => Ok(vec![]),
            [E::N(n, v)] if n == "astblock" => Ok(v.clone()),
            _ => Err("not a block".into()),
        }
    }

    pub fn any(&self, debug: &str) -> R<Vec<E>> {
        let mut p = P { s: debug, i: 0 };
        let v = p.value()?;
        p.ws();
        if p.i != debug.len() {
            return Err(format!("trailing {:?}", p.rest().chars().take(40).collect::<String>()));
        }
        Ok(self.conv(&v))
    }
}

fn inner(v: &V) -> &V {
    match v {
        V::Named(n, a) if n == "Some" && a.len() == 1 => &a[0].1,
        v => v,
    }
}

/// Specification events as trees.
pub fn events(ev: &[String]) -> Vec<E> {
    let mut stack: Vec<(String, Vec<E>)> = vec![(String::new(), vec![])];
    for e in ev {
        if e == ")" {
            let (n, v) = stack.pop().unwrap();
            stack.last_mut().unwrap().1.push(E::N(n, v));
        } else if let Some(n) = e.strip_prefix('(') {
            stack.push((n.to_string(), vec![]));
        } else {
            stack.last_mut().unwrap().1.push(E::T(e.clone()));
        }
    }
    stack.pop().unwrap().1
}

pub fn show(v: &[E]) -> String {
    v.iter()
        .map(|e| match e {
            E::T(t) => t.clone(),
            E::N(n, v) => format!("({} {})", n, show(v)),
        })
        .collect::<Vec<_>>()
        .join(" ")
}

pub fn tokens(v: &[E]) -> Vec<String> {
    v.iter()
        .flat_map(|e| match e {
            E::T(t) => vec![t.clone()],
            E::N(_, v) => tokens(v),
        })
        .collect()
}

/// The error nodes of a block and of the blocks in it, in order.
pub fn errors(v: &[E]) -> Vec<E> {
    v.iter()
        .flat_map(|e| match e {
            E::T(_) => vec![],
            E::N(n, _) if n == "asterror" => vec![e.clone()],
            E::N(_, v) => errors(v),
        })
        .collect()
}

pub fn without_errors(v: &[E]) -> Vec<E> {
    v.iter()
        .filter_map(|e| match e {
            E::T(_) => Some(e.clone()),
            E::N(n, _) if n == "asterror" => None,
            E::N(n, v) => {
                let w = without_errors(v);
                // A body that held only errors is an empty body.
                if n == "astblock" && w.is_empty() {
                    None
                } else {
                    Some(E::N(n.clone(), w))
                }
            }
        })
        .collect()
}

/// A skeleton's statements by their kind alone.
pub fn without_first(v: &[E]) -> Vec<E> {
    v.iter()
        .map(|e| match e {
            E::N(n, _) if n == "node" => E::N(n.clone(), vec![]),
            E::N(n, w) => E::N(n.clone(), without_first(w)),
            e => e.clone(),
        })
        .collect()
}

/// Nodes with what they hold in one fixed order.
pub fn bags(v: &[E]) -> Vec<E> {
    let mut w: Vec<E> = v
        .iter()
        .map(|e| match e {
            E::T(_) => e.clone(),
            E::N(n, v) => E::N(n.clone(), bags(v)),
        })
        .collect();
    w.sort_by_cached_key(|e| show(std::slice::from_ref(e)));
    w
}

pub const EXPRESSIONS: &[&str] = &["binaryoperation", "unaryoperation", "naryoperation", "variableaccess", "literalvalue"];
pub const CONSTRUCTS: &[&str] = &["howizi", "iminyr", "orly", "wtf"];

/// Expressions reduced to the tokens they consist of.
pub fn flat_expressions(v: &[E]) -> Vec<E> {
    v.iter()
        .map(|e| match e {
            E::T(_) => e.clone(),
            E::N(n, w) if EXPRESSIONS.contains(&n.as_str()) => {
                E::N("expr".into(), tokens(w).into_iter().map(E::T).collect())
            }
            E::N(n, w) => E::N(n.clone(), flat_expressions(w)),
        })
        .collect()
}

/// Statements other than constructs reduced to their first token.
pub fn skeleton(nodes: &[E]) -> Vec<E> {
    fn node(e: &E) -> E {
        match e {
            E::N(n, w) if CONSTRUCTS.contains(&n.as_str()) => {
                E::N(n.clone(), w.iter().map(|x| match x {
                    E::N(m, b) if m == "astblock" => E::N(m.clone(), skeleton(b)),
                    x => flat_expressions(std::slice::from_ref(x)).remove(0),
                }).collect())
            }
            E::N(n, w) => {
                let name = if n == "asterror" { "asterror" } else { "node" };
                E::N(name.into(), tokens(w).into_iter().take(1).map(E::T).collect())
            }
            e => e.clone(),
        }
    }
    nodes.iter().map(node).collect()
}

/// Nodes reduced to their kind and tokens.
pub fn extents(nodes: &[E]) -> Vec<E> {
    nodes
        .iter()
        .map(|e| match e {
            E::N(n, w) => {
                let n = if EXPRESSIONS.contains(&n.as_str()) { "expr" } else { n };
                E::N(n.into(), tokens(w).into_iter().map(E::T).collect())
            }
            e => e.clone(),
        })
        .collect()
}
