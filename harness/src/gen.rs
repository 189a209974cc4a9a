//! Random programs as sequences of items, for the specification to parse and judge.  Nothing here
//! says what a program means: the specification does.
use crate::program;
use crate::rng::Rng;
use std::io::Write;

pub type Items = Vec<String>;

const BINARY: &[&str] = &[
    "EITHER_OF", "WON_OF", "SUM_OF", "DIFF_OF", "PRODUKT_OF", "QUOSHUNT_OF", "MOD_OF", "BIGGR_OF", "SMALLR_OF",
    "BOTH_SAEM", "BOTH_OF", "DIFFRINT",
];
const NARY: &[&str] = &["ALL_OF", "ANY_OF", "SMOOSH"];
const TYPES: &[&str] = &["NUMBR", "NUMBAR", "YARN", "TROOF", "BUKKIT", "NOOB"];
const ODD: &[&str] = &["Sym", "SymQ", "Qm", "Bang", "A", "MAEK", "IS_NOW", "MKAY", "AN", "YR", "HAS_A", "ITZ", "R", "NOOB", "WIN", "Slot"];

/// How one program is written.
struct Style {
    /// Percentages.
    an: usize,
    slot: usize,
    srs: usize,
    /// Depth of expressions and of constructs.
    deep: usize,
    nest: usize,
    /// Most operands, arguments, sections, statements of a body.
    wide: usize,
    /// 0: one statement a line; 1: commas; 2: everything.
    layout: usize,
    /// Percentage of statements that are broken.
    broken: usize,
    only_expressions: bool,
    /// NOOB tokens, which only hand-made tokens have, among the literals.
    noobs: bool,
}

struct G<'a> {
    r: &'a mut Rng,
    s: Style,
    p: Items,
    fresh: bool,
    budget: usize,
}

impl<'a> G<'a> {
    fn raw(&mut self, k: &str) {
        self.p.push(k.to_string());
        self.budget = self.budget.saturating_sub(1);
    }
    /// A token of the current statement.
    fn put(&mut self, k: &str) {
        if self.s.layout == 2 && !self.fresh && self.r.chance(6) {
            let joins = ["Ell NL", "CM", "Ell CS NL", "Ell CM2", "Ell NL NL", "Ell NL Ell NL", "Ell", "Ell NL CM2 CM", "CM CM", "Ell CM NL CS NL"];
            let j = *self.r.pick(&joins);
            for x in j.split(' ') {
                self.p.push(x.to_string());
            }
        }
        self.fresh = false;
        self.raw(k);
    }
    fn end(&mut self) {
        let seps: &[&str] = match self.s.layout {
            0 => &["NL"],
            1 => &["NL", "Comma", "NL", "Comma NL"],
            _ => &["NL", "NL", "NL", "Comma", "NL NL", "Comma NL", "NL Comma", "CS NL", "NL CM NL", "CM2", "NL Ell", "Ell Comma", "Comma Ell NL Comma",
                   "CM NL", "Ell NL Comma", "Comma Comma", "NL CS NL CS NL", "NL NL NL NL NL", "Comma CM", "Comma CM2", "CM Comma", "CS NL CM2 NL"],
        };
        let s = *self.r.pick(seps);
        for x in s.split(' ') {
            self.p.push(x.to_string());
        }
        self.fresh = true;
    }
    fn ident(&mut self) {
        if self.r.chance(self.s.srs) {
            self.put("SRS");
        }
        self.put("Id");
    }
    fn var(&mut self) {
        self.ident();
        let mut n = 0;
        while n < 8 && self.r.chance(self.s.slot) {
            self.put("Slot");
            self.ident();
            n += 1;
        }
    }
    fn maybe_an(&mut self) {
        if self.r.chance(self.s.an) {
            self.put("AN");
        }
    }
    /// An expression; one that is last in its statement may stay open.
    fn expr(&mut self, depth: usize, last: bool) {
        let stop = depth == 0 || self.budget < 3;
        match if stop { self.r.below(5) } else { self.r.below(14) } {
            0 if self.s.noobs => self.put("NOOB"),
            0..=1 => self.put("Lit"),
            2 if self.s.layout == 2 => self.put("ML"),
            2..=4 => self.var(),
            5..=6 => {
                self.put("NOT");
                self.expr(depth - 1, last)
            }
            7..=10 => {
                let k = *self.r.pick(BINARY);
                self.put(k);
                self.expr(depth - 1, false);
                self.maybe_an();
                self.expr(depth - 1, last)
            }
            _ => {
                let k = *self.r.pick(NARY);
                self.put(k);
                let n = self.r.below(self.s.wide + 1);
                for _ in 0..n {
                    self.expr(depth - 1, false);
                    self.maybe_an();
                }
                if !last || self.r.chance(60) {
                    self.put("MKAY")
                } else if self.r.chance(30) {
                    self.expr(depth - 1, true)
                }
            }
        }
    }
    fn full(&mut self, last: bool) {
        let d = self.r.below(self.s.deep + 1);
        self.expr(d, last)
    }
    fn simple(&mut self) {
        if self.s.only_expressions {
            return self.full(true);
        }
        match self.r.below(15) {
            0 => {
                self.put("I_HAS_A");
                self.ident()
            }
            1 => {
                self.put("I_HAS_A");
                self.ident();
                self.put("ITZ");
                let t = *self.r.pick(TYPES);
                self.put(t)
            }
            2 => {
                self.put("I_HAS_A");
                self.ident();
                self.put("ITZ");
                self.full(true)
            }
            3..=4 => {
                self.var();
                self.put("R");
                self.full(true)
            }
            5 => {
                self.var();
                self.put("HAS_A");
                self.ident();
                self.put("ITZ");
                self.full(true)
            }
            6 => {
                self.put("GIMMEH");
                self.var()
            }
            7..=8 => {
                self.put("VISIBLE");
                let n = self.r.below(self.s.wide + 1);
                for _ in 0..n {
                    self.full(false);
                }
                if self.r.chance(40) {
                    self.put("Bang")
                } else if self.r.chance(40) {
                    self.full(true)
                }
            }
            9..=10 => {
                self.put("I_IZ");
                self.var();
                let n = self.r.below(self.s.wide + 1);
                for k in 0..n {
                    self.put("YR");
                    self.full(false);
                    if k + 1 < n || self.r.chance(10) {
                        self.put("AN")
                    }
                }
                self.put("MKAY")
            }
            11 => {
                self.put("FOUND_YR");
                self.full(true)
            }
            12 => {
                self.put("HAI");
                for _ in 0..self.r.below(3) {
                    let k = *self.r.pick(&["Lit", "Id", "VISIBLE", "AN", "OIC"]);
                    self.put(k)
                }
            }
            13 => {
                let k = *self.r.pick(&["KTHXBYE", "GTFO"]);
                self.put(k)
            }
            _ => self.full(true),
        }
    }
    /// Damages what was written from index a on, separators aside.
    fn damage(&mut self, a: usize) {
        let spots: Vec<usize> = (a..self.p.len()).filter(|&i| !matches!(self.p[i].as_str(), "NL" | "CS" | "CM" | "CM2" | "Ell")).collect();
        if spots.is_empty() {
            return;
        }
        let i = *self.r.pick(&spots);
        match self.r.below(6) {
            0 => {
                self.p.remove(i);
            }
            1 => {
                let k = self.p[i].clone();
                self.p.insert(i, k)
            }
            2 => {
                let k = if self.r.chance(70) { self.r.pick(ODD) } else { self.r.pick(program::KEYWORDS) };
                self.p[i] = k.to_string()
            }
            3 => {
                let k = if self.r.chance(70) { self.r.pick(ODD) } else { self.r.pick(program::KEYWORDS) };
                self.p.insert(i + 1, k.to_string())
            }
            4 => {
                // Cut short.
                self.p.truncate(i + 1)
            }
            _ => {
                for _ in 0..1 + self.r.below(3) {
                    let k = *self.r.pick(&["Id", "Lit", "GTFO", "AN", "MKAY", "Bang", "SUM_OF"]);
                    self.raw(k)
                }
            }
        }
    }
    /// Ends a statement, or a line of a construct, perhaps damaging it first.
    fn finish(&mut self, from: usize) {
        if self.r.chance(self.s.broken) {
            self.damage(from)
        }
        self.end()
    }
    fn body(&mut self, nest: usize) {
        let n = self.r.below(self.s.wide + 1);
        for _ in 0..n {
            if self.budget == 0 {
                return;
            }
            self.stmt(nest)
        }
    }
    fn line(&mut self, f: impl FnOnce(&mut Self)) {
        let from = self.p.len();
        f(self);
        self.finish(from)
    }
    fn stmt(&mut self, nest: usize) {
        if nest == 0 || self.budget < 6 || self.s.only_expressions || self.r.chance(55) {
            return self.line(|g| g.simple());
        }
        match self.r.below(4) {
            0 => {
                self.line(|g| {
                    g.put("HOW_IZ_I");
                    g.ident();
                    let n = g.r.below(g.s.wide + 1);
                    for k in 0..n {
                        g.put("YR");
                        g.ident();
                        if k + 1 < n || g.r.chance(10) {
                            g.put("AN")
                        }
                    }
                });
                self.body(nest - 1);
                self.line(|g| g.put("IF_U_SAY_SO"))
            }
            1 => {
                self.line(|g| {
                    g.put("IM_IN_YR");
                    g.put("Id");
                    if g.r.chance(50) {
                        let k = *g.r.pick(&["UPPIN", "NERFIN"]);
                        g.put(k);
                        g.put("YR");
                        g.var()
                    }
                    if g.r.chance(50) {
                        let k = *g.r.pick(&["TIL", "WILE"]);
                        g.put(k);
                        g.full(true)
                    }
                });
                self.body(nest - 1);
                self.line(|g| {
                    g.put("IM_OUTTA_YR");
                    g.put("Id")
                })
            }
            2 => {
                self.line(|g| {
                    g.put("O_RLY");
                    g.put("Qm")
                });
                if self.r.chance(75) {
                    self.line(|g| g.put("YA_RLY"));
                    self.body(nest - 1)
                }
                for _ in 0..self.r.below(self.s.wide + 1) {
                    self.line(|g| {
                        g.put("MEBBE");
                        g.full(true)
                    });
                    self.body(nest - 1)
                }
                if self.r.chance(60) {
                    self.line(|g| g.put("NO_WAI"));
                    self.body(nest - 1)
                }
                self.line(|g| g.put("OIC"))
            }
            _ => {
                self.line(|g| {
                    g.put("WTF");
                    g.put("Qm")
                });
                for _ in 0..self.r.below(self.s.wide + 1) {
                    self.line(|g| {
                        g.put("OMG");
                        g.full(true)
                    });
                    self.body(nest - 1)
                }
                if self.r.chance(60) {
                    self.line(|g| g.put("OMGWTF"));
                    self.body(nest - 1)
                }
                self.line(|g| g.put("OIC"))
            }
        }
    }
}

pub fn program(r: &mut Rng, focus: &str, most: usize) -> Items {
    let size = 2 + r.below(most);
    let pct = |r: &mut Rng| *r.pick(&[0, 30, 50, 80, 100]);
    let some = |r: &mut Rng| *r.pick(&[0, 10, 30, 60]);
    let s = Style {
        an: pct(r),
        slot: some(r),
        srs: some(r),
        deep: 1 + r.below(if focus == "expr" { 6 } else { 3 }),
        nest: r.below(5),
        wide: 1 + r.below(5),
        layout: if focus == "layout" { 2 } else { r.below(3) },
        broken: match focus {
            "errors" => *r.pick(&[3, 10, 25, 60]),
            "mixed" => *r.pick(&[0, 0, 5, 30]),
            "layout" => *r.pick(&[0, 0, 0, 10]),
            _ => 0,
        },
        only_expressions: focus == "expr",
        noobs: r.chance(15),
    };
    let mut g = G { r, s, p: vec![], fresh: true, budget: size };
    if g.s.layout == 2 && g.r.chance(40) {
        g.end();
    }
    while g.budget > 0 {
        let nest = g.s.nest;
        g.stmt(nest);
    }
    let mut p = g.p;
    // Programs need not end with a line break.
    if r.chance(30) {
        while matches!(p.last().map(|s| s.as_str()), Some("NL")) {
            p.pop();
        }
    }
    p
}

/// Writes count programs, one a line: {"p": [items]}.
pub fn programs(seed: u64, focus: &str, count: usize, most: usize, out: &str) -> crate::report::Report {
    let mut rep = crate::report::Report::new();
    let mut f = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    let mut r = Rng::new(seed);
    let focus_seed = focus.bytes().fold(0u64, |a, b| a * 31 + b as u64);
    for _ in 0..focus_seed % 97 {
        r.next();
    }
    for _ in 0..count {
        let p = program(&mut r, focus, most);
        let words: Vec<String> = p.iter().map(|k| format!("{:?}", k)).collect();
        let _ = writeln!(f, "{{\"p\":[{}]}}", words.join(","));
        rep.seen += 1;
    }
    rep
}
