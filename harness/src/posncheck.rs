//! Position arithmetic replayed against spec/Posn.tla.
use crate::guard;
use crate::json::{self, J};
use crate::report::Report;
use lolcode_ast::lexer::Position;
use std::cmp::Ordering;
use std::io::BufRead;

fn make(j: &J) -> Position {
    let v = j.ints();
    Position { line: v[0] as i32, column: v[1] as i32, bytes: v[2] as i32, chars: v[3] as i32 }
}

fn four(p: &Position) -> (i32, i32, i32, i32) {
    (p.line, p.column, p.bytes, p.chars)
}

/// All comparisons of two places, against their order in the text.
fn compared(a: &Position, b: &Position, want: Ordering) -> bool {
    let eq = want == Ordering::Equal;
    a.partial_cmp(b) == Some(want)
        && (a == b) == eq
        && (a != b) != eq
        && (a < b) == (want == Ordering::Less)
        && (a > b) == (want == Ordering::Greater)
        && (a <= b) == (want != Ordering::Greater)
        && (a >= b) == (want != Ordering::Less)
}

/// Vectors: [start, [[unit, times]...], [position after each piece]].
pub fn replay(vectors: &str) -> Report {
    let mut rep = Report::new();
    if four(&Position::default()) != (1, 1, 0, 0) {
        rep.bad("", &format!("default position {:?}", four(&Position::default())));
    }
    let f = std::io::BufReader::new(std::fs::File::open(vectors).unwrap());
    let mut pairs = 0;
    for line in f.lines().map_while(Result::ok) {
        let v = match json::parse_tlc_line(&line) {
            Some(v) => v,
            None => continue,
        };
        rep.line = line.clone();
        rep.seen += 1;
        guard::at(&line);
        let start = make(&v.arr()[0]);
        let pieces: Vec<String> =
            v.arr()[1].arr().iter().map(|p| json::from_cps(&p.arr()[0]).repeat(p.arr()[1].n() as usize)).collect();
        let marks: Vec<Position> = v.arr()[2].arr().iter().map(make).collect();
        let why = guard::quiet(|| {
            let mut here = start;
            let mut copy = start;
            let mut whole = String::new();
            let mut real = vec![(0, start)];
            for (piece, mark) in pieces.iter().zip(&marks) {
                whole.push_str(piece);
                let before = here;
                let next = here + piece.as_str();
                if four(&here) != four(&before) {
                    return Some("adding changes what is added to".to_string());
                }
                here = next;
                copy += piece.as_str();
                let all = start + whole.as_str();
                let mut at_once = start;
                at_once += whole.as_str();
                for (how, p) in [("+", here), ("+=", copy), ("+ all", all), ("+= all", at_once)] {
                    if four(&p) != four(mark) {
                        return Some(format!("{} gives {:?}, expected {:?}", how, four(&p), four(mark)));
                    }
                }
                real.push((whole.len(), here));
            }
            for (i, a) in &real {
                for (j, b) in &real {
                    pairs += 1;
                    if !compared(a, b, i.cmp(j)) {
                        return Some(format!("{:?} compared with {:?} is not {:?}", four(a), four(b), i.cmp(j)));
                    }
                }
            }
            None
        });
        match why {
            Some(None) => {}
            Some(Some(w)) => rep.bad(&line, &w),
            None => rep.bad(&line, "panic"),
        }
    }
    rep.note("comparisons", pairs);
    rep
}
