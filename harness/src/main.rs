mod blocks;
mod canon;
mod convert;
mod fuzz;
mod gen;
mod guard;
mod json;
mod lexcheck;
mod lexrec;
mod parsecheck;
mod posncheck;
mod program;
mod report;
mod rng;
mod same;
mod session;
mod stretch;
mod walk;
mod widen;

fn run(a: &[String]) -> report::Report {
    let s = |i: usize| a[i].as_str();
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    match s(1) {
        "lex-replay" => lexcheck::replay(s(2), s(3), s(4)),
        "lex-record" => lexcheck::record(n(2), n(3) as usize, n(4) as usize, s(5)),
        "lex-one" => lexcheck::one(s(2), s(3)),
        "parse-replay" => parsecheck::replay(s(2), n(3) as usize, s(4)),
        "dress-test" => parsecheck::dress_test(),
        "gen-programs" => gen::programs(n(2), s(3), n(4) as usize, n(5) as usize, s(6)),
        "parse-fuzz" => fuzz::parse(n(2), n(3) as usize, n(4) as usize),
        "session-replay" => session::replay(s(2), n(3), n(4) as usize, s(5)),
        "session-sweep" => session::sweep(n(2), n(3) as usize, n(4) as usize),
        "session-compose" => session::compose(n(2), n(3) as usize),
        "walk-replay" => walk::replay(s(2), n(3), n(4) as usize, s(5)),
        "convert-replay" => convert::replay(s(2)),
        "blocks-replay" => blocks::replay(s(2), s(3)),
        "same-replay" => same::replay(s(2)),
        "widen-replay" => widen::replay(s(2), s(3), s(4)),
        "stretch-replay" => stretch::replay(s(2), s(3), s(4)),
        "posn-replay" => posncheck::replay(s(2)),
        x => panic!("unknown command {}", x),
    }
}

/// harness CURRENT-INPUT-FILE COMMAND ARGS...
fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    if a[1] == "session-one" {
        let op = a[2].clone();
        let t = std::thread::Builder::new().stack_size(8 << 20).spawn(move || session::one(&op)).unwrap();
        return t.join().unwrap();
    }
    guard::track(&a[0]);
    // The stack the main thread of a program usually has.
    let rep = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || run(&a))
        .unwrap()
        .join()
        .unwrap();
    rep.print();
}
