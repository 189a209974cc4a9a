//! Programs as long as one likes: spec/Widen.tla says what repeating some items does to the tree.
use crate::canon;
use crate::guard;
use crate::json::{self, J};
use crate::parsecheck;
use crate::program::{Dress, HAND_MADE, PLAIN};
use crate::report::Report;
use std::collections::HashMap;
use std::io::BufRead;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

struct Plan {
    before: Vec<String>,
    unit: Vec<String>,
    after: Vec<String>,
    tree: Vec<String>,
    some: i64,
    at: usize,
    piece: Vec<String>,
    /// Tokens after this one are counted further.
    from: i64,
    lead: i64,
}

fn strings(j: &J) -> Vec<String> {
    j.arr().iter().map(|x| x.s().to_string()).collect()
}

fn moved(ev: &str, c: i64, d: i64) -> String {
    match ev.strip_prefix('#').and_then(|n| n.parse::<i64>().ok()) {
        Some(n) if n > c => format!("#{}", n + d),
        _ => ev.to_string(),
    }
}

impl Plan {
    fn of(a: &[J]) -> Plan {
        Plan {
            tree: strings(&a[1]), before: strings(&a[2]), unit: strings(&a[3]), after: strings(&a[4]), some: a[5].n(),
            at: a[6].n() as usize, piece: strings(&a[7]), from: a[8].n(), lead: a[9].n(),
        }
    }
    fn items(&self, m: i64) -> Vec<String> {
        let mut v = self.before.clone();
        for _ in 0..m {
            v.extend_from_slice(&self.unit);
        }
        v.extend_from_slice(&self.after);
        v
    }
    fn events(&self, m: i64) -> Vec<String> {
        let j = m - self.some;
        let each = self.unit.iter().filter(|k| *k != "NL").count() as i64;
        let mut v = self.tree[..self.at].to_vec();
        for k in 0..j {
            v.extend(self.piece.iter().map(|e| moved(e, self.lead, k * each)));
        }
        v.extend(self.tree[self.at..].iter().map(|e| moved(e, self.from, j * each)));
        v
    }
    /// What is said often, inside what, and what piece of tree it makes.
    fn shape(&self, coarse: bool) -> String {
        let mut open: Vec<&str> = vec![];
        for e in &self.tree[..self.at] {
            match e.as_str() {
                ")" => { open.pop(); }
                e if e.starts_with('(') => open.push(e),
                _ => {}
            }
        }
        let piece: Vec<&str> = self.piece.iter().map(|e| if e.starts_with('#') { "#" } else { e.as_str() }).collect();
        if coarse {
            format!("{} {:?} {}", self.unit.len(), open.last(), piece.join(" "))
        } else {
            format!("{} {:?} {}", self.unit.join(" "), open, piece.join(" "))
        }
    }
    fn shown(&self, m: i64) -> String {
        format!("{} {{{}}} {} times {}", self.before.join(" "), self.unit.join(" "), m, self.after.join(" "))
    }
}

const LONG: &[Dress] = &[
    Dress { spell: 1, ..PLAIN },
    Dress { spell: 2, above: 300, ..PLAIN },
    Dress { spell: 4, right: 250, ..PLAIN },
    Dress { spell: 2, apart: 2, ..PLAIN },
    Dress { spell: HAND_MADE, ..PLAIN },
];
const STILL: Dress = Dress { spell: 1, still: true, ..PLAIN };

/// Vectors: [program, tree, beginning, items, ending, times, place, piece, threshold, lead].  Every
/// program is read with as many items as the first size says; one of each shape also with as many
/// as the second, and one of each coarse shape with as many as the others.
pub fn replay(prop: &str, sizes: &str, vectors: &str) -> Report {
    let sizes: Vec<i64> = sizes.split(',').map(|s| s.parse().unwrap()).collect();
    let lines: Vec<String> = std::io::BufReader::new(std::fs::File::open(vectors).unwrap()).lines().map_while(Result::ok).collect();
    // The same shapes come in the same order whatever order TLC printed them in.
    let mut work: Vec<(String, String, Plan)> = lines.into_iter().filter_map(|l| {
        let v = json::parse_tlc_line(&l)?;
        let p = Plan::of(v.arr());
        Some((p.shown(0), l, p))
    }).collect();
    work.sort_by(|a, b| a.0.cmp(&b.0));
    let mut of_shape: [HashMap<String, usize>; 2] = Default::default();
    let nth: Vec<[usize; 2]> = work.iter().map(|w| {
        [0, 1].map(|c| {
            let n = of_shape[c].entry(w.2.shape(c == 1)).or_insert(0);
            *n += 1;
            *n - 1
        })
    }).collect();
    let next = AtomicUsize::new(0);
    let total = Mutex::new((Report::new(), 0, 0, 0));
    std::thread::scope(|s| {
        for _ in 0..8 {
            std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(s, || loop {
                let k = next.fetch_add(1, Ordering::SeqCst);
                let (_, line, plan) = match work.get(k) {
                    Some(w) => w,
                    None => break,
                };
                let mut rep = Report::new();
                rep.line = line.clone();
                let (runs, slow) = all_sizes(&mut rep, prop, k, nth[k], &sizes, plan);
                let mut t = total.lock().unwrap();
                t.0.seen += 1;
                t.0.skipped += (runs == 0) as u64;
                t.0.nbad += rep.nbad;
                t.1 += runs;
                t.2 += slow;
                t.3 += (runs > 3) as u64;
                let room = 10usize.saturating_sub(t.0.bads.len());
                t.0.bads.extend(rep.bads.into_iter().take(room));
            }).unwrap();
        }
    });
    let (mut rep, runs, slow, large) = total.into_inner().unwrap();
    rep.note("runs", runs);
    rep.note("left out, too slow", slow);
    rep.note("shapes", of_shape[0].len() as u64);
    rep.note("programs made larger", large);
    rep
}

fn all_sizes(rep: &mut Report, prop: &str, k: usize, nth: [usize; 2], sizes: &[i64], plan: &Plan) -> (u64, u64) {
    let (mut runs, mut took) = (0, (0, 0.0));
    for (n, size) in sizes.iter().enumerate() {
        // The larger the fewer.
        if n == 1 && nth[0] > 0 || n > 1 && nth[1] > 0 {
            break;
        }
        let each = plan.unit.len() as i64;
        // Not always a round number of tokens.
        let m = (size / each + (k % 7) as i64).max(plan.some);
        let events = plan.events(m);
        if ["C09", "C10", "C11"].contains(&prop) && events.iter().any(|e| e == "(asterror") {
            break;
        }
        // Slow is not wrong.
        let ratio = if took.0 == 0 { 0.0 } else { m as f64 / took.0 as f64 };
        if took.1 * ratio * ratio > 60.0 && took.1 * ratio > 10.0 {
            return (runs, 1);
        }
        let want = canon::events(&events);
        let items = plan.items(m);
        let input = plan.shown(m);
        guard::at(&input);
        let t0 = Instant::now();
        let dresses: Vec<Dress> = match n {
            0 => vec![PLAIN, LONG[k % LONG.len()], STILL],
            _ => vec![PLAIN],
        };
        parsecheck::play(rep, prop, &items, &want, &input, &dresses);
        took = (m, t0.elapsed().as_secs_f64());
        runs += dresses.len() as u64;
        if rep.nbad > 0 {
            break;
        }
    }
    (runs, 0)
}
