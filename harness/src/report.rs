use crate::json::{self, J};

/// What one run of the harness saw; printed as one JSON line.
pub struct Report {
    pub seen: u64,
    pub skipped: u64,
    pub nbad: u64,
    pub bads: Vec<(J, String, String)>,
    /// The vector being replayed, as TLC printed it.
    pub line: String,
    pub notes: Vec<(String, u64)>,
}

impl Report {
    pub fn new() -> Report {
        Report { seen: 0, skipped: 0, nbad: 0, bads: vec![], line: String::new(), notes: vec![] }
    }
    pub fn bad(&mut self, input: &str, why: &str) {
        self.nbad += 1;
        if self.bads.len() < 10 {
            self.bads.push((json::cps(input), why.chars().take(2000).collect(), self.line.clone()));
        }
    }
    pub fn note(&mut self, k: &str, n: u64) {
        self.notes.push((k.to_string(), n));
    }
    pub fn print(&self) {
        let bads = self.bads.iter().map(|(i, w, l)| J::O(vec![
            ("input".into(), i.clone()), ("why".into(), J::S(w.clone())), ("line".into(), J::S(l.clone())),
        ])).collect();
        let notes = self.notes.iter().map(|(k, n)| (k.clone(), J::N(*n as i64))).collect();
        println!("{}", J::O(vec![
            ("seen".into(), J::N(self.seen as i64)), ("skipped".into(), J::N(self.skipped as i64)),
            ("nbad".into(), J::N(self.nbad as i64)), ("bads".into(), J::A(bads)), ("notes".into(), J::O(notes)),
        ]).show());
    }
}
