//! Stored texts and what storage does to them.
//!
//! Every byte of a stored text remembers where it was written, so that after
//! any sequence of faults the lines that survived unharmed are known.
use simkit::{ev, Sim};

const LOST: u32 = u32::MAX;

#[derive(Clone)]
pub struct Text {
    bytes: Vec<(u8, u32)>,
    lens: Vec<usize>,
    starts: Vec<u32>,
    pub damaged: bool,
}

/// A line of the text as it is stored now.
pub struct Line {
    pub text: Vec<u8>,
    /// the line that was written, if these are exactly its bytes
    pub intact: Option<usize>,
}

impl Text {
    /// Lines as written; `ends` gives the line ending of each.
    pub fn new(lines: &[String], ends: &[&str]) -> Text {
        let mut t = Text { bytes: Vec::new(), lens: Vec::new(), starts: Vec::new(), damaged: false };
        for (l, e) in lines.iter().zip(ends) {
            t.starts.push(t.bytes.len() as u32);
            t.lens.push(l.len());
            for b in l.bytes().chain(e.bytes()) {
                let n = t.bytes.len() as u32;
                t.bytes.push((b, n));
            }
        }
        t
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.bytes.iter().map(|&(b, _)| b).collect()
    }

    pub fn lines(&self) -> Vec<Line> {
        let mut out = Vec::new();
        let mut rest: &[(u8, u32)] = &self.bytes;
        while !rest.is_empty() {
            let (line, next) = match rest.iter().position(|&(b, _)| b == b'\n') {
                Some(i) if i > 0 && rest[i - 1].0 == b'\r' => (&rest[..i - 1], &rest[i + 1..]),
                Some(i) => (&rest[..i], &rest[i + 1..]),
                None => (rest, &rest[rest.len()..]),
            };
            rest = next;
            out.push(Line {
                text: line.iter().map(|&(b, _)| b).collect(),
                intact: self.origin(line),
            });
        }
        out
    }
    fn origin(&self, line: &[(u8, u32)]) -> Option<usize> {
        let first = line.first()?.1;
        if first == LOST {
            return None;
        }
        let i = self.starts.iter().position(|&s| s == first)?;
        // a later empty line starts where this one would
        let i = (i..self.starts.len()).find(|&j| self.starts[j] == first && self.lens[j] == line.len())?;
        if line.iter().enumerate().all(|(k, &(_, t))| t == first + k as u32) {
            Some(i)
        } else {
            None
        }
    }

    /// The place where a fault happens: somewhere, or at a line boundary.
    fn place(&self, sim: &Sim) -> usize {
        let n = self.bytes.len();
        if sim.flip(1, 3) {
            let breaks: Vec<usize> =
                (0..n).filter(|&i| self.bytes[i].0 == b'\n').map(|i| i + 1).collect();
            if !breaks.is_empty() {
                return breaks[sim.below(breaks.len())];
            }
        }
        sim.below(n + 1)
    }
    fn line_span(&self, sim: &Sim) -> (usize, usize) {
        let mut starts = vec![0];
        starts.extend((0..self.bytes.len()).filter(|&i| self.bytes[i].0 == b'\n').map(|i| i + 1));
        let k = sim.below(starts.len());
        let s = starts[k];
        let e = starts.get(k + 1).cloned().unwrap_or_else(|| self.bytes.len());
        (s, e)
    }

    /// One storage fault.
    pub fn damage(&mut self, sim: &Sim) {
        let n = self.bytes.len();
        if n == 0 {
            return;
        }
        let before = self.bytes();
        let kind;
        match sim.below(12) {
            0 | 1 => {
                kind = "text: cut off";
                let at = self.place(sim);
                self.bytes.truncate(at);
            }
            2 => {
                kind = "text: line lost";
                let (s, e) = self.line_span(sim);
                self.bytes.drain(s..e);
            }
            3 => {
                kind = "text: line doubled";
                let (s, e) = self.line_span(sim);
                let mut copy = self.bytes[s..e].to_vec();
                if copy.last().map(|b| b.0) != Some(b'\n') {
                    copy.insert(0, (b'\n', LOST));
                }
                let tail = self.bytes.split_off(e);
                self.bytes.extend(copy);
                self.bytes.extend(tail);
            }
            4 => {
                kind = "text: line moved";
                let (s, e) = self.line_span(sim);
                let line: Vec<(u8, u32)> = self.bytes.drain(s..e).collect();
                if line.last().map(|b| b.0) == Some(b'\n') {
                    let (at, _) = self.line_span(sim);
                    let tail = self.bytes.split_off(at);
                    self.bytes.extend(line);
                    self.bytes.extend(tail);
                } else {
                    self.bytes.extend(line);
                }
            }
            5 => {
                kind = "text: bit flipped";
                let i = sim.below(n);
                self.bytes[i] = (self.bytes[i].0 ^ (1 << sim.below(7)), LOST);
            }
            6 | 7 => {
                kind = "text: byte changed";
                let i = sim.below(n);
                self.bytes[i] = (*sim.pick(INTERESTING), LOST);
            }
            8 => {
                kind = "text: byte lost";
                let i = sim.below(n);
                self.bytes.remove(i);
            }
            9 => {
                kind = "text: byte added";
                let i = self.place(sim);
                self.bytes.insert(i, (*sim.pick(INTERESTING), LOST));
            }
            10 => {
                kind = "text: block blanked";
                let s = self.place(sim).min(n - 1);
                let e = (s + sim.range(1, 40)).min(n);
                let b = *sim.pick(b" 0\0");
                for x in &mut self.bytes[s..e] {
                    *x = (b, LOST);
                }
            }
            _ => {
                kind = "text: block repeated";
                let s = self.place(sim).min(n - 1);
                let e = (s + sim.range(1, 40)).min(n);
                let copy = self.bytes[s..e].to_vec();
                let tail = self.bytes.split_off(e);
                self.bytes.extend(copy);
                self.bytes.extend(tail);
            }
        }
        if self.bytes() != before {
            self.damaged = true;
            sim.fault(kind);
        }
        ev!(sim, "{}", kind);
    }
}

const INTERESTING: &[u8] = b"0123456789 \t\n\"\\-,;()[]%#|:.*/eExTNVaSU\0>=\xe2\x92\x86\xff";
