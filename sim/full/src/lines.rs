//! What the lines of the documented text formats say, by a reader of our own.
use std::str::from_utf8;

#[derive(Clone, Debug, PartialEq)]
pub enum Sym {
    Var(usize, usize),
    T(String),
    Nt(String),
}

#[derive(Clone, Debug)]
pub struct RuleV {
    pub head: String,
    pub comp: Vec<Vec<Sym>>,
    pub tail: Vec<String>,
    pub w: f64,
}
impl RuleV {
    pub fn same(&self, o: &RuleV) -> bool {
        self.head == o.head
            && self.comp == o.comp
            && self.tail == o.tail
            && (self.w == o.w || (self.w.is_nan() && o.w.is_nan()))
    }
}

#[derive(Clone, Debug)]
pub enum Says {
    Nothing,
    Initials(Vec<String>),
    Rule(RuleV),
    Garbage,
}

/// A cursor over a line.
pub struct Cur<'a>(pub &'a [u8]);

impl<'a> Cur<'a> {
    pub fn space(&mut self) {
        while let [b' ', r @ ..] | [b'\t', r @ ..] = self.0 {
            self.0 = r;
        }
    }
    pub fn tag(&mut self, t: &str) -> Option<()> {
        self.0 = self.0.strip_prefix(t.as_bytes())?;
        Some(())
    }
    pub fn token(&mut self) -> Option<String> {
        let s = self.0;
        if s.first() == Some(&b'"') {
            let mut i = 1;
            loop {
                match *s.get(i)? {
                    b'\\' => match *s.get(i + 1)? {
                        b'\\' | b'"' => i += 2,
                        _ => return None,
                    },
                    b'"' => break,
                    _ => i += 1,
                }
            }
            self.0 = &s[i + 1..];
            return Some(from_utf8(&s[1..i]).ok()?.to_string());
        }
        // the arrow counts as a whole: other symbols share its bytes
        let stop = |i: &usize| b" \\\"-,;)]%#".contains(&s[*i]) || s[*i..].starts_with("→".as_bytes());
        let n = (0..s.len()).find(stop).unwrap_or_else(|| s.len());
        if n == 0 {
            return None;
        }
        self.0 = &s[n..];
        Some(from_utf8(&s[..n]).ok()?.to_string())
    }
    pub fn list<T>(
        &mut self,
        open: &str,
        close: &str,
        item: impl Fn(&mut Cur<'a>) -> Option<T>,
    ) -> Option<Vec<T>> {
        self.tag(open)?;
        self.space();
        let mut out = Vec::new();
        loop {
            let mut c = Cur(self.0);
            let _ = c.tag(",");
            c.space();
            match item(&mut c) {
                Some(x) => {
                    c.space();
                    self.0 = c.0;
                    out.push(x);
                }
                None => break,
            }
        }
        self.tag(close)?;
        Some(out)
    }
    fn number(&mut self) -> Option<usize> {
        let n = self.0.iter().position(|b| !b.is_ascii_digit()).unwrap_or_else(|| self.0.len());
        let (d, r) = self.0.split_at(n);
        self.0 = r;
        from_utf8(d).ok()?.parse().ok()
    }
    fn sym_cfg(&mut self) -> Option<Sym> {
        let nt = self.tag("Nt").is_some();
        if !nt {
            self.tag("T")?;
        }
        self.space();
        let t = self.token()?;
        Some(if nt { Sym::Nt(t) } else { Sym::T(t) })
    }
    fn sym_pmcfg(&mut self) -> Option<Sym> {
        if self.tag("Var").is_some() {
            self.space();
            let i = self.number()?;
            self.space();
            let j = self.number()?;
            return Some(Sym::Var(i, j));
        }
        self.tag("T")?;
        self.space();
        Some(Sym::T(self.token()?))
    }
    /// An optional weight and an optional comment up to the end of the line.
    pub fn weight(&mut self) -> Option<f64> {
        self.space();
        let mut w = 1.0;
        if self.tag("#").is_some() {
            self.space();
            let n = self.0.iter().position(|&b| b == b' ').unwrap_or_else(|| self.0.len());
            if n == 0 {
                return None;
            }
            w = from_utf8(&self.0[..n]).ok()?.parse().ok()?;
            self.0 = &self.0[n..];
        }
        self.space();
        if self.0.is_empty() || self.0[0] == b'%' {
            Some(w)
        } else {
            None
        }
    }
}

fn grammar_line(line: &[u8], cfg: bool) -> Says {
    let l = match from_utf8(line) {
        Ok(l) => l.trim(),
        Err(_) => return Says::Garbage,
    };
    let mut c = Cur(l.as_bytes());
    if c.tag("initial:").is_some() {
        c.space();
        return match c.list("[", "]", |c| c.token()) {
            Some(v) => Says::Initials(v),
            None => Says::Garbage,
        };
    }
    if l.is_empty() || l.starts_with('%') {
        return Says::Nothing;
    }
    let rule = (|| {
        let head = c.token()?;
        c.space();
        c.tag("→").or_else(|| c.tag("->")).or_else(|| c.tag("=>"))?;
        c.space();
        let (comp, tail);
        if cfg {
            comp = vec![c.list("[", "]", |c| c.sym_cfg())?];
            tail = Vec::new();
        } else {
            comp = c.list("[", "]", |c| c.list("[", "]", |c| c.sym_pmcfg()))?;
            c.space();
            tail = c.list("(", ")", |c| c.token())?;
        }
        let w = c.weight()?;
        Some(RuleV { head, comp, tail, w })
    })();
    match rule {
        Some(r) => Says::Rule(r),
        None => Says::Garbage,
    }
}

pub fn cfg_line(line: &[u8]) -> Says {
    grammar_line(line, true)
}
pub fn pmcfg_line(line: &[u8]) -> Says {
    grammar_line(line, false)
}

/// Is `got` the sequence `want` with some of its optional items left out?
pub fn merges<A, B>(want: &[(A, bool)], got: &[B], same: impl Fn(&A, &B) -> bool) -> bool {
    // reachable positions in `got`
    let mut at = vec![false; got.len() + 1];
    at[0] = true;
    for (a, must) in want {
        let mut next = if *must { vec![false; at.len()] } else { at.clone() };
        for i in 0..got.len() {
            if at[i] && same(a, &got[i]) {
                next[i + 1] = true;
            }
        }
        at = next;
    }
    at[got.len()]
}
