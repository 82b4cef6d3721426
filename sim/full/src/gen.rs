//! Grammars and the many ways to write them down.
use crate::lines::{RuleV, Sym};
use simkit::Sim;

/// One way of writing, kept for a whole text most of the time.
pub struct Style<'a>(pub &'a Sim);

const PLAIN: &[&str] = &[
    "S", "A", "B", "C", "NP", "VP", "a", "b", "c", "w1", "NP_1", "$.", "VP|<DT>", "x:y", "ß", "日本",
    "'s", "[", "(", "1", "Nt", "T", "Var", "initial:",
    "initial", "final", "Transition", "inf", "nan", "0.5", "Nta", "Tab",
];
const QUOTED: &[&str] = &[
    "S", "A", "B", "a", "b", "c d", "→", "]", "# 0.5", "% no comment", "initial: [X]", "\\\"", "\\\\",
    ",", "A -> B", "-", "(", ")", "NP-SBJ", "’", "x\\\"y\\\\", "#", "%", " ", "é ü",
];

const PLAIN_CHARS: &str = "abcdexyzABCSXYZ0123456789_.:/[({}=+*?!'&|<>@~^`$äßéø日本語ж😀€“’ÆÒВц⇒";
const QUOTED_CHARS: &str = "abxyzAS019 _.:/[](){}=+*?!'&|<>@~^`$-→,;%#äé日’—😀\t\r\u{b}\u{85}\u{2028}\u{feff}\u{1}";

fn long_space(sim: &Sim) -> &'static str {
    const S: &str = "                                                                ";
    const L: [&str; 4] = [S, concat!("        ", "         "), "             ", "     "];
    *sim.pick(&L)
}

/// May this token be written without quotes?
fn plain(v: &str) -> bool {
    !v.is_empty() && v.chars().all(|c| !" \\\"-→,;)]%#".contains(c)) && !v.contains(char::is_whitespace)
}

/// A token nobody thought of.
fn any_token(sim: &Sim) -> Tok {
    let quoted = sim.flip(1, 2);
    let n = match sim.below(20) {
        0 => sim.range(9, 80),
        1 if sim.flip(1, 4) => sim.range(81, 700),
        2 if quoted => 0,
        _ => sim.range(1, 8),
    };
    let chars: Vec<char> = if quoted { QUOTED_CHARS } else { PLAIN_CHARS }.chars().collect();
    let mut v = String::new();
    for _ in 0..n {
        match *sim.pick(&chars) {
            _ if quoted && sim.flip(1, 12) => v.push_str(*sim.pick(&["\\\\", "\\\""])),
            c => v.push(c),
        }
    }
    let written = if quoted { format!("\"{}\"", v) } else { v.clone() };
    Tok { value: v, written }
}

/// A token and a way to write it.
#[derive(Clone, Debug)]
pub struct Tok {
    pub value: String,
    pub written: String,
}

impl<'a> Style<'a> {
    fn sp(&self) -> &'static str {
        if self.0.flip(4, 5) {
            " "
        } else if self.0.flip(1, 200) {
            long_space(self.0)
        } else {
            *self.0.pick(&["  ", "   "])
        }
    }
    /// optional white space after a delimiter
    fn osp(&self) -> &'static str {
        if self.0.flip(5, 6) {
            ""
        } else {
            *self.0.pick(&[" ", "\t", "  "])
        }
    }
    pub fn tok(&self) -> Tok {
        let sim = self.0;
        if sim.flip(1, 8) {
            return any_token(sim);
        }
        if sim.flip(1, 3) {
            let v = *sim.pick(QUOTED);
            Tok { value: v.into(), written: format!("\"{}\"", v) }
        } else {
            let v = *sim.pick(PLAIN);
            Tok { value: v.into(), written: v.into() }
        }
    }
    /// some writing of a token with this value
    pub fn write(&self, v: &str) -> String {
        if plain(v) && !self.0.flip(1, 4) {
            v.into()
        } else {
            format!("\"{}\"", v)
        }
    }
    pub fn list(&self, open: &str, items: &[String], close: &str) -> String {
        let sim = self.0;
        let mut s = String::from(open);
        s.push_str(self.osp());
        for (i, it) in items.iter().enumerate() {
            if i > 0 {
                let before = items[i - 1].as_bytes().last().cloned();
                let delimited = before == Some(b'"') || before == Some(b']');
                s.push_str(match sim.below(8) {
                    1 => ",",
                    2 => " ",
                    3 => " , ",
                    4 => ",\t",
                    5 if delimited => "",
                    6 if delimited => "\t,",
                    _ => ", ",
                });
            }
            s.push_str(it);
        }
        let delimited = items.last().map_or(true, |l| l.ends_with('"') || l.ends_with(']'));
        if sim.flip(1, 8) {
            s.push_str(if delimited { "\t" } else { " " });
        }
        s.push_str(close);
        s
    }
    pub fn weight(&self) -> (f64, String) {
        let sim = self.0;
        let s = match sim.below(9) {
            7 => sim.pick(&["1E-3", "+0.25", "1e300", "5e-324", "00.5", "1000000", "-0.5", "123.456e-2", "0.1", "1e0", "0.30000000000000004", "1e-9"]).to_string(),
            0 => "0.5".to_string(),
            1 => "1".to_string(),
            2 => format!("0.{}", 1 + sim.below(999_999)),
            3 => format!("{}e-{}", 1 + sim.below(9), 1 + sim.below(9)),
            4 => format!(".{}", 1 + sim.below(99)),
            5 => format!("{}.", 1 + sim.below(99)),
            6 => "0".to_string(),
            _ => format!("0.{:017}", 1 + sim.choose(99_999_999_999_999_999)),
        };
        (s.parse().unwrap(), s)
    }
    /// The end of a rule: weight and comment.
    pub fn end(&self) -> (f64, String) {
        let sim = self.0;
        let mut s = String::new();
        let mut w = 1.0;
        if sim.flip(2, 3) {
            let (v, t) = self.weight();
            w = v;
            s = format!("{}#{}{}", *sim.pick(&[" ", "", "  ", "\t"]), *sim.pick(&[" ", "", "\t "]), t);
        }
        if sim.flip(1, 5) {
            s.push_str(&format!(" {}", self.comment()));
        } else if sim.flip(1, 8) {
            s.push_str(*sim.pick(&[" ", "\t", "   "]));
        }
        (w, s)
    }
    pub fn comment(&self) -> String {
        if self.0.flip(1, 100) {
            let word = *self.0.pick(&["x", "long comment ", "→ ", "# 0.5 ", "\"", "[[T a]] ", "%"]);
            return format!("%{}", word.repeat(self.0.range(10, 2000)));
        }
        self.0
            .pick(&[
                "% a comment",
                "%",
                "%%",
                "% # 0.3",
                "% initial: [Q]",
                "%S → [T a] # 0.1",
                "% \"",
                "% S → [[T a]] () # 0.5",
                "% ü → ’",
            ])
            .to_string()
    }
    fn arrow(&self, after: &str) -> String {
        let sim = self.0;
        let a = *sim.pick(&["→", "->", "=>"]);
        let before = if after.ends_with('"') || a != "=>" {
            *sim.pick(&[" ", "", "  "])
        } else {
            *sim.pick(&[" ", "  "])
        };
        format!("{}{}{}", before, a, *sim.pick(&[" ", "", "\t"]))
    }
    fn sym(&self, s: &Sym) -> String {
        let sim = self.0;
        match s {
            Sym::Var(i, j) => {
                let zeros = || if sim.flip(1, 60) { *sim.pick(&["0", "00", "0000000000"]) } else { "" };
                format!("Var{}{}{}{}{}{}", self.sp(), zeros(), i, self.sp(), zeros(), j)
            }
            Sym::T(v) => {
                let w = self.write(v);
                let gap = if sim.flip(1, 10) && w.starts_with('"') { "" } else { self.sp() };
                format!("T{}{}", gap, w)
            }
            Sym::Nt(v) => {
                let w = self.write(v);
                let gap = if sim.flip(1, 10) && w.starts_with('"') { "" } else { self.sp() };
                format!("Nt{}{}", gap, w)
            }
        }
    }
    pub fn rule(&self, r: &mut RuleV, cfg: bool) -> String {
        let mut head = self.write(&r.head);
        if head.starts_with("initial:") {
            head = format!("\"{}\"", head);
        }
        let mut s = format!("{}{}", head, self.arrow(&head));
        let comps: Vec<String> = r
            .comp
            .iter()
            .map(|c| {
                let items: Vec<String> = c.iter().map(|x| self.sym(x)).collect();
                self.list("[", &items, "]")
            })
            .collect();
        if cfg {
            s.push_str(&comps[0]);
        } else {
            s.push_str(&self.list("[", &comps, "]"));
            s.push_str(*self.0.pick(&[" ", "", "  "]));
            let tail: Vec<String> = r.tail.iter().map(|t| self.write(t)).collect();
            s.push_str(&self.list("(", &tail, ")"));
        }
        let (w, e) = self.end();
        r.w = w;
        s.push_str(&e);
        if self.0.flip(1, 10) {
            s = format!("{}{}", *self.0.pick(&[" ", "\t", "   "]), s);
        }
        s
    }
    pub fn initials(&self, v: &[String]) -> String {
        let items: Vec<String> = v.iter().map(|t| self.write(t)).collect();
        format!(
            "initial:{}{}{}",
            *self.0.pick(&[" ", "", "  "]),
            self.list("[", &items, "]"),
            *self.0.pick(&["", "", "", " ", " % comment"])
        )
    }
}

/// Free-form rules: any tokens, any shape.
pub fn cfg_rule(sim: &Sim) -> RuleV {
    let st = Style(sim);
    let n = match sim.below(400) {
        0 => sim.range(80, 400),
        1..=9 => sim.range(5, 80),
        _ => sim.below(5),
    };
    let comp = (0..n)
        .map(|_| if sim.flip(1, 2) { Sym::T(st.tok().value) } else { Sym::Nt(st.tok().value) })
        .collect();
    RuleV { head: st.tok().value, comp: vec![comp], tail: vec![], w: 1.0 }
}
pub fn pmcfg_rule(sim: &Sim) -> RuleV {
    let st = Style(sim);
    let big = sim.flip(1, 40);
    let few = |sim: &Sim| if big && sim.flip(1, 2) { sim.below(24) } else { sim.below(4) };
    let k = if big && sim.flip(1, 6) { sim.range(24, 400) } else { few(sim) };
    let comp = (0..few(sim))
        .map(|_| {
            (0..few(sim))
                .map(|_| {
                    if k > 0 && sim.flip(1, 2) {
                        Sym::Var(if sim.flip(1, 8) { k - 1 } else { sim.below(k) }, if sim.flip(1, 40) { *sim.pick(&[255, 256, 1000, 65_536, 1 << 32, usize::MAX]) } else { sim.below(3) })
                    } else {
                        Sym::T(st.tok().value)
                    }
                })
                .collect()
        })
        .collect();
    RuleV { head: st.tok().value, comp, tail: (0..k).map(|_| st.tok().value).collect(), w: 1.0 }
}
