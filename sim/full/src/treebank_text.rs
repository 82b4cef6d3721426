//! C07: grammar and lexicon of the treebank format on a faulty disk.
use crate::grammar_text::of_pmcfg;
use crate::lines::{merges, RuleV, Sym};
use crate::picky::{self, Picky};
use crate::text::Text;
use log_domain::LogDomain;
use rustomata::grammars::lcfrs::from_discodop::{DiscoDopGrammar, DiscoLexer};
use rustomata::grammars::lcfrs::Lcfrs;
use rustomata::grammars::pmcfg::VarT;
use simkit::{bail, ensure, ev, world, Check, Sim, Verdict};
use std::collections::BTreeMap;
use std::io::Read;
use std::str::from_utf8;

pub const CHECK: Check = Check {
    id: "C07",
    run,
    quick: 500_000,
    thorough: 30_000_000,
    rule: "A run writes a grammar file of 1-10 lines and mostly a lexicon of 1-8 lines in the treebank format, damages either or both 0-3 times, and has a fresh process read both through short, interrupted or failing reads and turn them into a grammar; rules and relative frequencies are compared with what the surviving lines say. A third of the runs reads the files again with symbols that refuse some tokens: they are refused exactly if they have one.",
    real: &["DiscoDopGrammar, DiscoLexer and the conversion to Lcfrs", "std::fs reading"],
    stub: &["disk, its faults and system calls"],
    assumptions: &["a line counts as undamaged if exactly its bytes survive between line ends"],
    must_reach: &["undamaged text", "damaged text read", "damaged text refused", "lines only lost or moved", "default lexicon", "fractions", "large treebank", "no counts", "read with other types", "symbol refused"],
};

/// What a line says: its rules without final weights, and the counts.
type Entry = (RuleV, f64);

fn count(s: &str) -> Option<f64> {
    let mut parts = s.split('/');
    let num = parts.next()?;
    let den = parts.next();
    if parts.next().is_some() {
        return None;
    }
    let ok = |d: &str| !d.is_empty() && d.bytes().all(|b| b.is_ascii_digit());
    if !ok(num) || !den.map_or(true, ok) {
        return None;
    }
    let n: f64 = num.parse().ok()?;
    Some(match den {
        // there is no such fraction
        Some(d) if d.bytes().all(|b| b == b'0') => return None,
        Some(d) => n / d.parse::<f64>().ok()?,
        None => n,
    })
}

fn fields(s: &str) -> Option<Vec<&str>> {
    // only blanks and tabs separate fields, other white space breaks a line
    let mut v: Vec<&str> = s.split(|c| c == ' ' || c == '\t').collect();
    let first_empty = v.first() == Some(&"");
    v.retain(|f| !f.is_empty());
    if v.iter().any(|f| f.chars().any(char::is_whitespace)) {
        return None;
    }
    if first_empty {
        v.insert(0, "");
    }
    Some(v)
}

fn grammar_line(line: &[u8]) -> Option<Vec<Entry>> {
    let f = fields(from_utf8(line).ok()?.trim_end())?;
    if f.len() < 4 || f.len() > 5 || f[0].is_empty() {
        return None;
    }
    let (tail, y, w) = if f.len() == 5 { (&f[1..3], f[3], f[4]) } else { (&f[1..2], f[2], f[3]) };
    let mut next = [0, 0];
    let mut comp = Vec::new();
    for c in y.split(',') {
        let mut v = Vec::new();
        for d in c.bytes() {
            let i = match d {
                b'0' => 0,
                b'1' => 1,
                _ => return None,
            };
            v.push(Sym::Var(i, next[i]));
            next[i] += 1;
        }
        comp.push(v);
    }
    let r = RuleV {
        head: f[0].into(),
        comp,
        tail: tail.iter().map(|t| t.to_string()).collect(),
        w: 0.0,
    };
    Some(vec![(r, count(w)?)])
}

fn lexicon_line(line: &[u8]) -> Option<Vec<Entry>> {
    let f = fields(from_utf8(line).ok()?.trim_end())?;
    if f.len() < 3 || f.len() % 2 == 0 {
        return None;
    }
    f[1..]
        .chunks(2)
        .map(|p| {
            let r = RuleV {
                head: p[0].into(),
                comp: vec![vec![Sym::T(f[0].into())]],
                tail: vec![],
                w: 0.0,
            };
            Some((r, count(p[1])?))
        })
        .collect()
}

fn sep(sim: &Sim) -> &'static str {
    if sim.flip(6, 7) {
        "\t"
    } else {
        *sim.pick(&[" ", "\t\t", "  "])
    }
}
const NTS: &[&str] = &["ROOT", "S", "NP", "VP", "NP|<DT,NN>", "VP_2", "$.", "S|<NP;VP>", "A", "ü"];
const WORDS: &[&str] = &["the", "dog", "’", "--", "0", "1/2", "#", "%", "bär", "[x]", "a", "\"", "ROOT"];

const CHARS: &str = "ABCabcXYZ019|<>,;:_$.-/()[]'\"%#→ßé日😀";

/// One of some names, or a name nobody thought of.
fn token(sim: &Sim, known: &[&str]) -> String {
    if !sim.flip(1, 10) {
        return sim.pick(known).to_string();
    }
    let chars: Vec<char> = CHARS.chars().collect();
    let n = match sim.below(16) {
        0 => sim.range(9, 300),
        _ => sim.range(1, 8),
    };
    (0..n).map(|_| *sim.pick(&chars)).collect()
}

/// A component that is too long for the grammar's bit masks may be refused.
fn too_long(line: &[u8]) -> bool {
    line.split(|b| !b"01".contains(b)).any(|c| c.len() > 64)
}

fn pseudocount(sim: &Sim) -> String {
    match sim.below(5) {
        0 if sim.flip(1, 12) => format!("0{}", sim.pick(&["", "", "0", "/1", "/7"])),
        0 => {
            sim.probe("fractions");
            format!("{}/{}", 1 + sim.below(20), 1 + sim.below(64))
        }
        1 => format!("{}", 1 + sim.choose(100_000)),
        2 => format!("0{}", 1 + sim.below(9)),
        _ => format!("{}", 1 + sim.below(9)),
    }
}
fn yield_fn(sim: &Sim, binary: bool) -> String {
    let fanout = match sim.below(60) {
        0 => sim.range(6, 20),
        1..=20 => sim.range(2, 5),
        _ => 1,
    };
    let long = sim.flip(1, 40);
    let comps: Vec<String> = (0..fanout)
        .map(|_| {
            let n = if long { sim.range(7, if sim.flip(1, 6) { 70 } else { 64 }) } else { sim.range(1, 4) };
            (0..n).map(|_| if binary && sim.flip(1, 2) { '1' } else { '0' }).collect()
        })
        .collect();
    comps.join(",")
}

struct File {
    text: Text,
    /// per line what it says, and whether it must be found
    entries: Vec<(Entry, bool)>,
    garbage: u32,
    harmed: u32,
}

fn file(sim: &Sim, name: &str, lines: Vec<String>, says: fn(&[u8]) -> Option<Vec<Entry>>) -> File {
    for l in &lines {
        ev!(sim, "{} {:?}", name, l);
    }
    let mut ends = vec!["\n"; lines.len()];
    if sim.flip(1, 2) {
        *ends.last_mut().unwrap() = "";
    }
    let mut text = Text::new(&lines, &ends);
    if sim.flip(1, 2) {
        for _ in 0..sim.range(1, 3) {
            text.damage(sim);
        }
    }
    let mut f = File { entries: Vec::new(), garbage: 0, harmed: 0, text };
    for l in f.text.lines() {
        let s = says(&l.text);
        if l.intact.is_none() || too_long(&l.text) {
            f.harmed += 1;
            ev!(sim, "{}: damaged line {:?} says {:?}", name, String::from_utf8_lossy(&l.text), s);
        }
        match s {
            Some(v) => f.entries.extend(v.into_iter().map(|e| (e, l.intact.is_some() && !too_long(&l.text)))),
            None => f.garbage += 1,
        }
    }
    f
}

fn load(path: &str) -> Result<String, String> {
    let mut s = String::new();
    std::fs::File::open(path)
        .and_then(|mut f| f.read_to_string(&mut s))
        .map_err(|e| format!("reading: {}", e))?;
    Ok(s)
}

fn read(lexicon: bool) -> Result<(String, Vec<RuleV>), String> {
    let g: DiscoDopGrammar<String, (), f64> =
        load("/simfs/gram")?.parse().map_err(|e| format!("grammar: {:?}", e))?;
    let l: Lcfrs<String, String, f64> = if lexicon {
        let lex: DiscoLexer<String, String, f64> =
            load("/simfs/lex")?.parse().map_err(|e| format!("lexicon: {:?}", e))?;
        g.with_lexer(lex).into()
    } else {
        g.with_default_lexer().into()
    };
    let (rules, init) = l.destruct();
    Ok((init, rules.iter().map(of_pmcfg).collect()))
}

type Log = LogDomain<f64>;

fn read_picky(lexicon: bool) -> Result<(String, Vec<RuleV>), String> {
    let g: DiscoDopGrammar<Picky, (), Log> =
        load("/simfs/gram")?.parse().map_err(|e| format!("grammar: {:?}", e))?;
    let l: Lcfrs<Picky, Picky, Log> = if lexicon {
        let lex: DiscoLexer<Picky, Picky, Log> =
            load("/simfs/lex")?.parse().map_err(|e| format!("lexicon: {:?}", e))?;
        g.with_lexer(lex).into()
    } else {
        g.with_default_lexer().into()
    };
    let (rules, init) = l.destruct();
    Ok((
        init.0,
        rules
            .iter()
            .map(|r| RuleV {
                head: r.head.0.clone(),
                comp: r
                    .composition
                    .composition
                    .iter()
                    .map(|c| {
                        c.iter()
                            .map(|x| match x {
                                VarT::Var(i, j) => Sym::Var(*i, *j),
                                VarT::T(t) => Sym::T(t.0.clone()),
                            })
                            .collect()
                    })
                    .collect(),
                tail: r.tail.iter().map(|n| n.0.clone()).collect(),
                w: r.weight.value(),
            })
            .collect(),
    ))
}

/// A treebank grammar is read if and only if its symbols can be; then it is the same.
fn picky(sim: &Sim, disk: BTreeMap<String, Vec<u8>>, lexicon: bool, free: &Result<(String, Vec<RuleV>), String>) -> Verdict {
    let chars: Vec<char> = disk.values().flat_map(|t| String::from_utf8_lossy(t).chars().collect::<Vec<_>>()).filter(|c| !"ROOT".contains(*c)).collect();
    let no = if sim.flip(1, 3) || chars.is_empty() { None } else { Some(*sim.pick(&chars)) };
    let spec = world::Spec { hash_seed: sim.seed(), disk, ..Default::default() };
    sim.step(1, "read with other types");
    let x = world::process(sim, spec, move || {
        picky::refuse(no);
        read_picky(lexicon)
    });
    let got = match x.result {
        Err(p) => bail!("panic", "reading with symbols that have no {:?} panicked: {}", no, p),
        Ok(r) => r,
    };
    let rules = match free {
        Err(_) => {
            ensure!(got.is_err(), "types", "a text is refused with strings and accepted with other symbols and weights");
            return Ok(());
        }
        Ok(x) => &x.1,
    };
    let bad = |s: &String| picky::refused(no, s);
    let expect_err = rules.iter().any(|r| {
        bad(&r.head)
            || r.tail.iter().any(bad)
            || r.comp.iter().flatten().any(|s| match s {
                Sym::Var(..) => false,
                Sym::T(x) | Sym::Nt(x) => bad(x),
            })
    });
    match got {
        Err(e) => {
            ensure!(expect_err, "types", "texts whose symbols have no {:?} are refused: {}", no, e);
            sim.probe("symbol refused");
        }
        Ok((_, gr)) => {
            ensure!(!expect_err, "types", "symbols with {:?} are lost: {:?}", no, gr);
            let key = |r: &RuleV| (r.head.clone(), format!("{:?} {:?}", r.comp, r.tail));
            let close = |a: f64, b: f64| !a.is_finite() || a == 0.0 || !b.is_finite() || (a - b).abs() <= 1e-6 * a.abs();
            let sorted = |v: &[RuleV]| {
                // the default lexicon comes in no order
                let mut v: Vec<(_, f64)> = v.iter().map(|r| (key(r), r.w)).collect();
                if !lexicon {
                    v.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
                }
                v
            };
            let (a, b) = (sorted(rules), sorted(&gr));
            ensure!(a.len() == b.len() && a.iter().zip(&b).all(|(x, y)| x.0 == y.0 && close(x.1, y.1)), "types", "with other types, {:?} instead of {:?}", b, a);
            sim.probe("read with other types");
        }
    }
    Ok(())
}

fn run(sim: &Sim) -> Verdict {
    let large = sim.flip(1, 150);
    sim.probe_if(large, "large treebank");
    let n = if large { sim.range(20, 200) } else { sim.range(1, 10) };
    let gl = (0..n)
        .map(|_| {
            let binary = sim.flip(1, 2);
            let mut s = format!("{}{}{}", token(sim, NTS), sep(sim), token(sim, NTS));
            if binary {
                s = format!("{}{}{}", s, sep(sim), token(sim, NTS));
            }
            format!("{}{}{}{}{}", s, sep(sim), yield_fn(sim, binary), sep(sim), pseudocount(sim))
        })
        .collect();
    let gram = file(sim, "grammar", gl, grammar_line);
    let lexicon = sim.flip(3, 4);
    let lex = if lexicon {
        let n = if large { sim.range(20, 200) } else { sim.range(1, 8) };
        let ll = (0..n)
            .map(|_| {
                let mut s = token(sim, WORDS);
                for _ in 0..sim.range(1, if sim.flip(1, 60) { 40 } else { 3 }) {
                    s = format!("{}{}{}{}{}", s, sep(sim), token(sim, NTS), sep(sim), pseudocount(sim));
                }
                s
            })
            .collect();
        Some(file(sim, "lexicon", ll, lexicon_line))
    } else {
        None
    };

    let mut spec = world::Spec { hash_seed: sim.seed(), ..Default::default() };
    for (name, f) in Some(("/simfs/gram", &gram)).into_iter().chain(lex.as_ref().map(|l| ("/simfs/lex", l))) {
        let bytes = f.text.bytes();
        let mut plan = world::Plan::default();
        if sim.flip(1, 3) {
            plan.chunk = sim.range(1, 40);
            plan.eintr = *sim.pick(&[0, 2, 5]);
        }
        if sim.flip(1, 16) {
            plan.fail_at = Some((sim.below(bytes.len() + 1), 5));
        }
        spec.disk.insert(name.into(), bytes);
        spec.file_plans.insert(name.into(), plan);
    }
    sim.step(0, "read");
    let disk = spec.disk.clone();
    let x = world::process(sim, spec, move || read(lexicon));
    if x.hard == 0 && sim.flip(1, 3) {
        if let Ok(free) = &x.result {
            picky(sim, disk, lexicon, free)?;
        }
    }
    let res = match x.result {
        Err(p) => bail!("panic", "reading panicked: {}", p),
        Ok(r) => r,
    };
    let empty = gram.text.bytes().is_empty() || lex.as_ref().map_or(false, |l| l.text.bytes().is_empty());
    let harmed = gram.harmed + lex.as_ref().map_or(0, |l| l.harmed);
    let damaged = gram.text.damaged || lex.as_ref().map_or(false, |l| l.text.damaged);
    sim.shape(&[gram.entries.len() as u8, harmed as u8]);
    let (init, rules) = match res {
        Err(e) => {
            ev!(sim, "refused: {}", e);
            if x.hard == 0 {
                ensure!(harmed > 0 || empty, "refused", "a text of undamaged lines was refused: {}", e);
                sim.probe("damaged text refused");
            }
            return Ok(());
        }
        Ok(r) => r,
    };
    ensure!(x.hard == 0, "swallowed", "a failing read went unnoticed");
    ensure!(init == "ROOT", "initial", "the initial nonterminal is {:?}", init);
    sim.probe_if(!damaged, "undamaged text");
    sim.probe_if(damaged && harmed > 0, "damaged text read");
    sim.probe_if(damaged && harmed == 0, "lines only lost or moved");
    ev!(sim, "read {} rules", rules.len());

    let mut want = gram.entries;
    let garbage = gram.garbage + lex.as_ref().map_or(0, |l| l.garbage);
    let same = |a: &RuleV, b: &RuleV| a.head == b.head && a.comp == b.comp && a.tail == b.tail;
    let mut got: &[RuleV] = &rules;
    match lex {
        Some(l) => want.extend(l.entries),
        None => {
            sim.probe("default lexicon");
            // rules of the default lexicon come after the others in no order
            let k = rules.iter().take_while(|r| r.comp.iter().flatten().all(|s| matches!(s, Sym::Var(..)))).count();
            let k = if rules[k..].iter().all(|r| r.tail.is_empty()) { k } else { rules.len() };
            let mut lexical: Vec<&RuleV> = rules[k..].iter().collect();
            lexical.sort_by(|a, b| a.head.cmp(&b.head));
            got = &rules[..k];
            let mut leaves: Vec<&String> = got.iter().flat_map(|r| &r.tail).collect();
            leaves.sort();
            leaves.dedup();
            leaves.retain(|l| got.iter().all(|r| r.head != **l));
            let found: Vec<(&String, &Vec<Vec<Sym>>)> = lexical.iter().map(|r| (&r.head, &r.comp)).collect();
            let comps: Vec<Vec<Vec<Sym>>> = leaves.iter().map(|l| vec![vec![Sym::T(l.to_string())]]).collect();
            let expected: Vec<(&String, &Vec<Vec<Sym>>)> = leaves.iter().cloned().zip(&comps).collect();
            ensure!(
                found == expected,
                "default lexicon",
                "symbols only on right-hand sides are {:?}, the default lexicon has {:?}",
                leaves,
                found
            );
            ensure!(
                lexical.iter().all(|r| (r.w - 1.0).abs() < 1e-12),
                "default lexicon",
                "a default entry is not certain: {:?}",
                lexical
            );
        }
    }
    let plain: Vec<(RuleV, bool)> = want.iter().map(|((r, _), m)| (r.clone(), *m)).collect();
    ensure!(
        merges(&plain, got, |a, b| same(a, b)),
        "rules",
        "the lines say the rules {:?} (false: may be missing), the grammar has {:?}",
        plain,
        got
    );
    // relative frequencies
    if got.len() == want.len() {
        let mut totals: BTreeMap<&str, f64> = BTreeMap::new();
        for ((r, c), _) in &want {
            *totals.entry(&r.head).or_insert(0.0) += c;
        }
        for (((r, c), _), g) in want.iter().zip(got) {
            let t = totals[r.head.as_str()];
            let w = c / t;
            if t == 0.0 {
                sim.probe("no counts");
                ensure!(g.w == 0.0, "weights", "{:?} and all others of its nonterminal occur zero times, and its weight is {}", r, g.w);
            }
            if w.is_finite() && t > 0.0 {
                ensure!(
                    (g.w - w).abs() <= 1e-9 * w.abs().max(1e-300),
                    "weights",
                    "the frequency of {:?} is {} of {}, its weight {}",
                    r,
                    c,
                    t,
                    g.w
                );
            }
        }
    } else {
        ensure!(garbage + harmed > 0, "rules", "{} rules from {} entries", got.len(), want.len());
    }
    Ok(())
}
