//! C08: texts of automata and of equivalence classes on a faulty disk.
use crate::gen::Style;
use crate::lines::{merges, Cur};
use crate::picky::{self, Picky};
use crate::text::Text;
use log_domain::LogDomain;
use rustomata::approximation::equivalence_classes::{EquivalenceClass, EquivalenceRelation};
use rustomata::automata::finite_state_automaton::FiniteStateAutomaton;
use rustomata::automata::tree_stack_automaton::{TreeStack, TreeStackAutomaton};
use rustomata::recognisable::automaton::Automaton;
use rustomata::recognisable::{Configuration, Item};
use rustomata::util::push_down::Pushdown;
use simkit::{bail, ensure, ev, world, Check, Sim, Verdict};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::{Debug, Display};
use std::hash::Hash;
use std::io::Read;
use std::str::{from_utf8, FromStr};

pub const CHECK: Check = Check {
    id: "C08",
    run: |sim| match sim.below(4) {
        0 => automaton(sim, true),
        1 => automaton(sim, false),
        2 => classes(sim),
        _ => sets(sim),
    },
    quick: 500_000,
    thorough: 30_000_000,
    rule: "A run writes a tree-stack automaton, a finite-state automaton or a file of equivalence classes (0-10 lines, many spellings) to the simulated disk, damages it 0-4 times, has a fresh process with its own hash seed read it through short, interrupted or failing reads, and compares with what the surviving lines say; a quarter of the automata is read again with symbols that refuse some tokens; or it builds equivalence relations from sets in processes with different hash seeds.",
    real: &["TreeStackAutomaton::from_str, FiniteStateAutomaton::from_str, Transition::from_str", "EquivalenceRelation, EquivalenceClass", "std::fs reading"],
    stub: &["disk, its faults and system calls", "integeriser crate (re-implemented, the original is not available offline)"],
    assumptions: &["a line counts as undamaged if exactly its bytes survive between line ends"],
    must_reach: &["many lines", "undamaged text", "damaged text read", "damaged text refused", "lines only lost or moved", "a class in several lines", "overlapping classes refused", "overlapping sets refused", "two defaults refused", "read with other types", "symbol refused", "built from classes"],
};

type W = LogDomain<f64>;
/// word, instruction, weight
type Trans = (Vec<String>, Vec<String>, W);

#[derive(Clone, Debug)]
enum Says {
    Nothing,
    Initial(String),
    Finals(Vec<String>),
    Trans(Trans),
    Garbage,
}

fn line(tsa: bool, line: &[u8]) -> Says {
    let l = match from_utf8(line) {
        Ok(l) => l.trim_start(),
        Err(_) => return Says::Garbage,
    };
    let mut c = Cur(l.as_bytes());
    if c.tag("initial:").is_some() {
        c.space();
        return c.token().map_or(Says::Garbage, Says::Initial);
    }
    if !tsa && c.tag("final:").is_some() {
        c.space();
        return c.list("[", "]", |c| c.token()).map_or(Says::Garbage, Says::Finals);
    }
    if l.is_empty() || l.starts_with('%') {
        return Says::Nothing;
    }
    c = Cur(l.trim_end().as_bytes());
    let t = (|| {
        c.tag("Transition")?;
        c.space();
        let word = c.list("[", "]", |c| c.token())?;
        c.space();
        c.tag("(")?;
        let n = c.0.iter().position(|&b| b == b')')?;
        let ins: Vec<String> = from_utf8(&c.0[..n]).ok()?.split_whitespace().map(String::from).collect();
        c.0 = &c.0[n + 1..];
        let num = |s: &String| s.parse::<usize>().is_ok();
        let ok = if tsa {
            match ins.first().map(|s| s.as_str()) {
                Some("Up") => ins.len() == 5 && num(&ins[1]),
                Some("Push") => ins.len() == 4 && num(&ins[1]),
                Some("Down") => ins.len() == 4,
                _ => false,
            }
        } else {
            ins.len() == 3 && (ins[1] == "->" || ins[1] == "→")
        };
        if !ok {
            return None;
        }
        let mut ins = ins;
        if !tsa {
            ins.remove(1);
        } else if ins[0] != "Down" {
            ins[1] = ins[1].parse::<usize>().unwrap().to_string();
        }
        c.space();
        let mut w: W = LogDomain::new(1.0).ok()?;
        if c.tag("#").is_some() {
            c.space();
            let n = c.0.iter().position(|&b| b == b' ').unwrap_or_else(|| c.0.len());
            w = from_utf8(&c.0[..n]).ok()?.parse().ok()?;
            c.0 = &c.0[n..];
        }
        c.space();
        if c.0.is_empty() || c.0[0] == b'%' {
            Some((word, ins, w))
        } else {
            None
        }
    })();
    t.map_or(Says::Garbage, Says::Trans)
}

/// initial, finals, transitions
type Read1 = (String, Vec<String>, Vec<Trans>);

fn load(path: &str) -> Result<String, String> {
    let mut s = String::new();
    std::fs::File::open(path)
        .and_then(|mut f| f.read_to_string(&mut s))
        .map_err(|e| format!("reading: {}", e))?;
    Ok(s)
}

fn words(ins: String) -> Vec<String> {
    let inner = match (ins.strip_prefix('('), ins.ends_with(')')) {
        (Some(i), true) => &i[..i.len() - 1],
        _ => &ins[..],
    };
    inner.split_whitespace().map(String::from).collect()
}

fn read_automaton<S>(tsa: bool) -> Result<Read1, String>
where
    S: FromStr + Display + Debug + Clone + Ord + Hash,
    S::Err: Debug,
{
    let s = load("/simfs/a")?;
    let word = |w: Vec<S>| w.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    if tsa {
        let a: TreeStackAutomaton<S, S, W> = s.parse()?;
        let ts = a.list_transitions().map(|t| (word(t.word), words(t.instruction.to_string()), t.weight)).collect();
        let init: TreeStack<S> = a.initial();
        let shown = a.to_string();
        if !shown.starts_with(&format!("initial: {}\n\n", init.current_symbol())) {
            panic!("the automaton that starts in {:?} is printed as {:?}", init.current_symbol(), shown);
        }
        Ok((init.current_symbol().to_string(), vec![], ts))
    } else {
        let a: FiniteStateAutomaton<S, S, W> = s.parse()?;
        let ts = a
            .list_transitions()
            .map(|t| {
                let shown = t.instruction.to_string();
                let mut ins: Vec<String> = shown.split_whitespace().map(String::from).collect();
                ins.remove(1);
                (word(t.word), ins, t.weight)
            })
            .collect();
        let mut fin = Vec::new();
        for i in 0..200 {
            let c = Configuration { word: vec![], storage: i, weight: LogDomain::new(1.0).unwrap() };
            if a.is_terminal(&c) {
                fin.push(a.item_map(&Item(c, Pushdown::new())).0.storage.to_string());
            }
        }
        let init = a.initial().to_string();
        shows(&a.to_string(), &init, &fin);
        Ok((init, fin, ts))
    }
}

/// An automaton is read if and only if its symbols can be; then it is the same.
fn picky(sim: &Sim, text: Vec<u8>, tsa: bool, free: &Result<Read1, String>) -> Verdict {
    // characters of symbols only
    let chars: Vec<char> = String::from_utf8_lossy(&text).chars().filter(|c| c.is_alphabetic() && !c.is_ascii_lowercase() && !"UPD".contains(*c)).collect();
    let no = if sim.flip(1, 3) || chars.is_empty() { None } else { Some(*sim.pick(&chars)) };
    let mut spec = world::Spec { hash_seed: sim.seed(), ..Default::default() };
    spec.disk.insert("/simfs/a".into(), text);
    sim.step(1, "read with other types");
    let x = world::process(sim, spec, move || {
        picky::refuse(no);
        read_automaton::<Picky>(tsa)
    });
    let got = match x.result {
        Err(p) => bail!("panic", "reading with symbols that have no {:?} panicked: {}", no, p),
        Ok(r) => r,
    };
    let (init, fin, ts) = match free {
        Err(_) => {
            ensure!(got.is_err(), "types", "a text is refused with strings and accepted with other symbols");
            return Ok(());
        }
        Ok(x) => x,
    };
    let bad = |s: &String| picky::refused(no, s);
    let expect_err = bad(init) || fin.iter().any(bad) || ts.iter().any(|t| t.0.iter().any(bad) || t.1.iter().any(bad));
    match got {
        // declarations that others replace may be refused
        Err(e) => {
            ensure!(expect_err || no.is_some(), "types", "a text is refused with other symbols: {}", e);
            sim.probe("symbol refused");
        }
        Ok((i, f, t)) => {
            ensure!(!expect_err, "types", "symbols with {:?} are lost: {:?} {:?} {:?}", no, i, f, t);
            let order = |v: &[Trans]| {
                let mut v = v.to_vec();
                v.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
                v
            };
            ensure!(i == *init && sorted(f) == sorted(fin.clone()) && order(&t) == order(ts), "types", "other types give another automaton");
            sim.probe("read with other types");
        }
    }
    Ok(())
}

/// The head of a printed finite-state automaton names its initial and final states, these in any order.
fn shows(shown: &str, init: &str, fin: &[String]) {
    let head = format!("initial: {}\nfinal: [", init);
    let quoted: Vec<String> = fin.iter().map(|q| format!("\"{}\"", q)).collect();
    let n = quoted.join(", ").len();
    let ok = shown.starts_with(&head)
        && shown.get(head.len()..head.len() + n).map_or(false, |l| quoted.iter().all(|q| l.contains(q.as_str())))
        && shown[head.len() + n..].starts_with("]\n\n");
    if !ok {
        panic!("the automaton that starts in {:?} and ends in {:?} is printed as {:?}", init, fin, shown);
    }
}

fn sorted(mut v: Vec<String>) -> Vec<String> {
    v.sort();
    v.dedup();
    v
}

const LABELS: &[&str] = &["q0", "q1", "@", "A", "B", "1", "x,y", "⊥", "S|<a>", "[q,0]"];

fn automaton(sim: &Sim, tsa: bool) -> Verdict {
    let st = Style(sim);
    let n = if sim.flip(1, 150) { sim.range(20, 200) } else { sim.range(2, 10) };
    sim.probe_if(n > 10, "many lines");
    let mut written = Vec::new();
    let mut says = Vec::new();
    let (at_i, at_f) = (sim.below(n), sim.below(n));
    for i in 0..n {
        if i == at_i && !sim.flip(1, 15) {
            let t = st.tok();
            let lead = *sim.pick(&["", "", " ", "\t"]);
            written.push(format!(
                "{}initial:{}{}{}",
                lead,
                *sim.pick(&[" ", "", "  "]),
                t.written,
                *sim.pick(&["", "", " ", " % comment"])
            ));
            says.push(Says::Initial(t.value));
        }
        if !tsa && i == at_f && !sim.flip(1, 15) {
            let ts: Vec<_> = (0..sim.range(1, if sim.flip(1, 40) { 40 } else { 3 })).map(|_| st.tok()).collect();
            let items: Vec<String> = ts.iter().map(|t| t.written.clone()).collect();
            let lead = *sim.pick(&["", "", " ", "\t"]);
            written.push(format!("{}final: {}{}", lead, st.list("[", &items, "]"), *sim.pick(&["", " % c"])));
            says.push(Says::Finals(ts.into_iter().map(|t| t.value).collect()));
        }
        match sim.below(8) {
            0 => {
                written.push(sim.pick(&["", " ", "\t"]).to_string());
                says.push(Says::Nothing);
            }
            1 => {
                written.push(format!("{}{}", *sim.pick(&["", " "]), st.comment()));
                says.push(Says::Nothing);
            }
            _ => {
                let toks: Vec<_> = (0..if sim.flip(1, 60) { sim.below(40) } else { sim.below(3) }).map(|_| st.tok()).collect();
                let items: Vec<String> = toks.iter().map(|t| t.written.clone()).collect();
                let l = |sim: &Sim| {
                    if !sim.flip(1, 8) {
                        return sim.pick(LABELS).to_string();
                    }
                    let chars: Vec<char> = "abAB01#%(→-[],;\"\\:{}_é日".chars().collect();
                    let n = if sim.flip(1, 10) { sim.range(6, 60) } else { sim.range(1, 5) };
                    (0..n).map(|_| *sim.pick(&chars)).collect()
                };
                let num = |sim: &Sim| if sim.flip(1, 30) { *sim.pick(&[300, 70_000, 1 << 32, usize::MAX]) } else { sim.below(12) };
                let ins: Vec<String> = if tsa {
                    match sim.below(3) {
                        0 => vec!["Up".into(), num(sim).to_string(), l(sim), l(sim), l(sim)],
                        1 => vec!["Push".into(), num(sim).to_string(), l(sim), l(sim)],
                        _ => vec!["Down".into(), l(sim), l(sim), l(sim)],
                    }
                } else {
                    vec![l(sim), l(sim)]
                };
                let shown = if tsa {
                    ins.join(*sim.pick(&[" ", "  ", "\t"]))
                } else {
                    format!("{} {} {}", ins[0], *sim.pick(&["→", "->"]), ins[1])
                };
                let (w, e) = loop {
                    let (w, e) = st.end();
                    // a probability
                    if w >= 0.0 {
                        break (w, e);
                    }
                };
                written.push(format!(
                    "{}Transition{}{}{}({}){}",
                    *sim.pick(&["", "", " "]),
                    *sim.pick(&[" ", "", "\t"]),
                    st.list("[", &items, "]"),
                    *sim.pick(&[" ", "", "  "]),
                    shown,
                    e
                ));
                says.push(Says::Trans((
                    toks.into_iter().map(|t| t.value).collect(),
                    ins,
                    LogDomain::new(w).unwrap(),
                )));
            }
        }
    }
    for l in &written {
        ev!(sim, "line {:?}", l);
    }
    let mut ends = vec![if sim.flip(1, 8) { "\r\n" } else { "\n" }; written.len()];
    if sim.flip(1, 3) {
        *ends.last_mut().unwrap() = "";
    }
    let mut t = Text::new(&written, &ends);
    if sim.flip(2, 3) {
        for _ in 0..sim.range(1, 4) {
            t.damage(sim);
        }
    }
    let mut initials: Vec<(String, bool)> = Vec::new();
    let mut finals: Vec<(Vec<String>, bool)> = Vec::new();
    let mut trans: Vec<(Trans, bool)> = Vec::new();
    let mut harmed = 0;
    for l in t.lines() {
        let (s, must) = match l.intact {
            Some(i) => (says[i].clone(), true),
            None => {
                let s = line(tsa, &l.text);
                if !l.text.is_empty() {
                    harmed += 1;
                    ev!(sim, "damaged line {:?} says {:?}", String::from_utf8_lossy(&l.text), s);
                }
                (s, false)
            }
        };
        match s {
            Says::Initial(x) => initials.push((x, must)),
            Says::Finals(v) => finals.push((sorted(v), must)),
            Says::Trans(x) => trans.push((x, must)),
            Says::Nothing | Says::Garbage => (),
        }
    }
    sim.shape(&[trans.len() as u8, harmed as u8, tsa as u8]);
    let (res, hard) = process(sim, "/simfs/a", t.bytes(), move || read_automaton::<String>(tsa))?;
    if hard == 0 && sim.flip(1, 4) {
        picky(sim, t.bytes(), tsa, &res)?;
    }
    let (init, fin, got) = match res {
        Err(e) => {
            ev!(sim, "refused: {}", e);
            if hard == 0 {
                let complete = !initials.is_empty() && (tsa || finals.iter().any(|f| !f.0.is_empty()));
                ensure!(harmed > 0 || !complete, "refused", "a text of undamaged lines was refused: {}", e);
                sim.probe_if(harmed > 0, "damaged text refused");
            }
            return Ok(());
        }
        Ok(x) => x,
    };
    ensure!(hard == 0, "swallowed", "a failing read went unnoticed");
    sim.probe_if(!t.damaged, "undamaged text");
    sim.probe_if(t.damaged && harmed > 0, "damaged text read");
    sim.probe_if(t.damaged && harmed == 0, "lines only lost or moved");
    ev!(sim, "read {} {:?} {} transitions", init, fin, got.len());
    ensure!(
        initials.iter().any(|i| i.0 == init) && (harmed > 0 || initials.iter().all(|i| i.0 == init)),
        "initial",
        "the lines say {:?}, the automaton starts in {:?}",
        initials,
        init
    );
    if !tsa {
        let fin = sorted(fin);
        ensure!(
            finals.iter().any(|f| f.0 == fin) && (harmed > 0 || finals.iter().all(|f| f.0 == fin)),
            "final",
            "the lines say {:?}, the automaton ends in {:?}",
            finals,
            fin
        );
    }
    // transitions have no order
    trans.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let mut got = got;
    got.sort_by(|a, b| a.partial_cmp(b).unwrap());
    ensure!(
        merges(&trans, &got, |a, b| a == b),
        "transitions",
        "the lines say {:?} (false: may be missing), the automaton has {:?}",
        trans,
        got
    );
    Ok(())
}

fn process<T: Send>(
    sim: &Sim,
    path: &str,
    text: Vec<u8>,
    f: impl FnOnce() -> Result<T, String> + Send,
) -> Result<(Result<T, String>, u32), simkit::Violation> {
    let mut spec = world::Spec { hash_seed: sim.seed(), ..Default::default() };
    let mut plan = world::Plan::default();
    if sim.flip(1, 3) {
        plan.chunk = sim.range(1, 40);
        plan.eintr = *sim.pick(&[0, 2, 5]);
    }
    if sim.flip(1, 16) {
        plan.fail_at = Some((sim.below(text.len() + 1), 5));
    }
    spec.disk.insert(path.into(), text);
    spec.file_plans.insert(path.into(), plan);
    sim.step(0, "read");
    let x = world::process(sim, spec, f);
    match x.result {
        Err(p) => bail!("panic", "reading the text panicked: {}", p),
        Ok(r) => Ok((r, x.hard)),
    }
}

#[derive(Clone, Debug)]
enum Class {
    Default(String),
    Set(String, Vec<String>),
}

fn class_line(line: &[u8]) -> Option<Option<Class>> {
    let l = from_utf8(line).ok()?.trim();
    if l.is_empty() {
        return Some(None);
    }
    let mut c = Cur(l.as_bytes());
    let label = c.token()?;
    c.space();
    let s = if c.tag("*").is_some() {
        Class::Default(label)
    } else {
        Class::Set(label, c.list("[", "]", |c| c.token())?)
    };
    c.space();
    if c.0.is_empty() || c.0[0] == b'%' {
        Some(Some(s))
    } else {
        None
    }
}

/// The relation that these classes describe, if they describe one.
fn relation(cs: &[Class]) -> Option<(BTreeMap<String, String>, String)> {
    let mut map = BTreeMap::new();
    let mut default: Option<String> = None;
    for c in cs {
        match c {
            Class::Default(l) => {
                if default.as_ref().map_or(false, |d| d != l) {
                    return None;
                }
                default = Some(l.clone());
            }
            Class::Set(l, v) => {
                for x in v {
                    if map.insert(x.clone(), l.clone()).map_or(false, |o| o != *l) {
                        return None;
                    }
                }
            }
        }
    }
    let d = default?;
    if cs.iter().any(|c| matches!(c, Class::Set(l, _) if *l == d)) {
        return None;
    }
    Some((map, d))
}

fn classes(sim: &Sim) -> Verdict {
    let st = Style(sim);
    let n = if sim.flip(1, 150) { sim.range(10, 80) } else { sim.range(1, 6) };
    sim.probe_if(n > 6, "many lines");
    let mut says: Vec<Option<Class>> = Vec::new();
    let mut written: Vec<String> = Vec::new();
    let mut used: BTreeSet<String> = BTreeSet::new();
    let mut labels: Vec<String> = Vec::new();
    let at = if sim.flip(1, 15) { n + 1 } else { sim.below(n + 1) };
    let careful = sim.flip(4, 5);
    for i in 0..=n {
        if i == at || (!careful && sim.flip(1, 8)) {
            let mut l = st.tok();
            while careful && labels.contains(&l.value) {
                l = st.tok();
                if sim.flip(1, 4) {
                    l.value = format!("{}'", l.value);
                    l.written = format!("\"{}\"", l.value);
                }
            }
            labels.push(l.value.clone());
            written.push(format!("{}{}*{}", l.written, *sim.pick(&[" ", "  "]), *sim.pick(&["", "", " "])));
            says.push(Some(Class::Default(l.value)));
        } else if sim.flip(1, 8) {
            written.push(sim.pick(&["", " ", "\t"]).to_string());
            says.push(None);
        } else {
            let mut l = st.tok();
            let default = says.iter().flatten().find_map(|c| match c {
                Class::Default(d) => Some(d.clone()),
                _ => None,
            });
            if careful && default.as_ref() == Some(&l.value) {
                l.value = format!("{}''", l.value);
                l.written = format!("\"{}\"", l.value);
            }
            labels.push(l.value.clone());
            let mut items = Vec::new();
            let mut members = Vec::new();
            for _ in 0..if sim.flip(1, 60) { sim.below(60) } else { sim.below(5) } {
                let t = st.tok();
                if careful && used.contains(&t.value) && !members.contains(&t.value) {
                    continue;
                }
                used.insert(t.value.clone());
                items.push(t.written);
                members.push(t.value);
            }
            let gap = if l.written.ends_with('"') { *sim.pick(&[" ", "", "\t"]) } else { " " };
            written.push(format!(
                "{}{}{}{}",
                l.written,
                gap,
                st.list("[", &items, "]"),
                *sim.pick(&["", "", "", " "])
            ));
            says.push(Some(Class::Set(l.value, members)));
        }
    }
    for l in &written {
        ev!(sim, "line {:?}", l);
    }
    let mut ends = vec![if sim.flip(1, 8) { "\r\n" } else { "\n" }; written.len()];
    if sim.flip(1, 3) {
        *ends.last_mut().unwrap() = "";
    }
    let mut t = Text::new(&written, &ends);
    if sim.flip(1, 2) {
        for _ in 0..sim.range(1, 3) {
            t.damage(sim);
        }
    }
    let mut must = Vec::new();
    let mut may = Vec::new();
    let mut harmed = 0;
    let mut garbage = 0;
    for l in t.lines() {
        match l.intact {
            Some(i) => must.extend(says[i].clone()),
            None => {
                if !l.text.is_empty() {
                    harmed += 1;
                }
                let said = class_line(&l.text);
                ev!(sim, "damaged line {:?} says {:?}", String::from_utf8_lossy(&l.text), said);
                match said {
                    Some(c) => may.extend(c),
                    None => garbage += 1,
                }
            }
        }
    }
    let probes: Vec<String> = must
        .iter()
        .chain(&may)
        .flat_map(|c| match c {
            Class::Set(_, v) => v.clone(),
            _ => vec![],
        })
        .chain(vec!["?".to_string(), "a".to_string(), "zz".to_string()])
        .collect();
    let probes2 = probes.clone();
    sim.shape(&[must.len() as u8, harmed as u8, 9]);
    let (res, hard) = process(sim, "/simfs/c", t.bytes(), move || {
        let r: EquivalenceRelation<String, String> = load("/simfs/c")?.parse()?;
        let r2 = r.clone();
        let once: Vec<String> = probes2.iter().map(|p| r.project(p)).collect();
        let twice: Vec<String> = probes2.iter().rev().map(|p| r2.project(p)).collect();
        if once.iter().rev().ne(twice.iter()) {
            return Err("UNSTABLE".into());
        }
        Ok(once)
    })?;
    let all: Vec<Class> = must.iter().chain(&may).cloned().collect();
    let wanted = relation(&all);
    match res {
        Err(e) => {
            ev!(sim, "refused: {}", e);
            ensure!(e != "UNSTABLE", "unstable", "asking again gives another class");
            if hard == 0 {
                ensure!(
                    harmed > 0 || wanted.is_none(),
                    "refused",
                    "a text of undamaged lines was refused: {}",
                    e
                );
                sim.probe_if(harmed > 0, "damaged text refused");
                if harmed == 0 {
                    let defaults: BTreeSet<_> =
                        all.iter().filter_map(|c| if let Class::Default(l) = c { Some(l) } else { None }).collect();
                    sim.probe_if(defaults.len() > 1, "two defaults refused");
                    sim.probe_if(defaults.len() == 1, "overlapping classes refused");
                }
            }
            Ok(())
        }
        Ok(got) => {
            ensure!(hard == 0, "swallowed", "a failing read went unnoticed");
            sim.probe_if(!t.damaged, "undamaged text");
            sim.probe_if(t.damaged && harmed > 0, "damaged text read");
            sim.probe_if(t.damaged && harmed == 0, "lines only lost or moved");
            let (map, default) = match wanted {
                Some(x) => x,
                None => {
                    // only damaged lines may have been left out
                    ensure!(harmed > 0, "contradiction", "classes that contradict each other were accepted: {:?}", all);
                    ensure!(garbage > 0, "contradiction", "classes that contradict each other were accepted: {:?}", all);
                    return Ok(());
                }
            };
            let mut ls: Vec<&String> = must
                .iter()
                .filter_map(|c| if let Class::Set(l, v) = c { Some((l, v)) } else { None })
                .filter(|x| !x.1.is_empty())
                .map(|x| x.0)
                .collect();
            let k = ls.len();
            ls.sort();
            ls.dedup();
            sim.probe_if(ls.len() < k, "a class in several lines");
            for (p, g) in probes.iter().zip(&got) {
                let w = map.get(p).unwrap_or(&default);
                ensure!(w == g, "class", "the lines {:?} put {:?} into {:?}, not {:?}", all, p, w, g);
            }
            Ok(())
        }
    }
}

/// Relations built from sets, in two processes.
fn sets(sim: &Sim) -> Verdict {
    let n = sim.below(4);
    let default = sim.below(5) as u32;
    let mut cs: BTreeMap<u32, BTreeSet<u32>> = BTreeMap::new();
    let universe = if sim.flip(1, 2) { 6 } else { 40 };
    for _ in 0..n {
        let l = sim.below(5) as u32;
        let set: BTreeSet<u32> = (0..sim.below(4)).map(|_| sim.below(universe) as u32).collect();
        cs.insert(l, set);
    }
    ev!(sim, "sets {:?} default {}", cs, default);
    let members: usize = cs.values().map(|s| s.len()).sum();
    let union: BTreeSet<u32> = cs.values().flatten().cloned().collect();
    let fine = members == union.len() && !cs.contains_key(&default);
    for p in 0..2 {
        sim.step(p, "build");
        let cs2 = cs.clone();
        let way = if fine { sim.below(3) } else { 0 };
        let mut order: Vec<Option<u32>> = cs.keys().map(|l| Some(*l)).collect();
        order.push(None);
        sim.shuffle(&mut order);
        let moved = if union.is_empty() { None } else { Some(*sim.pick(&union.iter().cloned().collect::<Vec<_>>())) };
        sim.probe_if(way == 2, "built from classes");
        let r = world::task(sim, sim.seed(), move || {
            let map = |but: Option<u32>| -> HashMap<u32, HashSet<u32>> {
                cs2.iter().map(|(l, s)| (*l, s.iter().cloned().filter(|x| Some(*x) != but).collect())).collect()
            };
            let r = match way {
                0 => EquivalenceRelation::new_safe(map(None), default)?,
                1 => EquivalenceRelation::new(map(None), default),
                _ => EquivalenceRelation::from(
                    order
                        .iter()
                        .map(|l| match l {
                            Some(l) => EquivalenceClass::from((*l, Some(cs2[l].iter().cloned().collect()))),
                            None => EquivalenceClass::from((default, None)),
                        })
                        .collect::<Vec<EquivalenceClass<u32, u32>>>(),
                ),
            };
            let same = EquivalenceRelation::new_safe(map(None), default)?;
            if r != same || r.clone() != same {
                return Err("UNEQUAL".to_string());
            }
            if moved.is_some() && r == EquivalenceRelation::new_safe(map(moved), default)? {
                return Err("EQUAL".to_string());
            }
            Ok((0..41).map(|x| r.project(&x)).collect::<Vec<u32>>())
        });
        if let Ok(Err(e)) = &r {
            ensure!(e != "UNEQUAL", "equality", "two relations of the same classes are not equal");
            ensure!(e != "EQUAL", "equality", "two relations that differ in the class of one symbol are equal");
        }
        match r {
            Err(p) => bail!("panic", "building the relation panicked: {}", p),
            Ok(Err(e)) => {
                sim.probe("overlapping sets refused");
                ensure!(!fine, "refused", "disjoint classes were refused: {}", e)
            }
            Ok(Ok(v)) => {
                ensure!(fine, "contradiction", "overlapping classes {:?} or default {} accepted", cs, default);
                for (x, got) in v.iter().enumerate() {
                    let want = cs.iter().find(|(_, s)| s.contains(&(x as u32))).map_or(default, |(l, _)| *l);
                    ensure!(want == *got, "class", "{} is in class {}, not {}", x, want, got);
                }
            }
        }
    }
    Ok(())
}
