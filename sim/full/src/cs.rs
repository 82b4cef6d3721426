//! C12: lazy k-best parsing with Chomsky-Schützenberger representations.
use crate::mcfg_gen::{grammar, nt, parses, te, word, Opts, Sy, G, R};
use log_domain::LogDomain;
use rustomata::grammars::lcfrs::csparsing::{CSRepresentation, DebugResult};
use rustomata::grammars::lcfrs::Lcfrs;
use rustomata::grammars::mcfg::Mcfg;
use rustomata::grammars::pmcfg::{PMCFGRule, VarT};
use rustomata::util::tree::GornTree;
use simkit::{bail, ensure, ev, world, Check, Sim, Verdict, Violation};
use std::collections::BTreeMap;

pub const CHECK: Check = Check {
    id: "C12",
    run,
    quick: 120_000,
    thorough: 6_000_000,
    rule: "A run draws a grammar in normal form (2-5 nonterminals of fanout 1-3, up to 12 rules, ambiguous lexicon, chains and chain cycles, equal weights), builds one parser in each of 1-2 processes with hash seeds of their own, and lets the scheduler open, pull, abandon and repeat up to 6 enumerations of 1-3 sentences, with or without beam, threshold, candidate limit and outside estimates. Every derivation is evaluated; complete enumerations are compared with all derivations of the sentence.",
    real: &["CSRepresentation, chart, estimates, rule mask, lazy k-best, fallback", "unique-heap, vecmultimap", "Lcfrs::new"],
    stub: &["integeriser crate; hash seeds of processes"],
    assumptions: &["grammar in normal form, every rule weight in (0, 1]", "floating-point rounding: weights are compared up to 1e-9 relative"],
    must_reach: &["all derivations compared", "ambiguous sentence", "inconsistent candidates skipped", "outside the language", "fallback evaluated", "fanout 2 used", "session abandoned", "equal weights", "chain cycle", "chain cycle of weight one", "with beam", "with a wide beam", "with candidates", "with estimates", "repeated session", "ambiguous lexicon", "initial nonterminal without rules", "longer sentence", "long sentence", "many nonterminals"],
};

pub type W = LogDomain<f64>;
pub type Rule = PMCFGRule<String, String, W>;

pub fn weight(x: f64) -> W {
    LogDomain::new(x).expect("weight")
}

pub fn close(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-9 * a.abs().max(b.abs())
}

/// Rules by content, to find the index of a rule in a derivation.
pub struct Index(BTreeMap<String, usize>);

fn content<X: std::fmt::Debug>(r: &PMCFGRule<String, String, X>) -> String {
    format!("{:?} {:?} {:?}", r.head, r.tail, r.composition)
}

impl Index {
    pub fn new(g: &G) -> Index {
        let mut m = BTreeMap::new();
        for (i, r) in g.rules.iter().enumerate() {
            m.entry(content(&r.pmcfg(|w| w))).or_insert(i);
        }
        Index(m)
    }
    pub fn of(&self, r: &Rule) -> Option<usize> {
        self.0.get(&content(r)).cloned()
    }
}

/// A derivation as the tree of rules it shows, evaluated.
#[derive(Clone, Debug, PartialEq)]
pub struct Shown {
    pub rules: Vec<usize>,
    pub w: f64,
}

/// The rules of a derivation in depth-first order and its weight; an error
/// if it is no derivation of the word.
pub fn evaluate(g: &G, ix: &Index, tree: &BTreeMap<Vec<usize>, Rule>, w: &[usize]) -> Result<Shown, Violation> {
    let mut rules = Vec::new();
    let mut weight = 1.0;
    for (pos, r) in tree {
        let i = match ix.of(r) {
            Some(i) => i,
            None => bail!("foreign rule", "rule {:?} at {:?} is not in the grammar", r, pos),
        };
        let v: f64 = r.weight.value();
        ensure!(close(v, f64::from(g.rules[i].w) / 16.0) || has_weight(g, i, v), "rule weight", "rule {:?} has weight {}", r, v);
        rules.push(i);
        weight *= v;
        match pos.split_last() {
            None => ensure!(r.head == nt(g.init), "root", "the root of the derivation is {}", r.head),
            Some((k, up)) => {
                let parent = tree.get(up);
                ensure!(parent.map_or(false, |p| p.tail.get(*k) == Some(&r.head)), "tree", "{} at {:?} does not fit its parent", r.head, pos);
            }
        }
        for k in 0..r.tail.len() {
            let mut below = pos.clone();
            below.push(k);
            ensure!(tree.contains_key(&below), "tree", "no rule at {:?}", below);
        }
    }
    ensure!(!tree.is_empty(), "tree", "an empty derivation");
    let y = values(tree, &mut vec![]);
    let want: Vec<String> = w.iter().map(|&t| te(t)).collect();
    ensure!(y.len() == 1 && y[0] == want, "yield", "derivation {:?} yields {:?} instead of {:?}", rules, y, want);
    Ok(Shown { rules, w: weight })
}

fn has_weight(g: &G, i: usize, v: f64) -> bool {
    let r = &g.rules[i];
    g.rules.iter().any(|s| s.head == r.head && s.tail == r.tail && s.comp == r.comp && close(v, f64::from(s.w) / 16.0))
}

/// The components at a position.
fn values(tree: &BTreeMap<Vec<usize>, Rule>, pos: &mut Vec<usize>) -> Vec<Vec<String>> {
    let r = match tree.get(pos) {
        Some(r) => r,
        None => return vec![],
    };
    let kids: Vec<Vec<Vec<String>>> = (0..r.tail.len())
        .map(|k| {
            pos.push(k);
            let v = values(tree, pos);
            pos.pop();
            v
        })
        .collect();
    r.composition
        .composition
        .iter()
        .map(|c| {
            let mut out = Vec::new();
            for s in c {
                match s {
                    VarT::T(t) => out.push(t.clone()),
                    VarT::Var(i, j) => match kids.get(*i).and_then(|k| k.get(*j)) {
                        Some(v) => out.extend(v.iter().cloned()),
                        None => out.push(format!("<no {} {}>", i, j)),
                    },
                }
            }
            out
        })
        .collect()
}

pub fn owned(t: &GornTree<&Rule>) -> BTreeMap<Vec<usize>, Rule> {
    t.into_iter().map(|(k, v)| (k.clone(), (*v).clone())).collect()
}

/// Edges between components that a chain passes on unchanged.
pub fn chain_cycle(g: &G, only_one: bool) -> bool {
    let mut edges: Vec<((usize, usize), (usize, usize))> = Vec::new();
    for r in &g.rules {
        if only_one && r.w < 16 {
            continue;
        }
        for (c, v) in r.comp.iter().enumerate() {
            if let [Sy::V(i, j)] = v[..] {
                edges.push(((r.head, c), (r.tail[i], j)));
            }
        }
    }
    // repeatedly remove edges into nodes without outgoing edges
    loop {
        let n = edges.len();
        let from: Vec<(usize, usize)> = edges.iter().map(|e| e.0).collect();
        edges.retain(|e| from.contains(&e.1));
        if edges.len() == n {
            return n > 0;
        }
    }
}

pub fn normal_opts(sim: &Sim) -> Opts {
    Opts {
        nonterminals: (1, sim.range(2, 5)),
        terminals: sim.range(1, 3),
        rules: (1, sim.range(2, 12)),
        max_fan: *sim.pick(&[1, 2, 2, 3]),
        max_tail: sim.range(1, 3),
        deleting: false,
        empty: false,
        undefined: sim.flip(1, 8),
        normal: true,
        repeats: sim.flip(1, 4),
        ordered: false,
        ties: sim.flip(1, 2),
    }
}

pub fn lcfrs(g: &G) -> Option<Lcfrs<String, String, W>> {
    Lcfrs::new(g.pmcfg_rules(weight), nt(g.init))
}

#[derive(Clone, Debug)]
struct Settings {
    beam: Option<usize>,
    delta: Option<f64>,
    candidates: Option<usize>,
}

struct Session<'a> {
    id: usize,
    word: usize,
    it: Box<dyn Iterator<Item = GornTree<&'a Rule>> + 'a>,
    got: Vec<Shown>,
    done: bool,
}

/// Limits that nothing drawn here reaches.
const WIDE: [usize; 5] = [1000, 65535, 65536, 100_000, usize::max_value()];

fn run(sim: &Sim) -> Verdict {
    if sim.flip(1, 2000) {
        return long_sentence(sim);
    }
    if sim.flip(1, 6000) {
        return many_nonterminals(sim);
    }
    let mut g = grammar(sim, &normal_opts(sim));
    if sim.flip(1, 20) {
        // nothing begins with the initial nonterminal, or it is not used at all
        let init = g.init;
        g.rules.retain(|r| r.head != init);
        if sim.flip(1, 2) {
            g.rules.retain(|r| !r.tail.contains(&init));
        }
        if !g.rules.iter().any(|r| r.head == init) {
            return nothing(sim, &g);
        }
    }
    let gr = match lcfrs(&g) {
        Some(l) => l,
        None => return Ok(()),
    };
    if !gr.in_normal_form() {
        return Ok(());
    }
    ev!(sim, "grammar {}", g.show());
    sim.shape(g.show().as_bytes());
    let cyclic = chain_cycle(&g, false);
    sim.probe_if(cyclic, "chain cycle");
    sim.probe_if(chain_cycle(&g, true), "chain cycle of weight one");
    let lex: Vec<usize> = g.rules.iter().filter(|r| r.tail.is_empty()).map(|r| r.head).collect();
    sim.probe_if(lex.iter().any(|a| lex.iter().filter(|b| *b == a).count() > 1), "ambiguous lexicon");
    let longer = sim.flip(1, 10);
    let len = if longer { sim.range(6, 10) } else { sim.range(2, 6) };
    let words: Vec<Vec<usize>> = (0..sim.range(1, 3)).map(|_| word(sim, &g, len)).collect();
    let settings = Settings {
        beam: match sim.below(20) {
            0 => Some(*sim.pick(&WIDE)),
            1..=3 => Some(sim.range(0, 6)),
            _ => None,
        },
        delta: if sim.flip(1, 8) { Some(sim.range(1, 16) as f64 / 16.0) } else { None },
        candidates: if cyclic {
            Some(sim.range(1, 60))
        } else if sim.flip(1, 6) {
            Some(if sim.flip(1, 8) { *sim.pick(&WIDE) } else { sim.below(8) })
        } else {
            None
        },
    };
    let width = if longer && sim.flip(1, 2) {
        sim.range(4, 12)
    } else if sim.flip(1, 2) {
        sim.range(0, 7)
    } else {
        0
    };
    sim.probe_if(longer && words.iter().any(|w| w.len() > 6), "longer sentence");
    ev!(sim, "words {:?}, {:?}, estimates {}", words, settings, width);
    sim.probe_if(settings.beam.is_some(), "with beam");
    sim.probe_if(settings.beam.map_or(false, |b| b >= WIDE[0]), "with a wide beam");
    sim.probe_if(settings.candidates.is_some(), "with candidates");
    sim.probe_if(width > 0, "with estimates");
    // what there is to be found
    let all: Vec<Option<(Vec<(Vec<usize>, f64)>, bool)>> = words
        .iter()
        .map(|w| {
            parses(&g, w, if cyclic { 14 } else { 60 }, 3000).map(|(ps, complete)| {
                (ps.into_iter().map(|p| (p.rules, p.w)).collect(), complete)
            })
        })
        .collect();
    let ix = Index::new(&g);
    let processes = sim.range(1, 2);
    for p in 0..processes {
        let seed = world::boot(sim, p);
        let sim2 = sim.clone();
        let (g2, ix2, words2, all2, st, gr2) = (&g, &ix, &words, &all, &settings, gr.clone());
        let res = world::task(sim, seed, move || sessions(&sim2, g2, ix2, gr2, words2, all2, st, width, cyclic));
        match res {
            Err(e) => bail!("panic", "{}: {}", g.show(), e),
            Ok(v) => v?,
        }
    }
    Ok(())
}

fn canonical(g: &G, rules: &[usize]) -> Vec<usize> {
    // rules that are repeated in the grammar look alike
    rules
        .iter()
        .map(|&i| {
            let r = &g.rules[i];
            g.rules.iter().position(|s| s.head == r.head && s.tail == r.tail && s.comp == r.comp).unwrap()
        })
        .collect()
}

#[allow(clippy::too_many_arguments)]
fn sessions(
    sim: &Sim,
    g: &G,
    ix: &Index,
    gr: Lcfrs<String, String, W>,
    words: &[Vec<usize>],
    all: &[Option<(Vec<(Vec<usize>, f64)>, bool)>],
    st: &Settings,
    width: usize,
    cyclic: bool,
) -> Verdict {
    let cs: CSRepresentation<String, String, W> = CSRepresentation::new(gr, width);
    let mut gen = cs.build_generator();
    if let Some(b) = st.beam {
        gen.set_beam(b);
    }
    if let Some(d) = st.delta {
        gen.set_delta(weight(d));
    }
    if let Some(c) = st.candidates {
        gen.set_candidates(c);
    }
    let free = st.beam.map_or(true, |b| b >= WIDE[0]) && st.delta.is_none();
    let mut open: Vec<Session> = Vec::new();
    let mut opened = 0;
    let mut finished: BTreeMap<usize, Vec<Shown>> = BTreeMap::new();
    let most = sim.range(1, 6);
    let mut steps = 0;
    loop {
        steps += 1;
        let start = open.is_empty() || (opened < most && sim.flip(1, 4));
        if start {
            if opened == most || steps > 400 {
                break;
            }
            let wi = sim.below(words.len());
            let w: Vec<String> = words[wi].iter().map(|&t| te(t)).collect();
            opened += 1;
            sim.step(opened, "open");
            let (it, fallback) = gen.with_fallback(&w);
            ev!(sim, "session {}: word {}, fallback {}", opened, wi, fallback.is_some());
            if let Some(f) = &fallback {
                check_fallback(g, f, &w)?;
                sim.probe("fallback evaluated");
            } else if free {
                if let Some((ds, _)) = &all[wi] {
                    ensure!(ds.is_empty(), "fallback", "no fallback for {:?}, which has {} derivations", w, ds.len());
                }
            }
            sim.probe_if(finished.contains_key(&wi), "repeated session");
            open.push(Session { id: opened, word: wi, it: Box::new(it), got: vec![], done: fallback.is_none() });
            continue;
        }
        let at = sim.below(open.len());
        if sim.flip(1, 25) {
            sim.step(open[at].id, "abandon");
            sim.fault("session abandoned");
            sim.probe("session abandoned");
            open.swap_remove(at);
            continue;
        }
        let s = &mut open[at];
        sim.step(s.id, "pull");
        match s.it.next() {
            Some(t) => {
                ensure!(!s.done, "after end", "session {} without candidates gives a derivation", s.id);
                let d = evaluate(g, ix, &owned(&t), &words[s.word])?;
                ev!(sim, "session {}: {:?} {:.6}", s.id, d.rules, d.w);
                if let Some(last) = s.got.last() {
                    ensure!(d.w <= last.w * (1.0 + 1e-9), "order", "weight {} after {}", d.w, last.w);
                    sim.probe_if(close(d.w, last.w), "equal weights");
                }
                // as often as the rules are repeated
                let same = s.got.iter().filter(|o| o.rules == d.rules && close(o.w, d.w)).count();
                let copies = copies(g, &d);
                ensure!(same < copies, "twice", "derivation {:?} is enumerated {} times", d.rules, same + 1);
                s.got.push(d);
                if s.got.len() >= if cyclic { 30 } else { 3000 } {
                    let s = open.swap_remove(at);
                    compare(sim, g, &s, false, free, st, &all[s.word])?;
                    finished.entry(s.word).or_insert(s.got);
                }
            }
            None => {
                let s = open.swap_remove(at);
                compare(sim, g, &s, true, free, st, &all[s.word])?;
                match finished.get(&s.word) {
                    None => {
                        finished.insert(s.word, s.got);
                    }
                    Some(o) => {
                        ensure!(
                            o.len() == s.got.len() && o.iter().zip(&s.got).all(|(a, b)| close(a.w, b.w)),
                            "sessions", "one session gives {:?}, another {:?}", o, s.got
                        );
                    }
                }
            }
        }
    }
    // the variant for measurements finds the same
    if sim.flip(1, 4) {
        let wi = sim.below(words.len());
        let w: Vec<String> = words[wi].iter().map(|&t| te(t)).collect();
        sim.step(0, "debug");
        let (_, n, _, r) = gen.debug(&w);
        ensure!(n == w.len(), "debug", "length {}", n);
        let (mut it, fallback) = gen.with_fallback(&w);
        let first = it.next();
        match (r, first) {
            (DebugResult::Parse(t, _), Some(f)) => {
                let a: BTreeMap<Vec<usize>, Rule> = t.into_iter().collect();
                let a = evaluate(g, ix, &a, &words[wi])?;
                let b = evaluate(g, ix, &owned(&f), &words[wi])?;
                ensure!(close(a.w, b.w), "debug", "first parse has weight {} or {}", a.w, b.w);
            }
            // without a single candidate there is nothing to fall back to
            (DebugResult::Fallback(t, _), None) => {
                ensure!(fallback.is_some(), "debug", "a fallback appears");
                check_fallback(g, &t, &w)?;
            }
            (DebugResult::Noparse, None) => {
                ensure!(fallback.is_none() || st.candidates == Some(0), "debug", "the fallback is lost");
            }
            (_, f) => bail!("debug", "another kind of result, parse: {}", f.is_some()),
        }
    }
    Ok(())
}

/// How many derivations of the grammar look like this one.
fn copies(g: &G, d: &Shown) -> usize {
    d.rules
        .iter()
        .map(|&i| {
            let r = &g.rules[i];
            g.rules.iter().filter(|s| s.head == r.head && s.tail == r.tail && s.comp == r.comp).count()
        })
        .fold(1usize, usize::saturating_mul)
}

fn compare(
    sim: &Sim,
    g: &G,
    s: &Session,
    ended: bool,
    free: bool,
    st: &Settings,
    all: &Option<(Vec<(Vec<usize>, f64)>, bool)>,
) -> Verdict {
    let (ds, complete) = match all {
        Some(x) => x,
        None => return Ok(()),
    };
    sim.probe_if(ds.len() > 1, "ambiguous sentence");
    if *complete {
        sim.probe_if(ds.is_empty() && ended, "outside the language");
        sim.probe_if(ds.is_empty() && ended && !s.done, "inconsistent candidates skipped");
        ensure!(s.got.len() <= ds.len(), "too many", "{} derivations instead of {}", s.got.len(), ds.len());
    }
    sim.probe_if(s.got.iter().any(|d| d.rules.iter().any(|&i| g.rules[i].comp.len() > 1)), "fanout 2 used");
    if !free {
        return Ok(());
    }
    // everything better than the last one must have come
    let limit = if ended && st.candidates.is_none() {
        0.0
    } else {
        match s.got.last() {
            Some(d) => d.w * (1.0 + 1e-9),
            None => return Ok(()),
        }
    };
    let mut left: Vec<&Shown> = s.got.iter().collect();
    for (rules, w) in ds {
        if *w <= limit {
            continue;
        }
        let c = canonical(g, rules);
        match left.iter().position(|d| d.rules == c && close(d.w, *w)) {
            Some(i) => {
                left.swap_remove(i);
            }
            None => bail!("missing", "derivation {:?} of weight {} is not enumerated, {} others are", c, w, s.got.len()),
        }
    }
    sim.probe_if(ended && *complete && ds.len() > 1 && st.candidates.is_none(), "all derivations compared");
    Ok(())
}

fn check_fallback(g: &G, f: &GornTree<Rule>, w: &[String]) -> Verdict {
    let tree: BTreeMap<Vec<usize>, Rule> = f.into_iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    for (pos, r) in &tree {
        match pos.split_last() {
            None => ensure!(r.head == nt(g.init), "fallback", "the root of the fallback is {}", r.head),
            Some((k, up)) => {
                ensure!(tree.get(up).map_or(false, |p| p.tail.get(*k) == Some(&r.head)), "fallback", "{} at {:?} does not fit its parent", r.head, pos);
            }
        }
    }
    let y = values(&tree, &mut vec![]);
    ensure!(y.len() == 1 && y[0] == w, "fallback", "the fallback yields {:?} instead of {:?}", y, w);
    Ok(())
}


fn rule(head: usize, tail: &[usize], comp: Vec<Vec<Sy>>, w: u32) -> R {
    R { head, tail: tail.to_vec(), comp, w }
}

/// A grammar without rules for the initial nonterminal: no parses, no panic.
fn nothing(sim: &Sim, g: &G) -> Verdict {
    let w: Vec<String> = word(sim, g, 4).into_iter().map(te).collect();
    let seed = world::boot(sim, 0);
    ev!(sim, "grammar {}, word {:?}", g.show(), w);
    sim.step(0, "pull");
    sim.probe("initial nonterminal without rules");
    let r = world::task(sim, seed, || {
        let gr: Lcfrs<(String, std::collections::BTreeSet<usize>), String, W> = Mcfg::new(g.pmcfg_rules(weight), nt(g.init)).into();
        let cs = CSRepresentation::new(gr, 0);
        let gen = cs.build_generator();
        let (mut it, fallback) = gen.with_fallback(&w);
        it.next().is_none() && fallback.is_none()
    });
    match r {
        Err(e) => bail!("panic", "{}: {}", g.show(), e),
        Ok(nothing) => ensure!(nothing, "nothing", "a parse of {:?} with {}", w, g.show()),
    }
    Ok(())
}

/// A sentence of hundreds of tokens with exactly one derivation.
fn long_sentence(sim: &Sim) -> Verdict {
    use Sy::{T, V};
    let right = sim.flip(1, 2);
    let two = |x: usize, y: usize| if right { (vec![x, y], vec![vec![V(0, 0), V(1, 0)]]) } else { (vec![y, x], vec![vec![V(0, 0), V(1, 0)]]) };
    let mut rules = Vec::new();
    for x in 1..3 {
        let (tail, comp) = two(x, 0);
        rules.push(rule(0, &tail, comp, sim.range(8, 16) as u32));
        rules.push(rule(0, &[x], vec![vec![V(0, 0)]], sim.range(8, 16) as u32));
        rules.push(rule(x, &[], vec![vec![T(x - 1)]], sim.range(8, 16) as u32));
    }
    sim.shuffle(&mut rules);
    let g = G { fan: vec![1; 3], terminals: 2, rules, init: 0 };
    let n = *sim.pick(&[120, 200, 254, 255, 256, 257, 280, 330]);
    let w: Vec<usize> = (0..n).map(|_| sim.below(2)).collect();
    ev!(sim, "grammar {}, {} tokens", g.show(), n);
    sim.shape(g.show().as_bytes());
    // log of the weight of the derivation
    let lex = |t: usize| g.rules.iter().find(|r| r.head == t + 1).unwrap().w;
    let step = |t: usize, last: bool| g.rules.iter().find(|r| r.head == 0 && r.tail.contains(&(t + 1)) && (r.tail.len() == 1) == last).unwrap().w;
    let ln = |x: u32| (f64::from(x) / 16.0).ln();
    let last = if right { n - 1 } else { 0 };
    let want: f64 = w.iter().enumerate().map(|(i, &t)| ln(lex(t)) + ln(step(t, i == last))).sum();
    let width = *sim.pick(&[0, 0, 0, 3, 3, 40, 40, 255]);
    let seed = world::boot(sim, 0);
    let r = world::task(sim, seed, || {
        let cs: CSRepresentation<String, String, W> = CSRepresentation::new(lcfrs(&g).expect("grammar"), width);
        let words: Vec<String> = w.iter().map(|&t| te(t)).collect();
        let mut it = cs.build_generator().with_fallback(&words).0;
        sim.step(0, "pull");
        let d = match it.next() {
            Some(d) => owned(&d),
            None => bail!("long", "no derivation of a sentence of {} tokens", n),
        };
        let s = evaluate(&g, &Index::new(&g), &d, &w)?;
        ensure!(s.rules.len() == 2 * n, "long", "{} rules for {} tokens", s.rules.len(), n);
        let sum: f64 = s.rules.iter().map(|&i| ln(g.rules[i].w)).sum();
        ensure!((sum - want).abs() < 1e-6, "long", "weight {} instead of {}", sum, want);
        ensure!(it.next().is_none(), "long", "a second derivation");
        sim.probe("long sentence");
        Ok(())
    });
    match r {
        Err(e) => bail!("panic", "{} tokens with {}: {}", n, g.show(), e),
        Ok(v) => v,
    }
}

/// A word that tens of thousands of nonterminals have a rule for.
fn many_nonterminals(sim: &Sim) -> Verdict {
    use Sy::{T, V};
    let count = *sim.pick(&[255, 256, 1000, 65_534, 65_535, 65_536, 70_000]);
    let best = sim.range(1, count);
    let second = sim.range(1, count);
    let mut rules = vec![
        rule(0, &[best, second], vec![vec![V(0, 0), V(1, 0)]], 8),
        rule(0, &[second], vec![vec![V(0, 0)]], 8),
    ];
    for x in 1..=count {
        rules.push(rule(x, &[], vec![vec![T(0)]], sim.range(1, 16) as u32));
    }
    if sim.flip(1, 2) {
        rules.reverse();
    }
    let wanted = |w: &[usize]| {
        let lex = |x: usize| f64::from(rules.iter().find(|r| r.head == x).unwrap().w) / 16.0;
        if w.len() == 1 {
            lex(second) / 2.0
        } else {
            lex(best) * lex(second) / 2.0
        }
    };
    let w = vec![0; sim.range(1, 2)];
    let want = wanted(&w);
    let g = G { fan: vec![1; count + 1], terminals: 1, rules, init: 0 };
    let beam = if sim.flip(1, 3) { Some(*sim.pick(&WIDE[3..])) } else { None };
    let width = *sim.pick(&[0, 0, 2]);
    ev!(sim, "{} nonterminals, {} and {}, {} tokens, beam {:?}, estimates {}", count, best, second, w.len(), beam, width);
    sim.shape(&[count as u8, (count >> 8) as u8, w.len() as u8, width as u8]);
    let seed = world::boot(sim, 0);
    let r = world::task(sim, seed, || {
        let cs: CSRepresentation<String, String, W> = CSRepresentation::new(lcfrs(&g).expect("grammar"), width);
        let words: Vec<String> = w.iter().map(|&t| te(t)).collect();
        let mut gen = cs.build_generator();
        if let Some(b) = beam {
            gen.set_beam(b);
        }
        let mut it = gen.with_fallback(&words).0;
        sim.step(0, "pull");
        let d = match it.next() {
            Some(d) => owned(&d),
            None => bail!("many", "no derivation"),
        };
        let s = evaluate(&g, &Index::new(&g), &d, &w)?;
        let got: f64 = s.rules.iter().map(|&i| f64::from(g.rules[i].w) / 16.0).product();
        ensure!((got - want).abs() < 1e-9, "many", "weight {} instead of {}", got, want);
        ensure!(it.next().is_none(), "many", "a second derivation");
        sim.probe("many nonterminals");
        Ok(())
    });
    match r {
        Err(e) => bail!("panic", "{} nonterminals, beam {:?}: {}", count, beam, e),
        Ok(v) => v,
    }
}
