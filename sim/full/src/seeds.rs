//! C13: the same inputs in several processes with hash seeds of their own.
use crate::cs::{close, normal_opts, weight, W};
use crate::mcfg_gen::{grammar, nt, te, word, Opts, Sy, G};
use crate::recognition::{case14, case15, listing14, listing15, show, Case14, Case15, Listing};
use rustomata::approximation::equivalence_classes::EquivalenceRelation;
use rustomata::grammars::cfg::CFG;
use rustomata::grammars::lcfrs::csparsing::CSRepresentation;
use rustomata::grammars::lcfrs::from_discodop::{DiscoDopGrammar, DiscoLexer};
use rustomata::grammars::lcfrs::Lcfrs;
use rustomata::grammars::mcfg::Mcfg;
use rustomata::grammars::pmcfg::{PMCFGRule, VarT, PMCFG};
use simkit::{bail, ensure, ev, world, Check, Sim, Verdict};
use std::collections::{BTreeSet, HashMap};
use std::fmt::Debug;

pub const CHECK: Check = Check {
    id: "C13",
    run,
    quick: 200_000,
    thorough: 3_000_000,
    rule: "A run draws a grammar (as rules, grammar text, treebank files) or automaton and 1-4 words, and lets 2-3 simulated processes, each with a hash seed of its own and an own order of the words, read, convert and print it, build a parser or automaton from it and parse with it. The processes' rules, numbers of parses, weights and (up to the order of equal weights) parses are compared.",
    real: &["grammar and treebank readers, printing, Lcfrs and Mcfg conversion", "CSRepresentation and parsing", "automata, approximations and recognition", "std HashMap and HashSet with RandomState"],
    stub: &["the operating system's source of hash seeds; integeriser crate"],
    assumptions: &["floating-point rounding: weights are compared up to 1e-9 relative"],
    must_reach: &["treebank grammar parsed", "converted grammar parsed", "erasing grammar converted", "automaton", "approximation", "ambiguous", "cut enumeration", "equal weights", "printed and read again", "hash order differed", "classes", "default lexicon"],
};

/// A list that has an order (only the order of equal weights is open) and
/// may have been cut, or a set of weighted things.
#[derive(Clone, Debug)]
struct Out {
    what: String,
    ordered: bool,
    ended: bool,
    list: Vec<(f64, String)>,
}

fn out(what: &str, ordered: bool, ended: bool, list: Vec<(f64, String)>) -> Out {
    Out { what: what.to_string(), ordered, ended, list }
}

enum Job {
    Treebank { gram: String, lex: Option<String> },
    Converted { g: G, normal: bool },
    Automaton(Case14),
    Approximation(Case15),
    Classes(String),
}

fn run(sim: &Sim) -> Verdict {
    let (job, words): (Job, Vec<Vec<String>>) = match sim.below(8) {
        0 | 1 => {
            let mut o = normal_opts(sim);
            o.ordered = true;
            o.max_tail = 2;
            o.undefined = false;
            o.repeats = false;
            let g = grammar(sim, &o);
            let (gram, lex) = match treebank(sim, &g) {
                Some(t) => t,
                None => return Ok(()),
            };
            ev!(sim, "grammar {:?}", gram);
            ev!(sim, "lexicon {:?}", lex);
            let ws = some_words(sim, &g);
            (Job::Treebank { gram, lex }, ws)
        }
        2 | 3 | 4 => {
            let normal = sim.flip(1, 2);
            let o = if normal {
                normal_opts(sim)
            } else {
                Opts {
                    nonterminals: (1, sim.range(2, 5)),
                    terminals: sim.range(1, 3),
                    rules: (1, sim.range(2, 10)),
                    max_fan: *sim.pick(&[1, 2, 2, 3]),
                    max_tail: sim.range(1, 3),
                    deleting: sim.flip(2, 3),
                    empty: sim.flip(1, 4),
                    undefined: sim.flip(1, 4),
                    normal: false,
                    repeats: sim.flip(1, 4),
                    ordered: false,
                    ties: sim.flip(1, 2),
                }
            };
            let g = grammar(sim, &o);
            ev!(sim, "grammar {}", g.show());
            let ws = some_words(sim, &g);
            (Job::Converted { g, normal }, ws)
        }
        5 | 6 if sim.flip(1, 2) => match case14(sim)? {
            None => return Ok(()),
            Some(c) => {
                ev!(sim, "{}", show(&c.d));
                let ws = c.ws.clone();
                (Job::Automaton(c), ws)
            }
        },
        5 | 6 => match case15(sim, 1)? {
            None => return Ok(()),
            Some(c) => {
                ev!(sim, "{}", show(&c.d));
                let ws = c.ws.clone();
                (Job::Approximation(c), ws)
            }
        },
        _ => {
            let mut s = String::new();
            let k = sim.range(1, 4);
            for i in 0..k {
                let ms: Vec<String> = (0..sim.range(1, 4)).map(|j| format!("m{}", if sim.flip(1, 4) { sim.below(12) } else { 4 * i + j })).collect();
                s.push_str(&format!("K{} [{}]\n", i, ms.join(", ")));
            }
            s.push_str("D *\n");
            ev!(sim, "classes {:?}", s);
            (Job::Classes(s), (0..12).map(|i| vec![format!("m{}", i)]).collect())
        }
    };
    ev!(sim, "words {:?}", words);
    sim.shape(format!("{:?}", words).as_bytes());
    let most = *sim.pick(&[3, 30, 200]);
    let mut first: Option<Vec<Out>> = None;
    let mut hashes = BTreeSet::new();
    for p in 0..sim.range(2, 3) {
        let seed = world::boot(sim, p);
        let mut order: Vec<usize> = (0..words.len()).collect();
        sim.shuffle(&mut order);
        let (job, words) = (&job, &words);
        let s2 = sim.clone();
        let r = world::task(sim, seed, || -> Result<Vec<Out>, simkit::Violation> {
            // the order in which this process goes through a hash map
            let m: HashMap<u32, ()> = (0..9).map(|i| (i, ())).collect();
            let seen: Vec<u32> = m.keys().cloned().collect();
            let mut outs = work(&s2, job, words, &order, most)?;
            outs.push(out("hash order", false, false, vec![(0.0, format!("{:?}", seen))]));
            Ok(outs)
        });
        let mut outs = match r {
            Err(e) => bail!("panic", "process {}: {}", p, e),
            Ok(o) => o?,
        };
        hashes.insert(outs.pop().unwrap().list[0].1.clone());
        for o in &outs {
            ev!(sim, "process {}: {} with {} entries", p, o.what, o.list.len());
        }
        match &first {
            None => first = Some(outs),
            Some(f) => {
                ensure!(f.len() == outs.len(), "stages", "one process gets {:?}, another {:?}", names(f), names(&outs));
                for (a, b) in f.iter().zip(&outs) {
                    same(sim, a, b)?;
                }
            }
        }
    }
    sim.probe_if(hashes.len() > 1, "hash order differed");
    Ok(())
}

fn names(o: &[Out]) -> Vec<&String> {
    o.iter().map(|o| &o.what).collect()
}

fn same(sim: &Sim, a: &Out, b: &Out) -> Verdict {
    ensure!(a.what == b.what && a.ended == b.ended, "stages", "{} (ended {}) in one process, {} (ended {}) in another", a.what, a.ended, b.what, b.ended);
    ensure!(a.list.len() == b.list.len(), "number", "{}: {} in one process, {} in another: {:?}, {:?}", a.what, a.list.len(), b.list.len(), a.list, b.list);
    if a.ordered {
        for (i, (x, y)) in a.list.iter().zip(&b.list).enumerate() {
            ensure!(close(x.0, y.0), "weights", "{}: entry {} has weight {} in one process, {} in another", a.what, i, x.0, y.0);
        }
        sim.probe_if(a.list.windows(2).any(|w| close(w[0].0, w[1].0)), "equal weights");
        sim.probe_if(a.list.len() > 1, "ambiguous");
        sim.probe_if(!a.ended, "cut enumeration");
    }
    let limit = match a.list.last() {
        Some(l) if !a.ended => l.0 * (1.0 + 1e-9),
        _ => f64::NEG_INFINITY,
    };
    let mut left: Vec<&(f64, String)> = b.list.iter().collect();
    for x in &a.list {
        match left.iter().position(|y| y.1 == x.1 && close(x.0, y.0)) {
            Some(i) => {
                left.swap_remove(i);
            }
            None => ensure!(x.0 <= limit, "entries", "{}: {:?} is found in one process only, the other has {:?}", a.what, x, left),
        }
    }
    Ok(())
}

fn some_words(sim: &Sim, g: &G) -> Vec<Vec<String>> {
    let len = sim.range(2, 6);
    (0..sim.range(1, 4)).map(|_| word(sim, g, len).into_iter().map(te).collect()).collect()
}

/// Names of the treebank format, where the initial nonterminal is ROOT.
pub fn tb(i: usize) -> String {
    if i == 0 {
        "ROOT".to_string()
    } else {
        nt(i)
    }
}

pub fn treebank(sim: &Sim, g: &G) -> Option<(String, Option<String>)> {
    // one or two successors
    if g.rules.iter().any(|r| r.tail.len() > 2) {
        return None;
    }
    let mut gram = String::new();
    let mut lex: Vec<(usize, Vec<(usize, u32)>)> = Vec::new();
    for r in &g.rules {
        if let [Sy::T(t)] = r.comp[0][..] {
            match lex.iter_mut().find(|l| l.0 == t) {
                Some(l) => l.1.push((r.head, r.w)),
                None => lex.push((t, vec![(r.head, r.w)])),
            }
            continue;
        }
        let y: Vec<String> = r
            .comp
            .iter()
            .map(|c| {
                c.iter()
                    .map(|s| match s {
                        Sy::V(i, _) => i.to_string(),
                        Sy::T(_) => "9".to_string(),
                    })
                    .collect()
            })
            .collect();
        let tail: Vec<String> = r.tail.iter().map(|&n| tb(n)).collect();
        gram.push_str(&format!("{}\t{}\t{}\t{}\n", tb(r.head), tail.join("\t"), y.join(","), r.w));
    }
    if gram.is_empty() || lex.is_empty() {
        return None;
    }
    if sim.flip(1, 6) {
        return Some((gram, None));
    }
    let mut s = String::new();
    for (t, hs) in lex {
        let hs: Vec<String> = hs.iter().map(|(h, w)| format!("{} {}", tb(*h), w)).collect();
        s.push_str(&format!("{}\t{}\n", te(t), hs.join("\t")));
    }
    Some((gram, Some(s)))
}

fn rules<N: Debug>(what: &str, rs: &[PMCFGRule<N, String, W>]) -> Out {
    out(
        what,
        false,
        true,
        rs.iter().map(|r| (r.weight.value(), format!("{:?} {:?} {:?}", r.head, r.tail, r.composition))).collect(),
    )
}

fn work(sim: &Sim, job: &Job, words: &[Vec<String>], order: &[usize], most: usize) -> Result<Vec<Out>, simkit::Violation> {
    let mut outs = Vec::new();
    match job {
        Job::Treebank { gram, lex } => {
            let g: DiscoDopGrammar<String, (), W> = match gram.parse() {
                Ok(g) => g,
                Err(e) => bail!("refused", "grammar {:?}: {:?}", gram, e),
            };
            let l: Lcfrs<String, String, W> = match lex {
                Some(l) => match l.parse::<DiscoLexer<String, String, W>>() {
                    Ok(l) => g.with_lexer(l).into(),
                    Err(e) => bail!("refused", "lexicon {:?}: {:?}", l, e),
                },
                None => {
                    // every word is its own symbol
                    sim.probe("default lexicon");
                    g.with_default_lexer().into()
                }
            };
            sim.step(0, "read");
            parse(sim, l, words, order, most, "treebank", &mut outs)?;
        }
        Job::Converted { g, normal } => {
            let p = g.pmcfg(weight);
            sim.step(0, "convert");
            if *normal {
                if let Some(l) = Lcfrs::new(p.rules.clone(), nt(g.init)) {
                    // through text
                    let s = l.to_string();
                    let l2: Lcfrs<String, String, W> = match s.parse() {
                        Ok(l) => l,
                        Err(e) => bail!("reread", "{:?}: {:?}", s, e),
                    };
                    sim.probe("printed and read again");
                    parse(sim, l2, words, order, most, "normal form", &mut outs)?;
                }
            }
            let m = Mcfg::new(p.rules.clone(), nt(g.init));
            outs.push(out("properties", false, true, vec![(0.0, format!("{:?}", (Lcfrs::new(p.rules.clone(), nt(g.init)).is_some(), Mcfg::from_pmcfg(g.pmcfg(weight)).is_some())))]));
            let l: Lcfrs<(String, BTreeSet<usize>), String, W> = m.into();
            sim.probe_if(g.rules.iter().any(|r| r.tail.iter().enumerate().any(|(i, &b)| (0..g.fan[b]).any(|j| !r.comp.iter().flatten().any(|s| *s == Sy::V(i, j))))), "erasing grammar converted");
            if l.in_normal_form() {
                parse(sim, l, words, order, most, "converted", &mut outs)?;
            } else {
                let (rs, init) = l.destruct();
                outs.push(rules(&format!("converted {:?}", init), &rs));
            }
            let text: PMCFG<String, String, W> = match p.to_string().parse() {
                Ok(x) => x,
                Err(e) => bail!("reread", "{:?}: {:?}", p.to_string(), e),
            };
            outs.push(rules(&format!("read {:?}", text.initial), &text.rules));
            if g.fan.iter().all(|&f| f == 1) {
                let c: CFG<String, String, W> = p.into();
                outs.push(out("cfg", false, true, c.rules.iter().map(|r| (r.weight.value(), format!("{:?} {:?}", r.head, r.composition))).collect()));
            }
        }
        Job::Automaton(c) => {
            sim.step(0, "recognise");
            sim.probe("automaton");
            let ws: Vec<&Vec<String>> = order.iter().map(|&i| &words[i]).collect();
            listed(listing14(&c.d, &ws), order, true, &mut outs);
        }
        Job::Approximation(c) => {
            sim.step(0, "approximate");
            sim.probe("approximation");
            let ws: Vec<&Vec<String>> = order.iter().map(|&i| &words[i]).collect();
            // merged weights beyond one leave the order open
            listed(listing15(c, &ws), order, false, &mut outs);
        }
        Job::Classes(s) => {
            sim.step(0, "read classes");
            sim.probe("classes");
            let r = s.parse::<EquivalenceRelation<String, String>>();
            let mut found = Vec::new();
            for &i in order {
                let c = match &r {
                    Ok(r) => r.project(&words[i][0]),
                    Err(_) => "refused".to_string(),
                };
                found.push((i, c));
            }
            found.sort();
            outs.push(out("classes", false, true, found.into_iter().map(|(i, c)| (i as f64 + 1.0, c)).collect()));
        }
    }
    Ok(outs)
}

fn listed(l: Listing, order: &[usize], ordered: bool, outs: &mut Vec<Out>) {
    let n = order.len();
    let mut it = l.into_iter();
    outs.push(out("transitions", false, true, it.next().unwrap()));
    let rest: Vec<_> = it.collect();
    for k in 0..rest.len() / n {
        let mut by: Vec<(usize, Vec<(f64, String)>)> = (0..n).map(|i| (order[i], rest[k * n + i].clone())).collect();
        by.sort_by_key(|x| x.0);
        for (i, l) in by {
            outs.push(out(&format!("runs {} of word {}", k, i), ordered, true, l));
        }
    }
}

/// Do chains pass a component on in a circle?  Then a word may have
/// infinitely many candidates, and the search for a next parse may not end.
fn unbounded<N: Ord + Clone>(rs: &[PMCFGRule<N, String, W>]) -> bool {
    let mut edges: Vec<((N, usize), (N, usize))> = Vec::new();
    for r in rs {
        for (c, v) in r.composition.composition.iter().enumerate() {
            if let [VarT::Var(i, j)] = v[..] {
                edges.push(((r.head.clone(), c), (r.tail[i].clone(), j)));
            }
        }
    }
    loop {
        let n = edges.len();
        let from: BTreeSet<(N, usize)> = edges.iter().map(|e| e.0.clone()).collect();
        edges.retain(|e| from.contains(&e.1));
        if edges.len() == n {
            return n > 0;
        }
    }
}

fn parse<N>(sim: &Sim, l: Lcfrs<N, String, W>, words: &[Vec<String>], order: &[usize], most: usize, what: &str, outs: &mut Vec<Out>) -> Verdict
where
    N: Ord + Clone + Debug + std::hash::Hash + Eq,
{
    let normal = l.in_normal_form();
    let (rs, init) = l.destruct();
    outs.push(rules(&format!("{} {:?}", what, init), &rs));
    if !normal || unbounded(&rs) {
        return Ok(());
    }
    let l = match Lcfrs::new(rs, init) {
        Some(l) => l,
        None => return Ok(()),
    };
    sim.probe(if what == "treebank" { "treebank grammar parsed" } else { "converted grammar parsed" });
    let cs: CSRepresentation<N, String, W> = CSRepresentation::new(l, 0);
    let gen = cs.build_generator();
    let mut found = Vec::new();
    for &i in order {
        sim.step(i, "parse");
        let (mut it, fallback) = gen.with_fallback(&words[i]);
        let mut ended = false;
        let mut list = Vec::new();
        while list.len() < most {
            match it.next() {
                None => {
                    ended = true;
                    break;
                }
                Some(t) => {
                    let w: f64 = (&t).into_iter().map(|(_, r)| r.weight.value()).product();
                    let s: Vec<String> = (&t).into_iter().map(|(p, r)| format!("{:?} {:?} {:?} {:?}", p, r.head, r.tail, r.composition)).collect();
                    list.push((w, s.join(" ")));
                }
            }
        }
        found.push((i, out(&format!("{} parses of word {}, fallback {}", what, i, fallback.is_some()), true, ended, list)));
    }
    found.sort_by_key(|f| f.0);
    outs.extend(found.into_iter().map(|f| f.1));
    Ok(())
}
