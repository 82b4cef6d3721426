//! C17: values stored by one process and used by later ones.
use crate::cs::{close, evaluate, lcfrs, normal_opts, owned, Index, W};
use crate::mcfg_gen::{grammar, te, word, Opts, G};
use rustomata::dyck::multiple::MultipleDyckLanguage;
use rustomata::dyck::{self, Bracket};
use rustomata::grammars::lcfrs::csparsing::CSRepresentation;
use rustomata::grammars::pmcfg::PMCFGRule;
use rustomata::util::partition::Partition;
use serde::de::DeserializeOwned;
use serde::Serialize;
use simkit::{bail, ensure, ev, world, Check, Sim, Verdict, Violation};
use std::collections::{BTreeMap, BTreeSet};
use std::fs::File;
use std::io::{BufReader, Read, Write};

pub const CHECK: Check = Check {
    id: "C17",
    run,
    quick: 200_000,
    thorough: 8_000_000,
    rule: "A run draws a partition, a multiple Dyck language (sorted or not), a list of rules or a whole parser, builds it in one process, stores it through a chunked, interrupted, failing or crashing stream and lets up to three later processes with other hash seeds load, use and store it again; between two processes the stored bytes may be cut off or changed. Every process answers the same queries, compared with a direct reading of the definitions.",
    real: &["Partition, Bracket words, MultipleDyckLanguage with its automaton and instructions, PMCFGRule, CSRepresentation and their serde code", "TreeStack, recognise", "bincode"],
    stub: &["streams, files and hash seeds of processes", "integeriser crate"],
    assumptions: &["a changed byte of a stored language or parser may change its meaning; detecting that is the task of the file format (C09)"],
    must_reach: &["member", "non-member", "sorted language", "unsorted language", "component of several visits", "nested blocks", "stored form cut off", "stored form changed", "changed form refused", "changed form loaded", "store failed", "store crashed", "read failed", "third generation", "parses compared", "partition refused", "many cells", "deep member", "long word"],
};

type B = Bracket<u32>;

#[derive(Clone, Debug)]
enum Model {
    Part(Vec<BTreeSet<u32>>),
    Names(Vec<BTreeSet<String>>),
    Dyck { cells: Vec<BTreeSet<u32>>, sorts: Option<Vec<usize>>, words: Vec<(Vec<B>, bool)> },
    Rules(G),
    Parser { g: G, width: usize, words: Vec<Vec<usize>> },
}

/// What a process did.
enum Step {
    Refused(String),
    Stored(Result<(), String>),
}

fn cells(sim: &Sim, symbols: usize, most: usize) -> Vec<BTreeSet<u32>> {
    let mut left: Vec<u32> = (0..symbols as u32).collect();
    sim.shuffle(&mut left);
    let mut out = Vec::new();
    while !left.is_empty() {
        let n = sim.range(1, left.len().min(most));
        out.push(left.drain(..n).collect());
    }
    out
}

fn run(sim: &Sim) -> Verdict {
    let model = match sim.below(10) {
        0 => Model::Part(match sim.below(8) {
            0 => cells(sim, sim.range(10, 400), *sim.pick(&[1, 3, 40, 400])),
            _ => cells(sim, sim.range(0, 9), 3),
        }),
        1 => {
            let names = ["", "a", "b", "→", "long name", "\u{0}", "x\"y", "A", "é"];
            Model::Names(cells(sim, names.len(), 3).into_iter().map(|c| c.into_iter().map(|i| names[i as usize].to_string()).collect()).collect())
        }
        2..=6 => language(sim)?,
        7 => {
            let mut o = any_opts(sim);
            o.rules = (0, 6);
            Model::Rules(grammar(sim, &o))
        }
        _ => {
            let g = grammar(sim, &normal_opts(sim));
            if lcfrs(&g).map_or(true, |l| !l.in_normal_form()) {
                return Ok(());
            }
            let words = (0..sim.range(1, 3)).map(|_| word(sim, &g, 5)).collect();
            Model::Parser { g, width: sim.range(0, 4), words }
        }
    };
    ev!(sim, "{}", show(&model));
    sim.shape(show(&model).as_bytes());
    if let Model::Part(cells) = &model {
        overlapping(sim, cells)?;
    }
    lives(sim, &model)
}

fn show(m: &Model) -> String {
    match m {
        Model::Rules(g) => g.show(),
        Model::Parser { g, width, words } => format!("{}, width {}, words {:?}", g.show(), width, words),
        m => format!("{:?}", m),
    }
}

fn any_opts(sim: &Sim) -> Opts {
    Opts { nonterminals: (1, 4), terminals: 3, rules: (1, 6), max_fan: 3, max_tail: 3, deleting: true, empty: true, undefined: true, normal: false, repeats: sim.flip(1, 2), ordered: false, ties: sim.flip(1, 2) }
}

/// Cells that overlap are no partition.
fn overlapping(sim: &Sim, cells: &[BTreeSet<u32>]) -> Verdict {
    if cells.is_empty() {
        return Ok(());
    }
    let mut twice = cells.to_vec();
    let from = sim.below(cells.len());
    let x = *sim.pick(&cells[from].iter().cloned().collect::<Vec<_>>());
    if sim.flip(1, 2) || cells.len() == 1 {
        twice.insert(sim.below(cells.len() + 1), vec![x, 100].into_iter().collect());
    } else {
        let to = (from + sim.range(1, cells.len() - 1)) % cells.len();
        twice[to].insert(x);
    }
    ensure!(Partition::new(twice.clone()).is_none(), "partition", "{:?} counts as a partition", twice);
    sim.probe("partition refused");
    // stored as a list of cells, read as a partition
    let bytes = bincode::serialize(&twice, bincode::Infinite).expect("cells");
    match world::catch(|| bincode::deserialize::<Partition<u32>>(&bytes).is_ok()) {
        Err(e) => bail!("panic", "reading the cells {:?} panics: {}", twice, e),
        Ok(ok) => ensure!(!ok, "partition", "{:?} is read as a partition", twice),
    }
    Ok(())
}

fn lives(sim: &Sim, model: &Model) -> Verdict {
    let mut good: Option<Vec<u8>> = None;
    let generations = sim.range(1, 3) + 1;
    for generation in 0..generations {
        let mut spec = world::Spec { hash_seed: world::boot(sim, generation), ..Default::default() };
        if sim.flip(1, 3) {
            spec.stdout_plan.chunk = sim.range(1, 40);
            spec.stdout_plan.eintr = *sim.pick(&[0, 2, 5]);
        }
        let size = good.as_ref().map_or(60, |g| g.len());
        match sim.below(16) {
            0 => spec.stdout_plan.fail_at = Some((sim.below(size + 1), *sim.pick(&[28, 5]))),
            1 => spec.stdout_plan.kill_at = Some(sim.below(size + 1)),
            _ => {}
        }
        let mut cut = false;
        let mut changed = false;
        let mut fails = false;
        if let Some(bytes) = &good {
            let mut bytes = bytes.clone();
            match sim.below(8) {
                0 if !bytes.is_empty() => {
                    let n = sim.below(bytes.len());
                    bytes.truncate(n);
                    cut = true;
                    sim.fault("stored form cut off");
                    ev!(sim, "cut off after {} bytes", n);
                }
                1 | 2 if may_change(model) && !bytes.is_empty() => {
                    for _ in 0..sim.range(1, 3) {
                        let at = sim.below(bytes.len());
                        let to = if sim.flip(1, 2) { bytes[sim.below(bytes.len())] } else { *sim.pick(&[0, 1, 2, 3, 97, 98, 128, 255]) };
                        changed |= bytes[at] != to;
                        bytes[at] = to;
                        ev!(sim, "byte {} becomes {}", at, to);
                    }
                    if changed {
                        sim.fault("stored bytes changed");
                    }
                }
                _ => {}
            }
            let mut plan = world::Plan::default();
            if sim.flip(1, 3) {
                plan.chunk = sim.range(1, 40);
                plan.eintr = *sim.pick(&[0, 2, 5]);
            }
            if sim.flip(1, 16) && !bytes.is_empty() {
                plan.fail_at = Some((sim.below(bytes.len()), 5));
                fails = true;
            }
            spec.disk.insert("/simfs/stored".into(), bytes);
            spec.file_plans.insert("/simfs/stored".into(), plan);
        }
        let source = good.is_some();
        // a stream reader trusts lengths, so it only gets what was written
        let whole = changed || sim.flip(1, 2);
        let sim2 = sim.clone();
        sim.step(generation, "live");
        let x = world::process(sim, spec, move || live(&sim2, model, source, whole, changed));
        let step = match x.result {
            Err(p) => bail!("panic", "{}: {}", show(model), p),
            Ok(r) => r?,
        };
        match step {
            Step::Refused(e) => {
                ev!(sim, "refused: {}", e);
                sim.probe_if(cut, "stored form cut off");
                sim.probe_if(changed, "changed form refused");
                sim.probe_if(fails, "read failed");
                ensure!(cut || changed || fails || x.hard > 0, "refused", "an intact stored form was refused: {}", e);
            }
            Step::Stored(r) => {
                ensure!(!cut, "cut", "a stored form that was cut off was loaded");
                ensure!(!fails, "swallowed", "a failing read went unnoticed");
                if changed {
                    sim.probe("stored form changed");
                    sim.probe("changed form loaded");
                    continue;
                }
                sim.probe_if(generation == 2 && source, "third generation");
                if x.killed {
                    sim.probe("store crashed");
                } else if x.hard > 0 {
                    ensure!(r.is_err(), "swallowed", "a failing write went unnoticed");
                    sim.probe("store failed");
                } else {
                    ensure!(r.is_ok(), "store", "storing failed: {:?}", r);
                    if let Some(g) = &good {
                        if same_bytes(model) {
                            ensure!(*g == x.stdout, "stored form", "stored again, {} bytes become {} other bytes", g.len(), x.stdout.len());
                        }
                    }
                    good = Some(x.stdout);
                }
            }
        }
    }
    Ok(())
}

fn may_change(m: &Model) -> bool {
    match m {
        Model::Part(_) | Model::Names(_) | Model::Rules(_) => true,
        _ => false,
    }
}

fn same_bytes(m: &Model) -> bool {
    may_change(m)
}

fn live(sim: &Sim, model: &Model, source: bool, whole: bool, changed: bool) -> Result<Step, Violation> {
    match model {
        Model::Part(c) => cycle(source, whole, || Partition::new(c.clone()).expect("partition"), |p| partition(p, c, changed)),
        Model::Names(c) => cycle(source, whole, || Partition::new(c.clone()).expect("partition"), |p| partition(p, c, changed)),
        Model::Rules(g) => cycle(source, whole, || g.pmcfg_rules(|w| w), |r: &Vec<PMCFGRule<String, String, f64>>| {
            if changed {
                let again = bincode::serialize(r, bincode::Infinite).expect("rules");
                let back: Vec<PMCFGRule<String, String, f64>> = bincode::deserialize(&again).expect("rules");
                ensure!(format!("{:?}", r) == format!("{:?}", back), "rules", "{:?} comes back as {:?}", r, back);
            } else {
                let want = g.pmcfg_rules(|w| w);
                ensure!(*r == want, "rules", "{:?} instead of {:?}", r, want);
            }
            Ok(())
        }),
        Model::Dyck { cells, sorts, words } => cycle(
            source,
            whole,
            || {
                let p = Partition::new(cells.clone()).expect("partition");
                match sorts {
                    None => MultipleDyckLanguage::new(p),
                    Some(s) => MultipleDyckLanguage::sorted(p, |x| s[*x as usize]),
                }
            },
            |l| {
                for _ in 0..words.len() + sim.below(3) {
                    let (w, yes) = sim.pick(words);
                    let got = l.recognize(w);
                    ensure!(got == *yes, "membership", "{:?} in the multiple Dyck language of {:?}, sorts {:?}: {}", w, cells, sorts, got);
                }
                Ok(())
            },
        ),
        Model::Parser { g, width, words } => cycle(
            source,
            whole,
            || CSRepresentation::new(lcfrs(g).expect("grammar"), *width),
            |cs: &CSRepresentation<String, String, W>| parser(sim, g, *width, words, cs),
        ),
    }
}

/// The life of one process: build or load, use, store.
fn cycle<T: Serialize + DeserializeOwned>(source: bool, whole: bool, build: impl FnOnce() -> T, check: impl FnOnce(&T) -> Verdict) -> Result<Step, Violation> {
    let value = if source {
        let read = || -> Result<T, String> {
            let f = File::open("/simfs/stored").map_err(|e| e.to_string())?;
            if whole {
                let mut v = Vec::new();
                BufReader::new(f).read_to_end(&mut v).map_err(|e| e.to_string())?;
                bincode::deserialize(&v).map_err(|e| e.to_string())
            } else {
                bincode::deserialize_from(&mut BufReader::new(f), bincode::Infinite).map_err(|e| e.to_string())
            }
        };
        match read() {
            Err(e) => return Ok(Step::Refused(e)),
            Ok(v) => v,
        }
    } else {
        build()
    };
    check(&value)?;
    let out = std::io::stdout();
    let mut out = out.lock();
    let r = bincode::serialize_into(&mut out, &value, bincode::Infinite).map_err(|e| e.to_string());
    Ok(Step::Stored(r.and_then(|()| out.flush().map_err(|e| e.to_string()))))
}

fn partition<T: Ord + Clone + std::fmt::Debug>(p: &Partition<T>, cells: &[BTreeSet<T>], changed: bool) -> Verdict {
    let mut got: Vec<BTreeSet<T>> = p.collapse().into_iter().cloned().collect();
    let all: BTreeSet<T> = got.iter().flat_map(|c| c.iter().cloned()).collect();
    ensure!(got.iter().map(|c| c.len()).sum::<usize>() == all.len(), "cells", "cells {:?} overlap", got);
    ensure!(p.alphabet().cloned().collect::<Vec<T>>() == all.iter().cloned().collect::<Vec<T>>(), "alphabet", "alphabet {:?} of the cells {:?}", p.alphabet().collect::<Vec<_>>(), got);
    for c in &got {
        for x in c {
            ensure!(p.get_cell(x) == Some(c), "cell", "{:?} has cell {:?} instead of {:?}", x, p.get_cell(x), c);
        }
    }
    if !changed {
        got.sort();
        let mut want = cells.to_vec();
        want.sort();
        ensure!(got == want, "cells", "cells {:?} instead of {:?}", got, want);
        for x in cells.iter().flatten() {
            ensure!(p.get_cell(x).is_some(), "cell", "{:?} has no cell", x);
        }
    }
    Ok(())
}

fn parser(sim: &Sim, g: &G, width: usize, words: &[Vec<usize>], cs: &CSRepresentation<String, String, W>) -> Verdict {
    let ix = Index::new(g);
    let fresh: CSRepresentation<String, String, W> = CSRepresentation::new(lcfrs(g).expect("grammar"), width);
    for w in words {
        let tokens: Vec<String> = w.iter().map(|&t| te(t)).collect();
        let list = |c: &CSRepresentation<String, String, W>| -> Result<(Vec<f64>, Vec<Vec<usize>>, bool, bool), Violation> {
            let mut gen = c.build_generator();
            gen.set_candidates(30);
            let (it, fallback) = gen.with_fallback(&tokens);
            let mut ws = Vec::new();
            let mut rs = Vec::new();
            for d in it.take(20) {
                let d = evaluate(g, &ix, &owned(&d), w)?;
                ws.push(d.w);
                rs.push(d.rules);
            }
            let ended = ws.len() < 20;
            rs.sort();
            Ok((ws, rs, ended, fallback.is_some()))
        };
        let (a, ra, _, fa) = list(&fresh)?;
        let (b, rb, _, fb) = list(cs)?;
        ensure!(fa == fb, "fallback", "fallback for {:?}: {} instead of {}", w, fb, fa);
        ensure!(a.len() == b.len() && a.iter().zip(&b).all(|(x, y)| close(*x, *y)), "parses", "weights {:?} instead of {:?} for {:?}", b, a, w);
        let ties = a.windows(2).any(|p| close(p[0], p[1]));
        ensure!(ties || ra == rb, "parses", "parses {:?} instead of {:?} of {:?}", rb, ra, w);
        sim.probe_if(!a.is_empty(), "parses compared");
    }
    Ok(())
}

// ---- multiple Dyck languages

fn language(sim: &Sim) -> Result<Model, Violation> {
    if sim.flip(1, 20) {
        return deep(sim);
    }
    let large = sim.flip(1, 12);
    let (n, most, depth, most_brackets) = if large { (sim.range(7, 70), *sim.pick(&[1, 3, 8]), 8, 48) } else { (sim.range(1, 6), 3, 3, 14) };
    let cells = cells(sim, n, most);
    sim.probe_if(cells.len() > 32, "many cells");
    let sorts = if sim.flip(1, 2) {
        // a cell has one sort, as a rule
        let mut s: Vec<usize> = vec![0; n];
        for c in &cells {
            let k = sim.below(3);
            for x in c {
                s[*x as usize] = if sim.flip(1, 20) { sim.below(3) } else { k };
            }
        }
        sim.probe("sorted language");
        Some(s)
    } else {
        sim.probe("unsorted language");
        None
    };
    // without sorts, every block may belong to many others, which nobody can follow for long
    let most_brackets = if sorts.is_some() { most_brackets } else { 14 };
    let mut words = Vec::new();
    for _ in 0..sim.range(1, 5) {
        let mut budget = sim.range(1, most_brackets / 2);
        let mut w = block(sim, &cells, sorts.as_deref(), &mut budget, depth).concat();
        w.truncate(most_brackets);
        sim.probe_if(w.len() > 20, "long word");
        if sim.flip(1, 2) {
            for _ in 0..sim.range(1, 2) {
                mutate(sim, &mut w, n);
            }
        }
        let plain = plain(&w);
        let got = dyck::recognize(&w);
        ensure!(got == plain, "plain", "{:?} in the Dyck language: {}", w, got);
        let yes = member(sim, &w, &cells, sorts.as_deref(), 0);
        sim.probe(if yes { "member" } else { "non-member" });
        words.push((w, yes));
    }
    Ok(Model::Dyck { cells, sorts, words })
}

/// Words that are nested deep: one cell on each level.
fn deep(sim: &Sim) -> Result<Model, Violation> {
    sim.probe("deep word");
    let n = sim.range(1, 12);
    let most = *sim.pick(&[1, 1, 2, 4]);
    let cells = cells(sim, n, most);
    // singletons can be told apart without sorts
    let sorts = if cells.iter().any(|c| c.len() > 1) || sim.flip(1, 2) {
        let mut s: Vec<usize> = vec![0; n];
        for c in &cells {
            let k = sim.below(3);
            for x in c {
                s[*x as usize] = k;
            }
        }
        Some(s)
    } else {
        None
    };
    let mut words = Vec::new();
    for _ in 0..sim.range(1, 3) {
        let levels = *sim.pick(&[5, 20, 70]);
        let mut primes: Vec<Vec<B>> = Vec::new();
        for _ in 0..sim.range(1, levels) {
            let mut order: Vec<u32> = sim.pick(&cells).iter().cloned().collect();
            sim.shuffle(&mut order);
            let mut pieces: Vec<Vec<B>> = order.iter().map(|x| vec![Bracket::Open(*x)]).collect();
            let mut at = 0;
            for p in primes.drain(..) {
                at = sim.range(at, pieces.len() - 1);
                pieces[at].extend(p);
            }
            for (x, p) in order.iter().zip(pieces.iter_mut()) {
                p.push(Bracket::Close(*x));
            }
            primes = pieces;
        }
        let mut w = primes.concat();
        if sim.flip(1, 2) {
            mutate(sim, &mut w, n);
        }
        let yes = member(sim, &w, &cells, sorts.as_deref(), 0);
        sim.probe_if(yes && w.len() > 60, "deep member");
        words.push((w, yes));
    }
    // plain words may be much longer
    let mut w: Vec<B> = Vec::new();
    let mut open: Vec<u32> = Vec::new();
    let up = *sim.pick(&[2, 3, 5, 9]);
    let most = *sim.pick(&[20, 200, 1200]);
    for _ in 0..sim.range(1, most) {
        if !open.is_empty() && !sim.flip(up, 10) {
            w.push(Bracket::Close(open.pop().unwrap()));
        } else {
            let x = sim.below(n) as u32;
            open.push(x);
            w.push(Bracket::Open(x));
        }
    }
    while let Some(x) = open.pop() {
        w.push(Bracket::Close(x));
    }
    if sim.flip(1, 2) {
        mutate(sim, &mut w, n);
    }
    let got = dyck::recognize(&w);
    ensure!(got == plain(&w), "plain", "a word of {} brackets in the Dyck language: {}: {:?}", w.len(), got, w);
    Ok(Model::Dyck { cells, sorts, words })
}

/// Words for the visits of one node, a prime each.
fn block(sim: &Sim, cells: &[BTreeSet<u32>], sorts: Option<&[usize]>, budget: &mut usize, depth: usize) -> Vec<Vec<B>> {
    block_at(sim, cells, sorts, budget, depth, 0)
}

fn block_at(sim: &Sim, cells: &[BTreeSet<u32>], sorts: Option<&[usize]>, budget: &mut usize, depth: usize, used_up: usize) -> Vec<Vec<B>> {
    let mut primes: Vec<Vec<B>> = Vec::new();
    let mut used = BTreeSet::new();
    let n = if used_up == 0 { sim.range(1, 3) } else { sim.below(3) };
    for _ in 0..n {
        let c = sim.pick(cells);
        if c.len() > *budget {
            continue;
        }
        if let Some(s) = sorts {
            if !used.insert(s[*c.iter().next().unwrap() as usize]) {
                continue;
            }
        }
        *budget -= c.len();
        let mut order: Vec<u32> = c.iter().cloned().collect();
        sim.shuffle(&mut order);
        // what is inside, cut into as many pieces
        let inner = if used_up < depth { block_at(sim, cells, sorts, budget, depth, used_up + 1) } else { vec![] };
        let mut pieces: Vec<Vec<B>> = vec![vec![]; order.len()];
        let mut at = 0;
        for p in inner {
            at = sim.range(at, order.len() - 1);
            pieces[at].extend(p);
        }
        // in among the other primes, in order
        let mut from = 0;
        for (x, p) in order.into_iter().zip(pieces) {
            let mut w = vec![Bracket::Open(x)];
            w.extend(p);
            w.push(Bracket::Close(x));
            let to = sim.range(from, primes.len());
            primes.insert(to, w);
            from = to + 1;
        }
    }
    primes
}

fn mutate(sim: &Sim, w: &mut Vec<B>, n: usize) {
    let b = |sim: &Sim| {
        let x = sim.below(n + 1) as u32;
        if sim.flip(1, 2) {
            Bracket::Open(x)
        } else {
            Bracket::Close(x)
        }
    };
    let len = w.len();
    match sim.below(5) {
        0 if len > 0 => {
            w.remove(sim.below(len));
        }
        1 => w.insert(sim.below(len + 1), b(sim)),
        2 if len > 0 => w[sim.below(len)] = b(sim),
        3 if len > 1 => {
            let i = sim.below(len - 1);
            w.swap(i, i + 1);
        }
        _ => {
            // give one symbol another name, which leaves the nesting alone
            let (x, y) = (sim.below(n) as u32, sim.below(n + 1) as u32);
            for s in w.iter_mut() {
                *s = match *s {
                    Bracket::Open(z) if z == x => Bracket::Open(y),
                    Bracket::Close(z) if z == x => Bracket::Close(y),
                    ref o => o.clone(),
                };
            }
        }
    }
}

fn plain(w: &[B]) -> bool {
    // cancel neighbours until nothing changes
    let mut v = w.to_vec();
    loop {
        let at = v.windows(2).position(|p| match (&p[0], &p[1]) {
            (Bracket::Open(a), Bracket::Close(b)) => a == b,
            _ => false,
        });
        match at {
            Some(i) => {
                v.drain(i..i + 2);
            }
            None => return v.is_empty(),
        }
    }
}

/// The primes of a word: their symbols and what is inside.
fn primes(w: &[B]) -> Option<Vec<(u32, &[B])>> {
    if !plain(w) {
        return None;
    }
    let mut out = Vec::new();
    let mut depth = 0;
    let mut start = 0;
    for (i, s) in w.iter().enumerate() {
        match s {
            Bracket::Open(_) => depth += 1,
            Bracket::Close(x) => {
                depth -= 1;
                if depth == 0 {
                    out.push((*x, &w[start + 1..i]));
                    start = i + 1;
                }
            }
        }
    }
    Some(out)
}

fn member(sim: &Sim, w: &[B], cells: &[BTreeSet<u32>], sorts: Option<&[usize]>, depth: usize) -> bool {
    let ps = match primes(w) {
        Some(ps) => ps,
        None => return false,
    };
    let cell = |x: u32| cells.iter().find(|c| c.contains(&x));
    if ps.iter().any(|p| cell(p.0).is_none()) {
        return false;
    }
    let yes = match sorts {
        Some(s) => {
            let mut groups: BTreeMap<usize, Vec<&(u32, &[B])>> = BTreeMap::new();
            for p in &ps {
                groups.entry(s[p.0 as usize]).or_default().push(p);
            }
            groups.values().all(|g| {
                let c = cell(g[0].0).unwrap();
                let syms: BTreeSet<u32> = g.iter().map(|p| p.0).collect();
                g.len() == c.len() && syms == *c && member(sim, &g.iter().map(|p| p.1).collect::<Vec<_>>().concat(), cells, sorts, depth + 1)
            })
        }
        None => blocks(sim, &ps, &mut vec![false; ps.len()], cells, depth),
    };
    if yes && !ps.is_empty() {
        sim.probe_if(depth > 0, "nested blocks");
        sim.probe_if(ps.iter().any(|p| cell(p.0).unwrap().len() > 1 && !p.1.is_empty()), "component of several visits");
    }
    yes
}

fn blocks(sim: &Sim, ps: &[(u32, &[B])], used: &mut Vec<bool>, cells: &[BTreeSet<u32>], depth: usize) -> bool {
    let first = match used.iter().position(|u| !u) {
        None => return true,
        Some(i) => i,
    };
    let c = cells.iter().find(|c| c.contains(&ps[first].0)).unwrap();
    let rest: Vec<u32> = c.iter().cloned().filter(|x| *x != ps[first].0).collect();
    used[first] = true;
    let mut chosen = vec![first];
    let yes = choose(sim, ps, used, cells, &rest, &mut chosen, depth);
    used[first] = false;
    yes
}

fn choose(sim: &Sim, ps: &[(u32, &[B])], used: &mut Vec<bool>, cells: &[BTreeSet<u32>], rest: &[u32], chosen: &mut Vec<usize>, depth: usize) -> bool {
    if rest.is_empty() {
        let mut order = chosen.clone();
        order.sort();
        let inner: Vec<B> = order.iter().flat_map(|&i| ps[i].1.iter().cloned()).collect();
        return member(sim, &inner, cells, None, depth + 1) && blocks(sim, ps, used, cells, depth);
    }
    for i in 0..ps.len() {
        if !used[i] && ps[i].0 == rest[0] {
            used[i] = true;
            chosen.push(i);
            let yes = choose(sim, ps, used, cells, &rest[1..], chosen, depth);
            chosen.pop();
            used[i] = false;
            if yes {
                return true;
            }
        }
    }
    false
}
