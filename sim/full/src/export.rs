//! C22: derivations separated, exported and read by another process.
use rustomata::grammars::pmcfg::negra::{meets_negra_criteria, noparse, to_negra, DumpMode};
use rustomata::grammars::pmcfg::{evaluate, separate_terminal_rules, to_term, Composition, PMCFGRule, VarT};
use rustomata::util::tree::GornTree;
use simkit::world::{self, Plan, Spec};
use simkit::{bail, ensure, ev, Check, Sim, Verdict};
use std::collections::BTreeMap;

pub const CHECK: Check = Check {
    id: "C22",
    run,
    quick: 120_000,
    thorough: 6_000_000,
    rule: "A run draws 1-4 derivations (up to 24 rules, now and then chains of 60, rarely 620 rules or rules with 30 successors; discontinuous, with unused and repeated components and empty words), lets one process separate terminals from those that mix them, and export all of them, with their words or others, and sentences without parse, to a pipe that is cut into pieces, interrupted, fails or ends with the process at any byte; the next process, with hash seeds of its own, goes on after the last complete block. A consumer reads the blocks back with a reader of its own and compares words, labels and constituents with the derivations.",
    real: &["to_negra, noparse, meets_negra_criteria, separate_terminal_rules, evaluate, to_term", "GornTree, std's standard output"],
    stub: &["the pipe and the end of processes", "the consumer"],
    assumptions: &["words and labels contain no white space and no word looks like the number of a node"],
    must_reach: &["discontinuous", "separated", "several terminals separated", "label in use", "same terminal twice", "unused successor", "no word", "other words", "without parse", "long chain", "many successors", "resumed", "writing failed", "process ended", "node above 509", "hundreds of nodes"],
};

type Rule = PMCFGRule<String, String, u32>;
type Addr = Vec<usize>;

const LABELS: [&str; 9] = ["S", "NP", "VP", "a", "aa", "b", "VROOT", "$.", "Ä|<x>"];
const WORDS: [&str; 9] = ["a", "b", "aa", "c", "der", "„", "(", "3.5", "NP"];

#[derive(Clone, Copy, Debug)]
struct Style {
    mixed: bool,
    deleting: bool,
    repeating: bool,
    empty: bool,
}

/// A random derivation below `at` whose root has `fan` components.
fn draw(sim: &Sim, at: Addr, fan: usize, left: &mut usize, wide: bool, st: Style, out: &mut BTreeMap<Addr, Rule>) -> String {
    let head = sim.pick(&LABELS).to_string();
    let word = || sim.pick(&WORDS).to_string();
    *left = left.saturating_sub(1);
    let n = if *left == 0 {
        0
    } else if wide && at.is_empty() {
        sim.range(11, 30)
    } else if at.is_empty() {
        sim.range(1, 4)
    } else {
        sim.below(4)
    };
    let mut composition: Vec<Vec<VarT<String>>> = vec![vec![]; fan];
    let mut tail = vec![];
    if n == 0 && !st.mixed {
        // a rule of one terminal, or of none
        if !st.empty || sim.flip(3, 4) {
            let i = sim.below(fan);
            composition[i].push(VarT::T(word()));
        }
    } else {
        let mut symbols = vec![];
        for i in 0..n {
            let f = if sim.flip(2, 3) { 1 } else { sim.range(1, 3) };
            let mut a = at.clone();
            a.push(i);
            tail.push(draw(sim, a, f, left, false, st, out));
            for j in 0..f {
                if st.deleting && sim.flip(1, 6) {
                    continue;
                }
                symbols.push(VarT::Var(i, j));
                if st.repeating && sim.flip(1, 10) {
                    symbols.push(VarT::Var(i, j));
                }
            }
        }
        if st.mixed {
            let least = usize::from(n == 0 && !st.empty);
            for _ in 0..sim.range(least, 3) {
                symbols.push(VarT::T(word()));
            }
        }
        if sim.flip(2, 3) {
            sim.shuffle(&mut symbols);
        }
        for s in symbols {
            let i = sim.below(fan);
            composition[i].push(s);
        }
    }
    let weight = sim.below(5) as u32;
    out.insert(at, PMCFGRule { head: head.clone(), tail, composition: Composition::from(composition), weight });
    head
}

/// A terminal, and the rule it is in.
type Leaf = (String, Addr);

/// The components derived below `at`, with the rule of each terminal.
fn leaves(t: &BTreeMap<Addr, Rule>, at: &[usize]) -> Vec<Vec<Leaf>> {
    let r = &t[at];
    let kids: Vec<Vec<Vec<Leaf>>> = (0..r.tail.len())
        .map(|i| {
            let mut a = at.to_vec();
            a.push(i);
            leaves(t, &a)
        })
        .collect();
    r.composition
        .composition
        .iter()
        .map(|c| {
            let mut v = vec![];
            for s in c {
                match s {
                    VarT::T(w) => v.push((w.clone(), at.to_vec())),
                    VarT::Var(i, j) => v.extend(kids[*i][*j].iter().cloned()),
                }
            }
            v
        })
        .collect()
}

/// It has nonterminals only, or is a single terminal.
fn normal(r: &Rule) -> bool {
    let all: Vec<_> = r.composition.composition.iter().flatten().collect();
    let ts = all.iter().filter(|s| s.is_t()).count();
    ts == 0 || (ts == 1 && all.len() == 1)
}

struct Job {
    /// the derivation exported, None for a sentence without parse
    tree: Option<BTreeMap<Addr, Rule>>,
    sentence: Vec<String>,
    /// printed instead of the words
    other: Option<Vec<String>>,
    /// what the consumer has to find: word, tag, constituent
    words: Vec<(String, String, Addr)>,
}

fn gorn(t: &BTreeMap<Addr, Rule>) -> GornTree<Rule> {
    t.clone().into_iter().collect()
}

fn separate(sim: &Sim, t: BTreeMap<Addr, Rule>) -> Result<BTreeMap<Addr, Rule>, simkit::Violation> {
    let hash = sim.seed();
    let g = gorn(&t);
    sim.step(0, "separate");
    let r = world::task(sim, hash, move || {
        let s = separate_terminal_rules(&g);
        let fine = meets_negra_criteria(&s);
        let e = evaluate(&to_term(&s).0);
        let again = separate_terminal_rules(&s) == s;
        (s, fine, e, again)
    });
    let (s, fine, e, again) = match r {
        Err(p) => bail!("panic", "separating {:?} panicked: {}", t, p),
        Ok(x) => x,
    };
    let s: BTreeMap<Addr, Rule> = s.into_iter().collect();
    ensure!(s.values().all(normal), "normal form", "separating {:?} gives {:?}", t, s);
    ensure!(fine, "criteria", "the criteria do not hold for {:?}", s);
    ensure!(again, "separated twice", "separating {:?} again changes it", s);
    let plain = |c: Vec<Vec<Leaf>>| -> Vec<Vec<VarT<String>>> { c.into_iter().map(|v| v.into_iter().map(|l| VarT::T(l.0)).collect()).collect() };
    let (old, new) = (plain(leaves(&t, &[])), plain(leaves(&s, &[])));
    ensure!(old == new, "words", "separating {:?} gives {:?} with other words", t, s);
    ensure!(e.composition == old, "evaluate", "{:?} is evaluated to {}", s, e);
    let heads: Vec<&String> = t.values().map(|r| &r.head).collect();
    for (a, r) in &s {
        for (i, b) in r.tail.iter().enumerate() {
            let mut c = a.clone();
            c.push(i);
            ensure!(s.get(&c).map(|k| &k.head) == Some(b), "tail", "successor {} at {:?} is not {}: {:?}", i, a, b, s);
        }
        match t.get(a) {
            Some(o) => {
                ensure!(o.head == r.head && o.weight == r.weight && r.tail.starts_with(&o.tail), "rule", "{} at {:?} became {}", o, a, r);
                if normal(o) {
                    ensure!(o.tail == r.tail && o.composition == r.composition, "rule", "{} at {:?} became {}", o, a, r);
                }
            }
            None => {
                ensure!(r.tail.is_empty(), "rule", "new rule {} at {:?}", r, a);
                ensure!(a.last().is_some() && t.contains_key(&a[..a.len() - 1]), "rule", "new rule at {:?}", a);
                ensure!(!heads.contains(&&r.head), "label", "new rule {} at {:?} has a label in use", r, a);
                let w = r.composition.composition.iter().flatten().next();
                if let Some(VarT::T(w)) = w {
                    sim.probe_if(*w != r.head, "label in use");
                    ensure!(!r.head.is_empty() && r.head.replace(w.as_str(), "").is_empty(), "label", "{} is no name for {}", r.head, w);
                }
            }
        }
    }
    for a in t.keys() {
        ensure!(s.contains_key(a), "rule", "the rule at {:?} of {:?} is lost", a, t);
    }
    sim.probe_if(s.len() > t.len(), "separated");
    sim.probe_if(s.len() > t.len() + 1, "several terminals separated");
    sim.probe_if(
        t.values().any(|r| {
            let mut ts: Vec<_> = r.composition.composition.iter().flatten().filter(|x| x.is_t()).map(|x| x.unwrap_t()).collect();
            let n = ts.len();
            ts.sort();
            ts.dedup();
            ts.len() < n
        }),
        "same terminal twice",
    );
    Ok(s)
}

fn job(sim: &Sim) -> Result<Job, simkit::Violation> {
    if sim.flip(1, 8) {
        sim.probe("without parse");
        let n = sim.below(6);
        let sentence: Vec<String> = (0..n).map(|_| sim.pick(&WORDS).to_string()).collect();
        let other = if sim.flip(1, 2) { Some((0..n).map(|_| sim.pick(&LABELS).to_string()).collect()) } else { None };
        return Ok(Job { tree: None, sentence, other, words: vec![] });
    }
    let mixed = sim.flip(1, 2);
    let style = Style { mixed, deleting: sim.flip(1, 4), repeating: sim.flip(1, 6), empty: sim.flip(1, 4) };
    let wide = sim.flip(1, 30);
    sim.probe_if(wide, "many successors");
    let mut left = sim.range(2, if wide { 60 } else { 24 });
    let mut t = BTreeMap::new();
    let chain = if sim.flip(1, 1500) {
        sim.probe("hundreds of nodes");
        sim.range(480, 620)
    } else if sim.flip(1, 40) {
        sim.range(20, 60)
    } else {
        0
    };
    sim.probe_if(chain > 0, "long chain");
    let top: Addr = vec![0; chain];
    let mut below = draw(sim, top, 1, &mut left, wide, style, &mut t);
    for i in (0..chain).rev() {
        let head = sim.pick(&LABELS).to_string();
        let c = Composition::from(vec![vec![VarT::Var(0, 0)]]);
        t.insert(vec![0; i], PMCFGRule { head: head.clone(), tail: vec![below], composition: c, weight: 1 });
        below = head;
    }
    ev!(sim, "derivation {:?}", t);
    sim.shape(format!("{:?}", t).as_bytes());
    let is_normal = t.values().all(normal);
    let g = gorn(&t);
    let says = world::task(sim, sim.seed(), move || meets_negra_criteria(&g));
    ensure!(says == Ok(is_normal), "criteria", "{:?} is called normal: {:?}", t, says);
    let t = if is_normal && sim.flip(3, 4) { t } else { separate(sim, t)? };
    let found: Vec<Leaf> = leaves(&t, &[]).concat();
    // which constituents have several parts
    let mut below: BTreeMap<&[usize], Vec<usize>> = BTreeMap::new();
    for (i, (_, a)) in found.iter().enumerate() {
        for k in 0..a.len() {
            below.entry(&a[..k]).or_default().push(i);
        }
    }
    sim.probe_if(below.values().any(|v| v.windows(2).any(|w| w[1] > w[0] + 1)), "discontinuous");
    sim.probe_if(t.keys().any(|a| !below.contains_key(&a[..]) && !found.iter().any(|l| l.1 == *a)), "unused successor");
    sim.probe_if(found.is_empty(), "no word");
    sim.probe_if(below.len() > 10, "node above 509");
    let sentence: Vec<String> = found.iter().map(|l| l.0.clone()).collect();
    let other: Option<Vec<String>> = if sim.flip(1, 4) { Some(sentence.iter().enumerate().map(|(i, _)| format!("w{}", i)).collect()) } else { None };
    sim.probe_if(other.is_some() && !sentence.is_empty(), "other words");
    let words = found
        .iter()
        .enumerate()
        .map(|(i, (w, a))| {
            let w = other.as_ref().map_or(w, |o| &o[i]);
            (w.clone(), t[a].head.clone(), a[..a.len().saturating_sub(1)].to_vec())
        })
        .collect();
    if found.iter().any(|l| l.1.is_empty()) {
        // the root is a terminal: cannot be exported by design
        return job(sim);
    }
    Ok(Job { tree: Some(t), sentence, other, words })
}

/// A block as the consumer reads it.
struct Block {
    id: usize,
    words: Vec<(String, String, usize)>,
    nodes: BTreeMap<usize, (String, usize)>,
}

fn columns(l: &str) -> Result<(String, String, usize), String> {
    let c: Vec<&str> = l.split('\t').collect();
    if c.len() != 5 || c[2] != "--" || c[3] != "--" {
        return Err(format!("line {:?}", l));
    }
    Ok((c[0].to_string(), c[1].to_string(), c[4].parse().map_err(|_| format!("line {:?}", l))?))
}

/// The complete blocks of a stream and what is left over.
fn read(text: &str) -> Result<(Vec<Block>, usize), String> {
    let mut blocks = vec![];
    let mut used = 0;
    let mut at = 0;
    let mut open: Option<Block> = None;
    for l in text.split_inclusive('\n') {
        at += l.len();
        if !l.ends_with('\n') {
            break;
        }
        let l = &l[..l.len() - 1];
        match (&mut open, l.strip_prefix("#BOS "), l.strip_prefix("#EOS ")) {
            (None, Some(n), _) => {
                open = Some(Block { id: n.parse().map_err(|_| format!("line {:?}", l))?, words: vec![], nodes: BTreeMap::new() })
            }
            (Some(b), None, Some(n)) => {
                if n != b.id.to_string() {
                    return Err(format!("block {} ends with {:?}", b.id, l));
                }
                used = at;
                blocks.extend(open.take());
            }
            (Some(b), None, None) => {
                let (w, tag, up) = columns(l)?;
                match w.strip_prefix('#').and_then(|n| n.parse::<usize>().ok()) {
                    Some(n) => {
                        if b.nodes.insert(n, (tag, up)).is_some() {
                            return Err(format!("two nodes {} in block {}", n, b.id));
                        }
                    }
                    None if b.nodes.is_empty() => b.words.push((w, tag, up)),
                    None => return Err(format!("word {:?} behind nodes", w)),
                }
            }
            _ => return Err(format!("line {:?}", l)),
        }
    }
    Ok((blocks, used))
}

fn judge(j: &Job, b: &Block) -> Verdict {
    let show = || format!("{:?}: words {:?}, nodes {:?}", j.tree, b.words, b.nodes);
    let t = match &j.tree {
        None => {
            let up = b.nodes.keys().next().cloned().unwrap_or(0);
            // with other words, what was parsed are the tags
            let want: Vec<_> = match &j.other {
                Some(o) => o.iter().zip(&j.sentence).map(|(w, t)| (w.clone(), t.clone(), up)).collect(),
                None => j.sentence.iter().map(|w| (w.clone(), "--".to_string(), up)).collect(),
            };
            ensure!(b.words == want, "without parse", "{:?} gives the words {:?}", want, b.words);
            ensure!(b.nodes.len() == 1 && b.nodes[&up] == ("NOPARSE".to_string(), 0), "without parse", "a sentence without parse has the nodes {:?}", b.nodes);
            return Ok(());
        }
        Some(t) => t,
    };
    ensure!(b.words.len() == j.words.len(), "words", "{} words instead of {}: {}", b.words.len(), j.words.len(), show());
    let mut number: BTreeMap<Addr, usize> = BTreeMap::new();
    let mut node: BTreeMap<usize, Addr> = BTreeMap::new();
    number.insert(vec![], 0);
    node.insert(0, vec![]);
    let mut same = |a: &Addr, n: usize| *number.entry(a.clone()).or_insert(n) == n && node.entry(n).or_insert_with(|| a.clone()) == a;
    let mut todo: Vec<(Addr, usize)> = vec![];
    for (i, (got, want)) in b.words.iter().zip(&j.words).enumerate() {
        ensure!(got.0 == want.0, "words", "word {} is {:?} instead of {:?}: {}", i, got.0, want.0, show());
        ensure!(got.1 == want.1, "tag", "word {} is labelled {:?} instead of {:?}: {}", i, got.1, want.1, show());
        ensure!(same(&want.2, got.2), "constituent", "word {} is below node {}, not the one of {:?}: {}", i, got.2, want.2, show());
        todo.push((want.2.clone(), got.2));
    }
    let mut done: BTreeMap<usize, ()> = BTreeMap::new();
    while let Some((a, n)) = todo.pop() {
        if a.is_empty() || done.insert(n, ()).is_some() {
            continue;
        }
        let (label, up) = match b.nodes.get(&n) {
            None => bail!("constituent", "node {} is missing: {}", n, show()),
            Some(x) => x,
        };
        ensure!(*label == t[&a].head, "label", "node {} is labelled {:?} instead of {:?}: {}", n, label, t[&a].head, show());
        let parent = a[..a.len() - 1].to_vec();
        ensure!(same(&parent, *up), "constituent", "node {} is below node {}, not the one of {:?}: {}", n, up, parent, show());
        todo.push((parent, *up));
    }
    ensure!(done.len() == b.nodes.len(), "constituent", "{} nodes instead of {}: {}", b.nodes.len(), done.len(), show());
    Ok(())
}

fn run(sim: &Sim) -> Verdict {
    let jobs: Vec<Job> = (0..sim.range(1, 4)).map(|_| job(sim)).collect::<Result<_, _>>()?;
    let first = sim.below(3);
    let mut done = 0;
    let mut p = 0;
    while done < jobs.len() {
        let hash = world::boot(sim, p);
        sim.probe_if(p > 0 && done > 0, "resumed");
        let mut plan = Plan { chunk: *sim.pick(&[0, 1, 7, 30]), eintr: *sim.pick(&[0, 3]), ..Plan::default() };
        if p < 3 && sim.flip(1, 3) {
            let at = sim.below(if sim.flip(1, 2) { 60 } else { 900 });
            if sim.flip(1, 2) {
                plan.fail_at = Some((at, *sim.pick(&[32, 28, 5])));
            } else {
                plan.kill_at = Some(at);
            }
        }
        let broken = plan.fail_at.is_some() || plan.kill_at.is_some();
        ev!(sim, "process {} goes on at block {}, pipe {:?}", p, done, plan);
        let todo = &jobs[done..];
        let from = first + done;
        let spec = Spec { hash_seed: hash, stdout_plan: plan, ..Spec::default() };
        let x = world::process(sim, spec, move || {
            for (i, j) in todo.iter().enumerate() {
                let mode = j.other.clone().map_or(DumpMode::Default, DumpMode::FromPos);
                match &j.tree {
                    Some(t) => println!("{}", to_negra(&gorn(t), from + i, mode)),
                    None => println!("{}", noparse(&j.sentence, from + i, mode)),
                }
            }
        });
        ev!(sim, "process {}: {:?}, {} bytes", p, x.result.as_ref().err(), x.stdout.len());
        sim.probe_if(x.hard > 0, "writing failed");
        sim.probe_if(x.killed, "process ended");
        if let (Err(e), false, 0) = (&x.result, x.killed, x.hard) {
            bail!("panic", "the export panicked: {}", e);
        }
        let text = String::from_utf8_lossy(&x.stdout).to_string();
        let (blocks, used) = match read(&text) {
            Ok(x) => x,
            Err(e) => bail!("format", "the export cannot be read, {}: {:?}", e, text),
        };
        if !broken {
            ensure!(used == text.len() && blocks.len() == todo.len(), "format", "{} blocks instead of {}: {:?}", blocks.len(), todo.len(), text);
        }
        ensure!(blocks.len() <= todo.len(), "format", "{} blocks instead of {}", blocks.len(), todo.len());
        for (i, b) in blocks.iter().enumerate() {
            ensure!(b.id == from + i, "number", "block {} has the number {}", from + i, b.id);
            judge(&todo[i], b)?;
        }
        done += blocks.len();
        p += 1;
    }
    Ok(())
}
