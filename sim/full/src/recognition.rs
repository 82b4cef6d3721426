//! C14: recognition sessions of automata.
//! C15: coarse-to-fine recognition.
use crate::machine::{act, sym, Ins, Machine, Plain, Run, Store, W};
use crate::mcfg_gen::{grammar, nt, parses, te, word, Opts, G};
use log_domain::LogDomain;
use rustomata::approximation::relabel::RlbElement;
use rustomata::approximation::tts::TTSElement;
use rustomata::approximation::{ApproximationInstance, ApproximationStrategy};
use rustomata::automata::finite_state_automaton::FiniteStateAutomaton;
use rustomata::automata::push_down_automaton::{PushDown, PushDownAutomaton, PushDownInstruction, PushState};
use rustomata::automata::tree_stack_automaton::{PosState, TreeStack, TreeStackAutomaton, TreeStackInstruction};
use rustomata::grammars::pmcfg::PMCFGRule;
use rustomata::recognisable::automaton::{recognise, recognise_beam, Automaton};
use rustomata::recognisable::coarse_to_fine::CoarseToFineRecogniser;
use rustomata::recognisable::{Instruction, Item, Recognisable, Transition};
use rustomata::util::push_down::Pushdown;
use simkit::{bail, ensure, ev, world, Check, Sim, Verdict};
use std::collections::{BTreeMap, BinaryHeap, HashMap};
use std::fmt::Debug;
use std::hash::Hash;
use std::rc::Rc;

pub const C14: Check = Check {
    id: "C14",
    run: run14,
    quick: 80_000,
    thorough: 3_000_000,
    rule: "A run draws a push-down, tree-stack or finite-state automaton (from transitions, text, a CFG or a PMCFG) with finitely many runs for 1-3 drawn words, and in 1-2 processes with hash seeds of their own lets the scheduler open, pull, abandon and repeat up to 6 recognitions of these words on one automaton, with and without beam. Every enumerated run is matched with one found by trying all transitions on plain values; complete recognitions must have all of them. For grammars the runs are compared with the derivations.",
    real: &["Automaton, recognise, recognise_beam, check_run", "PushDownAutomaton, TreeStackAutomaton, FiniteStateAutomaton with storages, instructions and integerisation", "conversion of CFG and PMCFG to automata", "search and its agendas"],
    stub: &["integeriser crate; hash seeds of processes"],
    assumptions: &["push-down automata never remove the bottom symbol and every instruction pops a symbol", "weights in (0, 1], no endless runs for the word", "components of a PMCFG successor are visited in order (assumed by the conversion)", "floating-point rounding: weights are compared up to 1e-9 relative"],
    must_reach: &["all runs compared", "ambiguous word", "no run", "unknown terminal", "session abandoned", "repeated session", "with beam", "beam cut runs", "wide beam", "equal weights", "push-down automaton", "tree-stack automaton", "finite-state automaton", "automaton of a CFG", "automaton of a PMCFG", "grammar derivations compared", "run moved up again", "run checked", "built from what it lists"],
};

pub const C15: Check = Check {
    id: "C15",
    run: run15,
    quick: 30_000,
    thorough: 2_000_000,
    rule: "A run draws an automaton (push-down or tree-stack, from transitions, a CFG or a PMCFG), a stack of 1-3 approximations (tree-stack to push-down, relabelling by drawn classes) and 1-3 words with finitely many runs in all of them. In 1-2 processes with hash seeds of their own, every approximated automaton is compared with the image of the finer one, and the scheduler opens, pulls, abandons and repeats up to 6 coarse-to-fine recognitions sharing one recogniser; each enumerated run is matched with a run of the finest automaton found by trying all transitions; walks through the storages of both sides must stay together.",
    real: &["CoarseToFineRecogniser and its macro", "ApproximationStrategy, ApproximationInstance, RlbElement, TTSElement", "Automaton, recognise, check_run, automata and storages", "search and its agendas"],
    stub: &["integeriser crate; hash seeds of processes"],
    assumptions: &["push-down automata never remove the bottom symbol and every instruction pops a symbol", "weights in (0, 1], no endless runs for the word on any level", "floating-point rounding: weights are compared up to 1e-9 relative"],
    must_reach: &["all runs compared", "ambiguous word", "no run", "session abandoned", "repeated session", "relabelled", "relabelled twice", "tree stack flattened", "tree stack flattened and relabelled", "coarse transition for several", "several coarse runs", "coarse run without a fine one", "coarse word not in the fine language", "several fine runs of one coarse run", "walked"],
};

fn weight(x: u32) -> W {
    LogDomain::new(f64::from(x) / 16.0).expect("weight")
}

fn close(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-9 * a.abs().max(b.abs())
}

type PdT = Transition<PushDownInstruction<String>, String, W>;
type TsT = Transition<TreeStackInstruction<String>, String, W>;

/// An automaton to be built.
#[derive(Clone, Debug)]
pub enum Draft {
    Pd(Vec<PdT>, Vec<String>),
    Ts(Vec<TsT>, String),
    Fs(String),
    Cfg(G),
    Pmcfg(G),
}

const TERMINALS: &[&str] = &["a", "b", "c"];

fn read(sim: &Sim, most: usize) -> Vec<String> {
    let n = *sim.pick(&[0, 1, 1, 1, 2, 3]);
    (0..n.min(most)).map(|_| sim.pick(&TERMINALS[..2 + sim.below(2)]).to_string()).collect()
}

fn some_weight(sim: &Sim) -> u32 {
    if sim.flip(1, 2) {
        *sim.pick(&[8, 4, 16])
    } else {
        sim.range(1, 16) as u32
    }
}

/// Rarely more than usual.
fn rarely(sim: &Sim, usual: usize, most: usize) -> usize {
    if sim.flip(1, 20) {
        most
    } else {
        usual
    }
}

fn draw_pd(sim: &Sim) -> Draft {
    let syms: Vec<String> = (0..sim.range(2, rarely(sim, 5, 20))).map(|i| format!("A{}", i)).collect();
    let some = |sim: &Sim| sim.pick(&syms).clone();
    let init: Vec<String> = (0..sim.range(1, rarely(sim, 3, 8))).map(|_| some(sim)).collect();
    let n = sim.range(1, rarely(sim, 10, 50));
    let mut trs: Vec<PdT> = Vec::new();
    for _ in 0..n {
        let cur: Vec<String> = (0..*sim.pick(&[1, 1, 2])).map(|_| some(sim)).collect();
        let new: Vec<String> = (0..*sim.pick(&[0, 0, 1, 1, 2, 3])).map(|_| some(sim)).collect();
        trs.push(Transition { word: read(sim, 3), weight: weight(some_weight(sim)), instruction: PushDownInstruction::Replace { current_val: cur, new_val: new } });
    }
    if sim.flip(1, 6) {
        let mut t = sim.pick(&trs).clone();
        t.weight = weight(some_weight(sim));
        trs.push(t);
    }
    Draft::Pd(trs, init)
}

pub fn draw_ts(sim: &Sim) -> Draft {
    let syms: Vec<String> = (0..sim.range(2, rarely(sim, 5, 12))).map(|i| format!("A{}", i)).collect();
    let some = |sim: &Sim| sim.pick(&syms).clone();
    let n = sim.range(2, rarely(sim, 12, 60));
    let wide = sim.range(1, rarely(sim, 2, 6));
    let mut trs: Vec<TsT> = Vec::new();
    for _ in 0..n {
        let ins = match sim.below(5) {
            0 | 1 => TreeStackInstruction::Push { n: sim.below(wide), current_val: some(sim), new_val: some(sim) },
            2 => TreeStackInstruction::Up { n: sim.below(wide), current_val: some(sim), old_val: some(sim), new_val: some(sim) },
            _ => TreeStackInstruction::Down { current_val: some(sim), old_val: some(sim), new_val: some(sim) },
        };
        trs.push(Transition { word: read(sim, 3), weight: weight(some_weight(sim)), instruction: ins });
    }
    if sim.flip(1, 6) {
        let mut t = sim.pick(&trs).clone();
        t.weight = weight(some_weight(sim));
        trs.push(t);
    }
    Draft::Ts(trs, some(sim))
}

fn draw_fs(sim: &Sim) -> Draft {
    let q = sim.range(1, rarely(sim, 5, 20));
    let mut s = format!("initial: q{}\n", sim.below(q));
    let f: Vec<String> = (0..sim.range(1, rarely(sim, 2, 6))).map(|_| format!("q{}", sim.below(q))).collect();
    s.push_str(&format!("final: [{}]\n", f.join(", ")));
    for _ in 0..sim.range(1, rarely(sim, 10, 60)) {
        let w: Vec<String> = read(sim, 3);
        s.push_str(&format!("Transition [{}] (q{} -> q{}) # {}\n", w.join(", "), sim.below(q), sim.below(q), f64::from(some_weight(sim)) / 16.0));
    }
    Draft::Fs(s)
}

pub fn opts(sim: &Sim, cfg: bool) -> Opts {
    Opts {
        nonterminals: (1, sim.range(2, rarely(sim, 5, 12))),
        terminals: sim.range(1, 3),
        rules: (1, sim.range(2, rarely(sim, 10, 30))),
        max_fan: if cfg { 1 } else { *sim.pick(&[1, 2, 2, 3, 2, 2, 3, 5]) },
        max_tail: sim.range(1, rarely(sim, 3, 6)),
        deleting: false,
        empty: sim.flip(1, 4),
        undefined: sim.flip(1, 6),
        normal: false,
        repeats: false,
        ordered: true,
        ties: sim.flip(1, 2),
    }
}

fn draft(sim: &Sim, fs: bool) -> Draft {
    match sim.below(if fs { 5 } else { 4 }) {
        0 => draw_pd(sim),
        1 => draw_ts(sim),
        2 => Draft::Cfg(grammar(sim, &opts(sim, true))),
        3 => Draft::Pmcfg(grammar(sim, &opts(sim, false))),
        _ => draw_fs(sim),
    }
}

/// An automaton, ready to be used.
pub type PmS = PosState<PMCFGRule<String, String, W>>;
pub type CfS = PushState<String, String>;
enum Built {
    Pd(PushDownAutomaton<String, String, W>),
    Ts(TreeStackAutomaton<String, String, W>),
    Fs(FiniteStateAutomaton<String, String, W>),
    Cfg(PushDownAutomaton<CfS, String, W>),
    Pmcfg(TreeStackAutomaton<PmS, String, W>),
}

fn build(d: &Draft) -> Built {
    match d {
        Draft::Pd(t, i) => Built::Pd(PushDownAutomaton::new(t.clone(), PushDown::from(i.clone()))),
        Draft::Ts(t, i) => Built::Ts(TreeStackAutomaton::new(t.clone(), TreeStack::new(i.clone()))),
        Draft::Fs(s) => Built::Fs(s.parse().expect("text")),
        Draft::Cfg(g) => Built::Cfg(g.cfg(|x| LogDomain::new(x).unwrap()).into()),
        Draft::Pmcfg(g) => Built::Pmcfg(g.pmcfg(|x| LogDomain::new(x).unwrap()).into()),
    }
}

fn machine_of<A>(a: &A) -> Machine
where
    A: Automaton<String, W>,
    A::I: Plain<Storage = <A::I as Instruction>::Storage>,
    A::I: Instruction,
{
    let mut trs: Vec<_> = a.transitions().map(|t| (act(&t), t.weight.value())).collect();
    trs.sort_by(|a, b| a.partial_cmp(b).unwrap());
    Machine { init: <A::I as Plain>::store(&a.initial()), finals: vec![], trs }
}

/// The machine a draft describes, if it is written down by transitions.
fn machine_drawn(d: &Draft) -> Option<Machine> {
    let mut m = match d {
        Draft::Pd(ts, i) => {
            // equal transitions are one
            let mut sum: BTreeMap<_, f64> = BTreeMap::new();
            for t in ts {
                *sum.entry(act(t)).or_insert(0.0) += t.weight.value();
            }
            Machine { init: Store::Stack(i.iter().map(sym).collect()), finals: vec![], trs: sum.into_iter().collect() }
        }
        Draft::Ts(ts, i) => Machine {
            init: Store::Tree(vec![(vec![], sym(i))].into_iter().collect(), vec![]),
            finals: vec![],
            trs: ts.iter().map(|t| (act(t), t.weight.value())).collect(),
        },
        Draft::Fs(s) => {
            let mut m = Machine { init: Store::State(String::new()), finals: vec![], trs: vec![] };
            for l in s.lines() {
                let list = |l: &str| -> Vec<String> {
                    let a = l.find('[').unwrap();
                    let b = l.find(']').unwrap();
                    l[a + 1..b].split(", ").filter(|x| !x.is_empty()).map(String::from).collect()
                };
                if l.starts_with("initial: ") {
                    m.init = Store::State(sym(&&l["initial: ".len()..]));
                } else if l.starts_with("final:") {
                    m.finals = list(l).iter().map(sym).collect();
                } else {
                    let a = l.find('(').unwrap();
                    let b = l.find(')').unwrap();
                    let mut it = l[a + 1..b].split(" -> ");
                    let ins = Ins::Go(sym(&it.next().unwrap()), sym(&it.next().unwrap()));
                    m.trs.push(((list(l), ins), l[l.find('#').unwrap() + 1..].trim().parse().unwrap()));
                }
            }
            m
        }
        _ => return None,
    };
    m.trs.sort_by(|a, b| a.partial_cmp(b).unwrap());
    Some(m)
}

fn same_machine(got: &Machine, want: &Machine) -> bool {
    got.init == want.init
        && got.trs.len() == want.trs.len()
        && got.trs.iter().zip(&want.trs).all(|(a, b)| a.0 == b.0 && close(a.1, b.1))
}

pub fn words(sim: &Sim, d: &Draft, m: &Machine) -> Vec<Vec<String>> {
    let len = sim.range(1, rarely(sim, 6, 24));
    (0..sim.range(1, 3))
        .map(|_| {
            let mut w: Vec<String> = match d {
                Draft::Cfg(g) | Draft::Pmcfg(g) if sim.flip(2, 3) => word(sim, g, len).into_iter().map(te).collect(),
                _ => m.word(sim, len),
            };
            if sim.flip(1, 8) && !w.is_empty() {
                let at = sim.below(w.len());
                w[at] = sim.pick(&["a", "b", "zz"]).to_string();
            }
            w
        })
        .collect()
}

const CAP: usize = 1500;

pub struct Case14 {
    pub d: Draft,
    m: Machine,
    pub ws: Vec<Vec<String>>,
    all: Vec<Vec<Run>>,
}

/// An automaton and words with finitely many runs.
pub fn case14(sim: &Sim) -> Result<Option<Case14>, simkit::Violation> {
    for _ in 0..6 {
        let d = draft(sim, true);
        let m = match plain(sim, &d)? {
            Some(m) => m,
            None => return Ok(None),
        };
        let ws = words(sim, &d, &m);
        let all: Option<Vec<Vec<Run>>> = ws.iter().map(|w| m.runs(w, CAP)).collect();
        if let Some(all) = all {
            return Ok(Some(Case14 { d, m, ws, all }));
        }
    }
    Ok(None)
}

fn run14(sim: &Sim) -> Verdict {
    match case14(sim)? {
        Some(c) => with14(sim, &c.d, &c.m, &c.ws, &c.all),
        None => Ok(()),
    }
}

/// Transitions and runs by weight and content: for each list its entries.
pub type Listing = Vec<Vec<(f64, String)>>;

fn listing<A>(a: &A, ws: &[&Vec<String>]) -> Listing
where
    A: Automaton<String, W>,
    A::I: Plain<Storage = <A::I as Instruction>::Storage> + Clone + Eq + Instruction,
    <A::I as Instruction>::Storage: Clone + Eq,
    A::IInt: Ord,
    <A::IInt as Instruction>::Storage: Clone + Eq + Ord,
    A::TInt: Clone + Eq + Ord,
{
    let mut res = vec![a.transitions().map(|t| (t.weight.value(), format!("{:?}", act(&t)))).collect()];
    for w in ws {
        res.push(items(recognise(a, w.to_vec())));
    }
    res
}

fn items<S, I: Plain<Storage = S> + Clone>(it: impl Iterator<Item = Item<S, I, String, W>>) -> Vec<(f64, String)> {
    it.map(|Item(c, run)| (c.weight.value(), format!("{:?} {:?}", run.to_vec().iter().map(act).collect::<Vec<_>>(), I::store(&c.storage)))).collect()
}

/// All there is to see of an automaton, for the words in some order.
pub fn listing14(d: &Draft, ws: &[&Vec<String>]) -> Listing {
    match build(d) {
        Built::Pd(a) => listing(&a, ws),
        Built::Ts(a) => listing(&a, ws),
        Built::Fs(a) => listing(&a, ws),
        Built::Cfg(a) => listing(&a, ws),
        Built::Pmcfg(a) => listing(&a, ws),
    }
}

pub fn listing15(c: &Case15, ws: &[&Vec<String>]) -> Listing {
    let c1 = &c.c1;
    let p1 = |s: &String| c1.plain(s);
    let s1 = |s: &CfS| c1.push_state(s);
    macro_rules! go {
        ($a:expr, $s:expr) => {{
            let (b, _) = $s.approximate_automaton(&$a);
            let mut res = listing(&b, ws);
            let rec = coarse_to_fine_recogniser!($a; $s);
            for w in ws {
                res.push(items(rec.recognise(w.to_vec())));
            }
            res
        }};
    }
    match build(&c.d) {
        Built::Pd(a) => go!(a, RlbElement::new(&p1)),
        Built::Cfg(a) => go!(a, RlbElement::new(&s1)),
        Built::Ts(a) => go!(a, TTSElement::new()),
        Built::Pmcfg(a) => go!(a, TTSElement::new()),
        Built::Fs(_) => unreachable!(),
    }
}

/// The machine of a draft; for grammars taken from what the library makes.
pub fn plain(sim: &Sim, d: &Draft) -> Result<Option<Machine>, simkit::Violation> {
    if let Some(m) = machine_drawn(d) {
        return Ok(Some(m));
    }
    let seed = sim.seed();
    let r = world::task(sim, seed, || match build(d) {
        Built::Cfg(a) => Some(machine_of(&a)),
        Built::Pmcfg(a) => Some(machine_of(&a)),
        _ => None,
    });
    match r {
        Err(e) => bail!("panic", "building an automaton for {}: {}", show(d), e),
        Ok(m) => Ok(m),
    }
}

pub fn show(d: &Draft) -> String {
    match d {
        Draft::Cfg(g) => format!("cfg {}", g.show()),
        Draft::Pmcfg(g) => format!("pmcfg {}", g.show()),
        Draft::Fs(s) => s.replace('\n', "; "),
        Draft::Pd(t, i) => format!("push-down {:?} {}", i, t.iter().map(|t| t.to_string()).collect::<Vec<_>>().join("; ")),
        Draft::Ts(t, i) => format!("tree-stack {:?} {}", i, t.iter().map(|t| t.to_string()).collect::<Vec<_>>().join("; ")),
    }
}

fn derivations(sim: &Sim, d: &Draft, ws: &[Vec<String>], all: &[Vec<Run>]) -> Verdict {
    let g = match d {
        Draft::Cfg(g) => {
            let rs: Vec<String> = g.rules.iter().map(|r| { let c = r.cfg(|_| 0.0); format!("{:?} {:?}", c.head, c.composition) }).collect();
            if rs.iter().enumerate().any(|(i, r)| rs[..i].contains(r)) {
                return Ok(());
            }
            g
        }
        Draft::Pmcfg(g) => g,
        _ => return Ok(()),
    };
    for (w, runs) in ws.iter().zip(all) {
        if w.iter().any(|t| t == "zz") {
            continue;
        }
        let w2: Vec<usize> = w.iter().map(|t| usize::from(t.as_bytes()[0] - b'a')).collect();
        if let Some((ps, true)) = parses(g, &w2, 60, 3000) {
            let mut a: Vec<f64> = ps.iter().map(|p| p.w).collect();
            let mut b: Vec<f64> = runs.iter().map(|p| p.w).collect();
            if let (Draft::Pmcfg(_), true, Some(i)) = (d, w.is_empty(), runs.iter().position(|r| r.acts.is_empty())) {
                // the only way to read it is to do nothing
                sim.known("empty run", "the tree-stack automaton of a PMCFG accepts the empty word with a run without transitions, even if the grammar does not derive it");
                b.remove(i);
            }
            a.sort_by(|x, y| x.partial_cmp(y).unwrap());
            b.sort_by(|x, y| x.partial_cmp(y).unwrap());
            ensure!(
                a.len() == b.len() && a.iter().zip(&b).all(|(x, y)| close(*x, *y)),
                "derivations",
                "{:?} has derivations of weight {:?}, the automaton of {} has runs of weight {:?}",
                w, a, show(d), b
            );
            sim.probe_if(!a.is_empty(), "grammar derivations compared");
        }
    }
    Ok(())
}

fn with14(sim: &Sim, d: &Draft, m: &Machine, ws: &[Vec<String>], all: &[Vec<Run>]) -> Verdict {
    ev!(sim, "{}", show(d));
    ev!(sim, "words {:?} with {:?} runs", ws, all.iter().map(|r| r.len()).collect::<Vec<_>>());
    sim.shape(show(d).as_bytes());
    sim.probe(match d {
        Draft::Pd(..) => "push-down automaton",
        Draft::Ts(..) => "tree-stack automaton",
        Draft::Fs(_) => "finite-state automaton",
        Draft::Cfg(_) => "automaton of a CFG",
        Draft::Pmcfg(_) => "automaton of a PMCFG",
    });
    derivations(sim, d, ws, all)?;
    for p in 0..sim.range(1, 2) {
        let seed = world::boot(sim, p);
        let s2 = sim.clone();
        let res = world::task(sim, seed, move || match build(d) {
            Built::Pd(a) => again(&s2, a, true, m, ws, all),
            Built::Ts(a) => {
                by_symbol(&a.transitions(), m)?;
                again(&s2, a, true, m, ws, all)
            }
            // final states are no part of the transitions
            Built::Fs(a) => again(&s2, a, false, m, ws, all),
            Built::Cfg(a) => again(&s2, a, true, m, ws, all),
            Built::Pmcfg(a) => {
                by_symbol(&a.transitions(), m)?;
                again(&s2, a, true, m, ws, all)
            }
        });
        match res {
            Err(e) => bail!("panic", "{}: {}", show(d), e),
            Ok(v) => v?,
        }
    }
    Ok(())
}

/// The transitions as a map.
fn by_symbol<A: Ord + Hash + Debug>(
    map: &HashMap<A, BinaryHeap<Transition<TreeStackInstruction<A>, String, W>>>,
    m: &Machine,
) -> Verdict
where
    TreeStackInstruction<A>: Plain,
{
    let mut trs: Vec<_> = map.values().flatten().map(|t| (act(t), t.weight.value())).collect();
    trs.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let got = Machine { init: m.init.clone(), finals: vec![], trs };
    ensure!(same_machine(&got, m), "automaton", "the map of transitions has {:?} instead of {:?}", got, m);
    for (k, ts) in map {
        for t in ts {
            let from = match &t.instruction {
                TreeStackInstruction::Up { current_val, .. } => current_val,
                TreeStackInstruction::Push { current_val, .. } => current_val,
                TreeStackInstruction::Down { current_val, .. } => current_val,
            };
            ensure!(from == k, "automaton", "a transition for {:?} is listed under {:?}", from, k);
        }
    }
    Ok(())
}

/// The automaton, or one built again from what it lists.
fn again<A>(sim: &Sim, a: A, complete: bool, m: &Machine, ws: &[Vec<String>], all: &[Vec<Run>]) -> Verdict
where
    A: Automaton<String, W>,
    A::I: Plain<Storage = <A::I as Instruction>::Storage> + Clone + Eq + Instruction,
    <A::I as Instruction>::Storage: Clone + Eq,
    A::IInt: Ord,
    <A::IInt as Instruction>::Storage: Clone + Eq + Ord,
    A::TInt: Clone + Eq + Ord,
{
    if !sim.flip(1, 5) {
        return one(sim, &a, m, ws, all);
    }
    let mut ts: Vec<_> = a.transitions().collect();
    ts.sort_by(|a, b| (act(a), a.weight.value()).partial_cmp(&(act(b), b.weight.value())).unwrap());
    sim.shuffle(&mut ts);
    sim.step(0, "build again");
    sim.probe("built from what it lists");
    let b = A::from_transitions(ts, a.initial());
    if complete {
        drop(a);
        one(sim, &b, m, ws, all)
    } else {
        let got = machine_of(&b);
        ensure!(same_machine(&got, m), "automaton", "built again the automaton is {:?} instead of {:?}", got, m);
        one(sim, &a, m, ws, all)
    }
}

fn one<A>(sim: &Sim, a: &A, m: &Machine, ws: &[Vec<String>], all: &[Vec<Run>]) -> Verdict
where
    A: Automaton<String, W>,
    A::I: Plain<Storage = <A::I as Instruction>::Storage> + Clone + Eq + Instruction,
    <A::I as Instruction>::Storage: Clone + Eq,
    A::IInt: Ord,
    <A::IInt as Instruction>::Storage: Clone + Eq + Ord,
    A::TInt: Clone + Eq + Ord,
{
    let got = machine_of(a);
    ensure!(same_machine(&got, m), "automaton", "the automaton is {:?} instead of {:?}", got, m);
    checked_runs(sim, a, m)?;
    let open = |w: &[String], beam: Option<usize>| -> Box<dyn Iterator<Item = Item<<A::I as Instruction>::Storage, A::I, String, W>> + '_> {
        match beam {
            None => Box::new(recognise(a, w.to_vec())),
            Some(b) => Box::new(recognise_beam(a, b, w.to_vec())),
        }
    };
    sessions(sim, &open, ws, all, true, m.trs.iter().all(|t| t.1 <= 1.0))
}

/// Replaying lists of transitions, accepting or not.
fn checked_runs<A>(sim: &Sim, a: &A, m: &Machine) -> Verdict
where
    A: Automaton<String, W>,
    A::I: Plain<Storage = <A::I as Instruction>::Storage> + Clone + Instruction,
{
    if !sim.flip(1, 3) {
        return Ok(());
    }
    let mut ts: Vec<_> = a.transitions().collect();
    if ts.is_empty() {
        return Ok(());
    }
    ts.sort_by(|a, b| (act(a), a.weight.value()).partial_cmp(&(act(b), b.weight.value())).unwrap());
    let mut store = Some(m.init.clone());
    let mut run = Pushdown::new();
    let mut w = 1.0;
    for _ in 0..sim.below(8) {
        let fit: Vec<usize> = match &store {
            Some(s) if !sim.flip(1, 8) => (0..ts.len()).filter(|&i| ts[i].instruction.ins().apply(s).is_some()).collect(),
            _ => (0..ts.len()).collect(),
        };
        if fit.is_empty() {
            break;
        }
        let t = &ts[*sim.pick(&fit)];
        let next = store.as_ref().and_then(|s| t.instruction.ins().apply(s));
        if next == Some(Store::Stack(vec![])) {
            break;
        }
        store = next;
        w *= t.weight.value();
        run = run.push(t.clone());
    }
    sim.step(0, "check run");
    sim.probe("run checked");
    let got: Vec<_> = a.check_run(run.clone());
    ensure!(got.len() == store.iter().count(), "check run", "{} results for {:?}", got.len(), run.to_vec().iter().map(act).collect::<Vec<_>>());
    if let (Some(Item(c, r)), Some(s)) = (got.first(), &store) {
        ensure!(<A::I as Plain>::store(&c.storage) == *s && close(c.weight.value(), w), "check run", "ends in {:?} with weight {} instead of {:?}, {}", <A::I as Plain>::store(&c.storage), c.weight, s, w);
        ensure!(r.to_vec().iter().map(act).eq(run.to_vec().iter().map(act)), "check run", "another run is returned");
    }
    Ok(())
}

struct Session<It> {
    id: usize,
    word: usize,
    beam: Option<usize>,
    it: It,
    left: Vec<Run>,
    weights: Vec<f64>,
}

#[allow(clippy::type_complexity)]
fn sessions<'a, S: 'a, I>(
    sim: &Sim,
    open: &'a dyn Fn(&[String], Option<usize>) -> Box<dyn Iterator<Item = Item<S, I, String, W>> + 'a>,
    ws: &[Vec<String>],
    all: &[Vec<Run>],
    beams: bool,
    ordered: bool,
) -> Verdict
where
    I: Plain<Storage = S> + Clone + 'a,
{
    let most = sim.range(1, 6);
    let mut live: Vec<Session<Box<dyn Iterator<Item = Item<S, I, String, W>> + 'a>>> = Vec::new();
    let mut opened = 0;
    let mut finished = vec![false; ws.len()];
    let sorted: Vec<Vec<f64>> = all
        .iter()
        .map(|rs| {
            let mut v: Vec<f64> = rs.iter().map(|r| r.w).collect();
            v.sort_by(|a, b| b.partial_cmp(a).unwrap());
            v
        })
        .collect();
    loop {
        if live.is_empty() || (opened < most && sim.flip(1, 3)) {
            if opened == most {
                return Ok(());
            }
            opened += 1;
            let wi = sim.below(ws.len());
            let beam = if beams && sim.flip(1, 4) { Some(*sim.pick(&[0, 1, 1, 2, 2, 3, 5, 2 * CAP, usize::max_value()])) } else { None };
            sim.step(opened, "open");
            ev!(sim, "session {}: word {} beam {:?}", opened, wi, beam);
            sim.probe_if(finished[wi], "repeated session");
            sim.probe_if(beam.is_some(), "with beam");
            sim.probe_if(ws[wi].iter().any(|t| t == "zz"), "unknown terminal");
            sim.probe_if(all[wi].len() > 1, "ambiguous word");
            live.push(Session { id: opened, word: wi, beam, it: open(&ws[wi], beam), left: all[wi].clone(), weights: vec![] });
            continue;
        }
        let at = sim.below(live.len());
        if sim.flip(1, 20) {
            sim.step(live[at].id, "abandon");
            sim.fault("session abandoned");
            sim.probe("session abandoned");
            live.swap_remove(at);
            continue;
        }
        let s = &mut live[at];
        sim.step(s.id, "pull");
        match s.it.next() {
            Some(Item(c, run)) => {
                let w = c.weight.value();
                let acts: Vec<_> = run.to_vec().iter().map(act).collect();
                ev!(sim, "session {}: {} transitions, weight {:.6}", s.id, acts.len(), w);
                let seen: Vec<&Ins> = acts.iter().map(|a| &a.1).collect();
                sim.probe_if(seen.iter().any(|i| matches!(i, Ins::Up(..))), "run moved up again");
                ensure!(c.word.is_empty(), "word left", "{:?} is not read", c.word);
                let steps: f64 = run.to_vec().iter().map(|t| t.weight.value()).product();
                ensure!(close(steps, w), "weight", "a run of weight {} has transitions of weight {}", w, steps);
                let i = match s.left.iter().position(|r| r.acts == acts && close(r.w, w)) {
                    Some(i) => i,
                    None => bail!(
                        "foreign run",
                        "{:?}: {:?} of weight {} is {}",
                        ws[s.word], acts, w,
                        if all[s.word].iter().any(|r| r.acts == acts && close(r.w, w)) { "enumerated too often" } else { "no accepting run" }
                    ),
                };
                ensure!(s.left[i].store == I::store(&c.storage), "storage", "{:?} ends in {:?}", acts, I::store(&c.storage));
                s.left.swap_remove(i);
                if ordered {
                    if let Some(&last) = s.weights.last() {
                        ensure!(w <= last * (1.0 + 1e-9), "order", "{:?}: weight {} after {}", ws[s.word], w, last);
                        sim.probe_if(close(w, last), "equal weights");
                    }
                    if s.beam.is_none() {
                        let best = sorted[s.word][s.weights.len()];
                        ensure!(close(w, best), "best first", "{:?}: weight {} while {} is left", ws[s.word], w, best);
                    }
                }
                s.weights.push(w);
            }
            None => {
                sim.step(s.id, "end");
                match s.beam {
                    Some(b) if b < CAP => sim.probe_if(!s.left.is_empty(), "beam cut runs"),
                    b => {
                        sim.probe_if(b.is_some(), "wide beam");
                        ensure!(s.left.is_empty(), "missing", "{:?}: {} of {} runs are not enumerated, one is {:?}", ws[s.word], s.left.len(), all[s.word].len(), s.left[0]);
                        sim.probe_if(all[s.word].is_empty(), "no run");
                        sim.probe_if(!all[s.word].is_empty(), "all runs compared");
                        finished[s.word] = true;
                    }
                }
                if sim.flip(1, 2) {
                    ensure!(s.it.next().is_none(), "after end", "{:?}: a run after the end", ws[s.word]);
                }
                live.swap_remove(at);
            }
        }
    }
}

// ---------------------------------------------------------------- C15

/// Classes of the symbols of a push-down automaton.
#[derive(Clone, Debug)]
pub struct Classes {
    salt: u64,
    of: u64,
    /// the bottom symbols keep classes of their own
    keep: bool,
}

impl Classes {
    fn draw(sim: &Sim) -> Classes {
        Classes { salt: sim.choose(1 << 30), of: 1 + sim.choose(4), keep: sim.flip(1, 2) }
    }
    fn class(&self, s: &str) -> String {
        let mut h = self.salt;
        for b in s.bytes() {
            h = (h ^ u64::from(b)).wrapping_mul(0x0100_0000_01b3);
        }
        format!("K{}", (h >> 20) % self.of)
    }
    fn plain(&self, s: &String) -> String {
        self.class(s)
    }
    fn push_state(&self, s: &CfS) -> CfS {
        if self.keep {
            s.map(|n| self.class(n))
        } else {
            match s {
                PushState::Designated => PushState::Designated,
                o => PushState::Nt(self.class(&format!("{:?}", o))),
            }
        }
    }
    fn pos_state(&self, s: &PmS) -> PosState<String> {
        if self.keep {
            s.map(|r| r.head.clone())
        } else {
            s.map(|r| self.class(&r.head))
        }
    }
    fn pos_again(&self, s: &PosState<String>) -> PosState<String> {
        match s {
            PosState::Position(r, i, _) => PosState::Position(self.class(r), *i, 0),
            o => o.clone(),
        }
    }
}

pub fn relabel_machine(m: &Machine, f: &dyn Fn(&String) -> String) -> Machine {
    let v = |x: &Vec<String>| x.iter().map(f).collect::<Vec<_>>();
    let trs = m
        .trs
        .iter()
        .map(|((w, i), x)| match i {
            Ins::Replace(a, b) => ((w.clone(), Ins::Replace(v(a), v(b))), *x),
            _ => unreachable!(),
        })
        .collect();
    let init = match &m.init {
        Store::Stack(s) => Store::Stack(v(s)),
        _ => unreachable!(),
    };
    merged(Machine { init, finals: vec![], trs })
}

/// What flattening tree stacks means, from its definition: the path from the
/// root to the current position is the push-down.
pub fn flat_machine(m: &Machine) -> Machine {
    let trs = m
        .trs
        .iter()
        .map(|((w, i), x)| {
            let j = match i {
                Ins::Up(_, c, _, n) | Ins::Push(_, c, n) => Ins::Replace(vec![c.clone()], vec![c.clone(), n.clone()]),
                Ins::Down(c, o, n) => Ins::Replace(vec![c.clone(), o.clone()], vec![n.clone()]),
                _ => unreachable!(),
            };
            ((w.clone(), j), *x)
        })
        .collect();
    let init = match &m.init {
        Store::Tree(t, at) => Store::Stack((0..=at.len()).map(|k| t[&at[..k].to_vec()].clone()).collect()),
        _ => unreachable!(),
    };
    merged(Machine { init, finals: vec![], trs })
}

fn merged(mut m: Machine) -> Machine {
    let mut sum: BTreeMap<_, f64> = BTreeMap::new();
    for (a, w) in m.trs {
        *sum.entry(a).or_insert(0.0) += w;
    }
    m.trs = sum.into_iter().collect();
    m
}

/// Number of ways to map a coarse run back.
pub fn ways(run: &Run, fine: &Machine, image: &dyn Fn(&Machine) -> Machine) -> f64 {
    let mut n = 1.0;
    for a in &run.acts {
        let k = fine.trs.iter().filter(|t| image(&Machine { init: fine.init.clone(), finals: vec![], trs: vec![(*t).clone()] }).trs[0].0 == *a).count();
        n *= k as f64;
    }
    n
}

type Image = Box<dyn Fn(&Machine) -> Machine + Send + Sync>;

pub struct Case15 {
    pub d: Draft,
    c1: Classes,
    c2: Classes,
    levels: usize,
    pub ws: Vec<Vec<String>>,
    ms: Vec<Machine>,
    runs: Vec<Vec<Vec<Run>>>,
    images: Vec<Image>,
}

/// An automaton, approximations and words with finitely many runs.
pub fn case15(sim: &Sim, most: usize) -> Result<Option<Case15>, simkit::Violation> {
    for _ in 0..8 {
        let d = draft(sim, false);
        let fine = match plain(sim, &d)? {
            Some(m) => m,
            None => return Ok(None),
        };
        if fine.trs.is_empty() {
            continue;
        }
        let c1 = Classes::draw(sim);
        let c2 = Classes::draw(sim);
        let tree = matches!(d, Draft::Ts(..) | Draft::Pmcfg(_));
        let levels = sim.range(1, if tree { 3 } else { 2 }.min(most));
        let ws = words(sim, &d, &fine);
        let images = images(&d, &c1, &c2, levels);
        let mut ms = vec![fine];
        for i in &images {
            let next = i(ms.last().unwrap());
            ms.push(next);
        }
        let runs: Option<Vec<Vec<Vec<Run>>>> = ms.iter().map(|m| ws.iter().map(|w| m.runs(w, CAP)).collect()).collect();
        let runs = match runs {
            Some(r) => r,
            None => continue,
        };
        // the lists of candidates must stay small
        let mut total = 0.0;
        for l in 1..ms.len() {
            for rs in &runs[l] {
                for r in rs {
                    total += ways(r, &ms[l - 1], &*images[l - 1]);
                }
            }
        }
        if total > 3000.0 {
            continue;
        }
        return Ok(Some(Case15 { d, c1, c2, levels, ws, ms, runs, images }));
    }
    Ok(None)
}

fn run15(sim: &Sim) -> Verdict {
    match case15(sim, 3)? {
        Some(c) => with15(sim, &c),
        None => Ok(()),
    }
}

/// For every level the map from the finer machine to the coarser one.
fn images(d: &Draft, c1: &Classes, c2: &Classes, levels: usize) -> Vec<Image> {
    let relabel = |t: BTreeMap<String, String>| -> Image { Box::new(move |m: &Machine| relabel_machine(m, &|s| t[s].clone())) };
    let mut res: Vec<Image> = Vec::new();
    match d {
        Draft::Pd(ts, i) => {
            let mut names: Vec<String> = i.clone();
            for t in ts {
                let PushDownInstruction::Replace { current_val, new_val } = &t.instruction;
                names.extend(current_val.iter().chain(new_val).cloned());
            }
            res.push(relabel(names.iter().map(|s| (sym(s), sym(&c1.plain(s)))).collect()));
            if levels > 1 {
                res.push(relabel(names.iter().map(|s| (sym(&c1.plain(s)), sym(&c2.plain(&c1.plain(s))))).collect()));
            }
        }
        Draft::Cfg(g) => {
            let mut all: Vec<CfS> = vec![PushState::Designated, PushState::Initial];
            all.extend((0..g.fan.len()).map(|i| PushState::Nt(nt(i))));
            all.extend((0..g.terminals).map(|i| PushState::T(te(i))));
            res.push(relabel(all.iter().map(|s| (sym(s), sym(&c1.push_state(s)))).collect()));
            if levels > 1 {
                let all2: Vec<CfS> = all.iter().map(|s| c1.push_state(s)).collect();
                res.push(relabel(all2.iter().map(|s| (sym(s), sym(&c2.push_state(s)))).collect()));
            }
        }
        Draft::Ts(ts, i) => {
            res.push(Box::new(flat_machine));
            let mut names: Vec<String> = vec![i.clone()];
            for t in ts {
                match &t.instruction {
                    TreeStackInstruction::Up { current_val, old_val, new_val, .. } | TreeStackInstruction::Down { current_val, old_val, new_val } => {
                        names.extend([current_val, old_val, new_val].iter().map(|s| s.to_string()))
                    }
                    TreeStackInstruction::Push { current_val, new_val, .. } => names.extend([current_val, new_val].iter().map(|s| s.to_string())),
                }
            }
            if levels > 1 {
                res.push(relabel(names.iter().map(|s| (sym(s), sym(&c1.plain(s)))).collect()));
            }
            if levels > 2 {
                res.push(relabel(names.iter().map(|s| (sym(&c1.plain(s)), sym(&c2.plain(&c1.plain(s))))).collect()));
            }
        }
        Draft::Pmcfg(g) => {
            res.push(Box::new(flat_machine));
            let mut all: Vec<PmS> = vec![PosState::Designated, PosState::Initial];
            for r in g.pmcfg_rules(|x| LogDomain::new(x).unwrap()) {
                for (i, c) in r.composition.composition.iter().enumerate() {
                    for j in 0..=c.len() {
                        all.push(PosState::Position(r.clone(), i, j));
                    }
                }
            }
            if levels > 1 {
                res.push(relabel(all.iter().map(|s| (sym(s), sym(&c1.pos_state(s)))).collect()));
            }
            if levels > 2 {
                res.push(relabel(all.iter().map(|s| (sym(&c1.pos_state(s)), sym(&c2.pos_again(&c1.pos_state(s))))).collect()));
            }
        }
        Draft::Fs(_) => unreachable!(),
    }
    res
}

fn with15(sim: &Sim, c: &Case15) -> Verdict {
    let Case15 { d, c1, c2, levels, ws, ms, runs, images } = c;
    let levels = *levels;
    ev!(sim, "{}", show(d));
    ev!(sim, "levels {} {:?} {:?}", levels, c1, c2);
    ev!(sim, "words {:?} with runs {:?}", ws, runs.iter().map(|l| l.iter().map(|r| r.len()).collect::<Vec<_>>()).collect::<Vec<_>>());
    sim.shape(show(d).as_bytes());
    sim.shape(&[levels as u8, c1.of as u8, c2.of as u8]);
    let tree = matches!(d, Draft::Ts(..) | Draft::Pmcfg(_));
    sim.probe(match (tree, levels) {
        (false, 1) => "relabelled",
        (false, _) => "relabelled twice",
        (true, 1) => "tree stack flattened",
        _ => "tree stack flattened and relabelled",
    });
    for l in 1..ms.len() {
        sim.probe_if(ms[l].trs.len() < ms[l - 1].trs.len(), "coarse transition for several");
        for wi in 0..ws.len() {
            let (f, c) = (&runs[l - 1][wi], &runs[l][wi]);
            sim.probe_if(c.len() > 1, "several coarse runs");
            sim.probe_if(f.is_empty() && !c.is_empty(), "coarse word not in the fine language");
            let up: Vec<Vec<_>> = f
                .iter()
                .map(|r| {
                    r.acts
                        .iter()
                        .map(|a| images[l - 1](&Machine { init: ms[l - 1].init.clone(), finals: vec![], trs: vec![(a.clone(), 1.0)] }).trs[0].0.clone())
                        .collect()
                })
                .collect();
            sim.probe_if(c.iter().any(|r| !up.contains(&r.acts)), "coarse run without a fine one");
            sim.probe_if(c.iter().any(|r| up.iter().filter(|u| **u == r.acts).count() > 1), "several fine runs of one coarse run");
        }
    }
    let p1 = |s: &String| c1.plain(s);
    let p2 = |s: &String| c2.plain(s);
    let s1 = |s: &CfS| c1.push_state(s);
    let s2 = |s: &CfS| c2.push_state(s);
    let q1 = |s: &PmS| c1.pos_state(s);
    let q2 = |s: &PosState<String>| c2.pos_again(s);
    for p in 0..sim.range(1, 2) {
        let seed = world::boot(sim, p);
        let x = Ctx { sim: sim.clone(), ms, ws, all: &runs[0], images, runs };
        let res = world::task(sim, seed, || -> Verdict {
            match (build(d), levels) {
                (Built::Pd(a), 1) => {
                    level(&x, 0, &a, RlbElement::new(&p1))?;
                    x.finish(coarse_to_fine_recogniser!(a; RlbElement::new(&p1)))
                }
                (Built::Pd(a), _) => {
                    let b = level(&x, 0, &a, RlbElement::new(&p1))?;
                    level(&x, 1, &b, RlbElement::new(&p2))?;
                    x.finish(coarse_to_fine_recogniser!(a; RlbElement::new(&p1), RlbElement::new(&p2)))
                }
                (Built::Cfg(a), 1) => {
                    level(&x, 0, &a, RlbElement::new(&s1))?;
                    x.finish(coarse_to_fine_recogniser!(a; RlbElement::new(&s1)))
                }
                (Built::Cfg(a), _) => {
                    let b = level(&x, 0, &a, RlbElement::new(&s1))?;
                    level(&x, 1, &b, RlbElement::new(&s2))?;
                    x.finish(coarse_to_fine_recogniser!(a; RlbElement::new(&s1), RlbElement::new(&s2)))
                }
                (Built::Ts(a), 1) => {
                    level(&x, 0, &a, TTSElement::new())?;
                    x.finish(coarse_to_fine_recogniser!(a; TTSElement::new()))
                }
                (Built::Ts(a), 2) => {
                    let b = level(&x, 0, &a, TTSElement::new())?;
                    level(&x, 1, &b, RlbElement::new(&p1))?;
                    x.finish(coarse_to_fine_recogniser!(a; TTSElement::new(), RlbElement::new(&p1)))
                }
                (Built::Ts(a), _) => {
                    let b = level(&x, 0, &a, TTSElement::new())?;
                    let c = level(&x, 1, &b, RlbElement::new(&p1))?;
                    level(&x, 2, &c, RlbElement::new(&p2))?;
                    x.finish(coarse_to_fine_recogniser!(a; TTSElement::new(), RlbElement::new(&p1), RlbElement::new(&p2)))
                }
                (Built::Pmcfg(a), 1) => {
                    level(&x, 0, &a, TTSElement::new())?;
                    x.finish(coarse_to_fine_recogniser!(a; TTSElement::new()))
                }
                (Built::Pmcfg(a), 2) => {
                    let b = level(&x, 0, &a, TTSElement::new())?;
                    level(&x, 1, &b, RlbElement::new(&q1))?;
                    x.finish(coarse_to_fine_recogniser!(a; TTSElement::new(), RlbElement::new(&q1)))
                }
                (Built::Pmcfg(a), _) => {
                    let b = level(&x, 0, &a, TTSElement::new())?;
                    let c = level(&x, 1, &b, RlbElement::new(&q1))?;
                    level(&x, 2, &c, RlbElement::new(&q2))?;
                    x.finish(coarse_to_fine_recogniser!(a; TTSElement::new(), RlbElement::new(&q1), RlbElement::new(&q2)))
                }
                (Built::Fs(_), _) => unreachable!(),
            }
        });
        match res {
            Err(e) => bail!("panic", "{}: {}", show(d), e),
            Ok(v) => v?,
        }
    }
    Ok(())
}

struct Ctx<'b> {
    sim: Sim,
    ms: &'b [Machine],
    ws: &'b [Vec<String>],
    all: &'b [Vec<Run>],
    images: &'b [Image],
    runs: &'b [Vec<Vec<Run>>],
}

impl<'b> Ctx<'b> {
    /// Sessions on the coarse-to-fine recogniser.
    fn finish<R, S, I>(&self, rec: R) -> Verdict
    where
        R: Recognisable<String, W, Parse = Item<S, I, String, W>>,
        I: Plain<Storage = S> + Clone,
    {
        let open = |w: &[String], _: Option<usize>| -> Box<dyn Iterator<Item = Item<S, I, String, W>> + '_> { rec.recognise(w.to_vec()) };
        let ordered = self.ms.iter().all(|m| m.trs.iter().all(|t| t.1 <= 1.0 + 1e-12));
        sessions(&self.sim, &open, self.ws, self.all, false, ordered)
    }
}

/// Approximates an automaton and compares the result with the image of the
/// finer machine.
fn level<S>(x: &Ctx, l: usize, a: &S::A1, strategy: S) -> Result<S::A2, simkit::Violation>
where
    S: ApproximationStrategy<String, W>,
    S::I1: Plain<Storage = <S::I1 as Instruction>::Storage> + Clone + Eq + Instruction + Ord,
    S::I2: Plain<Storage = <S::I2 as Instruction>::Storage> + Clone + Eq + Instruction + Ord,
    <S::I1 as Instruction>::Storage: Clone,
    S::A1: Automaton<String, W, I = S::I1>,
    S::A2: Automaton<String, W, I = S::I2> + Recognisable<String, W>,
{
    let (sim, fine, coarse) = (&x.sim, &x.ms[l], &x.ms[l + 1]);
    let (b, inst): (S::A2, ApproximationInstance<S, String, W>) = strategy.approximate_automaton(a);
    sim.step(l, "approximate");
    let got = machine_of(&b);
    ensure!(same_machine(&got, coarse), "image", "the approximation is {:?} instead of {:?}", got, coarse);
    let init = inst.approximate_storage(a.initial());
    ensure!(<S::I2 as Plain>::store(&init) == coarse.init, "image", "the initial storage becomes {:?}", <S::I2 as Plain>::store(&init));
    let mut ts: Vec<_> = b.transitions().collect();
    ts.sort_by(|a, b| act(a).cmp(&act(b)));
    for t in &ts {
        let mut back: Vec<_> = inst.unapproximate_transition(t).iter().map(|t| (act(t), t.weight.value())).collect();
        back.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let want: Vec<_> = fine
            .trs
            .iter()
            .filter(|f| x.images[l](&Machine { init: fine.init.clone(), finals: vec![], trs: vec![(*f).clone()] }).trs[0].0 == act(t))
            .cloned()
            .collect();
        ensure!(
            back.len() == want.len() && back.iter().zip(&want).all(|(a, b)| a.0 == b.0 && close(a.1, b.1)),
            "back",
            "{:?} stands for {:?}, but is mapped back to {:?}",
            act(t), want, back
        );
    }
    // walks through storages of both sides
    let steps: Vec<_> = a.transitions().collect();
    for _ in 0..sim.below(3) {
        let mut s1 = a.initial();
        for _ in 0..12 {
            if steps.is_empty() {
                break;
            }
            let nexts: Vec<_> = (0..4).map(|_| &sim.pick(&steps).instruction).map(|i| (i, i.apply(s1.clone()))).collect();
            let (i, mut out) = match nexts.into_iter().find(|(_, o)| !o.is_empty()) {
                None => break,
                Some(x) => x,
            };
            sim.step(l, "walk");
            sim.probe("walked");
            let coarse: Vec<_> = inst.approximate_instruction(i).apply(inst.approximate_storage(s1.clone())).iter().map(<S::I2 as Plain>::store).collect();
            for o in &out {
                let o2 = <S::I2 as Plain>::store(&inst.approximate_storage(o.clone()));
                ensure!(coarse.contains(&o2), "storage", "level {}: the step leads to {:?}, the approximated one to {:?}", l, o2, coarse);
            }
            s1 = out.swap_remove(sim.below(out.len()));
        }
    }
    for (wi, w) in x.ws.iter().enumerate() {
        let found = b.recognise(w.clone()).next().is_some();
        ensure!(found == !x.runs[l + 1][wi].is_empty(), "coarse", "level {} accepts {:?}: {}", l + 1, w, found);
        ensure!(found || x.runs[l][wi].is_empty(), "lost word", "{:?} is accepted by level {} only", w, l);
    }
    Ok(b)
}
