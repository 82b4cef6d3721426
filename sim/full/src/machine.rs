//! Automata as plain values: transitions, storages and all accepting runs of
//! a word, enumerated by trying everything.
use log_domain::LogDomain;
use rustomata::automata::finite_state_automaton::FiniteStateInstruction;
use rustomata::automata::push_down_automaton::{PushDown, PushDownInstruction};
use rustomata::automata::tree_stack_automaton::{TreeStack, TreeStackInstruction};
use rustomata::recognisable::Transition;
use simkit::Sim;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::hash::Hash;

pub type W = LogDomain<f64>;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Ins {
    /// topmost symbol first, and pushed in this order
    Replace(Vec<String>, Vec<String>),
    Up(usize, String, String, String),
    Push(usize, String, String),
    Down(String, String, String),
    Go(String, String),
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Store {
    Stack(Vec<String>),
    Tree(BTreeMap<Vec<usize>, String>, Vec<usize>),
    State(String),
}

/// What a transition reads and does.
pub type Act = (Vec<String>, Ins);

#[derive(Clone, Debug)]
pub struct Machine {
    pub init: Store,
    pub finals: Vec<String>,
    pub trs: Vec<(Act, f64)>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Run {
    pub acts: Vec<Act>,
    pub store: Store,
    pub w: f64,
}

impl Ins {
    pub fn apply(&self, s: &Store) -> Option<Store> {
        match (self, s) {
            (Ins::Replace(cur, new), Store::Stack(v)) => {
                let keep = v.len().checked_sub(cur.len())?;
                if v[keep..].iter().rev().ne(cur.iter()) {
                    return None;
                }
                let mut v = v[..keep].to_vec();
                v.extend(new.iter().cloned());
                Some(Store::Stack(v))
            }
            (Ins::Go(a, b), Store::State(q)) if a == q => Some(Store::State(b.clone())),
            (Ins::Push(n, cur, new), Store::Tree(t, at)) if t.get(at) == Some(cur) => {
                let mut to = at.clone();
                to.push(*n);
                if t.contains_key(&to) {
                    return None;
                }
                let mut t = t.clone();
                t.insert(to.clone(), new.clone());
                Some(Store::Tree(t, to))
            }
            (Ins::Up(n, cur, old, new), Store::Tree(t, at)) if t.get(at) == Some(cur) => {
                let mut to = at.clone();
                to.push(*n);
                if t.get(&to) != Some(old) {
                    return None;
                }
                let mut t = t.clone();
                t.insert(to.clone(), new.clone());
                Some(Store::Tree(t, to))
            }
            (Ins::Down(cur, old, new), Store::Tree(t, at)) if t.get(at) == Some(cur) => {
                let to = at.split_last()?.1.to_vec();
                if t.get(&to) != Some(old) {
                    return None;
                }
                let mut t = t.clone();
                t.insert(to.clone(), new.clone());
                Some(Store::Tree(t, to))
            }
            _ => None,
        }
    }
}

impl Machine {
    pub fn accepts(&self, s: &Store) -> bool {
        match s {
            Store::Stack(v) => v.len() == 1,
            Store::Tree(_, at) => at.is_empty(),
            Store::State(q) => self.finals.contains(q),
        }
    }

    /// All accepting runs of a word; None if there are more than `cap`
    /// configurations or a push-down loses its bottom symbol.
    pub fn runs(&self, word: &[String], cap: usize) -> Option<Vec<Run>> {
        let mut res = Vec::new();
        if word.iter().any(|t| !self.trs.iter().any(|((w, _), _)| w.contains(t))) {
            return Some(res);
        }
        let mut todo: Vec<(usize, Run)> = vec![(0, Run { acts: vec![], store: self.init.clone(), w: 1.0 })];
        let mut seen = 0;
        while let Some((at, run)) = todo.pop() {
            seen += 1;
            if seen > cap || run.acts.len() > 60 {
                return None;
            }
            if at == word.len() && self.accepts(&run.store) {
                res.push(run.clone());
            }
            for ((read, ins), w) in &self.trs {
                if !word[at..].starts_with(read) {
                    continue;
                }
                if let Some(store) = ins.apply(&run.store) {
                    if let Store::Stack(v) = &store {
                        if v.is_empty() {
                            return None;
                        }
                    }
                    let mut acts = run.acts.clone();
                    acts.push((read.clone(), ins.clone()));
                    todo.push((at + read.len(), Run { acts, store, w: run.w * w }));
                }
            }
        }
        Some(res)
    }

    /// A word some run reads, accepting or not.
    pub fn word(&self, sim: &Sim, len: usize) -> Vec<String> {
        let mut store = self.init.clone();
        let mut word: Vec<String> = Vec::new();
        for _ in 0..40 {
            if self.accepts(&store) && sim.flip(1, 3) {
                break;
            }
            let next: Vec<(&Act, Store)> = self
                .trs
                .iter()
                .filter(|((read, _), _)| word.len() + read.len() <= len)
                .filter_map(|(a, _)| a.1.apply(&store).map(|s| (a, s)))
                .collect();
            if next.is_empty() {
                break;
            }
            let (a, s) = sim.pick(&next);
            word.extend(a.0.iter().cloned());
            store = s.clone();
            if store == Store::Stack(vec![]) {
                break;
            }
        }
        word
    }
}

/// The plain form of instructions of the library.
pub trait Plain {
    type Storage;
    fn ins(&self) -> Ins;
    fn store(s: &Self::Storage) -> Store;
}

pub fn sym<A: Debug>(a: &A) -> String {
    format!("{:?}", a)
}

impl<A: Debug + Clone + Ord + Hash> Plain for PushDownInstruction<A> {
    type Storage = PushDown<A>;
    fn ins(&self) -> Ins {
        match self {
            PushDownInstruction::Replace { current_val, new_val } => {
                Ins::Replace(current_val.iter().map(sym).collect(), new_val.iter().map(sym).collect())
            }
        }
    }
    fn store(s: &PushDown<A>) -> Store {
        Store::Stack(s.iter().map(sym).collect())
    }
}

impl<A: Debug + Clone + Ord + Hash> Plain for TreeStackInstruction<A> {
    type Storage = TreeStack<A>;
    fn ins(&self) -> Ins {
        match self {
            TreeStackInstruction::Up { n, current_val, old_val, new_val } => Ins::Up(*n, sym(current_val), sym(old_val), sym(new_val)),
            TreeStackInstruction::Push { n, current_val, new_val } => Ins::Push(*n, sym(current_val), sym(new_val)),
            TreeStackInstruction::Down { current_val, old_val, new_val } => Ins::Down(sym(current_val), sym(old_val), sym(new_val)),
        }
    }
    fn store(s: &TreeStack<A>) -> Store {
        let (t, at) = s.to_tree();
        Store::Tree(t.into_iter().map(|(p, v)| (p, sym(&v))).collect(), at)
    }
}

impl Plain for FiniteStateInstruction<String> {
    type Storage = String;
    fn ins(&self) -> Ins {
        let s = self.to_string();
        let mut it = s.split(" → ");
        Ins::Go(sym(&it.next().unwrap_or("")), sym(&it.next().unwrap_or("")))
    }
    fn store(s: &String) -> Store {
        Store::State(sym(s))
    }
}

pub fn act<I: Plain>(t: &Transition<I, String, W>) -> Act {
    (t.word.clone(), t.instruction.ins())
}
