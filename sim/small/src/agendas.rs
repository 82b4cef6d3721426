//! C02: several agendas of every kind under interleaved operations, clones
//! and failing bulk insertions, each against a model that knows every item.
use crate::tokens::{Announced, Fixed, Registry, Token};
use search::agenda::binary_heap::weighted::BinaryHeap;
use search::agenda::weighted::{Weighted, WeightedItem};
use search::agenda::{beam_heap, limited_heap};
use search::{Agenda, BeamHeap, LimitedHeap};
use simkit::{bail, ensure, ev, world, Check, Sim, Verdict};
use std::collections::{BTreeMap, BTreeSet, VecDeque};

pub const CHECK: Check = Check {
    id: "C02",
    run,
    quick: 240_000,
    thorough: 12_000_000,
    rule: "A run draws 1-4 agendas (vector, deque, weighted heap, bounded and beam heaps with explicit or intrinsic priorities, capacities from 0 to the greatest number, random beam factors, few or many distinct priorities) and lets the scheduler apply pushes, bulk insertions (some failing half way), pops, peeks, clears, clones and consuming iterations in any order.",
    real: &["search::agenda (all agendas)", "min-max-heap", "std collections"],
    stub: &["items are accounted tokens; the sources of bulk insertions and their failures are simulated"],
    assumptions: &["priorities are a total order; ties may be resolved either way"],
    must_reach: &["large agenda", "huge agenda", "plain numbers", "evicted", "evicted among ties", "beam rejected", "capacity 0", "unreachable capacity", "cloned", "bulk insertion failed", "popped among ties"],
};

impl Weighted for Token {
    type Weight = Fixed;
    fn get_weight(&self) -> Fixed {
        Fixed(self.weight)
    }
}

enum A {
    Vec(Vec<Token>),
    Deque(VecDeque<Token>),
    Heap(BinaryHeap<Token>),
    Limited(LimitedHeap<Token, Fixed>, usize),
    LimitedW(limited_heap::weighted::LimitedHeap<Token>, usize),
    Beam(BeamHeap<Token, Fixed>, u32),
    BeamW(beam_heap::weighted::BeamHeap<Token>, u32),
    /// items whose priority is stored beside them
    Pairs(BinaryHeap<WeightedItem<Token, Fixed>>),
}

struct Live {
    a: A,
    /// (uid, priority) of the items held, oldest first
    model: Vec<(u32, u32)>,
}

fn new_agenda(sim: &Sim, reg: &Registry, wmax: u64, large: usize) -> Live {
    let capacity = |sim: &Sim| match large {
        _ if sim.flip(1, 40) => {
            sim.probe("unreachable capacity");
            *sim.pick(&[usize::max_value(), usize::max_value() >> 2, 1 << 16])
        }
        0 => sim.below(7),
        _ => sim.below(large),
    };
    let mut model = Vec::new();
    let a = match sim.below(8) {
        0 => A::Vec(Vec::new()),
        1 => A::Deque(VecDeque::new()),
        2 => {
            if sim.flip(1, 2) {
                A::Heap(BinaryHeap::new())
            } else {
                let n = if large > 0 { sim.below(large) } else { sim.below(8) };
                let v: Vec<Token> = (0..n).map(|_| fresh(sim, reg, wmax)).collect();
                model = v.iter().map(|t| (t.uid, t.weight)).collect();
                A::Heap(Announced::new(sim, n, v.into_iter()).collect())
            }
        }
        3 => {
            let c = capacity(sim);
            A::Limited(LimitedHeap::with_capacity(c), c)
        }
        4 => {
            let c = capacity(sim);
            A::LimitedW(limited_heap::weighted::LimitedHeap::with_capacity(c), c)
        }
        5 => {
            let b = sim.below(25) as u32;
            A::Beam(BeamHeap::new(Fixed(b)), b)
        }
        6 => {
            let b = sim.below(25) as u32;
            A::BeamW(beam_heap::weighted::BeamHeap::new(Fixed(b)), b)
        }
        _ => A::Pairs(BinaryHeap::new()),
    };
    Live { a, model }
}

fn fresh(sim: &Sim, reg: &Registry, wmax: u64) -> Token {
    reg.token(sim.choose(wmax) as u32 * 8)
}

impl A {
    fn name(&self) -> String {
        match self {
            A::Vec(_) => "vec".into(),
            A::Deque(_) => "deque".into(),
            A::Heap(_) => "heap".into(),
            A::Limited(_, c) => format!("limited({})", c),
            A::LimitedW(_, c) => format!("limited-weighted({})", c),
            A::Beam(_, b) => format!("beam({}/16)", b),
            A::BeamW(_, b) => format!("beam-weighted({}/16)", b),
            A::Pairs(_) => "heap of pairs".into(),
        }
    }
    fn len(&self) -> usize {
        match self {
            A::Vec(v) => Agenda::len(v),
            A::Deque(v) => Agenda::len(v),
            A::Heap(v) => Agenda::len(v),
            A::Limited(v, _) => v.len(),
            A::LimitedW(v, _) => Agenda::len(v),
            A::Beam(v, _) => v.len(),
            A::BeamW(v, _) => Agenda::len(v),
            A::Pairs(v) => Agenda::len(v),
        }
    }
    fn is_empty(&self) -> Option<bool> {
        match self {
            A::Vec(v) => Some(Agenda::is_empty(v)),
            A::Deque(v) => Some(Agenda::is_empty(v)),
            A::Heap(v) => Some(Agenda::is_empty(v)),
            A::LimitedW(v, _) => Some(Agenda::is_empty(v)),
            A::BeamW(v, _) => Some(Agenda::is_empty(v)),
            A::Pairs(v) => Some(Agenda::is_empty(v)),
            _ => None,
        }
    }
    fn peek(&self) -> Option<(u32, u32)> {
        let f = |t: &Token| (t.uid, t.weight);
        match self {
            A::Vec(v) => Agenda::peek(v).map(f),
            A::Deque(v) => Agenda::peek(v).map(f),
            A::Heap(v) => Agenda::peek(v).map(f),
            A::Limited(v, _) => v.peek().map(f),
            A::LimitedW(v, _) => Agenda::peek(v).map(f),
            A::Beam(v, _) => v.peek().map(f),
            A::BeamW(v, _) => Agenda::peek(v).map(f),
            A::Pairs(v) => Agenda::peek(v).map(|p| (p.0.uid, (p.1).0)),
        }
    }
    fn pop(&mut self) -> Option<(u32, u32)> {
        let f = |t: Token| (t.uid, t.weight);
        match self {
            A::Vec(v) => Agenda::pop(v).map(f),
            A::Deque(v) => Agenda::pop(v).map(f),
            A::Heap(v) => Agenda::pop(v).map(f),
            A::Limited(v, _) => v.pop().map(f),
            A::LimitedW(v, _) => Agenda::pop(v).map(f),
            A::Beam(v, _) => v.pop().map(f),
            A::BeamW(v, _) => Agenda::pop(v).map(f),
            A::Pairs(v) => Agenda::pop(v).map(|p| (p.0.uid, (p.1).0)),
        }
    }
    fn into_items(self) -> Vec<u32> {
        match self {
            A::Vec(v) => v.into_iter().map(|t| t.uid).collect(),
            A::Deque(v) => v.into_iter().map(|t| t.uid).collect(),
            A::Heap(v) => v.into_iter().map(|t| t.uid).collect(),
            A::Limited(v, _) => v.into_iter().map(|t| t.uid).collect(),
            A::LimitedW(v, _) => v.into_iter().map(|t| t.uid).collect(),
            A::Beam(v, _) => v.into_iter().map(|t| t.uid).collect(),
            A::BeamW(v, _) => v.into_iter().map(|t| t.uid).collect(),
            A::Pairs(v) => v.into_iter().map(|p| p.0.uid).collect(),
        }
    }
}

/// What pushing (uid, w) must do according to the model: `None` accepted,
/// otherwise the set of items one of which must leave.
fn expect_push(a: &A, model: &[(u32, u32)], uid: u32, w: u32) -> Option<Vec<u32>> {
    match a {
        A::Limited(_, c) | A::LimitedW(_, c) => {
            if model.len() < *c {
                return None;
            }
            let m = model.iter().map(|x| x.1).chain(Some(w)).min().unwrap();
            Some(model.iter().chain(Some(&(uid, w))).filter(|x| x.1 == m).map(|x| x.0).collect())
        }
        A::Beam(_, b) | A::BeamW(_, b) => match model.iter().map(|x| x.1).max() {
            Some(best) if !(Fixed(w) >= Fixed(best) * Fixed(*b)) => Some(vec![uid]),
            _ => None,
        },
        _ => None,
    }
}

impl Live {
    /// The items that left during a push, from the accounts of live tokens.
    fn settle(
        &mut self,
        sim: &Sim,
        reg: &Registry,
        before: &BTreeSet<u32>,
        uid: u32,
        w: u32,
        reported: Option<Option<u32>>,
    ) -> Verdict {
        let after = reg.snapshot();
        let left: Vec<u32> = before.difference(&after).cloned().collect();
        let exp = expect_push(&self.a, &self.model, uid, w);
        if let A::Beam(..) | A::BeamW(..) = self.a {
            sim.probe_if(exp.is_some(), "beam rejected");
        } else {
            sim.probe_if(exp.is_some(), "evicted");
            sim.probe_if(exp.as_ref().map(|v| v.len() > 1).unwrap_or(false), "evicted among ties");
        }
        self.model.push((uid, w));
        match exp {
            None => {
                ensure!(left.is_empty(), "lost item", "{}: pushing {}:{} dropped {:?}", self.a.name(), uid, w, left);
            }
            Some(c) => {
                ensure!(
                    left.len() == 1 && c.contains(&left[0]),
                    "wrong eviction",
                    "{}: pushing {}:{} onto {:?} must drop one of {:?}, dropped {:?}",
                    self.a.name(),
                    uid,
                    w,
                    &self.model[..self.model.len() - 1],
                    c,
                    left
                );
                self.model.retain(|x| x.0 != left[0]);
            }
        }
        if let Some(r) = reported {
            ensure!(
                r == left.first().cloned(),
                "wrong report",
                "{}: pushing {}:{} reported {:?}, but {:?} left",
                self.a.name(),
                uid,
                w,
                r,
                left
            );
        }
        Ok(())
    }

    fn push(&mut self, sim: &Sim, reg: &Registry, t: Token) -> Verdict {
        let (uid, w) = (t.uid, t.weight);
        let before = reg.snapshot();
        let inherent = sim.flip(1, 2);
        let reported = match &mut self.a {
            A::Vec(v) => {
                Agenda::push(v, t);
                None
            }
            A::Deque(v) => {
                Agenda::push(v, t);
                None
            }
            A::Heap(v) => {
                if inherent {
                    v.push(t)
                } else {
                    Agenda::push(v, t)
                }
                None
            }
            A::Limited(v, _) => Some(v.push(t, Fixed(w)).map(|t| t.uid)),
            A::LimitedW(v, _) => {
                if inherent {
                    Some(v.push(t).map(|t| t.uid))
                } else {
                    Agenda::push(v, t);
                    None
                }
            }
            A::Beam(v, _) => Some(if v.push(t, Fixed(w)) { None } else { Some(uid) }),
            A::BeamW(v, _) => {
                if inherent {
                    Some(if v.push(t) { None } else { Some(uid) })
                } else {
                    Agenda::push(v, t);
                    None
                }
            }
            A::Pairs(v) => {
                Agenda::push(v, WeightedItem(t, Fixed(w)));
                None
            }
        };
        ev!(sim, "  {} push {}:{} -> {:?}", self.a.name(), uid, w, reported);
        self.settle(sim, reg, &before, uid, w, reported)
    }

    /// Bulk insertion of tokens; the source fails after `fail` of them.
    fn extend(&mut self, sim: &Sim, reg: &Registry, toks: Vec<Token>, fail: Option<usize>) -> Verdict {
        let list: Vec<(u32, u32)> = toks.iter().map(|t| (t.uid, t.weight)).collect();
        let mut src = toks.into_iter();
        let mut n = 0;
        let it = std::iter::from_fn(|| {
            if Some(n) == fail {
                panic!("injected");
            }
            n += 1;
            src.next()
        });
        let it = Announced::new(sim, list.len(), it);
        let a = &mut self.a;
        let r = world::catch(move || match a {
            A::Vec(v) => Agenda::extend(v, it),
            A::Deque(v) => Agenda::extend(v, it),
            A::Heap(v) => Agenda::extend(v, it),
            A::LimitedW(v, _) => Agenda::extend(v, it),
            A::BeamW(v, _) => Agenda::extend(v, it),
            A::Pairs(v) => Agenda::extend(v, it.map(|t| { let w = Fixed(t.weight); WeightedItem(t, w) })),
            // the agendas with explicit priorities have no bulk insertion
            A::Limited(v, _) => it.for_each(|t| { let w = Fixed(t.weight); v.push(t, w); }),
            A::Beam(v, _) => it.for_each(|t| { let w = Fixed(t.weight); v.push(t, w); }),
        });
        drop(src);
        let offered = fail.unwrap_or(list.len()).min(list.len());
        if fail.map(|f| f <= list.len()).unwrap_or(false) {
            ensure!(r.is_err(), "swallowed failure", "{}: bulk insertion hid a failure of its source", self.a.name());
            sim.fault("bulk insertion failed");
            sim.probe("bulk insertion failed");
        } else if let Err(m) = r {
            bail!("panic", "{}: bulk insertion panicked: {}", self.a.name(), m);
        }
        ev!(sim, "  {} extend {:?}, {} offered", self.a.name(), list, offered);
        // which of several items of equal priority left shows in the accounts
        let held = |u: u32| reg.live(u);
        for (uid, w) in &list[..offered] {
            let exp = expect_push(&self.a, &self.model, *uid, *w);
            self.model.push((*uid, *w));
            if let Some(c) = exp {
                let u = c.iter().cloned().find(|u| !held(*u)).unwrap_or(c[0]);
                self.model.retain(|x| x.0 != u);
            }
        }
        Ok(())
    }

    fn pop(&mut self, sim: &Sim) -> Verdict {
        let peeked = if sim.flip(1, 2) { Some(self.a.peek()) } else { None };
        let allowed: Vec<(u32, u32)> = match self.a {
            A::Vec(_) => self.model.last().cloned().into_iter().collect(),
            A::Deque(_) => self.model.first().cloned().into_iter().collect(),
            _ => {
                let m = self.model.iter().map(|x| x.1).max();
                self.model.iter().filter(|x| Some(x.1) == m).cloned().collect()
            }
        };
        let r = self.a.pop();
        ev!(sim, "  {} pop -> {:?}", self.a.name(), r);
        sim.probe_if(allowed.len() > 1, "popped among ties");
        match r {
            None => ensure!(self.model.is_empty(), "lost item", "{}: empty, but {:?} were pushed", self.a.name(), self.model),
            Some(x) => {
                ensure!(
                    allowed.contains(&x),
                    "wrong order",
                    "{}: popped {:?} from {:?}",
                    self.a.name(),
                    x,
                    self.model
                );
                self.model.retain(|y| *y != x);
            }
        }
        if let Some(p) = peeked {
            ensure!(p == r, "peek", "{}: peek showed {:?}, pop returned {:?}", self.a.name(), p, r);
        }
        Ok(())
    }

    fn invariant(&self) -> Verdict {
        let n = self.a.len();
        ensure!(n == self.model.len(), "length", "{}: length {} of {:?}", self.a.name(), n, self.model);
        if let A::Limited(_, c) | A::LimitedW(_, c) = &self.a {
            ensure!(n <= *c, "capacity", "{} holds {}", self.a.name(), n);
        }
        if let Some(e) = self.a.is_empty() {
            ensure!(e == (n == 0), "emptiness", "{}: is_empty {} at length {}", self.a.name(), e, n);
        }
        let p = self.a.peek();
        let ok = match self.a {
            A::Vec(_) => p == self.model.last().cloned(),
            A::Deque(_) => p == self.model.first().cloned(),
            _ => p.map(|x| x.1) == self.model.iter().map(|x| x.1).max(),
        };
        ensure!(ok, "peek", "{}: peek {:?} of {:?}", self.a.name(), p, self.model);
        Ok(())
    }
}

/// Numbers are their own priority.
fn numbers(sim: &Sim) -> Verdict {
    sim.probe("plain numbers");
    let mut h: BinaryHeap<usize> = BinaryHeap::new();
    let mut model: Vec<usize> = Vec::new();
    for _ in 0..sim.range(1, 30) {
        if sim.flip(2, 3) {
            let n = if sim.flip(1, 20) { usize::max_value() - sim.below(3) } else { sim.below(40) };
            ev!(sim, "  push {}", n);
            h.push(n);
            model.push(n);
            model.sort();
        } else {
            ensure!(Agenda::peek(&h) == model.last(), "peek", "peek shows {:?} of {:?}", Agenda::peek(&h), model);
            let (got, want) = (h.pop(), model.pop());
            ev!(sim, "  pop -> {:?}", got);
            ensure!(got == want, "wrong order", "popped {:?}, greatest was {:?}", got, want);
        }
        ensure!(h.len() == model.len(), "length", "length {} of {:?}", h.len(), model);
    }
    Ok(())
}

fn run(sim: &Sim) -> Verdict {
    if sim.flip(1, 40) {
        return numbers(sim);
    }
    let reg = Registry::default();
    let wmax = *sim.pick(&[2u64, 5, 60]);
    let mut live: Vec<Live> = Vec::new();
    // the number of items a large agenda may get at once
    let large = if sim.flip(1, 5_000) {
        5000
    } else if sim.flip(1, 200) {
        300
    } else {
        0
    };
    sim.probe_if(large > 0, "large agenda");
    sim.probe_if(large > 300, "huge agenda");
    let steps = match large {
        0 => sim.range(1, 50),
        300 => sim.range(1, 300),
        _ => sim.range(1, 12),
    };
    // a bias per run, so that some runs fill agendas and others drain them
    let fill = sim.range(1, 6);
    for _ in 0..steps {
        if live.is_empty() || (live.len() < 4 && sim.flip(1, 10)) {
            let l = new_agenda(sim, &reg, wmax, large);
            ev!(sim, "new {} {:?}", l.a.name(), l.model);
            if let A::Limited(_, 0) | A::LimitedW(_, 0) = l.a {
                sim.probe("capacity 0");
            }
            live.push(l);
            continue;
        }
        let i = sim.below(live.len());
        let op = sim.below(12 + fill);
        sim.step(i, ["pop", "pop", "pop", "clear", "clone", "iterate", "extend", "extend", "drop", "pop", "pop", "pop"].get(op).unwrap_or(&"push"));
        match op {
            3 if sim.flip(1, 3) => {
                let l = &mut live[i];
                match &mut l.a {
                    A::Vec(v) => v.clear(),
                    A::Deque(v) => v.clear(),
                    A::Heap(v) => v.clear(),
                    A::Limited(v, _) => v.clear(),
                    A::LimitedW(v, _) => v.clear(),
                    A::Beam(v, _) => v.clear(),
                    A::BeamW(v, _) => v.clear(),
                    A::Pairs(v) => v.clear(),
                }
                l.model.clear();
                ev!(sim, "  clear");
            }
            4 => {
                let l = &live[i];
                reg.take_copies();
                let c = match &l.a {
                    A::Vec(v) => Some(A::Vec(v.clone())),
                    A::Deque(v) => Some(A::Deque(v.clone())),
                    A::Limited(v, c) => Some(A::Limited(v.clone(), *c)),
                    A::Beam(v, b) => Some(A::Beam(v.clone(), *b)),
                    _ => None,
                };
                if let Some(a) = c {
                    if live.len() < 6 {
                        sim.probe("cloned");
                        ev!(sim, "  clone");
                        let copies: BTreeMap<u32, u32> = reg.take_copies().into_iter().collect();
                        let mut model = Vec::new();
                        for (u, w) in &live[i].model {
                            match copies.get(u) {
                                Some(c) => model.push((*c, *w)),
                                None => bail!("clone", "the clone lacks item {}", u),
                            }
                        }
                        live.push(Live { a, model });
                    }
                }
            }
            5 if sim.flip(1, 3) => {
                let l = live.swap_remove(i);
                let mut want: Vec<u32> = l.model.iter().map(|x| x.0).collect();
                let name = l.a.name();
                let ordered = match l.a {
                    A::Vec(_) => true,
                    _ => false,
                };
                let mut got = l.a.into_items();
                if !ordered {
                    want.sort();
                    got.sort();
                }
                ev!(sim, "  iterate {:?}", got);
                ensure!(got == want, "iteration", "{}: iterated {:?}, held {:?}", name, got, want);
            }
            6 | 7 => {
                let n = if large > 300 || large > 0 && sim.flip(1, 4) { sim.below(large) } else { sim.range(0, 8) };
                let toks: Vec<Token> = (0..n).map(|_| fresh(sim, &reg, wmax)).collect();
                let fail = if sim.flip(1, 4) { Some(sim.below(n + 1)) } else { None };
                live[i].extend(sim, &reg, toks, fail)?;
            }
            8 => {
                if sim.flip(1, 4) {
                    ev!(sim, "  drop");
                    live.swap_remove(i);
                }
            }
            n if n >= 12 => {
                let t = fresh(sim, &reg, wmax);
                live[i].push(sim, &reg, t)?;
            }
            _ => live[i].pop(sim)?,
        }
        if large > 0 && !sim.flip(1, 10) {
            continue;
        }
        for l in &live {
            l.invariant()?;
        }
        balance(&reg, &live)?;
    }
    // everything comes out, exactly once
    for i in 0..live.len() {
        sim.step(i, "drain");
        while !live[i].model.is_empty() {
            live[i].pop(sim)?;
        }
        live[i].pop(sim)?;
        balance(&reg, &live)?;
    }
    Ok(())
}

/// Every item alive is held by exactly one model.
fn balance(reg: &Registry, live: &[Live]) -> Verdict {
    let mut want: BTreeSet<u32> = BTreeSet::new();
    for l in live {
        want.extend(l.model.iter().map(|x| x.0));
    }
    let got = reg.snapshot();
    ensure!(got == want, "accounts", "items alive {:?}, items held {:?}", got, want);
    Ok(())
}
