//! C01: several lazy searches, pulled in an order the scheduler decides, each
//! against a model of its frontier.
use crate::tokens::{announcement, Announced, Fixed};
use search::agenda::weighted::Weighted;
use search::agenda::{beam_heap, limited_heap};
use search::{Agenda, Search};
use simkit::{bail, ensure, ev, world, Check, Sim, Verdict};
use std::cell::RefCell;
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::rc::Rc;

pub const CHECK: Check = Check {
    id: "C01",
    run,
    quick: 240_000,
    thorough: 12_000_000,
    rule: "A run draws 1-4 sessions (breadth-first, depth-first, weighted, bounded, beam or caller-supplied agenda; plain or duplicate-free) over random graphs with cycles, shared nodes, duplicate edges and equal weights, then lets the scheduler pull, abandon and restart them in any order and lets successor functions panic.",
    real: &["search (Search, unique::Search and every agenda)", "min-max-heap", "std collections"],
    stub: &["successor functions, their failures and the caller-supplied agenda are simulated"],
    assumptions: &["sessions are polled from one thread at a time; the types offer no sharing between threads", "graphs of mostly at most 9 nodes and 24 edges, rarely up to 2500 nodes, and one of up to 70 000 nodes now and then"],
    must_reach: &["large graph", "huge graph", "enormous graph", "pruned and unique", "duplicate discovered", "ended", "successor function panicked", "abandoned", "tie"],
};

/// A discovered item: equality and order are those of the key.
#[derive(Clone, Debug)]
struct Node {
    key: u32,
    uid: u32,
    weight: u32,
}
impl PartialEq for Node {
    fn eq(&self, o: &Node) -> bool {
        self.key == o.key
    }
}
impl Eq for Node {}
impl PartialOrd for Node {
    fn partial_cmp(&self, o: &Node) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Node {
    fn cmp(&self, o: &Node) -> Ordering {
        self.key.cmp(&o.key)
    }
}
impl Weighted for Node {
    type Weight = Fixed;
    fn get_weight(&self) -> Fixed {
        Fixed(self.weight)
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Bfs,
    Dfs,
    Weighted,
    VecAgenda,
    DequeAgenda,
    Limited(usize),
    Beam(u32),
    Adversary,
}

struct World {
    edges: Vec<Vec<(u32, u32)>>,
    next_uid: u32,
    /// discovered instances in order of discovery, as the iterator hands them out
    fresh: Vec<Node>,
    /// uids in order of expansion
    expanded: Vec<u32>,
    /// expansion of this key panics after so many successors
    bomb: Option<(u32, usize)>,
    bombed: bool,
    /// content of the caller-supplied agenda
    custom: Vec<Node>,
    /// what the caller-supplied agenda decided last
    popped: Option<u32>,
}

type W = Rc<RefCell<World>>;

struct Succ {
    w: W,
    edges: Vec<(u32, u32)>,
    from: u32,
    parent_weight: u32,
    path_weights: bool,
    at: usize,
    announced: (usize, Option<usize>),
}

impl Iterator for Succ {
    type Item = Node;
    fn next(&mut self) -> Option<Node> {
        let mut w = self.w.borrow_mut();
        if let Some((key, n)) = w.bomb {
            if key == self.from && n == self.at {
                w.bomb = None;
                w.bombed = true;
                drop(w);
                panic!("injected");
            }
        }
        let (to, weight) = *self.edges.get(self.at)?;
        self.at += 1;
        let weight =
            if self.path_weights { weight.min(self.parent_weight) } else { weight };
        let node = Node { key: to, uid: w.next_uid, weight };
        w.next_uid += 1;
        w.fresh.push(node.clone());
        self.announced.0 = self.announced.0.saturating_sub(1);
        self.announced.1 = self.announced.1.map(|u| u.saturating_sub(1));
        Some(node)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.announced
    }
}

struct Adversary {
    w: W,
    sim: Sim,
}

impl Agenda for Adversary {
    type Item = Node;
    fn push(&mut self, n: Node) {
        self.w.borrow_mut().custom.push(n);
    }
    fn pop(&mut self) -> Option<Node> {
        let mut w = self.w.borrow_mut();
        if w.custom.is_empty() {
            return None;
        }
        let i = self.sim.below(w.custom.len());
        let n = w.custom.remove(i);
        w.popped = Some(n.uid);
        Some(n)
    }
    fn peek(&self) -> Option<&Node> {
        None
    }
    fn len(&self) -> usize {
        self.w.borrow().custom.len()
    }
}

struct Session {
    kind: Kind,
    unique: bool,
    w: W,
    iter: Box<dyn Iterator<Item = Node>>,
    /// the model: discovered and not yet taken, in order of discovery
    frontier: Vec<Node>,
    /// weights held by a lossy agenda
    held: Vec<u32>,
    /// instances numbered below this came in one unordered collection
    unordered: u32,
    emitted: Vec<Node>,
    seen: BTreeSet<u32>,
    known: BTreeSet<u32>,
    ended: bool,
    /// a successor function panicked: only weak promises are left
    wounded: bool,
}

const EXHAUST: usize = 20_000;

fn successors(sim: &Sim, w: &W, path_weights: bool) -> impl FnMut(&Node) -> Succ {
    let (sim, w) = (sim.clone(), w.clone());
    move |n: &Node| {
        w.borrow_mut().expanded.push(n.uid);
        let edges = w.borrow().edges[n.key as usize].clone();
        let announced = announcement(&sim, edges.len());
        Succ { w: w.clone(), edges, from: n.key, parent_weight: n.weight, path_weights, at: 0, announced }
    }
}

fn new_session(sim: &Sim, large: bool) -> Session {
    let n = if large && sim.flip(1, 40) {
        sim.range(400, 2500)
    } else if large {
        sim.range(10, 400)
    } else {
        sim.range(1, 9)
    };
    sim.probe_if(n > 1200, "huge graph");
    let m = if large { sim.below(4 * n) } else { sim.below(25) };
    let wmax = if large { *sim.pick(&[3u64, 40, 4000]) } else { *sim.pick(&[1u64, 3, 40]) };
    let mut edges = vec![Vec::new(); n];
    let per_node: Vec<u32> = (0..n).map(|_| sim.choose(wmax) as u32 * 16).collect();
    let by_node = sim.flip(1, 2);
    for _ in 0..m {
        let (a, b) = (sim.below(n), sim.below(n));
        let w = if by_node { per_node[b] } else { sim.choose(wmax) as u32 * 16 };
        edges[a].push((b as u32, w));
    }
    let path_weights = !by_node && sim.flip(1, 2);
    let unique = sim.flip(1, 2);
    let kind = match sim.below(8) {
        0 => Kind::Bfs,
        1 => Kind::Dfs,
        2 => Kind::Weighted,
        3 => Kind::VecAgenda,
        4 => Kind::DequeAgenda,
        5 if sim.flip(1, 12) => Kind::Limited(usize::max_value()),
        5 => Kind::Limited(if large { sim.below(200) } else { sim.below(7) }),
        6 => Kind::Beam(sim.below(17) as u32),
        _ => Kind::Adversary,
    };
    let w: W = Rc::new(RefCell::new(World {
        edges,
        next_uid: 0,
        fresh: Vec::new(),
        expanded: Vec::new(),
        bomb: None,
        bombed: false,
        custom: Vec::new(),
        popped: None,
    }));
    let k = if large { sim.below(60) } else { sim.below(4) };
    let mut initials = Vec::new();
    for _ in 0..k {
        let key = sim.below(n) as u32;
        let mut g = w.borrow_mut();
        let weight = if by_node { per_node[key as usize] } else { sim.choose(wmax) as u32 * 16 };
        initials.push(Node { key, uid: g.next_uid, weight });
        g.next_uid += 1;
    }
    let frontier = initials.clone();
    let mut held = Vec::new();
    let s = successors(sim, &w, path_weights);
    macro_rules! boxed {
        ($search:expr) => {{
            let x = $search;
            if unique {
                Box::new(x.uniques()) as Box<dyn Iterator<Item = Node>>
            } else {
                Box::new(x) as Box<dyn Iterator<Item = Node>>
            }
        }};
    }
    let iter = match kind {
        Kind::Bfs => boxed!(Search::bfs(Announced::new(sim, k, initials.into_iter()), s)),
        Kind::Dfs => boxed!(Search::dfs(Announced::new(sim, k, initials.into_iter()), s)),
        Kind::Weighted => boxed!(Search::weighted(Announced::new(sim, k, initials.into_iter()), s)),
        Kind::VecAgenda => boxed!(Search::with_agenda(initials, s)),
        Kind::DequeAgenda => {
            let mut d: VecDeque<Node> = VecDeque::new();
            Agenda::extend(&mut d, initials);
            boxed!(Search::with_agenda(d, s))
        }
        Kind::Limited(cap) => {
            let mut h = limited_heap::weighted::LimitedHeap::with_capacity(cap);
            for i in initials {
                lossy_push(kind, &mut held, i.weight);
                Agenda::push(&mut h, i);
            }
            boxed!(Search::with_agenda(h, s))
        }
        Kind::Beam(beta) => {
            let mut h = beam_heap::weighted::BeamHeap::new(Fixed(beta));
            for i in initials {
                lossy_push(kind, &mut held, i.weight);
                Agenda::push(&mut h, i);
            }
            boxed!(Search::with_agenda(h, s))
        }
        Kind::Adversary => {
            w.borrow_mut().custom = initials;
            boxed!(Search::with_agenda(Adversary { w: w.clone(), sim: sim.clone() }, s))
        }
    };
    let known = frontier.iter().map(|n| n.uid).collect();
    ev!(sim, "new {:?}{} edges {:?} initials {:?}", kind, if unique { " unique" } else { "" }, w.borrow().edges, frontier);
    Session {
        kind,
        unique,
        w,
        iter,
        frontier,
        held,
        unordered: match kind {
            Kind::Bfs | Kind::Dfs => k as u32,
            _ => 0,
        },
        emitted: Vec::new(),
        seen: BTreeSet::new(),
        known,
        ended: false,
        wounded: false,
    }
}

fn lossy_push(kind: Kind, held: &mut Vec<u32>, weight: u32) {
    match kind {
        Kind::Limited(cap) => {
            held.push(weight);
            if held.len() > cap {
                let i = (0..held.len()).min_by_key(|i| held[*i]).unwrap();
                held.swap_remove(i);
            }
        }
        Kind::Beam(beta) => {
            let best = held.iter().max().cloned();
            if best.map(|b| Fixed(weight) >= Fixed(b) * Fixed(beta)).unwrap_or(true) {
                held.push(weight);
            }
        }
        _ => (),
    }
}

impl Session {
    /// The instances the session may emit now.
    fn allowed(&self) -> Vec<Node> {
        let open: Vec<&Node> = self
            .frontier
            .iter()
            .filter(|n| !self.unique || !self.seen.contains(&n.key))
            .collect();
        let end = match self.kind {
            Kind::Bfs => open.first(),
            Kind::Dfs => open.last(),
            _ => None,
        };
        if end.map(|n| n.uid < self.unordered).unwrap_or(false) {
            return open.into_iter().filter(|n| n.uid < self.unordered).cloned().collect();
        }
        match self.kind {
            Kind::Bfs | Kind::DequeAgenda => open.first().cloned().cloned().into_iter().collect(),
            Kind::Dfs | Kind::VecAgenda => open.last().cloned().cloned().into_iter().collect(),
            Kind::Weighted => {
                let m = open.iter().map(|n| n.weight).max();
                open.into_iter().filter(|n| Some(n.weight) == m).cloned().collect()
            }
            Kind::Adversary => {
                let p = self.w.borrow().popped;
                open.into_iter().filter(|n| Some(n.uid) == p).cloned().collect()
            }
            Kind::Limited(_) | Kind::Beam(_) => {
                let m = self.held.iter().max().cloned();
                open.into_iter().filter(|n| Some(n.weight) == m).cloned().collect()
            }
        }
    }

    fn lossy(&self) -> bool {
        matches!(self.kind, Kind::Limited(_) | Kind::Beam(_))
    }

    fn nothing_left(&self) -> bool {
        match self.kind {
            Kind::Limited(_) | Kind::Beam(_) => self.held.is_empty(),
            _ => self.frontier.iter().all(|n| self.unique && self.seen.contains(&n.key)),
        }
    }

    fn pull(&mut self, sim: &Sim, id: usize) -> Verdict {
        sim.step(id, "pull");
        self.w.borrow_mut().fresh.clear();
        let iter = &mut self.iter;
        let r = world::catch(|| iter.next());
        let fresh = std::mem::replace(&mut self.w.borrow_mut().fresh, Vec::new());
        let r = match r {
            Ok(r) => r,
            Err(msg) => {
                ensure!(
                    std::mem::replace(&mut self.w.borrow_mut().bombed, false),
                    "panic",
                    "session {} {:?}: pulling panicked: {}",
                    id,
                    self.kind,
                    msg
                );
                sim.fault("successor function panicked");
                sim.probe("successor function panicked");
                ev!(sim, "session {} panicked after {} successors", id, fresh.len());
                self.wounded = true;
                for n in fresh {
                    self.known.insert(n.uid);
                }
                return Ok(());
            }
        };
        ev!(
            sim,
            "session {} emits {:?}, discovers {:?}",
            id,
            r.as_ref().map(|n| (n.key, n.uid, n.weight)),
            fresh.iter().map(|n| (n.key, n.uid, n.weight)).collect::<Vec<_>>()
        );
        if self.wounded {
            // it may have lost what it was expanding, but it invents nothing
            if let Some(n) = r {
                ensure!(self.known.remove(&n.uid), "invented", "session {} emits {:?}, never discovered or emitted before", id, n);
            }
            for n in fresh {
                self.known.insert(n.uid);
            }
            return Ok(());
        }
        if self.unique && self.lossy() {
            // which of the duplicates were thrown away is not known
            match r {
                None => {
                    ensure!(fresh.is_empty(), "explored after end", "session {} expanded something without emitting it", id);
                    self.ended = true;
                }
                Some(n) => {
                    ensure!(self.known.remove(&n.uid), "invented", "session {} emits {:?}, never discovered or emitted before", id, n);
                    ensure!(self.seen.insert(n.key), "emitted twice", "session {} emits {} twice", id, n.key);
                    sim.probe("pruned and unique");
                    for n in fresh {
                        self.known.insert(n.uid);
                    }
                }
            }
            return Ok(());
        }
        match r {
            None => {
                ensure!(
                    self.nothing_left(),
                    "ended early",
                    "session {} ({:?}{}) ended although {:?} {:?} is left to explore",
                    id,
                    self.kind,
                    if self.unique { ", unique" } else { "" },
                    self.frontier,
                    self.held
                );
                ensure!(fresh.is_empty(), "explored after end", "session {} expanded something without emitting it", id);
                self.ended = true;
                sim.probe("ended");
            }
            Some(n) => {
                let allowed = self.allowed();
                sim.probe_if(allowed.len() > 1, "tie");
                ensure!(
                    allowed.iter().any(|a| a.uid == n.uid),
                    "wrong item",
                    "session {} ({:?}{}) emits {:?}, but only {:?} may come next; frontier {:?}, held {:?}",
                    id,
                    self.kind,
                    if self.unique { ", unique" } else { "" },
                    n,
                    allowed,
                    self.frontier,
                    self.held
                );
                if self.unique {
                    ensure!(self.seen.insert(n.key), "emitted twice", "session {} emits {} twice", id, n.key);
                }
                self.frontier.retain(|x| x.uid != n.uid);
                if let Some(i) = self.held.iter().position(|w| *w == n.weight) {
                    self.held.swap_remove(i);
                }
                self.emitted.push(n);
                for f in &fresh {
                    sim.probe_if(
                        self.frontier.iter().any(|x| x.key == f.key) || self.seen.contains(&f.key),
                        "duplicate discovered",
                    );
                    lossy_push(self.kind, &mut self.held, f.weight);
                    self.known.insert(f.uid);
                }
                Extend::extend(&mut self.frontier, fresh);
                // successors are asked for once per emitted item, in order
                let w = self.w.borrow();
                let (e, x) = (self.emitted.len(), w.expanded.len());
                ensure!(
                    (x == e || x + 1 == e)
                        && w.expanded.iter().zip(&self.emitted).all(|(u, n)| *u == n.uid),
                    "expansion",
                    "session {}: emitted {:?} but asked for successors of {:?}",
                    id,
                    self.emitted.iter().map(|n| n.uid).collect::<Vec<_>>(),
                    w.expanded
                );
                let complete = x == e;
                let want: usize = w.edges[self.emitted[e - 1].key as usize].len();
                // what was discovered is what the relation says
                if complete {
                    let got: Vec<u32> = self.frontier.iter().rev().take(want).rev().map(|n| n.key).collect();
                    let exp: Vec<u32> = w.edges[self.emitted[e - 1].key as usize].iter().map(|t| t.0).collect();
                    ensure!(got == exp, "lost successors", "session {}: took successors {:?} of {:?}", id, got, exp);
                }
            }
        }
        Ok(())
    }

    /// All items reachable from the initial ones.
    fn reachable(&self) -> BTreeSet<u32> {
        let w = self.w.borrow();
        let mut all: BTreeSet<u32> = BTreeSet::new();
        let mut todo: Vec<u32> =
            self.emitted.iter().chain(&self.frontier).map(|n| n.key).collect();
        while let Some(k) = todo.pop() {
            if all.insert(k) {
                Extend::extend(&mut todo, w.edges[k as usize].iter().map(|e| e.0));
            }
        }
        all
    }
}

/// Graphs of more nodes than fit into small numbers: one session, run to its end.
fn enormous(sim: &Sim) -> Verdict {
    let n = *sim.pick(&[65_535u32, 65_536, 65_537, 66_000, 70_000]);
    let unique = sim.flip(1, 2);
    let shape = sim.below(if unique { 4 } else { 3 });
    let order = sim.below(3);
    let (a, b) = (2 * sim.below(500) as u32 + 1, sim.below(5000) as u32);
    sim.step(0, "run to the end");
    ev!(sim, "{} nodes, shape {}, order {}, unique {}, {} {}", n, shape, order, unique, a, b);
    sim.shape(&[shape as u8, order as u8, unique as u8]);
    let below = move |k: u32| -> Vec<u32> {
        match shape {
            0 => (k + 1..n).take(1).collect(),
            1 if k == 0 => (1..n).collect(),
            1 => vec![],
            2 => (2 * k + 1..n).take(2).collect(),
            _ => vec![(k + 1) % n, (u64::from(k) * u64::from(a) % u64::from(n)) as u32, (k + b) % n],
        }
    };
    let node = move |k: u32| Node { key: k, uid: k, weight: k.wrapping_mul(a).wrapping_add(b) % 4096 };
    let succ = move |x: &Node| below(x.key).into_iter().map(node).collect::<Vec<_>>();
    let first = vec![node(0)];
    macro_rules! boxed {
        ($x:expr) => {
            if unique {
                Box::new($x.uniques()) as Box<dyn Iterator<Item = Node>>
            } else {
                Box::new($x) as Box<dyn Iterator<Item = Node>>
            }
        };
    }
    let mut it = match order {
        0 => boxed!(Search::bfs(first, succ)),
        1 => boxed!(Search::dfs(first, succ)),
        _ => boxed!(Search::weighted(first, succ)),
    };
    // the definition of the three orders
    let mut list: VecDeque<u32> = Some(0).into_iter().collect();
    let mut by_weight: BTreeMap<u32, BTreeMap<u32, u32>> = BTreeMap::new();
    by_weight.entry(node(0).weight).or_default().insert(0, 1);
    let mut seen = vec![false; n as usize];
    let mut emitted = 0u32;
    loop {
        let got = it.next();
        if order < 2 {
            let want = loop {
                match if order == 0 { list.pop_front() } else { list.pop_back() } {
                    Some(k) if unique && seen[k as usize] => (),
                    k => break k,
                }
            };
            ensure!(got.as_ref().map(|x| x.key) == want, "order", "item {} is {:?} instead of {:?}", emitted, got, want);
        } else if unique {
            // what was emitted does not count any more
            while let Some((&w, ks)) = by_weight.iter_mut().next_back() {
                let old: Vec<u32> = ks.keys().cloned().filter(|&k| seen[k as usize]).collect();
                for k in old {
                    ks.remove(&k);
                }
                if !ks.is_empty() {
                    break;
                }
                by_weight.remove(&w);
            }
        }
        let x = match got {
            Some(x) => x,
            None => break,
        };
        if order == 2 {
            let top = by_weight.keys().next_back().cloned();
            ensure!(Some(x.weight) == top, "order", "item {} has weight {} instead of {:?}", emitted, x.weight, top);
            let ks = by_weight.get_mut(&x.weight).unwrap();
            ensure!(ks.contains_key(&x.key), "order", "item {} is {}, which is not there", emitted, x.key);
            let c = ks.get_mut(&x.key).unwrap();
            *c -= 1;
            if *c == 0 {
                ks.remove(&x.key);
            }
            if ks.is_empty() {
                by_weight.remove(&x.weight);
            }
        }
        ensure!(!seen[x.key as usize], "twice", "item {} is {} again", emitted, x.key);
        seen[x.key as usize] = true;
        emitted += 1;
        for k in below(x.key) {
            if order < 2 {
                list.push_back(k);
            } else {
                *by_weight.entry(node(k).weight).or_default().entry(k).or_insert(0) += 1;
            }
        }
    }
    ensure!(emitted == n, "end", "{} of {} nodes emitted", emitted, n);
    sim.probe("enormous graph");
    Ok(())
}

fn run(sim: &Sim) -> Verdict {
    if sim.flip(1, 12_000) {
        return enormous(sim);
    }
    let mut sessions: BTreeMap<usize, Session> = BTreeMap::new();
    let mut next = 0;
    let large = sim.flip(1, 150);
    sim.probe_if(large, "large graph");
    let steps = if large { sim.range(1, 900) } else { sim.range(1, 60) };
    let bombs = sim.flip(1, 4);
    for _ in 0..steps {
        let create = sessions.is_empty() || (sessions.len() < 4 && sim.flip(1, 8));
        if create {
            sessions.insert(next, new_session(sim, large));
            next += 1;
            continue;
        }
        let ids: Vec<usize> = sessions.keys().cloned().collect();
        let id = *sim.pick(&ids);
        if sim.flip(1, if large { 300 } else { 40 }) {
            sim.step(id, "abandon");
            sim.fault("abandoned");
            sim.probe("abandoned");
            ev!(sim, "session {} abandoned", id);
            sessions.remove(&id);
            continue;
        }
        let s = sessions.get_mut(&id).unwrap();
        if bombs && sim.flip(1, if large { 200 } else { 12 }) {
            let mut w = s.w.borrow_mut();
            let n = w.edges.len();
            let key = sim.below(n);
            let at = sim.below(w.edges[key].len() + 1);
            w.bomb = Some((key as u32, at));
        }
        for _ in 0..sim.range(1, 3) {
            if s.ended && sim.flip(1, 2) {
                break;
            }
            s.pull(sim, id)?;
        }
    }
    // run what terminates to the end
    for (id, s) in sessions.iter_mut() {
        s.w.borrow_mut().bomb = None;
        if !s.unique || s.wounded {
            continue;
        }
        let all = s.reachable();
        let mut pulls = 0;
        while !s.ended {
            s.pull(sim, *id)?;
            pulls += 1;
            if pulls > EXHAUST {
                bail!("endless", "session {} does not end", id);
            }
        }
        if s.lossy() {
            continue;
        }
        let got: BTreeSet<u32> = s.emitted.iter().map(|n| n.key).collect();
        ensure!(got == all, "incomplete", "session {} emitted {:?} of {:?}", id, got, all);
        s.pull(sim, *id)?;
    }
    Ok(())
}
