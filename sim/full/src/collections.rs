//! C19: configurations, transitions, rules and storages as members of hashed
//! and ordered collections, over histories and restarts.
use rustomata::automata::push_down_automaton::{PushDown, PushDownInstruction};
use rustomata::automata::tree_stack_automaton::{TreeStack, TreeStackInstruction};
use rustomata::dyck::Bracket;
use rustomata::grammars::cfg::{CFGComposition, CFGRule, LetterT};
use rustomata::grammars::pmcfg::{Composition, PMCFGRule, VarT};
use rustomata::recognisable::{Configuration, Item, Transition};
use rustomata::util::integerisable::{Integerisable1, Integerisable2};
use rustomata::util::push_down::Pushdown;
use rustomata::util::reverse::Reverse;
use simkit::{bail, ensure, ev, world, Check, Sim, Verdict};
use std::cell::RefCell;
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, HashSet};
use std::fmt::Debug;
use std::hash::Hash;

pub const CHECK: Check = Check {
    id: "C19",
    run,
    quick: 300_000,
    thorough: 12_000_000,
    rule: "A run takes one kind of value (configurations, transitions and their instructions, items, grammar rules, push-downs, shared lists, tree stacks, brackets, reversed weights), builds values of a small pool again and again, each time through a construction history of its own that may share structure with values built before, and lets 1-3 owners insert, look up, replace, remove and list them in hash tables, ordered sets, heaps and numbering tables, which 1-3 processes with hash seeds of their own rebuild from what the process before them listed, in another order.",
    real: &["Eq, Hash and Ord of the kinds of values", "integerisation", "std and unique-heap collections"],
    stub: &["integeriser crate"],
    assumptions: &["symbols and weights themselves are totally ordered and hash consistently"],
    must_reach: &["hashed", "ordered", "numbered", "equal but for the weight", "equal through another history", "shares structure", "rebuilt after restart", "removed and inserted again", "listed"],
};

/// What a value is built from.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Plain {
    weight: u32,
    a: Vec<u8>,
    b: Vec<u8>,
    /// divides `b`
    at: usize,
}
type Id = (Vec<u8>, Vec<u8>, usize);

fn plain(sim: &Sim) -> Plain {
    let s = *sim.pick(&[2usize, 3, 8]);
    let few = |sim: &Sim| -> Vec<u8> {
        let n = if sim.flip(1, 30) { sim.range(5, 30) } else { sim.below(5) };
        (0..n).map(|_| sim.below(s) as u8).collect()
    };
    let (a, b) = (few(sim), few(sim));
    let at = sim.below(b.len() + 1);
    Plain { weight: sim.below(4) as u32, a, b, at }
}

/// A neighbour of a value: the same but for one place.
fn vary(sim: &Sim, p: &Plain) -> Plain {
    let mut p = p.clone();
    match sim.below(7) {
        0 => p.weight = sim.below(4) as u32,
        1 => p.a.push(0),
        2 if !p.a.is_empty() => {
            let i = sim.below(p.a.len());
            p.a[i] ^= 1;
        }
        3 if !p.b.is_empty() => {
            let i = sim.below(p.b.len());
            p.b[i] ^= 1;
        }
        4 => p.b.push(0),
        5 => std::mem::swap(&mut p.a, &mut p.b),
        _ => p.at = sim.below(p.b.len() + 1),
    }
    p.at = p.at.min(p.b.len());
    p
}

trait Kind {
    type V: Clone + Debug + Eq + 'static;
    const NAME: &'static str;
    /// the weight decides the order first: greater means greater (1), smaller (-1), or it does not matter
    const BY_WEIGHT: i32;
    /// the order tells values apart that differ in their weight
    const WEIGHED: bool;
    fn build(sim: &Sim, p: &Plain) -> Self::V;
    /// what equality is about
    fn id(p: &Plain) -> Id;
}

fn all(p: &Plain) -> Id {
    (p.a.clone(), p.b.clone(), p.at)
}

/// A push-down with the content `v` under one symbol, reached by operations.
fn push_down(sim: &Sim, v: &[u8]) -> PushDown<u8> {
    let full: Vec<u8> = std::iter::once(9).chain(v.iter().cloned()).collect();
    if sim.flip(1, 2) {
        return PushDown::from(full);
    }
    let mut p = PushDown::new(9, 200);
    let mut now: Vec<u8> = vec![200];
    // a detour, then the content in one or two replacements
    for _ in 0..sim.below(3) {
        let next: Vec<u8> = (0..sim.range(1, 3)).map(|_| sim.below(5) as u8).collect();
        // the replaced symbols are listed from the top
        now.reverse();
        p = p.replace(&now, &next).unwrap();
        now = next;
    }
    let cut = sim.below(v.len() + 1);
    now.reverse();
    p = p.replace(&now, &v[..cut]).unwrap();
    p.replace(&[], &v[cut..]).unwrap()
}

thread_local! {
    /// Values built before in this process, whose structure later ones share.
    static LISTS: RefCell<Vec<(Vec<u8>, Pushdown<u8>)>> = const { RefCell::new(Vec::new()) };
    static TREES: RefCell<Vec<(Vec<u8>, usize, TreeStack<u8>)>> = const { RefCell::new(Vec::new()) };
}

/// A list that continues one that was built before, if there is one.
fn shared_list(sim: &Sim, v: &[u8]) -> Pushdown<u8> {
    let found: Vec<(Vec<u8>, Pushdown<u8>)> =
        LISTS.with(|l| l.borrow().iter().filter(|(w, _)| v.starts_with(w)).cloned().collect());
    // one that differs in its last value only
    let near: Vec<Pushdown<u8>> = match v.split_last() {
        None => Vec::new(),
        Some((_, below)) => LISTS.with(|l| {
            l.borrow().iter().filter(|(w, _)| w.len() == v.len() && w.starts_with(below)).map(|x| x.1.clone()).collect()
        }),
    };
    let p = if !near.is_empty() && sim.flip(1, 2) {
        sim.probe("shares structure");
        sim.pick(&near).clone().set(v[v.len() - 1]).unwrap()
    } else if found.is_empty() || sim.flip(1, 3) {
        list(sim, v)
    } else {
        sim.probe("shares structure");
        let (w, p) = sim.pick(&found).clone();
        v[w.len()..].iter().fold(p, |p, &x| p.push(x))
    };
    // what is below of it may be shared as well
    let (mut w, mut q) = (v.to_vec(), p.clone());
    for _ in 0..sim.below(3) {
        if let Ok((r, _)) = q.clone().pop() {
            q = r;
            w.pop();
        }
    }
    LISTS.with(|l| l.borrow_mut().push((w, q)));
    p
}

fn list<A: Clone + Debug>(sim: &Sim, v: &[A]) -> Pushdown<A> {
    if sim.flip(1, 3) {
        return Pushdown::from(v);
    }
    let mut p = Pushdown::new();
    for x in v {
        p = p.push(x.clone());
        match sim.below(6) {
            0 => p = p.push(x.clone()).pop().unwrap().0,
            1 => p = p.clone().push(v[0].clone()).set(x.clone()).unwrap().pop().unwrap().0,
            _ => (),
        }
    }
    p
}

/// A tree stack: the children of the root are `a` (zero: no child), those of
/// another child, labelled by their number, are `b`; the pointer is at the root or at child `at`.
fn tree(sim: &Sim, p: &Plain) -> TreeStack<u8> {
    let place = 2 * p.at;
    let found: Vec<TreeStack<u8>> =
        TREES.with(|l| l.borrow().iter().filter(|(a, at, _)| *a == p.a && *at == p.at).map(|x| x.2.clone()).collect());
    let mut t = if found.is_empty() || sim.flip(1, 3) {
        trunk(sim, p)
    } else {
        sim.probe("shares structure");
        sim.pick(&found).clone()
    };
    if sim.flip(1, 2) {
        TREES.with(|l| l.borrow_mut().push((p.a.clone(), p.at, t.clone())));
    }
    t = t.set(100 + p.b.len() as u8);
    let mut kids: Vec<usize> = (0..p.b.len()).filter(|&i| p.b[i] > 0).collect();
    sim.shuffle(&mut kids);
    for j in kids {
        if sim.flip(1, 4) {
            // somewhere else and back
            t = t.down().unwrap().up(place).unwrap();
        }
        t = t.push(j, p.b[j]).unwrap().down().unwrap();
    }
    if p.weight % 2 == 0 {
        t = t.down().unwrap();
    } else if sim.flip(1, 4) {
        t = t.down().unwrap().up(place).unwrap();
    }
    t
}

/// The tree stack without the children of the child number `at`, where the pointer is.
fn trunk(sim: &Sim, p: &Plain) -> TreeStack<u8> {
    let place = 2 * p.at;
    let mut t = TreeStack::new(if sim.flip(1, 2) { 7 } else { 9 });
    let mut order: Vec<usize> = (0..p.a.len()).filter(|&i| p.a[i] > 0).collect();
    sim.shuffle(&mut order);
    let early = sim.below(order.len() + 1);
    for k in 0..order.len() + 1 {
        if k == early {
            t = t.push(place, 100).unwrap().down().unwrap();
        }
        if k < order.len() {
            let i = order[k];
            let c = 2 * i + 1;
            if sim.flip(1, 4) {
                t = t.push(c, 0).unwrap().set(p.a[i]).down().unwrap();
            } else {
                t = t.push(c, p.a[i]).unwrap().down().unwrap();
            }
            if sim.flip(1, 4) {
                t = t.up(c).unwrap().down().unwrap();
            }
        }
    }
    t.set(7).up(place).unwrap()
}

macro_rules! kind {
    ($k:ident, $name:expr, $v:ty, $by:expr, $weighed:expr, $build:expr, $id:expr) => {
        struct $k;
        impl Kind for $k {
            type V = $v;
            const NAME: &'static str = $name;
            const BY_WEIGHT: i32 = $by;
            const WEIGHED: bool = $weighed;
            fn build(sim: &Sim, p: &Plain) -> $v {
                let f: fn(&Sim, &Plain) -> $v = $build;
                f(sim, p)
            }
            fn id(p: &Plain) -> Id {
                let f: fn(&Plain) -> Id = $id;
                f(p)
            }
        }
    };
}

type Pdi = PushDownInstruction<u8>;
type Tsi = TreeStackInstruction<u8>;

fn pdi(p: &Plain) -> Pdi {
    PushDownInstruction::Replace { current_val: p.b[..p.at].to_vec(), new_val: p.b[p.at..].to_vec() }
}
fn tsi(p: &Plain) -> Tsi {
    let x = |i: usize| p.b.get(i).cloned().unwrap_or(50);
    match p.at % 3 {
        0 => TreeStackInstruction::Up { n: p.b.len(), current_val: x(0), old_val: x(1), new_val: x(2) },
        1 => TreeStackInstruction::Push { n: p.b.len(), current_val: x(0), new_val: x(1) },
        _ => TreeStackInstruction::Down { current_val: x(0), old_val: x(1), new_val: x(2) },
    }
}
fn tsi_id(p: &Plain) -> Id {
    let x = |i: usize| p.b.get(i).cloned().unwrap_or(50);
    let n = p.b.len().min(255) as u8;
    (p.a.clone(), match p.at % 3 {
        0 => vec![n, x(0), x(1), x(2)],
        1 => vec![n, x(0), x(1)],
        _ => vec![x(0), x(1), x(2)],
    }, p.at % 3)
}
fn transition(p: &Plain) -> Transition<Pdi, u8, u32> {
    Transition { word: p.a.clone(), weight: p.weight, instruction: pdi(p) }
}

kind!(ConfPd, "configuration of a push-down", Configuration<PushDown<u8>, u8, u32>, 1, true,
    |sim, p| Configuration { word: p.a.clone(), storage: push_down(sim, &p.b), weight: p.weight },
    |p| (p.a.clone(), p.b.clone(), 0));
kind!(ConfRev, "configuration with a reversed weight", Configuration<Vec<u8>, u8, Reverse<u32>>, -1, true,
    |_, p| Configuration { word: p.a.clone(), storage: p.b.clone(), weight: Reverse::from(p.weight) },
    |p| (p.a.clone(), p.b.clone(), 0));
kind!(ConfTs, "configuration of a tree stack", Configuration<TreeStack<u8>, u8, u32>, 1, true,
    |sim, p| Configuration { word: p.a.clone(), storage: tree(sim, &Plain { weight: 0, ..p.clone() }), weight: p.weight },
    |p| { let (a, b, at) = tree_id(p); (p.a.clone(), [a, vec![255], b].concat(), at / 2) });
kind!(TransPd, "transition of a push-down", Transition<Pdi, u8, u32>, 1, true, |_, p| transition(p), all);
kind!(TransTs, "transition of a tree stack", Transition<Tsi, u8, u32>, 1, true,
    |_, p| Transition { word: p.a.clone(), weight: p.weight, instruction: tsi(p) }, tsi_id);
kind!(Items, "item", Item<PushDown<u8>, Pdi, u8, u32>, 1, true,
    |sim, p| {
        let run: Vec<Transition<Pdi, u8, u32>> =
            p.a.iter().map(|&x| transition(&Plain { weight: 1, a: vec![x], b: vec![x; p.at], at: 0 })).collect();
        Item(Configuration { word: p.b.clone(), storage: push_down(sim, &p.b), weight: p.weight }, list(sim, &run))
    },
    |p| (p.a.clone(), p.b.clone(), if p.a.is_empty() { 0 } else { p.at }));
kind!(PmcfgRules, "rule of a multiple grammar", PMCFGRule<u8, u8, u32>, 0, true,
    |_, p| PMCFGRule {
        head: p.at as u8,
        tail: p.a.clone(),
        composition: Composition::from(vec![
            p.b[..p.at].iter().map(|&x| VarT::T(x)).collect(),
            p.b[p.at..].iter().map(|&x| VarT::Var(x as usize, x as usize / 2)).collect(),
        ]),
        weight: p.weight,
    }, all);
kind!(CfgRules, "rule of a context-free grammar", CFGRule<u8, u8, u32>, 0, true,
    |_, p| CFGRule {
        head: p.at as u8,
        composition: CFGComposition {
            composition: p.a.iter().map(|&x| LetterT::Value(x)).chain(p.b.iter().map(|&x| LetterT::Label(x))).collect(),
        },
        weight: p.weight,
    }, all);
kind!(PdInstr, "push-down instruction", Pdi, 0, false, |_, p| pdi(p), |p| (vec![], p.b.clone(), p.at));
kind!(TsInstr, "tree-stack instruction", Tsi, 0, false, |_, p| tsi(p), |p| { let (_, b, c) = tsi_id(p); (vec![], b, c) });
kind!(PushDowns, "push-down", PushDown<u8>, 0, false, |sim, p| push_down(sim, &p.b), |p| (vec![], p.b.clone(), 0));
kind!(Lists, "shared list", Pushdown<u8>, 0, false, |sim, p| shared_list(sim, &p.b), |p| (vec![], p.b.clone(), 0));
fn tree_id(p: &Plain) -> Id {
    let trim = |v: &[u8]| {
        let n = v.iter().rposition(|&x| x > 0).map(|i| i + 1).unwrap_or(0);
        v[..n].to_vec()
    };
    (trim(&p.a), p.b.clone(), 2 * p.at + (p.weight % 2) as usize)
}
kind!(Trees, "tree stack", TreeStack<u8>, 0, false, |sim, p| tree(sim, p), tree_id);
kind!(Brackets, "bracket", Bracket<Vec<u8>>, 0, false,
    |_, p| if p.at % 2 == 0 { Bracket::Open(p.a.clone()) } else { Bracket::Close(p.a.clone()) },
    |p| (p.a.clone(), vec![], p.at % 2));
kind!(Reversed, "reversed weight", Reverse<u32>, -1, true, |_, p| Reverse::from(p.weight), |p| (vec![p.weight as u8], vec![], 0));

/// A pool of values that differ in one place only, more often than not.
fn pool(sim: &Sim) -> Vec<Plain> {
    let mut v = vec![plain(sim)];
    for _ in 0..sim.range(1, 9) {
        let p = if sim.flip(1, 3) { plain(sim) } else { let p = sim.pick(&v).clone(); vary(sim, &p) };
        v.push(p);
    }
    v
}

fn order_key<K: Kind>(p: &Plain) -> (u32, Id) {
    (if K::WEIGHED { p.weight } else { 0 }, K::id(p))
}

/// Tables keyed by values, rebuilt by processes with hash seeds of their own.
fn hashed<K: Kind>(sim: &Sim) -> Verdict
where
    K::V: Hash,
{
    sim.probe("hashed");
    let pool = pool(sim);
    sim.shape(format!("{} {:?}", K::NAME, pool).as_bytes());
    let mut model: BTreeMap<Id, (usize, u32)> = BTreeMap::new();
    let mut gone: BTreeSet<Id> = BTreeSet::new();
    let processes = sim.range(1, 3);
    for p in 0..processes {
        let seed = world::boot(sim, p);
        let (s, pool2, m2, g2) = (sim.clone(), pool.clone(), model.clone(), gone.clone());
        let r = world::task(sim, seed, move || hashed_process::<K>(&s, p, &pool2, m2, g2));
        match r {
            Err(e) => bail!("panic", "{}: {}", K::NAME, e),
            Ok(r) => {
                let (m, g) = r?;
                model = m;
                gone = g;
            }
        }
    }
    Ok(())
}

type Table = BTreeMap<Id, (usize, u32)>;

fn hashed_process<K: Kind>(sim: &Sim, p: usize, pool: &[Plain], mut model: Table, mut gone: BTreeSet<Id>) -> Result<(Table, BTreeSet<Id>), simkit::Violation>
where
    K::V: Hash,
{
    let mut stored: Vec<(usize, u32)> = model.values().cloned().collect();
    sim.shuffle(&mut stored);
    sim.probe_if(p > 0 && stored.len() > 1, "rebuilt after restart");
    let mut set: HashSet<K::V> = stored.iter().map(|(i, _)| K::build(sim, &pool[*i])).collect();
    let mut map: HashMap<K::V, u32> = stored.iter().map(|(i, n)| (K::build(sim, &pool[*i]), *n)).collect();
    let owners = sim.range(1, 3);
    for step in 0..sim.range(1, 30) {
        let i = sim.below(pool.len());
        let v = K::build(sim, &pool[i]);
        let id = K::id(&pool[i]);
        let held = model.contains_key(&id);
        sim.probe_if(held && model[&id].0 != i && pool[model[&id].0].weight != pool[i].weight, "equal but for the weight");
        let op = sim.below(6);
        sim.step(sim.below(owners), ["insert", "look up", "remove", "replace", "count", "list"][op]);
        ev!(sim, "process {} {} {:?}, held: {}", p, op, pool[i], held);
        match op {
            0 => {
                sim.probe_if(!held && gone.contains(&id), "removed and inserted again");
                let fresh = set.insert(v.clone());
                ensure!(fresh != held, "insertion", "{} {:?} is new to the set: {}, held before: {}", K::NAME, v, fresh, held);
                let old = map.insert(v, step as u32);
                ensure!(old == model.get(&id).map(|x| x.1), "insertion", "table held {:?} instead of {:?}", old, model.get(&id));
                model.entry(id).or_insert((i, 0)).1 = step as u32;
            }
            1 => {
                let (a, b) = (set.contains(&v), map.get(&v).cloned());
                ensure!(a == held && b == model.get(&id).map(|x| x.1), "membership", "{} {:?} is found: {}, {:?}, held: {:?}", K::NAME, v, a, b, model.get(&id));
            }
            2 => {
                let (a, b) = (set.remove(&v), map.remove(&v));
                ensure!(a == held && b == model.get(&id).map(|x| x.1), "removal", "{} {:?} is removed: {}, {:?}, held: {:?}", K::NAME, v, a, b, model.get(&id));
                model.remove(&id);
                gone.insert(id);
            }
            3 => {
                let old = set.replace(v.clone());
                ensure!(old.is_some() == held, "replacement", "{} {:?} replaces {:?}, held: {}", K::NAME, v, old, held);
                if let Some(o) = old {
                    ensure!(o == v && v == o, "equality", "{:?} replaced {:?}, which it does not equal", v, o);
                }
                let n = *map.entry(v).or_insert(step as u32);
                let want = model.get(&id).map(|x| x.1).unwrap_or(step as u32);
                ensure!(n == want, "replacement", "the table gives {} instead of {} for {:?}", n, want, id);
                model.entry(id).or_insert((i, step as u32)).0 = i;
            }
            4 => {
                let l = (set.len(), map.len());
                ensure!(l == (model.len(), model.len()), "length", "{:?} values, {} held", l, model.len());
            }
            _ => {
                sim.probe("listed");
                let again: HashSet<K::V> = set.iter().cloned().collect();
                let copies: HashSet<K::V> = map.keys().cloned().collect();
                ensure!(again == set && copies == set, "copies", "a set of copies of {:?} is {:?}", set, again);
            }
        }
        // two values of the pool, each with a history of its own
        let (a, b) = (sim.below(pool.len()), sim.below(pool.len()));
        let (x, y) = (K::build(sim, &pool[a]), K::build(sim, &pool[b]));
        let want = K::id(&pool[a]) == K::id(&pool[b]);
        ensure!((x == y) == want && (y == x) == want && (x != y) != want, "equality", "{} {:?} == {:?}: {}, {}", K::NAME, x, y, x == y, y == x);
        sim.probe_if(want && a == b, "equal through another history");
    }
    ensure!(set.len() == model.len() && map.len() == model.len(), "length", "{} and {} values, {} held", set.len(), map.len(), model.len());
    for (i, n) in model.values() {
        let v = K::build(sim, &pool[*i]);
        ensure!(set.contains(&v) && map.get(&v) == Some(n), "lost", "{} {:?} is lost", K::NAME, v);
    }
    Ok((model, gone))
}

/// Ordered sets, sorted lists and heaps of values.
fn ordered<K: Kind>(sim: &Sim) -> Verdict
where
    K::V: Ord,
{
    sim.probe("ordered");
    let pool = pool(sim);
    sim.shape(format!("{} {:?}", K::NAME, pool).as_bytes());
    let (s, p2) = (sim.clone(), pool.clone());
    match world::task(sim, sim.seed(), move || ordered_history::<K>(&s, &p2)) {
        Err(e) => bail!("panic", "{}: {}", K::NAME, e),
        Ok(v) => v,
    }
}

fn ordered_history<K: Kind>(sim: &Sim, pool: &[Plain]) -> Verdict
where
    K::V: Ord,
{
    let mut set: BTreeMap<K::V, usize> = BTreeMap::new();
    let mut model: BTreeMap<(u32, Id), usize> = BTreeMap::new();
    let mut gone: BTreeSet<(u32, Id)> = BTreeSet::new();
    let mut heap: BinaryHeap<K::V> = BinaryHeap::new();
    let mut in_heap: Vec<usize> = Vec::new();
    let owners = sim.range(1, 3);
    for step in 0..sim.range(1, 30) {
        let i = sim.below(pool.len());
        let v = K::build(sim, &pool[i]);
        let key = order_key::<K>(&pool[i]);
        let held = model.contains_key(&key);
        let op = sim.below(7);
        sim.step(sim.below(owners), ["insert", "insert", "look up", "remove", "push", "pop", "list"][op]);
        ev!(sim, "{} {:?}, held: {}", op, pool[i], held);
        match op {
            0 | 1 => {
                sim.probe_if(!held && gone.contains(&key), "removed and inserted again");
                let old = set.insert(v, step);
                ensure!(old.is_some() == held, "insertion", "insertion of {:?} finds {:?}, held: {}", pool[i], old, held);
                model.insert(key, i);
            }
            2 => ensure!(set.contains_key(&v) == held, "membership", "{} {:?} is found: {}, held: {}", K::NAME, v, !held, held),
            3 => {
                let got = set.remove(&v).is_some();
                ensure!(got == held, "removal", "{} {:?} is removed: {}, held: {}", K::NAME, v, got, held);
                model.remove(&key);
                gone.insert(key);
            }
            4 => {
                heap.push(v);
                in_heap.push(i);
            }
            5 => {
                let got = heap.pop();
                ensure!(got.is_some() == !in_heap.is_empty(), "heap", "pop gives {:?}, held {:?}", got, in_heap);
                if let Some(g) = got {
                    // a greatest one of those held
                    let at = in_heap.iter().position(|&j| K::build(sim, &pool[j]).cmp(&g) == Ordering::Equal);
                    match at {
                        None => bail!("heap", "popped {:?}, which is not held", g),
                        Some(at) => {
                            let j = in_heap.swap_remove(at);
                            for &k in &in_heap {
                                let worse = (pool[k].weight as i32) * K::BY_WEIGHT <= (pool[j].weight as i32) * K::BY_WEIGHT;
                                ensure!(worse, "heap", "{} {:?} comes before {:?}", K::NAME, pool[j], pool[k]);
                            }
                        }
                    }
                }
            }
            _ => {
                // listed by others, in the order in which they met the values
                sim.probe("listed");
                let mut met: Vec<usize> = model.values().cloned().collect();
                sim.shuffle(&mut met);
                let listing: Vec<(u32, Id)> = set.keys().map(|v| find::<K>(sim, pool, v)).collect::<Option<_>>().unwrap_or_default();
                ensure!(listing.len() == model.len(), "listing", "lists {:?} of {:?}", listing, model);
                let mut sorted: Vec<(K::V, usize)> = met.iter().map(|&i| (K::build(sim, &pool[i]), i)).collect();
                if sim.flip(1, 2) {
                    sorted.sort_by(|x, y| x.0.cmp(&y.0));
                } else {
                    sorted.sort_by(|x, y| x.0.partial_cmp(&y.0).unwrap());
                }
                let got: Vec<(u32, Id)> = sorted.iter().map(|(_, i)| order_key::<K>(&pool[*i])).collect();
                ensure!(got == listing, "order", "{}: sorted {:?}, ordered set {:?}", K::NAME, got, listing);
                let ws: Vec<i32> = listing.iter().map(|k| k.0 as i32 * K::BY_WEIGHT).collect();
                ensure!(ws.windows(2).all(|w| w[0] <= w[1]), "order", "{}: weights {:?}", K::NAME, ws);
            }
        }
        lawful::<K>(sim, pool)?;
    }
    ensure!(set.len() == model.len(), "length", "{} values, {} held", set.len(), model.len());
    Ok(())
}

fn find<K: Kind>(sim: &Sim, pool: &[Plain], v: &K::V) -> Option<(u32, Id)>
where
    K::V: Ord,
{
    pool.iter().find(|p| K::build(sim, p).cmp(v) == Ordering::Equal).map(|p| order_key::<K>(p))
}

fn lawful<K: Kind>(sim: &Sim, pool: &[Plain]) -> Verdict
where
    K::V: Ord,
{
    let i: Vec<usize> = (0..3).map(|_| sim.below(pool.len())).collect();
    let v: Vec<K::V> = i.iter().map(|&i| K::build(sim, &pool[i])).collect();
    let (ab, ba, bc, ac) = (v[0].cmp(&v[1]), v[1].cmp(&v[0]), v[1].cmp(&v[2]), v[0].cmp(&v[2]));
    ensure!(v[0].partial_cmp(&v[1]) == Some(ab), "order", "{}: two comparisons of {:?} and {:?}: {:?}, {:?}", K::NAME, v[0], v[1], v[0].partial_cmp(&v[1]), ab);
    ensure!(ab == ba.reverse(), "order", "{}: {:?} and {:?} compare {:?} and {:?}", K::NAME, v[0], v[1], ab, ba);
    let same = order_key::<K>(&pool[i[0]]) == order_key::<K>(&pool[i[1]]);
    ensure!((ab == Ordering::Equal) == same, "order", "{}: {:?} and {:?} compare {:?}", K::NAME, v[0], v[1], ab);
    let equal = K::id(&pool[i[0]]) == K::id(&pool[i[1]]);
    ensure!((v[0] == v[1]) == equal && (v[1] == v[0]) == equal, "equality", "{}: {:?} == {:?}: {}, {}", K::NAME, v[0], v[1], v[0] == v[1], v[1] == v[0]);
    sim.probe_if(same && i[0] == i[1], "equal through another history");
    if ab == bc {
        ensure!(ac == ab, "order", "{}: {:?}, {:?}, {:?} compare {:?}, {:?} and {:?}", K::NAME, v[0], v[1], v[2], ab, bc, ac);
    }
    let w = (pool[i[0]].weight as i32 - pool[i[1]].weight as i32) * K::BY_WEIGHT;
    if w != 0 {
        ensure!((ab == Ordering::Greater) == (w > 0), "order", "{}: {:?} and {:?} compare {:?}", K::NAME, v[0], v[1], ab);
    }
    Ok(())
}

/// Values of several owners, numbered in shared tables and restored later.
fn numbered(sim: &Sim) -> Verdict {
    let pool = pool(sim);
    sim.probe("numbered");
    sim.shape(format!("numbered {:?}", pool).as_bytes());
    let s = sim.clone();
    let r = world::task(sim, sim.seed(), move || {
        let sim = &s;
        let (mut words, mut symbols) = (Default::default(), Default::default());
        let mut ts_symbols = Default::default();
        let mut ts_words = Default::default();
        let mut pds = Default::default();
        let mut tss = Default::default();
        let mut kept = Vec::new();
        let owners = sim.range(1, 3);
        for _ in 0..sim.range(1, 20) {
            let i = sim.below(pool.len());
            sim.step(sim.below(owners), "number");
            kept.push((
                i,
                transition(&pool[i]).integerise(&mut words, &mut symbols),
                TransTs::build(sim, &pool[i]).integerise(&mut ts_words, &mut ts_symbols),
                pdi(&pool[i]).integerise(&mut pds),
                tree(sim, &pool[i]).integerise(&mut tss),
            ));
            let (j, t, u, d, e) = &kept[sim.below(kept.len())];
            let p = &pool[*j];
            let t2 = Transition::<Pdi, u8, u32>::un_integerise(t, &words, &symbols);
            ensure!(t2 == transition(p) && t2.weight == p.weight && t.weight == p.weight, "restored", "{:?} comes back as {:?}", transition(p), t2);
            let u1 = TransTs::build(sim, p);
            let u2 = Transition::<Tsi, u8, u32>::un_integerise(u, &ts_words, &ts_symbols);
            ensure!(u2 == u1 && u2.weight == p.weight, "restored", "{:?} comes back as {:?}", u1, u2);
            let d2 = Pdi::un_integerise(d, &pds);
            ensure!(d2 == pdi(p), "restored", "{:?} comes back as {:?}", pdi(p), d2);
            let e2 = TreeStack::<u8>::un_integerise(e, &tss);
            let e1 = tree(sim, p);
            ensure!(e2 == e1 && e2.to_tree() == e1.to_tree(), "restored", "{:?} comes back as {:?}", e1, e2);
        }
        // numbers tell exactly the different ones apart
        for x in &kept {
            for y in &kept {
                let same = all(&pool[x.0]) == all(&pool[y.0]);
                ensure!((x.1 == y.1) == same, "numbers", "{:?} and {:?} are numbered {:?} and {:?}", pool[x.0], pool[y.0], x.1, y.1);
            }
        }
        Ok(())
    });
    match r {
        Err(e) => bail!("panic", "numbering: {}", e),
        Ok(v) => v,
    }
}

fn run(sim: &Sim) -> Verdict {
    match sim.below(24) {
        0 => hashed::<ConfPd>(sim),
        1 => hashed::<ConfRev>(sim),
        2 => hashed::<TransPd>(sim),
        3 => hashed::<TransTs>(sim),
        4 => hashed::<PmcfgRules>(sim),
        5 => hashed::<CfgRules>(sim),
        6 => hashed::<PdInstr>(sim),
        7 => hashed::<TsInstr>(sim),
        8 => hashed::<PushDowns>(sim),
        9 => hashed::<Brackets>(sim),
        10 => ordered::<ConfPd>(sim),
        11 => ordered::<ConfRev>(sim),
        12 => ordered::<ConfTs>(sim),
        13 => ordered::<TransPd>(sim),
        14 => ordered::<TransTs>(sim),
        15 => ordered::<Items>(sim),
        16 => ordered::<PmcfgRules>(sim),
        17 => ordered::<CfgRules>(sim),
        18 => ordered::<PushDowns>(sim),
        19 => ordered::<Lists>(sim),
        20 => ordered::<Trees>(sim),
        21 => ordered::<Brackets>(sim),
        22 => ordered::<Reversed>(sim),
        _ => numbered(sim),
    }
}
