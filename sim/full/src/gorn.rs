//! C24: trees indexed by Gorn addresses under interleaved owners.
use rustomata::util::tree::GornTree;
use simkit::{bail, ensure, ev, world, Check, Sim, Verdict};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};

pub const CHECK: Check = Check {
    id: "C24",
    run,
    quick: 240_000,
    thorough: 12_000_000,
    rule: "A run lets 1-4 owners, interleaved by the scheduler, insert, replace, remove, edit, append, split, clone, collect and traverse trees indexed by Gorn addresses (up to 60 operations, now and then 1500; addresses from the root to depth 200, numbers up to usize::MAX). Copying a value may fail half way, a source of entries and a callback of an entry may fail, traversals are abandoned. After each operation the tree touched, and at the end every tree, is compared with a plain list of the entries stored; every value is accounted for, so that loss, duplication and leaks are seen.",
    real: &["GornTree and its iterators", "std BTreeMap"],
    stub: &["values are accounted, their copies may fail", "sources of entries may fail"],
    assumptions: &["none"],
    must_reach: &["replaced", "removed", "removed what is not there", "appended over common addresses", "split at a held address", "split between addresses", "copy failed", "source failed", "callback failed", "traversal abandoned", "equal trees", "large tree", "deep address", "collected with repeated addresses"],
};

thread_local! {
    static LIVE: RefCell<BTreeSet<u32>> = const { RefCell::new(BTreeSet::new()) };
    static LAST: Cell<u32> = const { Cell::new(0) };
    static FUSE: Cell<i32> = const { Cell::new(-1) };
}

/// A value that is accounted for.
#[derive(Debug)]
struct Val {
    uid: u32,
    says: u8,
}
fn val(says: u8) -> Val {
    let uid = LAST.with(|l| {
        l.set(l.get() + 1);
        l.get()
    });
    LIVE.with(|l| l.borrow_mut().insert(uid));
    Val { uid, says }
}
impl Clone for Val {
    fn clone(&self) -> Val {
        FUSE.with(|f| {
            let n = f.get();
            if n == 0 {
                f.set(-1);
                panic!("injected");
            }
            if n > 0 {
                f.set(n - 1);
            }
        });
        val(self.says)
    }
}
impl Drop for Val {
    fn drop(&mut self) {
        let uid = self.uid;
        assert!(LIVE.with(|l| l.borrow_mut().remove(&uid)), "value {} dropped twice", uid);
    }
}
impl PartialEq for Val {
    fn eq(&self, o: &Val) -> bool {
        self.says == o.says
    }
}
impl Eq for Val {}

type Addr = Vec<usize>;
type Model = BTreeMap<Addr, (u32, u8)>;

struct Owned {
    t: GornTree<Val>,
    m: Model,
}

fn addr(sim: &Sim, large: bool, known: &Model) -> Addr {
    if !known.is_empty() && sim.flip(1, 3) {
        let i = sim.below(known.len());
        let mut a = known.keys().nth(i).unwrap().clone();
        match sim.below(6) {
            0 => a.push(sim.below(3)),
            1 => {
                a.pop();
            }
            2 => {
                if let Some(l) = a.last_mut() {
                    *l = l.wrapping_add(1);
                }
            }
            _ => (),
        }
        return a;
    }
    if sim.flip(1, 60) {
        sim.probe("deep address");
        let n = sim.range(20, 200);
        return (0..n).map(|_| sim.below(2)).collect();
    }
    let len = sim.below(if large { 6 } else { 4 });
    (0..len)
        .map(|_| if sim.flip(1, 40) { *sim.pick(&[9, 10, 11, 99, 255, 256, 65_536, usize::MAX - 1, usize::MAX]) } else { sim.below(if large { 12 } else { 3 }) })
        .collect()
}

fn content(t: &GornTree<Val>) -> Vec<(Addr, u32, u8)> {
    t.into_iter().map(|(k, v)| (k.clone(), v.uid, v.says)).collect()
}

fn wanted(m: &Model) -> Vec<(Addr, u32, u8)> {
    m.iter().map(|(k, (u, s))| (k.clone(), *u, *s)).collect()
}

fn compare(what: &str, o: &Owned) -> Verdict {
    let (got, want) = (content(&o.t), wanted(&o.m));
    ensure!(got == want, "content", "{}: the tree holds {:?} instead of {:?}", what, got, want);
    ensure!(o.t.len() == o.m.len(), "length", "{}: length {} instead of {}", what, o.t.len(), o.m.len());
    ensure!(o.t.is_empty() == o.m.is_empty(), "emptiness", "{}: is_empty is {}", what, o.t.is_empty());
    ensure!(o.t.keys().eq(o.m.keys()), "keys", "{}: addresses {:?} instead of {:?}", what, o.t.keys(), o.m.keys());
    ensure!(
        o.t.values().map(|v| v.uid).eq(o.m.values().map(|v| v.0)),
        "values",
        "{}: values {:?} instead of {:?}",
        what,
        o.t.values(),
        o.m
    );
    Ok(())
}

fn run(sim: &Sim) -> Verdict {
    LIVE.with(|l| l.borrow_mut().clear());
    LAST.with(|l| l.set(0));
    FUSE.with(|f| f.set(-1));
    let s = sim.clone();
    match world::task(sim, sim.seed(), move || history(&s)) {
        Err(e) => bail!("panic", "{}", e),
        Ok(v) => v?,
    }
    let left = LIVE.with(|l| l.borrow().len());
    ensure!(left == 0, "leak", "{} values are left after every tree is gone", left);
    Ok(())
}

fn history(sim: &Sim) -> Verdict {
    let large = sim.flip(1, 300);
    sim.probe_if(large, "large tree");
    let owners = sim.range(1, 4);
    let mut ts: Vec<Owned> = (0..owners).map(|_| Owned { t: GornTree::new(), m: Model::new() }).collect();
    let steps = if large { sim.range(1, 1500) } else { sim.range(1, 60) };
    let mut shape = vec![];
    for _ in 0..steps {
        let i = sim.below(ts.len());
        let op = if large && sim.flip(2, 3) { 0 } else { sim.below(15) };
        shape.push((i * 16 + op) as u8);
        step(sim, &mut ts, i, op, large)?;
    }
    sim.shape(&shape);
    for (i, o) in ts.iter().enumerate() {
        compare(&format!("in the end tree {}", i), o)?;
    }
    for a in &ts {
        for b in &ts {
            let want = a.m.iter().map(|(k, v)| (k, v.1)).eq(b.m.iter().map(|(k, v)| (k, v.1)));
            ensure!((a.t == b.t) == want, "equality", "{:?} == {:?} is {}", a.t, b.t, !want);
            ensure!((a.t != b.t) != want, "equality", "{:?} != {:?} is {}", a.t, b.t, want);
        }
    }
    // used up one after the other
    while let Some(Owned { t, m }) = ts.pop() {
        let take = sim.below(m.len() + 2);
        let got: Vec<_> = t.into_iter().take(take).map(|(k, v)| (k, v.uid, v.says)).collect();
        let want: Vec<_> = wanted(&m).into_iter().take(take).collect();
        ensure!(got == want, "consumed", "a consumed tree gives {:?} instead of {:?}", got, want);
    }
    Ok(())
}

fn step(sim: &Sim, ts: &mut Vec<Owned>, i: usize, op: usize, large: bool) -> Verdict {
    let a = addr(sim, large, &ts[i].m);
    match op {
        0..=2 => {
            sim.step(i, "insert");
            let v = val(sim.below(4) as u8);
            let (uid, says) = (v.uid, v.says);
            ev!(sim, "  insert {:?} {}", a, uid);
            let got = ts[i].t.insert(a.clone(), v).map(|v| (v.uid, v.says));
            let want = ts[i].m.insert(a.clone(), (uid, says));
            sim.probe_if(want.is_some(), "replaced");
            ensure!(got == want, "insert", "insert at {:?} returns {:?} instead of {:?}", a, got, want);
        }
        3 => {
            sim.step(i, "remove");
            ev!(sim, "  remove {:?}", a);
            let got = ts[i].t.remove(&a).map(|v| (v.uid, v.says));
            let want = ts[i].m.remove(&a);
            sim.probe(if want.is_some() { "removed" } else { "removed what is not there" });
            ensure!(got == want, "remove", "remove at {:?} returns {:?} instead of {:?}", a, got, want);
        }
        4 => {
            sim.step(i, "look up");
            let want = ts[i].m.get(&a).cloned();
            let got = ts[i].t.get(&a).map(|v| (v.uid, v.says));
            ensure!(got == want, "get", "get at {:?} is {:?} instead of {:?}", a, got, want);
            let has = ts[i].t.contains_key(&a);
            ensure!(has == want.is_some(), "contains", "contains_key at {:?} is {}", a, has);
        }
        5 => {
            sim.step(i, "edit");
            let s = sim.below(4) as u8;
            let got = ts[i].t.get_mut(&a).map(|v| {
                v.says = s;
                v.uid
            });
            let want = ts[i].m.get_mut(&a).map(|v| {
                v.1 = s;
                v.0
            });
            ensure!(got == want, "get_mut", "get_mut at {:?} is {:?} instead of {:?}", a, got, want);
        }
        6 => {
            sim.step(i, "entry");
            let fail = sim.flip(1, 4);
            let v = val(7);
            let uid = v.uid;
            let t = &mut ts[i].t;
            let k = a.clone();
            let r = world::catch(move || {
                t.entry(k)
                    .or_insert_with(move || {
                        let v = v;
                        if fail {
                            panic!("injected");
                        }
                        v
                    })
                    .uid
            });
            match (r, ts[i].m.get(&a)) {
                (Err(_), None) if fail => {
                    sim.fault("callback fails");
                    sim.probe("callback failed");
                }
                (Err(e), _) => bail!("panic", "entry panicked: {}", e),
                (Ok(u), Some(w)) => ensure!(u == w.0, "entry", "the entry at {:?} is {} instead of {}", a, u, w.0),
                (Ok(u), None) => {
                    ensure!(!fail && u == uid, "entry", "the new entry at {:?} is {} instead of {}", a, u, uid);
                    ts[i].m.insert(a, (uid, 7));
                }
            }
        }
        7 => {
            let j = sim.below(ts.len());
            if i != j {
                sim.step(i, "append");
                ev!(sim, "  append {} to {}", j, i);
                let mut other = std::mem::replace(&mut ts[j], Owned { t: GornTree::new(), m: Model::new() });
                sim.probe_if(other.m.keys().any(|k| ts[i].m.contains_key(k)), "appended over common addresses");
                ts[i].t.append(&mut other.t);
                ts[i].m.extend(std::mem::take(&mut other.m));
                compare("an appended tree", &other)?;
                ts[j] = other;
            }
        }
        8 => {
            sim.step(i, "split");
            ev!(sim, "  split {} at {:?}", i, a);
            let held = ts[i].m.contains_key(&a);
            let t = ts[i].t.split_off(&a);
            let m = ts[i].m.split_off(&a);
            if !m.is_empty() && !ts[i].m.is_empty() {
                sim.probe(if held { "split at a held address" } else { "split between addresses" });
            }
            let new = Owned { t, m };
            compare("a split off tree", &new)?;
            put(sim, ts, i, new)?;
        }
        9 => {
            sim.step(i, "clone");
            let n = ts[i].m.len();
            let fuse = if n > 0 && sim.flip(1, 4) { sim.below(n + 1) as i32 } else { -1 };
            FUSE.with(|f| f.set(fuse));
            let t = &ts[i].t;
            let r = world::catch(move || t.clone());
            FUSE.with(|f| f.set(-1));
            match r {
                Err(_) if fuse >= 0 => {
                    sim.fault("copy fails");
                    sim.probe("copy failed");
                }
                Err(e) => bail!("panic", "clone panicked: {}", e),
                Ok(t) => {
                    let new = copied(&ts[i].m, t)?;
                    put(sim, ts, i, new)?;
                }
            }
        }
        10 => {
            sim.step(i, "traverse and edit");
            let k = sim.below(ts[i].m.len() + 2);
            let whole = k >= ts[i].m.len();
            sim.probe_if(!whole, "traversal abandoned");
            let s = sim.below(4) as u8;
            let keyed = sim.flip(1, 2);
            let o = &mut ts[i];
            if keyed {
                for ((a, v), (b, w)) in (&mut o.t).into_iter().zip(o.m.iter_mut()).take(k) {
                    ensure!(a == b && v.uid == w.0, "traversal", "{:?} {} instead of {:?} {}", a, v.uid, b, w.0);
                    v.says = s;
                    w.1 = s;
                }
            } else {
                for (v, w) in o.t.values_mut().zip(o.m.values_mut()).take(k) {
                    ensure!(v.uid == w.0, "traversal", "{} instead of {}", v.uid, w.0);
                    v.says = s;
                    w.1 = s;
                }
            }
        }
        11 => {
            sim.step(i, "collect");
            // a source with entries in any order, addresses may be repeated, may fail
            let mut es: Vec<(Addr, u8)> = (0..sim.below(if large { 300 } else { 8 })).map(|_| (addr(sim, large, &ts[i].m), sim.below(4) as u8)).collect();
            if sim.flip(1, 2) {
                es.extend(ts[i].m.iter().map(|(k, v)| (k.clone(), v.1)));
            }
            sim.shuffle(&mut es);
            let distinct: BTreeSet<&Addr> = es.iter().map(|e| &e.0).collect();
            sim.probe_if(distinct.len() < es.len(), "collected with repeated addresses");
            let fail = if sim.flip(1, 4) { Some(sim.below(es.len() + 1)) } else { None };
            let es2 = es.clone();
            let r = world::catch(move || {
                es2.into_iter()
                    .enumerate()
                    .map(|(n, (a, s))| {
                        if Some(n) == fail {
                            panic!("injected");
                        }
                        (a, val(s))
                    })
                    .collect::<GornTree<Val>>()
            });
            match r {
                Err(_) if fail.map_or(false, |n| n < es.len()) => {
                    sim.fault("source fails");
                    sim.probe("source failed");
                }
                Err(e) => bail!("panic", "collecting panicked: {}", e),
                Ok(t) => {
                    let says: BTreeMap<Addr, u8> = es.into_iter().collect();
                    let m: Model = says.iter().map(|(k, s)| (k.clone(), (0, *s))).collect();
                    let new = copied(&m, t)?;
                    put(sim, ts, i, new)?;
                }
            }
        }
        12 => {
            sim.step(i, "clone referenced");
            let r: GornTree<&Val> = ts[i].t.into_ref();
            let new = copied(&ts[i].m, r.cloned())?;
            put(sim, ts, i, new)?;
        }
        13 => {
            let j = sim.below(ts.len());
            sim.step(i, "compare");
            let want = ts[i].m.iter().map(|(k, v)| (k, v.1)).eq(ts[j].m.iter().map(|(k, v)| (k, v.1)));
            sim.probe_if(want && i != j && !ts[i].m.is_empty(), "equal trees");
            ensure!((ts[i].t == ts[j].t) == want, "equality", "{:?} == {:?} is {}", ts[i].t, ts[j].t, !want);
        }
        _ => {
            if sim.flip(1, 3) {
                sim.step(i, "clear");
                ts[i].t.clear();
                ts[i].m.clear();
            }
        }
    }
    compare("after an operation the tree", &ts[i])
}

trait IntoRef {
    fn into_ref(&self) -> GornTree<&Val>;
}
impl IntoRef for GornTree<Val> {
    fn into_ref(&self) -> GornTree<&Val> {
        self.into_iter().map(|(k, v)| (k.clone(), v)).collect()
    }
}

/// A copy has the same addresses and equal values, all of its own.
fn copied(m: &Model, t: GornTree<Val>) -> Result<Owned, simkit::Violation> {
    let got: Vec<_> = (&t).into_iter().map(|(k, v)| (k.clone(), v.says)).collect();
    let want: Vec<_> = m.iter().map(|(k, v)| (k.clone(), v.1)).collect();
    ensure!(got == want, "copy", "a copy holds {:?} instead of {:?}", got, want);
    let m = (&t).into_iter().map(|(k, v)| (k.clone(), (v.uid, v.says))).collect();
    Ok(Owned { t, m })
}

/// The new tree takes the place of some tree.
fn put(sim: &Sim, ts: &mut Vec<Owned>, i: usize, new: Owned) -> Verdict {
    let j = sim.below(ts.len());
    if j != i || sim.flip(1, 4) {
        ts[j] = new;
    }
    Ok(())
}
