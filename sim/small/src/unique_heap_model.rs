//! C03: unique priority queues under interleaved operations, several hash
//! functions, adversarial bulk sources and copies that fail.
use simkit::{bail, ensure, ev, world, Check, Sim, Verdict};
use std::cell::Cell;
use std::collections::hash_map::RandomState;
use std::collections::BTreeMap;
use std::hash::{BuildHasher, BuildHasherDefault, Hash, Hasher};
use unique_heap::UniqueHeap;

pub const CHECK: Check = Check {
    id: "C03",
    run,
    quick: 200_000,
    thorough: 10_000_000,
    rule: "A run draws a hash function (seeded SipHash of the simulated process, FNV, three-valued, constant) and 1-4 queues, and lets the scheduler interleave insertions, removals, peeks, listings, clones and bulk constructions from vectors and iterators with any legal size announcement; copying an element may fail.",
    real: &["unique-heap", "std BinaryHeap and HashSet", "std RandomState on simulated entropy"],
    stub: &["hash functions other than RandomState; bulk sources; failing copies"],
    assumptions: &["element order, equality and hash are consistent"],
    must_reach: &["large queue", "huge queue", "re-inserted", "rejected duplicate", "copy failed", "bulk duplicate", "huge announcement"],
};

thread_local! {
    static FUSE: Cell<i32> = const { Cell::new(-1) };
}

#[derive(PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
struct Elem(u32);

impl Clone for Elem {
    fn clone(&self) -> Elem {
        FUSE.with(|f| {
            let n = f.get();
            if n == 0 {
                f.set(-1);
                panic!("injected");
            }
            if n > 0 {
                f.set(n - 1);
            }
        });
        Elem(self.0)
    }
}

#[derive(Default, Clone)]
struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        self.0 = simkit::sim::fnv(self.0 ^ simkit::sim::FNV0, b);
    }
}
#[derive(Default, Clone)]
struct Mod3(u64);
impl Hasher for Mod3 {
    fn finish(&self) -> u64 {
        self.0 % 3
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 += u64::from(*x);
        }
    }
}
#[derive(Default, Clone)]
struct Constant;
impl Hasher for Constant {
    fn finish(&self) -> u64 {
        7
    }
    fn write(&mut self, _: &[u8]) {}
}

/// A bulk source with a legal size announcement of its own choosing.
struct Source {
    items: std::vec::IntoIter<(Elem, u32)>,
    lower: usize,
    upper: Option<usize>,
    fail: Option<usize>,
}
impl Iterator for Source {
    type Item = (Elem, u32);
    fn next(&mut self) -> Option<(Elem, u32)> {
        if let Some(n) = self.fail {
            if n == 0 {
                panic!("injected");
            }
            self.fail = Some(n - 1);
        }
        let r = self.items.next();
        if r.is_some() {
            self.lower = self.lower.saturating_sub(1);
            self.upper = self.upper.map(|u| u - 1);
        }
        r
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.lower, self.upper)
    }
}

struct Live<B: BuildHasher> {
    h: UniqueHeap<Elem, u32, B>,
    model: BTreeMap<u32, u32>,
}

fn sorted(m: &BTreeMap<u32, u32>) -> Vec<(u32, u32)> {
    let mut v: Vec<(u32, u32)> = m.iter().map(|(k, w)| (*w, *k)).collect();
    v.sort();
    v
}

fn invariant<B: BuildHasher>(l: &Live<B>, i: usize) -> Verdict {
    let want = sorted(&l.model);
    ensure!(l.h.len() == want.len(), "length", "queue {}: length {}, content {:?}", i, l.h.len(), want);
    ensure!(l.h.is_empty() == want.is_empty(), "emptiness", "queue {}: {:?}", i, want);
    let p = l.h.peek().map(|x| (x.0, (x.1).0));
    ensure!(p == want.last().cloned(), "peek", "queue {}: peek {:?}, content {:?}", i, p, want);
    let mut it: Vec<(u32, u32)> = (&l.h).into_iter().map(|x| (x.0, (x.1).0)).collect();
    it.sort();
    ensure!(it == want, "iteration", "queue {}: iterates {:?}, content {:?}", i, it, want);
    Ok(())
}

fn history<B: BuildHasher + Default + Clone>(sim: &Sim, quick_hash: bool) -> Verdict {
    let kmax = *sim.pick(&[2u64, 5, 20]);
    let wmax = *sim.pick(&[1u64, 3, 50]);
    let huge = quick_hash && sim.flip(1, 4_000);
    let large = huge || sim.flip(1, 200);
    sim.probe_if(large, "large queue");
    sim.probe_if(huge, "huge queue");
    let kmax = if huge {
        20_000
    } else if large {
        *sim.pick(&[200u64, 256, 1000])
    } else {
        kmax
    };
    let steps = if huge {
        sim.range(1, 30)
    } else if large {
        sim.range(1, 600)
    } else {
        sim.range(1, 50)
    };
    let faults = sim.flip(1, 3);
    let mut live: Vec<Live<B>> = Vec::new();
    let mut removed: Vec<u32> = Vec::new();
    for _ in 0..steps {
        if live.is_empty() || (live.len() < 4 && sim.flip(1, 7)) {
            let n = if huge { sim.below(8000) } else if large { sim.below(400) } else { sim.below(10) };
            let list: Vec<(u32, u32)> =
                (0..n).map(|_| (sim.choose(kmax) as u32, sim.choose(wmax) as u32)).collect();
            let mut model = BTreeMap::new();
            for (k, w) in &list {
                if model.contains_key(k) {
                    sim.probe("bulk duplicate");
                } else {
                    model.insert(*k, *w);
                }
            }
            let how = sim.below(3);
            sim.step(live.len(), ["default", "from vec", "from iterator"][how]);
            let h: Result<UniqueHeap<Elem, u32, B>, String> = match how {
                0 => {
                    model.clear();
                    Ok(UniqueHeap::default())
                }
                1 => {
                    let v: Vec<(u32, Elem)> = list.iter().map(|(k, w)| (*w, Elem(*k))).collect();
                    world::catch(|| UniqueHeap::from(v))
                }
                _ => {
                    let upper = match sim.below(7) {
                        0 => None,
                        1 => Some(n),
                        2 => Some(n + sim.below(1000)),
                        3 => Some(usize::MAX),
                        4 => Some(isize::MAX as usize),
                        5 => Some(n + (1 << 40)),
                        _ => Some(n),
                    };
                    sim.probe_if(upper.map(|u| u > 1 << 39).unwrap_or(false), "huge announcement");
                    let lower = if sim.flip(1, 2) { n } else { sim.below(n + 1) };
                    let fail = if faults && sim.flip(1, 4) { Some(sim.below(n + 1)) } else { None };
                    let v: Vec<(Elem, u32)> = list.iter().map(|(k, w)| (Elem(*k), *w)).collect();
                    let s = Source { items: v.into_iter(), lower, upper, fail };
                    ev!(sim, "  announces ({}, {:?})", lower, upper);
                    let r = world::catch(|| s.collect());
                    if fail.is_some() {
                        sim.fault("bulk source failed");
                        ensure!(r.is_err(), "swallowed failure", "bulk construction hid a failure of its source");
                        continue;
                    }
                    r
                }
            };
            ev!(sim, "new queue {} from {:?}", live.len(), list);
            match h {
                Ok(h) => live.push(Live { h, model }),
                Err(m) => bail!("panic", "building a queue from {:?} panicked: {}", list, m),
            }
            invariant(live.last().unwrap(), live.len() - 1)?;
            continue;
        }
        let i = sim.below(live.len());
        match sim.below(10) {
            0..=3 => {
                let l = &mut live[i];
                let k = sim.choose(kmax) as u32;
                let w = sim.choose(wmax) as u32;
                sim.step(i, "push");
                let fuse = faults && sim.flip(1, 5);
                if fuse {
                    FUSE.with(|f| f.set(sim.below(3) as i32));
                }
                let h = &mut l.h;
                let r = world::catch(|| h.push(Elem(k), w));
                let blown = fuse && FUSE.with(|f| f.replace(-1)) == -1;
                ev!(sim, "queue {} push {}:{} -> {:?}", i, k, w, r.as_ref().ok());
                match r {
                    Ok(b) => {
                        let want = !l.model.contains_key(&k);
                        ensure!(b == want, "acceptance", "queue {}: push of {} returned {}, held {:?}", i, k, b, l.model);
                        sim.probe_if(!want, "rejected duplicate");
                        sim.probe_if(want && removed.contains(&k), "re-inserted");
                        l.model.entry(k).or_insert(w);
                    }
                    Err(m) => {
                        ensure!(blown, "panic", "push panicked: {}", m);
                        sim.fault("copy failed");
                        sim.probe("copy failed");
                    }
                }
            }
            4 | 5 | 6 => {
                let l = &mut live[i];
                sim.step(i, "pop");
                let want = sorted(&l.model).last().cloned();
                let r = l.h.pop().map(|(e, w)| (w, e.0));
                ev!(sim, "queue {} pop -> {:?}", i, r);
                ensure!(r == want, "order", "queue {}: popped {:?}, greatest is {:?}", i, r, want);
                if let Some((_, k)) = r {
                    l.model.remove(&k);
                    removed.push(k);
                }
            }
            7 => {
                sim.step(i, "clone");
                let l = &live[i];
                let fuse = faults && sim.flip(1, 3);
                if fuse {
                    FUSE.with(|f| f.set(sim.below(4) as i32));
                }
                let r = world::catch(|| l.h.clone());
                let blown = fuse && FUSE.with(|f| f.replace(-1)) == -1;
                match r {
                    Ok(h) => {
                        let model = l.model.clone();
                        let c = Live { h, model };
                        invariant(&c, i)?;
                        ev!(sim, "queue {} cloned", i);
                        if live.len() < 6 {
                            live.push(c);
                        }
                    }
                    Err(m) => {
                        ensure!(blown, "panic", "clone panicked: {}", m);
                        sim.fault("copy failed");
                        ev!(sim, "queue {} clone failed", i);
                    }
                }
            }
            8 => {
                // look at everything, through a copy
                sim.step(i, "list");
                let l = &live[i];
                let want = sorted(&l.model);
                let got: Vec<(u32, u32)> = if sim.flip(1, 2) {
                    l.h.clone().into_sorted_vec().into_iter().map(|(w, e)| (w, e.0)).collect()
                } else {
                    let mut v: Vec<(u32, u32)> = l.h.clone().into_iter().map(|(w, e)| (w, e.0)).collect();
                    v.sort();
                    v
                };
                ev!(sim, "queue {} lists {:?}", i, got);
                ensure!(got == want, "listing", "queue {}: lists {:?}, content {:?}", i, got, want);
            }
            _ => {
                if sim.flip(1, 2) {
                    sim.step(i, "rebuild");
                    let l = live.swap_remove(i);
                    let want = l.model.clone();
                    let v: Vec<(u32, Elem)> = l.h.into_iter().collect();
                    let h: UniqueHeap<Elem, u32, B> =
                        if sim.flip(1, 2) { v.into() } else { v.into_iter().map(|(w, e)| (e, w)).collect() };
                    ev!(sim, "queue {} rebuilt", i);
                    live.push(Live { h, model: want });
                }
            }
        }
        if large && !sim.flip(1, 10) {
            continue;
        }
        for (i, l) in live.iter().enumerate() {
            invariant(l, i)?;
        }
    }
    for (i, l) in live.iter_mut().enumerate() {
        sim.step(i, "drain");
        loop {
            let want = sorted(&l.model).last().cloned();
            let r = l.h.pop().map(|(e, w)| (w, e.0));
            ev!(sim, "queue {} pop -> {:?}", i, r);
            ensure!(r == want, "order", "queue {}: popped {:?}, greatest is {:?}", i, r, want);
            match r {
                Some((_, k)) => l.model.remove(&k),
                None => break,
            };
        }
        // emptied, it accepts everything again
        for k in 0..kmax.min(3) {
            ensure!(l.h.push(Elem(k as u32), 1), "acceptance", "an emptied queue rejects {}", k);
        }
    }
    Ok(())
}

fn run(sim: &Sim) -> Verdict {
    let seed = sim.seed();
    let which = sim.below(4);
    let s = sim.clone();
    let r = world::task(sim, seed, move || match which {
        0 => history::<BuildHasherDefault<Fnv>>(&s, true),
        1 => history::<BuildHasherDefault<Mod3>>(&s, false),
        2 => history::<BuildHasherDefault<Constant>>(&s, false),
        _ => history::<RandomState>(&s, true),
    });
    match r {
        Ok(v) => v,
        Err(m) => bail!("panic", "panic: {}", m),
    }
}
