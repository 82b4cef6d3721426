//! C04: multi-maps and adapters over shared storage under interleaved writers.
use crate::tokens::{Registry, Token};
use simkit::{ensure, ev, Check, Sim, Verdict};
use std::collections::BTreeMap;
use vecmultimap::{VecMultiMap, VecMultiMapAdapter};

pub const CHECK: Check = Check {
    id: "C04",
    run,
    quick: 240_000,
    thorough: 12_000_000,
    rule: "A run draws 1-4 stores (owned multi-maps and plain vectors of lists that several writers borrow through short-lived adapters) and lets the scheduler interleave stores, reads, in-place edits and conversions at small and large indices.",
    real: &["vecmultimap", "std Vec"],
    stub: &["values are accounted tokens"],
    assumptions: &["std's checks of unchecked indexing are compiled in"],
    must_reach: &["large store", "long list", "read past the end", "grown by read", "converted", "truncated"],
};

enum S {
    Map(VecMultiMap<Token>),
    Plain(Vec<Vec<Token>>),
}

struct Store {
    s: S,
    model: BTreeMap<usize, Vec<u32>>,
}

fn ids(v: &Vec<Token>) -> Vec<u32> {
    v.iter().map(|t| t.uid).collect()
}

impl Store {
    fn want(&self, i: usize) -> Vec<u32> {
        self.model.get(&i).cloned().unwrap_or_default()
    }
}

fn check_vec(name: &str, v: &Vec<Vec<Token>>, model: &BTreeMap<usize, Vec<u32>>) -> Verdict {
    for (i, l) in v.iter().enumerate() {
        let want = model.get(&i).cloned().unwrap_or_default();
        ensure!(ids(l) == want, "conversion", "{}: list {} is {:?}, stored {:?}", name, i, ids(l), want);
    }
    Ok(())
}

fn edit(sim: &Sim, l: &mut Vec<Token>, m: &mut Vec<u32>, reg: &Registry) {
    match sim.below(4) {
        0 => {
            let t = reg.token(0);
            m.push(t.uid);
            l.push(t);
        }
        1 => {
            l.pop();
            m.pop();
        }
        2 => {
            if !m.is_empty() {
                let i = sim.below(m.len());
                l.remove(i);
                m.remove(i);
            }
        }
        _ => {
            l.reverse();
            m.reverse();
        }
    }
}

/// One operation of a writer, on a map or on an adapter: they share names.
macro_rules! operate {
    ($sim:expr, $m:expr, $model:expr, $reg:expr, $imax:expr) => {{
        let i = $sim.below($imax);
        let want = $model.get(&i).cloned().unwrap_or_default();
        match $sim.below(5) {
            0 | 1 => {
                let t = $reg.token(0);
                ev!($sim, "  push_to {} {}", i, t.uid);
                $model.entry(i).or_insert_with(Vec::new).push(t.uid);
                $m.push_to(i, t);
            }
            2 => {
                let past = $m.get_or_fail(i).is_none();
                let got = ids($m.get(i));
                ev!($sim, "  get {} -> {:?}", i, got);
                $sim.probe_if(past, "grown by read");
                ensure!(got == want, "read", "get({}) is {:?}, stored {:?}", i, got, want);
            }
            3 => {
                let got = $m.get_or_fail(i).map(ids);
                ev!($sim, "  get_or_fail {} -> {:?}", i, got);
                $sim.probe_if(got.is_none(), "read past the end");
                ensure!(
                    got.clone().unwrap_or_default() == want,
                    "read",
                    "get_or_fail({}) is {:?}, stored {:?}",
                    i,
                    got,
                    want
                );
            }
            _ => {
                let l = $m.get_mut(i);
                ensure!(ids(l) == want, "read", "get_mut({}) is {:?}, stored {:?}", i, ids(l), want);
                let e = $model.entry(i).or_insert_with(Vec::new);
                edit($sim, l, e, $reg);
                ev!($sim, "  get_mut {} {:?} -> {:?}", i, want, e);
            }
        }
    }};
}

fn run(sim: &Sim) -> Verdict {
    let reg = Registry::default();
    let mut stores: Vec<Store> = Vec::new();
    let large = sim.flip(1, 200);
    sim.probe_if(large, "large store");
    let steps = if large { sim.range(1, 1500) } else { sim.range(1, 40) };
    let imax = if large { *sim.pick(&[1usize, 3, 20, 2000, 70_000]) } else { *sim.pick(&[3usize, 8, 40, 300]) };
    // some large runs keep their stores, so that lists grow long
    let convert = if large { *sim.pick(&[12u64, 1000]) } else { 12 };
    for _ in 0..steps {
        if stores.is_empty() || (stores.len() < 4 && sim.flip(1, 10)) {
            let mut model: BTreeMap<usize, Vec<u32>> = BTreeMap::new();
            let s = if sim.flip(1, 2) {
                // what its owner had stored before anyone borrowed it
                let mut v: Vec<Vec<Token>> = if sim.flip(1, 2) { Vec::new() } else { Vec::with_capacity(sim.below(20)) };
                for i in 0..sim.below(5) {
                    v.push((0..sim.below(3)).map(|_| reg.token(0)).collect());
                    model.insert(i, ids(&v[i]));
                }
                S::Plain(v)
            } else {
                S::Map(VecMultiMap::new())
            };
            stores.push(Store { s, model });
            continue;
        }
        let n = sim.below(stores.len());
        sim.step(n, "operate");
        let st = &mut stores[n];
        match &mut st.s {
            S::Map(m) => operate!(sim, m, st.model, &reg, imax),
            S::Plain(v) if sim.flip(1, 10) => {
                // the owner works on it directly
                match sim.below(3) {
                    0 => {
                        let t = reg.token(0);
                        st.model.insert(v.len(), vec![t.uid]);
                        v.push(vec![t]);
                    }
                    1 => {
                        let n = sim.below(v.len() + 1);
                        v.truncate(n);
                        st.model.retain(|i, _| *i < n);
                    }
                    _ => v.shrink_to_fit(),
                }
                ev!(sim, "  the owner leaves {} lists", v.len());
            }
            S::Plain(v) => {
                let mut a = if sim.flip(1, 2) { VecMultiMapAdapter(v) } else { VecMultiMapAdapter::from(v) };
                // the adapter is borrowed for a few operations
                for _ in 0..sim.range(1, 4) {
                    if sim.flip(1, 4) {
                        let i = sim.below(imax);
                        let want = st.model.get(&i).cloned().unwrap_or_default();
                        if sim.flip(1, 2) {
                            if a.get_or_fail(i).is_some() {
                                let got = ids(&a[i]);
                                ensure!(got == want, "read", "[{}] is {:?}, stored {:?}", i, got, want);
                            }
                        } else {
                            let e = st.model.entry(i).or_insert_with(Vec::new);
                            edit(sim, &mut a[i], e, &reg);
                            ev!(sim, "  [{}] {:?} -> {:?}", i, want, e);
                        }
                    } else {
                        operate!(sim, a, st.model, &reg, imax);
                    }
                }
            }
        }
        if large && sim.flip(1, 20) {
            // many values at once, most of them to one list
            let i = sim.below(imax);
            for _ in 0..sim.range(1, 400) {
                let i = if sim.flip(1, 10) { sim.below(imax) } else { i };
                let t = reg.token(0);
                let l = st.model.entry(i).or_insert_with(Vec::new);
                l.push(t.uid);
                sim.probe_if(l.len() > 1000, "long list");
                match &mut st.s {
                    S::Map(m) => m.push_to(i, t),
                    S::Plain(v) => VecMultiMapAdapter(v).push_to(i, t),
                }
            }
            ev!(sim, "  many values to {}", i);
        }
        if large && !sim.flip(1, 10) {
            continue;
        }
        // every store shows its content, whoever was active
        for (k, st) in stores.iter().enumerate() {
            match &st.s {
                S::Plain(v) => {
                    for i in st.model.keys() {
                        let got = v.get(*i).map(ids).unwrap_or_default();
                        ensure!(got == st.want(*i), "lost", "store {} list {} is {:?}, stored {:?}", k, i, got, st.want(*i));
                    }
                }
                S::Map(m) => {
                    for i in st.model.keys() {
                        let got = m.get_or_fail(*i).map(ids).unwrap_or_default();
                        ensure!(got == st.want(*i), "lost", "store {} list {} is {:?}, stored {:?}", k, i, got, st.want(*i));
                    }
                }
            }
        }
        if sim.flip(1, convert) {
            let n = sim.below(stores.len());
            let Store { s, model } = stores.swap_remove(n);
            sim.step(n, "convert");
            if let S::Map(m) = s {
                sim.probe("converted");
                let last = model.iter().filter(|(_, l)| !l.is_empty()).map(|(i, _)| *i).max();
                if sim.flip(1, 2) {
                    let v: Vec<Vec<Token>> = m.into();
                    ev!(sim, "  into vector of {}", v.len());
                    let want = last.map(|l| l + 1).unwrap_or(0);
                    ensure!(v.len() == want, "conversion", "{} lists, the last used is {:?}", v.len(), last);
                    check_vec("into", &v, &model)?;
                } else {
                    let size = sim.below(imax + 3);
                    let v = m.into_vec_with_size(size);
                    ev!(sim, "  into {} lists: {}", size, v.len());
                    sim.probe_if(last.map(|l| l >= size).unwrap_or(false), "truncated");
                    ensure!(v.len() == size, "conversion", "{} lists, asked for {}", v.len(), size);
                    check_vec("into_vec_with_size", &v, &model)?;
                }
            }
        }
        let want: i64 = stores.iter().map(|s| s.model.values().map(|l| l.len() as i64).sum::<i64>()).sum();
        let got: i64 = reg.snapshot().len() as i64;
        ensure!(got == want, "accounts", "{} values alive, {} stored", got, want);
    }
    Ok(())
}
