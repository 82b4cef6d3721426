//! C18: versions of shared stacks and tree stacks under interleaved owners.
use rustomata::automata::push_down_automaton::{PushDown, PushDownInstruction};
use rustomata::automata::tree_stack_automaton::{TreeStack, TreeStackInstruction};
use rustomata::recognisable::Instruction;
use rustomata::util::integerisable::Integerisable1;
use rustomata::util::push_down::Pushdown;
use simkit::{bail, ensure, ev, world, Check, Sim, Verdict};
use std::cell::Cell;
use std::collections::BTreeMap;

pub const CHECK: Check = Check {
    id: "C18",
    run,
    quick: 250_000,
    thorough: 12_000_000,
    rule: "A run lets 1-4 owners, interleaved by the scheduler, apply up to 80 operations and instructions to any version of a tree stack, shared list or push-down that anyone still holds, keep or drop the results and hand versions to each other; copying a value or a callback may fail half way. After every few steps every version still held is compared with a plain value recorded when it was made. Rarely up to 600 operations, up to 300 children, 20 000 elements or depth 4000; a process of its own tries a million.",
    real: &["TreeStack, Pushdown, PushDown and their instructions", "integerisation of the three"],
    stub: &["integeriser crate; failing copies and callbacks"],
    assumptions: &["values compare, hash and copy consistently"],
    must_reach: &["copy failed", "callback failed", "up into shared child", "two versions diverged below", "refused push", "instruction applied", "instruction refused", "list emptied", "integerised", "several ways up", "version used up", "only version used up", "many ways up", "deep stack", "a million elements"],
};

thread_local! {
    static FUSE: Cell<i32> = const { Cell::new(-1) };
}

#[derive(PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
struct Val(u8);
impl Clone for Val {
    fn clone(&self) -> Val {
        FUSE.with(|f| {
            let n = f.get();
            if n == 0 {
                f.set(-1);
                panic!("injected");
            }
            if n > 0 {
                f.set(n - 1);
            }
        });
        Val(self.0)
    }
}

/// A tree stack as a plain value.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct T {
    nodes: BTreeMap<Vec<usize>, u8>,
    at: Vec<usize>,
}
impl T {
    fn cur(&self) -> u8 {
        self.nodes[&self.at]
    }
    fn child(&self, n: usize) -> Vec<usize> {
        let mut p = self.at.clone();
        p.push(n);
        p
    }
    fn set(&self, v: u8) -> T {
        let mut t = self.clone();
        t.nodes.insert(t.at.clone(), v);
        t
    }
    fn push(&self, n: usize, v: u8) -> Option<T> {
        let p = self.child(n);
        if self.nodes.contains_key(&p) {
            return None;
        }
        let mut t = self.clone();
        t.nodes.insert(p.clone(), v);
        t.at = p;
        Some(t)
    }
    fn up(&self, n: usize) -> Option<T> {
        let p = self.child(n);
        if !self.nodes.contains_key(&p) {
            return None;
        }
        let mut t = self.clone();
        t.at = p;
        Some(t)
    }
    fn down(&self) -> Option<T> {
        let mut t = self.clone();
        t.at.pop()?;
        Some(t)
    }
    fn vacant(&self) -> usize {
        (0..).find(|&n| !self.nodes.contains_key(&self.child(n))).unwrap()
    }
    fn below(&self) -> Vec<u8> {
        self.nodes.iter().filter(|(p, _)| p.starts_with(&self.at)).map(|(_, v)| *v).collect()
    }
}

struct Held<X, M> {
    owner: usize,
    real: X,
    model: M,
}

fn show_tree(t: &TreeStack<Val>) -> T {
    let (tree, at) = t.to_tree();
    T { nodes: tree.into_iter().map(|(p, v)| (p, v.0)).collect(), at }
}

fn check_tree(h: &Held<TreeStack<Val>, T>, when: &str) -> Verdict {
    let got = show_tree(&h.real);
    ensure!(got == h.model, "version", "{}: a version shows {:?} instead of {:?}", when, got, h.model);
    ensure!(h.real.current_symbol().0 == h.model.cur(), "current", "{}: current symbol {}", when, h.real.current_symbol().0);
    ensure!(h.real.is_at_bottom() == h.model.at.is_empty(), "bottom", "{}: at bottom {}", when, h.real.is_at_bottom());
    let seen = std::cell::RefCell::new(Vec::new());
    let all = h.real.all(&|v: &Val| {
        seen.borrow_mut().push(v.0);
        true
    });
    let (mut a, mut b) = (seen.into_inner(), h.model.below());
    a.sort();
    b.sort();
    ensure!(all && a == b, "all", "{}: a predicate is asked about {:?} instead of {:?}", when, a, b);
    Ok(())
}

/// Arms or disarms the next failing copy.
fn arm(sim: &Sim, on: bool) -> bool {
    let a = on && sim.flip(1, 3);
    FUSE.with(|f| f.set(if a { sim.below(6) as i32 } else { -1 }));
    a
}
fn disarm() {
    FUSE.with(|f| f.set(-1));
}

fn run(sim: &Sim) -> Verdict {
    if sim.flip(1, 10_000) {
        return overflow(sim);
    }
    if sim.flip(1, 1000) {
        return match sim.below(3) {
            0 => deep_list(sim),
            1 => deep_push_down(sim),
            _ => deep_tree(sim),
        };
    }
    match sim.below(4) {
        0 => lists(sim),
        1 => push_downs(sim),
        _ => trees(sim),
    }
}

/// How the owners of a run deal with versions.
struct Habit {
    /// how many versions they hold at most
    most: usize,
    /// of eight operations, so many are applied to the version itself, the others to a copy of it
    spent: u64,
}
fn habit(sim: &Sim) -> Habit {
    Habit { most: *sim.pick(&[12usize, 12, 4, 2, 1]), spent: *sim.pick(&[0u64, 4, 7, 8]) }
}

fn keep<X, M>(sim: &Sim, pool: &mut Vec<Held<X, M>>, h: &Habit, owner: usize, real: X, model: M) {
    while pool.len() >= h.most {
        let at = sim.below(pool.len());
        pool.swap_remove(at);
    }
    pool.push(Held { owner, real, model });
}

/// The version at `at`, or a copy of it when its owner still needs it.
fn take<X: Clone, M>(sim: &Sim, pool: &mut Vec<Held<X, M>>, h: &Habit, at: usize) -> X {
    if sim.flip(h.spent, 8) {
        sim.probe("version used up");
        pool.remove(at).real
    } else {
        pool[at].real.clone()
    }
}

fn trees(sim: &Sim) -> Verdict {
    let owners = sim.range(1, 4);
    let values = *sim.pick(&[1u64, 3, 9]);
    let large = sim.flip(1, 300);
    let width = if large { *sim.pick(&[6usize, 20, 300]) } else { *sim.pick(&[2usize, 3, 6]) };
    let faults = sim.flip(1, 3);
    let steps = if large { sim.range(80, 300) } else { sim.range(1, 80) };
    // what is done most
    let bias: &[usize] = *sim.pick(&[&[][..], &[1, 6], &[3, 6], &[1, 3, 7]]);
    // one position with many children
    let fan = large && sim.flip(1, 2);
    let habit = habit(sim);
    let v0 = sim.choose(values) as u8;
    let mut pool: Vec<Held<TreeStack<Val>, T>> = vec![Held {
        owner: 0,
        real: TreeStack::new(Val(v0)),
        model: T { nodes: vec![(vec![], v0)].into_iter().collect(), at: vec![] },
    }];
    for step in 0..steps {
        let owner = sim.below(owners);
        // anyone may take up a version somebody else made
        let at = if sim.flip(2, 3) { pool.len() - 1 } else { sim.below(pool.len()) };
        let m = pool[at].model.clone();
        let op = if fan && sim.flip(5, 6) {
            if !m.at.is_empty() { 6 } else if sim.flip(1, 8) { 5 } else { 3 }
        } else if !bias.is_empty() && sim.flip(2, 3) {
            *sim.pick(bias)
        } else {
            sim.below(12)
        };
        let n = sim.below(width);
        let v = sim.choose(values) as u8;
        let name = ["set", "push", "push_with", "push_next", "up", "ups", "down", "instruction", "map", "drop", "integerise", "give"][op];
        sim.step(owner, name);
        ev!(sim, "owner {}: {} {} {} on {:?}", owner, name, n, v, m.at);
        if op == 11 {
            pool[at].owner = owner;
            continue;
        }
        let src = world::catch(|| take(sim, &mut pool, &habit, at)).map_err(|e| simkit::Violation::new("panic", e))?;
        sim.probe_if(pool.is_empty(), "only version used up");
        let mut results: Vec<(TreeStack<Val>, T)> = Vec::new();
        match op {
            0 => {
                let t = src.set(Val(v));
                results.push((t, m.set(v)));
            }
            1 | 2 | 3 | 4 | 6 => {
                let n = if op == 3 { m.vacant() } else { n };
                let call_fails = op == 2 && faults && sim.flip(1, 3);
                let armed = arm(sim, faults);
                let asked = Cell::new(0);
                let r = world::catch(|| match op {
                    1 => src.push(n, Val(v)),
                    2 => src.push_with(n, || {
                        asked.set(asked.get() + 1);
                        if call_fails {
                            panic!("injected");
                        }
                        Val(v)
                    }),
                    3 => Ok(src.push_next(Val(v))),
                    4 => src.up(n),
                    _ => src.down(),
                });
                disarm();
                let want = match op {
                    1 | 2 | 3 => m.push(n, v),
                    4 => m.up(n),
                    _ => m.down(),
                };
                if op == 2 && !armed {
                    let want_asked = if want.is_some() { 1 } else { 0 };
                    ensure!(asked.get() == want_asked, "callback", "push_with asks for the value {} times", asked.get());
                }
                match r {
                    Err(e) => {
                        ensure!(e.starts_with("injected"), "panic", "{} {} on {:?}: {}", name, n, m, e);
                        let kind = if armed && !(call_fails && asked.get() > 0) { "copy failed" } else { "callback failed" };
                        sim.probe(kind);
                        sim.fault(kind);
                    }
                    Ok(Ok(t)) => match want {
                        None => bail!("accepted", "{} {} on {:?} is not refused", name, n, m),
                        Some(w) => {
                            sim.probe_if(op == 4 && pool.iter().filter(|h| h.model.nodes.contains_key(&w.at)).count() > 2, "up into shared child");
                            results.push((t, w));
                        }
                    },
                    Ok(Err(t)) => {
                        ensure!(want.is_none(), "refused", "{} {} on {:?} is refused", name, n, m);
                        sim.probe_if(op < 3, "refused push");
                        let same = show_tree(&t) == m;
                        ensure!(same, "unmodified", "{} {} on {:?} is refused with another stack", name, n, m);
                        results.push((t, m.clone()));
                    }
                }
            }
            5 => {
                let r = world::catch(|| src.ups());
                let ts = r.map_err(|e| simkit::Violation::new("panic", format!("ups: {}", e)))?;
                let ways: Vec<T> = (0..width + m.vacant() + 1).filter_map(|n| m.up(n)).collect();
                ensure!(ts.len() == ways.len(), "ups", "{} ways up instead of {}", ts.len(), ways.len());
                sim.probe_if(ways.len() > 1, "several ways up");
                sim.probe_if(ways.len() > 12, "many ways up");
                results.extend(ts.into_iter().zip(ways));
            }
            7 => {
                let kind = sim.below(3);
                let right = sim.flip(3, 4);
                let cur = if right { m.cur() } else { sim.choose(values) as u8 };
                let (c1, c2) = (Val(cur), Val(v));
                let (i, want) = match kind {
                    0 => (
                        TreeStackInstruction::Push { n, current_val: c1, new_val: c2 },
                        m.push(n, v),
                    ),
                    1 => {
                        let there = m.up(n);
                        let o = match there {
                            Some(ref t) if sim.flip(3, 4) => t.cur(),
                            _ => sim.choose(values) as u8,
                        };
                        (
                            TreeStackInstruction::Up { n, current_val: c1, old_val: Val(o), new_val: c2 },
                            there.filter(|t| t.cur() == o).map(|t| t.set(v)),
                        )
                    }
                    _ => {
                        let there = m.down();
                        let o = match there {
                            Some(ref t) if sim.flip(3, 4) => t.cur(),
                            _ => sim.choose(values) as u8,
                        };
                        (
                            TreeStackInstruction::Down { current_val: c1, old_val: Val(o), new_val: c2 },
                            there.filter(|t| t.cur() == o).map(|t| t.set(v)),
                        )
                    }
                };
                let want = want.filter(|_| cur == m.cur());
                arm(sim, faults);
                let r = world::catch(|| i.apply(src));
                disarm();
                match r {
                    Err(e) => {
                        ensure!(e.starts_with("injected"), "panic", "{:?} on {:?}: {}", i, m, e);
                        sim.probe("copy failed");
                        sim.fault("copy failed");
                    }
                    Ok(ts) => {
                        ensure!(ts.len() == usize::from(want.is_some()), "instruction", "{:?} on {:?} gives {} stacks", i, m, ts.len());
                        sim.probe(if want.is_some() { "instruction applied" } else { "instruction refused" });
                        results.extend(ts.into_iter().zip(want));
                    }
                }
            }
            8 => {
                let fail = if faults && sim.flip(1, 3) { sim.below(4) } else { usize::MAX };
                let mut calls = 0;
                let r = world::catch(|| {
                    src.map(&mut |x: &Val| {
                        if calls == fail {
                            panic!("injected");
                        }
                        calls += 1;
                        Val(x.0.wrapping_add(1))
                    })
                });
                match r {
                    Err(e) => {
                        ensure!(e.starts_with("injected"), "panic", "map on {:?}: {}", m, e);
                        sim.probe("callback failed");
                        sim.fault("callback failed");
                    }
                    Ok(t) => {
                        let mut w = m.clone();
                        for x in w.nodes.values_mut() {
                            *x = x.wrapping_add(1);
                        }
                        ensure!(show_tree(&t) == w, "map", "map of {:?} shows {:?}", m, show_tree(&t));
                    }
                }
            }
            10 => {
                let mut ints = Default::default();
                let t = src.integerise(&mut ints);
                let back: TreeStack<Val> = Integerisable1::un_integerise(&t, &ints);
                ensure!(show_tree(&back) == m, "integerised", "{:?} comes back as {:?}", m, show_tree(&back));
                sim.probe("integerised");
                results.push((back, m.clone()));
            }
            _ => {
                drop(src);
                if pool.len() > 1 {
                    let at = sim.below(pool.len());
                    pool.swap_remove(at);
                }
            }
        }
        for (t, w) in results {
            let h = Held { owner, real: t, model: w };
            check_tree(&h, &format!("after {} {} by owner {}", name, n, owner))?;
            keep(sim, &mut pool, &habit, h.owner, h.real, h.model);
        }
        if pool.is_empty() {
            let model = T { nodes: vec![(vec![], v)].into_iter().collect(), at: vec![] };
            pool.push(Held { owner, real: TreeStack::new(Val(v)), model });
        }
        if step % (if large { 64 } else { 4 }) == 3 || step + 1 == steps {
            for h in &pool {
                check_tree(h, &format!("version of owner {} after {}", h.owner, name))?;
            }
            for a in &pool {
                for b in &pool {
                    let same = a.model == b.model;
                    ensure!((a.real == b.real) == same, "equality", "equal: {} for {:?} and {:?}", !same, a.model, b.model);
                    ensure!((a.real.cmp(&b.real) == std::cmp::Ordering::Equal) == same, "order", "{:?} and {:?} compare {:?}", a.model, b.model, a.real.cmp(&b.real));
                    sim.probe_if(!same && a.model.at == b.model.at && a.model.at.len() > 1, "two versions diverged below");
                }
            }
        }
    }
    Ok(())
}

fn lists(sim: &Sim) -> Verdict {
    let owners = sim.range(1, 4);
    let values = *sim.pick(&[2u64, 9]);
    let faults = sim.flip(1, 3);
    let steps = if sim.flip(1, 300) { sim.range(60, 600) } else { sim.range(1, 60) };
    let more = sim.flip(1, 2);
    let habit = habit(sim);
    let mut pool: Vec<Held<Pushdown<Val>, Vec<u8>>> = vec![Held { owner: 0, real: Pushdown::new(), model: vec![] }];
    for step in 0..steps {
        let owner = sim.below(owners);
        let at = if sim.flip(2, 3) { pool.len() - 1 } else { sim.below(pool.len()) };
        let m = pool[at].model.clone();
        let v = sim.choose(values) as u8;
        let op = if more && sim.flip(1, 2) { 0 } else { sim.below(9) };
        let name = ["push", "pop", "set", "map", "to vec", "from slice", "drop", "integerise", "give"][op];
        sim.step(owner, name);
        ev!(sim, "owner {}: {} {} on {:?}", owner, name, v, m);
        if op == 8 {
            pool[at].owner = owner;
            continue;
        }
        let src = take(sim, &mut pool, &habit, at);
        sim.probe_if(pool.is_empty(), "only version used up");
        let mut result: Option<(Pushdown<Val>, Vec<u8>)> = None;
        match op {
            0 => {
                let mut w = m.clone();
                w.push(v);
                result = Some((src.push(Val(v)), w));
            }
            1 => {
                arm(sim, faults);
                let r = world::catch(|| src.pop());
                disarm();
                match r {
                    Err(e) => {
                        ensure!(e.starts_with("injected"), "panic", "pop of {:?}: {}", m, e);
                        sim.probe("copy failed");
                        sim.fault("copy failed");
                    }
                    Ok(Ok((p, x))) => {
                        ensure!(m.last() == Some(&x.0), "pop", "{:?} pops {:?}", m, x);
                        sim.probe_if(m.len() == 1, "list emptied");
                        result = Some((p, m[..m.len() - 1].to_vec()));
                    }
                    Ok(Err(p)) => {
                        ensure!(m.is_empty(), "refused", "pop of {:?} is refused", m);
                        result = Some((p, vec![]));
                    }
                }
            }
            2 => match src.set(Val(v)) {
                Ok(p) => {
                    ensure!(!m.is_empty(), "accepted", "set on an empty list");
                    let mut w = m.clone();
                    *w.last_mut().unwrap() = v;
                    result = Some((p, w));
                }
                Err(p) => {
                    ensure!(m.is_empty(), "refused", "set on {:?} is refused", m);
                    result = Some((p, vec![]));
                }
            },
            3 => {
                let p = src.map(&mut |x: &Val| Val(x.0 + 1));
                let got: Vec<u8> = p.to_vec().iter().map(|x| x.0).collect();
                let want: Vec<u8> = m.iter().map(|x| x + 1).collect();
                ensure!(got == want, "map", "map of {:?} shows {:?}", m, got);
            }
            4 => {
                arm(sim, faults);
                let r = world::catch(|| {
                    let v: Vec<Val> = src.into();
                    v
                });
                disarm();
                match r {
                    Err(e) => {
                        ensure!(e.starts_with("injected"), "panic", "listing {:?}: {}", m, e);
                        sim.fault("copy failed");
                    }
                    Ok(l) => ensure!(l.iter().map(|x| x.0).eq(m.iter().cloned()), "list", "{:?} lists {:?}", m, l),
                }
            }
            5 => {
                let vals: Vec<Val> = m.iter().map(|&x| Val(x)).collect();
                result = Some((Pushdown::from(&vals[..]), m.clone()));
            }
            6 => {
                drop(src);
                if pool.len() > 1 {
                    let at = sim.below(pool.len());
                    pool.swap_remove(at);
                }
            }
            _ => {
                let mut ints = Default::default();
                let p = src.integerise(&mut ints);
                let back: Pushdown<Val> = Integerisable1::un_integerise(&p, &ints);
                sim.probe("integerised");
                result = Some((back, m.clone()));
            }
        }
        if let Some((p, w)) = result {
            keep(sim, &mut pool, &habit, owner, p, w);
        }
        if pool.is_empty() {
            pool.push(Held { owner, real: Pushdown::new(), model: vec![] });
        }
        if step % 4 == 3 || step + 1 == steps {
            for h in &pool {
                let l: Vec<u8> = h.real.to_vec().iter().map(|x| x.0).collect();
                let it: Vec<u8> = h.real.iter().map(|x| x.0).collect();
                ensure!(l == h.model && it == h.model, "version", "a version of owner {} shows {:?} instead of {:?}", h.owner, l, h.model);
                ensure!(h.real.is_empty() == h.model.is_empty(), "emptiness", "{:?}", h.model);
                let top = h.model.last().cloned();
                ensure!(h.real.peek().map(|x| x.0) == top && h.real.peek_ref().map(|x| x.0) == top, "peek", "{:?} shows {:?}", h.model, h.real.peek());
            }
            for a in &pool {
                for b in &pool {
                    let same = a.model == b.model;
                    ensure!((a.real == b.real) == same, "equality", "equal: {} for {:?} and {:?}", !same, a.model, b.model);
                    sim.probe_if(!same && a.model.len() > 1 && a.model.len() == b.model.len(), "two versions diverged below");
                }
            }
        }
    }
    Ok(())
}

/// A list of many elements, with versions kept at some depths.
fn deep_list(sim: &Sim) -> Verdict {
    let n = *sim.pick(&[255usize, 256, 257, 1000, 5000, 20_000]);
    sim.probe("deep stack");
    ev!(sim, "a list of {} elements", n);
    let value = |i: usize| (i % 251) as u8;
    let mut p: Pushdown<Val> = Pushdown::new();
    let mut kept: Vec<(usize, Pushdown<Val>)> = Vec::new();
    for i in 0..n {
        if i % (n / 5 + 1) == 1 {
            kept.push((i, p.clone()));
        }
        p = p.push(Val(value(i)));
    }
    sim.step(0, "pushed");
    kept.push((n, p.clone()));
    // others change their versions, and drop them
    for (i, q) in &kept {
        let r = q.clone().set(Val(252)).map(|r| r.push(Val(253)));
        ensure!(r.is_ok() == (*i > 0), "refused", "set on a list of {} elements", i);
        if sim.flip(1, 2) {
            let p = q.map(&mut |v: &Val| Val(v.0 + 1));
            ensure!(p.to_vec().iter().map(|v| v.0).eq((0..*i).map(|j| value(j) + 1)), "map", "map of a list of {} elements", i);
        }
    }
    if sim.flip(1, 2) {
        for i in (0..n).rev() {
            match p.pop() {
                Ok((q, v)) => {
                    ensure!(v.0 == value(i), "pop", "element {} of {} is {:?}", i, n, v);
                    p = q;
                }
                Err(_) => bail!("refused", "pop number {} of {} is refused", n - i, n),
            }
        }
        ensure!(p.is_empty(), "emptiness", "after {} pushes and pops", n);
    } else {
        drop(p);
    }
    for (i, q) in &kept {
        ensure!(q.to_vec().iter().map(|v| v.0).eq((0..*i).map(value)), "version", "a version of {} elements has changed", i);
        let vals: Vec<Val> = (0..*i).map(|j| Val(value(j))).collect();
        ensure!(*q == Pushdown::from(&vals[..]), "equality", "a version of {} elements does not equal its copy", i);
    }
    for a in 1..kept.len() {
        ensure!(kept[a].1 != kept[a - 1].1, "equality", "versions of {} and {} elements are equal", kept[a].0, kept[a - 1].0);
    }
    Ok(())
}

fn deep_push_down(sim: &Sim) -> Verdict {
    let n = *sim.pick(&[255usize, 256, 257, 1000, 5000, 20_000]);
    sim.probe("deep stack");
    ev!(sim, "a push-down of {} elements", n);
    let value = |i: usize| (i % 251) as u8;
    let vals = |r: std::ops::Range<usize>| -> Vec<Val> { r.map(|i| Val(value(i))).collect() };
    let p: PushDown<Val> = PushDown::from(vals(0..n));
    sim.step(0, "pushed");
    let k = sim.range(1, 300).min(n);
    let top: Vec<Val> = vals(n - k..n).into_iter().rev().collect();
    let q = match p.clone().replace(&top, &[Val(252), Val(253)]) {
        Ok(q) => q,
        Err(_) => bail!("refused", "replacing the topmost {} of {} elements is refused", k, n),
    };
    ensure!(q.iter().map(|v| v.0).eq((0..n - k).map(value).chain(vec![252, 253])), "replace", "replacing the topmost {} of {} elements", k, n);
    let back = match q.clone().replace(&[Val(253), Val(252)], &vals(n - k..n)) {
        Ok(b) => b,
        Err(_) => bail!("refused", "the inverse of replacing {} of {} elements is refused", k, n),
    };
    ensure!(back == p && q != p, "inverse", "the inverse of replacing {} of {} elements does not lead back", k, n);
    ensure!(p.iter().map(|v| v.0).eq((0..n).map(value)), "version", "the push-down of {} elements has changed", n);
    Ok(())
}

/// A tree stack far away from its root.
fn deep_tree(sim: &Sim) -> Verdict {
    let n = *sim.pick(&[255usize, 256, 257, 1000, 4000]);
    sim.probe("deep stack");
    ev!(sim, "a tree stack of depth {}", n);
    let value = |i: usize| (i % 251) as u8;
    let mut ts: TreeStack<Val> = TreeStack::new(Val(value(0)));
    let mut at = Vec::new();
    for i in 1..=n {
        at.push(sim.below(3));
        ts = match ts.push(at[i - 1], Val(value(i))) {
            Ok(t) => t,
            Err(_) => bail!("refused", "push at depth {} is refused", i),
        };
    }
    sim.step(0, "pushed");
    let top = ts.clone();
    for i in (0..n).rev() {
        ts = match ts.down() {
            Ok(t) => t,
            Err(_) => bail!("refused", "going down at depth {} is refused", i + 1),
        };
        ensure!(ts.current_symbol().0 == value(i), "current", "at depth {} of {}: {:?}", i, n, ts.current_symbol());
    }
    ensure!(ts.is_at_bottom(), "bottom", "after going down {} times", n);
    ensure!(ts.clone().down().is_err(), "accepted", "going down at the root");
    // another owner puts something beside the path
    let k = sim.below(n);
    let mut other = ts.clone();
    let mut beside = None;
    for i in 0..n {
        if i == k {
            beside = other.clone().push(at[i] + 1, Val(252)).ok();
        }
        other = match other.up(at[i]) {
            Ok(t) => t,
            Err(_) => bail!("refused", "going up at depth {} is refused", i),
        };
        ensure!(other.current_symbol().0 == value(i + 1), "current", "at depth {} of {}: {:?}", i + 1, n, other.current_symbol());
    }
    ensure!(beside.is_some(), "refused", "pushing beside the path at depth {} is refused", k);
    ensure!(other == top && ts != top, "equality", "going down and up {} times leads to another tree stack", n);
    drop(ts);
    drop(other);
    if n <= 300 {
        let t = show_tree(&top);
        let want: BTreeMap<Vec<usize>, u8> = (0..=n).map(|i| (at[..i].to_vec(), value(i))).collect();
        ensure!(t.at == at && t.nodes == want, "version", "a version of depth {} has changed", n);
    }
    Ok(())
}

/// What a process without the large call stack of the simulator does with a million elements.
const OVERFLOWS: [(&str, &str); 4] = [
    ("drop list", "dropping a list of a million elements overflows the call stack and aborts the process"),
    ("map list", "mapping or integerising a list of a million elements overflows the call stack and aborts the process"),
    ("drop tree", "dropping a tree stack of depth one million overflows the call stack and aborts the process"),
    ("compare trees", "comparing two tree stacks of depth one million overflows the call stack and aborts the process"),
];

fn overflow(sim: &Sim) -> Verdict {
    for (what, msg) in OVERFLOWS.iter() {
        sim.step(0, "a process of its own");
        let out = std::env::current_exe().and_then(|exe| {
            std::process::Command::new("/bin/sh")
                .args(["-c", "ulimit -c 0; exec \"$0\" million \"$1\"", &exe.to_string_lossy(), what])
                .stdin(std::process::Stdio::null())
                .stderr(std::process::Stdio::null())
                .output()
        });
        let out = match out {
            Ok(o) => o,
            // no processes to be had here
            Err(_) => return Ok(()),
        };
        let aborted = {
            use std::os::unix::process::ExitStatusExt;
            out.status.signal().is_some()
        };
        ev!(sim, "{}: {}", what, if aborted { "aborted" } else { "ended" });
        sim.probe("a million elements");
        if aborted {
            sim.known(what, msg);
        } else if out.status.code() == Some(0) {
            ensure!(out.stdout == b"right\n", "deep", "{}: {:?}", what, String::from_utf8_lossy(&out.stdout));
        }
    }
    Ok(())
}

/// The process that `overflow` starts.
pub fn million(what: &str) {
    let what = what.to_string();
    let ok = std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(move || {
            const N: u32 = 1_000_000;
            let list = || (0..N).fold(Pushdown::new(), |p, i| p.push(i));
            let tree = || (0..N).fold(TreeStack::new(0), |t, i| t.push(0, i).unwrap_or_else(|t| t));
            match &what[..] {
                "drop list" => {
                    drop(list());
                    true
                }
                "map list" => {
                    let a = list();
                    let b = a.map(&mut |x| x + 1);
                    let right = b.peek() == Some(N);
                    std::mem::forget((a, b));
                    right
                }
                "drop tree" => {
                    drop(tree());
                    true
                }
                _ => {
                    let (a, b) = (tree(), tree());
                    let same = a == b;
                    std::mem::forget((a, b));
                    same
                }
            }
        })
        .unwrap()
        .join()
        .unwrap();
    println!("{}", if ok { "right" } else { "wrong" });
}

fn push_downs(sim: &Sim) -> Verdict {
    let owners = sim.range(1, 3);
    let values = *sim.pick(&[2u64, 4]);
    let faults = sim.flip(1, 3);
    let steps = if sim.flip(1, 300) { sim.range(40, 400) } else { sim.range(1, 40) };
    let habit = habit(sim);
    let mut pool: Vec<Held<PushDown<Val>, Vec<u8>>> =
        vec![Held { owner: 0, real: PushDown::new(Val(0), Val(1)), model: vec![0, 1] }];
    for step in 0..steps {
        let owner = sim.below(owners);
        let at = if sim.flip(2, 3) { pool.len() - 1 } else { sim.below(pool.len()) };
        let m = pool[at].model.clone();
        let op = sim.below(5);
        let name = ["replace", "replace", "instruction", "integerise", "map"][op];
        // the elements to take off, topmost first
        let k = sim.below(4);
        let mut cur: Vec<u8> = m.iter().rev().take(k).cloned().collect();
        if sim.flip(1, 4) {
            if cur.is_empty() || sim.flip(1, 3) {
                cur.push(sim.choose(values) as u8);
            } else {
                let i = sim.below(cur.len());
                cur[i] = sim.choose(values) as u8;
            }
        }
        let new: Vec<u8> = (0..sim.below(4)).map(|_| sim.choose(values) as u8).collect();
        sim.step(owner, name);
        ev!(sim, "owner {}: {} {:?} by {:?} on {:?}", owner, name, cur, new, m);
        let fits = cur.len() <= m.len() && m.iter().rev().zip(&cur).all(|(a, b)| a == b);
        let want = if fits {
            let mut w = m[..m.len() - cur.len()].to_vec();
            w.extend_from_slice(&new);
            Some(w)
        } else {
            None
        };
        let src = take(sim, &mut pool, &habit, at);
        sim.probe_if(pool.is_empty(), "only version used up");
        let vals = |v: &[u8]| -> Vec<Val> { v.iter().map(|&x| Val(x)).collect() };
        let mut result: Option<(PushDown<Val>, Vec<u8>)> = None;
        match op {
            0 | 1 => {
                let (c, n) = (vals(&cur), vals(&new));
                arm(sim, faults);
                let r = world::catch(|| src.replace(&c, &n));
                disarm();
                match r {
                    Err(e) => {
                        ensure!(e.starts_with("injected"), "panic", "replace {:?} by {:?} on {:?}: {}", cur, new, m, e);
                        sim.probe("copy failed");
                        sim.fault("copy failed");
                    }
                    Ok(Ok(p)) => match want {
                        None => bail!("accepted", "replace {:?} by {:?} on {:?} is not refused", cur, new, m),
                        Some(w) => {
                            // and back again
                            let (c, n): (Vec<Val>, Vec<Val>) = (new.iter().rev().map(|&x| Val(x)).collect(), cur.iter().rev().map(|&x| Val(x)).collect());
                            let back = p.clone().replace(&c, &n).ok().map(|p| p.iter().map(|x| x.0).collect::<Vec<_>>());
                            ensure!(back.as_ref() == Some(&m), "inverse", "the inverse of replacing {:?} by {:?} on {:?} does not lead back", cur, new, m);
                            sim.probe_if(w.is_empty(), "list emptied");
                            result = Some((p, w));
                        }
                    },
                    Ok(Err(p)) => {
                        ensure!(want.is_none(), "refused", "replace {:?} by {:?} on {:?} is refused", cur, new, m);
                        ensure!(p.iter().map(|x| x.0).eq(m.iter().cloned()), "unmodified", "replace {:?} by {:?} on {:?} is refused with another stack", cur, new, m);
                        sim.probe("refused push");
                    }
                }
            }
            2 => {
                let i = PushDownInstruction::Replace { current_val: vals(&cur), new_val: vals(&new) };
                let ps = i.apply(src);
                ensure!(ps.len() == usize::from(want.is_some()), "instruction", "{:?} on {:?} gives {} stacks", i, m, ps.len());
                sim.probe(if want.is_some() { "instruction applied" } else { "instruction refused" });
                result = ps.into_iter().zip(want).next();
            }
            4 => {
                let p = src.map(&|x: &Val| Val(x.0 + 1));
                let mut calls = 0;
                let q = p.map_mut(&mut |x: &Val| {
                    calls += 1;
                    Val(x.0 - 1)
                });
                ensure!(p.iter().map(|x| x.0 - 1).eq(m.iter().cloned()), "map", "map of {:?} shows {:?}", m, p);
                ensure!(calls == m.len(), "map", "map of {:?} asks {} times", m, calls);
                result = Some((q, m.clone()));
            }
            _ => {
                let mut ints = Default::default();
                let p = src.integerise(&mut ints);
                let back: PushDown<Val> = Integerisable1::un_integerise(&p, &ints);
                sim.probe("integerised");
                result = Some((back, m.clone()));
            }
        }
        if let Some((p, w)) = result {
            keep(sim, &mut pool, &habit, owner, p, w);
        }
        if pool.is_empty() {
            pool.push(Held { owner, real: PushDown::new(Val(0), Val(1)), model: vec![0, 1] });
        }
        if step % 4 == 3 || step + 1 == steps {
            for h in &pool {
                let l: Vec<u8> = h.real.iter().map(|x| x.0).collect();
                ensure!(l == h.model, "version", "a version of owner {} shows {:?} instead of {:?}", h.owner, l, h.model);
                ensure!(h.real.is_bottom() == (h.model.len() == 1), "bottom", "{:?}", h.model);
                for b in &pool {
                    ensure!((h.real == b.real) == (h.model == b.model), "equality", "equal: {} for {:?} and {:?}", h.real == b.real, h.model, b.model);
                }
                if let Some(top) = h.model.last() {
                    ensure!(h.real.current_symbol().0 == *top && h.real.empty().0 == h.model[0], "current", "{:?}", h.model);
                }
            }
        }
    }
    Ok(())
}
