//! Random well-formed multiple context-free grammars and their derivations,
//! enumerated directly from the definition.
use rustomata::grammars::cfg::{CFGComposition, CFGRule, LetterT, CFG};
use rustomata::grammars::pmcfg::{Composition, PMCFGRule, VarT, PMCFG};
use simkit::Sim;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Sy {
    V(usize, usize),
    T(usize),
}

/// A rule; the weight counts sixteenths.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct R {
    pub head: usize,
    pub tail: Vec<usize>,
    pub comp: Vec<Vec<Sy>>,
    pub w: u32,
}

#[derive(Clone, Debug)]
pub struct G {
    /// fanout of each nonterminal, also of those without rules
    pub fan: Vec<usize>,
    pub terminals: usize,
    pub rules: Vec<R>,
    pub init: usize,
}

#[derive(Clone, Copy)]
pub struct Opts {
    pub nonterminals: (usize, usize),
    pub terminals: usize,
    pub rules: (usize, usize),
    pub max_fan: usize,
    pub max_tail: usize,
    /// compositions may leave variables out
    pub deleting: bool,
    /// components may be empty
    pub empty: bool,
    /// some nonterminals may have no rule
    pub undefined: bool,
    /// rules have variables only or are a single terminal
    pub normal: bool,
    /// every rule except for terminal rules has variables and terminals alike
    pub repeats: bool,
    /// components of a successor are used in their order
    pub ordered: bool,
    /// few distinct weights
    pub ties: bool,
}

pub fn grammar(sim: &Sim, o: &Opts) -> G {
    let n = sim.range(o.nonterminals.0, o.nonterminals.1);
    let fan: Vec<usize> =
        (0..n).map(|i| if i == 0 { 1 } else { 1 + sim.below(o.max_fan) }).collect();
    let weights: Vec<u32> =
        if o.ties { vec![8, 4, 16] } else { (1..17).rev().collect() };
    let mut rules: Vec<R> = Vec::new();
    let mut want = sim.range(o.rules.0, o.rules.1);
    // one simple rule for most nonterminals, so that most are productive
    let mut bare = Vec::new();
    for _ in 0..n {
        bare.push(o.undefined && sim.flip(1, 8));
    }
    for a in 0..n {
        if bare[a] || (o.undefined && sim.flip(1, 10)) {
            continue;
        }
        if fan[a] == 1 {
            let t = sim.below(o.terminals);
            rules.push(R { head: a, tail: vec![], comp: vec![vec![Sy::T(t)]], w: *sim.pick(&weights) });
        } else {
            // in normal form, a rule with terminals has one component only
            let r = if o.normal { split(sim, a, &fan, &weights, o) } else { flat(sim, a, &fan, &weights, o) };
            if let Some(r) = r {
                rules.push(r);
            }
        }
    }
    let mut tries = 0;
    let most = 60.max(2 * want);
    while want > 0 && tries < most {
        tries += 1;
        let a = if sim.flip(1, 3) { 0 } else { sim.below(n) };
        if bare[a] {
            continue;
        }
        let k = sim.below(o.max_tail + 1);
        let r = if o.normal {
            if k == 0 {
                if fan[a] > 1 {
                    continue;
                }
                let t = sim.below(o.terminals);
                Some(R { head: a, tail: vec![], comp: vec![vec![Sy::T(t)]], w: *sim.pick(&weights) })
            } else {
                split(sim, a, &fan, &weights, o)
            }
        } else {
            let tail: Vec<usize> = (0..k).map(|_| sim.below(n)).collect();
            compose(sim, a, tail, &fan, &weights, o)
        };
        if let Some(r) = r {
            want -= 1;
            rules.push(r);
        }
    }
    if !o.repeats {
        let mut seen: Vec<(usize, Vec<usize>, Vec<Vec<Sy>>)> = Vec::new();
        rules.retain(|r| {
            let k = (r.head, r.tail.clone(), r.comp.clone());
            let fresh = !seen.contains(&k);
            seen.push(k);
            fresh
        });
    } else if !rules.is_empty() && sim.flip(1, 6) {
        let r = sim.pick(&rules).clone();
        rules.push(r);
    }
    sim.shuffle(&mut rules);
    G { fan, terminals: o.terminals, rules, init: 0 }
}

fn flat(sim: &Sim, a: usize, fan: &[usize], ws: &[u32], o: &Opts) -> Option<R> {
    let comp = (0..fan[a]).map(|_| vec![Sy::T(sim.below(o.terminals))]).collect();
    Some(R { head: a, tail: vec![], comp, w: *sim.pick(ws) })
}

/// A rule of variables only whose components are all non-empty.
fn split(sim: &Sim, a: usize, fan: &[usize], ws: &[u32], o: &Opts) -> Option<R> {
    let mut tail: Vec<usize> = Vec::new();
    let mut have = 0;
    let most = o.max_tail.max(1);
    let k = sim.range(1, most);
    while tail.len() < k || (have < fan[a] && tail.len() < fan[a].max(most)) {
        let b = sim.below(fan.len());
        have += fan[b];
        tail.push(b);
    }
    if have < fan[a] {
        return None;
    }
    let mut o = *o;
    o.deleting = false;
    compose(sim, a, tail, fan, ws, &o)
}

fn compose(sim: &Sim, a: usize, tail: Vec<usize>, fan: &[usize], ws: &[u32], o: &Opts) -> Option<R> {
    let mut vars: Vec<Sy> = Vec::new();
    for (i, &b) in tail.iter().enumerate() {
        for j in 0..fan[b] {
            if o.deleting && sim.flip(1, 4) {
                continue;
            }
            vars.push(Sy::V(i, j));
        }
    }
    sim.shuffle(&mut vars);
    if !o.normal {
        let extra = sim.below(3);
        for _ in 0..extra {
            let at = sim.below(vars.len() + 1);
            vars.insert(at, Sy::T(sim.below(o.terminals)));
        }
    }
    if o.ordered {
        // the k-th component of a successor is used before the next one
        for (i, _) in tail.iter().enumerate() {
            let mut js: Vec<usize> = Vec::new();
            for v in &vars {
                if let Sy::V(i1, j) = v {
                    if *i1 == i {
                        js.push(*j);
                    }
                }
            }
            js.sort();
            let mut it = js.into_iter();
            for v in vars.iter_mut() {
                if let Sy::V(i1, j) = v {
                    if *i1 == i {
                        *j = it.next().unwrap();
                    }
                }
            }
        }
    }
    let f = fan[a];
    let comp: Vec<Vec<Sy>> = if o.empty {
        let mut cuts: Vec<usize> = (1..f).map(|_| sim.below(vars.len() + 1)).collect();
        cuts.sort();
        cut(&vars, &cuts)
    } else {
        if vars.len() < f {
            return None;
        }
        // f - 1 distinct cuts inside
        let mut at: Vec<usize> = (1..vars.len()).collect();
        sim.shuffle(&mut at);
        let mut cuts: Vec<usize> = at.into_iter().take(f - 1).collect();
        cuts.sort();
        cut(&vars, &cuts)
    };
    Some(R { head: a, tail, comp, w: *sim.pick(ws) })
}

fn cut(v: &[Sy], cuts: &[usize]) -> Vec<Vec<Sy>> {
    let mut res = Vec::new();
    let mut from = 0;
    for &c in cuts {
        res.push(v[from..c].to_vec());
        from = c;
    }
    res.push(v[from..].to_vec());
    res
}

pub fn nt(i: usize) -> String {
    if i == 0 {
        "S".to_string()
    } else {
        format!("N{}", i)
    }
}
pub fn te(i: usize) -> String {
    if i < 26 {
        ((b'a' + i as u8) as char).to_string()
    } else {
        format!("w{}", i)
    }
}

impl R {
    pub fn pmcfg<W>(&self, w: impl Fn(f64) -> W) -> PMCFGRule<String, String, W> {
        PMCFGRule {
            head: nt(self.head),
            tail: self.tail.iter().map(|&n| nt(n)).collect(),
            composition: Composition {
                composition: self
                    .comp
                    .iter()
                    .map(|c| {
                        c.iter()
                            .map(|s| match *s {
                                Sy::V(i, j) => VarT::Var(i, j),
                                Sy::T(t) => VarT::T(te(t)),
                            })
                            .collect()
                    })
                    .collect(),
            },
            weight: w(f64::from(self.w) / 16.0),
        }
    }
    /// For rules of fanout one whose tail is used from left to right.
    pub fn cfg<W>(&self, w: impl Fn(f64) -> W) -> CFGRule<String, String, W> {
        CFGRule {
            head: nt(self.head),
            composition: CFGComposition {
                composition: self.comp[0]
                    .iter()
                    .map(|s| match *s {
                        Sy::V(i, _) => LetterT::Label(nt(self.tail[i])),
                        Sy::T(t) => LetterT::Value(te(t)),
                    })
                    .collect(),
            },
            weight: w(f64::from(self.w) / 16.0),
        }
    }
}

impl G {
    pub fn pmcfg_rules<W>(&self, w: impl Fn(f64) -> W) -> Vec<PMCFGRule<String, String, W>> {
        self.rules.iter().map(|r| r.pmcfg(&w)).collect()
    }
    pub fn pmcfg<W>(&self, w: impl Fn(f64) -> W) -> PMCFG<String, String, W> {
        PMCFG { initial: vec![nt(self.init)], rules: self.pmcfg_rules(w) }
    }
    pub fn cfg<W>(&self, w: impl Fn(f64) -> W) -> CFG<String, String, W> {
        CFG { initial: vec![nt(self.init)], rules: self.rules.iter().map(|r| r.cfg(&w)).collect() }
    }
    pub fn show(&self) -> String {
        self.rules.iter().map(|r| r.pmcfg(|w| w).to_string()).collect::<Vec<_>>().join("; ")
    }
}

/// A derivation: its rules in depth-first order, its components, its weight.
#[derive(Clone, Debug, PartialEq, PartialOrd)]
pub struct D {
    pub rules: Vec<usize>,
    pub comps: Vec<Vec<usize>>,
    pub w: f64,
}

/// What `derivations` needs to know of a rule.
pub trait RuleLike {
    type N: Ord + Clone;
    fn head(&self) -> &Self::N;
    fn tail(&self) -> &[Self::N];
    fn comp(&self) -> Vec<Vec<Sy>>;
    fn weight(&self) -> f64;
}
impl RuleLike for R {
    type N = usize;
    fn head(&self) -> &usize {
        &self.head
    }
    fn tail(&self) -> &[usize] {
        &self.tail
    }
    fn comp(&self) -> Vec<Vec<Sy>> {
        self.comp.clone()
    }
    fn weight(&self) -> f64 {
        f64::from(self.w) / 16.0
    }
}
impl<N: Ord + Clone> RuleLike for PMCFGRule<N, String, f64> {
    type N = N;
    fn head(&self) -> &N {
        &self.head
    }
    fn tail(&self) -> &[N] {
        &self.tail
    }
    fn comp(&self) -> Vec<Vec<Sy>> {
        self.composition
            .composition
            .iter()
            .map(|c| {
                c.iter()
                    .map(|s| match s {
                        VarT::Var(i, j) => Sy::V(*i, *j),
                        VarT::T(t) => Sy::T(t.bytes().next().map_or(0, |b| usize::from(b - b'a'))),
                    })
                    .collect()
            })
            .collect()
    }
    fn weight(&self) -> f64 {
        self.weight
    }
}

/// All derivations from `init` with at most `nodes` rules and components of
/// at most `len` symbols together; None if there are more than `cap` at once.
pub fn derivations<X: RuleLike>(rules: &[X], init: &X::N, nodes: usize, len: usize, cap: usize) -> Option<Vec<D>> {
    // by nonterminal and number of rules
    let mut by: BTreeMap<(&X::N, usize), Vec<D>> = BTreeMap::new();
    let comps: Vec<Vec<Vec<Sy>>> = rules.iter().map(|r| r.comp()).collect();
    for size in 1..=nodes {
        let mut fresh: BTreeMap<(&X::N, usize), Vec<D>> = BTreeMap::new();
        for (ri, r) in rules.iter().enumerate() {
            let mut partial: Vec<(Vec<&D>, usize)> = vec![(vec![], size - 1)];
            for b in r.tail() {
                let mut next = Vec::new();
                for (ds, left) in &partial {
                    for k in 1..=*left {
                        for d in by.get(&(b, k)).map_or(&[][..], |v| &v[..]) {
                            let mut ds2 = ds.clone();
                            ds2.push(d);
                            next.push((ds2, left - k));
                        }
                    }
                    if next.len() > cap * 4 {
                        return None;
                    }
                }
                partial = next;
            }
            for (ds, left) in partial {
                if left != 0 {
                    continue;
                }
                let mut out = Vec::new();
                let mut total = 0;
                for c in &comps[ri] {
                    let mut v = Vec::new();
                    for s in c {
                        match s {
                            Sy::T(t) => v.push(*t),
                            Sy::V(i, j) => v.extend_from_slice(&ds[*i].comps[*j]),
                        }
                    }
                    total += v.len();
                    out.push(v);
                }
                if total > len {
                    continue;
                }
                let mut rs = vec![ri];
                let mut w = r.weight();
                for d in &ds {
                    rs.extend_from_slice(&d.rules);
                    w *= d.w;
                }
                let e = fresh.entry((r.head(), size)).or_insert_with(Vec::new);
                e.push(D { rules: rs, comps: out, w });
                if e.len() > cap {
                    return None;
                }
            }
        }
        by.append(&mut fresh);
    }
    let mut res = Vec::new();
    for size in 1..=nodes {
        res.extend(by.remove(&(init, size)).unwrap_or_else(Vec::new));
    }
    Some(res)
}

/// A parse: the spans its components cover, its rules in depth-first order.
#[derive(Clone, Debug, PartialEq)]
pub struct P {
    pub spans: Vec<(usize, usize)>,
    pub rules: Vec<usize>,
    pub w: f64,
}

/// All derivations of `word` from `g.init` with at most `nodes` rules, for
/// grammars without deletion; None if there are more than `cap` at once.
/// The flag tells that no larger derivation exists.
pub fn parses(g: &G, word: &[usize], nodes: usize, cap: usize) -> Option<(Vec<P>, bool)> {
    let n = word.len();
    let mut by: BTreeMap<(usize, usize), Vec<P>> = BTreeMap::new();
    let mut total = 0;
    let most = g.rules.iter().map(|r| r.tail.len()).max().unwrap_or(0);
    // sizes in a row that gave nothing: once all sums of smaller sizes are
    // exhausted, nothing larger can appear
    let mut largest = 0;
    let mut complete = false;
    for size in 1..=nodes {
        if size > 1 && size > largest * most + 1 {
            complete = true;
            break;
        }
        let mut fresh: BTreeMap<usize, Vec<P>> = BTreeMap::new();
        for (ri, r) in g.rules.iter().enumerate() {
            if r.tail.len() + 1 > size {
                continue;
            }
            let mut partial: Vec<(Vec<&P>, usize)> = vec![(vec![], size - 1)];
            for (at, b) in r.tail.iter().enumerate() {
                let rest = r.tail.len() - at - 1;
                let mut next = Vec::new();
                for (ds, left) in &partial {
                    if *left < rest + 1 {
                        continue;
                    }
                    let (lo, hi) = if rest == 0 { (*left, *left) } else { (1, *left - rest) };
                    for k in lo..=hi {
                        for d in by.get(&(*b, k)).map_or(&[][..], |v| &v[..]) {
                            let mut ds2 = ds.clone();
                            ds2.push(d);
                            next.push((ds2, left - k));
                        }
                    }
                    if next.len() > cap * 8 {
                        return None;
                    }
                }
                partial = next;
            }
            for (ds, left) in partial {
                if left != 0 {
                    continue;
                }
                for spans in place(r, &ds, word) {
                    let mut used = vec![0; n];
                    let mut fits = true;
                    for &(a, b) in &spans {
                        for u in &mut used[a..b] {
                            *u += 1;
                            fits &= *u == 1;
                        }
                    }
                    if !fits {
                        continue;
                    }
                    let mut rs = vec![ri];
                    let mut w = f64::from(r.w) / 16.0;
                    for d in &ds {
                        rs.extend_from_slice(&d.rules);
                        w *= d.w;
                    }
                    total += 1;
                    if total > cap {
                        return None;
                    }
                    largest = size;
                    fresh.entry(r.head).or_insert_with(Vec::new).push(P { spans, rules: rs, w });
                }
            }
        }
        for (a, v) in fresh {
            by.insert((a, size), v);
        }
    }
    let mut res = Vec::new();
    for size in 1..=nodes {
        for p in by.remove(&(g.init, size)).unwrap_or_else(Vec::new) {
            if p.spans == [(0, n)] {
                res.push(p);
            }
        }
    }
    Some((res, complete))
}

/// The spans the components of a rule may cover.
fn place(r: &R, ds: &[&P], word: &[usize]) -> Vec<Vec<(usize, usize)>> {
    let mut all: Vec<Vec<(usize, usize)>> = vec![vec![]];
    for c in &r.comp {
        // where the component may start
        let bare = |x: &&Sy| match **x {
            Sy::V(i, j) => ds[i].spans[j].0 != ds[i].spans[j].1,
            Sy::T(_) => true,
        };
        let starts: Vec<usize> = match c.iter().find(bare) {
            Some(Sy::V(i, j)) => vec![ds[*i].spans[*j].0],
            Some(Sy::T(t)) => (0..word.len()).filter(|&k| word[k] == *t).collect(),
            // the place of nothing is anywhere, take one
            None => vec![0],
        };
        let mut here = Vec::new();
        for s in starts {
            let mut at = s;
            let mut ok = true;
            for x in c {
                match x {
                    Sy::V(i, j) => {
                        let (a, b) = ds[*i].spans[*j];
                        ok &= a == at || a == b;
                        if a != b {
                            at = b;
                        }
                    }
                    Sy::T(t) => {
                        ok &= word.get(at) == Some(t);
                        at += 1;
                    }
                }
                if !ok {
                    break;
                }
            }
            if ok {
                here.push((s, at));
            }
        }
        let mut next = Vec::new();
        for a in &all {
            for h in &here {
                let mut b = a.clone();
                b.push(*h);
                next.push(b);
            }
        }
        all = next;
    }
    all
}

/// A word: mostly one the grammar has, sometimes any.
pub fn word(sim: &Sim, g: &G, len: usize) -> Vec<usize> {
    if sim.flip(2, 3) {
        // a random derivation that does not get too long
        let mut budget = 40;
        if let Some(cs) = derive(sim, g, g.init, 0, &mut budget) {
            let w = cs.concat();
            if w.len() <= len && !w.is_empty() {
                return w;
            }
        }
    }
    let n = sim.below(len + 1);
    (0..n).map(|_| sim.below(g.terminals)).collect()
}

fn derive(sim: &Sim, g: &G, a: usize, depth: usize, budget: &mut usize) -> Option<Vec<Vec<usize>>> {
    if *budget == 0 {
        return None;
    }
    *budget -= 1;
    let rs: Vec<&R> = g.rules.iter().filter(|r| r.head == a && (depth < 4 || r.tail.is_empty())).collect();
    if rs.is_empty() {
        return None;
    }
    let r = *sim.pick(&rs);
    let mut kids = Vec::new();
    for &b in &r.tail {
        kids.push(derive(sim, g, b, depth + 1, budget)?);
    }
    Some(
        r.comp
            .iter()
            .map(|c| {
                let mut v = Vec::new();
                for s in c {
                    match s {
                        Sy::T(t) => v.push(*t),
                        Sy::V(i, j) => v.extend_from_slice(&kids[*i][*j]),
                    }
                }
                v
            })
            .collect(),
    )
}
