//! C16: conversions between formalisms, repeated in processes of their own.
use crate::mcfg_gen::{derivations, grammar, nt, te, Opts, Sy, G, R};
use rustomata::grammars::cfg::{CFGRule, LetterT, CFG};
use rustomata::grammars::lcfrs::Lcfrs;
use rustomata::grammars::mcfg::Mcfg;
use rustomata::grammars::pmcfg::{PMCFGRule, VarT, PMCFG};
use simkit::{bail, ensure, ev, world, Check, Sim, Verdict};
use std::collections::{BTreeMap, BTreeSet};

pub const CHECK: Check = Check {
    id: "C16",
    run,
    quick: 400_000,
    thorough: 12_000_000,
    rule: "A run draws a grammar (2-6 nonterminals of fanout 1-3, up to 12 rules, deleted and permuted variables, empty components, cycles, unreachable, unproductive and undefined nonterminals, repeated rules) and converts it 1-3 times in each of 1-3 processes with hash seeds of their own, directly or from text stored by another process; every result is compared rule by rule with the worklist of the definition and derivation by derivation up to a bound. One run in sixty draws up to 40 nonterminals, 90 rules, 40 components and 12 successors, and one in 720 up to 330 nonterminals, 900 rules or 400 successors. Other runs break a linear grammar in one place or convert a grammar of fanout one to a context-free one.",
    real: &["Mcfg -> Lcfrs, Lcfrs::new, Lcfrs -> Mcfg -> PMCFG, Mcfg::from_pmcfg, PMCFG -> CFG", "search, vecmultimap", "grammar texts"],
    stub: &["hash seeds of processes"],
    assumptions: &["grammars are well-formed: consistent fanouts, variables within the tail, initial fanout one"],
    must_reach: &["erased component", "undefined successor", "unreachable rule", "same nonterminal with several erasures", "repeated rule", "derivations compared", "through text", "broken grammar refused", "linear grammar accepted", "context-free", "many rules or components", "hundreds of nonterminals", "hundreds of rules per nonterminal", "hundreds of successors"],
};

type Set = BTreeSet<usize>;
type Ext = (String, Set);
type Key = (Ext, Vec<Ext>, Vec<Vec<VarT<String>>>, u64);

fn key(r: &PMCFGRule<Ext, String, f64>) -> Key {
    (r.head.clone(), r.tail.clone(), r.composition.composition.clone(), r.weight.to_bits())
}

/// The rules that the definition gives, as a multiset.
///
/// None: there are too many pairs of nonterminals and erasures.
fn expected(sim: &Sim, g: &G) -> Option<BTreeMap<Key, usize>> {
    let defined: BTreeSet<usize> = g.rules.iter().map(|r| r.head).collect();
    let mut done: BTreeSet<(usize, Set)> = BTreeSet::new();
    let mut todo = vec![(g.init, Set::new())];
    let mut out = BTreeMap::new();
    while let Some((a, dels)) = todo.pop() {
        if !done.insert((a, dels.clone())) {
            continue;
        }
        if done.len() > 1500 {
            return None;
        }
        for r in g.rules.iter().filter(|r| r.head == a) {
            if r.tail.iter().any(|b| !defined.contains(b)) {
                sim.probe("undefined successor");
                continue;
            }
            let kept: Vec<&Vec<Sy>> =
                (0..r.comp.len()).filter(|c| !dels.contains(c)).map(|c| &r.comp[c]).collect();
            let mut used: BTreeSet<(usize, usize)> = BTreeSet::new();
            for s in kept.iter().flat_map(|c| c.iter()) {
                if let Sy::V(i, j) = s {
                    used.insert((*i, *j));
                }
            }
            let tail_dels: Vec<Set> = r
                .tail
                .iter()
                .enumerate()
                .map(|(i, &b)| (0..g.fan[b]).filter(|&j| !used.contains(&(i, j))).collect())
                .collect();
            sim.probe_if(tail_dels.iter().any(|d| !d.is_empty()), "erased component");
            let comp = kept
                .iter()
                .map(|c| {
                    c.iter()
                        .map(|s| match *s {
                            Sy::T(t) => VarT::T(te(t)),
                            Sy::V(i, j) => {
                                // its rank among the components that are left
                                VarT::Var(i, (0..j).filter(|k| !tail_dels[i].contains(k)).count())
                            }
                        })
                        .collect()
                })
                .collect();
            let tail: Vec<(usize, Set)> = r.tail.iter().cloned().zip(tail_dels).collect();
            todo.extend(tail.iter().cloned());
            let k = (
                (nt(a), dels.clone()),
                tail.into_iter().map(|(b, d)| (nt(b), d)).collect(),
                comp,
                (f64::from(r.w) / 16.0).to_bits(),
            );
            *out.entry(k).or_insert(0) += 1;
        }
    }
    let mut by_nt: BTreeMap<usize, usize> = BTreeMap::new();
    for (a, _) in &done {
        *by_nt.entry(*a).or_insert(0) += 1;
    }
    sim.probe_if(by_nt.values().any(|&n| n > 1), "same nonterminal with several erasures");
    sim.probe_if(g.rules.iter().any(|r| !by_nt.contains_key(&r.head)), "unreachable rule");
    Some(out)
}

fn run(sim: &Sim) -> Verdict {
    match sim.below(8) {
        0 => broken(sim),
        1 => context_free(sim),
        _ => erasing(sim),
    }
}

/// Rarely, many nonterminals, rules, successors and components.
fn wide(sim: &Sim) -> Opts {
    if sim.flip(1, 12) {
        // one dimension beyond the usual sizes of tables
        let d = sim.below(3);
        sim.probe(["hundreds of nonterminals", "hundreds of rules per nonterminal", "hundreds of successors"][d]);
        let n = if d == 0 { sim.range(250, 330) } else { sim.range(1, 3) };
        return Opts {
            nonterminals: (n, n),
            terminals: sim.range(1, 26),
            rules: if d == 1 { (200, 900) } else { (1, 10) },
            max_fan: 2,
            max_tail: if d == 2 { 400 } else { 2 },
            deleting: !sim.flip(1, 3),
            empty: true,
            undefined: false,
            normal: false,
            repeats: true,
            ordered: false,
            ties: sim.flip(1, 2),
        };
    }
    let n = *sim.pick(&[2, 5, 12, 40]);
    let fan = *sim.pick(&[1, 2, 4, 9, 14, 40]);
    Opts {
        nonterminals: (n / 2, n),
        terminals: sim.range(1, 26),
        rules: (0, sim.range(1, 90)),
        max_fan: fan,
        max_tail: sim.range(1, if fan > 4 { 3 } else { 12 }),
        deleting: !sim.flip(1, 3),
        empty: true,
        undefined: sim.flip(1, 3),
        normal: false,
        repeats: true,
        ordered: sim.flip(1, 3),
        ties: sim.flip(1, 2),
    }
}

fn opts(sim: &Sim) -> Opts {
    if sim.flip(1, 60) {
        sim.probe("many rules or components");
        return wide(sim);
    }
    Opts {
        nonterminals: (1, sim.range(1, 6)),
        terminals: 2,
        rules: (0, sim.range(1, 12)),
        max_fan: sim.range(1, 3),
        max_tail: sim.range(1, 3),
        deleting: !sim.flip(1, 3),
        empty: true,
        undefined: sim.flip(1, 3),
        normal: false,
        repeats: true,
        ordered: false,
        ties: sim.flip(1, 2),
    }
}

fn erasing(sim: &Sim) -> Verdict {
    let g = grammar(sim, &opts(sim));
    if g.rules.is_empty() {
        return Ok(());
    }
    ev!(sim, "grammar {}", g.show());
    sim.shape(g.show().as_bytes());
    let want = match expected(sim, &g) {
        None => return Ok(()),
        Some(w) => w,
    };
    let defined: BTreeSet<usize> = g.rules.iter().map(|r| r.head).collect();
    sim.probe_if(
        g.rules.iter().enumerate().any(|(i, r)| g.rules[..i].iter().any(|s| (s.head, &s.tail, &s.comp) == (r.head, &r.tail, &r.comp))),
        "repeated rule",
    );
    let text = if sim.flip(1, 3) && !want.is_empty() {
        let g2 = g.clone();
        match world::task(sim, sim.seed(), move || g2.pmcfg(|w| w).to_string()) {
            Ok(t) => Some(t),
            Err(e) => bail!("panic", "printing the grammar: {}", e),
        }
    } else {
        None
    };
    sim.probe_if(text.is_some(), "through text");
    let nodes = sim.range(3, 6);
    let before = derivations(&g.rules, &g.init, nodes, usize::MAX, 400).map(|ds| {
        let mut v: Vec<(Vec<Vec<usize>>, u64)> =
            ds.into_iter().map(|d| (d.comps, d.w.to_bits())).collect();
        v.sort();
        v
    });
    let processes = sim.range(1, 3);
    for p in 0..processes {
        let times = sim.range(1, 3);
        let seed = world::boot(sim, p);
        let (g2, text2) = (g.clone(), text.clone());
        let res = world::task(sim, seed, move || {
            let mcfg = match text2 {
                None => Mcfg::new(g2.pmcfg_rules(|w| w), nt(g2.init)),
                Some(t) => {
                    let p: PMCFG<String, String, f64> = t.parse().map_err(|e| format!("{:?}", e))?;
                    Mcfg::from_pmcfg(p).ok_or_else(|| "not linear".to_string())?
                }
            };
            let mut out = Vec::new();
            for _ in 0..times {
                let l: Lcfrs<Ext, String, f64> = mcfg.clone().into();
                // the way back keeps everything
                let m: Mcfg<Ext, String, f64> = l.clone().into();
                let back: PMCFG<Ext, String, f64> = m.into();
                let (rules, init) = l.destruct();
                let same = back.initial == vec![init.clone()]
                    && back.rules.iter().map(key).collect::<Vec<_>>() == rules.iter().map(key).collect::<Vec<_>>();
                out.push((rules, init, same));
            }
            Ok::<_, String>(out)
        });
        let out = match res {
            Err(e) => bail!("panic", "converting {}: {}", g.show(), e),
            Ok(Err(e)) => bail!("text", "the stored grammar cannot be read: {}", e),
            Ok(Ok(o)) => o,
        };
        for (rules, init, same) in out {
            ev!(sim, "process {}: {} rules", p, rules.len());
            ensure!(init == (nt(g.init), Set::new()), "initial", "initial nonterminal {:?}", init);
            ensure!(same, "back", "rules or initial change on the way back to a general grammar");
            let mut got: BTreeMap<Key, usize> = BTreeMap::new();
            for r in &rules {
                // useless rules with undefined successors may stay
                if r.tail.iter().any(|(b, _)| !defined.iter().any(|&d| nt(d) == *b)) {
                    continue;
                }
                *got.entry(key(r)).or_insert(0) += 1;
            }
            for (k, n) in &want {
                let m = got.get(k).cloned().unwrap_or(0);
                ensure!(m >= *n, "missing", "rule {:?} occurs {} times instead of {}", k, m, n);
            }
            for (k, n) in &got {
                let m = want.get(k).cloned().unwrap_or(0);
                ensure!(*n <= m, "superfluous", "rule {:?} occurs {} times instead of {}", k, n, m);
            }
            if let Some(b) = &before {
                if let Some(ds) = derivations(&rules, &init, nodes, usize::MAX, 400) {
                    let mut v: Vec<(Vec<Vec<usize>>, u64)> =
                        ds.into_iter().map(|d| (d.comps, d.w.to_bits())).collect();
                    v.sort();
                    sim.probe_if(!v.is_empty(), "derivations compared");
                    ensure!(v == *b, "derivations", "yields and weights of derivations with up to {} rules differ: {:?} before, {:?} after", nodes, b, v);
                }
            }
        }
    }
    Ok(())
}

/// Consistency as `Lcfrs::new` states it; None: not stated.
fn consistent(rules: &[R], init: usize) -> Option<bool> {
    let mut fan: BTreeMap<usize, usize> = BTreeMap::new();
    for r in rules {
        if *fan.entry(r.head).or_insert(r.comp.len()) != r.comp.len() {
            return Some(false);
        }
    }
    if fan.get(&init) != Some(&1) {
        return Some(false);
    }
    let mut open = false;
    for r in rules {
        if r.tail.iter().any(|b| !fan.contains_key(b)) {
            open = true;
            continue;
        }
        let mut vars: Vec<(usize, usize)> = Vec::new();
        for s in r.comp.iter().flat_map(|c| c.iter()) {
            if let Sy::V(i, j) = s {
                vars.push((*i, *j));
            }
        }
        vars.sort();
        let all: Vec<(usize, usize)> = r
            .tail
            .iter()
            .enumerate()
            .flat_map(|(i, b)| (0..fan[b]).map(move |j| (i, j)))
            .collect();
        if vars != all {
            return Some(false);
        }
    }
    if open {
        None
    } else {
        Some(true)
    }
}

fn broken(sim: &Sim) -> Verdict {
    let mut o = opts(sim);
    o.deleting = false;
    o.undefined = sim.flip(1, 6);
    let mut g = grammar(sim, &o);
    if g.rules.is_empty() {
        return Ok(());
    }
    let hurt = sim.below(3);
    for _ in 0..hurt {
        let at = sim.below(g.rules.len());
        let r = &mut g.rules[at];
        let slots: Vec<(usize, usize)> = r
            .comp
            .iter()
            .enumerate()
            .flat_map(|(c, v)| (0..v.len()).map(move |k| (c, k)))
            .filter(|&(c, k)| if let Sy::V(..) = r.comp[c][k] { true } else { false })
            .collect();
        match sim.below(5) {
            0 => {
                let t = sim.below(g.fan.len());
                r.tail.push(t);
            }
            1 => r.comp.push(vec![Sy::T(0)]),
            2 if !slots.is_empty() => {
                let (c, k) = *sim.pick(&slots);
                let v = r.comp[c][k].clone();
                r.comp[c].push(v);
            }
            3 if !slots.is_empty() => {
                let (c, k) = *sim.pick(&slots);
                r.comp[c].remove(k);
            }
            4 => {
                let far = *sim.pick(&[0, 1, 7, 1 << 40, usize::MAX - 3]);
                let n = if sim.flip(1, 2) { Sy::V(r.tail.len().saturating_add(far), 0) } else { Sy::V(0, far) };
                let c = sim.below(r.comp.len());
                r.comp[c].push(n);
            }
            _ => g.init = sim.below(g.fan.len()),
        }
    }
    let want = consistent(&g.rules, g.init);
    ev!(sim, "initial {}, {} consistent: {:?}", g.init, g.show(), want);
    sim.step(0, "check");
    let g2 = g.clone();
    let res = world::task(sim, sim.seed(), move || {
        Lcfrs::new(g2.pmcfg_rules(|w| w), nt(g2.init)).map(|l| {
            let nf = l.in_normal_form();
            let (r, i) = l.destruct();
            (r == g2.pmcfg_rules(|w| w), i == nt(g2.init), nf)
        })
    });
    let got = match res {
        Err(e) => bail!("panic", "checking {}: {}", g.show(), e),
        Ok(x) => x,
    };
    match want {
        Some(c) => {
            ensure!(got.is_some() == c, "consistency", "accepted: {}, consistent: {}: {}", got.is_some(), c, g.show());
            sim.probe(if c { "linear grammar accepted" } else { "broken grammar refused" });
        }
        None => sim.probe("undefined successor checked"),
    }
    if let Some((rules, init, nf)) = got {
        ensure!(rules && init, "kept", "accepted grammar has other rules or another initial");
        let want_nf = g.rules.iter().all(|r| {
            r.comp.iter().all(|c| !c.is_empty())
                && (r.comp.iter().flat_map(|c| c.iter()).all(|s| if let Sy::V(..) = s { true } else { false })
                    || (r.comp.len() == 1 && r.comp[0].len() == 1))
        });
        ensure!(nf == want_nf, "normal form", "normal form: {} instead of {}", nf, want_nf);
    }
    // linearity of general grammars
    let g2 = g.clone();
    let more = sim.flip(1, 8);
    let res = world::task(sim, sim.seed(), move || {
        let mut p = g2.pmcfg(|w| w);
        if more {
            p.initial.push(nt(1));
        }
        Mcfg::from_pmcfg(p).map(|m| {
            let (r, i) = m.destruct();
            (r == g2.pmcfg_rules(|w| w), i == nt(g2.init))
        })
    });
    let linear = g.rules.iter().all(|r| {
        let mut seen = BTreeSet::new();
        r.comp.iter().flat_map(|c| c.iter()).all(|s| match s {
            Sy::V(i, j) => seen.insert((*i, *j)),
            _ => true,
        })
    });
    match res {
        Err(e) => bail!("panic", "Mcfg::from_pmcfg of {}: {}", g.show(), e),
        Ok(None) => ensure!(!linear || more, "linearity", "a linear grammar is refused: {}", g.show()),
        Ok(Some((r, i))) => {
            ensure!(linear && !more, "linearity", "accepted as linear with one initial: {}", g.show());
            ensure!(r && i, "kept", "accepted grammar has other rules or another initial");
        }
    }
    Ok(())
}

fn context_free(sim: &Sim) -> Verdict {
    let mut o = opts(sim);
    o.max_fan = 1;
    let g = grammar(sim, &o);
    ev!(sim, "grammar {}", g.show());
    sim.shape(g.show().as_bytes());
    let processes = sim.range(1, 2);
    for p in 0..processes {
        let seed = world::boot(sim, p);
        let g2 = g.clone();
        let res = world::task(sim, seed, move || {
            let c: CFG<String, String, u64> = g2.pmcfg(f64::to_bits).into();
            (c.initial.clone(), c.rules.iter().map(shape).collect::<Vec<_>>())
        });
        let (init, rules) = match res {
            Err(e) => bail!("panic", "converting {}: {}", g.show(), e),
            Ok(x) => x,
        };
        ensure!(init == vec![nt(g.init)], "initial", "initial nonterminals {:?}", init);
        let want: Vec<_> = g.rules.iter().map(|r| shape(&r.cfg(f64::to_bits))).collect();
        ensure!(rules == want, "context-free", "{:?} instead of {:?}", rules, want);
        sim.probe_if(rules.len() > 2, "context-free");
    }
    Ok(())
}

fn shape(r: &CFGRule<String, String, u64>) -> (String, Vec<LetterT<String, String>>, u64) {
    (r.head.clone(), r.composition.composition.clone(), r.weight)
}
