//! C11: the commands for grammars, automata and approximations.
use crate::machine::{Machine, W};
use crate::mcfg_gen::{grammar, nt, te, Opts, G};
use crate::recognition::{draw_ts, flat_machine, opts, plain, relabel_machine, show, ways, words, CfS, Draft};
use crate::streams::{calm, command, prefix, some_offset, Source};
use rustomata::approximation::equivalence_classes::EquivalenceRelation;
use rustomata::approximation::relabel::RlbElement;
use rustomata::approximation::tts::TTSElement;
use rustomata::approximation::ApproximationStrategy;
use rustomata::automata::push_down_automaton::{PushDownAutomaton, PushState};
use rustomata::automata::tree_stack_automaton::TreeStackAutomaton;
use rustomata::grammars::cfg::CFG;
use rustomata::grammars::pmcfg::PMCFG;
use rustomata::recognisable::Recognisable;
use simkit::world::Spec;
use simkit::{bail, ensure, ev, world, Check, Sim, Verdict, Violation};
use std::collections::BTreeMap;

pub const CHECK: Check = Check {
    id: "C11",
    run,
    quick: 40_000,
    thorough: 4_000_000,
    rule: "A run draws one of the commands cfg, mcfg, tsa and approximation with its options, the grammar, automaton or class files it reads and a corpus of 0-5, at times up to 300 lines, and starts it in processes of their own: once undisturbed, then with streams and files cut at drawn places, interrupted calls, errors and kills at drawn bytes, missing files and bytes that are no text. The undisturbed output is compared with what the library enumerates for every line in a further process (for NeGra output with an enumeration of all derivations), disturbed output with the undisturbed one.",
    real: &["handle_sub_matches of src/bin/cfg.rs, pmcfg.rs, tree_stack_automata.rs, approximation.rs", "readers, conversions, automata, approximations, recognition, printing", "clap; std's buffered streams and hash maps"],
    stub: &["system calls read, write, open, getrandom", "integeriser crate"],
    assumptions: &["finitely many runs for every word, weights in (0, 1]", "components of a PMCFG successor are visited in order (assumed by the conversion)", "NeGra output: rules have variables only or one terminal, no terminal rule for the initial nonterminal", "the order of runs of equal weight is open"],
    must_reach: &["cfg parse", "cfg automaton", "mcfg parse", "mcfg automaton", "NeGra", "tsa recognise", "coarse to fine", "relabel parse", "relabel automaton", "tts parse", "tts automaton", "several results", "no result", "with beam", "with wide beam", "long corpus", "cut by n", "disturbed stream", "file failed", "input failed", "output failed", "killed", "file missing", "not UTF-8"],
};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Cfg,
    Mcfg { negra: bool },
    Tsa { fine: bool },
    Relabel,
    Tts,
}

/// The output that belongs to one line of input.
struct Part {
    head: String,
    /// weights and texts of everything there is
    all: Vec<(f64, String)>,
    foot: String,
}

struct Job {
    kind: Kind,
    automaton: bool,
    args: Vec<String>,
    files: BTreeMap<String, Vec<u8>>,
    stdin: Vec<u8>,
    parts: Vec<Part>,
    /// most results of a line
    n: usize,
    beam: bool,
    narrow: bool,
    ordered: bool,
    /// there is an empty line
    empty: bool,
    /// the lines of a printed automaton
    lines: Vec<String>,
}

fn s(x: &str) -> String {
    x.to_string()
}

const CAP: usize = 800;

fn negra_opts(sim: &Sim) -> Opts {
    Opts { normal: true, empty: false, undefined: false, ..opts(sim, false) }
}

fn draft(sim: &Sim, kind: Kind) -> Option<Draft> {
    Some(match kind {
        Kind::Cfg | Kind::Relabel => Draft::Cfg(grammar(sim, &opts(sim, true))),
        Kind::Mcfg { negra: true } => {
            let mut g = grammar(sim, &negra_opts(sim));
            let init = g.init;
            g.rules.retain(|r| r.head != init || !r.tail.is_empty());
            Draft::Pmcfg(g)
        }
        Kind::Mcfg { .. } | Kind::Tts => Draft::Pmcfg(grammar(sim, &opts(sim, false))),
        Kind::Tsa { .. } => draw_ts(sim),
    })
}

fn text(d: &Draft) -> String {
    match d {
        Draft::Cfg(g) => {
            let g = g.cfg(|w| w);
            format!("initial: [{}]\n\n{}", g.initial.join(", "), g.rules.iter().map(|r| format!("{}\n", r)).collect::<String>())
        }
        Draft::Pmcfg(g) => g.pmcfg(|w| w).to_string(),
        Draft::Ts(ts, i) => {
            let mut t = format!("initial: {}\n\n", i);
            for x in ts {
                t.push_str(&format!("{}\n", x));
            }
            t
        }
        _ => unreachable!(),
    }
}

fn classes(sim: &Sim, g: &G) -> String {
    let mut t = String::new();
    let k = sim.range(0, 3);
    let mut of: Vec<Vec<String>> = vec![vec![]; k + 1];
    for a in 0..g.fan.len() {
        of[sim.below(k + 1)].push(nt(a));
    }
    for (i, c) in of[..k].iter().enumerate() {
        t.push_str(&format!("K{} [{}]\n", i, c.join(", ")));
    }
    t.push_str("rest *\n");
    t
}

fn project(ps: &CfS, e: &EquivalenceRelation<String, String>) -> CfS {
    ps.map(|n| e.project(n))
}

/// The symbols of the automaton of a context-free grammar, and their classes.
fn table(g: &G, e: &EquivalenceRelation<String, String>) -> BTreeMap<String, String> {
    let mut all: Vec<CfS> = vec![PushState::Designated, PushState::Initial];
    all.extend((0..g.fan.len()).map(|i| PushState::Nt(nt(i))));
    all.extend((0..g.terminals).map(|i| PushState::T(te(i))));
    all.iter().map(|x| (format!("{:?}", x), format!("{:?}", project(x, e)))).collect()
}

fn job(sim: &Sim) -> Result<Option<Job>, Violation> {
    let kind = *sim.pick(&[
        Kind::Cfg,
        Kind::Mcfg { negra: false },
        Kind::Mcfg { negra: true },
        Kind::Tsa { fine: false },
        Kind::Tsa { fine: true },
        Kind::Relabel,
        Kind::Tts,
    ]);
    for _ in 0..8 {
        let d = match draft(sim, kind) {
            Some(d) => d,
            None => continue,
        };
        if let Some(j) = job_for(sim, kind, &d)? {
            return Ok(Some(j));
        }
    }
    Ok(None)
}

fn job_for(sim: &Sim, kind: Kind, d: &Draft) -> Result<Option<Job>, Violation> {
    let m: Machine = match plain(sim, d)? {
        Some(m) => m,
        None => return Ok(None),
    };
    let automaton = !matches!(kind, Kind::Tsa { .. }) && sim.flip(1, 5);
    let mut files = BTreeMap::new();
    files.insert(s("/simfs/grammar"), text(d).into_bytes());
    let mut coarse = None;
    if let (Kind::Relabel, Draft::Cfg(g)) = (kind, d) {
        let c = classes(sim, g);
        let e: EquivalenceRelation<String, String> = match c.parse() {
            Ok(e) => e,
            Err(e) => bail!("classes", "{:?} cannot be read: {}", c, e),
        };
        let t = table(g, &e);
        coarse = Some(relabel_machine(&m, &|x| t[x].clone()));
        files.insert(s("/simfs/classes"), c.into_bytes());
    }
    if let Kind::Tts | Kind::Tsa { fine: true } = kind {
        if m.trs.is_empty() {
            return Ok(None);
        }
        coarse = Some(flat_machine(&m));
    }
    let mut ws: Vec<Vec<String>> = Vec::new();
    let mut total = 0.0;
    if !automaton {
        for w in (0..2).flat_map(|_| words(sim, d, &m)).collect::<Vec<_>>() {
            let ok = m.runs(&w, CAP).is_some()
                && coarse.as_ref().map_or(true, |c| match c.runs(&w, CAP) {
                    Some(rs) => {
                        if let Kind::Tsa { .. } = kind {
                            total += rs.iter().map(|r| ways(r, &m, &flat_machine)).sum::<f64>();
                        }
                        total < 1000.0
                    }
                    None => false,
                });
            if ok {
                ws.push(w);
            }
        }
        ws.truncate(sim.below(6));
        if kind == (Kind::Mcfg { negra: true }) && sim.flip(7, 8) {
            ws.retain(|w| !w.is_empty());
        }
        if ws.is_empty() && sim.flip(9, 10) {
            return Ok(None);
        }
        if !ws.is_empty() && kind != (Kind::Tsa { fine: true }) && sim.flip(1, 60) {
            // a long corpus
            let n = *sim.pick(&[12, 70, 300]);
            ws = (0..n).map(|_| sim.pick(&ws).clone()).collect();
            sim.probe("long corpus");
        }
    }
    ev!(sim, "{:?} {}", kind, show(d));
    ev!(sim, "{:?}", files.iter().map(|(k, v)| (k, String::from_utf8_lossy(v).to_string())).collect::<Vec<_>>());
    sim.shape(show(d).as_bytes());
    // the corpus
    let gap = |sim: &Sim| *sim.pick(&[" ", " ", " ", "  ", "\t", "\u{a0}"]);
    let mut raw = Vec::new();
    for w in &ws {
        let mut l = s("");
        for (i, t) in w.iter().enumerate() {
            if i > 0 || sim.flip(1, 8) {
                l.push_str(gap(sim));
            }
            l.push_str(t);
        }
        raw.push(l);
    }
    let mut stdin = s("");
    for (i, l) in raw.iter().enumerate() {
        stdin.push_str(l);
        if i + 1 < raw.len() || l.is_empty() || sim.flip(3, 4) {
            stdin.push_str(if sim.flip(1, 6) { "\r\n" } else { "\n" });
        }
    }
    ev!(sim, "corpus {:?}", stdin);
    // options
    let mut groups: Vec<Vec<String>> = Vec::new();
    let mut n = 1;
    let mut beam = None;
    let own = matches!(kind, Kind::Cfg | Kind::Mcfg { .. } | Kind::Tsa { .. });
    if own && !automaton {
        if sim.flip(4, 5) {
            n = *sim.pick(&[1, 2, 5, 1000, 1000, 0]);
            groups.push(vec![s(if sim.flip(1, 2) { "-n" } else { "--number" }), n.to_string()]);
        }
        if sim.flip(1, 5) && kind != (Kind::Tsa { fine: true }) {
            // at times so wide that it cuts nothing
            beam = Some(if sim.flip(1, 2) { sim.range(0, 6) } else { *sim.pick(&[100_000, usize::max_value()]) });
            groups.push(vec![s("--beam"), beam.unwrap().to_string()]);
        }
    }
    let mut args: Vec<String> = match kind {
        Kind::Cfg => vec![s("cfg")],
        Kind::Mcfg { negra } => {
            if negra && !automaton {
                groups.push(vec![s("--negra")]);
            }
            vec![s("mcfg")]
        }
        Kind::Tsa { fine } => {
            if fine {
                groups.push(vec![s("--coarse-to-fine"), s("tts")]);
            }
            vec![s("tsa"), s("recognise")]
        }
        Kind::Relabel => vec![s("approximation"), s("relabel")],
        Kind::Tts => vec![s("approximation"), s("tts")],
    };
    if !matches!(kind, Kind::Tsa { .. }) {
        args.push(s(if automaton { "automaton" } else { "parse" }));
    }
    let mut pos = vec![s("/simfs/grammar")];
    if kind == Kind::Relabel {
        pos.insert(0, s("/simfs/classes"));
    }
    groups.push(pos);
    sim.shuffle(&mut groups);
    args.extend(groups.concat());
    // what the library has
    let seed = sim.seed();
    let r = world::task(sim, seed, || library(kind, d, &files, &ws, automaton));
    let (lists, lines) = match r {
        Ok(x) => x,
        Err(e) => bail!("panic", "the library, for {}: {}", show(d), e),
    };
    let merges = matches!(kind, Kind::Relabel | Kind::Tts);
    let round = |t: String| if merges { rounded(&t) } else { t };
    let mut lines: Vec<String> = lines.into_iter().map(&round).collect();
    lines.sort();
    let mut parts = Vec::new();
    for (i, all) in lists.into_iter().enumerate() {
        let part = match kind {
            Kind::Cfg => Part { head: s(""), all, foot: s("\n") },
            Kind::Mcfg { negra: false } => Part { head: s(""), all, foot: s("\n") },
            Kind::Mcfg { negra: true } => {
                let g = match d {
                    Draft::Pmcfg(g) => g.clone(),
                    _ => unreachable!(),
                };
                let ws2: Vec<f64> = g.rules.iter().map(|r| f64::from(r.w) / 16.0).collect();
                let t: Vec<usize> = ws[i].iter().map(|t| (0..g.terminals).find(|&x| te(x) == *t).unwrap_or(g.terminals + 1)).collect();
                let src = Source { g, disco: false, ws: ws2, args: vec![], stdin: vec![], disk: BTreeMap::new() };
                match src.derivations(&t, &|r| src.tree(r, i + 1, &ws[i])) {
                    Some(all) => Part { head: s(""), all, foot: s("\n") },
                    None => return Ok(None),
                }
            }
            Kind::Tsa { .. } => Part { head: format!("{:?}:\n", ws[i]), all: all.into_iter().map(|(w, t)| (w, format!("  {}\n", t))).collect(), foot: s("\n") },
            Kind::Relabel | Kind::Tts => Part {
                head: s(""),
                all: if all.is_empty() { vec![(0.0, format!("None: {}\n", raw[i]))] } else { all.into_iter().map(|(w, t)| (w, format!("{}: {}\n", t, raw[i]))).collect() },
                foot: s(""),
            },
        };
        parts.push(Part { head: round(part.head), all: part.all.into_iter().map(|(w, t)| (w, round(t))).collect(), foot: part.foot });
    }
    sim.probe(match (kind, automaton) {
        (Kind::Cfg, false) => "cfg parse",
        (Kind::Cfg, true) => "cfg automaton",
        (Kind::Mcfg { .. }, true) => "mcfg automaton",
        (Kind::Mcfg { negra: false }, _) => "mcfg parse",
        (Kind::Mcfg { .. }, _) => "NeGra",
        (Kind::Tsa { fine: false }, _) => "tsa recognise",
        (Kind::Tsa { .. }, _) => "coarse to fine",
        (Kind::Relabel, false) => "relabel parse",
        (Kind::Relabel, true) => "relabel automaton",
        (Kind::Tts, false) => "tts parse",
        (Kind::Tts, true) => "tts automaton",
    });
    Ok(Some(Job {
        kind,
        automaton,
        args,
        files,
        stdin: if automaton { vec![] } else { stdin.into_bytes() },
        parts,
        n,
        beam: beam.is_some(),
        narrow: beam.map_or(false, |b| b < 10),
        empty: !automaton && ws.iter().any(|w| w.is_empty()),
        ordered: kind != (Kind::Tsa { fine: true }),
        lines,
    }))
}

type Lists = (Vec<Vec<(f64, String)>>, Vec<String>);

/// What the library enumerates and prints.
fn library(kind: Kind, d: &Draft, files: &BTreeMap<String, Vec<u8>>, ws: &[Vec<String>], automaton: bool) -> Lists {
    let text = |f: &str| String::from_utf8(files[f].clone()).expect("text");
    let all = |f: &dyn Fn(Vec<String>) -> Vec<(f64, String)>| -> Vec<Vec<(f64, String)>> { ws.iter().map(|w| f(w.clone())).collect() };
    let lines = |t: String| -> Vec<String> {
        let mut v: Vec<String> = t.lines().map(String::from).collect();
        v.sort();
        v
    };
    match kind {
        Kind::Cfg => {
            let g: CFG<String, String, W> = text("/simfs/grammar").parse().expect("grammar");
            let a = PushDownAutomaton::from(g);
            (all(&|w| a.recognise(w).map(|i| (i.0.weight.value(), format!("{:?}\n", i.0))).collect()), if automaton { lines(a.to_string()) } else { vec![] })
        }
        Kind::Mcfg { .. } => {
            let g: PMCFG<String, String, W> = text("/simfs/grammar").parse().expect("grammar");
            let a = TreeStackAutomaton::from(g);
            (all(&|w| a.recognise(w).map(|i| (i.0.weight.value(), format!("{}\n", i.0))).collect()), if automaton { lines(a.to_string()) } else { vec![] })
        }
        Kind::Tsa { .. } => {
            let (ts, i) = match d {
                Draft::Ts(ts, i) => (ts.clone(), i.clone()),
                _ => unreachable!(),
            };
            let a = TreeStackAutomaton::new(ts, rustomata::automata::tree_stack_automaton::TreeStack::new(i));
            (all(&|w| a.recognise(w).map(|i| (i.0.weight.value(), format!("{:?}", i.1))).collect()), vec![])
        }
        Kind::Relabel => {
            let g: CFG<String, String, W> = text("/simfs/grammar").parse().expect("grammar");
            let e: EquivalenceRelation<String, String> = text("/simfs/classes").parse().expect("classes");
            let a = PushDownAutomaton::from(g);
            let f = |x: &CfS| project(x, &e);
            let (b, _) = RlbElement::new(&f).approximate_automaton(&a);
            (all(&|w| b.recognise(w).map(|i| (i.0.weight.value(), format!("{:?}", Some(i)))).collect()), if automaton { lines(b.to_string()) } else { vec![] })
        }
        Kind::Tts => {
            let g: PMCFG<String, String, W> = text("/simfs/grammar").parse().expect("grammar");
            let a = TreeStackAutomaton::from(g);
            let (b, _) = TTSElement::new().approximate_automaton(&a);
            (all(&|w| b.recognise(w).map(|i| (i.0.weight.value(), format!("{:?}", Some(i)))).collect()), if automaton { lines(b.to_string()) } else { vec![] })
        }
    }
}

/// The text with its numbers rounded: merged weights are added up in no fixed order.
fn rounded(text: &str) -> String {
    let mut out = s("");
    let mut rest = text;
    while let Some(at) = rest.find(|c: char| c.is_ascii_digit()) {
        let at = if rest[..at].ends_with('-') { at - 1 } else { at };
        out.push_str(&rest[..at]);
        rest = &rest[at..];
        let digits = |t: &str| t.bytes().take_while(u8::is_ascii_digit).count();
        let mut n = 1 + digits(&rest[1..]);
        if rest[n..].starts_with('.') && digits(&rest[n + 1..]) > 0 {
            n += 1 + digits(&rest[n + 1..]);
            for e in &["e-", "e"] {
                if rest[n..].starts_with(e) && digits(&rest[n + e.len()..]) > 0 {
                    n += e.len() + digits(&rest[n + e.len()..]);
                    break;
                }
            }
        }
        match rest[..n].parse::<f64>() {
            // no short fraction is at the edge of a step
            Ok(x) => out.push_str(&format!("<{}>", (x * 1e9 / std::f64::consts::PI).round() as i64)),
            Err(_) => out.push_str(&rest[..n]),
        }
        rest = &rest[n..];
    }
    out + rest
}

fn check_output(sim: &Sim, j: &Job, out: &[u8]) -> Verdict {
    let text = match std::str::from_utf8(out) {
        Ok(t) => t,
        Err(_) => bail!("output", "the output is not UTF-8"),
    };
    let merged;
    let text = match j.kind {
        Kind::Relabel | Kind::Tts => {
            merged = rounded(text);
            &merged
        }
        _ => text,
    };
    if j.automaton {
        let mut got: Vec<&str> = text.lines().collect();
        let first = got.first().cloned().unwrap_or("");
        let want = match j.kind {
            Kind::Mcfg { .. } => "initial: I",
            Kind::Tts => "initial: stack: [I], empty:I",
            _ => "initial: stack: [@ I], empty:@",
        };
        ensure!(first == want, "initial", "the automaton begins with {:?}", first);
        got.sort();
        let mut want: Vec<&String> = j.lines.iter().collect();
        // println! adds the end of a line, the automaton has one
        let n = got.iter().filter(|l| l.is_empty()).count();
        got.retain(|l| !l.is_empty());
        want.retain(|l| !l.is_empty());
        ensure!(n > 0 && got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| a == b), "automaton", "printed {:?}, the library has {:?}", got, want);
        return Ok(());
    }
    let mut rest = text;
    for (i, p) in j.parts.iter().enumerate() {
        ensure!(rest.starts_with(&p.head), "head", "line {}: {:?} does not begin with {:?}", i, rest, p.head);
        rest = &rest[p.head.len()..];
        let mut left: Vec<&(f64, String)> = p.all.iter().collect();
        let mut last = f64::INFINITY;
        let mut k = 0;
        while k < j.n {
            let fits = |w: f64| if j.narrow { w <= last * (1.0 + 1e-9) } else { !j.ordered || (w - p.all[k].0).abs() <= 1e-9 * w };
            let mut best: Option<usize> = None;
            for (x, a) in left.iter().enumerate() {
                if rest.starts_with(&a.1) && fits(a.0) && best.map_or(true, |b| left[b].1.len() < a.1.len()) {
                    best = Some(x);
                }
            }
            match best {
                Some(x) => {
                    let a = left.remove(x);
                    last = a.0;
                    rest = &rest[a.1.len()..];
                    k += 1;
                }
                None => break,
            }
        }
        if !j.narrow {
            ensure!(k == j.n.min(p.all.len()), "results", "line {}: {} results instead of {}, then {:?}; there are {:?}", i, k, j.n.min(p.all.len()), rest, p.all);
        }
        ensure!(rest.starts_with(&p.foot), "foot", "line {}: {:?} after {} results; there are {:?}", i, rest, k, p.all);
        rest = &rest[p.foot.len()..];
        sim.probe_if(k > 1, "several results");
        sim.probe_if(p.all.is_empty(), "no result");
        sim.probe_if(p.all.len() > j.n, "cut by n");
    }
    ensure!(rest.is_empty(), "rest", "{:?} is too much", rest);
    Ok(())
}

fn run(sim: &Sim) -> Verdict {
    let j = match job(sim)? {
        Some(j) => j,
        None => return Ok(()),
    };
    sim.probe_if(j.beam, "with beam");
    sim.probe_if(j.beam && !j.narrow, "with wide beam");
    let seed = world::boot(sim, 0);
    let spec = |seed: u64| Spec { hash_seed: seed, stdin: j.stdin.clone(), disk: j.files.clone(), ..Spec::default() };
    sim.step(0, "start");
    let x = command(sim, 0, &j.args, spec(seed));
    if let Err(e) = x.result {
        if j.kind == (Kind::Mcfg { negra: true }) && j.empty {
            sim.known("empty run", "mcfg parse --negra panics at an empty line, whose empty run has no derivation");
            return Ok(());
        }
        bail!("failed", "{:?} fails: {}", j.args, e);
    }
    check_output(sim, &j, &x.stdout)?;
    let good = x.stdout;
    for p in 1..1 + sim.range(1, 3) {
        let mut sp = spec(seed);
        sp.stdin_plan = calm(sim);
        sp.stdout_plan = calm(sim);
        let names: Vec<String> = j.files.keys().cloned().collect();
        for f in &names {
            sp.file_plans.insert(f.clone(), calm(sim));
        }
        let file = sim.pick(&names).clone();
        let kind = sim.below(8);
        let mut refuse = false;
        match kind {
            0 => {
                // elsewhere
                sp.hash_seed = world::boot(sim, p);
                sim.step(p, "start");
                let x = command(sim, p, &j.args, sp);
                if let Err(e) = x.result {
                    bail!("failed", "{:?} fails in another process: {}", j.args, e);
                }
                check_output(sim, &j, &x.stdout)?;
                continue;
            }
            1 => (),
            2 => sp.stdin_plan.fail_at = Some((some_offset(sim, j.stdin.len()), 5)),
            3 => sp.stdout_plan.fail_at = Some((some_offset(sim, good.len()), *sim.pick(&[28, 5, 32]))),
            4 => sp.stdout_plan.kill_at = Some(some_offset(sim, good.len())),
            5 => sp.file_plans.get_mut(&file).unwrap().fail_at = Some((some_offset(sim, j.files[&file].len()), 5)),
            6 => {
                sp.disk.remove(&file);
                sim.fault("file missing");
                refuse = true;
            }
            _ => {
                // bytes that are no text
                if j.automaton || sim.flip(1, 2) {
                    let f = sp.disk.get_mut(&file).unwrap();
                    let at = sim.below(f.len() + 1);
                    f.insert(at, 0xff);
                } else {
                    let at = sim.below(sp.stdin.len() + 1);
                    sp.stdin.insert(at, 0xff);
                }
                sim.fault("bytes changed");
                refuse = true;
            }
        }
        sim.step(p, "start");
        let x = command(sim, p, &j.args, sp);
        if refuse {
            ensure!(x.result.is_err() && x.stdout.is_empty(), "accepted", "{} {:?}: output {:?}", if kind == 6 { "missing" } else { "not UTF-8" }, file, String::from_utf8_lossy(&x.stdout));
            sim.probe(if kind == 6 { "file missing" } else { "not UTF-8" });
            continue;
        }
        ensure!(prefix(&x.stdout, &good), "prefix", "disturbed: {:?}, undisturbed: {:?}", String::from_utf8_lossy(&x.stdout), String::from_utf8_lossy(&good));
        if x.killed {
            sim.probe("killed");
        } else if x.hard == 0 {
            ensure!(x.result.is_ok(), "disturbed", "the command ends with {:?}", x.result);
            ensure!(x.stdout == good, "disturbed", "only {} of {} bytes of output", x.stdout.len(), good.len());
            sim.probe("disturbed stream");
        } else {
            ensure!(x.result.is_err(), "error", "the command succeeds in spite of an error, with {} of {} bytes of output", x.stdout.len(), good.len());
            ensure!(kind == 3 || x.stdout.is_empty(), "error", "output of a part of the input: {:?}", String::from_utf8_lossy(&x.stdout));
            sim.probe(match kind {
                2 => "input failed",
                3 => "output failed",
                _ => "file failed",
            });
        }
    }
    Ok(())
}
