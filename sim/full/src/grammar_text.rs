//! C05, C06: grammar texts on a faulty disk, read by a fresh process.
use crate::gen::{self, Style};
use crate::lines::{self, merges, RuleV, Says, Sym};
use crate::picky::{self, Picky};
use crate::text::Text;
use log_domain::LogDomain;
use rustomata::grammars::cfg::{CFGRule, LetterT, CFG};
use rustomata::grammars::lcfrs::Lcfrs;
use rustomata::grammars::mcfg::Mcfg;
use rustomata::grammars::pmcfg::{PMCFGRule, VarT, PMCFG};
use simkit::{bail, ensure, ev, world, Check, Sim, Verdict};
use std::io::Read;

pub const CFG_CHECK: Check = Check {
    id: "C05",
    run: |sim| run(sim, Format::Cfg),
    quick: 500_000,
    thorough: 30_000_000,
    rule: "A run writes a grammar of 0-12 lines (rules, initials, comments, blank lines, many spellings) to the simulated disk, damages it 0-4 times (cut off, lines lost/doubled/moved, blocks blanked or repeated, bytes and bits changed) and has a fresh process with its own hash seed read it through short, interrupted or failing reads; every surviving line must be found. A third of the runs reads the text again with symbols and weights that refuse some tokens and numbers: it is refused exactly if it has one of these.",
    real: &["CFG::from_str and below", "util::parsing", "std::fs reading"],
    stub: &["disk, its faults and system calls", "integeriser (not reached)"],
    assumptions: &["a line counts as undamaged if exactly its bytes survive between line ends"],
    must_reach: &["undamaged text", "damaged text read", "damaged text refused", "lines only lost or moved", "intact lines beside a damaged one", "written and read back", "many lines", "read with other types", "symbol or weight refused"],
};

pub const PMCFG_CHECK: Check = Check {
    id: "C06",
    run: |sim| {
        let f = *sim.pick(&[Format::Pmcfg, Format::Lcfrs, Format::Mcfg]);
        run(sim, f)
    },
    quick: 500_000,
    thorough: 30_000_000,
    rule: "As C05 with multiple context-free grammars, read as general grammar, as one that must be linear with one initial nonterminal, and as one with a single initial nonterminal.",
    real: &["PMCFG::from_str, Lcfrs::from_str, Mcfg::from_pmcfg and below", "util::parsing", "std::fs reading"],
    stub: &["disk, its faults and system calls", "integeriser (not reached)"],
    assumptions: &["a line counts as undamaged if exactly its bytes survive between line ends"],
    must_reach: &["undamaged text", "damaged text read", "damaged text refused", "lines only lost or moved", "intact lines beside a damaged one", "written and read back", "many lines", "read with other types", "symbol or weight refused", "not linear", "several initial nonterminals refused"],
};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Format {
    Cfg,
    Pmcfg,
    Lcfrs,
    Mcfg,
}


pub fn of_cfg(r: &CFGRule<String, String, f64>) -> RuleV {
    let comp = r
        .composition
        .composition
        .iter()
        .map(|x| match x {
            LetterT::Label(n) => Sym::Nt(n.clone()),
            LetterT::Value(t) => Sym::T(t.clone()),
        })
        .collect();
    RuleV { head: r.head.clone(), comp: vec![comp], tail: vec![], w: r.weight }
}
pub fn of_pmcfg(r: &PMCFGRule<String, String, f64>) -> RuleV {
    let comp = r
        .composition
        .composition
        .iter()
        .map(|c| {
            c.iter()
                .map(|x| match x {
                    VarT::Var(i, j) => Sym::Var(*i, *j),
                    VarT::T(t) => Sym::T(t.clone()),
                })
                .collect()
        })
        .collect();
    RuleV { head: r.head.clone(), comp, tail: r.tail.clone(), w: r.weight }
}

/// What a process makes of the file, and how it prints it.
fn read(f: Format, path: &str) -> Result<(Vec<String>, Vec<RuleV>, String), String> {
    let mut s = String::new();
    std::fs::File::open(path)
        .and_then(|mut f| f.read_to_string(&mut s))
        .map_err(|e| format!("reading: {}", e))?;
    match f {
        Format::Cfg => {
            let g: CFG<String, String, f64> = s.parse()?;
            let mut text = String::from("initial: [");
            for (i, n) in g.initial.iter().enumerate() {
                if i > 0 {
                    text.push_str(", ");
                }
                text.push_str(&format!("\"{}\"", n));
            }
            text.push_str("]\n");
            for r in &g.rules {
                text.push_str(&format!("{}\n", r));
            }
            Ok((g.initial, g.rules.iter().map(of_cfg).collect(), text))
        }
        Format::Pmcfg => {
            let g: PMCFG<String, String, f64> = s.parse()?;
            let text = g.to_string();
            Ok((g.initial, g.rules.iter().map(of_pmcfg).collect(), text))
        }
        Format::Lcfrs => {
            let g: Lcfrs<String, String, f64> = s.parse()?;
            let text = g.to_string();
            let (rules, init) = g.destruct();
            Ok((vec![init], rules.iter().map(of_pmcfg).collect(), text))
        }
        Format::Mcfg => {
            let g: PMCFG<String, String, f64> = s.parse()?;
            let m = Mcfg::from_pmcfg(g).ok_or_else(|| "not linear or several initials".to_string())?;
            let text = PMCFG::from(m.clone()).to_string();
            let (rules, init) = m.destruct();
            Ok((vec![init], rules.iter().map(of_pmcfg).collect(), text))
        }
    }
}

type W = LogDomain<f64>;

/// The same with symbols that refuse some tokens and weights that refuse some numbers.
fn read_picky(f: Format, path: &str) -> Result<(Vec<String>, Vec<RuleV>), String> {
    let mut s = String::new();
    std::fs::File::open(path)
        .and_then(|mut f| f.read_to_string(&mut s))
        .map_err(|e| format!("reading: {}", e))?;
    let rule = |r: &PMCFGRule<Picky, Picky, W>| {
        let sym = |x: &VarT<Picky>| match x {
            VarT::Var(i, j) => Sym::Var(*i, *j),
            VarT::T(t) => Sym::T(t.0.clone()),
        };
        RuleV {
            head: r.head.0.clone(),
            comp: r.composition.composition.iter().map(|c| c.iter().map(sym).collect()).collect(),
            tail: r.tail.iter().map(|n| n.0.clone()).collect(),
            w: r.weight.ln(),
        }
    };
    let own = |v: Vec<Picky>| v.into_iter().map(|n| n.0).collect();
    match f {
        Format::Cfg => {
            let g: CFG<Picky, Picky, W> = s.parse()?;
            let sym = |x: &LetterT<Picky, Picky>| match x {
                LetterT::Label(n) => Sym::Nt(n.0.clone()),
                LetterT::Value(t) => Sym::T(t.0.clone()),
            };
            let rules = g
                .rules
                .iter()
                .map(|r| RuleV { head: r.head.0.clone(), comp: vec![r.composition.composition.iter().map(sym).collect()], tail: vec![], w: r.weight.ln() })
                .collect();
            Ok((own(g.initial), rules))
        }
        Format::Pmcfg => {
            let g: PMCFG<Picky, Picky, W> = s.parse()?;
            Ok((own(g.initial), g.rules.iter().map(rule).collect()))
        }
        Format::Lcfrs => {
            let g: Lcfrs<Picky, Picky, W> = s.parse()?;
            let (rules, init) = g.destruct();
            Ok((vec![init.0], rules.iter().map(rule).collect()))
        }
        Format::Mcfg => {
            let g: PMCFG<Picky, Picky, W> = s.parse()?;
            let m = Mcfg::from_pmcfg(g).ok_or_else(|| "not linear or several initials".to_string())?;
            let (rules, init) = m.destruct();
            Ok((vec![init.0], rules.iter().map(rule).collect()))
        }
    }
}

/// A grammar is read if and only if its symbols and weights can be; then it is the same.
fn picky(sim: &Sim, f: Format, text: Vec<u8>, free: &Result<(Vec<String>, Vec<RuleV>), String>) -> Verdict {
    let chars: Vec<char> = String::from_utf8_lossy(&text).chars().collect();
    let no = if sim.flip(1, 3) || chars.is_empty() { None } else { Some(*sim.pick(&chars)) };
    let mut spec = world::Spec { hash_seed: sim.seed(), ..Default::default() };
    spec.disk.insert("/simfs/g".into(), text);
    sim.step(2, "read with other types");
    let x = world::process(sim, spec, move || {
        picky::refuse(no);
        read_picky(f, "/simfs/g")
    });
    let got = match x.result {
        Err(p) => bail!("panic", "reading the text as a grammar whose symbols have no {:?} panicked: {}", no, p),
        Ok(r) => r,
    };
    let (initials, rules) = match free {
        Err(_) => {
            ensure!(got.is_err(), "types", "a text is refused with strings and accepted with other symbols and weights");
            return Ok(());
        }
        Ok(x) => x,
    };
    // what is not a number or a negative zero: open
    if rules.iter().any(|r| r.w.is_nan() || (r.w == 0.0 && r.w.is_sign_negative())) {
        return Ok(());
    }
    let bad = |s: &String| picky::refused(no, s);
    let bad_rule = |r: &RuleV| {
        bad(&r.head)
            || r.tail.iter().any(bad)
            || r.w < 0.0
            || r.comp.iter().flatten().any(|s| match s {
                Sym::Var(..) => false,
                Sym::T(x) | Sym::Nt(x) => bad(x),
            })
    };
    let expect_err = initials.iter().any(bad) || rules.iter().any(bad_rule);
    match got {
        Err(e) => {
            ensure!(expect_err, "types", "a text whose symbols have no {:?} is refused: {}", no, e);
            sim.probe("symbol or weight refused");
        }
        Ok((gi, gr)) => {
            ensure!(!expect_err, "types", "symbols with {:?} or negative weights are lost: {:?} {:?}", no, gi, gr);
            let same = |a: &RuleV, b: &RuleV| a.head == b.head && a.comp == b.comp && a.tail == b.tail && a.w.ln() == b.w;
            ensure!(gi == *initials && gr.len() == rules.len() && rules.iter().zip(&gr).all(|(a, b)| same(a, b)), "types", "with other types, {:?} {:?} instead of {:?} {:?}", gi, gr, initials, rules);
            sim.probe("read with other types");
        }
    }
    Ok(())
}

pub fn linear(r: &RuleV) -> bool {
    let mut seen = Vec::new();
    for s in r.comp.iter().flatten() {
        if let Sym::Var(i, j) = s {
            if seen.contains(&(*i, *j)) {
                return false;
            }
            seen.push((*i, *j));
        }
    }
    true
}

fn stored(sim: &Sim, text: Vec<u8>, f: Format, faulty: bool) -> (Result<Result<(Vec<String>, Vec<RuleV>, String), String>, String>, u32) {
    let mut spec = world::Spec { hash_seed: sim.seed(), ..Default::default() };
    let mut plan = world::Plan::default();
    if sim.flip(1, 3) {
        plan.chunk = sim.range(1, 40);
        plan.eintr = *sim.pick(&[0, 2, 5]);
    }
    if faulty && sim.flip(1, 12) {
        plan.fail_at = Some((sim.below(text.len() + 1), libc_eio()));
    }
    spec.disk.insert("/simfs/g".into(), text);
    spec.file_plans.insert("/simfs/g".into(), plan);
    let x = world::process(sim, spec, move || read(f, "/simfs/g"));
    (x.result, x.hard)
}
fn libc_eio() -> i32 {
    5
}

fn run(sim: &Sim, f: Format) -> Verdict {
    let cfg = f == Format::Cfg;
    let st = Style(sim);
    // what is written
    let mut says: Vec<Says> = Vec::new();
    let mut written: Vec<String> = Vec::new();
    let n = if sim.flip(1, 150) { sim.range(13, 250) } else { sim.below(13) };
    sim.probe_if(n > 12, "many lines");
    let at_initial = if sim.flip(9, 10) { sim.below(n + 1) } else { usize::MAX };
    for i in 0..=n {
        let k = if i == at_initial { 9 } else { sim.below(10) };
        let (l, s) = match k {
            0 => (String::new(), Says::Nothing),
            1 => (sim.pick(&[" ", "\t", "   "]).to_string(), Says::Nothing),
            2 => (format!("{}{}", *sim.pick(&["", "", " ", "\t"]), st.comment()), Says::Nothing),
            9 if i == at_initial || (f != Format::Lcfrs && f != Format::Mcfg) || sim.flip(1, 6) => {
                let many = if f == Format::Lcfrs || f == Format::Mcfg { sim.flip(1, 12) } else { sim.flip(1, 2) };
                let k = match many {
                    true if sim.flip(1, 60) => sim.range(4, 60),
                    true => sim.below(4),
                    false => 1,
                };
                let v: Vec<String> = (0..k).map(|_| st.tok().value).collect();
                let lead = *sim.pick(&["", "", "", " ", "\t"]);
                (format!("{}{}", lead, st.initials(&v)), Says::Initials(v))
            }
            _ => {
                let mut r = if cfg { gen::cfg_rule(sim) } else { gen::pmcfg_rule(sim) };
                let l = st.rule(&mut r, cfg);
                (l, Says::Rule(r))
            }
        };
        ev!(sim, "line {:?}", l);
        written.push(l);
        says.push(s);
    }
    let crlf = sim.flip(1, 8);
    let mut ends: Vec<&str> = vec![if crlf { "\r\n" } else { "\n" }; written.len()];
    if sim.flip(1, 3) {
        *ends.last_mut().unwrap() = "";
    }
    let mut t = Text::new(&written, &ends);
    if sim.flip(2, 3) {
        for _ in 0..sim.range(1, 4) {
            t.damage(sim);
        }
    }

    // what is there to be read
    let mut initials: Vec<(String, bool)> = Vec::new();
    let mut rules: Vec<(RuleV, bool)> = Vec::new();
    let mut harmed = 0;
    let mut intact = 0;
    for l in t.lines() {
        let (s, must) = match l.intact {
            Some(i) => (says[i].clone(), true),
            None => {
                let s = if cfg { lines::cfg_line(&l.text) } else { lines::pmcfg_line(&l.text) };
                if !l.text.is_empty() {
                    harmed += 1;
                    ev!(sim, "damaged line {:?} says {:?}", String::from_utf8_lossy(&l.text), s);
                }
                (s, false)
            }
        };
        match s {
            Says::Initials(v) => initials.extend(v.into_iter().map(|x| (x, must))),
            Says::Rule(r) => {
                intact += must as u32;
                rules.push((r, must))
            }
            Says::Nothing | Says::Garbage => (),
        }
    }
    sim.shape(&[rules.len() as u8, harmed as u8, f as u8]);

    let seed_text = t.bytes();
    sim.step(0, "read");
    let (res, hard) = stored(sim, seed_text.clone(), f, true);
    if hard == 0 && sim.flip(1, 3) {
        if let Ok(r) = &res {
            let free = r.as_ref().map(|x| (x.0.clone(), x.1.clone())).map_err(|e| e.clone());
            picky(sim, f, seed_text, &free)?;
        }
    }
    let res: Result<(Vec<String>, Vec<RuleV>, String), String> = match res {
        Err(p) => bail!("panic", "reading the text panicked: {}", p),
        Ok(r) => r,
    };
    match res {
        Err(e) => {
            ev!(sim, "refused: {}", e.chars().take(80).collect::<String>());
            if hard > 0 {
                return Ok(());
            }
            if harmed == 0 {
                // every line is as it was written: only global conditions may fail
                let one = initials.len() == 1;
                let lin = rules.iter().all(|r| linear(&r.0));
                let fine = match f {
                    Format::Cfg | Format::Pmcfg => true,
                    Format::Lcfrs => one,
                    Format::Mcfg => one && lin,
                };
                ensure!(!fine, "refused", "a text of undamaged lines was refused: {}", e);
                sim.probe_if(!one, "several initial nonterminals refused");
                sim.probe_if(!lin, "not linear");
            } else {
                sim.probe("damaged text refused");
            }
            Ok(())
        }
        Ok((gi, gr, printed)) => {
            ensure!(hard == 0, "swallowed", "a failing read went unnoticed");
            ev!(sim, "read {} initials, {} rules", gi.len(), gr.len());
            sim.probe_if(!t.damaged, "undamaged text");
            sim.probe_if(t.damaged && harmed > 0, "damaged text read");
            sim.probe_if(t.damaged && harmed == 0, "lines only lost or moved");
            sim.probe_if(harmed > 0 && intact > 0, "intact lines beside a damaged one");
            ensure!(
                merges(&initials, &gi, |a, b| a == b),
                "initials",
                "the lines say the initial nonterminals {:?} (false: may be missing), the grammar has {:?}",
                initials,
                gi
            );
            ensure!(
                merges(&rules, &gr, |a, b| a.same(b)),
                "rules",
                "the lines say the rules {:?} (false: may be missing), the grammar has {:?}",
                rules,
                gr
            );
            if f == Format::Mcfg {
                ensure!(gr.iter().all(linear), "linear", "the linear grammar has a rule that is not linear");
            }
            // written by this process, read by the next
            if sim.flip(1, 2) && gr.iter().all(|r| !r.w.is_nan()) {
                sim.step(1, "read back");
                let (again, _) = stored(sim, printed.clone().into_bytes(), f, false);
                match again {
                    Err(p) => bail!("panic", "reading back {:?} panicked: {}", printed, p),
                    Ok(Err(e)) => bail!("round trip", "the printed grammar {:?} is refused: {}", printed, e),
                    Ok(Ok((i2, r2, _))) => {
                        ensure!(
                            i2 == gi && r2.len() == gr.len() && r2.iter().zip(&gr).all(|(a, b)| a.same(b)),
                            "round trip",
                            "the printed grammar {:?} reads back as {:?} {:?}",
                            printed,
                            i2,
                            r2
                        );
                        sim.probe("written and read back");
                    }
                }
            }
            Ok(())
        }
    }
}

