//! C09: files of extracted parsers.
//! C10: streams of sentences.

use crate::cs::{chain_cycle, close, lcfrs, normal_opts};
use crate::mcfg_gen::{grammar, nt, parses, te, word, Sy, G, R};
use crate::seeds::{tb, treebank};
use flate2::{read::GzDecoder, write::GzEncoder, Compression};
use simkit::world::{Exit, Plan, Spec};
use simkit::{bail, ensure, ev, world, Check, Sim, Verdict, Violation};
use std::collections::{BTreeMap, VecDeque};
use std::io::{Read, Write};

pub const C09: Check = Check {
    id: "C09",
    run: run09,
    quick: 150_000,
    thorough: 4_000_000,
    rule: "A run draws a grammar and lets a process extract a parser from it (as text or treebank files, compressed or not, from a file or standard input). Further processes, with hash seeds of their own, extract it again through chunked, interrupted, failing or crashing streams, load the file or what a crash, a torn write, a changed byte or a failing disk left of it, and parse drawn sentences with it. Answers are compared with an enumeration of all derivations.",
    real: &["csparsing extract and csparsing parse (handle_sub_matches of src/bin/csparsing.rs)", "CSRepresentation, its serde code, parsing, grammar and treebank readers, NeGra export", "clap, bincode, flate2; std's buffered streams and hash maps"],
    stub: &["system calls read, write, open, getrandom, clock_gettime", "integeriser crate"],
    assumptions: &["grammars without circles of chain rules, initial nonterminal without terminal rules (NeGra trees need an inner node)", "a change of bytes that CRC-32 does not see has probability 2^-32", "bytes after the end of the compressed stream and in unused header fields carry no data"],
    must_reach: &["extracted from text", "extracted from treebank", "compressed grammar", "grammar from standard input", "extraction failed", "extraction crashed", "extraction disturbed", "file cut off", "file changed", "file torn", "torn by another file", "only the trailer cut", "loaded elsewhere", "loading failed", "several parses", "no parse", "harmless change", "grammar unreadable", "leftover of a crash loaded", "large grammar"],
};

pub const C10: Check = Check {
    id: "C10",
    run: run10,
    quick: 150_000,
    thorough: 4_000_000,
    rule: "A run draws a grammar, extracts a parser and draws a corpus of 0-7 lines (one run in forty: up to 60, with words and gaps of thousands of characters; ambiguous, unknown and empty sentences, all kinds of white space, line numbers, annotated tags) and options (-k, beam, threshold, candidates, fallback, debug). Processes parse it through streams cut at drawn places, with interrupted calls, with errors and kills at drawn bytes, and parse single lines alone. Every block is compared with the rendering of a derivation that the grammar has for the line.",
    real: &["csparsing parse (handle_sub_matches of src/bin/csparsing.rs)", "CSRepresentation, parsing, fallback, NeGra export", "clap, bincode, flate2; std's buffered streams and hash maps"],
    stub: &["system calls read, write, open, getrandom, clock_gettime", "integeriser crate"],
    assumptions: &["grammars without circles of chain rules, initial nonterminal without terminal rules (NeGra trees need an inner node)", "the order of parses of equal weight is open", "a line without the announced number or tag ends the command with an error"],
    must_reach: &["several parses", "no parse", "empty sentence", "unknown word", "fallback tree", "line numbers", "annotated tags", "debug output", "with beam", "with a wide beam", "with threshold", "with candidates", "cut by k", "disturbed stream", "input failed", "output failed", "killed", "parser file failed", "alone", "malformed line", "not UTF-8", "longer than a buffer"],
};

pub type Disk = BTreeMap<String, Vec<u8>>;

pub struct Source {
    pub g: G,
    pub disco: bool,
    /// weights of the rules as the parser has them
    pub ws: Vec<f64>,
    pub args: Vec<String>,
    pub stdin: Vec<u8>,
    pub disk: Disk,
}

fn s(x: &str) -> String {
    x.to_string()
}

fn gz(b: &[u8]) -> Vec<u8> {
    let mut e = GzEncoder::new(Vec::new(), Compression::fast());
    e.write_all(b).expect("gz");
    e.finish().expect("gz")
}

fn gunzip(b: &[u8]) -> Option<Vec<u8>> {
    let mut v = Vec::new();
    GzDecoder::new(b).read_to_end(&mut v).ok()?;
    Some(v)
}

fn source(sim: &Sim) -> Option<Source> {
    (0..20).filter_map(|_| one_source(sim)).next()
}

fn one_source(sim: &Sim) -> Option<Source> {
    let mut o = normal_opts(sim);
    let disco = sim.flip(1, 3);
    if disco {
        o.ordered = true;
        o.max_tail = 2;
        o.undefined = false;
        o.repeats = false;
    }
    let mut g = grammar(sim, &o);
    let init = g.init;
    g.rules.retain(|r| r.head != init || !r.tail.is_empty());
    if chain_cycle(&g, false) || !lcfrs(&g).map_or(false, |l| l.in_normal_form()) || !g.rules.iter().any(|r| r.head == init) {
        return None;
    }
    let mut args = vec![s("csparsing"), s("extract")];
    let mut disk = Disk::new();
    let width = sim.below(6);
    if sim.flip(1, 200) {
        // a lexicon that fills buffers
        let heads: Vec<usize> = g.rules.iter().filter(|r| r.tail.is_empty()).map(|r| r.head).collect();
        for i in 0..sim.range(200, 2500) {
            let new = heads.is_empty() || (i < 400 && sim.flip(1, 4));
            let (head, t) = if new { (g.fan.len(), sim.below(g.terminals)) } else { (*sim.pick(&heads), 100 + i) };
            if new {
                g.fan.push(1);
            }
            g.rules.push(R { head, tail: vec![], comp: vec![vec![Sy::T(t)]], w: sim.range(1, 16) as u32 });
        }
        sim.probe("large grammar");
    }
    if width > 0 && sim.flip(1, 2) {
        args.push(s("-s"));
        args.push(width.to_string());
    }
    let zip = sim.flip(1, 2);
    let pack = |b: String| if zip { gz(b.as_bytes()) } else { b.into_bytes() };
    let ws: Vec<f64>;
    let text;
    if disco {
        let (gram, lex) = treebank(sim, &g)?;
        args.push(s("-d"));
        if !zip {
            args.push(s("--unzipped"));
        }
        disk.insert(s("/simfs/lexicon"), pack(lex?));
        args.push(s("-l"));
        args.push(s("/simfs/lexicon"));
        text = pack(gram);
        let sum = |a: usize| g.rules.iter().filter(|r| r.head == a).map(|r| f64::from(r.w)).sum::<f64>();
        ws = g.rules.iter().map(|r| f64::from(r.w) / sum(r.head)).collect();
    } else {
        if zip {
            args.push(s("-z"));
        }
        text = pack(g.pmcfg(|w| w).to_string());
        ws = g.rules.iter().map(|r| f64::from(r.w) / 16.0).collect();
    }
    let mut stdin = Vec::new();
    if sim.flip(1, 3) {
        stdin = text;
    } else {
        disk.insert(s("/simfs/grammar"), text);
        args.push(s("/simfs/grammar"));
    }
    sim.probe(if disco { "extracted from treebank" } else { "extracted from text" });
    sim.probe_if(zip, "compressed grammar");
    sim.probe_if(!stdin.is_empty(), "grammar from standard input");
    ev!(sim, "grammar {} weights {:?}", g.show(), ws);
    ev!(sim, "{:?}", args);
    sim.shape(g.show().as_bytes());
    Some(Source { g, disco, ws, args, stdin, disk })
}

/// Disturbances that a process has to get over.
pub fn calm(sim: &Sim) -> Plan {
    Plan { chunk: *sim.pick(&[0, 1, 2, 7, 30, 4000]), eintr: *sim.pick(&[0, 2, 5]), ..Plan::default() }
}

pub fn command(sim: &Sim, p: usize, args: &[String], spec: Spec) -> Exit<()> {
    ev!(sim, "process {}: {:?}", p, args);
    let spec = Spec { args: Some(s("rustomata")).into_iter().chain(args.iter().cloned()).collect(), ..spec };
    let x = world::process(sim, spec, front::front_main);
    let status = match x.result {
        _ if x.code.is_some() => Ok(x.code.unwrap()),
        r => r,
    };
    let result = status.and_then(|c| if c == 0 { Ok(()) } else { Err(format!("exit {}", c)) });
    let x = Exit { result, stdout: x.stdout, stderr: x.stderr, killed: x.killed, hard: x.hard, code: x.code };
    ev!(
        sim,
        "process {}: {}, {} bytes of output{}",
        p,
        match &x.result {
            Ok(()) => s("done"),
            Err(e) => format!("failed ({})", e),
        },
        x.stdout.len(),
        if x.killed { ", killed" } else { "" }
    );
    x
}

impl Source {
    fn spec(&self, seed: u64) -> Spec {
        Spec { hash_seed: seed, stdin: self.stdin.clone(), disk: self.disk.clone(), ..Spec::default() }
    }

    fn extract(&self, sim: &Sim, p: usize, seed: u64) -> Result<Vec<u8>, Violation> {
        sim.step(p, "extract");
        let x = command(sim, p, &self.args, self.spec(seed));
        if let Err(e) = x.result {
            bail!("extraction", "extraction fails: {}", e);
        }
        Ok(x.stdout)
    }

    fn name(&self, a: usize) -> String {
        if self.disco {
            tb(a)
        } else {
            nt(a)
        }
    }

    /// All derivations of the tokens, rendered by `show`.
    pub fn derivations(&self, w: &[usize], show: &dyn Fn(&[usize]) -> String) -> Option<Vec<(f64, String)>> {
        let (ps, complete) = parses(&self.g, w, 60, 1500)?;
        if !complete {
            return None;
        }
        let mut v: Vec<(f64, String)> = ps.iter().map(|p| (p.rules.iter().map(|&r| self.ws[r]).product(), show(&p.rules))).collect();
        v.sort_by(|a, b| b.0.partial_cmp(&a.0).unwrap());
        Some(v)
    }

    /// A derivation in export format, from the rules in depth-first order.
    pub fn tree(&self, rules: &[usize], id: usize, words: &[String]) -> String {
        let mut nodes: BTreeMap<Vec<usize>, usize> = BTreeMap::new();
        let leaves = self.leaves(rules, &mut 0, vec![], &mut nodes).concat();
        let mut t = Numbers { of: BTreeMap::new(), todo: VecDeque::new(), next: 500 };
        let mut out = format!("#BOS {}\n", id);
        for (leaf, w) in leaves.iter().zip(words) {
            let n = t.number(&leaf[..leaf.len() - 1]);
            out.push_str(&format!("{}\t{}\t--\t--\t{}\n", w, self.name(self.g.rules[nodes[leaf]].head), n));
        }
        while let Some(a) = t.todo.pop_front() {
            if a.is_empty() {
                continue;
            }
            let up = t.number(&a[..a.len() - 1]);
            out.push_str(&format!("#{}\t{}\t--\t--\t{}\n", t.of[&a], self.name(self.g.rules[nodes[&a]].head), up));
        }
        out.push_str(&format!("#EOS {}\n", id));
        out
    }

    fn leaves(&self, rules: &[usize], at: &mut usize, pos: Vec<usize>, nodes: &mut BTreeMap<Vec<usize>, usize>) -> Vec<Vec<Vec<usize>>> {
        let i = rules[*at];
        *at += 1;
        nodes.insert(pos.clone(), i);
        let r = &self.g.rules[i];
        let mut kids = Vec::new();
        for k in 0..r.tail.len() {
            let mut p = pos.clone();
            p.push(k);
            kids.push(self.leaves(rules, at, p, nodes));
        }
        r.comp
            .iter()
            .map(|c| {
                let mut v = Vec::new();
                for x in c {
                    match x {
                        Sy::T(_) => v.push(pos.clone()),
                        Sy::V(k, j) => v.extend(kids[*k][*j].iter().cloned()),
                    }
                }
                v
            })
            .collect()
    }
}

struct Numbers {
    of: BTreeMap<Vec<usize>, usize>,
    todo: VecDeque<Vec<usize>>,
    next: usize,
}

impl Numbers {
    fn number(&mut self, a: &[usize]) -> usize {
        if let Some(&n) = self.of.get(a) {
            return n;
        }
        let n = if a.is_empty() {
            0
        } else {
            self.next += 1;
            self.next - 1
        };
        self.of.insert(a.to_vec(), n);
        self.todo.push_back(a.to_vec());
        n
    }
}

struct Line {
    text: String,
    id: usize,
    /// what is parsed
    tokens: Vec<usize>,
    /// what is printed
    words: Vec<String>,
    tags: Option<Vec<String>>,
}

#[derive(Debug)]
struct Options {
    k: Option<usize>,
    beam: Option<usize>,
    delta: Option<String>,
    candidates: Option<usize>,
    numbers: bool,
    tags: bool,
    fallback: bool,
    debug: bool,
}

/// Limits that nothing drawn here reaches.
const WIDE: [usize; 5] = [1000, 65535, 65536, 100_000, usize::max_value()];

impl Options {
    fn plain(k: usize) -> Options {
        Options { k: Some(k), beam: None, delta: None, candidates: None, numbers: false, tags: false, fallback: false, debug: false }
    }

    fn draw(sim: &Sim) -> Options {
        Options {
            k: if sim.flip(3, 4) { Some(*sim.pick(&[1, 2, 3, 5, 100, 0])) } else { None },
            beam: match sim.below(24) {
                0 => Some(*sim.pick(&WIDE)),
                1..=3 => Some(sim.range(0, 5)),
                _ => None,
            },
            delta: if sim.flip(1, 8) { Some((sim.range(1, 16) as f64 / 16.0).to_string()) } else { None },
            candidates: if sim.flip(1, 6) { Some(sim.below(6)) } else { None },
            numbers: sim.flip(1, 4),
            tags: sim.flip(1, 4),
            fallback: sim.flip(1, 3),
            debug: sim.flip(1, 6),
        }
    }

    fn args(&self, sim: &Sim) -> Vec<String> {
        let mut groups: Vec<Vec<String>> = vec![];
        if let Some(k) = self.k {
            groups.push(vec![s("-k"), k.to_string()]);
        }
        if let Some(b) = self.beam {
            groups.push(vec![s(if sim.flip(1, 2) { "-b" } else { "--beam" }), b.to_string()]);
        }
        if let Some(d) = &self.delta {
            groups.push(vec![s(if sim.flip(1, 2) { "-t" } else { "--threshold" }), d.clone()]);
        }
        if let Some(c) = self.candidates {
            groups.push(vec![s(if sim.flip(1, 2) { "-c" } else { "--candidates" }), c.to_string()]);
        }
        for (on, x) in &[(self.numbers, "--with-lines"), (self.tags, "--with-pos"), (self.fallback, "--with-fallback"), (self.debug, "--debug")] {
            if *on {
                groups.push(vec![s(x)]);
            }
        }
        groups.push(vec![s("/simfs/parser")]);
        sim.shuffle(&mut groups);
        let mut v = vec![s("csparsing"), s("parse")];
        v.extend(groups.concat());
        v
    }

    fn free(&self) -> bool {
        self.beam.map_or(true, |b| b >= WIDE[0]) && self.delta.is_none() && self.candidates.is_none()
    }
}

fn line(sim: &Sim, g: &G, o: &Options, used: &mut Vec<usize>, big: bool) -> Line {
    let len = sim.range(1, 5);
    let mut tokens = if sim.flip(1, 10) { vec![] } else { word(sim, g, len) };
    if !tokens.is_empty() && sim.flip(1, 10) {
        let i = sim.below(tokens.len());
        tokens[i] = g.terminals + 1;
        sim.probe("unknown word");
    }
    sim.probe_if(tokens.is_empty(), "empty sentence");
    let seen: Vec<String> = tokens.iter().map(|&t| te(t)).collect();
    let mut words: Vec<String> = if o.tags { seen.iter().map(|_| sim.pick(&["the", "a", "é", "1/2", "#500", "a/"]).to_string()).collect() } else { seen.clone() };
    if big && o.tags {
        for w in words.iter_mut() {
            if sim.flip(1, 4) {
                *w = w.repeat(sim.range(1, 3000));
            }
        }
    }
    let mut parts: Vec<String> = Vec::new();
    let id = if o.numbers {
        let mut n = *sim.pick(&[0, 1, 7, 123, 4_000_000_000, 10_000_000_000]);
        while used.contains(&n) {
            n += 1;
        }
        parts.push(n.to_string());
        n
    } else {
        used.len()
    };
    used.push(id);
    for i in 0..seen.len() {
        parts.push(if o.tags { format!("{}/{}", words[i], seen[i]) } else { seen[i].clone() });
    }
    let gap = |sim: &Sim| {
        let g = *sim.pick(&[" ", " ", " ", "  ", "\t", "\u{a0}", " \u{2003}", "\u{b}", "\u{c} "]);
        g.repeat(if big && sim.flip(1, 4) { sim.range(1, 5000) } else { 1 })
    };
    let mut text = String::new();
    if sim.flip(1, 6) {
        text.push_str(&gap(sim));
    }
    for (i, p) in parts.iter().enumerate() {
        if i > 0 {
            text.push_str(&gap(sim));
        }
        text.push_str(p);
    }
    if sim.flip(1, 6) {
        text.push_str(&gap(sim));
    }
    Line { text, id, tokens, words, tags: if o.tags { Some(seen) } else { None } }
}

fn corpus(sim: &Sim, ls: &[Line]) -> Vec<u8> {
    let mut b = String::new();
    for (i, l) in ls.iter().enumerate() {
        b.push_str(&l.text);
        // an empty last line needs its end
        if i + 1 < ls.len() || l.text.is_empty() || sim.flip(3, 4) {
            b.push_str(if sim.flip(1, 6) { "\r\n" } else { "\n" });
        }
    }
    b.into_bytes()
}

fn noparse(l: &Line) -> String {
    let mut b = format!("#BOS {}\n", l.id);
    for (i, w) in l.words.iter().enumerate() {
        let tag = l.tags.as_ref().map_or("--", |t| &t[i]);
        b.push_str(&format!("{}\t{}\t--\t--\t500\n", w, tag));
    }
    b.push_str(&format!("#500\tNOPARSE\t--\t--\t0\n#EOS {}\n", l.id));
    b
}

/// Is this a tree over the words, if not one of the grammar?
fn any_tree(src: &Source, b: &str, l: &Line) -> Verdict {
    let rows: Vec<&str> = b.lines().collect();
    let n = l.words.len();
    ensure!(rows.len() >= n + 2, "fallback", "{:?} for {:?}", b, l.words);
    let mut inner = vec![s("0")];
    inner.extend(rows[n + 1..rows.len() - 1].iter().map(|r| r.split('\t').next().unwrap().trim_start_matches('#').to_string()));
    for (i, r) in rows[1..rows.len() - 1].iter().enumerate() {
        let f: Vec<&str> = r.split('\t').collect();
        ensure!(f.len() == 5 && f[2] == "--" && f[3] == "--", "fallback", "line {:?} of {:?}", r, b);
        ensure!(i >= n || f[0] == l.words[i], "fallback", "word {} of {:?} should be {}", i, b, l.words[i]);
        ensure!(i < n || f[0] == format!("#{}", 500 + i - n), "fallback", "line {:?} of {:?}", r, b);
        ensure!((0..src.g.fan.len()).any(|a| src.name(a) == f[1]), "fallback", "label {} in {:?}", f[1], b);
        ensure!(inner.iter().any(|x| x == f[4]), "fallback", "parent {} in {:?}", f[4], b);
    }
    Ok(())
}

/// The blocks of one sentence after the other.
fn check_output(sim: &Sim, src: &Source, ls: &[Line], o: &Options, out: &[u8]) -> Verdict {
    let text = match std::str::from_utf8(out) {
        Ok(t) => t,
        Err(_) => bail!("output", "the output is not UTF-8"),
    };
    let mut rest = text;
    for l in ls {
        let head = format!("#BOS {}\n", l.id);
        let foot = format!("\n#EOS {}\n", l.id);
        let mut blocks = Vec::new();
        while rest.starts_with(&head) {
            match rest.find(&foot) {
                Some(e) => {
                    let (b, r) = rest.split_at(e + foot.len());
                    blocks.push(b);
                    rest = r;
                }
                None => bail!("output", "block {} has no end: {:?}", l.id, text),
            }
        }
        ensure!(!blocks.is_empty(), "blocks", "no block for sentence {} {:?} in {:?}", l.id, l.text, text);
        check_blocks(sim, src, l, o, &blocks)?;
    }
    ensure!(rest.is_empty(), "blocks", "{:?} is too much in {:?}", rest, text);
    Ok(())
}

fn check_blocks(sim: &Sim, src: &Source, l: &Line, o: &Options, blocks: &[&str]) -> Verdict {
    let k = if o.debug { 1 } else { o.k.unwrap_or(1) };
    let all = match src.derivations(&l.tokens, &|r| src.tree(r, l.id, &l.words)) {
        Some(a) => a,
        None => return Ok(()),
    };
    ensure!(blocks.len() <= k.max(1), "number", "{} blocks for {:?}, {} asked for", blocks.len(), l.text, k);
    if blocks.len() == 1 && (k == 0 || all.is_empty() || (!o.free() && !all.iter().any(|a| a.1 == blocks[0]))) {
        // nothing (or nothing within the limits) was found
        if blocks[0] == noparse(l) {
            sim.probe("no parse");
        } else {
            ensure!(o.fallback || o.debug, "blocks", "{:?} is no parse of {:?}", blocks[0], l.text);
            any_tree(src, blocks[0], l)?;
            sim.probe("fallback tree");
        }
        return Ok(());
    }
    let mut left: Vec<&(f64, String)> = all.iter().collect();
    let mut last = f64::INFINITY;
    for (i, b) in blocks.iter().enumerate() {
        // the heaviest derivation that looks like this and may come now
        let fits = |w: f64| if o.free() { close(w, all[i].0) } else { w <= last * (1.0 + 1e-9) };
        match left.iter().position(|a| a.1 == *b && fits(a.0)) {
            Some(x) => last = left.remove(x).0,
            None => bail!("parse", "parse {} of {:?} is {:?}, expected one of weight {} in {:?}", i, l.text, b, all.get(i).map_or(0.0, |a| a.0), all),
        }
    }
    if o.free() {
        ensure!(blocks.len() == k.min(all.len()), "number", "{} parses of {:?} instead of {}", blocks.len(), l.text, k.min(all.len()));
    }
    sim.probe_if(blocks.len() > 1, "several parses");
    sim.probe_if(all.len() > k, "cut by k");
    Ok(())
}

fn loaded(sim: &Sim, file: Vec<u8>, stdin: Vec<u8>, seed: u64) -> Spec {
    sim.shape(&stdin);
    let mut disk = Disk::new();
    disk.insert(s("/simfs/parser"), file);
    Spec { hash_seed: seed, stdin, disk, ..Spec::default() }
}

pub fn prefix(part: &[u8], whole: &[u8]) -> bool {
    part.len() <= whole.len() && part == &whole[..part.len()]
}

pub fn some_offset(sim: &Sim, len: usize) -> usize {
    // mostly inside, sometimes at the edges
    match sim.below(4) {
        0 => sim.below(len.min(20) + 1),
        1 => len - sim.below(len.min(12) + 1),
        _ => sim.below(len + 1),
    }
}

fn run09(sim: &Sim) -> Verdict {
    let src = match source(sim) {
        Some(x) => x,
        None => return Ok(()),
    };
    let mut seed = world::boot(sim, 0);
    let file = src.extract(sim, 0, seed)?;
    ensure!(gunzip(&file).is_some(), "extraction", "the extracted file is not complete");
    let o = Options::plain(sim.range(1, 6));
    let mut used = vec![];
    let ls: Vec<Line> = (0..sim.range(1, 3)).map(|_| line(sim, &src.g, &o, &mut used, false)).collect();
    let stdin = corpus(sim, &ls);
    ev!(sim, "sentences {:?}", ls.iter().map(|l| &l.text).collect::<Vec<_>>());
    // what the intact file gives, here and elsewhere
    let mut p = 1;
    if sim.flip(1, 2) {
        seed = world::boot(sim, p);
    }
    let mut spec = loaded(sim, file.clone(), stdin.clone(), seed);
    let disturb = sim.flip(1, 2);
    if disturb {
        spec.stdin_plan = calm(sim);
        spec.stdout_plan = calm(sim);
        spec.file_plans.insert(s("/simfs/parser"), calm(sim));
    }
    sim.step(p, "parse");
    sim.probe("loaded elsewhere");
    let x = command(sim, p, &o.args(sim), spec);
    if let Err(e) = x.result {
        bail!("loading", "the intact file is refused: {}", e);
    }
    check_output(sim, &src, &ls, &o, &x.stdout)?;
    let good = x.stdout;
    let parse_seed = seed;
    let mut leftover: Option<Vec<u8>> = None;
    for _ in 0..sim.range(1, 4) {
        p += 1;
        match sim.below(7) {
            0 => {
                // extracted again, disturbed
                let seed = world::boot(sim, p);
                let mut spec = src.spec(seed);
                let calm_again = src.extract(sim, p, seed)?;
                spec.stdin_plan = calm(sim);
                spec.stdout_plan = calm(sim);
                for f in src.disk.keys() {
                    spec.file_plans.insert(f.clone(), calm(sim));
                }
                sim.step(p, "extract");
                let x = command(sim, p, &src.args, spec);
                sim.probe("extraction disturbed");
                if let Err(e) = x.result {
                    bail!("disturbed", "the extraction fails: {}", e);
                }
                ensure!(x.stdout == calm_again, "disturbed", "{} bytes with short and interrupted calls, {} without", x.stdout.len(), calm_again.len());
            }
            1 => {
                // the disk is full, or the process dies
                let seed = world::boot(sim, p);
                let whole = src.extract(sim, p, seed)?;
                let off = some_offset(sim, whole.len());
                let kill = sim.flip(1, 2);
                let mut spec = src.spec(seed);
                spec.stdout_plan = Plan {
                    fail_at: if kill { None } else { Some((off, *sim.pick(&[28, 5, 32]))) },
                    kill_at: if kill { Some(off) } else { None },
                    ..calm(sim)
                };
                sim.step(p, "extract");
                let x = command(sim, p, &src.args, spec);
                ensure!(prefix(&x.stdout, &whole), "torn", "the output is no prefix of the whole file");
                if x.stdout.len() < whole.len() {
                    ensure!(x.killed || x.result.is_err(), "lost write", "extraction succeeds with {} of {} bytes written", x.stdout.len(), whole.len());
                } else if x.hard == 0 && !x.killed {
                    ensure!(x.result.is_ok(), "extraction", "extraction fails for no reason");
                }
                sim.probe(if kill { "extraction crashed" } else { "extraction failed" });
                if x.stdout.len() < whole.len() {
                    leftover = Some(x.stdout);
                }
            }
            2 => {
                // the grammar cannot be read
                let seed = world::boot(sim, p);
                let mut spec = src.spec(seed);
                let path = if src.disk.is_empty() || (!src.stdin.is_empty() && sim.flip(1, 2)) {
                    None
                } else {
                    let fs: Vec<&String> = src.disk.keys().collect();
                    Some((*sim.pick(&fs)).clone())
                };
                let len = path.as_ref().map_or(src.stdin.len(), |f| src.disk[f].len());
                let cut = sim.flip(1, 3) && gunzip(path.as_ref().map_or(&src.stdin, |f| &src.disk[f])).is_some();
                if cut {
                    // a compressed file shows that it is not complete
                    let n = sim.below(len);
                    match &path {
                        None => spec.stdin.truncate(n),
                        Some(f) => spec.disk.get_mut(f).unwrap().truncate(n),
                    }
                    sim.fault("compressed grammar cut off");
                } else {
                    let plan = Plan { fail_at: Some((some_offset(sim, len), 5)), ..calm(sim) };
                    match &path {
                        None => spec.stdin_plan = plan,
                        Some(f) => {
                            spec.file_plans.insert(f.clone(), plan);
                        }
                    }
                }
                sim.step(p, "extract");
                let x = command(sim, p, &src.args, spec);
                if cut || x.hard > 0 {
                    ensure!(x.result.is_err() && x.stdout.is_empty(), "grammar", "a parser is extracted from a part of {:?}", path);
                    sim.probe("grammar unreadable");
                }
            }
            3 => {
                // the disk fails while the parser is loaded
                let mut spec = loaded(sim, file.clone(), stdin.clone(), parse_seed);
                spec.file_plans.insert(s("/simfs/parser"), Plan { fail_at: Some((some_offset(sim, file.len()), 5)), ..calm(sim) });
                sim.step(p, "parse");
                let x = command(sim, p, &o.args(sim), spec);
                if x.hard > 0 {
                    ensure!(x.result.is_err() && x.stdout.is_empty(), "loading", "parses after a failed read: {:?}", String::from_utf8_lossy(&x.stdout));
                    sim.probe("loading failed");
                } else {
                    ensure!(x.result.is_ok() && x.stdout == good, "loading", "other output: {:?}", x.result);
                }
            }
            _ => {
                let (bad, what) = match leftover.take() {
                    Some(l) => (l, "leftover of a crash loaded"),
                    None => damage(sim, &src, &file)?,
                };
                if bad == file {
                    continue;
                }
                sim.fault(what);
                let payload = gunzip(&file);
                let same = gunzip(&bad) == payload;
                let seed = if sim.flip(1, 2) { parse_seed } else { world::boot(sim, p) };
                let spec = loaded(sim, bad.clone(), stdin.clone(), seed);
                sim.step(p, "parse");
                let x = command(sim, p, &o.args(sim), spec);
                if same && x.result.is_ok() {
                    sim.probe("harmless change");
                    check_output(sim, &src, &ls, &o, &x.stdout)?;
                } else {
                    ensure!(x.result.is_err(), "accepted", "{}: {} of {} bytes, accepted and used", what, bad.len(), file.len());
                    ensure!(x.stdout.is_empty(), "accepted", "{}: output {:?}", what, String::from_utf8_lossy(&x.stdout));
                }
                ensure!(bad.len() >= file.len() || !prefix(&bad, &file) || x.result.is_err(), "cut off", "{} of {} bytes are accepted", bad.len(), file.len());
                sim.probe(what);
            }
        }
    }
    Ok(())
}

fn damage(sim: &Sim, src: &Source, file: &[u8]) -> Result<(Vec<u8>, &'static str), Violation> {
    let n = file.len();
    let mut b = file.to_vec();
    Ok(match sim.below(6) {
        0 => {
            b.truncate(some_offset(sim, n));
            (b, "file cut off")
        }
        1 => {
            b.truncate(n - sim.range(1, 8));
            (b, "only the trailer cut")
        }
        2 | 3 => {
            for _ in 0..sim.range(1, 2) {
                let i = some_offset(sim, n - 1);
                b[i] ^= 1 << sim.below(8);
            }
            (b, "file changed")
        }
        4 => {
            // a block is lost, zero or twice there
            let from = some_offset(sim, n);
            let to = (from + sim.range(1, 64)).min(n);
            match sim.below(3) {
                0 => b[from..to].iter_mut().for_each(|x| *x = 0),
                1 => {
                    b.drain(from..to);
                }
                _ => {
                    let x = b[from..to].to_vec();
                    b.splice(from..from, x);
                }
            }
            (b, "file torn")
        }
        _ => {
            // the end of an older file is still there
            let old = match source(sim) {
                Some(o) => o.extract(sim, 0, 7)?,
                None => src.extract(sim, 0, 7)?,
            };
            let at = some_offset(sim, n);
            b.truncate(at);
            if old.len() > at {
                b.extend_from_slice(&old[at..]);
            }
            if b == old {
                b = file.to_vec();
            }
            (b, "torn by another file")
        }
    })
}

fn run10(sim: &Sim) -> Verdict {
    let src = match source(sim) {
        Some(x) => x,
        None => return Ok(()),
    };
    let mut seed = world::boot(sim, 0);
    let file = src.extract(sim, 0, seed)?;
    let o = Options::draw(sim);
    let mut used = vec![];
    let big = sim.flip(1, 40);
    let ls: Vec<Line> = (0..if big { sim.range(5, 60) } else { sim.below(8) }).map(|_| line(sim, &src.g, &o, &mut used, big)).collect();
    let mut ls: Vec<Line> = ls;
    let mut stdin = corpus(sim, &ls);
    sim.probe_if(stdin.len() > 8192, "longer than a buffer");
    ev!(sim, "{:?} corpus {:?}", o, String::from_utf8_lossy(&stdin));
    for (on, what) in &[
        (o.beam.is_some(), "with beam"),
        (o.beam.map_or(false, |b| b >= WIDE[0]), "with a wide beam"),
        (o.delta.is_some(), "with threshold"),
        (o.candidates.is_some(), "with candidates"),
        (o.numbers, "line numbers"),
        (o.tags, "annotated tags"),
        (o.debug, "debug output"),
    ] {
        sim.probe_if(*on && !ls.is_empty(), what);
    }
    let args = o.args(sim);
    // a line that is no sentence ends the command
    let mut broken = None;
    if (o.numbers || o.tags) && !ls.is_empty() && sim.flip(1, 6) {
        let at = sim.below(ls.len());
        let l = if o.numbers { *sim.pick(&["x a", "", "-1 a", "1.5 a"]) } else { "a" };
        ls[at].text = s(l);
        stdin = corpus(sim, &ls);
        ls.truncate(at);
        broken = Some(at);
        ev!(sim, "malformed line {}", at);
    }
    if sim.flip(1, 2) {
        seed = world::boot(sim, 1);
    }
    sim.step(1, "parse");
    let x = command(sim, 1, &args, loaded(sim, file.clone(), stdin.clone(), seed));
    match (&x.result, broken) {
        (Err(e), None) => bail!("failed", "parsing fails: {}", e),
        (Ok(()), Some(at)) => bail!("malformed", "line {} is malformed, and the command succeeds", at),
        _ => (),
    }
    sim.probe_if(broken.is_some(), "malformed line");
    check_output(sim, &src, &ls, &o, &x.stdout)?;
    if o.debug {
        let err = String::from_utf8_lossy(&x.stderr).to_string();
        let rows: Vec<&str> = err.lines().collect();
        ensure!(rows.len() == ls.len() || broken.is_some(), "debug", "{} lines for {} sentences: {:?}", rows.len(), ls.len(), err);
        for (r, l) in rows.iter().zip(&ls) {
            let f: Vec<&str> = r.split(' ').collect();
            ensure!(f.len() >= 5 && f[0] == src.g.rules.len().to_string() && f[1] == l.tokens.len().to_string(), "debug", "{:?} for {:?}", r, l.text);
        }
    }
    let good = x.stdout;
    for p in 2..2 + sim.range(1, 3) {
        let mut spec = loaded(sim, file.clone(), stdin.clone(), seed);
        spec.stdin_plan = calm(sim);
        spec.stdout_plan = calm(sim);
        spec.file_plans.insert(s("/simfs/parser"), calm(sim));
        let kind = sim.below(7);
        match kind {
            0 => (),
            1 => spec.stdin_plan.fail_at = Some((some_offset(sim, stdin.len()), 5)),
            2 => spec.stdout_plan.fail_at = Some((some_offset(sim, good.len()), *sim.pick(&[28, 5, 32]))),
            3 => spec.stdout_plan.kill_at = Some(some_offset(sim, good.len())),
            4 => {
                spec.file_plans.get_mut("/simfs/parser").unwrap().fail_at = Some((some_offset(sim, file.len()), 5));
            }
            5 if !ls.is_empty() && broken.is_none() => {
                // one line alone
                let at = sim.below(ls.len());
                let l = ls.swap_remove(at);
                let id = if o.numbers { l.id } else { 0 };
                let one = [Line { id, ..l }];
                spec.stdin = corpus(sim, &one);
                sim.step(p, "parse");
                let x = command(sim, p, &args, spec);
                if let Err(e) = x.result {
                    bail!("alone", "parsing {:?} alone fails: {}", one[0].text, e);
                }
                check_output(sim, &src, &one, &o, &x.stdout)?;
                sim.probe("alone");
                return Ok(());
            }
            5 => continue,
            _ => {
                // bytes that are no text
                let at = sim.below(spec.stdin.len() + 1);
                spec.stdin.insert(at, 0xff);
                sim.fault("bytes changed");
                sim.step(p, "parse");
                let x = command(sim, p, &args, spec);
                ensure!(x.result.is_err() && x.stdout.is_empty(), "not text", "output {:?}", String::from_utf8_lossy(&x.stdout));
                sim.probe("not UTF-8");
                continue;
            }
        }
        sim.step(p, "parse");
        let x = command(sim, p, &args, spec);
        ensure!(prefix(&x.stdout, &good), "prefix", "disturbed: {:?}, undisturbed: {:?}", String::from_utf8_lossy(&x.stdout), String::from_utf8_lossy(&good));
        if x.hard == 0 && !x.killed {
            ensure!(x.result.is_ok() == broken.is_none(), "disturbed", "the command ends with {:?}", x.result);
            ensure!(x.stdout == good, "disturbed", "only {} of {} bytes of output", x.stdout.len(), good.len());
            sim.probe("disturbed stream");
        } else if !x.killed {
            ensure!(x.result.is_err(), "error", "the command succeeds in spite of an error, with {} of {} bytes of output", x.stdout.len(), good.len());
            ensure!(kind == 2 || x.stdout.is_empty(), "error", "output of a part of the input: {:?}", String::from_utf8_lossy(&x.stdout));
            sim.probe(match kind {
                1 => "input failed",
                2 => "output failed",
                _ => "parser file failed",
            });
        } else {
            sim.probe("killed");
        }
    }
    Ok(())
}
