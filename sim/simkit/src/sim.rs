//! The decision source of a run.
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex, MutexGuard};

pub fn splitmix(state: &mut u64) -> u64 {
    *state = state.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *state;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn fnv(h: u64, bytes: &[u8]) -> u64 {
    let mut h = h;
    for &b in bytes {
        h ^= u64::from(b);
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    h
}
pub const FNV0: u64 = 0xcbf2_9ce4_8422_2325;

#[derive(Clone, Debug)]
pub struct Violation {
    /// class of the violation; minimisation keeps it
    pub kind: String,
    pub msg: String,
}

impl Violation {
    pub fn new<S: Into<String>, M: Into<String>>(kind: S, msg: M) -> Self {
        Violation { kind: kind.into(), msg: msg.into() }
    }
}

pub type Verdict = Result<(), Violation>;

pub struct Inner {
    rng: u64,
    replay: Option<Vec<u64>>,
    pub tape: Vec<u64>,
    tape_sink: Option<std::fs::File>,
    pub log: Vec<String>,
    log_bytes: usize,
    pub keep_log: bool,
    pub digest: u64,
    /// digest over the schedule and fault decisions only
    pub shape: u64,
    pub steps: u64,
    pub switches: u64,
    last_actor: u64,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub sim_ns: u64,
    pub known: Vec<(String, String)>,
}

/// Handle to the decision source; clones share it.
#[derive(Clone)]
pub struct Sim(Arc<Mutex<Inner>>);

impl Sim {
    fn make(rng: u64, replay: Option<Vec<u64>>, keep_log: bool) -> Sim {
        Sim(Arc::new(Mutex::new(Inner {
            rng,
            replay,
            tape: Vec::new(),
            tape_sink: None,
            log: Vec::new(),
            log_bytes: 0,
            keep_log,
            digest: FNV0,
            shape: FNV0,
            steps: 0,
            switches: 0,
            last_actor: u64::MAX,
            faults: BTreeMap::new(),
            probes: BTreeMap::new(),
            sim_ns: 0,
            known: Vec::new(),
        })))
    }
    pub fn from_seed(seed: u64, keep_log: bool) -> Sim {
        Sim::make(seed, None, keep_log)
    }
    pub fn from_tape(tape: Vec<u64>, keep_log: bool) -> Sim {
        Sim::make(0, Some(tape), keep_log)
    }
    pub fn set_tape_sink(&self, f: std::fs::File) {
        self.lock().tape_sink = Some(f);
    }
    pub fn lock(&self) -> MutexGuard<'_, Inner> {
        match self.0.lock() {
            Ok(g) => g,
            Err(p) => p.into_inner(),
        }
    }

    /// A number in `0..n`; 0 is the simplest choice.
    pub fn choose(&self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let mut g = self.lock();
        let v = match g.replay {
            Some(ref t) => t.get(g.tape.len()).cloned().unwrap_or(0) % n,
            None => {
                let mut s = g.rng;
                let r = splitmix(&mut s);
                g.rng = s;
                r % n
            }
        };
        g.tape.push(v);
        if let Some(f) = g.tape_sink.as_mut() {
            // not through `write`, which the simulated system interposes
            let b = v.to_le_bytes();
            use std::os::unix::io::AsRawFd;
            unsafe {
                libc::syscall(libc::SYS_write, f.as_raw_fd(), b.as_ptr(), b.len());
            }
        }
        v
    }
    pub fn below(&self, n: usize) -> usize {
        self.choose(n as u64) as usize
    }
    /// A number in `lo..=hi`.
    pub fn range(&self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// True with probability `num / den`.
    pub fn flip(&self, num: u64, den: u64) -> bool {
        // false is the simple outcome, so it must come first
        self.choose(den) >= den - num
    }
    pub fn pick<'a, T>(&self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            // 0 keeps the element in place
            let j = i - self.below(i + 1);
            v.swap(i, j);
        }
    }
    /// A seed for a hasher of a simulated process.
    pub fn seed(&self) -> u64 {
        self.choose(1 << 40)
    }

    /// Record an event in the log.
    pub fn ev(&self, s: String) {
        let mut g = self.lock();
        g.digest = fnv(fnv(g.digest, s.as_bytes()), b"\n");
        if g.keep_log && g.log_bytes < 400_000 {
            g.log_bytes += s.len();
            let n = g.steps;
            g.log.push(format!("{:>4} {}", n, s));
        }
    }
    /// Record that actor `who` was scheduled to do `what`.
    pub fn step(&self, who: usize, what: &str) {
        let mut g = self.lock();
        g.steps += 1;
        g.sim_ns += 1000;
        if g.last_actor != who as u64 {
            if g.last_actor != u64::MAX {
                g.switches += 1;
            }
            g.last_actor = who as u64;
        }
        let h = fnv(fnv(g.shape, &(who as u64).to_le_bytes()), what.as_bytes());
        g.shape = h;
    }
    /// Record that a fault really fired.
    pub fn fault(&self, kind: &str) {
        let mut g = self.lock();
        *g.faults.entry(kind.to_string()).or_insert(0) += 1;
        g.shape = fnv(g.shape, kind.as_bytes());
    }
    /// Record that a rare condition was reached.
    pub fn probe(&self, name: &str) {
        *self.lock().probes.entry(name.to_string()).or_insert(0) += 1;
    }
    pub fn probe_if(&self, c: bool, name: &str) {
        if c {
            self.probe(name)
        }
    }
    /// Mix something into the measure of distinct executions.
    pub fn shape(&self, bytes: &[u8]) {
        let mut g = self.lock();
        g.shape = fnv(g.shape, bytes);
    }
    /// Advance the simulated clock.
    pub fn tick(&self, ns: u64) {
        self.lock().sim_ns += ns;
    }
    pub fn now(&self) -> u64 {
        self.lock().sim_ns
    }
    pub fn faults_fired(&self) -> u64 {
        self.lock().faults.values().sum()
    }
    /// Report a violation that is listed in the known findings.
    pub fn known(&self, key: &str, msg: &str) {
        self.lock().known.push((key.to_string(), msg.to_string()));
    }
}
