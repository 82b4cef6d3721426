//! Values whose creation, copies and drops are accounted for.
use simkit::Sim;
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::rc::Rc;

#[derive(Default)]
struct Accounts {
    live: BTreeSet<u32>,
    last: u32,
    /// (original, copy) pairs since the log was last taken
    copies: Vec<(u32, u32)>,
}

#[derive(Clone, Default)]
pub struct Registry(Rc<RefCell<Accounts>>);

impl Registry {
    pub fn live(&self, uid: u32) -> bool {
        self.0.borrow().live.contains(&uid)
    }
    pub fn snapshot(&self) -> BTreeSet<u32> {
        self.0.borrow().live.clone()
    }
    pub fn token(&self, weight: u32) -> Token {
        let mut g = self.0.borrow_mut();
        g.last += 1;
        let uid = g.last;
        g.live.insert(uid);
        Token { uid, weight, reg: self.clone() }
    }
    pub fn take_copies(&self) -> Vec<(u32, u32)> {
        std::mem::replace(&mut self.0.borrow_mut().copies, Vec::new())
    }
}

/// A value with an identity of its own; a copy is a value of its own.
pub struct Token {
    pub uid: u32,
    pub weight: u32,
    reg: Registry,
}

impl Clone for Token {
    fn clone(&self) -> Self {
        let t = self.reg.token(self.weight);
        self.reg.0.borrow_mut().copies.push((self.uid, t.uid));
        t
    }
}

impl Drop for Token {
    fn drop(&mut self) {
        let known = self.reg.0.borrow_mut().live.remove(&self.uid);
        assert!(known, "value {} dropped twice", self.uid);
    }
}

/// A source of items with a legal size announcement of its own choosing.
pub struct Announced<I> {
    items: I,
    lower: usize,
    upper: Option<usize>,
}

impl<I: Iterator> Announced<I> {
    /// `n` is the number of items that will come.
    pub fn new(sim: &Sim, n: usize, items: I) -> Self {
        let (lower, upper) = announcement(sim, n);
        Announced { items, lower, upper }
    }
}

pub fn announcement(sim: &Sim, n: usize) -> (usize, Option<usize>) {
    let upper = match sim.below(7) {
        0 | 1 => None,
        2 => Some(n + sim.below(1000)),
        3 => Some(usize::MAX),
        4 => Some(n + (1 << 40)),
        _ => Some(n),
    };
    let lower = match sim.below(3) {
        0 => 0,
        1 => sim.below(n + 1),
        _ => n,
    };
    (lower, upper)
}

impl<I: Iterator> Iterator for Announced<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        let r = self.items.next();
        if r.is_some() {
            self.lower = self.lower.saturating_sub(1);
            self.upper = self.upper.map(|u| u.saturating_sub(1));
        }
        r
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.lower, self.upper)
    }
}

/// A weight in sixteenths; multiplication rounds down.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Fixed(pub u32);

impl std::ops::Mul for Fixed {
    type Output = Fixed;
    fn mul(self, o: Fixed) -> Fixed {
        Fixed(self.0 * o.0 / 16)
    }
}
