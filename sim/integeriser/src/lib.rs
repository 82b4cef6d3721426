//! Stand-in for the crate `integeriser` (github.com/tud-fop/rust-integeriser),
//! which the root crate of /repo depends on and which cannot be fetched here.
//! It numbers items from 0 in the order in which they are first seen; that is
//! all the code in /repo relies on.
use std::collections::HashMap;
use std::hash::Hash;

pub trait Integeriser {
    type Item;
    fn integerise(&mut self, item: Self::Item) -> usize;
    fn find_value(&self, key: usize) -> Option<&Self::Item>;
    fn find_key(&self, value: &Self::Item) -> Option<usize>;
    fn size(&self) -> usize;
}

#[derive(Clone, Debug)]
pub struct HashIntegeriser<A: Eq + Hash> {
    map: HashMap<A, usize>,
    rmap: Vec<A>,
}

impl<A: Eq + Hash> HashIntegeriser<A> {
    pub fn new() -> Self {
        HashIntegeriser { map: HashMap::new(), rmap: Vec::new() }
    }
    pub fn values(&self) -> &[A] {
        &self.rmap
    }
}

impl<A: Eq + Hash> Default for HashIntegeriser<A> {
    fn default() -> Self {
        Self::new()
    }
}

impl<A: Eq + Hash> PartialEq for HashIntegeriser<A> {
    fn eq(&self, other: &Self) -> bool {
        self.rmap == other.rmap
    }
}

impl<A: Eq + Hash> Eq for HashIntegeriser<A> {}

impl<A: Clone + Eq + Hash> Integeriser for HashIntegeriser<A> {
    type Item = A;
    fn integerise(&mut self, item: A) -> usize {
        if let Some(&i) = self.map.get(&item) {
            return i;
        }
        let i = self.rmap.len();
        self.rmap.push(item.clone());
        self.map.insert(item, i);
        i
    }
    fn find_value(&self, key: usize) -> Option<&A> {
        self.rmap.get(key)
    }
    fn find_key(&self, value: &A) -> Option<usize> {
        self.map.get(value).cloned()
    }
    fn size(&self) -> usize {
        self.rmap.len()
    }
}
