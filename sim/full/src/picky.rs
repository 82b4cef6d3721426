//! Symbols and weights that refuse some texts, as `char` or `LogDomain` do.
use std::cell::Cell;
use std::fmt;
use std::str::FromStr;

thread_local!(static REFUSED: Cell<Option<char>> = Cell::new(None));

/// From now on, this process refuses symbols that contain the character.
pub fn refuse(c: Option<char>) {
    REFUSED.with(|r| r.set(c));
}

pub fn refused(c: Option<char>, s: &str) -> bool {
    c.map_or(false, |c| s.contains(c))
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Picky(pub String);

impl FromStr for Picky {
    type Err = String;
    fn from_str(s: &str) -> Result<Self, String> {
        if refused(REFUSED.with(|r| r.get()), s) {
            Err(format!("{:?} is no symbol", s))
        } else {
            Ok(Picky(s.to_string()))
        }
    }
}

impl fmt::Display for Picky {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.0.fmt(f)
    }
}
