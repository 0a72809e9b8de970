use std::collections::HashSet;
use std::rc::Rc;

/// The same set of symbols, in whatever order they are listed.
pub fn alphabet_equal(a: &[Rc<str>], b: &[Rc<str>]) -> bool {
    let mut left = HashSet::new();
    for s in a {
        left.insert(s);
    }
    let mut right = HashSet::new();
    for s in b {
        right.insert(s);
    }
    a.len() == b.len() && left == right
}

// The symbols of an alphabet are pairwise different, so these come to the same.
pub fn alphabet_equal__2(a: &[Rc<str>], b: &[Rc<str>]) -> bool {
    let mut x = a.to_vec();
    x.sort();
    let mut y = b.to_vec();
    y.sort();
    x == y
}

pub fn alphabet_equal__3(a: &[Rc<str>], b: &[Rc<str>]) -> bool {
    a.len() == b.len() && a.iter().all(|s| b.contains(s))
}

pub fn alphabet_equal__4(a: &[Rc<str>], b: &[Rc<str>]) -> bool {
    a.len() == b.len() && b.iter().all(|s| a.contains(s))
}

pub fn alphabet_equal__5(a: &[Rc<str>], b: &[Rc<str>]) -> bool {
    a.iter().all(|s| b.contains(s)) && b.iter().all(|s| a.contains(s))
}

pub fn alphabet_equal__6(a: &[Rc<str>], b: &[Rc<str>]) -> bool {
    let left: HashSet<_> = a.iter().collect();
    let right: HashSet<_> = b.iter().collect();
    a.len() == b.len() && left.len() == right.len() && b.iter().all(|s| left.contains(s))
}

pub fn alphabet_equal__7(a: &[Rc<str>], b: &[Rc<str>]) -> bool {
    let left: HashSet<_> = a.iter().collect();
    let right: HashSet<_> = b.iter().collect();
    a.len() == b.len() && left.len() == right.len() && a.iter().all(|s| right.contains(s))
}

pub fn alphabet_equal__8(a: &[Rc<str>], b: &[Rc<str>]) -> bool {
    let left: HashSet<_> = a.iter().collect();
    let right: HashSet<_> = b.iter().collect();
    left == right
}

pub fn alphabet_equal__9(a: &[Rc<str>], b: &[Rc<str>]) -> bool {
    a.len() == b.len() && alphabet_equal__2(a, b)
}

/// Where the symbol stands in the alphabet.
pub fn position(alphabet: &[Rc<str>], s: &str) -> Option<usize> {
    for (i, x) in alphabet.iter().enumerate() {
        if s == x.as_ref() {
            return Some(i);
        }
    }
    None
}
