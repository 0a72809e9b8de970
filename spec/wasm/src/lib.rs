//! Reference: what each binding does with the loaded automata.
#![allow(clippy::all)]
use dandy::dfa::parse::DfaParseError;
use dandy::dfa::Dfa;
use dandy::nfa::parse::NfaParseError;
use dandy::nfa::Nfa;
use dandy::regex::Regex;
use std::cell::RefCell;
use std::collections::HashMap;
use std::ops::RangeFrom;

thread_local! {
    static DFA_MAP: RefCell<HashMap<usize, Dfa>> = RefCell::default();
    static NFA_MAP: RefCell<HashMap<usize, Nfa>> = RefCell::default();
    static REGEX_MAP: RefCell<HashMap<usize, Regex>> = RefCell::default();
    static KEYGEN: RefCell<RangeFrom<usize>> = RefCell::from(1usize..);
}

// a key that was never given out
fn gen_key() -> usize {
    KEYGEN.with_borrow_mut(|g| g.next().unwrap())
}

fn push_regex(regex: Regex) -> usize {
    let key = gen_key();
    REGEX_MAP.with_borrow_mut(|m| {
        m.insert(key, regex);
    });
    key
}

fn push_dfa(dfa: Dfa) -> usize {
    let key = gen_key();
    DFA_MAP.with_borrow_mut(|m| {
        m.insert(key, dfa);
    });
    key
}

fn push_nfa(nfa: Nfa) -> usize {
    let key = gen_key();
    NFA_MAP.with_borrow_mut(|m| {
        m.insert(key, nfa);
    });
    key
}

fn dfa_of(key: usize) -> Option<Dfa> {
    DFA_MAP.with_borrow(|m| m.get(&key).cloned())
}

fn nfa_of(key: usize) -> Option<Nfa> {
    NFA_MAP.with_borrow(|m| m.get(&key).cloned())
}

pub fn load_regex(input: &str) -> Result<usize, String> {
    match dandy::parser::regex(input) {
        Err(e) => Err(format!("Error parsing Regex: {e:?}")),
        Ok(r) => Ok(push_regex(r)),
    }
}

pub fn load_dfa(input: &str) -> Result<usize, String> {
    match dandy::parser::dfa(input) {
        Err(e) => Err(format!("Error parsing DFA: {e:?}")),
        Ok(parsed) => {
            let dfa: Result<Dfa, DfaParseError> = parsed.try_into();
            match dfa {
                Err(e) => Err(e.to_string()),
                Ok(d) => Ok(push_dfa(d)),
            }
        }
    }
}

pub fn load_nfa(input: &str) -> Result<usize, String> {
    match dandy::parser::nfa(input) {
        Err(e) => Err(format!("Error parsing NFA: {e:?}")),
        Ok(parsed) => {
            let nfa: Result<Nfa, NfaParseError> = parsed.try_into();
            match nfa {
                Err(e) => Err(e.to_string()),
                Ok(n) => Ok(push_nfa(n)),
            }
        }
    }
}

// converting leaves the source loaded
pub fn regex_to_nfa(regex: usize) -> Option<usize> {
    match REGEX_MAP.with_borrow(|m| m.get(&regex).cloned()) {
        None => None,
        Some(r) => Some(push_nfa(r.to_nfa())),
    }
}

pub fn dfa_to_nfa(dfa: usize) -> Option<usize> {
    match dfa_of(dfa) {
        None => None,
        Some(d) => Some(push_nfa(d.to_nfa())),
    }
}

pub fn nfa_to_dfa(nfa: usize) -> Option<usize> {
    match nfa_of(nfa) {
        None => None,
        Some(n) => Some(push_dfa(n.to_dfa())),
    }
}

pub fn minimize_dfa(dfa: usize) -> bool {
    DFA_MAP.with_borrow_mut(|m| match m.get_mut(&dfa) {
        None => false,
        Some(d) => {
            d.minimize();
            true
        }
    })
}

pub fn check_dfa_eq(dfa1: usize, dfa2: usize) -> Option<bool> {
    match (dfa_of(dfa1), dfa_of(dfa2)) {
        (Some(a), Some(b)) => Some(a.equivalent_to(&b)),
        _ => None,
    }
}

pub fn check_nfa_eq(nfa1: usize, nfa2: usize) -> Option<bool> {
    match (nfa_of(nfa1), nfa_of(nfa2)) {
        (Some(a), Some(b)) => Some(a.equivalent_to(&b)),
        _ => None,
    }
}

pub fn dfa_to_table(dfa: usize) -> Option<String> {
    dfa_of(dfa).map(|d| d.to_table())
}

pub fn nfa_to_table(nfa: usize) -> Option<String> {
    nfa_of(nfa).map(|n| n.to_table())
}

pub fn delete_regex(regex: usize) -> bool {
    REGEX_MAP.with_borrow_mut(|m| m.remove(&regex).is_some())
}

pub fn delete_dfa(dfa: usize) -> bool {
    DFA_MAP.with_borrow_mut(|m| m.remove(&dfa).is_some())
}

pub fn delete_nfa(nfa: usize) -> bool {
    NFA_MAP.with_borrow_mut(|m| m.remove(&nfa).is_some())
}
