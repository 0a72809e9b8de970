use super::{Dfa, DfaState};
use std::collections::HashMap;

#[derive(Clone)]
pub struct DfaEvaluator<'a> {
    dfa: &'a Dfa,
    rev_map: HashMap<&'a str, usize>,
    current_state: usize,
    unknown_elem_seen: bool,
}

impl<'a> From<&'a Dfa> for DfaEvaluator<'a> {
    fn from(dfa: &'a Dfa) -> Self {
        let mut rev_map: HashMap<&'a str, usize> = HashMap::new();
        for (j, x) in dfa.alphabet.iter().enumerate() {
            rev_map.insert(x, j);
        }
        DfaEvaluator { dfa, rev_map, current_state: dfa.initial_state, unknown_elem_seen: false }
    }
}

impl<'a> DfaEvaluator<'a> {
    pub fn current_state_idx(&self) -> usize {
        self.current_state
    }

    /// Nothing once a symbol outside the alphabet has been read.
    pub fn current_state(&self) -> Option<&DfaState> {
        if self.unknown_elem_seen {
            return None;
        }
        Some(&self.dfa.states[self.current_state])
    }

    pub fn is_accepting(&self) -> bool {
        !self.unknown_elem_seen && self.dfa.states[self.current_state].accepting
    }

    pub fn step(&mut self, elem: &str) -> Option<&DfaState> {
        if !self.unknown_elem_seen {
            if let Some(i) = self.rev_map.get(elem) {
                self.current_state = self.dfa.states[self.current_state].transitions[*i];
                return Some(&self.dfa.states[self.current_state]);
            }
        }
        self.unknown_elem_seen = true;
        None
    }

    pub fn step_multiple(&mut self, elems: &[&str]) -> Option<&DfaState> {
        for e in elems {
            self.step(e);
            if self.unknown_elem_seen {
                return None;
            }
        }
        self.current_state()
    }

    pub fn step_all(&self) -> Vec<DfaEvaluator<'a>> {
        let mut v = Vec::new();
        for s in self.dfa.alphabet.iter() {
            let mut e = self.clone();
            e.step(s);
            v.push(e);
        }
        v
    }
}
