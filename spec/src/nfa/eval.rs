use super::{Nfa, NfaState};
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone)]
pub struct NfaEvaluator<'a> {
    nfa: &'a Nfa,
    rev_map: Rc<HashMap<&'a str, usize>>,
    current_states: HashSet<usize>,
    unknown_elem_seen: bool,
}

impl<'a> From<&'a Nfa> for NfaEvaluator<'a> {
    fn from(nfa: &'a Nfa) -> Self {
        let mut rev_map: HashMap<&'a str, usize> = HashMap::new();
        for (j, x) in nfa.alphabet.iter().enumerate() {
            rev_map.insert(x, j);
        }
        let current_states = nfa.closed(HashSet::from([nfa.initial_state]));
        NfaEvaluator { nfa, rev_map: Rc::new(rev_map), current_states, unknown_elem_seen: false }
    }
}

impl<'a> NfaEvaluator<'a> {
    pub fn current_states_idx(&self) -> &HashSet<usize> {
        &self.current_states
    }

    pub fn current_states(&self) -> Vec<&NfaState> {
        let mut v = Vec::new();
        for &s in self.current_states.iter() {
            v.push(&self.nfa.states[s]);
        }
        v
    }

    pub fn is_accepting(&self) -> bool {
        if self.unknown_elem_seen {
            return false;
        }
        for &s in self.current_states.iter() {
            if self.nfa.states[s].accepting {
                return true;
            }
        }
        false
    }

    /// Once a symbol outside the alphabet has been read nothing is accepted any more.
    pub fn step(&mut self, elem: &str) -> Option<()> {
        if self.unknown_elem_seen {
            return None;
        }
        let Some(&i) = self.rev_map.get(elem) else {
            self.unknown_elem_seen = true;
            return None;
        };
        let mut after = HashSet::new();
        for &a in self.current_states.iter() {
            for &b in self.nfa.states[a].transitions[i].iter() {
                after.insert(b);
            }
        }
        self.current_states = self.nfa.closed(after);
        Some(())
    }

    pub fn step_multiple(&mut self, elems: &[&str]) -> Option<()> {
        for e in elems {
            if self.step(e).is_none() {
                self.unknown_elem_seen = true;
                return None;
            }
        }
        Some(())
    }

    pub fn step_all(&self) -> Vec<NfaEvaluator<'a>> {
        let mut v = Vec::new();
        for s in self.nfa.alphabet.iter() {
            let mut e = self.clone();
            e.step(s);
            v.push(e);
        }
        v
    }
}
