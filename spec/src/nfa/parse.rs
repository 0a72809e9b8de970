use super::{Nfa, NfaState};
use crate::parser::{NfaAlphabetEntry, ParsedNfa, ParsedNfaState};
use std::collections::{HashMap, HashSet};
use std::rc::Rc;
use thiserror::Error;

#[derive(Debug, Error, PartialEq)]
pub enum NfaParseError<'a> {
    #[error("Wrong number of transitions for state '{0}': has {1} expected {2}")]
    WrongNumberOfTransitions(&'a str, usize, usize),
    #[error("State '{1}' does not exist (in transition from state '{0}')")]
    TransitionDoesNotExist(&'a str, &'a str),
    #[error("There is no initial state")]
    MissingInitialState,
    #[error("There are two (or more) initial states")]
    MultipleInitialStates,
    #[error("'{0}' appears twice in the alphabet")]
    DuplicateAlphabetSymbol(&'a str),
    #[error("State '{0}' defined multiple times")]
    DuplicateStateDefinition(&'a str),
}

impl<'a> TryFrom<ParsedNfa<'a>> for Nfa {
    type Error = NfaParseError<'a>;

    /// A table is an NFA exactly when symbols (and the epsilon column) and names are unique, every row
    /// has one set per column, every target is defined, and exactly one state is initial.
    fn try_from(value: ParsedNfa<'a>) -> Result<Self, Self::Error> {
        let mut eps_seen = false;
        let mut symbols = HashSet::new();
        for entry in value.head.iter() {
            match entry {
                NfaAlphabetEntry::Element(s) => {
                    if !symbols.insert(*s) {
                        return Err(NfaParseError::DuplicateAlphabetSymbol(s));
                    }
                }
                NfaAlphabetEntry::Eps => {
                    if eps_seen {
                        return Err(NfaParseError::DuplicateAlphabetSymbol("ε"));
                    }
                    eps_seen = true;
                }
            }
        }
        let mut names = HashSet::new();
        for s in value.states.iter() {
            if !names.insert(s.name) {
                return Err(NfaParseError::DuplicateStateDefinition(s.name));
            }
        }
        for s in value.states.iter() {
            if s.transitions.len() != value.head.len() {
                return Err(NfaParseError::WrongNumberOfTransitions(s.name, s.transitions.len(), value.head.len()));
            }
        }
        for s in value.states.iter() {
            for set in s.transitions.iter() {
                for t in set.iter() {
                    if !names.contains(t) {
                        return Err(NfaParseError::TransitionDoesNotExist(s.name, t));
                    }
                }
            }
        }
        let mut initial = None;
        for (i, s) in value.states.iter().enumerate() {
            if s.initial {
                if initial.is_some() {
                    return Err(NfaParseError::MultipleInitialStates);
                }
                initial = Some(i);
            }
        }
        let Some(initial_state) = initial else {
            return Err(NfaParseError::MissingInitialState);
        };
        let mut number = HashMap::new();
        for (i, s) in value.states.iter().enumerate() {
            number.insert(s.name, i);
        }
        let mut states = Vec::new();
        for s in value.states.iter() {
            let mut epsilon_transitions = Vec::new();
            let mut transitions = Vec::new();
            for (set, entry) in s.transitions.iter().zip(value.head.iter()) {
                let mut targets = Vec::new();
                for t in set.iter() {
                    targets.push(number[t]);
                }
                match entry {
                    NfaAlphabetEntry::Eps => epsilon_transitions = targets,
                    NfaAlphabetEntry::Element(_) => transitions.push(targets),
                }
            }
            states.push(NfaState {
                name: Rc::from(s.name),
                initial: s.initial,
                accepting: s.accepting,
                epsilon_transitions,
                transitions,
            });
        }
        let mut alphabet: Vec<Rc<str>> = Vec::new();
        for entry in value.head.iter() {
            if let NfaAlphabetEntry::Element(s) = entry {
                alphabet.push(Rc::from(*s));
            }
        }
        Ok(Nfa { alphabet: Rc::from(alphabet), states, initial_state })
    }
}

/// What each reported problem means.
pub mod defect {
    use super::*;

    pub fn duplicate_alphabet_symbol(value: ParsedNfa<'_>) -> bool {
        let mut eps_seen = false;
        let mut symbols = HashSet::new();
        for entry in value.head.iter() {
            match entry {
                NfaAlphabetEntry::Element(s) => {
                    if !symbols.insert(*s) {
                        return true;
                    }
                }
                NfaAlphabetEntry::Eps => {
                    if eps_seen {
                        return true;
                    }
                    eps_seen = true;
                }
            }
        }
        false
    }

    pub fn duplicate_state_definition(value: ParsedNfa<'_>) -> bool {
        let mut names = HashSet::new();
        value.states.iter().any(|s| !names.insert(s.name))
    }

    pub fn wrong_number_of_transitions(value: ParsedNfa<'_>) -> bool {
        value.states.iter().any(|s| s.transitions.len() != value.head.len())
    }

    pub fn transition_does_not_exist(value: ParsedNfa<'_>) -> bool {
        let mut names = HashSet::new();
        for s in value.states.iter() {
            names.insert(s.name);
        }
        value.states.iter().any(|s| s.transitions.iter().any(|set| set.iter().any(|t| !names.contains(t))))
    }

    pub fn multiple_initial_states(value: ParsedNfa<'_>) -> bool {
        let mut seen = false;
        for s in value.states.iter() {
            if s.initial {
                if seen {
                    return true;
                }
                seen = true;
            }
        }
        false
    }

    pub fn missing_initial_state(value: ParsedNfa<'_>) -> bool {
        !value.states.iter().any(|s| s.initial)
    }
}
