use super::{Dfa, DfaState};
use crate::parser::{ParsedDfa, ParsedDfaState};
use std::collections::{HashMap, HashSet};
use std::rc::Rc;
use thiserror::Error;

#[derive(Debug, Error, PartialEq, Eq)]
pub enum DfaParseError<'a> {
    #[error("Wrong number of transitions for state '{0}': has {1} expected {2}")]
    WrongNumberOfTransitions(&'a str, usize, usize),
    #[error("State '{1}' does not exist (in transition from state '{0}')")]
    TransitionDoesNotExist(&'a str, &'a str),
    #[error("There is no initial state")]
    MissingInitialState,
    #[error("There are two (or more) initial states")]
    MultipleInitialStates,
    #[error("'{0}' appears twice in the alphabet")]
    DuplicateAlphabetSymbol(&'a str),
    #[error("State '{0}' defined multiple times")]
    DuplicateStateDefinition(&'a str),
}

impl<'a> TryFrom<ParsedDfa<'a>> for Dfa {
    type Error = DfaParseError<'a>;

    /// A table is a DFA exactly when symbols and names are unique, every row has one defined target
    /// per symbol, and exactly one state is initial.
    fn try_from(value: ParsedDfa<'a>) -> Result<Self, Self::Error> {
        let mut symbols = HashSet::new();
        for s in value.head.iter() {
            if !symbols.insert(*s) {
                return Err(DfaParseError::DuplicateAlphabetSymbol(s));
            }
        }
        let mut names = HashSet::new();
        for s in value.states.iter() {
            if !names.insert(s.name) {
                return Err(DfaParseError::DuplicateStateDefinition(s.name));
            }
        }
        for s in value.states.iter() {
            if s.transitions.len() != value.head.len() {
                return Err(DfaParseError::WrongNumberOfTransitions(s.name, s.transitions.len(), value.head.len()));
            }
        }
        for s in value.states.iter() {
            for t in s.transitions.iter() {
                if !names.contains(t) {
                    return Err(DfaParseError::TransitionDoesNotExist(s.name, t));
                }
            }
        }
        let mut initial = None;
        for (i, s) in value.states.iter().enumerate() {
            if s.initial {
                if initial.is_some() {
                    return Err(DfaParseError::MultipleInitialStates);
                }
                initial = Some(i);
            }
        }
        let Some(initial_state) = initial else {
            return Err(DfaParseError::MissingInitialState);
        };
        let mut number = HashMap::new();
        for (i, s) in value.states.iter().enumerate() {
            number.insert(s.name, i);
        }
        let mut states = Vec::new();
        for s in value.states.iter() {
            let mut transitions = Vec::new();
            for t in s.transitions.iter() {
                transitions.push(number[t]);
            }
            states.push(DfaState { name: Rc::from(s.name), initial: s.initial, accepting: s.accepting, transitions });
        }
        let mut alphabet: Vec<Rc<str>> = Vec::new();
        for s in value.head.iter() {
            alphabet.push(Rc::from(*s));
        }
        Ok(Dfa { alphabet: Rc::from(alphabet), states, initial_state })
    }
}

/// What each reported problem means.
pub mod defect {
    use super::*;

    pub fn duplicate_alphabet_symbol(value: ParsedDfa<'_>) -> bool {
        let mut symbols = HashSet::new();
        value.head.iter().any(|s| !symbols.insert(*s))
    }

    pub fn duplicate_state_definition(value: ParsedDfa<'_>) -> bool {
        let mut names = HashSet::new();
        value.states.iter().any(|s| !names.insert(s.name))
    }

    pub fn wrong_number_of_transitions(value: ParsedDfa<'_>) -> bool {
        value.states.iter().any(|s| s.transitions.len() != value.head.len())
    }

    pub fn transition_does_not_exist(value: ParsedDfa<'_>) -> bool {
        let mut names = HashSet::new();
        for s in value.states.iter() {
            names.insert(s.name);
        }
        value.states.iter().any(|s| s.transitions.iter().any(|t| !names.contains(t)))
    }

    pub fn multiple_initial_states(value: ParsedDfa<'_>) -> bool {
        let mut seen = false;
        for s in value.states.iter() {
            if s.initial {
                if seen {
                    return true;
                }
                seen = true;
            }
        }
        false
    }

    pub fn missing_initial_state(value: ParsedDfa<'_>) -> bool {
        !value.states.iter().any(|s| s.initial)
    }
}
