use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Regex {
    pub tree: RegexTree,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum RegexTree {
    Sequence(Vec<RegexTree>),
    Alt(Vec<RegexTree>),
    Repeat(Box<RegexTree>),
    Char(RegexChar),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum RegexChar {
    Grapheme(Rc<str>),
    Epsilon,
    Empty,
}

use crate::nfa::{Nfa, NfaState};
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq, Eq)]
struct StateCounter {
    state: usize,
}

fn fresh(counter: &mut StateCounter) -> usize {
    let n = counter.state;
    counter.state = n + 1;
    n
}

fn plain(index: usize) -> NfaState {
    NfaState { name: Rc::from(index.to_string()), initial: false, accepting: false, epsilon_transitions: vec![], transitions: vec![] }
}

impl Regex {
    /// State 0 accepts, state 1 starts and moves on to the fragment of the whole expression.
    /// Symbols are numbered in the order in which the fragments first ask for them.
    pub fn to_nfa(self) -> Nfa {
        let mut counter = StateCounter { state: 0 };
        let mut columns: HashMap<Rc<str>, usize> = HashMap::new();
        let mut next = 0..;
        let mut column_of = |g: Rc<str>| -> usize { *columns.entry(g).or_insert_with(|| next.next().unwrap()) };
        let mut end = plain(fresh(&mut counter));
        end.accepting = true;
        let mut start = plain(fresh(&mut counter));
        start.initial = true;
        start.epsilon_transitions = vec![counter.state];
        let rest = Self::tree_to_nfa(self.tree, &mut counter, &mut column_of, 0);
        let mut states = vec![end, start];
        for s in rest {
            states.push(s);
        }
        for s in states.iter_mut() {
            s.transitions.resize(columns.len(), vec![]);
        }
        let mut listed = columns.into_iter().collect::<Vec<_>>();
        listed.sort_by_key(|(_, i)| *i);
        let alphabet = listed.into_iter().map(|(s, _)| s).collect();
        Nfa { alphabet, states, initial_state: 1 }
    }

    pub fn to_string(&self) -> String {
        let mut text = String::new();
        Self::build_string(&self.tree, &mut text);
        text
    }

    /// Alternatives and repetitions are parenthesised, reserved characters are escaped.
    fn build_string(tree: &RegexTree, acc: &mut String) {
        match tree {
            RegexTree::Char(RegexChar::Empty) => acc.push('∅'),
            RegexTree::Char(RegexChar::Epsilon) => acc.push('ε'),
            RegexTree::Char(RegexChar::Grapheme(g)) => {
                if let Some(c) = g.chars().next() {
                    if c == '(' || c == ')' || c == '∅' || c == 'ε' || c == '|' || c == '*' || c == '+' || c == '\\' {
                        acc.push('\\');
                    }
                }
                acc.push_str(g);
            }
            RegexTree::Sequence(items) => {
                for x in items {
                    Self::build_string(x, acc);
                }
            }
            RegexTree::Alt(items) => {
                acc.push('(');
                for (i, x) in items.iter().enumerate() {
                    if i > 0 {
                        acc.push('|');
                    }
                    Self::build_string(x, acc);
                }
                acc.push(')');
            }
            RegexTree::Repeat(inner) => {
                acc.push('(');
                Self::build_string(inner, acc);
                acc.push_str(")*");
            }
        }
    }

    /// The fragment of a tree: its first state is its entry, and whoever gets through it arrives at `send_to`.
    fn tree_to_nfa(tree: RegexTree, counter: &mut StateCounter, grapheme_idx: &mut impl FnMut(Rc<str>) -> usize, send_to: usize) -> Vec<NfaState> {
        let own = fresh(counter);
        let mut entry = plain(own);
        match tree {
            RegexTree::Char(RegexChar::Empty) => vec![entry],
            RegexTree::Char(RegexChar::Epsilon) => {
                entry.epsilon_transitions.push(send_to);
                vec![entry]
            }
            RegexTree::Char(RegexChar::Grapheme(g)) => {
                let column = grapheme_idx(g);
                for _ in 0..column {
                    entry.transitions.push(vec![]);
                }
                entry.transitions.push(vec![send_to]);
                vec![entry]
            }
            RegexTree::Repeat(inner) => {
                entry.epsilon_transitions.push(counter.state);
                entry.epsilon_transitions.push(send_to);
                let body = Self::tree_to_nfa(*inner, counter, grapheme_idx, own);
                let mut all = vec![entry];
                for s in body {
                    all.push(s);
                }
                all
            }
            RegexTree::Alt(items) => {
                let mut bodies = vec![];
                for x in items {
                    entry.epsilon_transitions.push(counter.state);
                    for s in Self::tree_to_nfa(x, counter, grapheme_idx, send_to) {
                        bodies.push(s);
                    }
                }
                let mut all = vec![entry];
                for s in bodies {
                    all.push(s);
                }
                all
            }
            RegexTree::Sequence(items) => {
                if items.is_empty() {
                    entry.epsilon_transitions.push(send_to);
                    return vec![entry];
                }
                entry.epsilon_transitions.push(counter.state + 1);
                let n = items.len();
                let mut bodies = vec![];
                for (i, x) in items.into_iter().enumerate() {
                    let after = fresh(counter);
                    let mut joint = plain(after);
                    let body = Self::tree_to_nfa(x, counter, grapheme_idx, after);
                    if i + 1 == n {
                        joint.epsilon_transitions.push(send_to);
                    } else {
                        joint.epsilon_transitions.push(counter.state + 1);
                    }
                    bodies.push(joint);
                    for s in body {
                        bodies.push(s);
                    }
                }
                let mut all = vec![entry];
                for s in bodies {
                    all.push(s);
                }
                all
            }
        }
    }
}
