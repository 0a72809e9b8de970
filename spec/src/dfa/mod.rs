use crate::nfa::{Nfa, NfaState};
use crate::util::*;
use eval::DfaEvaluator;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;
use unicode_segmentation::UnicodeSegmentation;

pub mod eval;
pub mod parse;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Dfa {
    pub(crate) alphabet: Rc<[Rc<str>]>,
    pub(crate) states: Vec<DfaState>,
    pub(crate) initial_state: usize,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct DfaState {
    pub(crate) name: Rc<str>,
    pub(crate) initial: bool,
    pub(crate) accepting: bool,
    pub(crate) transitions: Vec<usize>,
}

impl DfaState {
    pub fn name(&self) -> &str {
        &self.name
    }
    pub fn is_initial(&self) -> bool {
        self.initial
    }
    pub fn is_accepting(&self) -> bool {
        self.accepting
    }
    pub fn transitions(&self) -> &[usize] {
        &self.transitions
    }
}

impl From<DfaState> for NfaState {
    fn from(s: DfaState) -> NfaState {
        let mut transitions = Vec::new();
        for t in s.transitions {
            transitions.push(vec![t]);
        }
        NfaState {
            name: s.name,
            initial: s.initial,
            accepting: s.accepting,
            epsilon_transitions: Vec::new(),
            transitions,
        }
    }
}

impl From<Dfa> for Nfa {
    fn from(d: Dfa) -> Nfa {
        d.to_nfa()
    }
}

impl Dfa {
    pub fn alphabet(&self) -> &[Rc<str>] {
        &self.alphabet
    }
    pub fn states(&self) -> &[DfaState] {
        &self.states
    }
    pub fn initial_state(&self) -> &DfaState {
        &self.states[self.initial_state]
    }
    pub fn initial_state_index(&self) -> usize {
        self.initial_state
    }
    pub fn evaluator(&self) -> DfaEvaluator<'_> {
        DfaEvaluator::from(self)
    }

    /// Complement: every state changes side.
    pub fn invert(&mut self) {
        for s in self.states.iter_mut() {
            s.accepting = !s.accepting;
        }
    }

    pub fn to_nfa(self) -> Nfa {
        let mut states = Vec::new();
        for s in self.states {
            states.push(NfaState::from(s));
        }
        Nfa { alphabet: self.alphabet, states, initial_state: self.initial_state }
    }

    pub fn union(&self, other: &Self) -> Option<Self> {
        self.product_construction(other, |a, b| a.accepting || b.accepting)
    }
    pub fn intersection(&self, other: &Self) -> Option<Self> {
        self.product_construction(other, |a, b| a.accepting && b.accepting)
    }
    pub fn difference(&self, other: &Self) -> Option<Self> {
        self.product_construction(other, |a, b| a.accepting && !b.accepting)
    }
    pub fn symmetric_difference(&self, other: &Self) -> Option<Self> {
        self.product_construction(other, |a, b| a.accepting != b.accepting)
    }

    /// The state reached on the symbol of *self's* alphabet.
    fn next_pair(&self, other: &Self, p: (usize, usize), i: usize, s: &Rc<str>) -> (usize, usize) {
        let mut index = HashMap::new();
        for (j, x) in other.alphabet.iter().enumerate() {
            index.insert(x, j);
        }
        (self.states[p.0].transitions[i], other.states[p.1].transitions[index[s]])
    }

    /// A pair is called `(left,right)`, unless that would give two pairs the same name: then the pairs are numbered.
    fn pair_names(&self, other: &Self, pairs: &HashSet<(usize, usize)>, n: usize) -> HashMap<(usize, usize), Rc<str>> {
        let mut used: HashSet<Rc<str>> = HashSet::new();
        let mut names = HashMap::new();
        for (a, b) in pairs.iter() {
            let name: Rc<str> = Rc::from(format!("({},{})", self.states[*a].name, other.states[*b].name));
            if !used.insert(name.clone()) {
                break;
            }
            names.insert((*a, *b), name);
        }
        if names.len() < n {
            let mut numbers: HashMap<(usize, usize), Rc<str>> = HashMap::new();
            for (i, p) in pairs.iter().enumerate() {
                numbers.insert(*p, Rc::from(i.to_string()));
            }
            numbers
        } else {
            names
        }
    }

    pub fn product_construction(
        &self,
        other: &Self,
        mut combinator: impl FnMut(&DfaState, &DfaState) -> bool,
    ) -> Option<Self> {
        if !alphabet_equal(&self.alphabet, &other.alphabet) {
            return None;
        }
        let start = (self.initial_state, other.initial_state);
        let mut found = HashSet::from([start]);
        let mut todo = vec![start];
        let mut order = Vec::new();
        while let Some(p) = todo.pop() {
            order.push(p);
            for (i, s) in self.alphabet.iter().enumerate() {
                let q = self.next_pair(other, p, i, s);
                if found.insert(q) {
                    todo.push(q);
                }
            }
        }
        let mut number = HashMap::new();
        for (n, p) in order.iter().enumerate() {
            number.insert(*p, n);
        }
        let names = self.pair_names(other, &found, order.len());
        let mut states = Vec::new();
        for p in order {
            let mut transitions = Vec::new();
            for (i, s) in self.alphabet.iter().enumerate() {
                transitions.push(number[&self.next_pair(other, p, i, s)]);
            }
            states.push(DfaState {
                name: names[&p].clone(),
                initial: p == start,
                accepting: combinator(&self.states[p.0], &other.states[p.1]),
                transitions,
            });
        }
        Some(Dfa { alphabet: self.alphabet.clone(), states, initial_state: number[&start] })
    }

    pub fn equivalent_to(&self, other: &Dfa) -> bool {
        if !alphabet_equal(&self.alphabet, &other.alphabet) {
            return false;
        }
        let start = (self.initial_state, other.initial_state);
        let mut found = HashSet::from([start]);
        let mut todo = vec![start];
        while let Some(p) = todo.pop() {
            for (i, s) in self.alphabet.iter().enumerate() {
                let q = self.next_pair(other, p, i, s);
                if found.insert(q) {
                    todo.push(q);
                }
            }
        }
        for p in found {
            if self.states[p.0].accepting != other.states[p.1].accepting {
                return false;
            }
        }
        true
    }

    pub fn reachable_state_idx(&self) -> HashSet<usize> {
        let mut found = HashSet::from([self.initial_state]);
        let mut todo = vec![self.initial_state];
        while let Some(p) = todo.pop() {
            for &q in self.states[p].transitions.iter() {
                if found.insert(q) {
                    todo.push(q);
                }
            }
        }
        found
    }

    pub fn unreachable_state_idx(&self) -> HashSet<usize> {
        let reachable = self.reachable_state_idx();
        let mut rest = HashSet::new();
        for i in 0..self.states.len() {
            if !reachable.contains(&i) {
                rest.insert(i);
            }
        }
        rest
    }

    pub fn reachable_states(&self) -> Vec<&DfaState> {
        let mut v = Vec::new();
        for i in self.reachable_state_idx() {
            v.push(&self.states[i]);
        }
        v
    }

    pub fn unreachable_states(&self) -> Vec<&DfaState> {
        let mut v = Vec::new();
        for i in self.unreachable_state_idx() {
            v.push(&self.states[i]);
        }
        v
    }

    /// what is left are the reachable states, in order, renumbered by their rank
    pub fn remove_unreachable_states(&mut self) {
        let reach = self.reachable_state_idx();
        let kept: Vec<usize> = (0..self.states.len()).filter(|i| reach.contains(i)).collect();
        let states = (0..self.states.len())
            .filter(|i| reach.contains(i))
            .map(|i| DfaState {
                name: self.states[i].name.clone(),
                initial: self.states[i].initial,
                accepting: self.states[i].accepting,
                transitions: self.states[i].transitions.iter().map(|t| kept.binary_search(t).unwrap()).collect(),
            })
            .collect();
        self.initial_state = kept.binary_search(&self.initial_state).unwrap();
        self.states = states;
    }

    pub fn has_reachable_accepting_state(&self) -> bool {
        for i in self.reachable_state_idx() {
            if self.states[i].accepting {
                return true;
            }
        }
        false
    }

    pub fn accepts(&self, word: &[&str]) -> bool {
        let mut index: HashMap<&str, usize> = HashMap::new();
        for (j, x) in self.alphabet.iter().enumerate() {
            index.insert(x, j);
        }
        let mut at = self.initial_state;
        for s in word {
            match index.get(s) {
                Some(&i) => at = self.states[at].transitions[i],
                None => return false,
            }
        }
        self.states[at].accepting
    }

    pub fn accepts_graphemes(&self, word: &str) -> bool {
        let mut letters = Vec::new();
        for g in word.graphemes(true) {
            letters.push(g);
        }
        self.accepts(&letters)
    }

    pub fn graphemes_only(&self) -> bool {
        for s in self.alphabet.iter() {
            if s.graphemes(true).count() != 1 {
                return false;
            }
        }
        true
    }
}

use crate::table::Table;

impl Dfa {
    pub fn to_table(&self) -> String {
        self.gen_table("→")
    }

    pub fn ascii_table(&self) -> String {
        self.gen_table("->")
    }

    /// Three columns for the arrow, the star and the name; then one column per symbol with the name of the successor.
    fn gen_table(&self, arrow: &str) -> String {
        let mut table = Table::default();
        let mut head = vec!["", "", ""];
        for s in self.alphabet.iter() {
            head.push(s);
        }
        table.push_row(head);
        for state in self.states.iter() {
            let first = if state.initial { arrow } else { "" };
            let second = if state.accepting { "*" } else { "" };
            let mut row = vec![first, second, &state.name];
            for t in state.transitions.iter() {
                row.push(&self.states[*t].name);
            }
            table.push_row(row);
        }
        table.to_string(" ")
    }
}

/// Minimisation: drop what cannot be reached, then leave one state of every equivalence class.
impl Dfa {
    pub fn minimize(&mut self) {
        self.remove_unreachable_states();
        self.merge_nondistinguishable_states();
    }

    /// Merging first leaves the same states reachable up to the choice of the ones that stay.
    pub fn minimize__2(&mut self) {
        self.merge_nondistinguishable_states();
        self.remove_unreachable_states();
    }

    pub fn merge_nondistinguishable_states(&mut self) {
        let mut merged = HashMap::new();
        for class in self.state_equivalence_classes_idx() {
            let mut members = class.into_iter();
            if let Some(kept) = members.next() {
                for other in members {
                    merged.insert(other, kept);
                }
            }
        }
        self.remap_transitions(|t| merged.get(&t).copied());
        if let Some(&kept) = merged.get(&self.initial_state) {
            self.initial_state = kept;
            self.states[kept].initial = true;
        }
        let gone: Vec<usize> = merged.into_keys().collect();
        self.remove_states(gone);
    }

    pub fn state_equivalence_classes(&self) -> Vec<Vec<&DfaState>> {
        let mut out = Vec::new();
        for class in self.state_equivalence_classes_idx() {
            let mut members = Vec::new();
            for q in class {
                members.push(&self.states[q]);
            }
            out.push(members);
        }
        out
    }

    /// Hopcroft's partition refinement.
    pub fn state_equivalence_classes_idx(&self) -> Vec<HashSet<usize>> {
        let (finals, nonfinals): (HashSet<usize>, HashSet<usize>) =
            (0..self.states.len()).partition(|&idx| self.states[idx].accepting);
        if finals.is_empty() {
            return vec![nonfinals];
        } else if nonfinals.is_empty() {
            return vec![finals];
        }
        let mut p = vec![finals, nonfinals];
        let mut w = p.clone();
        while let Some(a) = w.pop() {
            for c in 0..self.alphabet.len() {
                let x: HashSet<usize> = self
                    .states
                    .iter()
                    .enumerate()
                    .filter(|(_, s)| a.contains(&s.transitions[c]))
                    .map(|(i, _)| i)
                    .collect();
                p = p
                    .into_iter()
                    .map(|y| {
                        (
                            x.intersection(&y).copied().collect::<HashSet<_>>(),
                            y.difference(&x).copied().collect::<HashSet<_>>(),
                            y,
                        )
                    })
                    .flat_map(|(inters, diff, y)| {
                        if !inters.is_empty() && !diff.is_empty() {
                            if let Some(idx) = w.iter().position(|hs| hs == &y) {
                                w.swap_remove(idx);
                                w.push(inters.clone());
                                w.push(diff.clone());
                            } else if inters.len() <= diff.len() {
                                w.push(inters.clone());
                            } else {
                                w.push(diff.clone());
                            }
                            vec![inters, diff].into_iter()
                        } else {
                            vec![y].into_iter()
                        }
                    })
                    .collect()
            }
        }
        p
    }

    fn remap_transitions(&mut self, mapper: impl Fn(usize) -> Option<usize>) {
        for state in self.states.iter_mut() {
            for t in state.transitions.iter_mut() {
                if let Some(new) = mapper(*t) {
                    *t = new;
                }
            }
        }
    }

    fn remove_states(&mut self, mut to_remove: Vec<usize>) {
        let mut old_state_idx = (0..self.states.len()).collect::<Vec<_>>();
        to_remove.sort();
        if let Err(less_than) = to_remove.binary_search(&self.initial_state) {
            self.initial_state -= less_than;
        } else {
            panic!("Cannot remove initial state");
        }
        for &idx in to_remove.iter().rev() {
            self.states.remove(idx);
            old_state_idx.remove(idx);
        }
        self.remap_transitions(|idx| Some(old_state_idx.binary_search(&idx).expect("No transitions to removed state")));
    }
}
