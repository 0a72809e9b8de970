use crate::dfa::{Dfa, DfaState};
use crate::util::*;
use eval::NfaEvaluator;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;
use unicode_segmentation::UnicodeSegmentation;

pub mod eval;
pub mod parse;
pub mod words;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Nfa {
    pub(crate) alphabet: Rc<[Rc<str>]>,
    pub(crate) states: Vec<NfaState>,
    pub(crate) initial_state: usize,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct NfaState {
    pub(crate) name: Rc<str>,
    pub(crate) initial: bool,
    pub(crate) accepting: bool,
    pub(crate) epsilon_transitions: Vec<usize>,
    pub(crate) transitions: Vec<Vec<usize>>,
}

impl NfaState {
    pub fn name(&self) -> &str {
        &self.name
    }
    pub fn is_initial(&self) -> bool {
        self.initial
    }
    pub fn is_accepting(&self) -> bool {
        self.accepting
    }
    pub fn transitions(&self) -> &[Vec<usize>] {
        &self.transitions
    }
    pub fn epsilon_transitions(&self) -> &[usize] {
        &self.epsilon_transitions
    }
}

type Maybe = (Option<usize>, Option<usize>);

impl Nfa {
    pub fn alphabet(&self) -> &[Rc<str>] {
        &self.alphabet
    }
    pub fn states(&self) -> &[NfaState] {
        &self.states
    }
    pub fn initial_state(&self) -> &NfaState {
        &self.states[self.initial_state]
    }
    pub fn initial_state_index(&self) -> usize {
        self.initial_state
    }
    pub fn evaluator(&self) -> NfaEvaluator<'_> {
        NfaEvaluator::from(self)
    }

    /// Everything reachable on ε alone, the states themselves included.
    pub fn closed(&self, from: HashSet<usize>) -> HashSet<usize> {
        let mut todo = Vec::new();
        for p in from.iter() {
            todo.push(*p);
        }
        let mut found = from;
        while let Some(p) = todo.pop() {
            for &q in self.states[p].epsilon_transitions.iter() {
                if found.insert(q) {
                    todo.push(q);
                }
            }
        }
        found
    }

    pub fn closure(&self, start: usize) -> Option<HashSet<usize>> {
        if start >= self.states.len() {
            return None;
        }
        let mut found = HashSet::from([start]);
        let mut todo = vec![start];
        while let Some(p) = todo.pop() {
            for &q in self.states[p].epsilon_transitions.iter() {
                if found.insert(q) {
                    todo.push(q);
                }
            }
        }
        Some(found)
    }

    pub fn has_epsilon_moves(&self) -> bool {
        for s in self.states.iter() {
            if s.epsilon_transitions.len() > 0 {
                return true;
            }
        }
        false
    }

    pub fn accepts(&self, word: &[&str]) -> bool {
        let mut e = self.evaluator();
        e.step_multiple(word);
        e.is_accepting()
    }

    pub fn accepts_graphemes(&self, word: &str) -> bool {
        let mut letters = Vec::new();
        for g in word.graphemes(true) {
            letters.push(g);
        }
        self.accepts(&letters)
    }

    pub fn graphemes_only(&self) -> bool {
        for s in self.alphabet.iter() {
            if s.graphemes(true).count() != 1 {
                return false;
            }
        }
        true
    }

    /// States that some sequence of symbols and ε leads to.
    pub fn reachable_state_idx(&self) -> HashSet<usize> {
        let mut found = HashSet::from([self.initial_state]);
        let mut todo = vec![self.initial_state];
        while let Some(p) = todo.pop() {
            for row in self.states[p].transitions.iter() {
                for &q in row {
                    if found.insert(q) {
                        todo.push(q);
                    }
                }
            }
            for q in self.closure(p).unwrap() {
                if found.insert(q) {
                    todo.push(q);
                }
            }
        }
        found
    }

    /// The same with single ε-steps.
    #[allow(non_snake_case)]
    pub fn reachable_state_idx__2(&self) -> HashSet<usize> {
        let mut found = HashSet::from([self.initial_state]);
        let mut todo = vec![self.initial_state];
        while let Some(p) = todo.pop() {
            for row in self.states[p].transitions.iter() {
                for &q in row {
                    if found.insert(q) {
                        todo.push(q);
                    }
                }
            }
            for &q in self.states[p].epsilon_transitions.iter() {
                if found.insert(q) {
                    todo.push(q);
                }
            }
        }
        found
    }

    pub fn unreachable_state_idx(&self) -> HashSet<usize> {
        let reachable = self.reachable_state_idx();
        let mut rest = HashSet::new();
        for i in 0..self.states.len() {
            if !reachable.contains(&i) {
                rest.insert(i);
            }
        }
        rest
    }

    pub fn reachable_states(&self) -> Vec<&NfaState> {
        let mut v = Vec::new();
        for i in self.reachable_state_idx() {
            v.push(&self.states[i]);
        }
        v
    }

    pub fn unreachable_states(&self) -> Vec<&NfaState> {
        let mut v = Vec::new();
        for i in self.unreachable_state_idx() {
            v.push(&self.states[i]);
        }
        v
    }

    /// what is left are the reachable states, in order, renumbered by their rank
    pub fn remove_unreachable_states(&mut self) {
        let reach = self.reachable_state_idx();
        let kept: Vec<usize> = (0..self.states.len()).filter(|i| reach.contains(i)).collect();
        let states = (0..self.states.len())
            .filter(|i| reach.contains(i))
            .map(|i| NfaState {
                name: self.states[i].name.clone(),
                initial: self.states[i].initial,
                accepting: self.states[i].accepting,
                epsilon_transitions: self.states[i].epsilon_transitions.iter().map(|t| kept.binary_search(t).unwrap()).collect(),
                transitions: self.states[i]
                    .transitions
                    .iter()
                    .map(|ts| ts.iter().map(|t| kept.binary_search(t).unwrap()).collect())
                    .collect(),
            })
            .collect();
        self.initial_state = kept.binary_search(&self.initial_state).unwrap();
        self.states = states;
    }

    pub fn optimize(&mut self) {
        self.remove_unreachable_states();
        self.remove_epsilon_moves();
    }

    /// the least set with `from` in which a state takes part when it neither is initial nor accepts and only leads into the set
    fn dead(states: &[NfaState], from: HashSet<usize>) -> HashSet<usize> {
        let mut dead = from;
        let mut more = true;
        while more {
            more = false;
            for (i, s) in states.iter().enumerate() {
                if !dead.contains(&i) && !s.accepting && !s.initial && s.transitions.iter().all(|ts| ts.iter().all(|t| dead.contains(t))) {
                    dead.insert(i);
                    more = true;
                }
            }
        }
        dead
    }

    pub fn remove_epsilon_moves(&mut self) {
        if !self.has_epsilon_moves() {
            return;
        }
        let closures: Vec<HashSet<usize>> = (0..self.states.len()).map(|i| self.closure(i).unwrap()).collect();
        // a move leads to the closure of its target
        let mut states: Vec<NfaState> = self
            .states
            .iter()
            .map(|s| NfaState {
                name: s.name.clone(),
                initial: s.initial,
                accepting: s.accepting,
                epsilon_transitions: vec![],
                transitions: s
                    .transitions
                    .iter()
                    .map(|ts| ts.iter().flat_map(|t| closures[*t].iter().copied()).collect::<HashSet<usize>>().into_iter().collect())
                    .collect(),
            })
            .collect();
        let old = self.initial_state;
        let dead = Self::dead(&states, HashSet::new());
        let start: HashSet<usize> = closures[old].iter().copied().filter(|i| !dead.contains(i)).collect();
        if start.len() <= 1 {
            self.keep(states, dead, old);
            return;
        }
        // a new initial state, last, that acts as all states of the closure of the old one
        states[old].initial = false;
        if !states[old].accepting && states[old].transitions.iter().all(|ts| ts.iter().all(|t| dead.contains(t))) {
            let mut dead = dead;
            dead.insert(old);
            let dead = Self::dead(&states, dead);
            let name = states[old].name.clone();
            let new = self.starting(&states, &start, &dead, name);
            states.push(new);
            let initial = states.len() - 1;
            self.keep(states, dead, initial);
        } else {
            let name = Self::unused_name(&states, "s_new");
            let new = self.starting(&states, &start, &dead, name);
            states.push(new);
            let initial = states.len() - 1;
            self.keep(states, dead, initial);
        }
    }

    fn starting(&self, states: &[NfaState], start: &HashSet<usize>, dead: &HashSet<usize>, name: Rc<str>) -> NfaState {
        let transitions = (0..self.alphabet.len())
            .map(|a| {
                let all: HashSet<usize> = start.iter().flat_map(|s| states[*s].transitions[a].iter().copied()).collect();
                all.into_iter().filter(|t| !dead.contains(t)).collect()
            })
            .collect();
        let accepting = start.iter().any(|s| states[*s].accepting);
        NfaState { name, initial: true, accepting, epsilon_transitions: vec![], transitions }
    }

    /// the dead states go, the others are renumbered by rank
    fn keep(&mut self, states: Vec<NfaState>, dead: HashSet<usize>, initial: usize) {
        let kept: Vec<usize> = states.iter().enumerate().map(|(i, _)| i).filter(|i| !dead.contains(i)).collect();
        self.initial_state = kept.binary_search(&initial).unwrap();
        self.states = states
            .iter()
            .enumerate()
            .filter(|(i, _)| !dead.contains(i))
            .map(|(_, s)| NfaState {
                name: s.name.clone(),
                initial: s.initial,
                accepting: s.accepting,
                epsilon_transitions: s.epsilon_transitions.iter().map(|t| kept.binary_search(t).unwrap()).collect(),
                transitions: s
                    .transitions
                    .iter()
                    .map(|ts| ts.iter().filter(|t| !dead.contains(t)).map(|t| kept.binary_search(t).unwrap()).collect())
                    .collect(),
            })
            .collect();
    }

    pub fn has_reachable_accepting_state(&self) -> bool {
        for i in self.reachable_state_idx() {
            if self.states[i].accepting {
                return true;
            }
        }
        false
    }

    pub fn equivalent_to(&self, other: &Nfa) -> bool {
        if !alphabet_equal(&self.alphabet, &other.alphabet) {
            return false;
        }
        let mut index = HashMap::new();
        for (j, x) in other.alphabet.iter().enumerate() {
            index.insert(x, j);
        }
        let key = |s: HashSet<usize>| {
            let mut v: Vec<usize> = s.into_iter().collect();
            v.sort();
            v
        };
        let start = (
            key(self.closed(HashSet::from([self.initial_state]))),
            key(other.closed(HashSet::from([other.initial_state]))),
        );
        let mut found = HashSet::from([start.clone()]);
        let mut todo = vec![start];
        while let Some(p) = todo.pop() {
            for (i, s) in self.alphabet.iter().enumerate() {
                let mut left = HashSet::new();
                for &a in p.0.iter() {
                    for &b in self.states[a].transitions[i].iter() {
                        left.insert(b);
                    }
                }
                let mut right = HashSet::new();
                for &a in p.1.iter() {
                    for &b in other.states[a].transitions[index[s]].iter() {
                        right.insert(b);
                    }
                }
                let q = (key(self.closed(left)), key(other.closed(right)));
                if found.insert(q.clone()) {
                    todo.push(q);
                }
            }
        }
        for (l, r) in found {
            let a = l.iter().any(|&s| self.states[s].accepting);
            let b = r.iter().any(|&s| other.states[s].accepting);
            if a != b {
                return false;
            }
        }
        true
    }

    pub fn to_dfa(&self) -> Dfa {
        let key = |s: HashSet<usize>| {
            let mut v: Vec<usize> = s.into_iter().collect();
            v.sort();
            v
        };
        let start = self.closed(HashSet::from([self.initial_state]));
        let good = |s: &HashSet<usize>| s.iter().any(|&q| self.states[q].accepting);
        let mut number = HashMap::new();
        let mut accepting = HashSet::new();
        let mut rows = HashMap::new();
        number.insert(key(start.clone()), 0);
        if good(&start) {
            accepting.insert(0);
        }
        let mut fresh = 1;
        let mut todo = vec![start];
        while let Some(p) = todo.pop() {
            let mut row = Vec::new();
            for i in 0..self.alphabet.len() {
                let mut after = HashSet::new();
                for &a in p.iter() {
                    for &b in self.states[a].transitions[i].iter() {
                        after.insert(b);
                    }
                }
                let q = self.closed(after);
                let k = key(q.clone());
                if !number.contains_key(&k) {
                    number.insert(k.clone(), fresh);
                    fresh += 1;
                    todo.push(q.clone());
                }
                row.push(number[&k]);
                if good(&q) {
                    accepting.insert(number[&k]);
                }
            }
            rows.insert(key(p), row);
        }
        let mut order: Vec<(&Vec<usize>, &usize)> = number.iter().collect();
        order.sort_by_key(|e| e.1);
        let mut states = Vec::new();
        for (k, n) in order {
            states.push(DfaState {
                name: Rc::from(n.to_string()),
                initial: *n == 0,
                accepting: accepting.contains(n),
                transitions: rows.remove(k).unwrap(),
            });
        }
        Dfa { alphabet: self.alphabet.clone(), states, initial_state: 0 }
    }

    pub fn intersection(&self, other: &Self) -> Option<Self> {
        self.product_construction(other, |a, b| match (a, b) {
            (Some(a), Some(b)) => a.accepting && b.accepting,
            _ => false,
        })
    }

    /// Successors of a pair of (possibly lost) runs on one symbol: both move when both can, and a
    /// run that cannot move is lost.
    fn on_symbol(&self, other: &Self, p: Maybe, i: usize, j: usize) -> Vec<Maybe> {
        let mut out = Vec::new();
        let left = match p.0 {
            Some(a) => !self.states[a].transitions[i].is_empty(),
            None => false,
        };
        let right = match p.1 {
            Some(b) => !other.states[b].transitions[j].is_empty(),
            None => false,
        };
        if left && right {
            for &x in self.states[p.0.unwrap()].transitions[i].iter() {
                for &y in other.states[p.1.unwrap()].transitions[j].iter() {
                    out.push((Some(x), Some(y)));
                }
            }
        } else if left {
            for &x in self.states[p.0.unwrap()].transitions[i].iter() {
                out.push((Some(x), None));
            }
        } else if right {
            for &y in other.states[p.1.unwrap()].transitions[j].iter() {
                out.push((None, Some(y)));
            }
        }
        out
    }

    /// One side moves on ε, the other stays.
    fn on_epsilon(&self, other: &Self, p: Maybe) -> Vec<Maybe> {
        let mut out = Vec::new();
        if let Some(a) = p.0 {
            for &x in self.states[a].epsilon_transitions.iter() {
                out.push((Some(x), p.1));
            }
        }
        if let Some(b) = p.1 {
            for &y in other.states[b].epsilon_transitions.iter() {
                out.push((p.0, Some(y)));
            }
        }
        out
    }

    /// A pair is called `(left,right)`, where a lost run is called `none`, unless that would give two pairs the same
    /// name: then the pairs are numbered.
    fn pair_names(&self, other: &Self, pairs: &HashSet<Maybe>, n: usize) -> HashMap<Maybe, Rc<str>> {
        let mut used: HashSet<Rc<str>> = HashSet::new();
        let mut names = HashMap::new();
        for (a, b) in pairs.iter() {
            let left = a.map_or("none", |a| &self.states[a].name);
            let right = b.map_or("none", |b| &other.states[b].name);
            let name: Rc<str> = Rc::from(format!("({left},{right})"));
            if !used.insert(name.clone()) {
                break;
            }
            names.insert((*a, *b), name);
        }
        if names.len() < n {
            let mut numbers: HashMap<Maybe, Rc<str>> = HashMap::new();
            for (i, p) in pairs.iter().enumerate() {
                numbers.insert(*p, Rc::from(i.to_string()));
            }
            numbers
        } else {
            names
        }
    }

    /// The wanted name if nobody has it, otherwise the first number nobody has.
    fn unused_name(states: &[NfaState], wanted: &str) -> Rc<str> {
        if states.iter().any(|s| &*s.name == wanted) {
            return (0..).map(|n: i32| Rc::from(n.to_string())).find(|name| states.iter().all(|s| s.name != *name)).unwrap();
        }
        Rc::from(wanted)
    }

    pub fn product_construction(
        &self,
        other: &Self,
        mut combinator: impl FnMut(Option<&NfaState>, Option<&NfaState>) -> bool,
    ) -> Option<Self> {
        if !alphabet_equal(&self.alphabet, &other.alphabet) {
            return None;
        }
        let start = (Some(self.initial_state), Some(other.initial_state));
        let mut found = HashSet::from([start]);
        let mut todo = vec![start];
        let mut order = Vec::new();
        while let Some(p) = todo.pop() {
            order.push(p);
            for (i, s) in self.alphabet.iter().enumerate() {
                for q in self.on_symbol(other, p, i, position(&other.alphabet, s).unwrap()) {
                    if found.insert(q) {
                        todo.push(q);
                    }
                }
            }
            for q in self.on_epsilon(other, p) {
                if found.insert(q) {
                    todo.push(q);
                }
            }
        }
        let mut number = HashMap::new();
        for (n, p) in order.iter().enumerate() {
            number.insert(*p, n);
        }
        let names = self.pair_names(other, &found, order.len());
        let mut states = Vec::new();
        for p in order {
            let mut transitions = Vec::new();
            for (i, s) in self.alphabet.iter().enumerate() {
                let mut row = Vec::new();
                for q in self.on_symbol(other, p, i, position(&other.alphabet, s).unwrap()) {
                    row.push(number[&q]);
                }
                transitions.push(row);
            }
            let mut epsilon_transitions = Vec::new();
            for q in self.on_epsilon(other, p) {
                epsilon_transitions.push(number[&q]);
            }
            states.push(NfaState {
                name: names[&p].clone(),
                initial: p == start,
                accepting: combinator(p.0.map(|a| &self.states[a]), p.1.map(|b| &other.states[b])),
                transitions,
                epsilon_transitions,
            });
        }
        Some(Nfa { alphabet: self.alphabet.clone(), states, initial_state: number[&start] })
    }

    /// Both automata side by side behind a new initial state.
    pub fn union(self, other: Self) -> Result<Self, (Self, Self)> {
        if !alphabet_equal(&self.alphabet, &other.alphabet) {
            return Err((self, other));
        }
        // position of every symbol of the right alphabet in the left one
        let mut place = Vec::new();
        for x in other.alphabet.iter() {
            place.push(position(&self.alphabet, x).unwrap());
        }
        let n = self.states.len();
        let mut states = self.states.clone();
        for s in other.states.iter() {
            let mut rows = Vec::new();
            for (i, row) in s.transitions.iter().enumerate() {
                rows.push((row, place[i]));
            }
            rows.sort_by_key(|r| r.1);
            let mut transitions = Vec::new();
            for (old, _) in rows {
                let mut row = Vec::new();
                for t in old.iter() {
                    row.push(t + n);
                }
                transitions.push(row);
            }
            let mut epsilon_transitions = Vec::new();
            for t in s.epsilon_transitions.iter() {
                epsilon_transitions.push(t + n);
            }
            states.push(NfaState {
                name: s.name.clone(),
                initial: s.initial,
                accepting: s.accepting,
                epsilon_transitions,
                transitions,
            });
        }
        // names stay unless two states share one
        let mut names = HashSet::new();
        for s in states.iter() {
            names.insert(s.name.clone());
        }
        if names.len() != states.len() {
            for (i, s) in states.iter_mut().enumerate() {
                s.name = Rc::from((i + 1).to_string());
            }
        }
        let name = Self::unused_name(&states, "s_new");
        states[self.initial_state].initial = false;
        states[other.initial_state + n].initial = false;
        let initial_state = states.len();
        let mut none = Vec::new();
        for _ in self.alphabet.iter() {
            none.push(Vec::new());
        }
        states.push(NfaState {
            name,
            initial: true,
            accepting: false,
            epsilon_transitions: vec![self.initial_state, other.initial_state + n],
            transitions: none,
        });
        Ok(Nfa { alphabet: self.alphabet, states, initial_state })
    }

    /// The same: only initial states are marked as such, so that no state of the two stays marked.
    pub fn union__2(self, other: Self) -> Result<Self, (Self, Self)> {
        if !alphabet_equal(&self.alphabet, &other.alphabet) {
            return Err((self, other));
        }
        // position of every symbol of the right alphabet in the left one
        let mut place = Vec::new();
        for x in other.alphabet.iter() {
            place.push(position(&self.alphabet, x).unwrap());
        }
        let n = self.states.len();
        let mut states = self.states.clone();
        for s in other.states.iter() {
            let mut rows = Vec::new();
            for (i, row) in s.transitions.iter().enumerate() {
                rows.push((row, place[i]));
            }
            rows.sort_by_key(|r| r.1);
            let mut transitions = Vec::new();
            for (old, _) in rows {
                let mut row = Vec::new();
                for t in old.iter() {
                    row.push(t + n);
                }
                transitions.push(row);
            }
            let mut epsilon_transitions = Vec::new();
            for t in s.epsilon_transitions.iter() {
                epsilon_transitions.push(t + n);
            }
            states.push(NfaState {
                name: s.name.clone(),
                initial: s.initial,
                accepting: s.accepting,
                epsilon_transitions,
                transitions,
            });
        }
        // names stay unless two states share one
        let mut names = HashSet::new();
        for s in states.iter() {
            names.insert(s.name.clone());
        }
        if names.len() != states.len() {
            for (i, s) in states.iter_mut().enumerate() {
                s.name = Rc::from((i + 1).to_string());
            }
        }
        let name = Self::unused_name(&states, "s_new");
        for s in states.iter_mut() {
            s.initial = false;
        }
        let initial_state = states.len();
        let mut none = Vec::new();
        for _ in self.alphabet.iter() {
            none.push(Vec::new());
        }
        states.push(NfaState {
            name,
            initial: true,
            accepting: false,
            epsilon_transitions: vec![self.initial_state, other.initial_state + n],
            transitions: none,
        });
        Ok(Nfa { alphabet: self.alphabet, states, initial_state })
    }
}

use crate::table::Table;

impl Nfa {
    pub fn to_table(&self) -> String {
        self.gen_table("ε", "→")
    }

    pub fn ascii_table(&self) -> String {
        self.gen_table("eps", "->")
    }

    /// Three columns for the arrow, the star and the name; then one column for the epsilon moves and one per symbol
    /// with the set of the names of the successors.
    fn gen_table(&self, eps: &str, arrow: &str) -> String {
        let mut table = Table::default();
        let mut head = vec!["", "", "", eps];
        for s in self.alphabet.iter() {
            head.push(s);
        }
        table.push_row(head);
        let mut sets: Vec<Vec<String>> = vec![];
        for state in self.states.iter() {
            let mut mine = vec![];
            let mut names = vec![];
            for t in state.epsilon_transitions.iter() {
                names.push(self.states[*t].name.clone());
            }
            mine.push(format!("{{{}}}", names.join(" ")));
            for targets in state.transitions.iter() {
                let mut names = vec![];
                for t in targets.iter() {
                    names.push(self.states[*t].name.clone());
                }
                mine.push(format!("{{{}}}", names.join(" ")));
            }
            sets.push(mine);
        }
        for (i, state) in self.states.iter().enumerate() {
            let first = if state.initial { arrow } else { "" };
            let second = if state.accepting { "*" } else { "" };
            let mut row = vec![first, second, &*state.name];
            for s in sets[i].iter() {
                row.push(s);
            }
            table.push_row(row);
        }
        table.to_string(" ")
    }
}

// enumeration of words
impl Nfa {
    pub fn words(&self) -> words::Words<'_> {
        words::Words::new(self)
    }
    pub fn word_components(&self) -> words::WordComponents<'_> {
        words::WordComponents::new(self)
    }
    pub fn word_component_indices(&self) -> words::WordComponentIndices<'_> {
        words::WordComponentIndices::new(self)
    }
}
