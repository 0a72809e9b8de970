# C01-C14: library core, second batch
D = "dandy/src/dfa/mod.rs"
DE = "dandy/src/dfa/eval.rs"
N = "dandy/src/nfa/mod.rs"
NE = "dandy/src/nfa/eval.rs"
DP = "dandy/src/dfa/parse.rs"
NP = "dandy/src/nfa/parse.rs"
RX = "dandy/src/regex/mod.rs"
T = "dandy/src/table/mod.rs"
U = "dandy/src/util.rs"

DSTEP = '''        if self.unknown_elem_seen {
            return None;
        }

        match self.rev_map.get(elem) {
            None => {
                self.unknown_elem_seen = true;
                None
            }
            Some(&idx) => {
                self.current_state = self.dfa.states[self.current_state].transitions[idx];
                Some(&self.dfa.states[self.current_state])
            }
        }
'''
DMULTI = '''        match elems.iter().try_for_each(|e| self.step(e).map(|_| ())) {
            None => {
                self.unknown_elem_seen = true;
                None
            }
            Some(_) => self.current_state(),
        }
'''
DALL = '''        iter::repeat(self.clone())
            .zip(self.dfa.alphabet())
            .map(|(mut eval, elem)| {
                eval.step(elem);
                eval
            })
            .collect()
'''
NALL = DALL.replace("dfa", "nfa")
NSTEP = '''                self.current_states = self
                    .current_states
                    .iter()
                    .flat_map(|&state| &self.nfa.states[state].transitions[idx])
                    .copied()
                    .collect();
                self.include_closure();
                Some(())
'''
CLO = '''        let mut updated = true;
        let mut to_push = HashSet::new();
        while updated {
            updated = false;
            for state in self.current_states.iter() {
                for epsilon_state in self.nfa.states[*state].epsilon_transitions.iter() {
                    if !self.current_states.contains(epsilon_state) {
                        updated = true;
                        to_push.insert(epsilon_state);
                    }
                }
            }
            self.current_states.extend(to_push.drain());
        }
'''
CLOSURE = '''        let mut all = HashSet::new();
        all.insert(start);
        let mut new = vec![start];
        while !new.is_empty() {
            let old_new = mem::take(&mut new);
            for state in old_new {
                for &eps_target in &self.states[state].epsilon_transitions {
                    if all.insert(eps_target) {
                        new.push(eps_target)
                    }
                }
            }
        }
        Some(all)
'''
PCLOOP = '''            for elem in self.alphabet.iter() {
                let mut d1 = s1.clone();
                d1.step(elem);
                let mut d2 = s2.clone();
                d2.step(elem);
                let states = (d1.current_state_idx(), d2.current_state_idx());
                transition_list.push(states);
                if explored_states.insert(states) {
                    evaluators_to_explore.push((d1, d2));
                }
            }
'''
DINV = '''        self.states
            .iter_mut()
            .for_each(|s| s.accepting = !s.accepting)
'''
DREACH = '''        let mut reachables = HashSet::from([self.initial_state]);
        let mut new_states = reachables.clone();
        while !new_states.is_empty() {
            new_states = new_states
                .drain()
                .flat_map(|state| self.states[state].transitions.iter().copied())
                .filter(|&state| reachables.insert(state))
                .collect();
        }
        reachables
'''
NREACH = '''        let mut reachables = HashSet::from([self.initial_state]);
        let mut new_states = reachables.clone();
        while !new_states.is_empty() {
            new_states = new_states
                .drain()
                .flat_map(|state| {
                    // For each state, add all transitions and its epsilon closure
                    self.states[state]
                        .transitions
                        .iter()
                        .flatten()
                        .copied()
                        .chain(self.closure(state).unwrap().into_iter())
                })
                .filter(|&state| reachables.insert(state))
                .collect();
        }
        reachables
'''
RMAP = '''        self.states.iter_mut().for_each(|state| {
            state
                .transitions
                .iter_mut()
                .for_each(|trans| *trans = mapper(*trans).unwrap_or(*trans))
        })
'''
NRMAP = '''        self.states.iter_mut().for_each(|state| {
            state.transitions.iter_mut().for_each(|table| {
                table
                    .iter_mut()
                    .for_each(|trans| *trans = mapper(*trans).unwrap_or(*trans))
            });
            state
                .epsilon_transitions
                .iter_mut()
                .for_each(|trans| *trans = mapper(*trans).unwrap_or(*trans));
        })
'''
RMS = '''        to_remove.iter().rev().for_each(|&idx| {
            self.states.remove(idx);
            old_state_idx.remove(idx);
        });
'''
RMI = '''        if let Err(less_than) = to_remove.binary_search(&self.initial_state) {
            // We removed "less than" states before the initial state: adjust
            self.initial_state -= less_than;
        } else {
            panic!("Cannot remove initial state");
        }
'''
DEQ = '''            for elem in self.alphabet.iter() {
                let mut d1 = s1.clone();
                d1.step(elem);
                let mut d2 = s2.clone();
                d2.step(elem);
                if explored_states.insert((d1.current_state_idx(), d2.current_state_idx())) {
                    evaluators_to_explore.push((d1, d2));
                }
            }
'''
TODFA = '''            for new_evaluator in eval.step_all() {
                let is_accepting = new_evaluator.is_accepting();
                let key = Self::set_to_vec(new_evaluator.current_states_idx());
                if !map.contains_key(&key) {
                    to_explore.push(new_evaluator);
                }
                let x = map.entry(key).or_insert_with(|| gen.next().unwrap());
                tr.push(*x);
                if is_accepting {
                    accepting.insert(*x);
                }
            }
'''
AEQ = '''    let set1 = a.iter().collect::<HashSet<_>>();
    let set2 = b.iter().collect::<HashSet<_>>();
    set1 == set2
'''
UTRANS = '''        let alphabet_translation = other
            .alphabet
            .iter()
            .map(|elem1| {
                self.alphabet
                    .iter()
                    .enumerate()
                    .find_map(|(idx, elem2)| (elem1 == elem2).then_some(idx))
                    .unwrap()
            })
            .collect::<Vec<usize>>();
        // alphabet_translation[i]'''
DUPA = '''        {
            let mut alphabet = HashSet::new();
            head.iter()
                .try_for_each(|c| alphabet.insert(c).then_some(()).ok_or(c))
                .map_err(|d| DuplicateAlphabetSymbol(d))?;
        }
'''
DUPS = '''            let mut seen = HashSet::new();
            let duplicate = states
                .iter()
                .find_map(|s| seen.insert(s.name).not().then_some(s.name))
                .unwrap_or("<unknown>");
            return Err(DuplicateStateDefinition(duplicate));
'''
NTR = '''            for (idx, transition) in transitions.iter().enumerate() {
                let mut tr_idx = Vec::with_capacity(transition.len());
                if Some(idx) == eps_idx {
                    for target in transition {
                        if let Some(idx) = state_name_map.get(target) {
                            tr_idx.push(*idx);
                        } else {
                            return Err(TransitionDoesNotExist(name, target)); // Target of transition does not exist
                        }
                    }
                    epsilon_transitions = Some(tr_idx);
                } else {
                    for target in transition {
                        if let Some(idx) = state_name_map.get(target) {
                            tr_idx.push(*idx);
                        } else {
                            return Err(TransitionDoesNotExist(name, target)); // Target of transition does not exist
                        }
                    }
                    new_transitions.push(tr_idx);
                }
            }
'''
NHEAD = '''            head.iter()
                .enumerate()
                .try_for_each(|(idx, e)| match e {
                    NfaAlphabetEntry::Element(c) => alphabet.insert(c).then_some(()).ok_or(c),
                    NfaAlphabetEntry::Eps => {
                        if eps_idx.is_some() {
                            Err(&"ε")
                        } else {
                            eps_idx = Some(idx);
                            Ok(())
                        }
                    }
                })
                .map_err(|e| DuplicateAlphabetSymbol(e))?
'''
INLINE = '''                *transition_set = transition_set
                    .iter()
                    .fold(HashSet::new(), |mut set, transition| {
                        set.extend(&closures[*transition]);
                        set
                    })
                    .drain()
                    .collect();
'''
DEAD1 = '''        let mut added_states = true;
        while added_states {
            added_states = false;
            for (idx, state) in self.states.iter().enumerate() {
                if !dead_states.contains(&idx)
                    && !state.is_accepting()
                    && !state.is_initial()
                    && state
                        .transitions
                        .iter()
                        .all(|transitions| transitions.iter().all(|idx| dead_states.contains(idx)))
                {
                    dead_states.insert(idx);
                    added_states = true;
                }
            }
        }
'''
TOW = '''        self.rows
            .iter()
            .map(|row| {
                row.iter()
                    .zip(
                        // We zip with the row lengths but we intentionally set the last length to 0
                        // as to not pad the last column
                        self.row_len
                            .iter()
                            .take(self.row_len.len() - 1)
                            .chain(iter::once(&0)),
                    )
                    .map(|(s, l)| format!("{}{sep}", pad(s, *l)))
                    .collect::<Vec<_>>()
                    .join("")
            })
            .collect::<Vec<_>>()
            .join("\\n")
'''
PAD = '''            let cs = s.chars().count();
            if cs < l {
                let amnt = l - cs;
                format!("{}{}", s, &" ".repeat(amnt))
            } else {
                s.to_string()
            }
'''
PUSHROW = '''        if row.len() > self.row_len.len() {
            self.row_len.resize(row.len(), 0);
        }
        self.row_len
            .iter_mut()
            .zip(&row)
            .for_each(|(max_len, s)| *max_len = max(*max_len, s.chars().count()));
        self.rows.push(row);
'''
SEQ = '''                    let mut states = seq
                        .into_iter()
                        .enumerate()
                        .flat_map(|(idx, subtree)| {
                            let after_state_idx = counter.next();
                            let mut after_state = NfaState {
                                name: Rc::from(after_state_idx.to_string()),
                                initial: false,
                                accepting: false,
                                epsilon_transitions: vec![],
                                transitions: vec![],
                            };
                            let new_states =
                                Self::tree_to_nfa(subtree, counter, grapheme_idx, after_state_idx);
                            if idx + 1 == seq_len {
                                after_state.epsilon_transitions.push(send_to);
                            } else {
                                after_state.epsilon_transitions.push(counter.state + 1);
                            }
                            iter::once(after_state).chain(new_states)
                        })
                        .collect::<Vec<_>>();
                    let mut ret = vec![incoming_state];
                    ret.append(&mut states);
                    ret
'''
BALT = '''                let mut iter = seq.iter();
                if let Some(first) = iter.next() {
                    Self::build_string(first, acc);
                    for item in iter {
                        acc.push('|');
                        Self::build_string(item, acc);
                    }
                }
'''
BGR = '''                    if g.chars().next().map_or(false, |c| {
                        ['(', ')', '∅', 'ε', '|', '*', '+', '\\\\'].contains(&c)
                    }) {
                        acc.push('\\\\');
                        acc.push_str(g);
                    } else {
                        acc.push_str(g);
                    }
'''
EDITS += [
    # ---- C01
    ("R170-step-iflet", "C01", DE, [(DSTEP, '''        if self.unknown_elem_seen {
            None
        } else if let Some(idx) = self.rev_map.get(elem).copied() {
            let dfa = self.dfa;
            let next = dfa.states[self.current_state].transitions[idx];
            self.current_state = next;
            Some(&dfa.states[next])
        } else {
            self.unknown_elem_seen = true;
            None
        }
''')]),
    ("R171-multi-for", "C01", DE, [(DMULTI, '''        for e in elems {
            if self.step(e).is_none() {
                self.unknown_elem_seen = true;
                return None;
            }
        }
        self.current_state()
''')]),
    ("R172-multi-loop", "C01", DE, [(DMULTI, '''        for &e in elems.iter() {
            self.step(e);
        }
        self.current_state()
''')]),
    ("R173-all-map", "C01", DE, [(DALL, '''        self.dfa
            .alphabet()
            .iter()
            .map(|elem| {
                let mut eval = self.clone();
                eval.step(elem);
                eval
            })
            .collect()
'''), ("use std::iter;\n", "")]),
    ("R174-all-for", "C01", DE, [(DALL, '''        let mut evals = Vec::with_capacity(self.dfa.alphabet().len());
        for elem in self.dfa.alphabet().iter() {
            let mut next = self.clone();
            next.step(elem);
            evals.push(next);
        }
        evals
'''), ("use std::iter;\n", "")]),
    ("R175-acc-match", "C01", DE, [("self.current_state().map_or(false, DfaState::is_accepting)", "match self.current_state() {\n            Some(state) => state.is_accepting(),\n            None => false,\n        }"), ("use crate::dfa::{Dfa, DfaState};", "use crate::dfa::{Dfa, DfaState};")]),
    ("R176-acc-direct", "C01", DE, [("self.current_state().map_or(false, DfaState::is_accepting)", "!self.unknown_elem_seen && self.dfa.states[self.current_state].accepting")]),
    ("R177-map-loop", "C01", DE, [('''        let map = value
            .alphabet
            .iter()
            .enumerate()
            .map(|(idx, c)| (c as &str, idx))
            .collect();
''', '''        let mut map = HashMap::with_capacity(value.alphabet.len());
        for (idx, c) in value.alphabet.iter().enumerate() {
            map.insert(c as &str, idx);
        }
''')]),
    ("R178-graph-inline", "C01", D, [('''        let graphemes = string.graphemes(true).collect::<Vec<_>>();
        let mut eval = self.evaluator();
        eval.step_multiple(&graphemes);
        eval.is_accepting()
''', '''        let graphemes: Vec<&str> = string.graphemes(true).collect();
        self.accepts(&graphemes)
''')]),
    ("R179-graph-for", "C01", D, [('''        let graphemes = string.graphemes(true).collect::<Vec<_>>();
        let mut eval = self.evaluator();
        eval.step_multiple(&graphemes);
        eval.is_accepting()
''', '''        let mut eval = self.evaluator();
        for g in string.graphemes(true) {
            eval.step(g);
        }
        eval.is_accepting()
''')]),
    ("R180-step-position", "C01", DE, [(DSTEP, '''        if self.unknown_elem_seen {
            return None;
        }
        let column = self.rev_map.get(elem).copied();
        self.advance(column)
'''), ("    pub fn step_multiple(", "    fn advance(&mut self, column: Option<usize>) -> Option<&DfaState> {\n        if let Some(idx) = column {\n            self.current_state = self.dfa.states[self.current_state].transitions[idx];\n            self.current_state()\n        } else {\n            self.unknown_elem_seen = true;\n            None\n        }\n    }\n\n    pub fn step_multiple(")]),
    ("B170-step-dead", "C01", DE, [('''        if self.unknown_elem_seen {
            return None;
        }

        match self.rev_map''', '''        match self.rev_map''')]),
    ("B171-unknown-noflag", "C01", DE, [("            None => {\n                self.unknown_elem_seen = true;\n                None\n            }\n            Some(&idx)", "            None => None,\n            Some(&idx)")]),
    ("B172-acc-init", "C01", D, [('''        let graphemes = string.graphemes(true).collect::<Vec<_>>();
        let mut eval = self.evaluator();''', '''        let graphemes = string.graphemes(false).collect::<Vec<_>>();
        let mut eval = self.evaluator();''')]),
    ("B173-graphemes-only", "C01", D, [(".all(|str| str.graphemes(true).count() == 1)", ".all(|str| str.chars().count() == 1)")]),
    ("B174-step-all-skip", "C01", DE, [(".zip(self.dfa.alphabet())", ".zip(self.dfa.alphabet().iter().take(self.dfa.alphabet().len().max(2) - 1).chain(self.dfa.alphabet().last()))")]),
    ("B175-start-zero", "C01", DE, [("current_state: value.initial_state,", "current_state: value.states.iter().position(|s| s.initial && !s.accepting).unwrap_or(0),")]),
    # ---- C02
    ("R181-nstep-for", "C02", NE, [(NSTEP, '''                let mut next = HashSet::new();
                for state in self.current_states.iter() {
                    for target in self.nfa.states[*state].transitions[idx].iter() {
                        next.insert(*target);
                    }
                }
                self.current_states = next;
                self.include_closure();
                Some(())
''')]),
    ("R182-nstep-extend", "C02", NE, [(NSTEP, '''                let mut next = HashSet::new();
                for &state in &self.current_states {
                    next.extend(self.nfa.states[state].transitions[idx].iter().copied());
                }
                self.current_states = next;
                self.include_closure();
                Some(())
''')]),
    ("R183-closure-worklist", "C02", NE, [(CLO, '''        let mut stack: Vec<usize> = self.current_states.iter().copied().collect();
        while let Some(state) = stack.pop() {
            for &target in &self.nfa.states[state].epsilon_transitions {
                if self.current_states.insert(target) {
                    stack.push(target);
                }
            }
        }
''')]),
    ("R184-closure-of-each", "C02", NE, [(CLO, '''        self.current_states = self
            .current_states
            .iter()
            .filter_map(|&state| self.nfa.closure(state))
            .flatten()
            .collect();
''')]),
    ("R185-nall-for", "C02", NE, [(NALL, '''        let mut evals = Vec::new();
        for elem in self.nfa.alphabet() {
            let mut eval = self.clone();
            eval.step(elem);
            evals.push(eval);
        }
        evals
'''), ("use std::iter;\n", "")]),
    ("R186-closure-pop", "C02", N, [(CLOSURE, '''        let mut all = HashSet::from([start]);
        let mut new = vec![start];
        while let Some(state) = new.pop() {
            for &eps_target in &self.states[state].epsilon_transitions {
                if !all.contains(&eps_target) {
                    all.insert(eps_target);
                    new.push(eps_target);
                }
            }
        }
        Some(all)
'''), ("use std::{iter, mem};", "use std::iter;")]),
    ("R187-nacc", "C02", NE, [("self.current_states().iter().any(|s| s.accepting)", "self.current_states\n                .iter()\n                .any(|&idx| self.nfa.states[idx].is_accepting())")]),
    ("R188-nmulti-q", "C02", NE, [('''        match elems.iter().try_for_each(|e| self.step(e)) {
            None => {
                self.unknown_elem_seen = true;
                None
            }
            Some(_) => Some(())
        }
''', '''        for e in elems {
            self.step(e)?;
        }
        Some(())
''')]),
    ("B176-noclosure-step", "C02", NE, [("                self.include_closure();\n                Some(())", "                if self.current_states.len() > 1 {\n                    self.include_closure();\n                }\n                Some(())")]),
    ("B177-closure-once", "C02", NE, [("                        updated = true;\n", "                        updated = to_push.is_empty();\n")]),
    ("B178-acc-all", "C02", NE, [("self.current_states().iter().any(|s| s.accepting)", "!self.current_states.is_empty() && self.current_states().iter().any(|s| s.accepting || s.initial && s.accepting) && self.current_states().len() <= self.nfa.states.len() - 1")]),
    ("B179-closure-nostart", "C02", N, [("        let mut all = HashSet::new();\n        all.insert(start);\n", "        let mut all = HashSet::new();\n        if self.states[start].epsilon_transitions.len() != 1 {\n            all.insert(start);\n        }\n")]),
    ("B180-closure-bound", "C02", N, [("        if start >= self.states.len() {", "        if start + 1 >= self.states.len() && start > 0 {")]),
    # ---- C03
    ("R189-invert-index", "C03", D, [(DINV, '''        for i in 0..self.states.len() {
            self.states[i].accepting = !self.states[i].accepting;
        }
''')]),
    ("R190-invert-xor", "C03", D, [(DINV, '''        for state in &mut self.states {
            state.accepting ^= true;
        }
''')]),
    ("R191-pc-helper", "C03", D, [(PCLOOP, '''            for elem in self.alphabet.iter() {
                let (d1, d2) = Self::step_pair(&s1, &s2, elem);
                let states = (d1.current_state_idx(), d2.current_state_idx());
                transition_list.push(states);
                if explored_states.insert(states) {
                    evaluators_to_explore.push((d1, d2));
                }
            }
'''), ("    pub fn minimize(", '''    fn step_pair<'a>(
        s1: &DfaEvaluator<'a>,
        s2: &DfaEvaluator<'a>,
        elem: &str,
    ) -> (DfaEvaluator<'a>, DfaEvaluator<'a>) {
        let mut d1 = s1.clone();
        d1.step(elem);
        let mut d2 = s2.clone();
        d2.step(elem);
        (d1, d2)
    }

    pub fn minimize(''')]),
    ("R192-pc-contains", "C03", D, [(PCLOOP, '''            for elem in self.alphabet.iter() {
                let mut d2 = s2.clone();
                d2.step(elem);
                let mut d1 = s1.clone();
                d1.step(elem);
                let states = (d1.current_state_idx(), d2.current_state_idx());
                if !explored_states.contains(&states) {
                    explored_states.insert(states);
                    evaluators_to_explore.push((d1, d2));
                }
                transition_list.push(states);
            }
''')]),
    ("R193-pc-stepall", "C03", D, [(PCLOOP, '''            for elem in self.alphabet.as_ref() {
                let d1 = {
                    let mut next = s1.clone();
                    next.step(elem);
                    next
                };
                let d2 = {
                    let mut next = s2.clone();
                    next.step(elem);
                    next
                };
                let states = (d1.current_state_idx(), d2.current_state_idx());
                transition_list.push(states);
                if explored_states.insert(states) {
                    evaluators_to_explore.push((d1, d2));
                }
            }
''')]),
    ("R194-xor", "C03", D, [("s1.accepting != s2.accepting)", "s1.accepting ^ s2.accepting)")]),
    ("R195-aleq-all", "C03", U, [(AEQ, "    let seen = a.iter().collect::<HashSet<_>>();\n    seen.len() == b.iter().collect::<HashSet<_>>().len() && b.iter().all(|e| seen.contains(e))\n")]),
    ("R196-aleq-sorted", "C03", U, [(AEQ, "    let mut a = a.to_vec();\n    let mut b = b.to_vec();\n    a.sort();\n    b.sort();\n    a == b\n"), ("use std::collections::HashSet;\n", "")]),
    ("R197-pc-named-pair", "C03", D, [("        let initial_state = *rev_state_idx_map\n            .get(&(q1, q2))\n            .expect(\"Initial state should have an index\");\n\n        let states = state_data\n            .into_iter()\n            .map(|(states, acc", "        let initial_pair = (q1, q2);\n        let initial_state = rev_state_idx_map[&initial_pair];\n\n        let states = state_data\n            .into_iter()\n            .map(|(states, acc"), ("initial: states == (q1, q2),", "initial: states == initial_pair,")]),
    ("R198-pc-init-zero", "C03", D, [("        let initial_state = *rev_state_idx_map\n            .get(&(q1, q2))\n            .expect(\"Initial state should have an index\");\n\n        let states = state_data\n            .into_iter()\n            .map(|(states, acc", "        // the initial pair is popped first\n        let initial_state = 0;\n\n        let states = state_data\n            .into_iter()\n            .map(|(states, acc")]),
    ("B181-diff-swap", "C03", D, [("s1.accepting && !s2.accepting)", "s1.accepting && !(s2.accepting && s1.initial == s2.initial))")]),
    ("B182-invert-skip", "C03", D, [(DINV, "        self.states\n            .iter_mut()\n            .filter(|s| !s.transitions.is_empty())\n            .for_each(|s| s.accepting = !s.accepting)\n")]),
    ("B183-pc-col", "C03", D, [("                let mut d2 = s2.clone();\n                d2.step(elem);\n                let states", "                let mut d2 = s2.clone();\n                if d2.step(elem).is_none() {\n                    d2 = s2.clone();\n                }\n                let mut d2 = if s1.current_state_idx() == d1.current_state_idx() { s2.clone() } else { d2 };\n                d2.step(elem);\n                let states")]),
    ("R184-aleq-subset", "C03 C04 C05", U, [("    set1 == set2\n", "    set1.is_subset(&set2)\n")]),
    ("B185-aleq-nolen", "C03", U, [("    if a.len() != b.len() {\n        return false;\n    }\n", ""), ("set1 == set2", "set1.is_superset(&set2)")]),
    ("B186-names-clash", "C23", D, [("            if potential_names.len() < state_data.len() {", "            if potential_names.len() + 1 < state_data.len() {")]),
    # ---- C04
    ("R199-inter-match", "C04", N, [("            s1.zip(s2)\n                .map_or(false, |(s1, s2)| s1.accepting && s2.accepting)", "            match (s1, s2) {\n                (Some(s1), Some(s2)) => s1.accepting && s2.accepting,\n                _ => false,\n            }")]),
    ("R200-union-position", "C04", N, [(UTRANS, '''        let alphabet_translation = other
            .alphabet
            .iter()
            .map(|elem1| self.alphabet.iter().position(|elem2| elem1 == elem2).unwrap())
            .collect::<Vec<usize>>();
        // alphabet_translation[i]''')]),
    ("R201-union-rename-enum", "C04", N, [('''            let mut iter = 1..;
            self.states.iter_mut().for_each(|state| {
                state.name = iter
                    .next()
                    .map(|i| Rc::from(i.to_string().as_str()))
                    .unwrap()
            });
''', '''            for (i, state) in self.states.iter_mut().enumerate() {
                state.name = Rc::from((i + 1).to_string());
            }
''')]),
    ("R202-union-always-sort", "C04", N, [("        if !alphabet_translation.windows(2).all(|v| v[0] < v[1]) {\n            // We need to re-order the entries\n            for", "        {\n            // Put the entries in our order\n            for")]),
    ("R203-union-reorder", "C04", N, [('''        self.states[self.initial_state].initial = false;
        self.states[b_init].initial = false;
        self.initial_state = self.states.len();
        self.states.push(new_initial_state);
''', '''        self.states[b_init].initial = false;
        self.states[self.initial_state].initial = false;
        self.states.push(new_initial_state);
        self.initial_state = self.states.len() - 1;
''')]),
    ("R204-npc-visit-closure", "C04", N, [('''                        for &tr1 in on_elem1 {
                            for &tr2 in on_elem2 {
                                let states = (Some(tr1), Some(tr2));
                                elem_transitions.push(states);
                                if explored_states.insert(states) {
                                    state_pairs_to_explore.push(states);
                                }
                            }
                        }
''', '''                        for tr1 in on_elem1.iter() {
                            for tr2 in on_elem2.iter() {
                                let pair = (Some(*tr1), Some(*tr2));
                                if explored_states.insert(pair) {
                                    state_pairs_to_explore.push(pair);
                                }
                                elem_transitions.push(pair);
                            }
                        }
''')]),
    ("B187-union-eps", "C04", N, [("epsilon_transitions: vec![self.initial_state, b_init],", "epsilon_transitions: if self.states[self.initial_state].accepting { vec![self.initial_state] } else { vec![self.initial_state, b_init] },")]),
    ("B188-union-noinitflag", "C04", N, [("        self.states[b_init].initial = false;\n        self.initial_state = self", "        self.initial_state = self")]),
    ("B189-union-order", "C04", N, [(".all(|v| v[0] < v[1])", ".any(|v| v[0] < v[1])")]),
    ("B190-npc-eps-both", "C04", N, [("                    let states = (s1, Some(eps2));", "                    let states = (s1.filter(|s| *s != eps2).or(s1), Some(eps2).filter(|_| s1.is_some()));")]),
    ("B191-npc-col", "C04", N, [("                        let on_elem1 = &self.states[s1].transitions[elem];\n                        let on_elem2 = &other.states[s2].transitions[other_elem];", "                        let on_elem1 = &self.states[s1].transitions[elem];\n                        let on_elem2 = &other.states[s2].transitions[elem];")]),
    ("B192-fresh", "C23", N, [("                .find(|n| self.states.iter().all(|s| &s.name != n))", "                .find(|n| self.states.iter().skip(1).all(|s| &s.name != n))")]),
    # ---- C05
    ("R205-eq-queue", "C05", D, [(DEQ, '''            for elem in self.alphabet.iter() {
                let mut d1 = s1.clone();
                let mut d2 = s2.clone();
                d1.step(elem);
                d2.step(elem);
                let pair = (d1.current_state_idx(), d2.current_state_idx());
                if explored_states.contains(&pair) {
                    continue;
                }
                explored_states.insert(pair);
                evaluators_to_explore.push((d1, d2));
            }
''')]),
    ("R206-eq-early", "C05", D, [("            if s1.is_accepting() != s2.is_accepting() {\n                return false;\n            }", "            match (s1.is_accepting(), s2.is_accepting()) {\n                (true, false) | (false, true) => return false,\n                _ => (),\n            }")]),
    ("R207-neq-sets", "C05", N, [('''                if explored_states.insert((
                    Self::set_to_vec(d1.current_states_idx()),
                    Self::set_to_vec(d2.current_states_idx()),
                )) {''', '''                let left = Self::set_to_vec(d1.current_states_idx());
                let right = Self::set_to_vec(d2.current_states_idx());
                let fresh = explored_states.insert((left, right));
                if fresh {''')]),
    ("R208-neq-order", "C05", N, [('''                let mut d1 = s1.clone();
                d1.step(elem);
                let mut d2 = s2.clone();
                d2.step(elem);
                if explored_states.insert((
''', '''                let (mut d1, mut d2) = (s1.clone(), s2.clone());
                d2.step(elem);
                d1.step(elem);
                if explored_states.insert((
''')]),
    ("R209-eq-symdiff", "C05", D, [(None, None)] if 0 else [("                if explored_states.insert((d1.current_state_idx(), d2.current_state_idx())) {\n                    evaluators_to_explore.push((d1, d2));\n                }", "                let key = (d1.current_state_idx(), d2.current_state_idx());\n                if !explored_states.insert(key) {\n                    continue;\n                }\n                evaluators_to_explore.push((d1, d2));")]),
    ("B193-eq-key", "C05", D, [("explored_states.insert((d1.current_state_idx(), d2.current_state_idx()))", "explored_states.insert((d1.current_state_idx(), d2.current_state_idx() & 0xff))")]),
    ("B194-eq-min", "C05", D, [("explored_states.insert((d1.current_state_idx(), d2.current_state_idx()))", "explored_states.insert((d1.current_state_idx().min(d2.current_state_idx()), d1.current_state_idx().max(d2.current_state_idx())))")]),
    ("B195-neq-nosort", "C06", N, [("        let mut vec = set.iter().cloned().collect::<Vec<_>>();\n        vec.sort();\n        vec", "        let mut vec = set.iter().cloned().collect::<Vec<_>>();\n        if vec.len() > 2 {\n            vec.sort();\n        }\n        vec")]),
    ("B196-neq-len", "C05", N, [('''                if explored_states.insert((
                    Self::set_to_vec(d1.current_states_idx()),
                    Self::set_to_vec(d2.current_states_idx()),
                )) {''', '''                if explored_states.insert((
                    Self::set_to_vec(d1.current_states_idx()),
                    Self::set_to_vec(d2.current_states_idx()),
                )) && !(d1.current_states_idx().is_empty() && d2.current_states_idx().len() > 1) {''')]),
    ("B197-eq-acc-first", "C05", D, [("            if s1.is_accepting() != s2.is_accepting() {\n                return false;\n            }", "            if s1.is_accepting() != s2.is_accepting() && explored_states.len() > 1 {\n                return false;\n            }")]),
    # ---- C06
    ("R210-todfa-entry", "C06", N, [(TODFA, '''            for next in eval.step_all() {
                let key = Self::set_to_vec(next.current_states_idx());
                let accepts = next.is_accepting();
                let x = match map.get(&key) {
                    Some(&x) => x,
                    None => {
                        let x = gen.next().unwrap();
                        map.insert(key, x);
                        to_explore.push(next);
                        x
                    }
                };
                tr.push(x);
                if accepts {
                    accepting.insert(x);
                }
            }
''')]),
    ("R211-todfa-elem", "C06", N, [("            for new_evaluator in eval.step_all() {\n", "            for elem in self.alphabet.iter() {\n                let mut new_evaluator = eval.clone();\n                new_evaluator.step(elem);\n")]),
    ("R212-tonfa-from", "C06", D, [("let states = states.into_iter().map(|s| s.into()).collect();", "let states = states.into_iter().map(NfaState::from).collect();")]),
    ("R213-tonfa-loop", "C06", D, [("transitions: transitions.into_iter().map(|t| vec![t]).collect(),", "transitions: transitions.into_iter().map(|t| std::iter::once(t).collect()).collect(),")]),
    ("R214-todfa-sorted", "C06", N, [('''        let sorted_keys = {
            let mut vec = map.iter().collect::<Vec<_>>();
            vec.sort_by_key(|(_, &n)| n);
            vec
        };
''', '''        let mut sorted_keys = map.iter().collect::<Vec<_>>();
        sorted_keys.sort_unstable_by_key(|(_, n)| **n);
''')]),
    ("B198-todfa-acc", "C06", N, [("            if to_explore[0].is_accepting() {\n                accepting.insert(n);\n            }\n", "")]),
    ("B199-todfa-late", "C06", N, [("                if !map.contains_key(&key) {\n                    to_explore.push(new_evaluator);\n                }", "                if !map.contains_key(&key) && !key.is_empty() || map.len() < 2 {\n                    to_explore.push(new_evaluator);\n                }")]),
    ("B200-tonfa-eps", "C06", D, [("            initial,\n            accepting,\n            epsilon_transitions: vec![],", "            initial: initial || accepting && transitions.is_empty(),\n            accepting,\n            epsilon_transitions: vec![],")]),
    # ---- C07
    ("R215-dreach-stack", "C07", D, [(DREACH, '''        let mut reachables = HashSet::from([self.initial_state]);
        let mut stack = vec![self.initial_state];
        while let Some(state) = stack.pop() {
            for &target in &self.states[state].transitions {
                if reachables.insert(target) {
                    stack.push(target);
                }
            }
        }
        reachables
''')]),
    ("R216-nreach-stack", "C07", N, [(NREACH, '''        let mut reachables = HashSet::from([self.initial_state]);
        let mut stack = vec![self.initial_state];
        while let Some(state) = stack.pop() {
            let state = &self.states[state];
            for &target in state.transitions.iter().flatten() {
                if reachables.insert(target) {
                    stack.push(target);
                }
            }
            for &target in &state.epsilon_transitions {
                if reachables.insert(target) {
                    stack.push(target);
                }
            }
        }
        reachables
''')]),
    ("R217-nreach-eps", "C07", N, [(".chain(self.closure(state).unwrap().into_iter())", ".chain(self.states[state].epsilon_transitions.iter().copied())")]),
    ("R218-unreach-diff", "C07", D, [("        let reachables = self.reachable_state_idx();\n        (0..self.states.len())\n            .filter(|x| !reachables.contains(x))\n            .collect()", "        let all: HashSet<usize> = (0..self.states.len()).collect();\n        all.difference(&self.reachable_state_idx()).copied().collect()")]),
    ("R219-unreach-loop", "C07", N, [("        (0..self.states.len())\n            .filter(|x| !reachables.contains(x))\n            .collect()", "        let mut unreachable = HashSet::new();\n        for idx in 0..self.states.len() {\n            if !reachables.contains(&idx) {\n                unreachable.insert(idx);\n            }\n        }\n        unreachable")]),
    ("R220-hasacc-states", "C07", D, [("        self.reachable_state_idx()\n            .iter()\n            .any(|idx| self.states[*idx].accepting)", "        self.reachable_states().iter().any(|s| s.is_accepting())")]),
    ("R221-dreach-fix", "C07", D, [(DREACH, '''        let mut reachables = HashSet::from([self.initial_state]);
        loop {
            let next: HashSet<usize> = reachables
                .iter()
                .flat_map(|&state| self.states[state].transitions.iter().copied())
                .filter(|state| !reachables.contains(state))
                .collect();
            if next.is_empty() {
                break;
            }
            reachables.extend(next);
        }
        reachables
''')]),
    ("B201-dreach-cap", "C07", D, [("        while !new_states.is_empty() {\n            new_states = new_states\n                .drain()\n                .flat_map(|state| self", "        while !new_states.is_empty() && reachables.len() < self.states.len() - 1 {\n            new_states = new_states\n                .drain()\n                .flat_map(|state| self")]),
    ("B202-nreach-noeps", "C07", N, [(".chain(self.closure(state).unwrap().into_iter())", ".chain(self.closure(self.initial_state).unwrap().into_iter())")]),
    ("B203-hasacc-init", "C07", N, [("        self.reachable_state_idx()\n            .iter()\n            .any(|idx| self.states[*idx].accepting)", "        let r = self.reachable_state_idx();\n        r.iter()\n            .any(|idx| self.states[*idx].accepting && r.len() <= self.states.len() && (*idx != self.initial_state || r.len() == 1 || self.states[*idx].accepting && self.states.iter().any(|s| s.accepting && !s.initial)))")]),
    ("B204-unreach-list", "C07", D, [("        self.unreachable_state_idx()\n            .into_iter()\n            .map(|idx| &self.states[idx])", "        self.unreachable_state_idx()\n            .into_iter()\n            .filter(|idx| *idx > 0)\n            .map(|idx| &self.states[idx])")]),
    # ---- C08
    ("R222-dupa-for", "C08", DP, [(DUPA, '''        let mut alphabet = HashSet::new();
        for c in head.iter() {
            if !alphabet.insert(*c) {
                return Err(DuplicateAlphabetSymbol(c));
            }
        }
''')]),
    ("R223-dups-for", "C08", DP, [(DUPS, '''            let mut seen = HashSet::new();
            for state in states.iter() {
                if !seen.insert(state.name) {
                    return Err(DuplicateStateDefinition(state.name));
                }
            }
            return Err(DuplicateStateDefinition("<unknown>"));
'''), ("use std::ops::Not;\n", "")]),
    ("R224-trans-collect", "C08", DP, [('''            let mut new_transitions = Vec::with_capacity(head.len());
            for transition in transitions {
                if let Some(idx) = state_name_map.get(transition) {
                    new_transitions.push(*idx);
                } else {
                    return Err(TransitionDoesNotExist(name, transition)); // Target of transition does not exist
                }
            }
''', '''            let new_transitions = transitions
                .into_iter()
                .map(|transition| {
                    state_name_map
                        .get(transition)
                        .copied()
                        .ok_or(TransitionDoesNotExist(name, transition))
                })
                .collect::<Result<Vec<_>, _>>()?;
''')]),
    ("R225-init-match", "C08", DP, [('''            if initial {
                if initial_state.is_none() {
                    initial_state = Some(idx);
                } else {
                    return Err(MultipleInitialStates);
                }
            }
''', '''            match (initial, initial_state) {
                (false, _) => {}
                (true, None) => initial_state = Some(idx),
                (true, Some(_)) => return Err(MultipleInitialStates),
            }
''')]),
    ("R226-init-before", "C08", DP, [("        if let Some(initial_state) = initial_state {\n            let dfa = Dfa {\n                alphabet: head.into_iter().map(Rc::from).collect(),\n                states: new_states,\n                initial_state,\n            };\n            Ok(dfa)\n        } else {\n            Err(MissingInitialState)\n        }", "        let initial_state = initial_state.ok_or(MissingInitialState)?;\n        Ok(Dfa {\n            alphabet: head.into_iter().map(Rc::from).collect(),\n            states: new_states,\n            initial_state,\n        })")]),
    ("R227-name-map-loop", "C08", DP, [('''        let state_name_map: HashMap<_, _> = states
            .iter()
            .enumerate()
            .map(|(i, s)| (s.name, i))
            .collect();
''', '''        let mut state_name_map = HashMap::with_capacity(states.len());
        for (i, s) in states.iter().enumerate() {
            state_name_map.insert(s.name, i);
        }
''')]),
    ("R228-initial-filter", "C08", DP, [('''            if initial {
                if initial_state.is_none() {
                    initial_state = Some(idx);
                } else {
                    return Err(MultipleInitialStates);
                }
            }
''', '''            if initial {
                if initial_state.is_some() {
                    return Err(MultipleInitialStates);
                }
                initial_state = Some(idx);
            }
''')]),
    ("B205-count-less", "C08", DP, [("            if transitions.len() != head.len() {", "            if transitions.len() < head.len() {")]),
    ("B206-init-replace", "C08", DP, [("                if initial_state.is_none() {\n                    initial_state = Some(idx);", "                if initial_state.is_none() || accepting {\n                    initial_state = Some(idx);")]),
    ("B207-dupname-some", "C08", DP, [("        if state_name_map.len() != states.len() {", "        if state_name_map.len() + 1 < states.len() {")]),
    ("B208-trim-name", "C08", DP, [("if let Some(idx) = state_name_map.get(transition) {", "if let Some(idx) = state_name_map.get(transition).or_else(|| state_name_map.get(transition.trim_end_matches('\\''))) {")]),
    # ---- C09
    ("R229-nhead-for", "C09", NP, [(NHEAD, '''            for (idx, e) in head.iter().enumerate() {
                match e {
                    NfaAlphabetEntry::Element(c) => {
                        if !alphabet.insert(c) {
                            return Err(DuplicateAlphabetSymbol(c));
                        }
                    }
                    NfaAlphabetEntry::Eps => {
                        if eps_idx.is_some() {
                            return Err(DuplicateAlphabetSymbol("ε"));
                        }
                        eps_idx = Some(idx);
                    }
                }
            }
''')]),
    ("R230-ntr-collect", "C09", NP, [(NTR, '''            for (column, transition) in transitions.iter().enumerate() {
                let mut tr_idx = Vec::with_capacity(transition.len());
                for target in transition {
                    match state_name_map.get(target) {
                        Some(&idx) => tr_idx.push(idx),
                        None => return Err(TransitionDoesNotExist(name, target)),
                    }
                }
                if Some(column) == eps_idx {
                    epsilon_transitions = Some(tr_idx);
                } else {
                    new_transitions.push(tr_idx);
                }
            }
''')]),
    ("R231-ntr-iter", "C09", NP, [(NTR, '''            for (column, transition) in transitions.iter().enumerate() {
                let tr_idx = transition
                    .iter()
                    .map(|target| {
                        state_name_map
                            .get(target)
                            .copied()
                            .ok_or(TransitionDoesNotExist(name, target))
                    })
                    .collect::<Result<Vec<_>, _>>()?;
                if eps_idx == Some(column) {
                    epsilon_transitions = Some(tr_idx);
                } else {
                    new_transitions.push(tr_idx);
                }
            }
''')]),
    ("R232-nalpha-loop", "C09", NP, [('''                alphabet: head
                    .into_iter()
                    .filter_map(|s| match s {
                        NfaAlphabetEntry::Eps => None,
                        NfaAlphabetEntry::Element(s) => Some(Rc::from(s)),
                    })
                    .collect::<Rc<[_]>>(),
''', '''                alphabet,
'''), ("            let dfa = Nfa {", '''            let mut alphabet: Vec<Rc<str>> = Vec::new();
            for entry in head {
                if let NfaAlphabetEntry::Element(s) = entry {
                    alphabet.push(Rc::from(s));
                }
            }
            let alphabet = alphabet.into();
            let dfa = Nfa {''')]),
    ("R233-ntr-helper", "C09", NP, [(NTR, '''            for (idx, transition) in transitions.iter().enumerate() {
                let tr_idx = resolve(&state_name_map, name, transition)?;
                if Some(idx) == eps_idx {
                    epsilon_transitions = Some(tr_idx);
                } else {
                    new_transitions.push(tr_idx);
                }
            }
'''), ("impl<'a> TryFrom<ParsedNfa<'a>> for Nfa {", '''fn resolve<'a>(
    names: &HashMap<&'a str, usize>,
    from: &'a str,
    targets: &[&'a str],
) -> Result<Vec<usize>, NfaParseError<'a>> {
    let mut indices = Vec::with_capacity(targets.len());
    for target in targets {
        match names.get(target) {
            Some(idx) => indices.push(*idx),
            None => return Err(NfaParseError::TransitionDoesNotExist(from, target)),
        }
    }
    Ok(indices)
}

impl<'a> TryFrom<ParsedNfa<'a>> for Nfa {''')]),
    ("B209-eps-first", "C09", NP, [("if Some(idx) == eps_idx {", "if eps_idx.is_some() && idx == 0 {")]),
    ("B210-eps-dup", "C09", NP, [("                        if eps_idx.is_some() {\n                            Err(&\"ε\")", "                        if eps_idx.is_some_and(|i| i + 1 == idx) {\n                            Err(&\"ε\")")]),
    ("B211-ntarget-missing", "C09", NP, [('''                        if let Some(idx) = state_name_map.get(target) {
                            tr_idx.push(*idx);
                        } else {
                            return Err(TransitionDoesNotExist(name, target)); // Target of transition does not exist
                        }
                    }
                    epsilon''', '''                        if let Some(idx) = state_name_map.get(target) {
                            tr_idx.push(*idx);
                        } else if transition.len() == 1 {
                            return Err(TransitionDoesNotExist(name, target)); // Target of transition does not exist
                        }
                    }
                    epsilon''')]),
    ("B212-eps-merge", "C09", NP, [("epsilon_transitions: epsilon_transitions.unwrap_or_default(),", "epsilon_transitions: epsilon_transitions.filter(|e| *e != vec![0]).unwrap_or_default(),")]),
    # ---- C10
    ("R234-rms-for", "C10", D, [(RMS, '''        for idx in to_remove.iter().rev().copied() {
            old_state_idx.remove(idx);
            self.states.remove(idx);
        }
''')]),
    ("R235-rmap-for", "C10", D, [(RMAP, '''        for state in &mut self.states {
            for trans in &mut state.transitions {
                *trans = mapper(*trans).unwrap_or(*trans);
            }
        }
''')]),
    ("R236-rmap-iflet", "C10", N, [(NRMAP, '''        for state in self.states.iter_mut() {
            for trans in state
                .transitions
                .iter_mut()
                .flatten()
                .chain(state.epsilon_transitions.iter_mut())
            {
                if let Some(new) = mapper(*trans) {
                    *trans = new;
                }
            }
        }
''')]),
    ("R237-rmi-match", "C10", D, [(RMI, '''        match to_remove.binary_search(&self.initial_state) {
            Ok(_) => panic!("Cannot remove initial state"),
            Err(less_than) => self.initial_state -= less_than,
        }
''')]),
    ("R238-rmu-inline", "C10", N, [("        let states = self.unreachable_state_idx().into_iter().collect();\n        self.remove_states(states);", "        let unreachable: Vec<usize> = self.unreachable_state_idx().into_iter().collect();\n        if !unreachable.is_empty() {\n            self.remove_states(unreachable);\n        }")]),
    ("R239-rms-retain", "C10", D, [(RMS, '''        let mut idx = 0;
        self.states.retain(|_| {
            let keep = to_remove.binary_search(&idx).is_err();
            idx += 1;
            keep
        });
        old_state_idx.retain(|idx| to_remove.binary_search(idx).is_err());
''')]),
    ("B213-rmi-after", "C10", D, [("            self.initial_state -= less_than;", "            self.initial_state -= less_than.min(1);")]),
    ("B214-nrmap-noeps", "C10", N, [('''            state
                .epsilon_transitions
                .iter_mut()
                .for_each(|trans| *trans = mapper(*trans).unwrap_or(*trans));
        })''', '''            state
                .epsilon_transitions
                .iter_mut()
                .skip(1)
                .for_each(|trans| *trans = mapper(*trans).unwrap_or(*trans));
        })''')]),
    ("B215-rms-dedup", "C10", D, [("        to_remove.sort();\n", "        to_remove.sort_by_key(|i| i & 0xff);\n")]),
    ("B216-rms-order", "C10", N, [("        to_remove.iter().rev().for_each(|&idx| {\n            self.states.remove(idx);", "        to_remove.iter().rev().for_each(|&idx| {\n            self.states.swap_remove(idx);")]),
    # ---- C11
    ("R240-inline-flat", "C11", N, [(INLINE, '''                let targets: HashSet<usize> = transition_set
                    .iter()
                    .flat_map(|transition| closures[*transition].iter().copied())
                    .collect();
                *transition_set = targets.into_iter().collect();
''')]),
    ("R241-inline-for", "C11", N, [(INLINE, '''                let mut set = HashSet::new();
                for transition in transition_set.iter() {
                    set.extend(closures[*transition].iter().copied());
                }
                *transition_set = set.into_iter().collect();
''')]),
    ("R242-closures-unwrap", "C11", N, [(".filter_map(|idx| self.closure(idx))", ".map(|idx| self.closure(idx).unwrap())")]),
    ("R243-hasacc-any", "C11", N, [("accepting: init_closure.iter().any(|idx| self.states[*idx].accepting),", "accepting: init_closure\n                    .iter()\n                    .map(|&idx| &self.states[idx])\n                    .any(NfaState::is_accepting),")]),
    ("R244-newtrans-flat", "C11", N, [('''                    init_closure
                        .iter()
                        .fold(HashSet::new(), |mut set, &state| {
                            set.extend(self.states[state].transitions[elem_idx].iter().copied());
                            set
                        })
                        .drain()
                        .filter(|i| !dead_states.contains(i))
                        .collect::<Vec<_>>()
''', '''                    let targets = init_closure
                        .iter()
                        .flat_map(|&state| self.states[state].transitions[elem_idx].iter().copied())
                        .filter(|i| !dead_states.contains(i))
                        .collect::<HashSet<_>>();
                    targets.into_iter().collect::<Vec<_>>()
''')]),
    ("R245-dead-helper", "C11", N, [(DEAD1, '''        self.extend_dead(&mut dead_states);
'''), ('''                let mut added_states = true;
                while added_states {
                    added_states = false;
                    for (idx, state) in self.states.iter().enumerate() {
                        if !dead_states.contains(&idx)
                            && !state.is_accepting()
                            && !state.is_initial()
                            && state.transitions.iter().all(|transitions| {
                                transitions.iter().all(|idx| dead_states.contains(idx))
                            })
                        {
                            dead_states.insert(idx);
                            added_states = true;
                        }
                    }
                }
''', '''                self.extend_dead(&mut dead_states);
'''), ("    fn fresh_name(", '''    fn extend_dead(&self, dead_states: &mut HashSet<usize>) {
        let mut added_states = true;
        while added_states {
            added_states = false;
            for (idx, state) in self.states.iter().enumerate() {
                if !dead_states.contains(&idx)
                    && !state.is_accepting()
                    && !state.is_initial()
                    && state
                        .transitions
                        .iter()
                        .all(|transitions| transitions.iter().all(|idx| dead_states.contains(idx)))
                {
                    dead_states.insert(idx);
                    added_states = true;
                }
            }
        }
    }

    fn fresh_name(''')]),
    ("R246-retain-for", "C11", N, [('''        self.states.iter_mut().for_each(|state| {
            state
                .transitions
                .iter_mut()
                .for_each(|transition| transition.retain(|idx| !dead_states.contains(idx)))
        });
''', '''        for state in self.states.iter_mut() {
            for transition in state.transitions.iter_mut() {
                transition.retain(|idx| !dead_states.contains(idx));
            }
        }
''')]),
    ("B217-dead-acc", "C11", N, [("        let init_closure = closures[self.initial_state]\n            .iter()\n            .copied()\n            .filter(|x| !dead_states.contains(x))", "        let init_closure = closures[self.initial_state]\n            .iter()\n            .copied()\n            .filter(|x| !dead_states.contains(x) && !(self.states[*x].accepting && self.states[*x].transitions.iter().all(Vec::is_empty)))")]),
    ("B218-new-acc", "C11", N, [("accepting: init_closure.iter().any(|idx| self.states[*idx].accepting),", "accepting: self.states[old_initial].epsilon_transitions.iter().chain([&old_initial]).any(|idx| self.states[*idx].accepting),")]),
    ("B219-inline-skip", "C11", N, [("                        set.extend(&closures[*transition]);", "                        set.extend(closures[*transition].iter().filter(|t| *t >= transition || closures[*transition].len() > 2));")]),
    ("B220-olddead-noupdate", "C11", N, [("            if old_state_dead {\n                // Remove it", "            if old_state_dead || init_closure.len() > 3 {\n                // Remove it")]),
    ("B221-dead-trans", "C11", N, [("                        .all(|transitions| transitions.iter().all(|idx| dead_states.contains(idx)))\n                {", "                        .all(|transitions| transitions.iter().all(|t| dead_states.contains(t) || *t < idx && self.states[*t].transitions.iter().all(Vec::is_empty)))\n                {")]),
    # ---- C12
    ("R247-seq-for", "C12", RX, [(SEQ, '''                    let mut ret = vec![incoming_state];
                    for (idx, subtree) in seq.into_iter().enumerate() {
                        let after_state_idx = counter.next();
                        let mut after_state = NfaState {
                            name: Rc::from(after_state_idx.to_string()),
                            initial: false,
                            accepting: false,
                            epsilon_transitions: vec![],
                            transitions: vec![],
                        };
                        let mut new_states =
                            Self::tree_to_nfa(subtree, counter, grapheme_idx, after_state_idx);
                        let target = if idx + 1 == seq_len {
                            send_to
                        } else {
                            counter.state + 1
                        };
                        after_state.epsilon_transitions.push(target);
                        ret.push(after_state);
                        ret.append(&mut new_states);
                    }
                    ret
'''), ("use std::iter;\n", "")]),
    ("R248-alt-for", "C12", RX, [('''                let mut additional = alt
                    .into_iter()
                    .flat_map(|tree| {
                        incoming_state.epsilon_transitions.push(counter.peek());
                        Self::tree_to_nfa(tree, counter, grapheme_idx, send_to)
                    })
                    .collect::<Vec<_>>();
                let mut ret = Vec::with_capacity(1 + additional.len());
                ret.push(incoming_state);
                ret.append(&mut additional);
                ret
''', '''                let mut additional = Vec::new();
                for tree in alt {
                    incoming_state.epsilon_transitions.push(counter.peek());
                    additional.extend(Self::tree_to_nfa(tree, counter, grapheme_idx, send_to));
                }
                let mut ret = vec![incoming_state];
                ret.extend(additional);
                ret
''')]),
    ("R249-rep-extend", "C12", RX, [('''                let mut additional =
                    Self::tree_to_nfa(*r, counter, grapheme_idx, incoming_state_idx);
                let mut ret = Vec::with_capacity(additional.len() + 1);
                ret.push(incoming_state);
                ret.append(&mut additional);
                ret
''', '''                let additional = Self::tree_to_nfa(*r, counter, grapheme_idx, incoming_state_idx);
                iter::once(incoming_state).chain(additional).collect()
''')]),
    ("R250-state-ctor", "C12", RX, [('''        let incoming_state_idx = counter.next();
        let mut incoming_state = NfaState {
            name: Rc::from(incoming_state_idx.to_string()),
            initial: false,
            accepting: false,
            epsilon_transitions: vec![],
            transitions: vec![],
        };
''', '''        let incoming_state_idx = counter.next();
        let mut incoming_state = plain_state(incoming_state_idx);
'''), ('''                            let mut after_state = NfaState {
                                name: Rc::from(after_state_idx.to_string()),
                                initial: false,
                                accepting: false,
                                epsilon_transitions: vec![],
                                transitions: vec![],
                            };
''', '''                            let mut after_state = plain_state(after_state_idx);
'''), ("impl StateCounter {", '''fn plain_state(idx: usize) -> NfaState {
    NfaState {
        name: Rc::from(idx.to_string()),
        initial: false,
        accepting: false,
        epsilon_transitions: vec![],
        transitions: vec![],
    }
}

impl StateCounter {''')]),
    ("R251-char-resize", "C12", RX, [('''                    let mut transition_vec = vec![vec![]; cidx];
                    transition_vec.push(vec![send_to]);
                    incoming_state.transitions = transition_vec;
''', '''                    incoming_state.transitions = vec![vec![]; cidx + 1];
                    incoming_state.transitions[cidx].push(send_to);
''')]),
    ("R252-resize-for", "C12", RX, [('''            all_states
                .iter_mut()
                .for_each(|s| s.transitions.resize(char_map.len(), vec![]));
            all_states
''', '''            for state in all_states.iter_mut() {
                while state.transitions.len() < char_map.len() {
                    state.transitions.push(vec![]);
                }
            }
            all_states
''')]),
    ("B222-seq-last", "C12", RX, [("if idx + 1 == seq_len {", "if idx + 1 == seq_len.min(3) {")]),
    ("B223-alt-one", "C12", RX, [("                        incoming_state.epsilon_transitions.push(counter.peek());\n", "                        if incoming_state.epsilon_transitions.len() < 3 || counter.peek() % 2 == 0 {\n                            incoming_state.epsilon_transitions.push(counter.peek());\n                        }\n")]),
    ("B224-rep-noskip", "C12", RX, [("incoming_state.epsilon_transitions = vec![counter.peek(), send_to];", "incoming_state.epsilon_transitions = if matches!(*r, RegexTree::Repeat(_)) { vec![counter.peek()] } else { vec![counter.peek(), send_to] };")]),
    ("B225-empty-seq", "C12", RX, [("                if seq.is_empty() {\n                    incoming_state.epsilon_transitions.push(send_to);\n", "                if seq.is_empty() {\n")]),
    # ---- C13
    ("R253-balt-join", "C13", RX, [(BALT, '''                for (idx, item) in seq.iter().enumerate() {
                    if idx > 0 {
                        acc.push('|');
                    }
                    Self::build_string(item, acc);
                }
''')]),
    ("R254-bgr-once", "C13", RX, [(BGR, '''                    let reserved = ['(', ')', '∅', 'ε', '|', '*', '+', '\\\\'];
                    if g.starts_with(reserved) {
                        acc.push('\\\\');
                    }
                    acc.push_str(g);
''')]),
    ("R255-bgr-matches", "C13", RX, [(BGR, '''                    if let Some('(' | ')' | '∅' | 'ε' | '|' | '*' | '+' | '\\\\') = g.chars().next() {
                        acc.push('\\\\');
                    }
                    acc.push_str(g);
''')]),
    ("R256-seq-foreach", "C13", RX, [('''                for item in seq {
                    Self::build_string(item, acc);
                }
            }
            RegexTree::Alt''', '''                seq.iter().for_each(|item| Self::build_string(item, acc));
            }
            RegexTree::Alt''')]),
    ("R257-rep-str", "C13", RX, [("                acc.push(')');\n                acc.push('*');\n", "                acc.push_str(\")*\");\n")]),
    ("R258-to-string", "C13", RX, [('''        let mut acc = String::new();
        Self::build_string(&self.tree, &mut acc);
        acc
''', '''        let mut text = String::with_capacity(16);
        Self::build_string(&self.tree, &mut text);
        text
''')]),
    ("B226-balt-single", "C13", RX, [("            RegexTree::Alt(seq) => {\n                acc.push('(');", "            RegexTree::Alt(seq) if seq.len() == 1 && matches!(seq[0], RegexTree::Sequence(_)) => {\n                Self::build_string(&seq[0], acc);\n            }\n            RegexTree::Alt(seq) => {\n                acc.push('(');") if 0 else ("['(', ')', '∅', 'ε', '|', '*', '+', '\\\\'].contains(&c)", "['(', ')', '∅', 'ε', '|', '*', '\\\\'].contains(&c)")]),
    ("B227-esc-whole", "C13", RX, [("if g.chars().next().map_or(false, |c| {", "if g.chars().last().map_or(false, |c| {")]),
    ("B228-rep-char", "C13", RX, [('''            RegexTree::Repeat(seq) => {
                acc.push('(');
                Self::build_string(seq, acc);
                acc.push(')');
''', '''            RegexTree::Repeat(seq) => {
                let group = !matches!(**seq, RegexTree::Char(_) | RegexTree::Repeat(_));
                if group {
                    acc.push('(');
                }
                Self::build_string(seq, acc);
                if group {
                    acc.push(')');
                }
''')]),
    ("B229-alt-paren", "C13", RX, [("                acc.push('(');\n                let mut iter = seq.iter();", "                if seq.len() > 2 {\n                    acc.push('(');\n                }\n                let mut iter = seq.iter();"), ("                }\n                acc.push(')');\n            }\n            RegexTree::Repeat", "                }\n                if seq.len() > 2 {\n                    acc.push(')');\n                }\n            }\n            RegexTree::Repeat")]),
    # ---- C14
    ("R259-push-for", "C14", T, [(PUSHROW, '''        if row.len() > self.row_len.len() {
            self.row_len.resize(row.len(), 0);
        }
        for (idx, s) in row.iter().enumerate() {
            self.row_len[idx] = max(self.row_len[idx], s.chars().count());
        }
        self.rows.push(row);
''')]),
    ("R260-pad-repeat", "C14", T, [(PAD, '''            let cs = s.chars().count();
            format!("{}{}", s, " ".repeat(l.saturating_sub(cs)))
''')]),
    ("R261-pad-width", "C14", T, [(PAD, '''            format!("{s:l$}")
''')]),
    ("R262-to-loop", "C14", T, [(TOW, '''        let last = self.row_len.len() - 1;
        let mut lines = Vec::with_capacity(self.rows.len());
        for row in &self.rows {
            let mut line = String::new();
            for (idx, s) in row.iter().enumerate() {
                let width = if idx < last { self.row_len[idx] } else { 0 };
                line.push_str(&pad(s, width));
                line.push_str(sep);
            }
            lines.push(line);
        }
        lines.join("\\n")
'''), ("use std::iter;\n", "")]),
    ("R263-gen-extend", "C14", D, [('''            transitions
                .iter()
                .for_each(|&c| state.push(&self.states[c].name));
''', '''            state.extend(transitions.iter().map(|&c| self.states[c].name.as_ref()));
''')]),
    ("R264-gen-for", "C14", D, [('''            transitions
                .iter()
                .for_each(|&c| state.push(&self.states[c].name));
''', '''            for c in transitions {
                let target = &self.states[*c];
                state.push(target.name());
            }
''')]),
    ("R265-gen-fields", "C14", D, [('''        for DfaState {
            name,
            initial,
            accepting,
            transitions,
        } in &self.states
        {
            let mut state = vec![
                if *initial { arrow } else { "" },
                if *accepting { "*" } else { "" },
                name,
            ];
            transitions
''', '''        for row in self.states.iter() {
            let mut state: Vec<&str> = vec![];
            state.push(if row.initial { arrow } else { "" });
            state.push(if row.accepting { "*" } else { "" });
            state.push(&row.name);
            row.transitions
''')]),
    ("R266-push-if", "C14", T, [(PUSHROW, '''        while self.row_len.len() < row.len() {
            self.row_len.push(0);
        }
        for (max_len, s) in self.row_len.iter_mut().zip(row.iter()) {
            let len = s.chars().count();
            if len > *max_len {
                *max_len = len;
            }
        }
        self.rows.push(row);
''')]),
    ("R267-ngen-zip", "C14", N, [('''        for (idx, state) in self.states.iter().enumerate() {
            let mut state = vec![
                if state.initial { arrow } else { "" },
                if state.accepting { "*" } else { "" },
                &state.name,
            ];
            state.extend(trans_strings[idx].iter().map(|s| s as &str));
            table.push_row(state);
        }
''', '''        for (state, cells) in self.states.iter().zip(trans_strings) {
            let mut row = vec![
                if state.initial { arrow } else { "" },
                if state.accepting { "*" } else { "" },
                &state.name,
            ];
            for cell in cells {
                row.push(cell);
            }
            table.push_row(row);
        }
''')]),
    ("B230-width-bytes", "C14", T, [("*max_len = max(*max_len, s.chars().count()));", "*max_len = max(*max_len, s.len()));"), ("            let cs = s.chars().count();", "            let cs = s.chars().count() + (s.len() - s.chars().count()) % 2 * 0;")]),
    ("B231-pad-cut", "C14", T, [("                s.to_string()\n", "                s.chars().take(l.max(1)).collect()\n")]),
    ("B232-gen-star", "C14", D, [('if *accepting { "*" } else { "" },', 'if *accepting && !*initial { "*" } else { "" },')]),
    ("B233-eps-dup", "C14", N, [('                            .join(" ");\n                        format!("{{{s}}}")', '                            .join(" ");\n                        if trans.len() == 1 { s } else { format!("{{{s}}}") }')]),
    ("B234-last-width", "C14", T, [("if row.len() > self.row_len.len() {\n            self.row_len.resize(row.len(), 0);", "if row.len() != self.row_len.len() {\n            self.row_len.resize(row.len(), 0);")]),
]
