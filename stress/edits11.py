# more: validation, tables, regular expressions, equivalence
_DP, _NP, _T, _RX, _D, _N = ("dandy/src/dfa/parse.rs", "dandy/src/nfa/parse.rs", "dandy/src/table/mod.rs", "dandy/src/regex/mod.rs",
                             "dandy/src/dfa/mod.rs", "dandy/src/nfa/mod.rs")
_INI = '''            if initial {
                if initial_state.is_none() {
                    initial_state = Some(idx);
                } else {
                    return Err(MultipleInitialStates);
                }
            }
'''
_TR = '''            let mut new_transitions = Vec::with_capacity(head.len());
            for transition in transitions {
                if let Some(idx) = state_name_map.get(transition) {
                    new_transitions.push(*idx);
                } else {
                    return Err(TransitionDoesNotExist(name, transition)); // Target of transition does not exist
                }
            }
'''
_END = '''        if let Some(initial_state) = initial_state {
            let dfa = Dfa {
                alphabet: head.into_iter().map(Rc::from).collect(),
                states: new_states,
                initial_state,
            };
            Ok(dfa)
        } else {
            Err(MissingInitialState)
        }
'''
_NT = '''            let mut epsilon_transitions = None;
            let mut new_transitions = Vec::with_capacity(head.len());
            for (idx, transition) in transitions.iter().enumerate() {
                let mut tr_idx = Vec::with_capacity(transition.len());
                if Some(idx) == eps_idx {
                    for target in transition {
                        if let Some(idx) = state_name_map.get(target) {
                            tr_idx.push(*idx);
                        } else {
                            return Err(TransitionDoesNotExist(name, target)); // Target of transition does not exist
                        }
                    }
                    epsilon_transitions = Some(tr_idx);
                } else {
                    for target in transition {
                        if let Some(idx) = state_name_map.get(target) {
                            tr_idx.push(*idx);
                        } else {
                            return Err(TransitionDoesNotExist(name, target)); // Target of transition does not exist
                        }
                    }
                    new_transitions.push(tr_idx);
                }
            }
'''
_ALT = '''                let mut iter = seq.iter();
                if let Some(first) = iter.next() {
                    Self::build_string(first, acc);
                    for item in iter {
                        acc.push('|');
                        Self::build_string(item, acc);
                    }
                }
'''
_GR = '''                    if g.chars().next().map_or(false, |c| {
                        ['(', ')', '∅', 'ε', '|', '*', '+', '\\\\'].contains(&c)
                    }) {
                        acc.push('\\\\');
                        acc.push_str(g);
                    } else {
                        acc.push_str(g);
                    }
'''
_ROW = '''            let mut state = vec![
                if *initial { arrow } else { "" },
                if *accepting { "*" } else { "" },
                name,
            ];
            transitions
                .iter()
                .for_each(|&c| state.push(&self.states[c].name));
            table.push_row(state);
'''
_TRS = '''        let trans_strings = &self
            .states
            .iter()
            .map(|state| {
                iter::once(&state.epsilon_transitions)
                    .chain(&state.transitions)
                    .map(|trans| {
                        let s = trans
                            .iter()
                            .map(|c| self.states[*c].name.clone())
                            .collect::<Vec<_>>()
                            .join(" ");
                        format!("{{{s}}}")
                    })
                    .collect::<Vec<_>>()
            })
            .collect::<Vec<_>>();
'''
_SEQ = '''                    let mut states = seq
                        .into_iter()
                        .enumerate()
                        .flat_map(|(idx, subtree)| {
                            let after_state_idx = counter.next();
                            let mut after_state = NfaState {
                                name: Rc::from(after_state_idx.to_string()),
                                initial: false,
                                accepting: false,
                                epsilon_transitions: vec![],
                                transitions: vec![],
                            };
                            let new_states =
                                Self::tree_to_nfa(subtree, counter, grapheme_idx, after_state_idx);
                            if idx + 1 == seq_len {
                                after_state.epsilon_transitions.push(send_to);
                            } else {
                                after_state.epsilon_transitions.push(counter.state + 1);
                            }
                            iter::once(after_state).chain(new_states)
                        })
                        .collect::<Vec<_>>();
                    let mut ret = vec![incoming_state];
                    ret.append(&mut states);
                    ret
'''
_ALTN = '''                let mut additional = alt
                    .into_iter()
                    .flat_map(|tree| {
                        incoming_state.epsilon_transitions.push(counter.peek());
                        Self::tree_to_nfa(tree, counter, grapheme_idx, send_to)
                    })
                    .collect::<Vec<_>>();
                let mut ret = Vec::with_capacity(1 + additional.len());
                ret.push(incoming_state);
                ret.append(&mut additional);
                ret
'''
_EQD = '''            for elem in self.alphabet.iter() {
                let mut d1 = s1.clone();
                d1.step(elem);
                let mut d2 = s2.clone();
                d2.step(elem);
                if explored_states.insert((d1.current_state_idx(), d2.current_state_idx())) {
                    evaluators_to_explore.push((d1, d2));
                }
            }
'''
_PUSH = '''        if row.len() > self.row_len.len() {
            self.row_len.resize(row.len(), 0);
        }
        self.row_len
            .iter_mut()
            .zip(&row)
            .for_each(|(max_len, s)| *max_len = max(*max_len, s.chars().count()));
        self.rows.push(row);
'''
_TOS = '''        self.rows
            .iter()
            .map(|row| {
                row.iter()
                    .zip(
                        // We zip with the row lengths but we intentionally set the last length to 0
                        // as to not pad the last column
                        self.row_len
                            .iter()
                            .take(self.row_len.len() - 1)
                            .chain(iter::once(&0)),
                    )
                    .map(|(s, l)| format!("{}{sep}", pad(s, *l)))
                    .collect::<Vec<_>>()
                    .join("")
            })
            .collect::<Vec<_>>()
            .join("\\n")
'''
EDITS = globals().get("EDITS", []) + [
    ("R320-init-match", "C08", _DP, [(_INI, '''            match (initial, initial_state) {
                (true, None) => initial_state = Some(idx),
                (true, Some(_)) => return Err(MultipleInitialStates),
                (false, _) => {}
            }
''')]),
    ("R321-init-replace", "C08", _DP, [(_INI, '''            if initial && initial_state.replace(idx).is_some() {
                return Err(MultipleInitialStates);
            }
''')]),
    ("R322-tr-collect", "C08", _DP, [(_TR, '''            let new_transitions = transitions
                .into_iter()
                .map(|target| {
                    state_name_map
                        .get(target)
                        .copied()
                        .ok_or(TransitionDoesNotExist(name, target))
                })
                .collect::<Result<Vec<usize>, _>>()?;
''')]),
    ("R323-end-okor", "C08", _DP, [(_END, '''        let initial_state = initial_state.ok_or(MissingInitialState)?;
        Ok(Dfa {
            alphabet: head.into_iter().map(Rc::from).collect(),
            states: new_states,
            initial_state,
        })
''')]),
    ("R324-init-after", "C08", _DP, [(_INI, ""), ("        if let Some(initial_state) = initial_state {\n            let dfa = Dfa {", '''        for (idx, state) in new_states.iter().enumerate() {
            if state.initial {
                if initial_state.is_some() {
                    return Err(MultipleInitialStates);
                }
                initial_state = Some(idx);
            }
        }

        if let Some(initial_state) = initial_state {
            let dfa = Dfa {''')]),
    ("R325-dup-for", "C08", _DP, [('''            let mut alphabet = HashSet::new();
            head.iter()
                .try_for_each(|c| alphabet.insert(c).then_some(()).ok_or(c))
                .map_err(|d| DuplicateAlphabetSymbol(d))?;
''', '''            let mut alphabet = HashSet::with_capacity(head.len());
            for &c in &head {
                if !alphabet.insert(c) {
                    return Err(DuplicateAlphabetSymbol(c));
                }
            }
''')]),
    ("R326-names-loop", "C08", _DP, [('''        let state_name_map: HashMap<_, _> = states
            .iter()
            .enumerate()
            .map(|(i, s)| (s.name, i))
            .collect();

        if state_name_map.len() != states.len() {
            // We have a duplicate name, let's find it!
            let mut seen = HashSet::new();
            let duplicate = states
                .iter()
                .find_map(|s| seen.insert(s.name).not().then_some(s.name))
                .unwrap_or("<unknown>");
            return Err(DuplicateStateDefinition(duplicate));
        }
''', '''        let mut state_name_map: HashMap<&str, usize> = HashMap::with_capacity(states.len());
        for (i, s) in states.iter().enumerate() {
            if state_name_map.insert(s.name, i).is_some() {
                return Err(DuplicateStateDefinition(s.name));
            }
        }
'''), ("use std::ops::Not;\n", "")]),
    ("R327-len-helper", "C08 C09", [(_DP, [("            if transitions.len() != head.len() {\n                return Err(WrongNumberOfTransitions(\n                    name,\n                    transitions.len(),\n                    head.len(),\n                )); // Alphabet and state transitions does not have same len\n            }\n", "            check_len(name, transitions.len(), head.len())?;\n"),
        ("impl<'a> TryFrom<ParsedDfa<'a>> for Dfa {", '''fn check_len(name: &str, found: usize, wanted: usize) -> Result<(), DfaParseError<'_>> {
    if found == wanted {
        Ok(())
    } else {
        Err(DfaParseError::WrongNumberOfTransitions(name, found, wanted))
    }
}

impl<'a> TryFrom<ParsedDfa<'a>> for Dfa {''')])], None),
    ("R328-nt-shared", "C09", _NP, [(_NT, '''            let mut epsilon_transitions = None;
            let mut new_transitions = Vec::with_capacity(head.len());
            for (idx, transition) in transitions.iter().enumerate() {
                let mut tr_idx = Vec::with_capacity(transition.len());
                for target in transition {
                    match state_name_map.get(target) {
                        Some(idx) => tr_idx.push(*idx),
                        None => return Err(TransitionDoesNotExist(name, target)),
                    }
                }
                if Some(idx) == eps_idx {
                    epsilon_transitions = Some(tr_idx);
                } else {
                    new_transitions.push(tr_idx);
                }
            }
''')]),
    ("R329-nt-remove", "C09", _NP, [(_NT, '''            let mut new_transitions = Vec::with_capacity(head.len());
            for transition in transitions.iter() {
                let mut tr_idx = Vec::with_capacity(transition.len());
                for target in transition {
                    let idx = state_name_map
                        .get(target)
                        .ok_or(TransitionDoesNotExist(name, target))?;
                    tr_idx.push(*idx);
                }
                new_transitions.push(tr_idx);
            }
            let epsilon_transitions = eps_idx.map(|i| new_transitions.remove(i));
''')]),
    ("R330-eps-replace", "C09", _NP, [('''                        if eps_idx.is_some() {
                            Err(&"ε")
                        } else {
                            eps_idx = Some(idx);
                            Ok(())
                        }
''', '''                        match eps_idx.replace(idx) {
                            Some(_) => Err(&"ε"),
                            None => Ok(()),
                        }
''')]),
    ("R331-alph-for", "C09", _NP, [('''                alphabet: head
                    .into_iter()
                    .filter_map(|s| match s {
                        NfaAlphabetEntry::Eps => None,
                        NfaAlphabetEntry::Element(s) => Some(Rc::from(s)),
                    })
                    .collect::<Rc<[_]>>(),
''', '''                alphabet: {
                    let mut symbols: Vec<Rc<str>> = Vec::new();
                    for entry in head {
                        if let NfaAlphabetEntry::Element(s) = entry {
                            symbols.push(Rc::from(s));
                        }
                    }
                    Rc::from(symbols)
                },
''')]),
    ("R332-alt-enum", "C13", _RX, [(_ALT, '''                for (i, item) in seq.iter().enumerate() {
                    if i > 0 {
                        acc.push('|');
                    }
                    Self::build_string(item, acc);
                }
''')]),
    ("R333-alt-join", "C13", _RX, [(_ALT, '''                let parts: Vec<String> = seq
                    .iter()
                    .map(|item| {
                        let mut s = String::new();
                        Self::build_string(item, &mut s);
                        s
                    })
                    .collect();
                acc.push_str(&parts.join("|"));
''')]),
    ("R334-gr-helper", "C13", _RX, [(_GR, '''                    if starts_reserved(g) {
                        acc.push('\\\\');
                    }
                    acc.push_str(g);
'''), ("impl Regex {\n    /// Converts", '''fn starts_reserved(g: &str) -> bool {
    match g.chars().next() {
        Some(c) => matches!(c, '(' | ')' | '∅' | 'ε' | '|' | '*' | '+' | '\\\\'),
        None => false,
    }
}

impl Regex {
    /// Converts''')]),
    ("R335-alt-first-flag", "C13", _RX, [(_ALT, '''                let mut first = true;
                for item in seq {
                    if !first {
                        acc.push('|');
                    }
                    first = false;
                    Self::build_string(item, acc);
                }
''')]),
    ("R336-alt-split-first", "C13", _RX, [(_ALT, '''                if let [first, rest @ ..] = seq.as_slice() {
                    Self::build_string(first, acc);
                    rest.iter().for_each(|item| {
                        acc.push('|');
                        Self::build_string(item, acc);
                    });
                }
''')]),
    ("R337-gr-any", "C13", _RX, [(_GR, '''                    const RESERVED: &str = "()∅ε|*+\\\\";
                    if g.starts_with(|c| RESERVED.contains(c)) {
                        acc.push('\\\\');
                    }
                    acc.push_str(g);
''')]),
    ("R338-row-extend", "C14", _D, [(_ROW, '''            let marker = if *initial { arrow } else { "" };
            let star = if *accepting { "*" } else { "" };
            let mut row: Vec<&str> = Vec::with_capacity(3 + transitions.len());
            row.push(marker);
            row.push(star);
            row.push(name);
            row.extend(transitions.iter().map(|&c| self.states[c].name.as_ref()));
            table.push_row(row);
''')]),
    ("R339-row-chain", "C14", _D, [(_ROW, '''            let marks = [
                if *initial { arrow } else { "" },
                if *accepting { "*" } else { "" },
                name as &str,
            ];
            table.push_row(
                marks
                    .into_iter()
                    .chain(transitions.iter().map(|&c| self.states[c].name()))
                    .collect(),
            );
''')]),
    ("R340-trs-helper", "C14", _N, [(_TRS, '''        let trans_strings = &self
            .states
            .iter()
            .map(|state| {
                let mut cells = vec![self.braced(&state.epsilon_transitions)];
                for trans in &state.transitions {
                    cells.push(self.braced(trans));
                }
                cells
            })
            .collect::<Vec<_>>();
'''), ("    fn gen_table(&self, eps", '''    fn braced(&self, targets: &[usize]) -> String {
        let names: Vec<&str> = targets.iter().map(|&t| self.states[t].name()).collect();
        format!("{{{}}}", names.join(" "))
    }

    fn gen_table(&self, eps''')]),
    ("R341-trs-push", "C14", _N, [(_TRS, '''        let mut trans_strings: Vec<Vec<String>> = Vec::with_capacity(self.states.len());
        for state in &self.states {
            let mut cells = Vec::new();
            for trans in iter::once(&state.epsilon_transitions).chain(&state.transitions) {
                let mut s = String::from("{");
                for (i, c) in trans.iter().enumerate() {
                    if i != 0 {
                        s.push(' ');
                    }
                    s.push_str(&self.states[*c].name);
                }
                s.push('}');
                cells.push(s);
            }
            trans_strings.push(cells);
        }
''')]),
    ("R342-zip-rows", "C14", _N, [("        for (idx, state) in self.states.iter().enumerate() {\n            let mut state = vec![", "        for (state, cells) in self.states.iter().zip(trans_strings) {\n            let mut state = vec!["), ("            state.extend(trans_strings[idx].iter().map(|s| s as &str));", "            state.extend(cells.iter().map(|s| s.as_str()));")]),
    ("R343-push-row-for", "C14", _T, [(_PUSH, '''        for (i, cell) in row.iter().enumerate() {
            let width = cell.chars().count();
            match self.row_len.get_mut(i) {
                Some(widest) => *widest = max(*widest, width),
                None => self.row_len.push(width),
            }
        }
        self.rows.push(row);
''')]),
    ("R344-push-row-while", "C14", _T, [("        if row.len() > self.row_len.len() {\n            self.row_len.resize(row.len(), 0);\n        }\n", "        while self.row_len.len() < row.len() {\n            self.row_len.push(0);\n        }\n")]),
    ("R345-push-row-if", "C14", _T, [("            .for_each(|(max_len, s)| *max_len = max(*max_len, s.chars().count()));", '''            .for_each(|(max_len, s)| {
                let width = s.chars().count();
                if width > *max_len {
                    *max_len = width;
                }
            });'''), ("use std::cmp::max;\n", "")]),
    ("R346-tos-for", "C14", _T, [(_TOS, '''        let last = self.row_len.len() - 1;
        let mut lines = Vec::with_capacity(self.rows.len());
        for row in &self.rows {
            let mut line = String::new();
            for (i, s) in row.iter().enumerate() {
                let l = if i == last { 0 } else { self.row_len[i] };
                line.push_str(&pad(s, l));
                line.push_str(sep);
            }
            lines.push(line);
        }
        lines.join("\\n")
''')]),
    ("R347-tos-collect", "C14", _T, [('''                    .map(|(s, l)| format!("{}{sep}", pad(s, *l)))
                    .collect::<Vec<_>>()
                    .join("")
''', '''                    .map(|(s, l)| format!("{}{sep}", pad(s, *l)))
                    .collect::<String>()
''')]),
    ("R348-pad-sat", "C14", _T, [('''            let cs = s.chars().count();
            if cs < l {
                let amnt = l - cs;
                format!("{}{}", s, &" ".repeat(amnt))
            } else {
                s.to_string()
            }
''', '''            let missing = l.saturating_sub(s.chars().count());
            let mut padded = s.to_string();
            padded.extend(iter::repeat(' ').take(missing));
            padded
''')]),
    ("R349-seq-for", "C12", _RX, [(_SEQ, '''                    let mut ret = vec![incoming_state];
                    for (idx, subtree) in seq.into_iter().enumerate() {
                        let after_state_idx = counter.next();
                        let new_states =
                            Self::tree_to_nfa(subtree, counter, grapheme_idx, after_state_idx);
                        let is_last = idx + 1 == seq_len;
                        let target = if is_last { send_to } else { counter.state + 1 };
                        ret.push(NfaState {
                            name: Rc::from(after_state_idx.to_string()),
                            initial: false,
                            accepting: false,
                            epsilon_transitions: vec![target],
                            transitions: vec![],
                        });
                        ret.extend(new_states);
                    }
                    ret
''')]),
    ("R350-alt-for", "C12", _RX, [(_ALTN, '''                let mut additional = Vec::new();
                for tree in alt {
                    incoming_state.epsilon_transitions.push(counter.peek());
                    additional.extend(Self::tree_to_nfa(tree, counter, grapheme_idx, send_to));
                }
                let mut ret = vec![incoming_state];
                ret.extend(additional);
                ret
''')]),
    ("R351-alt-insert", "C12", _RX, [(_ALTN, '''                let mut ret = Vec::new();
                for tree in alt {
                    incoming_state.epsilon_transitions.push(counter.peek());
                    ret.append(&mut Self::tree_to_nfa(tree, counter, grapheme_idx, send_to));
                }
                ret.insert(0, incoming_state);
                ret
''')]),
    ("R352-plain-state", "C12", _RX, [('''                            let mut after_state = NfaState {
                                name: Rc::from(after_state_idx.to_string()),
                                initial: false,
                                accepting: false,
                                epsilon_transitions: vec![],
                                transitions: vec![],
                            };
''', "                            let mut after_state = plain_state(after_state_idx);\n"), ('''        let mut incoming_state = NfaState {
            name: Rc::from(incoming_state_idx.to_string()),
            initial: false,
            accepting: false,
            epsilon_transitions: vec![],
            transitions: vec![],
        };
''', "        let mut incoming_state = plain_state(incoming_state_idx);\n"), ("impl Regex {\n    /// Converts", '''fn plain_state(idx: usize) -> NfaState {
    NfaState {
        name: Rc::from(idx.to_string()),
        initial: false,
        accepting: false,
        epsilon_transitions: vec![],
        transitions: vec![],
    }
}

impl Regex {
    /// Converts''')]),
    ("R353-alphabet-fill", "C12", _RX, [('''            let mut sorted_map = char_map.into_iter().collect::<Vec<_>>();
            sorted_map.sort_by_key(|(_, i)| *i);
            sorted_map.into_iter().map(|(s, _)| s).collect()
''', '''            let mut sorted_map: Vec<(Rc<str>, usize)> = char_map.into_iter().collect();
            sorted_map.sort_unstable_by(|a, b| a.1.cmp(&b.1));
            sorted_map
                .into_iter()
                .map(|(symbol, _)| symbol)
                .collect::<Rc<[_]>>()
''')]),
    ("R354-idx-len", "C12", _RX, [('''        let mut idx_acc = 0..;
        let mut grapheme_idx =
            |g: Rc<str>| -> usize { *char_map.entry(g).or_insert_with(|| idx_acc.next().unwrap()) };
''', '''        let mut grapheme_idx = |g: Rc<str>| -> usize {
            let next = char_map.len();
            *char_map.entry(g).or_insert(next)
        };
''')]),
    ("R355-eqd-helper", "C05", _D, [(_EQD, '''            for elem in self.alphabet.iter() {
                let next = step_both(&s1, &s2, elem);
                let key = (next.0.current_state_idx(), next.1.current_state_idx());
                if !explored_states.contains(&key) {
                    explored_states.insert(key);
                    evaluators_to_explore.push(next);
                }
            }
'''), ("impl Dfa {\n    /// Inverts", '''fn step_both<'a, 'b>(
    a: &DfaEvaluator<'a>,
    b: &DfaEvaluator<'b>,
    elem: &str,
) -> (DfaEvaluator<'a>, DfaEvaluator<'b>) {
    let (mut a, mut b) = (a.clone(), b.clone());
    a.step(elem);
    b.step(elem);
    (a, b)
}

impl Dfa {
    /// Inverts''')]),
    ("R356-eqd-check-on-push", "C05", _D, [(_EQD, '''            for elem in self.alphabet.iter() {
                let mut d1 = s1.clone();
                let mut d2 = s2.clone();
                d1.step(elem);
                d2.step(elem);
                if d1.is_accepting() != d2.is_accepting() {
                    return false;
                }
                if explored_states.insert((d1.current_state_idx(), d2.current_state_idx())) {
                    evaluators_to_explore.push((d1, d2));
                }
            }
''')]),
    ("R357-eqd-indices", "C05", _D, [('''        let mut evaluators_to_explore = vec![(self.evaluator(), other.evaluator())];
        let mut explored_states = HashSet::new();
        explored_states.insert((
            evaluators_to_explore[0].0.current_state_idx(),
            evaluators_to_explore[0].1.current_state_idx(),
        ));
''', '''        let start = (self.evaluator(), other.evaluator());
        let mut explored_states =
            HashSet::from([(start.0.current_state_idx(), start.1.current_state_idx())]);
        let mut evaluators_to_explore = std::collections::VecDeque::from([start]);
'''), ("        while let Some((s1, s2)) = evaluators_to_explore.pop() {\n            // we explore states s1 and s2\n", "        while let Some((s1, s2)) = evaluators_to_explore.pop_front() {\n            // we explore states s1 and s2\n"), ("                    evaluators_to_explore.push((d1, d2));\n                }\n            }\n        }\n        true", "                    evaluators_to_explore.push_back((d1, d2));\n                }\n            }\n        }\n        true")]),
    ("R358-set-to-vec", "C05 C06", _N, [('''        let mut vec = set.iter().cloned().collect::<Vec<_>>();
        vec.sort();
        vec
''', '''        let mut elements = Vec::with_capacity(set.len());
        for element in set {
            elements.push(element.clone());
        }
        elements.sort_unstable();
        elements
''')]),
    ("B330-init-last", "C08", _DP, [(_INI, '''            if initial {
                if initial_state.map_or(true, |i| i + 1 == idx && accepting) {
                    initial_state = Some(idx);
                } else {
                    return Err(MultipleInitialStates);
                }
            }
''')]),
    ("B331-eps-len", "C09", _NP, [("            if transitions.len() != head.len() {", "            if transitions.len() != head.len() && !(eps_idx.is_some() && transitions.is_empty()) {")]),
    ("B332-nt-filter", "C09", _NP, [("            for (idx, transition) in transitions.iter().enumerate() {", "            for (idx, transition) in transitions.iter().enumerate().filter(|(i, t)| Some(*i) == eps_idx || *i + 1 < head.len() || t.len() < 4) {")]),
    ("B333-alt-len", "C13", _RX, [(_ALT, '''                for (i, item) in seq.iter().enumerate() {
                    if i > 0 && !(i == 1 && matches!(item, RegexTree::Sequence(s) if s.is_empty())) {
                        acc.push('|');
                    }
                    Self::build_string(item, acc);
                }
''')]),
    ("B334-row-skip", "C14", _D, [(_ROW, _ROW.replace("                .iter()\n", "                .iter()\n                .filter(|&&c| c < self.states.len() - 1 || transitions.len() < 3)\n"))]),
    ("B335-cs", "C14", _T, [("max(*max_len, s.chars().count())", "max(*max_len, s.chars().filter(|c| !c.is_control()).count())")]),
    ("B336-alphabet-order", "C12", _RX, [("sorted_map.sort_by_key(|(_, i)| *i);", "sorted_map.sort_by_key(|(s, i)| (s.len(), *i));")]),
    ("B337-seqlast", "C12", _RX, [("if idx + 1 == seq_len {", "if idx + 1 >= seq_len || seq_len == 4 {")]),
    ("B338-eqd-len", "C05", _D, [("if explored_states.insert((d1.current_state_idx(), d2.current_state_idx())) {", "if explored_states.insert((d1.current_state_idx(), d2.current_state_idx())) && d1.current_state_idx() + 1 < self.states.len() + other.states.len() - 1 {")]),
]
