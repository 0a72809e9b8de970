# more: the main file of the command line, conversions, evaluators, the library once again
_MA, _AU, _NE, _DE, _DM, _NM = ("dandy-cli/src/main.rs", "dandy-cli/src/automata.rs", "dandy/src/nfa/eval.rs", "dandy/src/dfa/eval.rs", "dandy/src/dfa/mod.rs", "dandy/src/nfa/mod.rs")
_OUT = '''    let mut out_file = args
        .out_file
        .as_ref()
        .and_then(|path| match File::create(path) {
            Ok(f) => Some(f),
            Err(e) => {
                eprintln!("Error creating output file {e}");
                eprintln!("Execution will continue but no data will be written to file");
                None
            }
        });
'''
_LAST = '''    let Some(n) = n else {
        return Some(path.display().to_string());
    };
    (n != 0).then(|| {
        let mut components = path.components().rev().take(n).collect::<Vec<_>>();
        components.reverse();
        components
            .into_iter()
            .collect::<PathBuf>()
            .display()
            .to_string()
    })
'''
_DD = '''                if dfa1.equivalent_to(dfa2) {
                    if minimized && dfa1.states().len() != dfa2.states().len() {
                        NotMinimized
                    } else {
                        Equivalent
                    }
                } else {
                    NotEquivalent
                }
'''
_STEP = '''        match self.rev_map.get(elem) {
            None => {
                self.unknown_elem_seen = true;
                None
            }
            Some(&idx) => {
                self.current_states = self
                    .current_states
                    .iter()
                    .flat_map(|&state| &self.nfa.states[state].transitions[idx])
                    .copied()
                    .collect();
                self.include_closure();
                Some(())
            }
        }
'''
_CLO = '''        let mut updated = true;
        let mut to_push = HashSet::new();
        while updated {
            updated = false;
            for state in self.current_states.iter() {
                for epsilon_state in self.nfa.states[*state].epsilon_transitions.iter() {
                    if !self.current_states.contains(epsilon_state) {
                        updated = true;
                        to_push.insert(epsilon_state);
                    }
                }
            }
            self.current_states.extend(to_push.drain());
        }
'''
_DSTEP = '''        match self.rev_map.get(elem) {
            None => {
                self.unknown_elem_seen = true;
                None
            }
            Some(&idx) => {
                self.current_state = self.dfa.states[self.current_state].transitions[idx];
                Some(&self.dfa.states[self.current_state])
            }
        }
'''
_DREACH = '''        let mut reachables = HashSet::from([self.initial_state]);
        let mut new_states = reachables.clone();
        while !new_states.is_empty() {
            new_states = new_states
                .drain()
                .flat_map(|state| self.states[state].transitions.iter().copied())
                .filter(|&state| reachables.insert(state))
                .collect();
        }
        reachables
'''
_DREMAP = '''        self.states.iter_mut().for_each(|state| {
            state
                .transitions
                .iter_mut()
                .for_each(|trans| *trans = mapper(*trans).unwrap_or(*trans))
        })
'''
_DPN = '''            let mut hm = HashSet::new();
            let potential_names = explored_states
                .iter()
                .map_while(|(s1, s2)| {
                    let combined_name: Rc<str> = Rc::from(format!(
                        "({},{})",
                        self.states[*s1].name, other.states[*s2].name
                    ));
                    hm.insert(combined_name.clone())
                        .then_some(((*s1, *s2), combined_name))
                })
                .collect::<HashMap<_, _>>();
'''
_NREM = '''        self.states.iter_mut().for_each(|state| {
            state.transitions.iter_mut().for_each(|transition_set| {
                // On transition from a to b, transition from a to eps closure of b
                *transition_set = transition_set
                    .iter()
                    .fold(HashSet::new(), |mut set, transition| {
                        set.extend(&closures[*transition]);
                        set
                    })
                    .drain()
                    .collect();
            });
            state.epsilon_transitions.clear();
        });
'''
_DEAD1 = '''        let mut dead_states = HashSet::new();

        let mut added_states = true;
        while added_states {
            added_states = false;
            for (idx, state) in self.states.iter().enumerate() {
                if !dead_states.contains(&idx)
                    && !state.is_accepting()
                    && !state.is_initial()
                    && state
                        .transitions
                        .iter()
                        .all(|transitions| transitions.iter().all(|idx| dead_states.contains(idx)))
                {
                    dead_states.insert(idx);
                    added_states = true;
                }
            }
        }
'''
_DEAD2 = '''                let mut added_states = true;
                while added_states {
                    added_states = false;
                    for (idx, state) in self.states.iter().enumerate() {
                        if !dead_states.contains(&idx)
                            && !state.is_accepting()
                            && !state.is_initial()
                            && state.transitions.iter().all(|transitions| {
                                transitions.iter().all(|idx| dead_states.contains(idx))
                            })
                        {
                            dead_states.insert(idx);
                            added_states = true;
                        }
                    }
                }
'''
_REORD = '''                state.transitions = {
                    let mut vec = state
                        .transitions
                        .drain(..)
                        .zip(alphabet_translation.iter())
                        .collect::<Vec<_>>();
                    vec.sort_by_key(|(_, b)| **b);
                    vec.into_iter().map(|(a, _)| a).collect()
                };
'''
_MERGE = '''            .state_equivalence_classes_idx()
            .into_iter()
            .flat_map(|set| {
                debug_assert!(!set.is_empty(), "Should not have empty equivalence classes");
                let mut iter = set.into_iter();
                let new = iter.next();
                // safety: iter.map is lazy, so body is only executed if there are elements,
                // which means new must be non-optional
                iter.map(move |old| (old, unsafe { new.unwrap_unchecked() }))
            })
            .collect::<HashMap<_, _>>();
'''
_TR = '''                    .enumerate()
                    .find_map(|(idx, elem2)| (elem1 == elem2).then_some(idx))
                    .unwrap()
'''
_NCL = '''        let mut all = HashSet::new();
        all.insert(start);
        let mut new = vec![start];
        while !new.is_empty() {
            let old_new = mem::take(&mut new);
            for state in old_new {
                for &eps_target in &self.states[state].epsilon_transitions {
                    if all.insert(eps_target) {
                        new.push(eps_target)
                    }
                }
            }
        }
        Some(all)
'''
_TS = '''        let trans_strings = &self
            .states
            .iter()
            .map(|state| {
                iter::once(&state.epsilon_transitions)
                    .chain(&state.transitions)
                    .map(|trans| {
                        let s = trans
                            .iter()
                            .map(|c| self.states[*c].name.clone())
                            .collect::<Vec<_>>()
                            .join(" ");
                        format!("{{{s}}}")
                    })
                    .collect::<Vec<_>>()
            })
            .collect::<Vec<_>>();
'''
EDITS += [
    ("R500-m-out-match", "C20", _MA, [(_OUT, '''    let mut out_file = match &args.out_file {
        None => None,
        Some(path) => match File::create(path) {
            Ok(f) => Some(f),
            Err(e) => {
                eprintln!("Error creating output file {e}");
                eprintln!("Execution will continue but no data will be written to file");
                None
            }
        },
    };
''')]),
    ("R501-m-sink", "C20", _MA, [("        if let Some(f) = out_file.as_mut() {\n", "        if let Some(f) = &mut out_file {\n")]),
    ("R502-m-run", "C20", _MA, [("    let result = match &args.command {\n", "    if let Err(e) = run(&args, &mut sink) {\n        eprintln!(\"{e}\");\n    }\n}\n\nfn run(args: &DandyArgs, mut sink: &mut dyn FnMut(&str)) -> Result<(), Error> {\n    match &args.command {\n"),
        ("equivalence::equivalence(&args, eq_args, &mut sink)", "equivalence::equivalence(args, eq_args, &mut sink)"),
        ("binary_op::binary_op(&args, bin_args, operation, &mut sink)", "binary_op::binary_op(args, bin_args, operation, &mut sink)"),
        ("test_files::test_files(&args, test_args, &mut sink)", "test_files::test_files(args, test_args, &mut sink)"),
        ("enumerate::enumerate_regex(&args, regex_args, &mut sink)", "enumerate::enumerate_regex(args, regex_args, &mut sink)"),
        ("enumerate::enumerate_file(&args, file_args, &mut sink)", "enumerate::enumerate_file(args, file_args, &mut sink)"),
        ('''    };

    if let Err(e) = result {
        eprintln!("{e}");
    }
}
''', "    }\n}\n")]),
    ("R503-m-err", "C20", _MA, [('''    if let Err(e) = result {
        eprintln!("{e}");
    }
''', '''    match result {
        Ok(()) => (),
        Err(e) => eprintln!("{e}"),
    }
''')]),
    ("R504-m-last-slice", "C18 C20", _MA, [(_LAST, '''    let Some(n) = n else {
        return Some(path.display().to_string());
    };
    if n == 0 {
        return None;
    }
    let components = path.components().collect::<Vec<_>>();
    let start = components.len().saturating_sub(n);
    let tail = components[start..].iter().collect::<PathBuf>();
    Some(tail.display().to_string())
''')]),
    ("R505-m-last-match", "C18 C20", _MA, [(_LAST, '''    match n {
        None => Some(path.display().to_string()),
        Some(0) => None,
        Some(n) => {
            let mut components = path.components().rev().take(n).collect::<Vec<_>>();
            components.reverse();
            let end: PathBuf = components.into_iter().collect();
            Some(end.display().to_string())
        }
    }
''')]),
    ("R506-m-last-skip", "C18 C20", _MA, [(_LAST, '''    let Some(n) = n else {
        return Some(path.display().to_string());
    };
    (n != 0).then(|| {
        let total = path.components().count();
        path.components()
            .skip(total.saturating_sub(n))
            .collect::<PathBuf>()
            .display()
            .to_string()
    })
''')]),
    ("R507-m-binop", "C19 C20", _MA, [('''        use BinaryOperation::*;
        match self {
            Operation::Union(_) => Some(Union),
            Operation::Intersection(_) => Some(Intersection),
            Operation::Difference(_) => Some(Difference),
            Operation::SymmetricDifference(_) => Some(SymmetricDifference),
            _ => None,
        }
''', '''        let operation = match self {
            Self::SymmetricDifference(_) => BinaryOperation::SymmetricDifference,
            Self::Difference(_) => BinaryOperation::Difference,
            Self::Intersection(_) => BinaryOperation::Intersection,
            Self::Union(_) => BinaryOperation::Union,
            _ => return None,
        };
        Some(operation)
''')]),
    ("R508-m-writer", "C20", _MA, [('''            writeln!(f, "{s}").unwrap();
''', '''            f.write_all(format!("{s}\\n").as_bytes()).unwrap();
''')]),
    ("R510-a-ifconv", "C18 C19", _AU, [('''        if !converted {
            (dfa, false)
        } else {
            dfa.minimize();
            (dfa, true)
        }
''', '''        if converted {
            dfa.minimize();
        }
        (dfa, converted)
''')]),
    ("R511-a-verdict", "C18 C19", _AU, [('''                if dfa1.equivalent_to(&dfa2) {
                    Equivalent
                } else {
                    NotEquivalent
                }
            }
            (T::Nfa, _) => {''', '''                verdict(dfa1.equivalent_to(&dfa2))
            }
            (T::Nfa, _) => {'''), ('''                if nfa1.equivalent_to(&nfa2) {
                    Equivalent
                } else {
                    NotEquivalent
                }
''', '''                verdict(nfa1.equivalent_to(&nfa2))
'''), ('''impl Automata {
    // TODO''', '''fn verdict(equivalent: bool) -> EquivalenceResult {
    match equivalent {
        true => EquivalenceResult::Equivalent,
        false => EquivalenceResult::NotEquivalent,
    }
}

impl Automata {
    // TODO''')]),
    ("R512-a-chain", "C18 C19", _AU, [(_DD, '''                if !dfa1.equivalent_to(dfa2) {
                    NotEquivalent
                } else if minimized && dfa2.states().len() != dfa1.states().len() {
                    NotMinimized
                } else {
                    Equivalent
                }
''')]),
    ("R513-a-ctor", "C18 C19", _AU, [('''            (T::Dfa, T::Dfa) => {
                let dfa1 = self.borrow_dfa().unwrap();
                let dfa2 = other.borrow_dfa().unwrap();
''' + _DD + '''            }
''', '''            (T::Dfa, T::Dfa) => {
                let (Automata::Dfa(dfa1), Automata::Dfa(dfa2)) = (self, &other) else {
                    unreachable!()
                };
                let same_size = dfa1.states().len() == dfa2.states().len();
                match dfa1.equivalent_to(dfa2) {
                    false => NotEquivalent,
                    true if minimized && !same_size => NotMinimized,
                    true => Equivalent,
                }
            }
''')]),
    ("R514-a-tryfrom", "C18 C19", _AU, [('''                let dfa: Dfa = parser::dfa(file)
                    .map_err(Error::DfaParse)?
                    .try_into()
                    .map_err(Error::DfaCompile)?;
                Ok(Self::Dfa(dfa))
''', '''                let parsed = parser::dfa(file).map_err(Error::DfaParse)?;
                Dfa::try_from(parsed)
                    .map(Self::Dfa)
                    .map_err(Error::DfaCompile)
''')]),
    ("R515-a-loadtest", "C18 C19", _AU, [('''                let regex = parser::regex(file)
                    .map_err(|e| EquivalenceResult::FailedToParse(e.to_string()))?;
                let nfa = regex.to_nfa();
                Ok(Automata::Nfa(nfa)) // We''', '''                match parser::regex(file) {
                    Ok(regex) => Ok(Automata::Nfa(regex.to_nfa())),
                    Err(e) => Err(EquivalenceResult::FailedToParse(e.to_string())),
                } // We''')]),
    ("R516-a-loadfile", "C18 C19", _AU, [('''        let file = fs::read_to_string(path).map_err(|e| Error::File(path, e).to_string());
        file.and_then(|f| Self::load(&f, r#type).map_err(|e| e.to_string()))
''', '''        let file = match fs::read_to_string(path) {
            Ok(file) => file,
            Err(e) => return Err(Error::File(path, e).to_string()),
        };
        let loaded = Self::load(&file, r#type).map_err(|e| e.to_string());
        loaded
''')]),
    ("R517-a-convert", "C18 C19", _AU, [('''                if let Self::Regex(regex) = self {
                    Some((Self::Regex(regex), false))
                } else {
''', '''                if self.get_type() == AutomataType::Regex {
                    Some((self, false))
                } else {
''')]),
    ("R518-a-mindfa", "C18 C19", _AU, [('''        let prev_states = dfa.states().len();
        dfa.minimize();
        let new_states = dfa.states().len();
        (dfa, converted || new_states != prev_states)
''', '''        let before = dfa.states().len();
        dfa.minimize();
        let shrunk = dfa.states().len() < before;
        (dfa, converted || shrunk)
''')]),
    ("R520-ne-letelse", "C02 C06", _NE, [(_STEP, '''        let Some(&idx) = self.rev_map.get(elem) else {
            self.unknown_elem_seen = true;
            return None;
        };
        let mut next = HashSet::new();
        for &state in &self.current_states {
            next.extend(self.nfa.states[state].transitions[idx].iter().copied());
        }
        self.current_states = next;
        self.include_closure();
        Some(())
''')]),
    ("R521-ne-closure-stack", "C02 C06", _NE, [(_CLO, '''        let mut stack = self.current_states.iter().copied().collect::<Vec<_>>();
        while let Some(state) = stack.pop() {
            for &target in &self.nfa.states[state].epsilon_transitions {
                if self.current_states.insert(target) {
                    stack.push(target);
                }
            }
        }
''')]),
    ("R522-ne-closure-nfa", "C02 C06", _NE, [(_CLO, '''        self.current_states = self
            .current_states
            .iter()
            .flat_map(|&state| self.nfa.closure(state).unwrap())
            .collect();
''')]),
    ("R523-ne-closure-loop", "C02 C06", _NE, [(_CLO, '''        loop {
            let fresh = self
                .current_states
                .iter()
                .flat_map(|&state| self.nfa.states[state].epsilon_transitions.iter().copied())
                .filter(|target| !self.current_states.contains(target))
                .collect::<HashSet<_>>();
            if fresh.is_empty() {
                break;
            }
            self.current_states.extend(fresh);
        }
''')]),
    ("R524-ne-stepall", "C02 C06", _NE, [('''        iter::repeat(self.clone())
            .zip(self.nfa.alphabet())
            .map(|(mut eval, elem)| {
                eval.step(elem);
                eval
            })
            .collect()
''', '''        let mut stepped = Vec::with_capacity(self.nfa.alphabet().len());
        for elem in self.nfa.alphabet() {
            let mut eval = self.clone();
            eval.step(elem);
            stepped.push(eval);
        }
        stepped
'''), ("use std::iter;\n", "")]),
    ("R525-ne-multi", "C02", _NE, [('''        match elems.iter().try_for_each(|e| self.step(e)) {
            None => {
                self.unknown_elem_seen = true;
                None
            }
            Some(_) => Some(())
        }
''', '''        for elem in elems {
            if self.step(elem).is_none() {
                self.unknown_elem_seen = true;
                return None;
            }
        }
        Some(())
''')]),
    ("R526-de-letelse", "C01 C03", _DE, [(_DSTEP, '''        let Some(idx) = self.rev_map.get(elem).copied() else {
            self.unknown_elem_seen = true;
            return None;
        };
        let here = &self.dfa.states[self.current_state];
        self.current_state = here.transitions[idx];
        self.current_state()
''')]),
    ("R527-de-multi", "C01", _DE, [('''        match elems.iter().try_for_each(|e| self.step(e).map(|_| ())) {
            None => {
                self.unknown_elem_seen = true;
                None
            }
            Some(_) => self.current_state(),
        }
''', '''        for elem in elems {
            self.step(elem)?;
        }
        self.current_state()
''')]),
    ("R530-d-names-for", "C03 C23", _DM, [(_DPN, '''            let mut hm = HashSet::new();
            let mut potential_names = HashMap::new();
            for &(s1, s2) in &explored_states {
                let combined_name: Rc<str> = Rc::from(format!(
                    "({},{})",
                    self.states[s1].name, other.states[s2].name
                ));
                if !hm.insert(combined_name.clone()) {
                    break;
                }
                potential_names.insert((s1, s2), combined_name);
            }
''')]),
    ("R531-d-reach-stack", "C07 C10", _DM, [(_DREACH, '''        let mut reachables = HashSet::new();
        let mut stack = vec![self.initial_state];
        while let Some(state) = stack.pop() {
            if !reachables.insert(state) {
                continue;
            }
            for &next in &self.states[state].transitions {
                if !reachables.contains(&next) {
                    stack.push(next);
                }
            }
        }
        reachables
''')]),
    ("R532-d-reach-queue", "C07 C10", _DM, [(_DREACH, '''        let mut seen = HashSet::from([self.initial_state]);
        let mut queue = std::collections::VecDeque::from([self.initial_state]);
        while let Some(state) = queue.pop_front() {
            for next in self.states[state].transitions.iter().copied() {
                if seen.insert(next) {
                    queue.push_back(next);
                }
            }
        }
        seen
''')]),
    ("R533-d-remap-for", "C10 C21", _DM, [(_DREMAP, '''        for state in self.states.iter_mut() {
            for trans in state.transitions.iter_mut() {
                if let Some(new) = mapper(*trans) {
                    *trans = new;
                }
            }
        }
''')]),
    ("R534-d-trim-inline", "C10", _DM, [('''        let states = self.unreachable_state_idx().into_iter().collect();
        self.remove_states(states);
''', '''        let reachable = self.reachable_state_idx();
        let mut unreachable = Vec::new();
        for idx in 0..self.states.len() {
            if !reachable.contains(&idx) {
                unreachable.push(idx);
            }
        }
        if !unreachable.is_empty() {
            self.remove_states(unreachable);
        }
''')]),
    ("R535-d-graph-acc", "C01", _DM, [('''        let graphemes = string.graphemes(true).collect::<Vec<_>>();
        let mut eval = self.evaluator();
        eval.step_multiple(&graphemes);
        eval.is_accepting()
''', '''        self.accepts(&string.graphemes(true).collect::<Vec<_>>())
''')]),
    ("R536-d-acc-loop", "C01", _DM, [('''        let mut eval = self.evaluator();
        eval.step_multiple(string);
        eval.is_accepting()
''', '''        let mut eval = self.evaluator();
        for elem in string {
            eval.step(elem);
        }
        eval.is_accepting()
''')]),
    ("R537-d-reach-acc", "C07", _DM, [('''        self.reachable_state_idx()
            .iter()
            .any(|idx| self.states[*idx].accepting)
''', '''        self.reachable_states()
            .into_iter()
            .any(DfaState::is_accepting)
''')]),
    ("R538-d-merge-for", "C21", _DM, [("        let mapper = self\n" + _MERGE, '''        let mut mapper = HashMap::new();
        for class in self.state_equivalence_classes_idx() {
            let mut members = class.into_iter();
            let Some(kept) = members.next() else {
                continue;
            };
            for old in members {
                mapper.insert(old, kept);
            }
        }
''')]),
    ("R539-d-tbl-ext", "C14", _DM, [('''            transitions
                .iter()
                .for_each(|&c| state.push(&self.states[c].name));
''', '''            state.extend(transitions.iter().map(|&c| self.states[c].name()));
''')]),
    ("R550-n-position", "C04", _NM, [('''                self.alphabet
                    .iter()
''' + _TR, '''                self.alphabet
                    .iter()
                    .position(|elem2| elem1 == elem2)
                    .unwrap()
''')]),
    ("R551-n-rename", "C04 C23", _NM, [('''            let mut iter = 1..;
            self.states.iter_mut().for_each(|state| {
                state.name = iter
                    .next()
                    .map(|i| Rc::from(i.to_string().as_str()))
                    .unwrap()
            });
''', '''            for (idx, state) in self.states.iter_mut().enumerate() {
                state.name = Rc::from((idx + 1).to_string());
            }
''')]),
    ("R552-n-always", "C04", _NM, [('''        if !alphabet_translation.windows(2).all(|v| v[0] < v[1]) {
            // We need to re-order the entries
''', '''        {
            // Order the entries
''')]),
    ("R553-n-scatter", "C04", _NM, [(_REORD, '''                let mut reordered = vec![vec![]; alphabet_translation.len()];
                for (targets, &idx) in state.transitions.drain(..).zip(&alphabet_translation) {
                    reordered[idx] = targets;
                }
                state.transitions = reordered;
''')]),
    ("R554-n-union-old", "C04", _NM, [('''        self.states[self.initial_state].initial = false;
        self.states[b_init].initial = false;
        self.initial_state = self.states.len();
        self.states.push(new_initial_state);
''', '''        self.states.iter_mut().for_each(|s| s.initial = false);
        self.states.push(new_initial_state);
        self.initial_state = self.states.len() - 1;
''')]),
    ("R556-n-dead-fn", "C11", _NM, [(_DEAD1, '''        let mut dead_states = HashSet::new();
        self.find_dead(&mut dead_states);
'''), (_DEAD2, '''                self.find_dead(&mut dead_states);
'''), ('''    fn fresh_name(&mut self''', '''    fn find_dead(&self, dead_states: &mut HashSet<usize>) {
        let mut added_states = true;
        while added_states {
            added_states = false;
            for (idx, state) in self.states.iter().enumerate() {
                if !dead_states.contains(&idx)
                    && !state.is_accepting()
                    && !state.is_initial()
                    && state
                        .transitions
                        .iter()
                        .all(|transitions| transitions.iter().all(|idx| dead_states.contains(idx)))
                {
                    dead_states.insert(idx);
                    added_states = true;
                }
            }
        }
    }

    fn fresh_name(&mut self''')]),
    ("R557-n-inline-flat", "C11", _NM, [(_NREM, '''        for state in self.states.iter_mut() {
            for targets in state.transitions.iter_mut() {
                // On transition from a to b, transition from a to eps closure of b
                let closed = targets
                    .iter()
                    .flat_map(|target| closures[*target].iter().copied())
                    .collect::<HashSet<usize>>();
                *targets = closed.into_iter().collect();
            }
            state.epsilon_transitions = vec![];
        }
''')]),
    ("R558-n-closures", "C11", _NM, [('''            .filter_map(|idx| self.closure(idx))
''', '''            .map(|idx| self.closure(idx).unwrap())
''')]),
    ("R559-n-closure-stack", "C02 C07 C11", _NM, [(_NCL, '''        let mut all = HashSet::from([start]);
        let mut stack = vec![start];
        while let Some(state) = stack.pop() {
            for &target in &self.states[state].epsilon_transitions {
                if all.insert(target) {
                    stack.push(target);
                }
            }
        }
        Some(all)
'''), ("use std::mem;\n", ""), ("use std::{iter, mem};\n", "use std::iter;\n")]),
    ("R560-n-dead-flatten", "C11", _NM, [('''                    && state
                        .transitions
                        .iter()
                        .all(|transitions| transitions.iter().all(|idx| dead_states.contains(idx)))
''', '''                    && state
                        .transitions
                        .iter()
                        .flatten()
                        .all(|idx| dead_states.contains(idx))
''')]),
    ("R561-n-init-any", "C11", _NM, [('''            let old_state_dead = !self.states[old_initial].accepting
                && self.states[old_initial]
                    .transitions
                    .iter()
                    .all(|transitions| transitions.iter().all(|idx| dead_states.contains(idx)));
''', '''            let old = &self.states[old_initial];
            let leads_on = old
                .transitions
                .iter()
                .any(|transitions| transitions.iter().any(|idx| !dead_states.contains(idx)));
            let old_state_dead = !(old.accepting || leads_on);
''')]),
    ("R562-n-tbl-for", "C14", _NM, [(_TS, '''        let braced = |trans: &Vec<usize>| {
            let names = trans
                .iter()
                .map(|&c| &self.states[c].name as &str)
                .collect::<Vec<_>>();
            format!("{{{}}}", names.join(" "))
        };
        let mut trans_strings = Vec::new();
        for state in &self.states {
            let mut row = vec![braced(&state.epsilon_transitions)];
            row.extend(state.transitions.iter().map(braced));
            trans_strings.push(row);
        }
''')]),
    ("R563-n-fresh-loop", "C04 C11 C23", _NM, [('''        if self.states.iter().all(|s| s.name.as_ref() != wanted) {
            Rc::from(wanted)
        } else {
            (0..)
                .map(|i| Rc::from(i.to_string().as_str()))
                .find(|n| self.states.iter().all(|s| &s.name != n))
                .unwrap()
        }
''', '''        let taken = |name: &str| self.states.iter().any(|s| &*s.name == name);
        if !taken(wanted) {
            return Rc::from(wanted);
        }
        (0usize..)
            .map(|i| i.to_string())
            .find(|name| !taken(name))
            .map(Rc::from)
            .unwrap()
''')]),
    ("R564-n-keys", "C06", _NM, [('''        let sorted_keys = {
            let mut vec = map.iter().collect::<Vec<_>>();
            vec.sort_by_key(|(_, &n)| n);
            vec
        };
''', '''        let mut sorted_keys = map.iter().collect::<Vec<_>>();
        sorted_keys.sort_unstable_by_key(|&(_, n)| *n);
''')]),
    ("R565-n-entry", "C06", _NM, [('''                if !map.contains_key(&key) {
                    to_explore.push(new_evaluator);
                }
                let x = map.entry(key).or_insert_with(|| gen.next().unwrap());
                tr.push(*x);
                if is_accepting {
                    accepting.insert(*x);
                }
''', '''                let x = match map.get(&key) {
                    Some(&n) => n,
                    None => {
                        let n = gen.next().unwrap();
                        map.insert(key, n);
                        to_explore.push(new_evaluator);
                        n
                    }
                };
                tr.push(x);
                if is_accepting {
                    accepting.insert(x);
                }
''')]),
    ("B500-m-last-take", "C18", _MA, [("path.components().rev().take(n)", "path.components().rev().take(n.saturating_sub(1).max(1))")]),
    ("B501-n-olddead", "C11", _NM, [("            let old_state_dead = !self.states[old_initial].accepting\n                && self", "            let old_state_dead = self")]),
    ("B502-a-min", "C18", _AU, [("                    if minimized && dfa1.states().len() != dfa2.states().len() {", "                    if minimized && dfa1.states().len() > dfa2.states().len() {")]),
    ("B503-n-scatter-inv", "C04", _NM, [(_REORD, '''                let old = std::mem::take(&mut state.transitions);
                state.transitions = alphabet_translation.iter().map(|&i| old[i].clone()).collect();
''')]),
    ("B504-ne-closure-once", "C02", _NE, [(_CLO, '''        let more = self
            .current_states
            .iter()
            .flat_map(|&state| self.nfa.states[state].epsilon_transitions.iter().copied())
            .collect::<HashSet<_>>();
        self.current_states.extend(more);
''')]),
    ("B505-d-reach-accept", "C07", _DM, [(_DREACH, '''        let mut reachables = HashSet::new();
        let mut stack = vec![self.initial_state];
        while let Some(state) = stack.pop() {
            if !reachables.insert(state) {
                break;
            }
            for &next in &self.states[state].transitions {
                if !reachables.contains(&next) {
                    stack.push(next);
                }
            }
        }
        reachables
''')]),
    ("B506-d-merge-key", "C21", _DM, [("        if let Some(new_initial) = map(self.initial_state) {\n            self.initial_state = new_initial;\n", "        if let Some(new_initial) = map(self.initial_state) {\n")]),
    ("B507-n-fresh", "C23", _NM, [(".find(|n| self.states.iter().all(|s| &s.name != n))", ".find(|n| self.states.iter().any(|s| &s.name != n))")]),
    ("B508-n-init-dead", "C11", _NM, [("                accepting: init_closure.iter().any(|idx| self.states[*idx].accepting),", "                accepting: self.states[old_initial].accepting,")]),
]
