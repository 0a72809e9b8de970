# more: the web bindings, the command line, enumeration of words, drawings
_WB, _EQ, _EN, _TF, _BO, _PM, _W, _DR = ("dandy-wasm/src/lib.rs", "dandy-cli/src/equivalence.rs", "dandy-cli/src/enumerate.rs", "dandy-cli/src/test_files.rs",
    "dandy-cli/src/binary_op.rs", "dandy/src/parser/mod.rs", "dandy/src/nfa/words.rs", "dandy-draw/src/lib.rs")
_PUT = '''        while num_cec < self.nfa.states.len() {
            self.state_stack.clear();
            self.state_stack
                .push(HashSet::from([self.nfa.initial_state]));
            match self.min_word(len) {
                None => {
                    num_cec += 1;
                    len += 1;
                }
                Some(w) => {
                    self.last_word = Some(w);
                    return;
                }
            }
        }
        self.last_word = None;
        self.has_failed = true;
'''
_RS = '''            let r = current_s
                .iter()
                .flat_map(|i| nfa.states[*i].transitions.iter().flatten())
                .copied()
                .filter(|v| n_complete(word.len() - i, *v))
                .collect::<HashSet<_>>();
'''
_AS = '''            let a = (0..nfa.alphabet.len())
                .filter(|idx| {
                    let lhs = current_s
                        .iter()
                        .flat_map(|u| nfa.states[*u].transitions[*idx].iter())
                        .copied()
                        .collect::<HashSet<_>>();
                    lhs.intersection(&r).count() > 0
                })
                .collect::<Vec<_>>();
'''
_NW = '''            if a.iter().all(|a| *a <= word[i - 1]) {
                state_stack.pop();
            } else {
                let b = *a.iter().find(|&a| *a > word[i - 1]).unwrap();
'''
_MW = '''        if current_s.iter().copied().all(|from| {
            self.final_states
                .iter()
                .copied()
                .all(|to| self.adj_matrices[n][(from, to)] == False)
        }) {
            return None;
        }
'''
_NS = '''                let mut new_s = current_s.iter().fold(HashSet::new(), |mut set, idx| {
                    set.extend(self.nfa.states[*idx].transitions[next_elem_idx].iter());
                    set
                });
                new_s.retain(|v| self.final_states.iter().any(|f| matrix[(*v, *f)] == True));
                self.state_stack.push(new_s);
'''
_NX = '''        self.inner.last_word.as_ref().map(|components| {
            components
                .iter()
                .fold(String::with_capacity(components.len()), |mut s, c| {
                    s.push_str(&self.inner.nfa.alphabet[*c]);
                    s
                })
        })
'''
_GA = '''    arrows
        .into_iter()
        .fold(HashMap::<_, Vec<Arrow>>::new(), |mut map, arrow| {
            map.entry((arrow.left, arrow.right, arrow.direction))
                .or_default()
                .push(arrow);
            map
        })
        .drain()
        .map('''
_NA = '''    nfa.states()
        .iter()
        .enumerate()
        .flat_map(|(from, state)| {
            state
                .transitions()
                .iter()
                .enumerate()
                .flat_map(move |(idx, tos)| {
                    tos.iter()
                        .map(move |to| Arrow::new(from, *to, &nfa.alphabet()[idx]))
                })
                .chain(
                    state
                        .epsilon_transitions()
                        .iter()
                        .map(move |to| Arrow::new(from, *to, "ε")),
                )
        })
        .collect()
'''
_DA = '''    dfa.states()
        .iter()
        .enumerate()
        .flat_map(|(from, state)| {
            state
                .transitions()
                .iter()
                .enumerate()
                .map(move |(idx, to)| Arrow::new(from, *to, &dfa.alphabet()[idx]))
        })
        .collect()
'''
_TFL = '''            let mut n = 0;
            let mut a = 0;
            for line in loaded_file.lines() {
                n += 1;
                let accepted = nfa.accepts_graphemes(line);
                let ok = if accepted {
                    a += 1;
                    "[ OK ]"
                } else {
                    "[FAIL]"
                };
                output!("{ok} {line}");
            }
'''
_CEX = '''            let counterexample = loaded_file
                .lines()
                .find(|line| !nfa.accepts_graphemes(line));
            match counterexample {
                None => {
                    output!("[ OK ] {}", file.display())
                }
                Some(c) => {
                    output!("[FAIL] {} failed on {c}", file.display())
                }
            }
'''
_SUC = '''    let successes = results.into_iter().fold(0usize, |acc, (path, result)| {
        let res = if args.bool {
            format!("{}", result == EquivalenceResult::Equivalent)
        } else {
            result.to_string()
        };
        if let Some(prefix) = crate::last_n_components(path, args.path_length) {
            output!("{prefix}: {res}");
        } else {
            output!("{res}");
        }

        if result == EquivalenceResult::Equivalent {
            acc + 1
        } else {
            acc
        }
    });
'''
_ENW = '''    let mut x = 0;
    nfa.words().take(n).for_each(|word| {
        if word.is_empty() {
            output!("(empty word)");
        } else {
            output!("{word}");
        }
        x += 1;
    });
'''
_MIN1 = '''        let minimized = if args.minimized {
            if args.r#type == AutomataType::Dfa {
                (input, _) = input.into_minimized_dfa_automata();
                true
            } else {
                return Err(Error::InvalidMinimizedConfig);
            }
        } else {
            false
        };

        (input, _) = input.prepare_to_compare_with(args.r#type);

        Ok(Self {
            input,
            minimized,
            test_type: args.r#type,
        })
'''
EDITS = globals().get("EDITS", []) + [
    ("R400-wasm-let", "C17", _WB, [('''    REGEX_MAP
        .with_borrow(|map| map.get(&regex).cloned())
        .map(|regex| push_nfa(regex.to_nfa()))
''', '''    let nfa = REGEX_MAP.with_borrow(|map| map.get(&regex).map(|r| r.clone().to_nfa()))?;
    Some(push_nfa(nfa))
''')]),
    ("R401-wasm-min", "C17", _WB, [('''    DFA_MAP.with_borrow_mut(|map| map.get_mut(&dfa).map(|dfa| dfa.minimize()).is_some())
''', '''    DFA_MAP.with_borrow_mut(|map| {
        if let Some(dfa) = map.get_mut(&dfa) {
            dfa.minimize();
            true
        } else {
            false
        }
    })
''')]),
    ("R402-wasm-eq", "C17", _WB, [('''        Option::zip(map.get(&nfa1), map.get(&nfa2)).map(|(nfa1, nfa2)| nfa1.equivalent_to(nfa2))
''', '''        let first = map.get(&nfa1)?;
        let second = map.get(&nfa2)?;
        Some(first.equivalent_to(second))
''')]),
    ("R403-wasm-eq-match", "C17", _WB, [('''        Option::zip(map.get(&dfa1), map.get(&dfa2)).map(|(dfa1, dfa2)| dfa1.equivalent_to(dfa2))
''', '''        match (map.get(&dfa1), map.get(&dfa2)) {
            (Some(a), Some(b)) => Some(a.equivalent_to(b)),
            _ => None,
        }
''')]),
    ("R404-wasm-del", "C17", _WB, [('''    DFA_MAP.with_borrow_mut(|map| map.remove(&dfa).is_some())
''', '''    DFA_MAP.with_borrow_mut(|map| {
        let present = map.contains_key(&dfa);
        map.remove(&dfa);
        present
    })
''')]),
    ("R405-wasm-load", "C17", _WB, [('''    let dfa: Dfa = dandy::parser::dfa(input)
        .map_err(|e| format!("Error parsing DFA: {e:?}"))?
        .try_into()
        .map_err(|e: DfaParseError| e.to_string())?;
    Ok(push_dfa(dfa))
''', '''    let parsed = match dandy::parser::dfa(input) {
        Ok(parsed) => parsed,
        Err(e) => return Err(format!("Error parsing DFA: {e:?}")),
    };
    match Dfa::try_from(parsed) {
        Ok(dfa) => Ok(push_dfa(dfa)),
        Err(e) => {
            let e: DfaParseError = e;
            Err(e.to_string())
        }
    }
''')]),
    ("R406-wasm-push", "C17", _WB, [('''fn push_dfa(dfa: Dfa) -> usize {
    let key = gen_key();
    DFA_MAP.with_borrow_mut(|map| {
        map.insert(key, dfa);
    });
    key
}
''', '''fn push_dfa(dfa: Dfa) -> usize {
    DFA_MAP.with_borrow_mut(|map| {
        let key = gen_key();
        map.insert(key, dfa);
        key
    })
}
''')]),
    ("R407-wasm-table", "C17", _WB, [('''    NFA_MAP.with_borrow(|map| map.get(&nfa).map(Nfa::to_table))
''', '''    NFA_MAP.with_borrow(|map| {
        let nfa = map.get(&nfa)?;
        Some(nfa.to_table())
    })
''')]),
    ("R410-eq-for", "C18", _EQ, [(_SUC, '''    let mut successes = 0usize;
    for (path, result) in results {
        let passed = result == EquivalenceResult::Equivalent;
        let res = if args.bool { passed.to_string() } else { result.to_string() };
        match crate::last_n_components(path, args.path_length) {
            Some(prefix) => output!("{prefix}: {res}"),
            None => output!("{res}"),
        }
        if passed {
            successes += 1;
        }
    }
''')]),
    ("R411-eq-loop-collect", "C18", _EQ, [('''    let results = args
        .files
        .iter()
        .map(|path| (path, tester.test_equivalence(path)))
        .collect::<Vec<_>>();
''', '''    let mut results = Vec::with_capacity(args.files.len());
    for path in &args.files {
        let result = tester.test_equivalence(path);
        results.push((path, result));
    }
''')]),
    ("R412-eq-guard", "C18", _EQ, [(_MIN1, '''        if args.minimized {
            if args.r#type != AutomataType::Dfa {
                return Err(Error::InvalidMinimizedConfig);
            }
            input = input.into_minimized_dfa_automata().0;
        }

        let (input, _) = input.prepare_to_compare_with(args.r#type);

        Ok(Self {
            input,
            minimized: args.minimized,
            test_type: args.r#type,
        })
''')]),
    ("R413-eq-andthen", "C18", _EQ, [('''        match fs::read_to_string(file) {
            Err(e) => EquivalenceResult::FailedToRead(e.to_string()),
            Ok(f) => match Automata::load_test(&f, self.test_type) {
                Ok(automata) => self.input.test_equivalence(automata, self.minimized),
                Err(res) => res,
            },
        }
''', '''        let contents = match fs::read_to_string(file) {
            Ok(contents) => contents,
            Err(e) => return EquivalenceResult::FailedToRead(e.to_string()),
        };
        Automata::load_test(&contents, self.test_type)
            .map(|automata| self.input.test_equivalence(automata, self.minimized))
            .unwrap_or_else(|res| res)
''')]),
    ("R414-eq-count-filter", "C18", _EQ, [(_SUC, '''    let successes = results
        .iter()
        .filter(|(_, result)| *result == EquivalenceResult::Equivalent)
        .count();
    for (path, result) in results {
        let res = if args.bool {
            format!("{}", result == EquivalenceResult::Equivalent)
        } else {
            result.to_string()
        };
        if let Some(prefix) = crate::last_n_components(path, args.path_length) {
            output!("{prefix}: {res}");
        } else {
            output!("{res}");
        }
    }
''')]),
    ("R420-en-for", "C19", _EN, [(_ENW, '''    let mut x = 0;
    for word in nfa.words().take(n) {
        output!("{}", if word.is_empty() { "(empty word)" } else { word.as_str() });
        x += 1;
    }
''')]),
    ("R421-en-count", "C19", _EN, [(_ENW, '''    let x = nfa
        .words()
        .take(n)
        .inspect(|word| {
            if word.is_empty() {
                output!("(empty word)");
            } else {
                output!("{word}");
            }
        })
        .count();
''')]),
    ("R422-tf-ifelse", "C19", _TF, [(_TFL, '''            let (mut n, mut a) = (0, 0);
            for line in loaded_file.lines() {
                if nfa.accepts_graphemes(line) {
                    a += 1;
                    output!("[ OK ] {line}");
                } else {
                    output!("[FAIL] {line}");
                }
                n += 1;
            }
''')]),
    ("R423-tf-iflet", "C19", _TF, [(_CEX, '''            if let Some(c) = loaded_file
                .lines()
                .find(|line| !nfa.accepts_graphemes(line))
            {
                output!("[FAIL] {} failed on {c}", file.display());
                continue;
            }
            output!("[ OK ] {}", file.display());
''')]),
    ("R424-tf-loop", "C19", _TF, [(_CEX, '''            let mut counterexample = None;
            for line in loaded_file.lines() {
                if !nfa.accepts_graphemes(line) {
                    counterexample = Some(line);
                    break;
                }
            }
            match counterexample {
                None => output!("[ OK ] {}", file.display()),
                Some(c) => output!("[FAIL] {} failed on {c}", file.display()),
            }
''')]),
    ("R425-tf-match", "C19", _TF, [("        if args.test_type == TestType::Lines {\n", "        let lines = args.test_type == TestType::Lines;\n        if lines {\n")]),
    ("R426-bo-okor", "C19", _BO, [('''    let Some(mut combined) = combined else {
        return Err(Error::DifferentAlphabets.to_string());
    };
''', '''    let mut combined = combined.ok_or_else(|| Error::DifferentAlphabets.to_string())?;
''')]),
    ("R427-bo-hoist", "C19", _BO, [('''            args.r#type.to_string(true)
        );
        output!("{}", combined.to_table());
    } else {''', '''            args.r#type.to_string(true)
        );
    } else {'''), ('''            args.r#type.to_string(true)
        );
        output!("{}", combined.to_table());
    }

    if let Some(n)''', '''            args.r#type.to_string(true)
        );
    }
    output!("{}", combined.to_table());

    if let Some(n)''')]),
    ("R428-bo-enum-for", "C19", _BO, [('''        combined.clone().to_nfa().words().take(n).for_each(|word| {
            if word.is_empty() {
                output!("(empty word)");
            } else {
                output!("{word}");
            }
            x += 1;
        });
''', '''        let nfa = combined.clone().to_nfa();
        for word in nfa.words().take(n) {
            x += 1;
            if word.is_empty() {
                output!("(empty word)");
                continue;
            }
            output!("{word}");
        }
''')]),
    ("R429-bo-cmp-if", "C19", _BO, [('''        let result = match Automata::Dfa(combined).test_equivalence(compare_to, false) {
            EquivalenceResult::Equivalent => "EQUIVALENT",
            _ => "NOT EQUIVALENT",
        };
''', '''        let outcome = Automata::Dfa(combined).test_equivalence(compare_to, false);
        let result = if outcome == EquivalenceResult::Equivalent {
            "EQUIVALENT"
        } else {
            "NOT EQUIVALENT"
        };
''')]),
    ("R430-p-match", "C15 C16", _PM, [('''    all_consuming(fa::full_dfa)(input)
        .finish()
        .map(|(_, dfa)| dfa)
''', '''    let (_, dfa) = all_consuming(fa::full_dfa)(input).finish()?;
    Ok(dfa)
'''), ('''    all_consuming(regex::full_regex)(input)
        .finish()
        .map(|(_, regex)| regex)
''', '''    match all_consuming(regex::full_regex)(input).finish() {
        Ok((_, regex)) => Ok(regex),
        Err(e) => Err(e),
    }
''')]),
    ("R440-w-put-loop", "C22", _W, [(_PUT, '''        loop {
            if num_cec >= self.nfa.states.len() {
                self.last_word = None;
                self.has_failed = true;
                return;
            }
            self.state_stack.clear();
            self.state_stack
                .push(HashSet::from([self.nfa.initial_state]));
            if let Some(w) = self.min_word(len) {
                self.last_word = Some(w);
                return;
            }
            num_cec += 1;
            len += 1;
        }
''')]),
    ("R441-w-put-for", "C22", _W, [(_PUT, '''        for offset in 0..self.nfa.states.len() {
            self.state_stack.clear();
            self.state_stack
                .push(HashSet::from([self.nfa.initial_state]));
            if let Some(w) = self.min_word(len + offset) {
                self.last_word = Some(w);
                return;
            }
        }
        self.last_word = None;
        self.has_failed = true;
'''), ("        let mut num_cec = 0;\n", "")]),
    ("R442-w-r-for", "C22", _W, [(_RS, '''            let mut r = HashSet::new();
            for s in current_s.iter() {
                for targets in nfa.states[*s].transitions.iter() {
                    for v in targets {
                        if n_complete(word.len() - i, *v) {
                            r.insert(*v);
                        }
                    }
                }
            }
''')]),
    ("R443-w-a-any", "C22", _W, [(_AS, '''            let a = (0..nfa.alphabet.len())
                .filter(|&idx| {
                    current_s
                        .iter()
                        .any(|&u| nfa.states[u].transitions[idx].iter().any(|v| r.contains(v)))
                })
                .collect::<Vec<_>>();
''')]),
    ("R444-w-a-disjoint", "C22", _W, [("                    lhs.intersection(&r).count() > 0\n", "                    !lhs.is_disjoint(&r)\n")]),
    ("R445-w-find", "C22", _W, [(_NW, '''            let next = a.iter().copied().find(|a| *a > word[i - 1]);
            if next.is_none() {
                state_stack.pop();
            } else {
                let b = next.unwrap();
''')]),
    ("R446-w-min-any", "C22", _W, [(_MW, '''        let possible = current_s.iter().any(|from| {
            self.final_states
                .iter()
                .any(|to| self.adj_matrices[n][(*from, *to)] == True)
        });
        if !possible {
            return None;
        }
''')]),
    ("R447-w-news", "C22", _W, [(_NS, '''                let new_s = current_s
                    .iter()
                    .flat_map(|idx| self.nfa.states[*idx].transitions[next_elem_idx].iter())
                    .copied()
                    .filter(|v| self.final_states.iter().any(|f| matrix[(*v, *f)] == True))
                    .collect::<HashSet<usize>>();
                self.state_stack.push(new_s);
''')]),
    ("R448-w-next-for", "C22", _W, [(_NX, '''        let components = self.inner.last_word.as_ref()?;
        let mut word = String::new();
        for c in components {
            word.push_str(&self.inner.nfa.alphabet[*c]);
        }
        Some(word)
''')]),
    ("R449-w-next-collect", "C22", _W, [(_NX, '''        self.inner.last_word.as_ref().map(|components| {
            components
                .iter()
                .map(|c| self.inner.nfa.alphabet[*c].as_ref())
                .collect::<String>()
        })
''')]),
    ("R450-w-add", "C22", _W, [('''        if self == False && rhs == False {
            False
        } else {
            True
        }
''', '''        match (self, rhs) {
            (False, False) => False,
            _ => True,
        }
'''), ('''        if self == False || rhs == False {
            False
        } else {
            True
        }
''', '''        (self == True && rhs == True).into()
''')]),
    ("R451-w-final", "C22", _W, [('''        let final_states = nfa
            .states
            .iter()
            .enumerate()
            .filter_map(|(i, s)| s.accepting.then_some(i))
            .collect();
''', '''        let mut final_states = HashSet::new();
        for (i, state) in nfa.states.iter().enumerate() {
            if state.is_accepting() {
                final_states.insert(i);
            }
        }
''')]),
    ("R452-w-reach", "C22", _W, [('''            nfa.states[from]
                .transitions
                .iter()
                .any(|on_symbol| on_symbol.contains(&to))
''', '''            nfa.states[from]
                .transitions
                .iter()
                .flatten()
                .any(|&target| target == to)
''')]),
    ("R460-d-group-for", "C24", _DR, [(_GA, '''    let mut groups: HashMap<(usize, usize, Direction), Vec<Arrow>> = HashMap::new();
    for arrow in arrows {
        groups
            .entry((arrow.left, arrow.right, arrow.direction))
            .or_default()
            .push(arrow);
    }
    groups
        .into_iter()
        .map(''')]),
    ("R461-d-nfa-for", "C24", _DR, [(_NA, '''    let mut arrows = Vec::new();
    for (from, state) in nfa.states().iter().enumerate() {
        for (idx, tos) in state.transitions().iter().enumerate() {
            for to in tos {
                arrows.push(Arrow::new(from, *to, &nfa.alphabet()[idx]));
            }
        }
        for to in state.epsilon_transitions() {
            arrows.push(Arrow::new(from, *to, "ε"));
        }
    }
    arrows
''')]),
    ("R462-d-dfa-zip", "C24", _DR, [(_DA, '''    dfa.states()
        .iter()
        .enumerate()
        .flat_map(|(from, state)| {
            state
                .transitions()
                .iter()
                .zip(dfa.alphabet())
                .map(move |(to, symbol)| Arrow::new(from, *to, symbol))
        })
        .collect()
''')]),
    ("R463-d-new-if", "C24", _DR, [('''        use std::cmp::Ordering::*;
        use Direction::*;
        match from.cmp(&to) {
            Less => Arrow {
                left: from,
                right: to,
                direction: Right,
                label,
            },
            Equal => Arrow {
                left: from,
                right: to,
                direction: Spot,
                label,
            },
            Greater => Arrow {
                left: to,
                right: from,
                direction: Left,
                label,
            },
        }
''', '''        let direction = if from < to {
            Direction::Right
        } else if from > to {
            Direction::Left
        } else {
            Direction::Spot
        };
        Arrow {
            left: from.min(to),
            right: from.max(to),
            direction,
            label,
        }
''')]),
    ("R464-d-place-if", "C24", _DR, [('''                if arrow.left() == arrow.right() {
                    end_of_last = arrow.right() + 1;
                } else {
                    end_of_last = arrow.right();
                }
''', '''                let own_spot = arrow.left() == arrow.right();
                end_of_last = arrow.right() + usize::from(own_spot);
''')]),
    ("R465-d-place-local", "C24", _DR, [('''    let mut end_of_last = 0;
    let mut placed''', '''    let mut placed'''), ('''        let mut old_unplaced = mem::take(&mut unplaced);
''', '''        let mut end_of_last = 0;
        let mut old_unplaced = mem::take(&mut unplaced);
'''), ('''        unplaced.reverse();
        end_of_last = 0;
''', '''        unplaced.reverse();
''')]),
    ("R466-d-place-cont", "C24", _DR, [('''            if arrow.left() >= end_of_last {
                if arrow''', '''            if arrow.left() < end_of_last {
                unplaced.push(arrow);
                continue;
            }
            {
                if arrow'''), ('''                    phantom: PhantomData,
                });
            } else {
                unplaced.push(arrow);
            }
''', '''                    phantom: PhantomData,
                });
            }
''')]),
    ("B400-eq-count", "C18", _EQ, [('''        if result == EquivalenceResult::Equivalent {
            acc + 1
''', '''        if result == EquivalenceResult::Equivalent || (args.bool && result == EquivalenceResult::NotMinimized) {
            acc + 1
''')]),
    ("B401-tf-count", "C19", _TF, [("                n += 1;\n                let accepted = nfa.accepts_graphemes(line);\n", "                let accepted = nfa.accepts_graphemes(line);\n                if accepted || !line.is_empty() {\n                    n += 1;\n                }\n")]),
    ("B402-w-stack", "C22", _W, [("                return if i != n {\n                    state_stack.push(s);", "                return if i != n {\n                    if s.len() > 1 {\n                        state_stack.pop();\n                    }\n                    state_stack.push(s);")]),
    ("B403-d-label", "C24", _DR, [('''                        .map(move |to| Arrow::new(from, *to, "ε")),
''', '''                        .filter(move |to| **to != from)
                        .map(move |to| Arrow::new(from, *to, "ε")),
''')]),
    ("B404-wasm-eqself", "C17", _WB, [("        Option::zip(map.get(&dfa1), map.get(&dfa2)).map(|(dfa1, dfa2)| dfa1.equivalent_to(dfa2))\n", "        Option::zip(map.get(&dfa1), map.get(&dfa2)).map(|(a, b)| dfa1 == dfa2 && a.states().len() > 1 || a.equivalent_to(b))\n")]),
]
