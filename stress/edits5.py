# C22: enumeration of words
X = "dandy/src/nfa/words.rs"
PUTLOOP = '''        while num_cec < self.nfa.states.len() {
            self.state_stack.clear();
            self.state_stack
                .push(HashSet::from([self.nfa.initial_state]));
            match self.min_word(len) {
                None => {
                    num_cec += 1;
                    len += 1;
                }
                Some(w) => {
                    self.last_word = Some(w);
                    return;
                }
            }
        }
'''
NC = '''        let n_complete = |n, from| {
            let mut s: HashSet<usize> = HashSet::new();
            s.insert(from);
            for _ in 0..n {
                s = s
                    .into_iter()
                    .flat_map(|i| nfa.states[i].transitions.iter().flatten())
                    .copied()
                    .collect()
            }
            s.into_iter().any(|idx| nfa.states[idx].is_accepting())
        };
'''
AB = '''            if a.iter().all(|a| *a <= word[i - 1]) {
                state_stack.pop();
            } else {
                let b = *a.iter().find(|&a| *a > word[i - 1]).unwrap();
'''
LHS = '''                    let lhs = current_s
                        .iter()
                        .flat_map(|u| nfa.states[*u].transitions[*idx].iter())
                        .copied()
                        .collect::<HashSet<_>>();
                    lhs.intersection(&r).count() > 0
'''
TAIL = '''                return if i != n {
                    state_stack.push(s);
                    word.extend(self.min_word(n - i).unwrap());
                    Some(word)
                } else {
                    Some(word)
                };
'''
NONE = '''        if current_s.iter().copied().all(|from| {
            self.final_states
                .iter()
                .copied()
                .all(|to| self.adj_matrices[n][(from, to)] == False)
        }) {
            return None;
        }
'''
NEWS = '''                let mut new_s = current_s.iter().fold(HashSet::new(), |mut set, idx| {
                    set.extend(self.nfa.states[*idx].transitions[next_elem_idx].iter());
                    set
                });
                new_s.retain(|v| self.final_states.iter().any(|f| matrix[(*v, *f)] == True));
                self.state_stack.push(new_s);
'''
FIND = '''                .find(|elem_idx| {
                    current_s.iter().any(|u| {
                        self.final_states.iter().any(|f| {
                            self.nfa.states[*u].transitions[*elem_idx]
                                .iter()
                                .any(|v| matrix[(*v, *f)] == True)
                        })
                    })
                })
'''
GEN = '''        while self.adj_matrices.len() <= n {
            self.adj_matrices
                .push(&self.adj_matrices[1] * self.adj_matrices.last().unwrap())
        }
'''
WNEXT = '''        self.inner.last_word.as_ref().map(|components| {
            components
                .iter()
                .fold(String::with_capacity(components.len()), |mut s, c| {
                    s.push_str(&self.inner.nfa.alphabet[*c]);
                    s
                })
        })
'''
CNEXT = '''        self.inner.last_word.as_ref().map(|components| {
            components
                .iter()
                .map(|c| self.inner.nfa.alphabet[*c].clone())
                .collect()
        })
'''
FIN = '''        let final_states = nfa
            .states
            .iter()
            .enumerate()
            .filter_map(|(i, s)| s.accepting.then_some(i))
            .collect();
'''
RS = '''            let r = current_s
                .iter()
                .flat_map(|i| nfa.states[*i].transitions.iter().flatten())
                .copied()
                .filter(|v| n_complete(word.len() - i, *v))
                .collect::<HashSet<_>>();
'''
EDITS += [
 ("R140-put-loop", "C22", X, [(PUTLOOP, '''        loop {
            if num_cec >= self.nfa.states.len() {
                break;
            }
            self.state_stack = vec![HashSet::from([self.nfa.initial_state])];
            if let Some(w) = self.min_word(len) {
                self.last_word = Some(w);
                return;
            }
            len += 1;
            num_cec += 1;
        }
''')]),
 ("R141-put-for", "C22", X, [(PUTLOOP, '''        for l in len..len + self.nfa.states.len() {
            self.state_stack.clear();
            self.state_stack
                .push(HashSet::from([self.nfa.initial_state]));
            if let Some(w) = self.min_word(l) {
                self.last_word = Some(w);
                return;
            }
        }
'''), ("        let mut len = 0;\n        let mut num_cec = 0;\n", "        let mut len = 0;\n")]),
 ("R142-ncomplete-fn", "C22", X, [(NC, ""), ("n_complete(word.len() - i, *v)", "Self::completes(nfa, word.len() - i, *v)"), ("n_complete(word.len() - i, *v)", "Self::completes(nfa, word.len() - i, *v)"),
   ("    /// Gets the minimum word", '''    fn completes(nfa: &Nfa, n: usize, from: usize) -> bool {
        let mut s = HashSet::from([from]);
        for _ in 0..n {
            let mut next = HashSet::new();
            for i in s {
                for on in &nfa.states[i].transitions {
                    next.extend(on.iter().copied());
                }
            }
            s = next;
        }
        s.iter().any(|idx| nfa.states[*idx].accepting)
    }

    /// Gets the minimum word''')]),
 ("R143-find-match", "C22", X, [(AB + '''
                let s = ''', '''            match a.iter().copied().find(|a| *a > word[i - 1]) {
                None => {
                    state_stack.pop();
                }
                Some(b) => {
                let s = '''), (TAIL, TAIL + "                }\n")]),
 ("R144-any", "C22", X, [(LHS, '''                    current_s
                        .iter()
                        .any(|u| nfa.states[*u].transitions[*idx].iter().any(|v| r.contains(v)))
''')]),
 ("R145-early-none", "C22", X, [(NONE, '''        let possible = current_s.iter().any(|&from| {
            self.final_states.iter().any(|&to| self.adj_matrices[n][(from, to)] == True)
        });
        if !possible {
            return None;
        }
''')]),
 ("R146-new-s", "C22", X, [(NEWS, '''                let new_s: HashSet<usize> = current_s
                    .iter()
                    .flat_map(|idx| self.nfa.states[*idx].transitions[next_elem_idx].iter().copied())
                    .filter(|v| self.final_states.iter().any(|f| matrix[(*v, *f)] == True))
                    .collect();
                self.state_stack.push(new_s);
''')]),
 ("R147-find-for", "C22", X, [(FIND, '''                .find(|&elem_idx| {
                    for u in current_s {
                        for v in &self.nfa.states[*u].transitions[elem_idx] {
                            if self.final_states.iter().any(|f| bool::from(matrix[(*v, *f)])) {
                                return true;
                            }
                        }
                    }
                    false
                })
''')]),
 ("R148-gen-swap", "C22", X, [(GEN, '''        for _ in self.adj_matrices.len()..=n {
            let next = self.adj_matrices.last().unwrap() * &self.adj_matrices[1];
            self.adj_matrices.push(next);
        }
''')]),
 ("R149-words-concat", "C22", X, [(WNEXT, '''        let components = self.inner.last_word.as_ref()?;
        let mut s = String::new();
        for c in components {
            s += &self.inner.nfa.alphabet[*c];
        }
        Some(s)
''')]),
 ("R150-words-collect", "C22", X, [(WNEXT, '''        match &self.inner.last_word {
            Some(components) => Some(components.iter().map(|&c| self.inner.nfa.alphabet[c].as_ref()).collect()),
            None => None,
        }
''')]),
 ("R151-comp-for", "C22", X, [(CNEXT, '''        let components = self.inner.last_word.as_ref()?;
        let mut out = Vec::with_capacity(components.len());
        for &c in components {
            out.push(Rc::clone(&self.inner.nfa.alphabet[c]));
        }
        Some(out)
''')]),
 ("R152-fin", "C22", X, [(FIN, '''        let final_states = (0..nfa.states.len()).filter(|&i| nfa.states[i].is_accepting()).collect();
''')]),
 ("R153-numbool", "C22", X, [('''        if self == False && rhs == False {
            False
        } else {
            True
        }''', '''        match (self, rhs) {
            (False, False) => False,
            _ => True,
        }'''), ('''        if self == False || rhs == False {
            False
        } else {
            True
        }''', '''        (bool::from(self) && bool::from(rhs)).into()''')]),
 ("R154-rename", "C22", X, [("    has_failed: bool,", "    exhausted: bool,"), ("if self.has_failed", "if self.exhausted"), ("self.has_failed = true", "self.exhausted = true"), ("has_failed: false", "exhausted: false")]),
 ("R155-tail", "C22", X, [(TAIL, '''                if i < n {
                    state_stack.push(s);
                    let rest = self.min_word(n - i).unwrap();
                    word.extend_from_slice(&rest);
                }
                return Some(word);
''')]),
 ("R156-gen-helper", "C22", X, [("        self.generate_matrices_up_to(n);\n", "        self.ensure(n);\n"), ("    fn generate_matrices_up_to", '''    fn ensure(&mut self, n: usize) {
        if self.adj_matrices.len() <= n {
            self.generate_matrices_up_to(n);
        }
    }

    fn generate_matrices_up_to''')]),
 ("R157-drop-field", "C22", X, [("    #[allow(dead_code)] // Unused for now since we don't support NFAs with epsilon moves yet\n    has_epsilon_moves: bool,\n", ""), ("            has_epsilon_moves,\n", "")]),
 ("R158-next-into", "C22", X, [('''        if let Some(last) = self.last_word.clone() {
            len = last.len() + 1;
            if let Some(new) = self.next_word(last) {
                self.last_word = Some(new);
                return;
            }
        }
''', '''        if let Some(last) = self.last_word.take() {
            len = last.len() + 1;
            self.last_word = self.next_word(last);
            if self.last_word.is_some() {
                return;
            }
        }
''')]),
 ("R159-rs", "C22", X, [(RS, '''            let rest = word.len() - i;
            let mut r = HashSet::new();
            for &q in current_s {
                for on_symbol in &nfa.states[q].transitions {
                    for &v in on_symbol {
                        if n_complete(rest, v) {
                            r.insert(v);
                        }
                    }
                }
            }
''')]),
 ("B140-cec", "C22", X, [("while num_cec < self", "while num_cec + 1 < self")]),
 ("B141-len", "C22", X, [("len = last.len() + 1;", "len = last.len() + 2;")]),
 ("B142-not-fused", "C22", X, [("        self.has_failed = true;\n", "")]),
 ("B144-complete-off", "C22", X, [(".filter(|v| n_complete(word.len() - i, *v))\n                .collect::<HashSet<_>>();\n            // r", ".filter(|v| n_complete(word.len() - i + 1, *v))\n                .collect::<HashSet<_>>();\n            // r")]),
 ("B145-last", "C22", X, [("*a.iter().find(|&a| *a > word[i - 1])", "*a.iter().rev().find(|&a| *a > word[i - 1])")]),
 ("R160-retain", "C22", X, [("                new_s.retain(|v| self.final_states.iter().any(|f| matrix[(*v, *f)] == True));\n", "")]),
 ("B147-index", "C22", X, [("&self.adj_matrices[n - i - 1]", "&self.adj_matrices[n - i]")]),
 ("B148-push", "C22", X, [(TAIL, '''                state_stack.push(s);
                return if i != n {
                    word.extend(self.min_word(n - i).unwrap());
                    Some(word)
                } else {
                    Some(word)
                };
''')]),
 ("B149-minpush", "C22", X, [("            if i != n - 1 {\n", "            if i != n {\n")]),
 ("B150-first", "C22", X, [("push(HashSet::from([self.nfa.initial_state]))", "push(HashSet::from([0]))")]),
 ("B151-trunc", "C22", X, [("word.truncate(i - 1);", "word.truncate(i);")]),
 ("B152-ident", "C22", X, [("(x == y).into()", "(x <= y).into()")]),
 ("B153-rev", "C22", X, [("                .iter()\n                .map(|c| self.inner.nfa.alphabet[*c].clone())", "                .iter()\n                .rev()\n                .map(|c| self.inner.nfa.alphabet[*c].clone())")]),
 ("B154-nopop", "C22", X, [("                state_stack.pop();\n", "")]),
 ("R161-sfilter", "C22", X, [('''                    .copied()
                    .filter(|v| n_complete(word.len() - i, *v))
                    .collect::<HashSet<_>>();

                let n''', '''                    .copied()
                    .collect::<HashSet<_>>();

                let n''')]),
 ("B156-eps", "C22", X, [("    fn generate_adjacency_matrix", "    fn generate_adjacency_matrix"), ("if epsilon_moves {\n            nfa.closure(from)", "if !epsilon_moves {\n            nfa.closure(from)")]),
 ("B157-accept", "C22", X, [("s.accepting.then_some(i)", "(s.accepting || s.initial).then_some(i)")]),
 ("B158-mul", "C22", X, [("if self == False || rhs == False", "if self == False && rhs == False")]),
 ("B159-gen", "C22", X, [(".push(&self.adj_matrices[1] * self.adj_matrices.last().unwrap())", ".push(self.adj_matrices.last().unwrap() * self.adj_matrices.last().unwrap())")]),
 ("B160-le", "C22", X, [("if a.iter().all(|a| *a <= word[i - 1]) {", "if a.iter().all(|a| *a <= word[i - 1]) || i == 1 && word.len() > 4 {")]),
 ("B161-alphabet", "C22", X, [("let a = (0..nfa.alphabet.len())", "let a = (word[i - 1]..nfa.alphabet.len() - 1)")]),
]
