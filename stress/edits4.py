# C21: minimisation
M = "dandy/src/dfa/mod.rs"
SPLIT = '''                p = p
                    .into_iter()
                    .map(|y| {
                        (
                            x.intersection(&y).copied().collect::<HashSet<_>>(),
                            y.difference(&x).copied().collect::<HashSet<_>>(),
                            y,
                        )
                    })
                    .flat_map(|(inters, diff, y)| {
                        if !inters.is_empty() && !diff.is_empty() {
                            if let Some(idx) = w.iter().position(|hs| hs == &y) {
                                w.swap_remove(idx);
                                w.push(inters.clone());
                                w.push(diff.clone());
                            } else if inters.len() <= diff.len() {
                                w.push(inters.clone());
                            } else {
                                w.push(diff.clone());
                            }
                            // ugly to allocate vec but fck monomorphism and static dispatch
                            // wont work with slices or iter::once or smth
                            vec![inters, diff].into_iter()
                        } else {
                            vec![y].into_iter()
                        }
                    })
                    .collect()
'''
XS = '''                let x: HashSet<usize> = self
                    .states
                    .iter()
                    .enumerate()
                    .filter(|(_, s)| a.contains(&s.transitions[c]))
                    .map(|(i, _)| i)
                    .collect();
'''
LOOP = '''                let mut next = Vec::with_capacity(p.len());
                for y in p {
                    let inters: HashSet<usize> = x.intersection(&y).copied().collect();
                    let diff: HashSet<usize> = y.difference(&x).copied().collect();
                    if inters.is_empty() || diff.is_empty() {
                        next.push(y);
                        continue;
                    }
                    if let Some(idx) = w.iter().position(|hs| hs == &y) {
                        w.swap_remove(idx);
                        w.push(inters.clone());
                        w.push(diff.clone());
                    } else if inters.len() <= diff.len() {
                        w.push(inters.clone());
                    } else {
                        w.push(diff.clone());
                    }
                    next.push(inters);
                    next.push(diff);
                }
                p = next;
'''
EARLY = '''        if finals.is_empty() {
            return vec![nonfinals];
        } else if nonfinals.is_empty() {
            return vec![finals];
        }
'''
MAPPER = '''        let mapper = self
            .state_equivalence_classes_idx()
            .into_iter()
            .flat_map(|set| {
                debug_assert!(!set.is_empty(), "Should not have empty equivalence classes");
                let mut iter = set.into_iter();
                let new = iter.next();
                // safety: iter.map is lazy, so body is only executed if there are elements,
                // which means new must be non-optional
                iter.map(move |old| (old, unsafe { new.unwrap_unchecked() }))
            })
            .collect::<HashMap<_, _>>();
'''
INIT = '''        if let Some(new_initial) = map(self.initial_state) {
            self.initial_state = new_initial;
            self.states[new_initial].initial = true;
        }
'''
EDITS = globals().get("EDITS", []) + [
 ("R110", "C21", M, [(SPLIT, LOOP)]),
 ("R111", "C21", M, [("w.swap_remove(idx);", "w.remove(idx);")]),
 ("R112", "C21", M, [('''                            } else if inters.len() <= diff.len() {
                                w.push(inters.clone());
                            } else {
                                w.push(diff.clone());
                            }
''', '''                            } else {
                                w.push(inters.clone());
                                w.push(diff.clone());
                            }
''')]),
 ("R113", "C21", M, [("let mut p = vec![finals, nonfinals];", "let mut p = vec![nonfinals, finals];")]),
 ("R114", "C21", M, [('''                            } else if inters.len() <= diff.len() {
                                w.push(inters.clone());
                            } else {
                                w.push(diff.clone());
                            }
''', '''                            } else if diff.len() < inters.len() {
                                w.push(diff.clone());
                            } else {
                                w.push(inters.clone());
                            }
''')]),
 ("R115", "C21", M, [(XS, "                let x = self.predecessors(&a, c);\n"), ("    pub fn state_equivalence_classes_idx", '''    fn predecessors(&self, targets: &HashSet<usize>, column: usize) -> HashSet<usize> {
        let mut result = HashSet::new();
        for (i, s) in self.states.iter().enumerate() {
            if targets.contains(&s.transitions[column]) {
                result.insert(i);
            }
        }
        result
    }

    pub fn state_equivalence_classes_idx''')]),
 ("R116", "C21", M, [("for c in 0..self.alphabet.len() {\n                let x", "for (c, _) in self.alphabet.iter().enumerate() {\n                let x")]),
 ("R117", "C21", M, [(EARLY, '''        if finals.is_empty() || nonfinals.is_empty() {
            return vec![(0..self.states.len()).collect()];
        }
''')]),
 ("R118", "C21", M, [(MAPPER, '''        let mut mapper: HashMap<usize, usize> = HashMap::new();
        for class in self.state_equivalence_classes_idx() {
            let mut members: Vec<usize> = class.into_iter().collect();
            if let Some(keep) = members.pop() {
                for other in members {
                    mapper.insert(other, keep);
                }
            }
        }
''')]),
 ("R119", "C21", M, [(MAPPER, '''        let mut mapper: HashMap<usize, usize> = HashMap::new();
        for class in self.state_equivalence_classes_idx() {
            let keep = *class.iter().min().unwrap();
            for other in class {
                if other != keep {
                    mapper.insert(other, keep);
                }
            }
        }
''')]),
 ("R120", "C21", M, [("let mut w = p.clone();", "let mut w: std::collections::VecDeque<HashSet<usize>> = p.iter().cloned().collect();"), ("while let Some(a) = w.pop()", "while let Some(a) = w.pop_front()"),
    ("w.swap_remove(idx);", "w.remove(idx);"), ("w.push(inters.clone());\n                                w.push(diff.clone());", "w.push_back(inters.clone());\n                                w.push_back(diff.clone());"),
    ("w.push(inters.clone());", "w.push_back(inters.clone());"), ("w.push(diff.clone());", "w.push_back(diff.clone());")]),
 ("R121", "C21", M, [("        self.remove_unreachable_states();\n        self.merge_nondistinguishable_states();", "        self.merge_nondistinguishable_states();\n        self.remove_unreachable_states();")]),
 ("R122", "C21", M, [('''                            if let Some(idx) = w.iter().position(|hs| hs == &y) {
                                w.swap_remove(idx);
''', '''                            if w.contains(&y) {
                                w.retain(|hs| hs != &y);
''')]),
 ("R123", "C21", M, [(INIT, '''        let new_initial = map(self.initial_state).unwrap_or(self.initial_state);
        self.initial_state = new_initial;
        self.states[new_initial].initial = true;
''')]),
 ("R124", "C21", M, [("let mut w = p.clone();", "let mut w = vec![p[0].clone()];")]),
 ("R125", "C21", M, [("while let Some(a) = w.pop() {\n            for c", "while !w.is_empty() {\n            let a = w.pop().unwrap();\n            for c")]),
 ("R126", "C21", M, [("if !inters.is_empty() && !diff.is_empty() {", "if inters.len() > 0 && inters.len() < y.len() {")]),
 ("R127", "C21", M, [('''        self.state_equivalence_classes_idx()
            .into_iter()
            .map(|class| {
                class
                    .into_iter()
                    .map(|state| &self.states[state])
                    .collect::<Vec<_>>()
            })
            .collect()''', '''        let mut out = Vec::new();
        for class in self.state_equivalence_classes_idx() {
            let mut members = Vec::new();
            for idx in class {
                members.push(&self.states[idx]);
            }
            out.push(members);
        }
        out''')]),
 ("R128", "C21", M, [(MAPPER, '''        let classes = self.state_equivalence_classes_idx();
        let mut mapper: HashMap<usize, usize> = HashMap::new();
        for class in classes.iter().filter(|class| class.len() > 1) {
            let keep = *class.iter().next().unwrap();
            mapper.extend(class.iter().copied().filter(|&other| other != keep).map(|other| (other, keep)));
        }
''')]),
 ("B110", "C21", M, [("w.push(inters.clone());\n                                w.push(diff.clone());", "w.push(inters.clone());")]),
 ("B111", "C21", M, [("for c in 0..self.alphabet.len() {\n                let x", "for c in 1..self.alphabet.len() {\n                let x")]),
 ("B112", "C21", M, [("if !inters.is_empty() && !diff.is_empty() {", "if !inters.is_empty() || !diff.is_empty() {")]),
 ("B113", "C21", M, [("a.contains(&s.transitions[c])", "a.contains(&s.transitions[0])")]),
 ("B114", "C21", M, [(".position(|hs| hs == &y)", ".position(|hs| hs.len() == y.len())")]),
 ("B115", "C21", M, [('''                            } else {
                                w.push(diff.clone());
                            }
''', '''                            }
''')]),
 ("B116", "C21", M, [("        self.remove_unreachable_states();\n        self.merge_nondistinguishable_states();", "        self.merge_nondistinguishable_states();")]),
 ("B117", "C21", M, [("            self.initial_state = new_initial;\n            self.states[new_initial]", "            self.states[new_initial]")]),
 ("B118", "C21", M, [("            self.states[new_initial].initial = true;\n", "")]),
 ("B119", "C21", M, [("        self.states.iter_mut().for_each(|state| {\n            state\n                .transitions\n                .iter_mut()", "        self.states.iter_mut().for_each(|state| {\n            state\n                .transitions\n                .iter_mut()\n                .skip(1)")]),
 ("B120", "C21", M, [("vec![inters, diff].into_iter()", "vec![inters, y].into_iter()")]),
 ("B121", "C21", M, [("(0..self.states.len()).partition(|&idx| self.states[idx].accepting);", "(0..self.states.len()).partition(|&idx| self.states[idx].initial);")]),
 ("R130", "C21", M, [("let mut w = p.clone();", "let mut w: Vec<HashSet<usize>> = p.iter().filter(|b| b.len() > 1).cloned().collect();")]),
 ("R129", "C21", M, [("            if let Some(idx) = w.iter().position(|hs| hs == &y) {\n                                w.swap_remove(idx);\n                                w.push(inters.clone());\n                                w.push(diff.clone());\n                            } else if", "            if")]),
 ("B124", "C21", M, [(EARLY, '''        if finals.is_empty() {
            return vec![nonfinals];
        }
''')]),
 ("B125", "C21", M, [("(old, unsafe { new.unwrap_unchecked() })", "(unsafe { new.unwrap_unchecked() }, old)")]),
 ("B126", "C21", M, [("        self.remap_transitions(map);\n        if let Some(new_initial)", "        if let Some(new_initial)")]),
 ("B127", "C21", M, [("            .into_iter()\n            .flat_map(|set| {\n                debug_assert!", "            .into_iter()\n            .filter(|set| set.len() > 2)\n            .flat_map(|set| {\n                debug_assert!")]),
 ("R131", "C21", M, [("            .into_iter()\n            .flat_map(|set| {\n                debug_assert!", "            .into_iter()\n            .filter(|set| set.len() >= 2)\n            .flat_map(|set| {\n                debug_assert!")]),
 ("R132", "C21", M, [("            .into_iter()\n            .flat_map(|set| {\n                debug_assert!", "            .into_iter()\n            .filter(|set| !set.is_empty())\n            .flat_map(|set| {\n                debug_assert!")]),
]
