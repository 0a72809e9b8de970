DM="dandy/src/dfa/mod.rs"; DEV="dandy/src/dfa/eval.rs"; NM="dandy/src/nfa/mod.rs"; NEV="dandy/src/nfa/eval.rs"; DP="dandy/src/dfa/parse.rs"; NP="dandy/src/nfa/parse.rs"
EDITS=[
("R01","C03",DM,[("                let states = (d1.current_state_idx(), d2.current_state_idx());\n                transition_list.push(states);\n                if explored_states.insert(states) {\n                    evaluators_to_explore.push((d1, d2));\n                }",
 "                let states = (d1.current_state_idx(), d2.current_state_idx());\n                let is_new = !explored_states.contains(&states);\n                if is_new {\n                    explored_states.insert(states);\n                    evaluators_to_explore.push((d1, d2));\n                }\n                transition_list.push(states);")]),
("R02","C03",DM,[("        self.states\n            .iter_mut()\n            .for_each(|s| s.accepting = !s.accepting)","        for i in 0..self.states.len() {\n            let was = self.states[i].accepting;\n            self.states[i].accepting = !was;\n        }")]),
("R03","C03",DM,[("|s1, s2| s1.accepting != s2.accepting","|s1, s2| (s1.accepting && !s2.accepting) || (!s1.accepting && s2.accepting)")]),
("R04","C07",DM,[("        let mut reachables = HashSet::from([self.initial_state]);\n        let mut new_states = reachables.clone();\n        while !new_states.is_empty() {\n            new_states = new_states\n                .drain()\n                .flat_map(|state| self.states[state].transitions.iter().copied())\n                .filter(|&state| reachables.insert(state))\n                .collect();\n        }\n        reachables",
 "        let mut reachables = HashSet::new();\n        let mut stack = vec![self.initial_state];\n        while let Some(s) = stack.pop() {\n            if !reachables.insert(s) {\n                continue;\n            }\n            for &t in &self.states[s].transitions {\n                stack.push(t);\n            }\n        }\n        reachables")]),
("R05","C07",DM,[("        self.reachable_state_idx()\n            .iter()\n            .any(|idx| self.states[*idx].accepting)","        let reach = self.reachable_state_idx();\n        for idx in reach {\n            if self.states[idx].accepting {\n                return true;\n            }\n        }\n        false")]),
("R06","C01",DEV,[("        match self.rev_map.get(elem) {\n            None => {\n                self.unknown_elem_seen = true;\n                None\n            }\n            Some(&idx) => {\n                self.current_state = self.dfa.states[self.current_state].transitions[idx];\n                Some(&self.dfa.states[self.current_state])\n            }\n        }",
 "        if let Some(&idx) = self.rev_map.get(elem) {\n            let state = &self.dfa.states[self.current_state];\n            self.current_state = state.transitions[idx];\n            return self.current_state();\n        }\n        self.unknown_elem_seen = true;\n        None")]),
("R07","C01",DM,[("        let graphemes = string.graphemes(true).collect::<Vec<_>>();\n        let mut eval = self.evaluator();\n        eval.step_multiple(&graphemes);\n        eval.is_accepting()","        let graphemes = string.graphemes(true).collect::<Vec<_>>();\n        self.accepts(&graphemes)")]),
("R08","C01",DEV,[("        match elems.iter().try_for_each(|e| self.step(e).map(|_| ())) {\n            None => {\n                self.unknown_elem_seen = true;\n                None\n            }\n            Some(_) => self.current_state(),\n        }","        for e in elems {\n            self.step(e)?;\n        }\n        self.current_state()")]),
("R09","C02",NEV,[("        let mut updated = true;\n        let mut to_push = HashSet::new();\n        while updated {\n            updated = false;\n            for state in self.current_states.iter() {\n                for epsilon_state in self.nfa.states[*state].epsilon_transitions.iter() {\n                    if !self.current_states.contains(epsilon_state) {\n                        updated = true;\n                        to_push.insert(epsilon_state);\n                    }\n                }\n            }\n            self.current_states.extend(to_push.drain());\n        }",
 "        let mut stack = self.current_states.iter().copied().collect::<Vec<_>>();\n        while let Some(state) = stack.pop() {\n            for &eps in self.nfa.states[state].epsilon_transitions.iter() {\n                if self.current_states.insert(eps) {\n                    stack.push(eps);\n                }\n            }\n        }")]),
("R10","C02",NEV,[("                self.current_states = self\n                    .current_states\n                    .iter()\n                    .flat_map(|&state| &self.nfa.states[state].transitions[idx])\n                    .copied()\n                    .collect();","                let mut next = HashSet::new();\n                for &state in &self.current_states {\n                    next.extend(self.nfa.states[state].transitions[idx].iter().copied());\n                }\n                self.current_states = next;")]),
("R11","C05",NM,[("            if s1.is_accepting() != s2.is_accepting() {\n                return false;\n            }\n            // for each char","            let (acc1, acc2) = (s1.is_accepting(), s2.is_accepting());\n            if acc1 ^ acc2 {\n                return false;\n            }\n            // for each char")]),
("R12","C05",[("dandy/src/util.rs",[("    let set1 = a.iter().collect::<HashSet<_>>();\n    let set2 = b.iter().collect::<HashSet<_>>();\n    set1 == set2","    let set2: HashSet<&Rc<str>> = b.iter().collect();\n    let mut set1 = HashSet::new();\n    for x in a {\n        set1.insert(x);\n    }\n    set2 == set1")])],None),
("R13","C06",NM,[("                if is_accepting {\n                    accepting.insert(*x);\n                }\n            }","                if new_evaluator_is_accepting {\n                    accepting.insert(*x);\n                }\n            }"),("                let is_accepting = new_evaluator.is_accepting();","                let new_evaluator_is_accepting = new_evaluator.is_accepting();")]),
("R14","C07",NM,[("            .filter(|x| !reachables.contains(x))","            .filter(|x| reachables.get(x).is_none())")]),
("R15","C08",DP,[("            if initial {\n                if initial_state.is_none() {\n                    initial_state = Some(idx);\n                } else {\n                    return Err(MultipleInitialStates);\n                }\n            }","            match (initial, initial_state) {\n                (true, Some(_)) => return Err(MultipleInitialStates),\n                (true, None) => initial_state = Some(idx),\n                _ => {}\n            }")]),
("R16","C08",DP,[("            let mut new_transitions = Vec::with_capacity(head.len());\n            for transition in transitions {\n                if let Some(idx) = state_name_map.get(transition) {\n                    new_transitions.push(*idx);\n                } else {\n                    return Err(TransitionDoesNotExist(name, transition)); // Target of transition does not exist\n                }\n            }","            let new_transitions = transitions\n                .into_iter()\n                .map(|t| {\n                    state_name_map\n                        .get(t)\n                        .copied()\n                        .ok_or(TransitionDoesNotExist(name, t))\n                })\n                .collect::<Result<Vec<_>, _>>()?;")]),
("R17","C08",DP,[("        if let Some(initial_state) = initial_state {\n            let dfa = Dfa {\n                alphabet: head.into_iter().map(Rc::from).collect(),\n                states: new_states,\n                initial_state,\n            };\n            Ok(dfa)\n        } else {\n            Err(MissingInitialState)\n        }","        let initial_state = initial_state.ok_or(MissingInitialState)?;\n        let alphabet = head.into_iter().map(Rc::from).collect();\n        Ok(Dfa { alphabet, states: new_states, initial_state })")]),
("R18","C03",DM,[("                initial: states == (q1, q2),","                initial: states.0 == q1 && states.1 == q2,")]),
("R19","C03",DM,[("        // initial state pair\n        let q1","        // helper\n        fn pair(a: &DfaEvaluator<'_>, b: &DfaEvaluator<'_>) -> (usize, usize) {\n            (a.current_state_idx(), b.current_state_idx())\n        }\n        let q1"),("                let states = (d1.current_state_idx(), d2.current_state_idx());\n                transition_list.push(states);","                let states = pair(&d1, &d2);\n                transition_list.push(states);")]),
("R20","C04",NM,[("            if let Some(s1) = s1 {\n                for &eps1 in &self.states[s1].epsilon_transitions {\n                    let states = (Some(eps1), s2);\n                    eps_transitions.push(states);\n                    if explored_states.insert(states) {\n                        state_pairs_to_explore.push(states);\n                    }\n                }\n            }\n\n            if let Some(s2) = s2 {\n                for &eps2 in &other.states[s2].epsilon_transitions {\n                    let states = (s1, Some(eps2));\n                    eps_transitions.push(states);\n                    if explored_states.insert(states) {\n                        state_pairs_to_explore.push(states);\n                    }\n                }\n            }",
 "            if let Some(s1) = s1 {\n                eps_transitions.extend(self.states[s1].epsilon_transitions.iter().map(|&e| (Some(e), s2)));\n            }\n            if let Some(s2) = s2 {\n                eps_transitions.extend(other.states[s2].epsilon_transitions.iter().map(|&e| (s1, Some(e))));\n            }\n            for &states in &eps_transitions {\n                if explored_states.insert(states) {\n                    state_pairs_to_explore.push(states);\n                }\n            }")]),
("R21","C04",NM,[("                    s1.filter(|&idx| !self.states[idx].transitions[elem].is_empty()),","                    s1.filter(|&idx| self.states[idx].transitions[elem].len() > 0),")]),
("R22","C04",NM,[("        self.states[self.initial_state].initial = false;\n        self.states[b_init].initial = false;\n        self.initial_state = self.states.len();","        let new_idx = self.states.len();\n        self.states[b_init].initial = false;\n        let old = self.initial_state;\n        self.states[old].initial = false;\n        self.initial_state = new_idx;")]),
("R23","C02",NM,[("        let mut all = HashSet::new();\n        all.insert(start);\n        let mut new = vec![start];\n        while !new.is_empty() {\n            let old_new = mem::take(&mut new);\n            for state in old_new {\n                for &eps_target in &self.states[state].epsilon_transitions {\n                    if all.insert(eps_target) {\n                        new.push(eps_target)\n                    }\n                }\n            }\n        }\n        Some(all)","        let mut all = HashSet::from([start]);\n        let mut queue = std::collections::VecDeque::from([start]);\n        while let Some(state) = queue.pop_front() {\n            let targets = &self.states[state].epsilon_transitions;\n            queue.extend(targets.iter().copied().filter(|t| all.insert(*t)));\n        }\n        Some(all)")]),
("R24","C06",DM,[("        let states = states.into_iter().map(|s| s.into()).collect();\n        Nfa {\n            alphabet,\n            states,\n            initial_state,\n        }","        let mut new_states = Vec::with_capacity(states.len());\n        for s in states {\n            new_states.push(s.into());\n        }\n        Nfa {\n            alphabet,\n            states: new_states,\n            initial_state,\n        }")]),
("B01","C03",DM,[("                transition_list.push(states);\n                if explored_states.insert(states) {","                if explored_states.insert(states) {\n                transition_list.push(states);")]),
("B02","C05",NM,[("            for elem in self.alphabet.iter() {\n                let mut d1 = s1.clone();\n                d1.step(elem);","            for elem in self.alphabet.iter().skip(1) {\n                let mut d1 = s1.clone();\n                d1.step(elem);")]),
("B03","C02",NEV,[("                self.include_closure();\n                Some(())","                if self.current_states.len() > 1 {\n                    self.include_closure();\n                }\n                Some(())")]),
("B04","C06",NM,[("                if is_accepting {\n                    accepting.insert(*x);","                if is_accepting && *x > 0 {\n                    accepting.insert(*x);")]),
("B05","C04",NM,[("            if let Some(s2) = s2 {\n                for &eps2 in &other.states[s2].epsilon_transitions {\n                    let states = (s1, Some(eps2));","            if let (Some(s2), true) = (s2, s1.is_some()) {\n                for &eps2 in &other.states[s2].epsilon_transitions {\n                    let states = (s1, Some(eps2));")]),
("B06","C07",NM,[(".chain(self.closure(",".chain(self.closure(0*")]),
("B07","C08",DP,[("            if transitions.len() != head.len() {","            if transitions.len() < head.len() {")]),
("B08","C04",NM,[("        if !alphabet_translation.windows(2).all(|v| v[0] < v[1]) {","        if !alphabet_translation.windows(2).all(|v| v[0] + 1 != v[1]) {")]),
("B09","C03",DM,[("explored_states.insert((q1, q2));\n","explored_states.insert((q1, q1));\n")]),
("B10","C01",DEV,[("            None => {\n                self.unknown_elem_seen = true;\n                None\n            }\n            Some(&idx)","            None => None,\n            Some(&idx)")]),
]
