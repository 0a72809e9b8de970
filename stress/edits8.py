# names of states
PN = '''            let mut hm = HashSet::new();
            let potential_names = explored_states
                .iter()
                .map_while(|(s1, s2)| {
                    let combined_name: Rc<str> = Rc::from(format!(
                        "({},{})",
                        self.states[*s1].name, other.states[*s2].name
                    ));
                    hm.insert(combined_name.clone())
                        .then_some(((*s1, *s2), combined_name))
                })
                .collect::<HashMap<_, _>>();
            if potential_names.len() < state_data.len() {
                explored_states
                    .iter()
                    .enumerate()
                    .map(|(idx, (s1, s2))| ((*s1, *s2), Rc::from(format!("{idx}"))))
                    .collect()
            } else {
                potential_names
            }
'''
FN = '''        if self.states.iter().all(|s| s.name.as_ref() != wanted) {
            Rc::from(wanted)
        } else {
            (0..)
                .map(|i| Rc::from(i.to_string().as_str()))
                .find(|n| self.states.iter().all(|s| &s.name != n))
                .unwrap()
        }
'''
UN = '''            let mut iter = 1..;
            self.states.iter_mut().for_each(|state| {
                state.name = iter
                    .next()
                    .map(|i| Rc::from(i.to_string().as_str()))
                    .unwrap()
            });
'''
UC = '''        let names = self
            .states
            .iter()
            .map(|s| s.name.as_ref())
            .collect::<HashSet<_>>();
        if names.len() != self.states.len() {
'''
EDITS = EDITS + [
    ("R280-union-enum", "C23 C04", N, [(UN, '''            for (i, state) in self.states.iter_mut().enumerate() {
                state.name = Rc::from((i + 1).to_string());
            }
''')]),
    ("R281-fresh-any", "C23 C04 C11", N, [(FN, '''        let taken = |n: &str| self.states.iter().any(|s| s.name.as_ref() == n);
        if !taken(wanted) {
            return Rc::from(wanted);
        }
        let mut i = 0;
        while taken(&i.to_string()) {
            i += 1;
        }
        Rc::from(i.to_string())
''')]),
    ("R282-fresh-match", "C23 C04 C11", N, [(FN, '''        match self.states.iter().find(|s| s.name.as_ref() == wanted) {
            None => Rc::from(wanted),
            Some(_) => (0..)
                .map(|i| Rc::from(i.to_string()))
                .find(|n| !self.states.iter().any(|s| s.name == *n))
                .unwrap(),
        }
''')]),
    ("R283-union-dup", "C23 C04", N, [(UC, '''        let mut names = HashSet::new();
        let distinct = self.states.iter().all(|s| names.insert(s.name.clone()));
        if !distinct {
''')]),
    ("R284-prod-for", "C23 C03", D, [(PN, '''            let mut hm = HashSet::new();
            let mut potential_names = HashMap::new();
            for (s1, s2) in explored_states.iter() {
                let combined_name: Rc<str> = Rc::from(format!(
                    "({},{})",
                    self.states[*s1].name, other.states[*s2].name
                ));
                if !hm.insert(combined_name.clone()) {
                    break;
                }
                potential_names.insert((*s1, *s2), combined_name);
            }
            if potential_names.len() < state_data.len() {
                potential_names.clear();
                for (idx, (s1, s2)) in explored_states.iter().enumerate() {
                    potential_names.insert((*s1, *s2), Rc::from(idx.to_string()));
                }
            }
            potential_names
''')]),
    ("R285-prod-distinct", "C23 C03", D, [(PN, '''            let combined_names = explored_states
                .iter()
                .map(|(s1, s2)| {
                    let name: Rc<str> = Rc::from(format!(
                        "({},{})",
                        self.states[*s1].name, other.states[*s2].name
                    ));
                    ((*s1, *s2), name)
                })
                .collect::<HashMap<_, _>>();
            let distinct = combined_names.values().collect::<HashSet<_>>();
            if distinct.len() < combined_names.len() {
                explored_states
                    .iter()
                    .enumerate()
                    .map(|(idx, (s1, s2))| ((*s1, *s2), Rc::from(format!("{idx}"))))
                    .collect()
            } else {
                combined_names
            }
''')]),
    ("R286-dfa-name-fmt", "C23 C06", N, [('''                name: Rc::from(n.to_string()),''', '''                name: Rc::from(format!("{n}")),''')]),
    ("R287-prod-helper", "C23 C03", D, [('''                    let combined_name: Rc<str> = Rc::from(format!(
                        "({},{})",
                        self.states[*s1].name, other.states[*s2].name
                    ));
''', '''                    let combined_name = pair_name(&self.states[*s1].name, &other.states[*s2].name);
'''), ('''impl Dfa {
''', '''fn pair_name(left: &str, right: &str) -> Rc<str> {
    let mut name = String::from("(");
    name.push_str(left);
    name.push(',');
    name.push_str(right);
    name.push(')');
    Rc::from(name)
}

impl Dfa {
''')]),
    ("B280-fresh-always", "C23", N, [(FN, '''        Rc::from(wanted)
''')]),
    ("B281-fresh-count", "C23", N, [(FN, '''        if self.states.iter().all(|s| s.name.as_ref() != wanted) {
            Rc::from(wanted)
        } else {
            Rc::from(self.states.len().to_string())
        }
''')]),
    ("B282-fresh-init", "C23", N, [('''            (0..)
                .map(|i| Rc::from(i.to_string().as_str()))
                .find(|n| self.states.iter().all(|s| &s.name != n))''', '''            (0..)
                .map(|i| Rc::from(i.to_string().as_str()))
                .find(|n| self.states.iter().any(|s| &s.name != n))''')]),
    ("B283-union-noren", "C23", N, [('''        if names.len() != self.states.len() {
            // Rename states''', '''        if names.len() < a_states {
            // Rename states''')]),
    ("B284-union-order", "C23", N, [('''        let new_initial_state = NfaState {
            name: self.fresh_name("s_new"),
            initial: true,''', '''        let new_initial_state = NfaState {
            name: new_name,
            initial: true,'''), ('''        let b_init = remapping(other.initial_state).unwrap();
''', '''        let b_init = remapping(other.initial_state).unwrap();
        let new_name = self.fresh_name("s_new");
''')]),
    ("B285-prod-nofallback", "C23", D, [('''            if potential_names.len() < state_data.len() {
                explored_states
                    .iter()
                    .enumerate()
                    .map(|(idx, (s1, s2))| ((*s1, *s2), Rc::from(format!("{idx}"))))
                    .collect()
            } else {
                potential_names
            }
''', '''            potential_names
'''), ('''                    hm.insert(combined_name.clone())
                        .then_some(((*s1, *s2), combined_name))''', '''                    hm.insert(combined_name.clone());
                    Some(((*s1, *s2), combined_name))''')]),
    ("B286-prod-fallback-left", "C23", D, [('''.map(|(idx, (s1, s2))| ((*s1, *s2), Rc::from(format!("{idx}"))))''', '''.map(|(_, (s1, s2))| ((*s1, *s2), Rc::from(format!("{}{}", s1, s2))))''')]),
    ("B287-nprod-none", "C23", N, [('''                        s1.map_or("none", |s1| &self.states[s1].name),
                        s2.map_or("none", |s2| &other.states[s2].name)
                    ));
                    hm.insert(combined_name.clone())
                        .then_some(((*s1, *s2), combined_name))''', '''                        s1.map_or("none", |s1| &self.states[s1].name),
                        s2.map_or("none", |s2| &other.states[s2].name)
                    ));
                    (s1.is_none() || s2.is_none() || hm.insert(combined_name.clone()))
                        .then_some(((*s1, *s2), combined_name))''')]),
    ("B288-eps-reuse", "C23", N, [('''            let new_state_name = if old_state_dead {''', '''            let new_state_name = if old_state_dead || !self.states[old_initial].accepting {''')]),
    ("B289-regex-name", "C23", "dandy/src/regex/mod.rs", [('''                                name: Rc::from(after_state_idx.to_string()),''', '''                                name: Rc::from((incoming_state_idx + idx + 1).to_string()),''')]),
    ("B290-dfa-name", "C23", N, [('''                name: Rc::from(n.to_string()),''', '''                name: Rc::from(key.first().map_or(n, |&k| k).to_string()),''')]),
    ("B291-prod-sep", "C23", D, [('''                        "({},{})",
                        self''', '''                        "({} {})",
                        self''')]),
]
