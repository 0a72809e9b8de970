DM="dandy/src/dfa/mod.rs"; DEV="dandy/src/dfa/eval.rs"; NM="dandy/src/nfa/mod.rs"; NEV="dandy/src/nfa/eval.rs"; DP="dandy/src/dfa/parse.rs"; NP="dandy/src/nfa/parse.rs"
SEEDS = [
 dict(id="S01", property="C01", edits=[(DM, "        let graphemes = string.graphemes(true).collect::<Vec<_>>();", "        let graphemes = string.trim_end().graphemes(true).collect::<Vec<_>>();")],
  needs="a text ending in white space, which is a symbol outside the alphabet", breaks="trailing white space is dropped instead of rejecting the word",
  main='''use dandy::dfa::Dfa;
fn main() {
    let dfa: Dfa = dandy::parser::dfa("   a b\\n-> * x x y\\n y y x\\n").unwrap().try_into().unwrap();
    assert!(dfa.accepts_graphemes("abb"));
    assert!(!dfa.accepts_graphemes("ab b"));
    assert!(!dfa.accepts_graphemes("abb "));
    assert!(!dfa.accepts_graphemes("\\n"));
}'''),
 dict(id="S02", property="C02", edits=[(NEV, "        match self.rev_map.get(elem) {", "        match self.rev_map.get(elem.trim_end()) {")],
  needs="a step on a string that becomes a known symbol when its trailing white space is dropped", breaks="such an unknown symbol is followed instead of rejecting",
  main='''use dandy::nfa::Nfa;
fn main() {
    let nfa: Nfa = dandy::parser::nfa("  ε a\\n-> s {} {t}\\n * t {} {}\\n").unwrap().try_into().unwrap();
    assert!(nfa.accepts(&["a"]));
    assert!(!nfa.accepts(&["a "]));
    assert!(nfa.evaluator().step("a\\n").is_none());
}'''),
 dict(id="S03", property="C03", edits=[(DM, "                initial: states == (q1, q2),", "                initial: states.0 == q1,")],
  needs="a product in which the first operand returns to its initial state while the second does not, then printed or rebuilt", breaks="several states of the product are marked initial",
  main='''use dandy::dfa::Dfa;
fn main() {
    let a: Dfa = dandy::parser::dfa("   a\\n-> * x x\\n").unwrap().try_into().unwrap();
    let b: Dfa = dandy::parser::dfa("   a\\n-> * p q\\n q q\\n").unwrap().try_into().unwrap();
    let u = a.union(&b).unwrap();
    assert_eq!(u.states().iter().filter(|s| s.is_initial()).count(), 1);
}'''),
 dict(id="S04", property="C04", edits=[(NM, "        self.states[b_init].initial = false;\n        self.initial_state = self.states.len();", "        self.initial_state = self.states.len();")],
  needs="the union inspected through its states (or printed), not run", breaks="the second operand's old initial state stays marked initial, so the result has two initial states",
  main='''use dandy::nfa::Nfa;
fn main() {
    let a: Nfa = dandy::parser::nfa("  a b c\\n-> s {} {} {}\\n").unwrap().try_into().unwrap();
    let b: Nfa = dandy::parser::nfa("  b c a\\n-> p {t} {} {}\\n * t {} {} {}\\n").unwrap().try_into().unwrap();
    let u = a.union(b).map_err(|_| ()).unwrap();
    assert_eq!(u.states().iter().filter(|s| s.is_initial()).count(), 1);
    assert!(u.initial_state().is_initial());
}'''),
 dict(id="S05", property="C05", edits=[("dandy/src/util.rs", "    if a.len() != b.len() {", "    if a.len() > b.len() {"), ("dandy/src/util.rs", "    set1 == set2", "    set1.is_subset(&set2)")],
  needs="two automata where the first one's symbols are a proper subset of the second's", breaks="automata over different alphabets are compared as if they had the same",
  main='''use dandy::nfa::Nfa;
fn main() {
    let a: Nfa = dandy::parser::nfa("  a\\n-> * x {x}\\n").unwrap().try_into().unwrap();
    let b: Nfa = dandy::parser::nfa("  a b\\n-> * x {x} {y}\\n y {y} {y}\\n").unwrap().try_into().unwrap();
    assert!(!a.equivalent_to(&b));
    assert!(!b.equivalent_to(&a));
}'''),
 dict(id="S06", property="C06", edits=[(NM, "                if !map.contains_key(&key) {\n                    to_explore.push(new_evaluator);\n                }\n                let x = map.entry(key).or_insert_with(|| gen.next().unwrap());\n                tr.push(*x);\n                if is_accepting {",
   "                let is_new = !map.contains_key(&key);\n                let first = self.alphabet.first().map(|s| &**s);\n                let multi = is_new && new_evaluator.current_states_idx().len() > 9 && first.is_some_and(|f| f.len() > 3);\n                if is_new {\n                    to_explore.push(new_evaluator);\n                }\n                let x = map.entry(key).or_insert_with(|| gen.next().unwrap());\n                tr.push(*x);\n                if is_accepting && !multi {")],
  needs="a subset of more than nine NFA states met first through a symbol list that starts with a long name", breaks="such a subset is not marked accepting when it is first met",
  main='''use dandy::nfa::Nfa;
fn main() {
    let mut t = String::from("  word\\n-> * s0 {s1 s2 s3 s4 s5 s6 s7 s8 s9 s10 s11}\\n");
    for i in 1..=11 { t.push_str(&format!(" {} s{i} {{}}\\n", if i == 1 { "*" } else { "" })); }
    let nfa: Nfa = dandy::parser::nfa(&t).unwrap().try_into().unwrap();
    assert!(nfa.accepts(&["word"]));
    assert!(nfa.to_dfa().accepts(&["word"]));
}'''),
 dict(id="S07", property="C07", edits=[(NM, "            .filter(|x| !reachables.contains(x))", "            .filter(|x| !reachables.contains(x) && *x != self.initial_state + self.states.len() - 1)")],
  needs="an NFA whose initial state comes first and whose last state is unreachable", breaks="the last state is never listed as unreachable",
  main='''use dandy::nfa::Nfa;
fn main() {
    let a: Nfa = dandy::parser::nfa("  a b c\\n-> s {} {} {}\\n u {} {} {}\\n").unwrap().try_into().unwrap();
    assert_eq!(a.unreachable_state_idx().len(), 1);
}'''),
 dict(id="S08", property="C08", edits=[(DP, "            if transitions.len() != head.len() {", "            if transitions.len() < head.len() {")],
  needs="a row with more successors than there are symbols", breaks="a row with too many successors is accepted",
  main='''use dandy::dfa::Dfa;
fn main() {
    let p = dandy::parser::dfa("   a\\n-> * x x x\\n").unwrap();
    assert!(Dfa::try_from(p).is_err());
}'''),
 dict(id="S09", property="C09", edits=[(NP, "                        if eps_idx.is_some() {", "                        if eps_idx == Some(0) {")],
  needs="a table with two epsilon columns, the first of which is not the first column", breaks="a second epsilon column is accepted and the first one is read as a symbol",
  main="""use dandy::nfa::Nfa;
fn main() {
    let p = dandy::parser::nfa("  a ε b ε\\n-> * x {x} {} {} {}\\n").unwrap();
    assert!(Nfa::try_from(p).is_err());
}"""),
 dict(id="S10", property="C10", edits=[(NM, "        to_remove.sort();\n", "        to_remove.sort_by_key(|idx| idx.to_string());\n")],
  needs="an NFA with more than ten states of which two unreachable ones sort differently as text than as numbers", breaks="the wrong states are removed and moves are renumbered to the wrong states",
  main="""use dandy::nfa::Nfa;
fn main() {
    let mut t = String::from("  a\\n");
    for i in 0..14 {
        let next = if i == 1 { 3 } else if i == 10 { 12 } else { (i + 1) % 14 };
        t.push_str(&format!(" {} {} s{i} {{{}}}\\n", if i == 0 { "->" } else { "" }, if i == 13 { "*" } else { "" },
            if i == 2 || i == 11 { String::new() } else { format!("s{next}") }));
    }
    let mut nfa: Nfa = dandy::parser::nfa(&t).unwrap().try_into().unwrap();
    assert_eq!(nfa.unreachable_state_idx().len(), 2);
    let names: Vec<String> = nfa.reachable_states().iter().map(|s| s.name().to_string()).collect();
    nfa.remove_unreachable_states();
    assert_eq!(nfa.states().len(), 12);
    for n in names { assert!(nfa.states().iter().any(|s| s.name() == n)); }
    assert!(nfa.accepts(&["a"; 11]));
}"""),
 dict(id="S11", property="C11", edits=[(NM, "            let old_state_dead = !self.states[old_initial].accepting\n                && self.states[old_initial]", "            let old_state_dead = self.states[old_initial]")],
  needs="an accepting initial state without useful moves of its own, with epsilon moves to live states, that is entered again later", breaks="the accepting initial state is dropped although other states move to it",
  main="""use dandy::nfa::Nfa;
fn main() {
    let mut nfa: Nfa = dandy::parser::nfa("  ε a\\n-> * s {t} {}\\n t {} {s}\\n").unwrap().try_into().unwrap();
    assert!(nfa.accepts(&["a"]));
    nfa.remove_epsilon_moves();
    assert!(nfa.accepts(&[]));
    assert!(nfa.accepts(&["a"]));
}"""),
 dict(id="S12", property="C09", edits=[(NP, """                    for target in transition {
                        if let Some(idx) = state_name_map.get(target) {
                            tr_idx.push(*idx);
                        } else {
                            return Err(TransitionDoesNotExist(name, target)); // Target of transition does not exist
                        }
                    }
                    epsilon_transitions""", """                    tr_idx.extend(transition.iter().filter_map(|t| state_name_map.get(t)));
                    epsilon_transitions""")],
  needs="an epsilon move to a state that the table does not define", breaks="the move is dropped silently instead of being reported",
  main="""use dandy::nfa::Nfa;
fn main() {
    assert!(Nfa::try_from(dandy::parser::nfa("  a ε\\n-> * x {x} {y}\\n").unwrap()).is_err());
    assert!(Nfa::try_from(dandy::parser::nfa("  a ε\\n-> * x {y} {x}\\n").unwrap()).is_err());
}"""),
]
