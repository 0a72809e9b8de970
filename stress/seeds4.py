M="dandy/src/dfa/mod.rs"
RND='''use dandy::dfa::Dfa;
use dandy::parser;
fn table(n: usize, rnd: &mut dyn FnMut(usize) -> usize) -> String {
    let mut t = String::from("      a b\\n");
    for i in 0..n {
        t += &format!("{} {} s{} s{} s{}\\n", if i == 0 { "->" } else { "  " }, if rnd(3) == 0 { "*" } else { " " }, i, rnd(n), rnd(n));
    }
    t
}
fn classes(d: &Dfa) -> usize {
    // Moore's refinement
    let n = d.states().len();
    let mut cl: Vec<usize> = d.states().iter().map(|s| s.is_accepting() as usize).collect();
    loop {
        let keys: Vec<Vec<usize>> = (0..n).map(|i| std::iter::once(cl[i]).chain(d.states()[i].transitions().iter().map(|&t| cl[t])).collect()).collect();
        let mut ids: Vec<&Vec<usize>> = keys.iter().collect();
        ids.sort();
        ids.dedup();
        let new: Vec<usize> = keys.iter().map(|k| ids.binary_search(&k).unwrap()).collect();
        let (a, b) = (ids.len(), cl.iter().collect::<std::collections::HashSet<_>>().len());
        cl = new;
        if a == b {
            return a;
        }
    }
}
fn main() {
    let mut seed = 12345u64;
    let mut rnd = move |n: usize| {
        seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        ((seed >> 33) as usize) % n
    };
    for _ in 0..2000 {
        let n = 1 + rnd(8);
        let t = table(n, &mut rnd);
        let mut d: Dfa = parser::dfa(&t).unwrap().try_into().unwrap();
        let old = d.clone();
        let mut trimmed = d.clone();
        trimmed.remove_unreachable_states();
        d.minimize();
        assert_eq!(d.states().len(), classes(&trimmed), "{t}");
        assert!(d.equivalent_to(&old), "{t}");
        let flags: Vec<usize> = (0..d.states().len()).filter(|&i| d.states()[i].is_initial()).collect();
        assert_eq!(flags, vec![d.initial_state_index()], "{t}");
        for s in d.states() {
            assert!(old.states().iter().any(|o| o.name() == s.name() && o.is_accepting() == s.is_accepting()), "{t}");
        }
    }
}'''
SEEDS += [
 dict(id="S32", property="C21", edits=[(M, """            self.initial_state = new_initial;
            self.states[new_initial].initial = true;""", """            self.initial_state = new_initial;""")],
  needs="the initial state is merged into another state that is kept", breaks="no state of the minimised automaton is marked initial", main=RND),
 dict(id="S33", property="C21", edits=[(M, """            .into_iter()
            .flat_map(|set| {
                debug_assert!""", """            .into_iter()
            // the initial state has to stay
            .filter(|set| !set.contains(&self.initial_state))
            .flat_map(|set| {
                debug_assert!""")],
  needs="a state that cannot be told apart from the initial state", breaks="states that cannot be told apart from the initial state are kept", main=RND),
 dict(id="S34", property="C21", edits=[(M, """        self.remove_unreachable_states();
        self.merge_nondistinguishable_states();
    }""", """        if self.has_reachable_accepting_state() {
            self.remove_unreachable_states();
        }
        self.merge_nondistinguishable_states();
    }""")],
  needs="an automaton that accepts nothing but has an accepting state that is not reachable", breaks="the minimised automaton keeps states that are not reachable", main=RND),
]
