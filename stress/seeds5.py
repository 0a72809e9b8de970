X="dandy/src/nfa/words.rs"
BRUTE='''use dandy::nfa::Nfa;
use dandy::parser;
fn main() {
    let mut seed = 4242u64;
    let mut rnd = move |n: usize| {
        seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        ((seed >> 33) as usize) % n
    };
    for _ in 0..400 {
        let n = 1 + rnd(4);
        let mut t = String::from("      a b\\n");
        for i in 0..n {
            t += &format!("{} {} s{}", if i == 0 { "->" } else { "  " }, if rnd(3) == 0 { "*" } else { " " }, i);
            for _ in 0..2 {
                let to: Vec<String> = (0..n).filter(|_| rnd(3) == 0).map(|j| format!("s{j}")).collect();
                t += &format!(" {{{}}}", to.join(" "));
            }
            t += "\\n";
        }
        let nfa: Nfa = parser::nfa(&t).unwrap().try_into().unwrap();
        // every word of at most 6 symbols, by length and then in the order of the alphabet
        let mut want: Vec<Vec<usize>> = vec![];
        let mut level: Vec<Vec<usize>> = vec![vec![]];
        for _ in 0..=6 {
            for w in &level {
                let text: Vec<&str> = w.iter().map(|&c| ["a", "b"][c]).collect();
                if nfa.accepts(&text) {
                    want.push(w.clone());
                }
            }
            level = level.iter().flat_map(|w| (0..2).map(move |c| [w.as_slice(), &[c]].concat())).collect();
        }
        let mut it = nfa.word_component_indices();
        let mut got = vec![];
        let mut last = 0;
        let mut ended = false;
        for _ in 0..want.len() + 3 {
            match it.next() {
                Some(w) => {
                    assert!(!ended, "a word after the end\\n{t}");
                    assert!(w.len() >= last, "{t}");
                    last = w.len();
                    if w.len() <= 6 {
                        got.push(w);
                    }
                }
                None => ended = true,
            }
        }
        assert_eq!(got, want, "{t}");
    }
}'''
SEEDS += [
 dict(id="S35", property="C22", edits=[(X, """        self.last_word = None;
        self.has_failed = true;
""", """        self.has_failed = self.last_word.take().is_none();
""")],
  needs="asking again after the iterator of a non-empty finite language has ended", breaks="the enumeration starts over instead of staying ended", main=BRUTE),
]
