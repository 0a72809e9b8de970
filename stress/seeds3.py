WL="dandy-wasm/src/lib.rs"; CM="dandy-cli/src/main.rs"; CA="dandy-cli/src/automata.rs"; CE="dandy-cli/src/equivalence.rs"; CB="dandy-cli/src/binary_op.rs"; CN="dandy-cli/src/enumerate.rs"; CT="dandy-cli/src/test_files.rs"
CLI='''#!/bin/bash
# run in /repo after the build: the command line tool on files of its own
cli=$(pwd)/target/debug/dandy-cli
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
cd "$d" || exit 2
same() { if [ "$1" != "$2" ]; then echo "expected:"; echo "$2"; echo "got:"; echo "$1"; exit 1; fi; }
'''
WD=dict(deps=["dandy-wasm"])
SEEDS += [
 dict(id="S20", property="C17", **WD, edits=[(WL, "fn push_dfa(dfa: Dfa) -> usize {\n    let key = gen_key();", "fn push_dfa(dfa: Dfa) -> usize {\n    // the first free key, so that keys stay small in long sessions\n    let key = DFA_MAP.with_borrow(|map| (1..).find(|key| !map.contains_key(key)).unwrap());")],
  needs="a DFA is deleted and another one is stored while the page still holds the old key", breaks="keys of deleted DFAs are handed out again",
  main='''use dandy_wasm::*;
fn main() {
    let a = load_dfa("  a\\n-> s s\\n").unwrap();
    let b = load_dfa("  a\\n-> s s\\n").unwrap();
    assert!(a != b && delete_dfa(a));
    let c = load_dfa("  b\\n-> s s\\n").unwrap();
    assert!(c != a, "the key of a deleted DFA was handed out again");
}'''),
 dict(id="S21", property="C17", **WD, edits=[(WL, "pub fn nfa_to_dfa(nfa: usize) -> Option<usize> {\n    let nfa = NFA_MAP.with_borrow(|map| map.get(&nfa).cloned())?;\n    let dfa = nfa.to_dfa();", "pub fn nfa_to_dfa(nfa: usize) -> Option<usize> {\n    let dfa = NFA_MAP.with_borrow_mut(|map| {\n        // the subset construction is cheaper without epsilon moves\n        let nfa = map.get_mut(&nfa)?;\n        if nfa.has_epsilon_moves() {\n            nfa.remove_epsilon_moves();\n        }\n        Some(nfa.to_dfa())\n    })?;")],
  needs="an NFA with epsilon moves is converted and its table is asked for afterwards", breaks="converting an NFA rewrites the stored NFA",
  main='''use dandy_wasm::*;
fn main() {
    let n = load_nfa("  a\\n-> s {s}\\n* t {t}\\n").unwrap();
    let t = nfa_to_table(n).unwrap();
    nfa_to_dfa(n).unwrap();
    assert_eq!(nfa_to_table(n).unwrap(), t);
    let n = load_nfa("  eps a\\n-> s {t} {}\\n* t {} {t}\\n").unwrap();
    let t = nfa_to_table(n).unwrap();
    nfa_to_dfa(n).unwrap();
    assert_eq!(nfa_to_table(n).unwrap(), t);
}'''),
 dict(id="S22", property="C17", **WD, edits=[(WL, "pub fn check_nfa_eq(nfa1: usize, nfa2: usize) -> Option<bool> {\n", "pub fn check_nfa_eq(nfa1: usize, nfa2: usize) -> Option<bool> {\n    if nfa1 == nfa2 {\n        return Some(true);\n    }\n")],
  needs="comparing a key that is not loaded with itself", breaks="two NFAs that are not loaded are said to be equal",
  main='''use dandy_wasm::*;
fn main() {
    let n = load_nfa("  a\\n-> s {s}\\n").unwrap();
    assert_eq!(check_nfa_eq(n, n), Some(true));
    assert_eq!(check_nfa_eq(n, n + 1), None);
    assert!(delete_nfa(n));
    assert_eq!(check_nfa_eq(n, n), None);
}'''),
 dict(id="S23", property="C18", edits=[(CA, """                if dfa1.equivalent_to(dfa2) {
                    if minimized && dfa1.states().len() != dfa2.states().len() {
                        NotMinimized
                    } else {
                        Equivalent
                    }
                } else {
                    NotEquivalent
                }""", """                // comparing the sizes is cheaper, so that comes first
                if minimized && dfa1.states().len() < dfa2.states().len() {
                    NotMinimized
                } else if dfa1.equivalent_to(dfa2) {
                    Equivalent
                } else {
                    NotEquivalent
                }""")],
  needs="--minimized with a bigger DFA of another language", breaks="such a DFA is reported as equivalent but not minimized",
  demo=CLI+'''printf '  a\\n-> * s s\\n' > base
printf '  a\\n-> * s t\\n* t s\\n' > big
printf '  a\\n-> * s t\\nt s\\n' > other
same "$($cli --less-logs equivalence -p 1 base base big other)" "base: Equivalent
big: Equivalent
other: Not Equivalent"
same "$($cli --less-logs equivalence -m -p 1 base base big other)" "base: Equivalent
big: Equivalent but not minimized
other: Not Equivalent"
'''),
 dict(id="S24", property="C18", edits=[(CE, "        if result == EquivalenceResult::Equivalent {\n            acc + 1\n        } else {\n            acc\n        }", "        match result {\n            EquivalenceResult::NotEquivalent | EquivalenceResult::NotMinimized => acc,\n            _ => acc + 1,\n        }")],
  needs="a candidate that cannot be read or parsed", breaks="the number of files that passed counts it",
  demo=CLI+'''printf '  a\\n-> * s s\\n' > base
printf 'a -> b' > bad
printf '  a\\n-> s s\\n' > other
same "$($cli equivalence base base other | tail -1)" "1/2 files passed"
same "$($cli equivalence base base other bad missing | tail -1)" "1/4 files passed"
'''),
 dict(id="S25", property="C18", edits=[(CE, "            Ok(f) => match Automata::load_test(&f, self.test_type) {", "            Ok(f) => match Automata::load_test(f.trim_start_matches('\\u{feff}'), self.test_type) {"),
    (CE, "        match fs::read_to_string(file) {", "        match fs::read_to_string(file).map(|text| text.replace('\\r', \"\")) {")],
  needs="a candidate regex file with a byte order mark or a carriage return in it", breaks="characters of the candidate are dropped before it is parsed",
  demo=CLI+'''printf 'ab' > base
printf 'ab' > same
printf 'a\\rb' > crlf
same "$($cli --less-logs equivalence -t regex -p 1 base same crlf)" "same: Equivalent
crlf: Not Equivalent"
'''),
 dict(id="S26", property="C19", edits=[(CT, "            for line in loaded_file.lines() {", "            for line in loaded_file.split('\\n') {")],
  needs="a test file that ends with a line end, or has carriage returns", breaks="an empty line is tested after the last line",
  demo=CLI+'''printf 'ab|c' > re
printf 'ab\\nd\\nc' > w1
printf 'ab\\nd\\nc\\n' > w2
same "$($cli --less-logs test-file --type regex re w1)" "Testing file w1:
[ OK ] ab
[FAIL] d
[ OK ] c
2/3 lines passed in file w1:"
same "$($cli --less-logs test-file --type regex re w2)" "Testing file w2:
[ OK ] ab
[FAIL] d
[ OK ] c
2/3 lines passed in file w2:"
'''),
 dict(id="S27", property="C19", edits=[(CN, "    nfa.remove_epsilon_moves();\n", "    if !nfa.initial_state().epsilon_transitions().is_empty() {\n        nfa.remove_epsilon_moves();\n    }\n")],
  needs="an automaton with epsilon moves none of which leaves the initial state", breaks="words that use a later epsilon move are missing",
  demo=CLI+'''printf '  a eps\\n-> s {t} {u}\\nt {} {u}\\n* u {} {}\\n' > n1
printf '  a eps\\n-> s {t} {}\\nt {} {u}\\n* u {} {}\\n' > n2
same "$($cli --less-logs enumerate --type nfa -a 2 n1 2>&1)" "(empty word)
a"
same "$($cli --less-logs enumerate --type nfa -a 2 n2 2>&1)" "a"
'''),
 dict(id="S28", property="C19", edits=[(CB, "        if x != n {", "        if x == 0 {")],
  needs="--enumerate with more words than the result has, but at least one", breaks="the line that says how many words exist is missing",
  demo=CLI+'''printf 'a|b' > r1
printf 'b|a*' > r2
printf 'aa|(bbb)+' > r3
same "$($cli --less-logs intersection -t regex -e 1 r1 r2 | tail -1)" "a"
same "$($cli --less-logs intersection -t regex -e 1 r1 r3 | tail -1)" "(only 0 words exists in the intersection)"
same "$($cli --less-logs intersection -t regex -e 5 r1 r2 | tail -1)" "(only 2 words exists in the intersection)"
'''),
 dict(id="S29", property="C19", edits=[(CB, "    if let Some(path) = &args.compare_against {\n", "    if let Some(path) = &args.compare_against {\n        // the smaller automaton is faster to compare\n        combined.minimize();\n        if !combined.has_reachable_accepting_state() {\n            output!(\"{} of the two provided {} is empty\", op, args.r#type.to_string(true));\n            return Ok(());\n        }\n")],
  needs="a comparison with the third automaton when the result has the empty language", breaks="the comparison is skipped",
  demo=CLI+'''printf 'a|b*' > r1
printf 'b|aa' > r2
printf 'aaa|bbb' > r3
printf 'b' > r4
printf '∅|aab∅' > r5
ok() { $cli --less-logs "$@" 2>&1 | grep -c EQUIVALENT; }
same "$(ok intersection -t regex --compared-type regex r1 r2 r4)" "1"
same "$(ok intersection -t regex --compared-type regex r2 r3 r5)" "1"
'''),
 dict(id="S30", property="C20", edits=[(CM, "        .and_then(|path| match File::create(path) {", "        .and_then(|path| match File::options().write(true).create(true).open(path) {")],
  needs="an output file that exists and is longer than the new results", breaks="old text stays behind the results",
  demo=CLI+'''$cli --less-logs -o out enumerate-regex -n 3 'a|b|c' > std
same "$(cat out)" "$(cat std)"
$cli --less-logs -o out enumerate-regex -n 1 'd' > std
same "$(cat out)" "$(cat std)"
'''),
 dict(id="S31", property="C20", edits=[(CM, "                eprintln!(\"Error creating output file {e}\");\n                eprintln!(\"Execution will continue but no data will be written to file\");\n                None", "                println!(\"Error creating output file {e}\");\n                println!(\"Execution will continue but no data will be written to file\");\n                None")],
  needs="an output file that cannot be created", breaks="the notice is mixed into the results on the standard output",
  demo=CLI+'''$cli --less-logs -o out enumerate-regex -n 3 'a|b|c' > std
same "$(cat std)" "a
b
c"
$cli --less-logs -o missing/out enumerate-regex -n 3 'a|b|c' > std 2> /dev/null
same "$(cat std)" "a
b
c"
'''),
]
