FA="dandy/src/parser/fa.rs"; PR="dandy/src/parser/regex.rs"; RG="dandy/src/regex/mod.rs"; TBL="dandy/src/table/mod.rs"
SEEDS += [
 dict(id="S13", property="C12", edits=[(RG, "                    incoming_state.epsilon_transitions.push(counter.state + 1);\n                    let seq_len = seq.len();",
   "                    let seq: Vec<_> = seq\n                        .into_iter()\n                        .filter(|part| {\n                            !matches!(part, RegexTree::Char(RegexChar::Epsilon | RegexChar::Empty))\n                        })\n                        .collect();\n                    if seq.is_empty() {\n                        incoming_state.epsilon_transitions.push(send_to);\n                        return vec![incoming_state];\n                    }\n                    incoming_state.epsilon_transitions.push(counter.state + 1);\n                    let seq_len = seq.len();")],
  needs="an expression with the empty language inside a sequence", breaks="∅ is dropped from sequences as if it were ε, so a∅ accepts a",
  main='''fn main() {
    let n = dandy::parser::regex("aεb").unwrap().to_nfa();
    assert!(n.accepts_graphemes("ab"));
    let n = dandy::parser::regex("a∅b|c").unwrap().to_nfa();
    assert!(n.accepts_graphemes("c"));
    assert!(!n.accepts_graphemes("ab"));
}'''),
 dict(id="S14", property="C13", edits=[(RG, """            RegexTree::Repeat(seq) => {
                acc.push('(');
                Self::build_string(seq, acc);
                acc.push(')');
                acc.push('*');""", """            RegexTree::Repeat(seq) => {
                let mut body = String::new();
                Self::build_string(seq, &mut body);
                // no second pair of parentheses around an alternation
                if body.starts_with('(') && body.ends_with(')') {
                    acc.push_str(&body);
                } else {
                    acc.push('(');
                    acc.push_str(&body);
                    acc.push(')');
                }
                acc.push('*');""")],
  needs="a repetition of a sequence that starts and ends with an alternation", breaks="((a|b)(c|d))* prints as (a|b)(c|d)*",
  main='''fn main() {
    for t in ["(a|b)*", "(ab)*", "((a|b)c)*", "((a|b)(c|d))*"] {
        let r = dandy::parser::regex(t).unwrap();
        let again = dandy::parser::regex(&r.to_string()).expect(t);
        assert!(again.to_nfa().equivalent_to(&r.clone().to_nfa()), "{t} {}", r.to_string());
    }
}'''),
 dict(id="S15", property="C14", edits=[(TBL, "            .for_each(|(max_len, s)| *max_len = max(*max_len, s.chars().count()));", "            .for_each(|(max_len, s)| *max_len = max(*max_len, s.len()));")],
  needs="a table with a name of several bytes per character that is the widest of its column", breaks="columns are padded to the number of bytes",
  main='''use dandy::dfa::Dfa;
fn main() {
    let dfa: Dfa = dandy::parser::dfa("   a\\n-> * s₀ s₀\\n").unwrap().try_into().unwrap();
    assert_eq!(dfa.ascii_table().lines().nth(1).unwrap().trim_end(), "-> * s₀ s₀");
}'''),
 dict(id="S16", property="C15", edits=[(FA, "                terminated(nfa_head, line_ending),\n                preceded(\n                    many0(space_comment_line),", "                terminated(nfa_head, line_ending),\n                preceded(\n                    opt(space_comment_line),")],
  needs="an NFA table with more than one blank or comment line below its heading", breaks="such a table is rejected",
  main='''fn main() {
    assert!(dandy::parser::nfa("  a\\n# first\\n-> s {s}\\n").is_ok());
    assert!(dandy::parser::nfa("  a\\n# first\\n\\n  # second\\n-> s {s}\\n").is_ok());
    assert!(dandy::parser::dfa("  a\\n# first\\n\\n  # second\\n-> s s\\n").is_ok());
}'''),
 dict(id="S17", property="C16", edits=[(PR, "    preceded(complete::char('\\\\'), one_cluster)(input)", "    map(preceded(complete::char('\\\\'), complete::anychar), |c| {\n        RegexChar::Grapheme(Rc::from(c.to_string()))\n    })(input)")],
  needs="a backslash before a grapheme cluster of several code points", breaks="the escape takes only the first code point, the rest becomes a character of its own",
  main='''fn main() {
    let n = dandy::parser::regex("\\\\(a").unwrap().to_nfa();
    assert!(n.accepts_graphemes("(a"));
    let n = dandy::parser::regex("\\\\*\\u{301}").unwrap().to_nfa();
    assert!(n.accepts_graphemes("*\\u{301}"));
}'''),
 dict(id="S18", property="C15", edits=[(FA, """fn state_name(input: &str) -> IResult<&str, &str> {
    verify(
        take_till1(|c: char| c.is_whitespace() ||""", """fn state_name(input: &str) -> IResult<&str, &str> {
    verify(
        take_till1(|c: char| c.is_ascii_whitespace() ||""")],
  needs="a table with a blank other than the ASCII ones (a no-break space, say) inside a state name", breaks="such a table is accepted, with the blank as part of the name",
  main='''fn main() {
    assert!(dandy::parser::dfa("  a\\n-> s t\\n  t s\\n").is_ok());
    assert!(dandy::parser::dfa("  a\\n-> s\\u{a0}t s\\u{a0}t\\n").is_err());
}'''),
 dict(id="S19", property="C16", edits=[(PR, "        if items.len() > 1 {\n            f(items)\n        } else {\n            items.remove(0)\n        }", "        items.dedup_by(|_, _| false);\n        if items.len() > 1 {\n            f(items)\n        } else {\n            items.pop().unwrap()\n        }"),
   (PR, "        separated_list1(complete::char('|'), sequence),", "        separated_list1(complete::char('|'), opt(sequence)),"),
   (PR, "        wrap_multiple(RegexTree::Alt),\n    )(input)", "        |items: Vec<Option<RegexTree>>| {\n            wrap_multiple(RegexTree::Alt)(\n                items\n                    .into_iter()\n                    .map(|x| x.unwrap_or(RegexTree::Char(RegexChar::Epsilon)))\n                    .collect(),\n            )\n        },\n    )(input)"),
   (PR, "fn wrap_multiple<T>(", "fn wrap_multiple<T: 'static>(")],
  needs="a text with an empty alternative or an empty pair of parentheses", breaks="a||b, () and the empty text are accepted although the grammar rejects them",
  main='''fn main() {
    assert!(dandy::parser::regex("a|b").is_ok());
    assert!(dandy::parser::regex("a|ε").is_ok());
    assert!(dandy::parser::regex("a|").is_err());
    assert!(dandy::parser::regex("a||b").is_err());
    assert!(dandy::parser::regex("").is_err());
}'''),
]
