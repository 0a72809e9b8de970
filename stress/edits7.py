# more edits (second look at keys, order, taint)
D = "dandy/src/dfa/mod.rs"
N = "dandy/src/nfa/mod.rs"
EDITS = EDITS + [
    ("B240-nosort", "C06", N, [("        vec.sort();\n        vec", "        vec")]),
    ("B241-rev-sort", "C06", N, [("        vec.sort();\n        vec", "        if vec.first() > vec.last() {\n            vec.sort();\n        }\n        vec")]),
    ("R270-body-string", "C13", "dandy/src/regex/mod.rs", [("""                acc.push('(');
                Self::build_string(seq, acc);
                acc.push(')');
                acc.push('*');""", """                let mut body = String::new();
                Self::build_string(seq, &mut body);
                acc.push('(');
                acc.push_str(&body);
                acc.push_str(")*");""")]),
]
