FA="dandy/src/parser/fa.rs"; PR="dandy/src/parser/regex.rs"; PM="dandy/src/parser/mod.rs"
EDITS += [
# helper extracted
("R30","C15",FA,[("                opt(\n                    terminated(arrow, space1), // note: to be more lenient, change this and accepting to space0\n                ),\n                opt(terminated(accepting, space1)),\n                terminated(state_name, space1),\n                separated_list1(space1, state_name),",
  "                marked(arrow),\n                marked(accepting),\n                terminated(state_name, space1),\n                separated_list1(space1, state_name),"),
  ("fn eps(input","fn marked<'a>(\n    p: impl FnMut(&'a str) -> IResult<&'a str, ()>,\n) -> impl FnMut(&'a str) -> IResult<&'a str, Option<()>> {\n    opt(terminated(p, space1))\n}\n\nfn eps(input")]),
# delimited into tuple and map
("R31","C15",FA,[("    delimited(\n        space0,\n        separated_list1(space1, alphabet_elem),\n        space_comment,\n    )(input)","    map(\n        tuple((\n            space0,\n            separated_list1(space1, alphabet_elem),\n            space_comment,\n        )),\n        |(_, symbols, _)| symbols,\n    )(input)")]),
# hand-written sequencing
("R32","C15",FA,[("    delimited(\n        tag(\"{\"),\n        delimited(space0, separated_list0(space1, state_name), space0),\n        tag(\"}\"),\n    )(input)","    let (rest, _) = tag(\"{\")(input)?;\n    let (rest, _) = space0(rest)?;\n    let (rest, names) = separated_list0(space1, state_name)(rest)?;\n    let (rest, _) = space0(rest)?;\n    let (rest, _) = tag(\"}\")(rest)?;\n    Ok((rest, names))")]),
# predicate written differently and shared
("R33","C15",FA,[("    verify(\n        take_till1(|c: char| c.is_whitespace() || \"#{}\".contains(c)),\n        |elem| ![\"ε\", \"eps\", \"→\", \"->\", \"*\"].contains(&elem),\n    )(input)\n}\n\nfn state_set","    state_name(input)\n}\n\nfn state_set"),
  ("        take_till1(|c: char| c.is_whitespace() || \"#{}\".contains(c)),\n        |elem| ![\"ε\", \"eps\", \"→\", \"->\", \"*\"].contains(&elem),","        take_till1(|c: char| matches!(c, '#' | '{' | '}') || c.is_whitespace()),\n        |elem: &str| !matches!(elem, \"ε\" | \"eps\" | \"→\" | \"->\" | \"*\"),")]),
("R34","C15",FA,[("    map(alt((tag(\"->\"), tag(\"→\"))), |_| ())(input)","    value((), alt((tag(\"→\"), tag(\"->\"))))(input)"),("    map(alt((tag(\"ε\"), tag(\"eps\"))), |_| ())(input)","    alt((value((), tag(\"eps\")), value((), tag(\"ε\"))))(input)")]),
("R35","C15",FA,[("    value((), pair(space0, opt(comment)))(input)","    let (rest, _) = space0(input)?;\n    let (rest, _) = opt(comment)(rest)?;\n    Ok((rest, ()))"),("    value((), pair(tag(\"#\"), not_line_ending))(input)","    value((), preceded(tag(\"#\"), not_line_ending))(input)")]),
("R36","C15",PM,[("    all_consuming(fa::full_nfa)(input)\n        .finish()\n        .map(|(_, nfa)| nfa)","    let (_, nfa) = all_consuming(fa::full_nfa)(input).finish()?;\n    Ok(nfa)")]),
("R37","C15",FA,[("        |(initial, accepting, name, transitions)| ParsedNfaState {\n            name,\n            initial: initial.is_some(),\n            accepting: accepting.is_some(),\n            transitions,\n        },","        |(arrow, star, name, transitions)| {\n            let initial = arrow.is_some();\n            let accepting = matches!(star, Some(()));\n            ParsedNfaState { name, initial, accepting, transitions }\n        },")]),
("R38","C15",FA,[("    map(\n        delimited(\n            many0(space_comment_line),\n            pair(\n                terminated(dfa_head, line_ending),\n                preceded(\n                    many0(space_comment_line),\n                    separated_list1(many1(space_comment_line), dfa_line),\n                ),\n            ),\n            many0(space_comment_line),\n        ),\n        |(head, states)| ParsedDfa { head, states },\n    )(input)",
  "    let (rest, _) = blank_lines(input)?;\n    let (rest, head) = terminated(dfa_head, line_ending)(rest)?;\n    let (rest, _) = blank_lines(rest)?;\n    let (rest, states) = separated_list1(many1(space_comment_line), dfa_line)(rest)?;\n    let (rest, _) = blank_lines(rest)?;\n    Ok((rest, ParsedDfa { head, states }))"),("fn dfa_head","fn blank_lines(input: &str) -> IResult<&str, Vec<()>> {\n    many0(space_comment_line)(input)\n}\n\nfn dfa_head")]),
("R39","C16",PR,[("    alternation(input)\n}\n\nfn alternation(input: &str) -> IResult<&str, RegexTree> {\n","")]),
("R40","C16",PR,[("    map(\n        many1(alt((par_expr, combinated_char))),\n        wrap_multiple(RegexTree::Sequence),\n    )(input)","    let (rest, parts) = many1(alt((combinated_char, par_expr)))(input)?;\n    Ok((rest, wrap_multiple(RegexTree::Sequence)(parts)))")]),
("R41","C16",PR,[("    match kleene {\n        Some('+') => RegexTree::Sequence(vec![\n            to_combine.clone(),\n            RegexTree::Repeat(Box::new(to_combine)),\n        ]),\n        Some('*') => RegexTree::Repeat(Box::new(to_combine)),\n        None => to_combine,\n        _ => unreachable!(\"Should only be +, * or none\"),\n    }","    let Some(op) = kleene else {\n        return to_combine;\n    };\n    if op == '*' {\n        return RegexTree::Repeat(Box::new(to_combine));\n    }\n    let first = to_combine.clone();\n    let rest = RegexTree::Repeat(Box::new(to_combine));\n    RegexTree::Sequence(vec![first, rest])")]),
("R42","C16",PR,[("    alt((empty_lang, empty_str, escaped_char, normal_char))(input)","    alt((normal_char, escaped_char, empty_str, empty_lang))(input)")]),
("R43","C16",PR,[("        if items.len() > 1 {\n            f(items)\n        } else {\n            items.remove(0)\n        }","        match items.len() {\n            1 => items.remove(0),\n            _ => f(items),\n        }")]),
("R44","C16",PR,[("    map(\n        map(regex_char, RegexTree::Char).and(opt(one_of(\"+*\"))),\n        apply_kleene,\n    )(input)","    let (rest, c) = regex_char(input)?;\n    let (rest, kleene) = opt(alt((complete::char('*'), complete::char('+'))))(rest)?;\n    Ok((rest, apply_kleene((RegexTree::Char(c), kleene))))")]),
("R45","C16",PR,[("    let mut indices = input.graphemes(true);\n    let Some(grapheme) = indices.next() else {\n        return fail(input);\n    };\n    let regex = RegexChar::Grapheme(Rc::from(grapheme));\n    Ok((&input[grapheme.len()..], regex))","    match input.graphemes(true).next() {\n        Some(cluster) => {\n            let (_, rest) = input.split_at(cluster.len());\n            Ok((rest, RegexChar::Grapheme(Rc::from(cluster))))\n        }\n        None => fail(input),\n    }")]),
("R46","C16",PR,[("    ['(', ')', '∅', 'ε', '|', '*', '+', '\\\\'].contains(&char)","    matches!(char, '*' | '+' | '|' | '\\\\' | '(' | ')' | 'ε' | '∅')")]),
("R47","C16",PM,[("    all_consuming(regex::full_regex)(input)","    let input = input.trim();\n    all_consuming(regex::full_regex)(input)")]),
("R48","C16",PR,[("        RegexChar::Grapheme(c) => !is_reserved_char(c.chars().next().unwrap_or_default()),\n        // Safety: mapped under one_char, it can only yield RegexChar::Char\n        _ => unsafe { unreachable_unchecked() },","        RegexChar::Grapheme(c) => match c.chars().next() {\n            Some(first) => !is_reserved_char(first),\n            None => true,\n        },\n        _ => unreachable!(),"),("use std::hint::unreachable_unchecked;\n","")]),
# broken
("B30","C15",FA,[("                opt(terminated(accepting, space1)),\n                terminated(state_name, space1),\n                separated_list1(space1, state_set)","                opt(terminated(accepting, space0)),\n                terminated(state_name, space1),\n                separated_list1(space1, state_set)")]),
("B31","C15",FA,[("                map(alphabet_elem, NfaAlphabetEntry::Element),\n                value(NfaAlphabetEntry::Eps, eps),","                value(NfaAlphabetEntry::Eps, eps),\n                map(alphabet_elem, NfaAlphabetEntry::Element),")]),
("B32","C15",FA,[("separated_list0(space1, state_name), space0)","separated_list1(space1, state_name), space0)")]),
("B33","C15",FA,[("delimited(space0, separated_list0(space1, state_name), space0)","terminated(separated_list0(space1, state_name), space0)")]),
("R49","C15",FA,[("                separated_list1(space1, state_name),\n            )),\n            space_comment,","                separated_list1(space1, state_name),\n            )),\n            space0,")]),
("B35","C15",FA,[("    map(alt((tag(\"->\"), tag(\"→\"))), |_| ())(input)","    map(tag(\"->\"), |_| ())(input)")]),
("B36","C15",FA,[("            many0(space_comment_line),\n        ),\n        |(head, states)| ParsedNfa","            opt(space_comment_line),\n        ),\n        |(head, states)| ParsedNfa")]),
("B37","C15",FA,[("c.is_whitespace() || \"#{}\".contains(c)","c.is_ascii_whitespace() || \"#{}\".contains(c)")]),
("B38","C15",FA,[("        |elem| ![\"ε\", \"eps\", \"→\", \"->\", \"*\"].contains(&elem),","        |elem| ![\"ε\", \"eps\", \"→\", \"->\"].contains(&elem),")]),
("B39","C15",FA,[("                preceded(\n                    many0(space_comment_line),\n                    separated_list1(many1(space_comment_line), dfa_line),\n                ),","                separated_list1(many1(space_comment_line), dfa_line),")]),
("B40","C15",FA,[("            initial: initial.is_some(),\n            accepting: accepting.is_some(),","            initial: accepting.is_some(),\n            accepting: initial.is_some(),")]),
("B41","C15",FA,[("separated_list1(many1(space_comment_line), dfa_line)","separated_list1(space_comment_line, dfa_line)")]),
("B42","C15",FA,[("alt((line_ending, eof))","line_ending")]),
("B43","C15",FA,[("            |consumed: &str| !consumed.is_empty(),","            |consumed: &str| consumed.len() > 1,")]),
("B44","C16",PR,[("opt(one_of(\"+*\"))),\n        apply_kleene,\n    )(input)\n}\n\nfn combinated","opt(one_of(\"*\"))),\n        apply_kleene,\n    )(input)\n}\n\nfn combinated")]),
("B45","C16",PR,[("input.trim()","input.trim_start()")]),
("B46","C16",PR,[("graphemes(true)","graphemes(false)")]),
("B47","C16",PR,[("    preceded(complete::char('\\\\'), one_cluster)(input)","    preceded(complete::char('\\\\'), normal_char)(input)")]),
("B48","C16",PR,[("'|', '*', '+', '\\\\'].contains(&char)","'|', '*', '+'].contains(&char)")]),
("B49","C16",PR,[("        if items.len() > 1 {","        if items.len() > 2 {")]),
("B50","C16",PR,[("            to_combine.clone(),\n            RegexTree::Repeat(Box::new(to_combine)),","            RegexTree::Repeat(Box::new(to_combine)),")]),
("B51","C16",PR,[("separated_list1(complete::char('|'), sequence)","separated_list1(complete::char('|'), combinated_char)")]),
("B52","C16",PR,[("alt((par_expr, combinated_char))","combinated_char")]),
("B53","C16",PR,[("value(RegexChar::Epsilon, complete::char('ε'))","value(RegexChar::Empty, complete::char('ε'))")]),
("B54","C16",PM,[("    all_consuming(regex::full_regex)(input)","    regex::full_regex(input)")]),
("B55","C16",PR,[("many1(alt((par_expr, combinated_char)))","many1(alt((combinated_char, par_expr, map(one_cluster, RegexTree::Char))))")]),
]
