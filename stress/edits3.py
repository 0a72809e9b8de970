WL="dandy-wasm/src/lib.rs"; CM="dandy-cli/src/main.rs"; CA="dandy-cli/src/automata.rs"; CE="dandy-cli/src/equivalence.rs"; CB="dandy-cli/src/binary_op.rs"; CN="dandy-cli/src/enumerate.rs"; CT="dandy-cli/src/test_files.rs"
EDITS += [
# ---- wasm, same behaviour
("R60","C17",WL,[("    REGEX_MAP\n        .with_borrow(|map| map.get(&regex).cloned())\n        .map(|regex| push_nfa(regex.to_nfa()))","    let stored = REGEX_MAP.with_borrow(|map| map.get(&regex).cloned())?;\n    let key = push_nfa(stored.to_nfa());\n    Some(key)")]),
("R61","C17",WL,[("map.get_mut(&dfa).map(|dfa| dfa.minimize()).is_some())","match map.get_mut(&dfa) {\n        Some(found) => {\n            found.minimize();\n            true\n        }\n        None => false,\n    })")]),
("R62","C17",WL,[("    DFA_MAP.with_borrow(|map| {\n        Option::zip(map.get(&dfa1), map.get(&dfa2)).map(|(dfa1, dfa2)| dfa1.equivalent_to(dfa2))\n    })","    DFA_MAP.with_borrow(|map| {\n        let a = map.get(&dfa1)?;\n        let b = map.get(&dfa2)?;\n        Some(a.equivalent_to(b))\n    })")]),
("R63","C17",WL,[("    DFA_MAP.with_borrow_mut(|map| map.remove(&dfa).is_some())","    DFA_MAP.with_borrow_mut(|map| {\n        if !map.contains_key(&dfa) {\n            return false;\n        }\n        map.remove(&dfa);\n        true\n    })")]),
("R64","C17",WL,[("    let dfa: Dfa = dandy::parser::dfa(input)\n        .map_err(|e| format!(\"Error parsing DFA: {e:?}\"))?\n        .try_into()\n        .map_err(|e: DfaParseError| e.to_string())?;\n    Ok(push_dfa(dfa))","    let parsed = match dandy::parser::dfa(input) {\n        Ok(p) => p,\n        Err(e) => return Err(format!(\"Error parsing DFA: {:?}\", e)),\n    };\n    let res: Result<Dfa, DfaParseError> = Dfa::try_from(parsed);\n    res.map(push_dfa).map_err(|e| format!(\"{e}\"))")]),
("R65","C17",WL,[("    KEYGEN.with_borrow_mut(|gen| gen.next().unwrap())","    KEYGEN.with(|cell| cell.borrow_mut().next().expect(\"keys\"))")]),
("R66","C17",WL,[("    let key = gen_key();\n    NFA_MAP.with_borrow_mut(|map| {\n        map.insert(key, nfa);\n    });\n    key","    let key = gen_key();\n    NFA_MAP.with(|m| m.borrow_mut().insert(key, nfa));\n    key")]),
("R67","C17",WL,[("    let dfa = DFA_MAP.with_borrow(|map| map.get(&dfa).cloned())?;\n    let nfa = dfa.to_nfa();\n    Some(push_nfa(nfa))","    let found = DFA_MAP.with_borrow(|map| map.get(&dfa).map(|d| d.clone().to_nfa()));\n    found.map(push_nfa)")]),
("R68","C17",WL,[("    NFA_MAP.with_borrow(|map| map.get(&nfa).map(Nfa::to_table))","    NFA_MAP.with_borrow(|map| {\n        if let Some(n) = map.get(&nfa) {\n            Some(n.to_table())\n        } else {\n            None\n        }\n    })")]),
# ---- wasm, broken
("B60","C17",WL,[("    let dfa = DFA_MAP.with_borrow(|map| map.get(&dfa).cloned())?;","    let dfa = DFA_MAP.with_borrow_mut(|map| map.remove(&dfa))?;")]),
("B61","C17",WL,[("RangeFrom<usize>> = RefCell::from(1usize..)","RangeFrom<usize>> = RefCell::from(0usize..)")]),
("B62","C17",WL,[("        Option::zip(map.get(&nfa1), map.get(&nfa2))","        Option::zip(map.get(&nfa1), map.get(&nfa1))")]),
("B63","C17",WL,[("    let key = gen_key();\n    DFA_MAP","    let key = DFA_MAP.with_borrow(|m| m.len()) + 1;\n    DFA_MAP")]),
("B64","C17",WL,[("    let nfa = NFA_MAP.with_borrow(|map| map.get(&nfa).cloned())?;\n    let dfa = nfa.to_dfa();\n    Some(push_dfa(dfa))","    let found = NFA_MAP.with_borrow(|map| map.get(&nfa).cloned())?;\n    let dfa = found.to_dfa();\n    delete_nfa(nfa);\n    Some(push_dfa(dfa))")]),
("B65","C17",WL,[("    let nfa: Nfa = dandy::parser::nfa(input)","    let key = gen_key();\n    let nfa: Nfa = dandy::parser::nfa(input)"),("        .map_err(|e: NfaParseError| e.to_string())?;\n    Ok(push_nfa(nfa))","        .map_err(|e: NfaParseError| e.to_string())?;\n    NFA_MAP.with_borrow_mut(|map| {\n        map.insert(key, nfa);\n    });\n    Ok(key)")]),
("B66","C17",WL,[("    DFA_MAP.with_borrow_mut(|map| map.remove(&dfa).is_some())","    DFA_MAP.with_borrow_mut(|map| map.remove(&dfa).is_none())")]),
("B67","C17",WL,[("map.get_mut(&dfa).map(|dfa| dfa.minimize()).is_some())","map.get(&dfa).cloned().map(|mut dfa| dfa.minimize()).is_some())")]),
("B68","C17",WL,[("    let dfa = nfa.to_dfa();\n","    let mut dfa = nfa.to_dfa();\n    dfa.minimize();\n")]),
# ---- equivalence command, same behaviour
("R70","C18",CE,[("        let res = if args.bool {\n            format!(\"{}\", result == EquivalenceResult::Equivalent)\n        } else {\n            result.to_string()\n        };","        let passed = result == EquivalenceResult::Equivalent;\n        let res = match args.bool {\n            true => passed.to_string(),\n            false => format!(\"{result}\"),\n        };"),("        if result == EquivalenceResult::Equivalent {\n            acc + 1","        if passed {\n            acc + 1")]),
("R71","C18",CE,[("    let successes = results.into_iter().fold(0usize, |acc, (path, result)| {","    let mut successes = 0;\n    for (path, result) in results {"),("        if result == EquivalenceResult::Equivalent {\n            acc + 1\n        } else {\n            acc\n        }\n    });","        if result == EquivalenceResult::Equivalent {\n            successes += 1;\n        }\n    }")]),
("R72","C18",CE,[("    let results = args\n        .files\n        .iter()\n        .map(|path| (path, tester.test_equivalence(path)))\n        .collect::<Vec<_>>();","    let mut results = Vec::with_capacity(args.files.len());\n    for path in &args.files {\n        let verdict = tester.test_equivalence(path);\n        results.push((path, verdict));\n    }")]),
("R73","C18",CE,[("        match fs::read_to_string(file) {\n            Err(e) => EquivalenceResult::FailedToRead(e.to_string()),\n            Ok(f) => match Automata::load_test(&f, self.test_type) {\n                Ok(automata) => self.input.test_equivalence(automata, self.minimized),\n                Err(res) => res,\n            },\n        }","        let text = match fs::read_to_string(file) {\n            Ok(text) => text,\n            Err(e) => return EquivalenceResult::FailedToRead(e.to_string()),\n        };\n        Automata::load_test(&text, self.test_type)\n            .map(|candidate| self.input.test_equivalence(candidate, self.minimized))\n            .unwrap_or_else(|failure| failure)")]),
("R74","C18",CE,[("        let minimized = if args.minimized {\n            if args.r#type == AutomataType::Dfa {\n                (input, _) = input.into_minimized_dfa_automata();\n                true\n            } else {\n                return Err(Error::InvalidMinimizedConfig);\n            }\n        } else {\n            false\n        };","        let minimized = args.minimized;\n        if minimized && args.r#type != AutomataType::Dfa {\n            return Err(Error::InvalidMinimizedConfig);\n        }\n        if minimized {\n            input = input.into_minimized_dfa_automata().0;\n        }")]),
("R75","C18",CA,[("        match (self.get_type(), other.get_type()) {\n            (T::Dfa, T::Dfa) => {\n                let dfa1 = self.borrow_dfa().unwrap();\n                let dfa2 = other.borrow_dfa().unwrap();\n                if dfa1.equivalent_to(dfa2) {\n                    if minimized && dfa1.states().len() != dfa2.states().len() {\n                        NotMinimized\n                    } else {\n                        Equivalent\n                    }\n                } else {\n                    NotEquivalent\n                }\n            }","        if let (Automata::Dfa(base), Automata::Dfa(candidate)) = (self, &other) {\n            if !base.equivalent_to(candidate) {\n                return NotEquivalent;\n            }\n            let same_size = base.states().len() == candidate.states().len();\n            return if same_size || !minimized { Equivalent } else { NotMinimized };\n        }\n        match (self.get_type(), other.get_type()) {")]),
("R76","C18",CA,[("                let (nfa2, _) = other.into_nfa();\n                if nfa1.equivalent_to(&nfa2) {\n                    Equivalent\n                } else {\n                    NotEquivalent\n                }","                match nfa1.equivalent_to(&other.into_nfa().0) {\n                    true => Equivalent,\n                    false => NotEquivalent,\n                }")]),
("R77","C18",CA,[("        let (mut dfa, converted) = self.into_dfa();\n        let prev_states = dfa.states().len();\n        dfa.minimize();\n        let new_states = dfa.states().len();\n        (dfa, converted || new_states != prev_states)","        let (mut dfa, converted) = self.into_dfa();\n        let before = dfa.states().len();\n        dfa.minimize();\n        let changed = before != dfa.states().len();\n        (dfa, changed || converted)")]),
("R78","C18",CM,[("    let Some(n) = n else {\n        return Some(path.display().to_string());\n    };\n    (n != 0).then(|| {","    let n = match n {\n        None => return Some(format!(\"{}\", path.display())),\n        Some(0) => return None,\n        Some(n) => n,\n    };\n    Some({"),("            .to_string()\n    })","            .to_string()\n    })")]),
("R79","C18",CE,[("        if let Some(prefix) = crate::last_n_components(path, args.path_length) {\n            output!(\"{prefix}: {res}\");\n        } else {\n            output!(\"{res}\");\n        }","        let line = match crate::last_n_components(path, args.path_length) {\n            Some(prefix) => format!(\"{prefix}: {res}\"),\n            None => res,\n        };\n        output(&line);")]),
("R80","C18",CE,[("            AutomataType::Regex => {\n                let regex = parser::regex(file).map_err(Error::RegexParse)?;\n                let nfa = regex.to_nfa();\n                let dfa = nfa.to_dfa(); // To reduce states, regex->nfa can produce MANY states\n                Automata::Dfa(dfa)\n            }","            AutomataType::Regex => Self::regex_base(file)?,"),("    fn test_equivalence(&self, file: &Path)","    fn regex_base(file: &str) -> Result<Automata, Error<'_>> {\n        parser::regex(file)\n            .map(|regex| Automata::Dfa(regex.to_nfa().to_dfa()))\n            .map_err(Error::RegexParse)\n    }\n\n    fn test_equivalence(&self, file: &Path)")]),
# ---- equivalence command, broken
("B70","C18",CA,[("minimized && dfa1.states().len() != dfa2.states().len()","minimized && dfa1.states().len() + 1 < dfa2.states().len()")]),
("B71","C18",CE,[("format!(\"{}\", result == EquivalenceResult::Equivalent)","format!(\"{}\", matches!(result, EquivalenceResult::Equivalent | EquivalenceResult::NotMinimized))")]),
("B72","C18",CE,[("args.in_type.unwrap_or(args.r#type)","args.r#type")]),
("B73","C18",CE,[("        .map(|path| (path, tester.test_equivalence(path)))\n","        .map(|path| (path, tester.test_equivalence(path)))\n        .take_while(|(_, r)| !matches!(r, EquivalenceResult::FailedToRead(_)))\n")]),
("B74","C18",CM,[(".rev().take(n).collect::<Vec<_>>()",".rev().take(n + 1).collect::<Vec<_>>()")]),
("B75","C18",CA,[("                let (dfa2, _) = other.into_dfa();\n                if dfa1.equivalent_to(&dfa2) {\n                    Equivalent\n                } else {\n                    NotEquivalent\n                }\n            }\n            (T::Nfa, _)","                let (dfa2, _) = other.into_minimized_dfa();\n                if dfa1 == &dfa2 {\n                    Equivalent\n                } else {\n                    NotEquivalent\n                }\n            }\n            (T::Nfa, _)")]),
("B76","C18",CE,[("            acc + 1\n        } else {\n            acc","            acc + 1\n        } else if args.bool {\n            acc + 1\n        } else {\n            acc")]),
("B77","C18",CE,[("        (input, _) = input.prepare_to_compare_with(args.r#type);","        (input, _) = input.prepare_to_compare_with(args.in_type.unwrap_or(args.r#type));")]),
("B78","C18",CE,[("        if !main_args.no_log {","        if !main_args.no_log || s.contains(\"passed\") {")]),
# ---- other commands, same behaviour
("R90","C19",CB,[("    let combined = match op {\n        BinaryOperation::Union => dfa1.union(&dfa2),\n        BinaryOperation::Intersection => dfa1.intersection(&dfa2),\n        BinaryOperation::Difference => dfa1.difference(&dfa2),\n        BinaryOperation::SymmetricDifference => dfa1.symmetric_difference(&dfa2),\n    };\n\n    let Some(mut combined) = combined else {\n        return Err(Error::DifferentAlphabets.to_string());\n    };","    let mut combined = combine(op, &dfa1, &dfa2).ok_or_else(|| Error::DifferentAlphabets.to_string())?;"),("#[derive(Debug, Error)]","fn combine(op: BinaryOperation, a: &dandy::dfa::Dfa, b: &dandy::dfa::Dfa) -> Option<dandy::dfa::Dfa> {\n    match op {\n        BinaryOperation::SymmetricDifference => a.symmetric_difference(b),\n        BinaryOperation::Difference => a.difference(b),\n        BinaryOperation::Intersection => a.intersection(b),\n        BinaryOperation::Union => a.union(b),\n    }\n}\n\n#[derive(Debug, Error)]")]),
("R91","C19",CB,[("        output!(\"{}\", combined.to_table());\n    } else {","    } else {"),("        output!(\"{}\", combined.to_table());\n    }\n\n    if let","    }\n    output!(\"{}\", combined.to_table());\n\n    if let")]),
("R92","C19",CB,[("        let mut x = 0;\n        combined.clone().to_nfa().words().take(n).for_each(|word| {\n            if word.is_empty() {\n                output!(\"(empty word)\");\n            } else {\n                output!(\"{word}\");\n            }\n            x += 1;\n        });","        let mut x = 0;\n        let nfa = combined.clone().to_nfa();\n        for word in nfa.words().take(n) {\n            x += 1;\n            output!(\"{}\", if word.is_empty() { \"(empty word)\" } else { word.as_str() });\n        }")]),
("R93","C19",CT,[("                n += 1;\n                let accepted = nfa.accepts_graphemes(line);\n                let ok = if accepted {\n                    a += 1;\n                    \"[ OK ]\"\n                } else {\n                    \"[FAIL]\"\n                };\n                output!(\"{ok} {line}\");","                let mut mark = \"[FAIL]\";\n                if nfa.accepts_graphemes(line) {\n                    mark = \"[ OK ]\";\n                    a += 1;\n                }\n                output!(\"{} {}\", mark, line);\n                n += 1;")]),
("R94","C19",CT,[("            match counterexample {\n                None => {\n                    output!(\"[ OK ] {}\", file.display())\n                }\n                Some(c) => {\n                    output!(\"[FAIL] {} failed on {c}\", file.display())\n                }\n            }","            if let Some(bad) = counterexample {\n                output!(\"[FAIL] {} failed on {bad}\", file.display());\n            } else {\n                output!(\"[ OK ] {}\", file.display());\n            }")]),
("R95","C19",CN,[("    nfa.words().take(n).for_each(|word| {\n        if word.is_empty() {\n            output!(\"(empty word)\");\n        } else {\n            output!(\"{word}\");\n        }\n        x += 1;\n    });","    for word in nfa.words().take(n) {\n        match word.is_empty() {\n            true => output!(\"(empty word)\"),\n            false => output!(\"{word}\"),\n        }\n        x += 1;\n    }")]),
("R96","C19",CN,[("    let regex = parser::regex(&args.regex).map_err(|e| e.to_string())?;\n    let nfa = regex.to_nfa();\n    enumerate_nfa(nfa, main_args, args.amount, output);\n    Ok(())","    match parser::regex(&args.regex) {\n        Ok(regex) => {\n            enumerate_nfa(regex.to_nfa(), main_args, args.amount, output);\n            Ok(())\n        }\n        Err(e) => Err(e.to_string()),\n    }")]),
("R97","C19",CA,[("        let file = fs::read_to_string(path).map_err(|e| Error::File(path, e).to_string());\n        file.and_then(|f| Self::load(&f, r#type).map_err(|e| e.to_string()))","        let text = fs::read_to_string(path).map_err(|e| Error::File(path, e).to_string())?;\n        match Self::load(&text, r#type) {\n            Ok(loaded) => Ok(loaded),\n            Err(e) => Err(e.to_string()),\n        }")]),
("R98","C19",CA,[("            AutomataType::Nfa => {\n                let nfa: Nfa = parser::nfa(file)\n                    .map_err(Error::NfaParse)?\n                    .try_into()\n                    .map_err(Error::NfaCompile)?;\n                Ok(Self::Nfa(nfa))\n            }\n            AutomataType::Regex => parser::regex(file)\n                .map(Self::Regex)\n                .map_err(Error::RegexParse),","            AutomataType::Nfa => {\n                let parsed = parser::nfa(file).map_err(Error::NfaParse)?;\n                Nfa::try_from(parsed).map(Self::Nfa).map_err(Error::NfaCompile)\n            }\n            AutomataType::Regex => Ok(Self::Regex(parser::regex(file).map_err(Error::RegexParse)?)),")]),
("R99","C19",CT,[("            let counterexample = loaded_file\n                .lines()\n                .find(|line| !nfa.accepts_graphemes(line));","            let mut counterexample = None;\n            for line in loaded_file.lines() {\n                if !nfa.accepts_graphemes(line) {\n                    counterexample = Some(line);\n                    break;\n                }\n            }")]),
# ---- other commands, broken
("B90","C19",CB,[("BinaryOperation::Difference => dfa1.difference(&dfa2)","BinaryOperation::Difference => dfa2.difference(&dfa1)")]),
("B91","C19",CB,[("args.second_type.unwrap_or(args.r#type)","args.r#type")]),
("B92","C19",CB,[("            _ => \"NOT EQUIVALENT\"","            EquivalenceResult::NotMinimized => \"EQUIVALENT\",\n            _ if args.minimized => \"EQUIVALENT\",\n            _ => \"NOT EQUIVALENT\"")]),
("B93","C19",CB,[("        if x != n {","        if x + 1 < n {")]),
("B94","C19",CT,[("            for line in loaded_file.lines() {","            for line in loaded_file.lines().map(str::trim) {")]),
("B95","C19",CT,[("                .find(|line| !nfa.accepts_graphemes(line));","                .filter(|line| !line.is_empty())\n                .find(|line| !nfa.accepts_graphemes(line));")]),
("B96","C19",CN,[("    nfa.remove_epsilon_moves();\n","    if nfa.has_epsilon_moves() {\n        nfa.optimize();\n        nfa.remove_epsilon_moves();\n    }\n    let n = n.min(1000);\n")]),
("B97","C19",CT,[("        let loaded_file = fs::read_to_string(file).map_err(|e| e.to_string())?;","        let Ok(loaded_file) = fs::read_to_string(file) else {\n            continue;\n        };")]),
("B98","C19",CB,[("    } else if args.minimized {\n        dfa2.minimize();","    } else if args.minimized {\n        dfa1.minimize();")]),
# ---- dispatch, same behaviour
("R100","C20",CM,[("        println!(\"{s}\");\n        if let Some(f) = out_file.as_mut() {\n            writeln!(f, \"{s}\").unwrap();\n        };","        if let Some(f) = &mut out_file {\n            writeln!(f, \"{}\", s).unwrap();\n        }\n        println!(\"{}\", s);")]),
("R101","C20",CM,[("        | Operation::SymmetricDifference(bin_args) => {\n            let operation = args.command.binary_operation().unwrap();\n            binary_op::binary_op(&args, bin_args, operation, &mut sink)\n                .map_err(|e| Error::Binary(operation, e))\n        }","        | Operation::SymmetricDifference(bin_args) => {\n            let Some(operation) = args.command.binary_operation() else {\n                unreachable!()\n            };\n            match binary_op::binary_op(&args, bin_args, operation, &mut sink) {\n                Ok(()) => Ok(()),\n                Err(e) => Err(Error::Binary(operation, e)),\n            }\n        }")]),
("R102","C20",CM,[("    let mut out_file = args\n        .out_file\n        .as_ref()\n        .and_then(|path| match File::create(path) {\n            Ok(f) => Some(f),\n            Err(e) => {\n                eprintln!(\"Error creating output file {e}\");\n                eprintln!(\"Execution will continue but no data will be written to file\");\n                None\n            }\n        });","    let mut out_file = None;\n    if let Some(path) = &args.out_file {\n        match File::create(path) {\n            Err(e) => {\n                eprintln!(\"Error creating output file {e}\\nExecution will continue but no data will be written to file\");\n            }\n            Ok(f) => out_file = Some(f),\n        }\n    }")]),
# ---- dispatch, broken
("B100","C20",CM,[("        println!(\"{s}\");\n        if let Some(f) = out_file.as_mut() {\n            writeln!(f, \"{s}\").unwrap();\n        };","        if let Some(f) = out_file.as_mut() {\n            writeln!(f, \"{s}\").unwrap();\n        } else {\n            println!(\"{s}\");\n        }")]),
("B101","C20",CM,[("        eprintln!(\"{e}\");\n    }\n}","        println!(\"{e}\");\n    }\n}")]),
("B102","C20",CM,[("            Operation::Difference(_) => Some(Difference),\n            Operation::SymmetricDifference(_) => Some(SymmetricDifference),","            Operation::Difference(_) | Operation::SymmetricDifference(_) => Some(Difference),")]),
("B103","C20",CM,[("writeln!(f, \"{s}\").unwrap();","writeln!(f, \"{}\", s.trim_end()).unwrap();")]),
]
