SUM = ("static analysis: path-complete value-flow summaries of the type-checked program (THIR) with loop and fixed-point closed forms, "
       "canonicalised and compared with the summary of a reference definition")
NOTE = ("Sound up to the documented models of std/itertools calls and the canonicaliser's rewrite laws; nothing is executed. "
        "A construct that cannot be summarised is reported as undecided (quiet), and nothing is undecided on the current tree.")
GRAM = ("static analysis: the grammar is read off the combinator terms in the value-flow summaries of the parser functions (helpers inlined, recursion tied), "
        "normalised, and compared with a reference grammar; sets of characters are compared by cases over a universe of characters")
GNOTE = ("Sound up to the documented meaning of nom's combinators; nothing is parsed. A parser that cannot be read as a grammar is reported as "
         "undecided (quiet), and nothing is undecided on the current tree.")
DFA = ["dandy/src/dfa/mod.rs", "dandy/src/dfa/eval.rs"]
NFA = ["dandy/src/nfa/mod.rs", "dandy/src/nfa/eval.rs"]
PROPERTIES = [
 dict(id="C01", title="A DFA run follows the transition table; unknown symbols reject for good",
  statement="""For every DFA and word, a run starts in the initial state, each known symbol moves it to the successor listed in
  that symbol's alphabet column, and the word is accepted exactly when the run ends in an accepting state and every symbol was in the
  alphabet. Once a run has met a symbol outside the alphabet it reports no current state, never accepts again and stays that way
  whatever follows. Stepping one symbol, several symbols, or all possible symbols, and asking for acceptance of a text split into
  grapheme clusters, all agree with this.""",
  all="all DFAs, all words over any strings, all interleavings of single and multiple steps",
  tests="Tests run a handful of words on hand-written automata; unknown symbols followed by further (or no) symbols are never tried.",
  files=DFA, mech=[("evaluator steps", "dandy/src/dfa/eval.rs"), ("accepts / accepts_graphemes", "dandy/src/dfa/mod.rs")],
  technique=SUM, note=NOTE),
 dict(id="C02", title="An NFA run is the closed set of reachable states; unknown symbols empty it",
  statement="""For every NFA and word, the set of current states is at every moment exactly the epsilon-closed set of states reachable
  from the initial state by reading the symbols so far, and the word is accepted exactly when that set contains an accepting state.
  Once a run has met a symbol outside the alphabet every further step reports failure and it never
  accepts again. The epsilon closure of a state contains exactly that state and everything
  reachable by epsilon moves, including on cyclic epsilon graphs, where it must terminate.""",
  all="all NFAs including cyclic epsilon graphs, all words, all interleavings of single and multiple steps",
  tests="Tests use a few small automata with few epsilon moves and known symbols only.",
  files=NFA, mech=[("evaluator steps and closure", "dandy/src/nfa/eval.rs"), ("closure, accepts", "dandy/src/nfa/mod.rs")],
  technique=SUM, note=NOTE),
 dict(id="C03", title="DFA product and complement operations compute the right language",
  statement="""For any two DFAs over the same set of symbols (whatever their column order), union, intersection, difference and
  symmetric difference yield a well-formed DFA that accepts exactly the words whose membership in the operands satisfies the Boolean
  combination. For operands over different symbol sets the operations yield nothing. Inverting a DFA flips acceptance of every state
  and changes nothing else.""",
  all="all pairs of DFAs, including differently ordered or different alphabets",
  tests="Tests compare a few fixed automata; column order, unreachable pairs and mismatched alphabets are sampled once or never.",
  files=DFA, mech=[("product construction", "dandy/src/dfa/mod.rs"), ("invert", "dandy/src/dfa/mod.rs")], technique=SUM, note=NOTE),
 dict(id="C04", title="NFA union and intersection compute the right language",
  statement="""For any two NFAs over the same set of symbols (whatever their column order), union and intersection yield a
  well-formed NFA with exactly one initial state, whose indices are all in range and whose moves are those of the disjoint union with
  a fresh start state, respectively of the product in which epsilon moves advance one side at a time. For operands over different
  symbol sets they yield nothing.""",
  all="all pairs of NFAs with or without epsilon moves, including differently ordered or different alphabets",
  tests="Tests check a couple of automata with identical column order.",
  files=NFA, mech=[("union", "dandy/src/nfa/mod.rs"), ("product construction", "dandy/src/nfa/mod.rs")], technique=SUM, note=NOTE),
 dict(id="C05", title="Equivalence verdicts are exact for DFAs and NFAs",
  statement="""Two automata are reported equivalent exactly when their symbol sets are equal and no pair of configurations reached
  by a common word disagrees on acceptance. Every symbol is explored from every newly met pair, starting with the pair of initial
  configurations, and the verdict does not depend on column order, state order or hash order.""",
  all="all pairs of DFAs and of NFAs",
  tests="Random tests compare automata that are nearly always equivalent or differ on very short words.",
  files=DFA + NFA + ["dandy/src/util.rs"], mech=[("equivalent_to", "dandy/src/dfa/mod.rs"), ("equivalent_to", "dandy/src/nfa/mod.rs"), ("alphabet_equal", "dandy/src/util.rs")],
  technique=SUM, note=NOTE),
 dict(id="C06", title="Converting between NFA and DFA keeps the language",
  statement="""Determinising an NFA gives the subset construction from the closed initial set: one state per reachable subset, one
  successor per alphabet column, accepting exactly when the subset contains an accepting state, initial exactly for the start.
  Turning a DFA into an NFA gives, for every state, the same name, flags and single successor per symbol, and no epsilon move.""",
  all="all NFAs and DFAs",
  tests="Round trips are only tested for a few automata and short words.",
  files=DFA + NFA, mech=[("to_dfa", "dandy/src/nfa/mod.rs"), ("to_nfa", "dandy/src/dfa/mod.rs")], technique=SUM, note=NOTE),
 dict(id="C07", title="Reachability queries are exact",
  statement="""The reachable states of a DFA or NFA are exactly those reachable from the initial state along any symbol or epsilon
  moves, the unreachable ones are exactly the rest, each listed once, and the question whether an accepting state is reachable is
  answered accordingly.""",
  all="all DFAs and NFAs, including cycles, epsilon-only paths and unreachable parts",
  tests="Tests contain only a few automata with unreachable states and none with epsilon-only paths.",
  files=DFA + NFA, mech=[("reachable_state_idx and friends", "dandy/src/dfa/mod.rs"), ("reachable_state_idx and friends", "dandy/src/nfa/mod.rs")],
  technique=SUM, note=NOTE),
 dict(id="C08", title="A parsed DFA table is accepted exactly when it is well-formed",
  statement="""A parsed table becomes a DFA exactly when its symbols are distinct, no state name occurs twice, exactly one state is
  marked initial, every row has one successor per symbol and every successor names a state of the table.
  The resulting automaton has the same symbols in the same order and the same states in the same order, with the same names, flags
  and successors.""",
  all="all parsed tables",
  tests="Tests try one malformed table per error kind at most.",
  files=["dandy/src/dfa/parse.rs"], mech=[("conversion from the parsed table", "dandy/src/dfa/parse.rs")], technique=SUM, note=NOTE),
 dict(id="C09", title="A parsed NFA table is accepted exactly when it is well-formed",
  statement="""A parsed table becomes an NFA exactly when its symbols are distinct, no state name occurs twice, exactly one state is
  marked initial, every row has one set of successors per symbol column and every successor names a state of the table. If the table
  has a column of epsilon moves, that column (wherever it stands) gives the epsilon moves and the others the moves on symbols. The
  resulting automaton has the same symbols in the same order and the same states in the same order, with the same names, flags and
  moves; an error is reported only for a problem the table really has.""",
  all="all parsed tables",
  tests="Tests try one malformed table per error kind at most.",
  files=["dandy/src/nfa/parse.rs"], mech=[("conversion from the parsed table", "dandy/src/nfa/parse.rs")], technique=SUM, note=NOTE),
 dict(id="C10", title="Trimming removes exactly the unreachable states and keeps the language",
  statement="""Removing the unreachable states of a DFA or NFA leaves exactly the states reachable from the initial state, in their
  former order, with names and flags unchanged and with every transition, epsilon move and the initial index renumbered to the same
  state as before. The alphabet is unchanged, so the language is too.""",
  all="all well-formed DFAs and NFAs",
  tests="Tests trim a few small automata where the dropped states come last or are few.",
  files=DFA + NFA, mech=[("remove_unreachable_states", "dandy/src/dfa/mod.rs"), ("remove_unreachable_states", "dandy/src/nfa/mod.rs")],
  technique=SUM, note=NOTE),
 dict(id="C11", title="Removing epsilon moves keeps the language",
  statement="""Removing epsilon moves leaves an NFA without any and with the same language: every move on a symbol now leads to
  the epsilon closures of its former targets, a start whose closure holds further useful states is replaced by a fresh sole initial
  state with their combined moves and acceptance, and only states from which no accepting state can be reached are dropped, with all
  remaining moves and the initial index renumbered to the same states as before. Optimising trims the unreachable states and then
  removes the epsilon moves.""",
  all="all well-formed NFAs, including epsilon cycles",
  tests="Tests run this on a few automata without epsilon cycles and compare a few short words.",
  files=NFA, mech=[("remove_epsilon_moves", "dandy/src/nfa/mod.rs")], technique=SUM, note=NOTE),
 dict(id="C12", title="The automaton of a regular expression has exactly its language",
  statement="""The automaton built from a regular expression is, for every expression tree, the one its operators define: a character
  or the empty word gives one move between two states, the empty language none, a sequence chains its parts, an alternation offers
  every branch between the same two states, and repetition adds exactly the moves that skip or repeat it. Its alphabet holds every
  character of the expression exactly once, one state is initial and one accepting, and every index is in range. It therefore accepts
  exactly the words the expression denotes.""",
  all="all regular expressions, whatever their nesting",
  tests="Tests convert a few expressions and compare a few words.",
  files=["dandy/src/regex/mod.rs"], mech=[("tree_to_nfa and to_nfa", "dandy/src/regex/mod.rs")], technique=SUM, note=NOTE),
 dict(id="C13", title="The text of a regular expression denotes the same expression",
  statement="""Printing a regular expression writes every character as itself, escaping each that starts with a reserved character,
  writes the empty word and the empty language with their own symbols, puts a bar between all alternatives and nothing between the
  parts of a sequence, parenthesises every alternation and the body of every repetition, and marks each repetition with a star, so
  that the text read back denotes the same language.""",
  all="all regular expressions, including characters that are reserved or made of several code points",
  tests="Tests print a few expressions without reserved characters.",
  files=["dandy/src/regex/mod.rs"], mech=[("build_string", "dandy/src/regex/mod.rs")], technique=SUM, note=NOTE),
 dict(id="C14", title="A printed table lists the whole automaton, in the layout the parser reads",
  statement="""The table printed for a DFA or NFA has a heading with every symbol in order (for an NFA after an epsilon
  column), then one row per state in order with its initial and accepting marks, its name and, column by column, the name of
  the successor or the set of successor names. All cells but the last of a row are padded to the widest cell of their column,
  none is ever cut, and no state, symbol or successor is lost, repeated or moved to another column.""",
  all="all DFAs and NFAs, whatever their names and symbols",
  tests="Tests print a few automata with short ASCII names.",
  files=["dandy/src/table/mod.rs"] + DFA + NFA, mech=[("Table", "dandy/src/table/mod.rs"), ("gen_table", "dandy/src/dfa/mod.rs"), ("gen_table", "dandy/src/nfa/mod.rs")],
  technique=SUM, note=NOTE),
 dict(id="C15", title="The table parser accepts exactly the documented format and keeps what it says",
  statement="""A text is read as a DFA or NFA table exactly when it consists of a heading line of symbols (for an NFA also ε or eps) and
  at least one line per state: an optional arrow, an optional star, a name and at least one entry, separated by blanks. Entries are
  names or, for an NFA, names in braces. Names and symbols are runs of characters other than white space, # and braces, and are none
  of the reserved words. Blank lines, lines of comments and comments at line ends are allowed everywhere around and between these
  lines and nowhere change the result. Symbols, states and entries are returned in the order they are written, with the marks that
  were written.""",
  all="all texts", tests="Tests parse a few tables; comments, blank lines, marks and reserved words in odd places are sampled once or never.",
  files=["dandy/src/parser/fa.rs", "dandy/src/parser/mod.rs"], mech=[("full_dfa and full_nfa", "dandy/src/parser/fa.rs"), ("dfa and nfa", "dandy/src/parser/mod.rs")],
  technique=GRAM, note=GNOTE),
 dict(id="C16", title="The regex parser gives every text its documented meaning",
  statement="""A text, without white space at its ends, is read as a regular expression exactly when it is derived by the documented
  grammar: alternatives of sequences of characters or parenthesised expressions, each with at most one + or *. A bar binds weakest,
  then sequence, then repetition. A plus means once and then any number of times. ε and ∅ mean the empty word and the empty language,
  a backslash makes the next grapheme cluster a plain character, and any other cluster stands for itself unless it starts with a
  reserved character. The tree has the parts in the order they are written.""",
  all="all texts", tests="Tests parse a few expressions without escapes, nesting errors or clusters of several code points.",
  files=["dandy/src/parser/regex.rs", "dandy/src/parser/mod.rs"], mech=[("full_regex", "dandy/src/parser/regex.rs"), ("regex", "dandy/src/parser/mod.rs")],
  technique=GRAM, note=GNOTE),
]
EFF = ("static analysis: path-complete value-and-effect summaries of the type-checked program (THIR) - results, streams, output callback, output file and "
       "thread-local state - canonicalised and compared with the summary of a reference definition")
ENOTE = ("Sound up to the documented models of std calls and the canonicaliser's rewrite laws; the library's functions are left as they are, having "
         "properties of their own. Nothing is executed. A function that cannot be summarised, or that calls something whose effects are unknown, "
         "is reported as undecided (quiet), and nothing is undecided on the current tree.")
CLI = "dandy-cli/src/"
PROPERTIES += [
 dict(id="C17", title="Handles of the wasm bindings are fresh, stable and independent",
  statement="""Every successful load or conversion through the wasm bindings stores its result under a key that was never handed out before and
  returns that key; keys start at 1. Input that does not parse or validate is refused with the parser's or validator's message,
  and then nothing is stored and no key is used up. Converting, comparing and printing leave every stored automaton as it is and give what the
  library gives for the automaton stored under that key. Minimising replaces exactly the DFA under its key, deleting removes
  exactly the entry under its key and tells whether there was one. Asking for a key that is not loaded gives nothing (or false) and
  changes nothing.""",
  all="all sequences of calls of the bindings with any keys and any texts", over=["inputs", "histories"],
  tests="The bindings have no tests at all.",
  files=["dandy-wasm/src/lib.rs"], mech=[("every exported function but the drawing ones, and the thread-local tables", "dandy-wasm/src/lib.rs")],
  technique=EFF, note=ENOTE),
 dict(id="C18", title="The equivalence command reports the right verdict for every file",
  statement="""The equivalence command reads the base automaton as the input type (by default the tested type), minimises it when asked (an
  error unless DFAs are tested) and reports, for every candidate file in order, one line: that it cannot be read, parsed or
  validated (with the reason), that it is not equivalent, that it is equivalent but not minimised (only when that was asked and the state counts
  differ), or that it is equivalent. With the bool option the line says true exactly for the last verdict and false otherwise.
  The line is prefixed with the path, or with as many of its last components as asked (none for 0). One bad candidate never
  stops the others. Progress goes to the standard output only, unless silenced, and ends with the number of files that passed.""",
  all="all automata, files, file contents and options",
  tests="Tests run the command on a fixed directory of files with default options.",
  files=[CLI + "equivalence.rs", CLI + "automata.rs", CLI + "main.rs"],
  mech=[("equivalence, DandyTester", CLI + "equivalence.rs"), ("Automata", CLI + "automata.rs"), ("last_n_components", CLI + "main.rs")], technique=EFF, note=ENOTE),
 dict(id="C19", title="Set operation, enumeration and test commands report what they compute",
  statement="""The set operation commands load both operands with their own types, convert what is not a DFA, apply exactly the named
  operation in the order given, minimise inputs and result when asked, and report the table of the result; asked to enumerate they report the
  first n words of the result, fewer only with a line saying how many exist, and asked to compare they say whether the result is equivalent to the
  third automaton. Different alphabets are an error. The enumeration commands report the first n words of the regular expression or
  file, the empty word by name. The test command reports for every line of every file, in order, whether the automaton
  accepts it, and the number that passed, or for whole files whether all lines pass, else the first line that fails. The first
  problem with a file ends the command with its message.""",
  all="all automata, files, file contents and options",
  tests="Tests run a few fixed files; enumeration, comparison and the test command are not covered.",
  files=[CLI + "binary_op.rs", CLI + "enumerate.rs", CLI + "test_files.rs", CLI + "automata.rs"],
  mech=[("binary_op", CLI + "binary_op.rs"), ("enumerate_*", CLI + "enumerate.rs"), ("test_files", CLI + "test_files.rs"), ("load and conversions", CLI + "automata.rs")],
  technique=EFF, note=ENOTE),
 dict(id="C20", title="Every result line reaches the standard output and the output file",
  statement="""The command line tool runs exactly the command it was given with its own arguments. Every result line of the command is written,
  in order and with its own line end, to the standard output and, if an output file was asked for and could be created, to that file; if it cannot be created the
  standard error says so and the command still runs. An error of the command is reported on the standard error, labelled with the command,
  and nowhere else.""",
  all="all parsed command lines and all results of the commands",
  tests="Tests never use an output file and never look at the standard error.",
  files=[CLI + "main.rs"], mech=[("main, BinaryOperation", CLI + "main.rs")], technique=EFF, note=ENOTE),
 dict(id="C21", title="Minimising a DFA merges exactly the indistinguishable states",
  statement="""The equivalence classes of a DFA's states partition its states: two states are in one class exactly when no word tells them
  apart by acceptance. Minimising removes the unreachable states and keeps exactly one state of each class, with its name and acceptance; every
  transition and the initial state go to the kept state of the class they led to, and exactly the initial state is marked initial, so the
  language stays the same and no two states of the result are indistinguishable.""",
  all="all DFAs",
  tests="Tests minimise a few fixed and random automata and compare the language or the number of states.",
  files=DFA[:1], mech=[("state_equivalence_classes_idx (Hopcroft)", "dandy/src/dfa/mod.rs"), ("merge_nondistinguishable_states, remap_transitions, remove_states", "dandy/src/dfa/mod.rs")],
  technique=("static analysis: obligations of partition refinement (initial blocks, splitting criterion, worklist invariant) decided on the value-flow summary of the loop; "
             "gated value-flow summaries of merging compared with a reference up to the choice of class representatives"), note=NOTE),
 dict(id="C22", title="Enumerating the words of an NFA gives every accepted word once, shortest first",
  statement="""For an NFA without epsilon moves, the word iterators give exactly the accepted words as sequences of alphabet elements, each sequence
  once, shorter ones first and those of one length in the order of the alphabet. They end when no accepted word is left, and stay ended. The three kinds of
  iterators (text, elements, element indices) give the same words in the same order. (NFAs with epsilon moves are refused by a panic.)""",
  all="all NFAs without epsilon moves, and any number of words asked for",
  tests="Tests compare the first few words of a handful of automata.",
  files=["dandy/src/nfa/words.rs"], mech=[("WordComponentIndices: put_next, next_word, min_word and the reachability matrices", "dandy/src/nfa/words.rs"), ("Words, WordComponents", "dandy/src/nfa/words.rs")],
  technique=SUM if "SUM" in globals() else "", note=NOTE),
 dict(id="C23", title="States of constructed automata have distinct names",
  statement="""No two states of an automaton the library constructs share a name, provided no two states of one operand do; so its table
  can be parsed again. The states of a DFA or NFA product are called "(p,q)" after the pair they stand for ("none" for a side that is lost); if that
  gave two of them the same name, all are numbered with different numbers instead. The union of NFAs keeps the names of both operands if all are
  different and otherwise numbers all these states from 1; its new initial state is called s_new, or if another state is, by the least number
  (from 0) that is no state's name. Removing epsilon moves keeps the names of the states that stay; a new initial state takes the name of
  the old one if that is gone and otherwise a fresh name as in a union. Determinisation numbers the states, the initial one 0; the states of
  the automaton of a regular expression are called by their index. Conversion to an NFA and removal of unreachable states keep names.""",
  all="all automata (with any names) and all regular expressions",
  tests="Tests look at names of a few small results only, never at operands with names that collide with each other or with the generated ones.",
  files=[DFA[0], "dandy/src/nfa/mod.rs", "dandy/src/regex/mod.rs"],
  mech=[("product_construction (names)", DFA[0]), ("product_construction (names), union, fresh_name, remove_epsilon_moves, to_dfa", "dandy/src/nfa/mod.rs"),
        ("tree_to_nfa (names)", "dandy/src/regex/mod.rs")],
  technique=SUM if "SUM" in globals() else "", note=NOTE),
 dict(id="C24", title="A drawing shows the automaton",
  statement="""Drawing a DFA or NFA tells the surface, between one start and one finish: for every state, in order, a circle with the state's name in
  its centre, a second circle iff the state is accepting, and a marker arrow below it iff it is initial; and for every pair of ends joined by a
  transition (per direction, a self loop being its own) exactly one arrow, labelled with all its symbols and epsilon where a move is
  epsilon, joined by commas: a DFA has an arrow for each state and symbol, an NFA for each state, symbol and successor and for each epsilon move. The
  arrow leads from the one state's column to the other's, with its arrowheads by direction and as the options ask, in the colours of the options. Arrows on one level at most touch, and none on the level of a self loop starts at its state; no arrow is lost or placed
  twice. Every point is moved by the offset of the options and then scaled, radii are scaled horizontally. Without options, the defaults are used.""",
  all="all automata, all options (distances as real numbers, without rounding) and all surfaces",
  tests="No test looks at a drawing; the two that draw only print ASCII art.",
  files=["dandy-draw/src/lib.rs", "dandy-draw/src/pos2.rs"],
  mech=[("dfa_to_arrows, nfa_to_arrows, group_arrows, place_arrows, draw", "dandy-draw/src/lib.rs"), ("Pos2", "dandy-draw/src/pos2.rs")],
  technique=EFF, note=NOTE),
]
NOT_APPLICABLE = [
 dict(id="C25", title="A printed table or expression is read back as the same thing",
  statement="""For every automaton whose symbols and names the table syntax can express, parsing its printed table and validating the
  result gives the same automaton; for every regular expression, parsing its printed text gives an expression of the same language.""",
  all="all such automata and all expressions",
  tests="The tests read back a handful of tables and expressions.",
  files=["dandy/src/parser/mod.rs", "dandy/src/dfa/mod.rs", "dandy/src/nfa/mod.rs", "dandy/src/regex/mod.rs"],
  mech=[("to_table, Regex::to_string", "dandy/src"), ("parser", "dandy/src/parser")],
  reason="""The two halves are claimed separately: what is printed (C13, C14) and what is read (C15, C16, C08, C09), each against the
  same documented format. That the composition is the identity is a statement about all texts of unbounded length, by induction over the
  grammar; comparing summaries has no such induction, and running printer and parser would be a test."""),
 dict(id="C26", title="Time, memory and stack stay within what the input warrants",
  statement="""No operation overflows its stack, and each takes time and memory polynomial in its input, except determinising and
  enumerating, whose results may themselves be exponential.""",
  all="all inputs",
  tests="The tests use small inputs only.",
  files=["dandy/src/parser/regex.rs", "dandy/src/regex/mod.rs", "dandy/src/nfa/words.rs"],
  mech=[("recursion over expression trees", "dandy/src/regex/mod.rs"), ("matrix powers", "dandy/src/nfa/words.rs")],
  reason="""Quantities at run time: the recursion depth is the nesting depth of the input, which nothing in the source bounds (a text
  nested deeply enough does exhaust the stack), and the cost of hashing, matrix powers and backtracking is not visible in the value
  flow. That the fixed points of the claimed properties are reached at all is part of those properties."""),
 dict(id="C27", title="ASCII art shows every state and transition",
  statement="""The ASCII art of a DFA or NFA shows every state's name with its marks, and every group of transitions as a line between
  its states with its label, without one covering another.""",
  all="all automata",
  tests="Two tests print ASCII art and check nothing.",
  files=["dandy-draw/src/lib.rs"], mech=[("ascii_art", "dandy-draw/src/lib.rs")],
  reason="""What the reader sees is a grid of bytes in which later writes cover earlier ones at positions computed from the lengths of
  names and labels. Whether two of them overlap is an inequality between sums of such lengths for every automaton, which no
  static argument in reach bounds; in fact lines do cross labels. The arrows and levels it draws come from the functions C24 decides."""),
 dict(id="C28", title="The canvas and egui surfaces show what they are told to draw",
  statement="""Circles, texts and lines handed to the browser canvas or egui surface appear there, once, in the colour set before.""",
  all="all sequences of drawing calls", over=["histories"],
  tests="There is no test of them.",
  files=["dandy-draw/src/canvas.rs", "dandy-draw/src/egui.rs", "dandy-wasm/src/lib.rs"],
  mech=[("CanvasDrawer", "dandy-draw/src/canvas.rs"), ("EguiDrawer", "dandy-draw/src/egui.rs")],
  reason="""Whether anything appears is decided by the state of the browser's canvas (current path, stroke style, transformation) or of
  egui's painter, on the far side of calls into foreign code; a static rule could only compare the list of calls with a copy of itself."""),
]
