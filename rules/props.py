import apps
import lang
import grammar
import minimal
SUM = "gated value-flow summaries of every path, compared in canonical form with a reference summary"
GRAMMAR = "grammars read off the combinator terms of the value-flow summaries, normalised and compared with a reference grammar"
EFF = "gated value-and-effect summaries of every path, compared in canonical form with a reference summary"
PROPS = {
    "C01": dict(rules=[lang.dfa_runs], technique=SUM, explains="deterministic runs"),
    "C02": dict(rules=[lang.nfa_runs], technique=SUM, explains="nondeterministic runs"),
    "C03": dict(rules=[lang.dfa_sets], technique=SUM, explains="set operations on DFAs"),
    "C04": dict(rules=[lang.nfa_sets], technique=SUM, explains="set operations on NFAs"),
    "C05": dict(rules=[lang.equivalence], technique=SUM, explains="equivalence verdicts"),
    "C06": dict(rules=[lang.determinise], technique=SUM, explains="conversions"),
    "C07": dict(rules=[lang.reachability], technique=SUM, explains="reachability"),
    "C08": dict(rules=[lang.dfa_validation], technique=SUM, explains="validation"),
    "C10": dict(rules=[lang.trimming], technique=SUM, explains="removal of states"),
    "C11": dict(rules=[lang.epsilon_removal], technique=SUM, explains="removal of epsilon moves"),
    "C09": dict(rules=[lang.nfa_validation], technique=SUM, explains="validation of NFAs"),
    "C12": dict(rules=[lang.regex_automaton], technique=SUM, explains="automata of regular expressions"),
    "C13": dict(rules=[lang.regex_text], technique=SUM, explains="texts of regular expressions"),
    "C14": dict(rules=[lang.tables], technique=SUM, explains="printed tables"),
    "C15": dict(rules=[grammar.tables], technique=GRAMMAR, explains="the table formats"),
    "C16": dict(rules=[grammar.regexes], technique=GRAMMAR, explains="the syntax of regular expressions"),
    "C21": dict(rules=[minimal.minimisation], technique=SUM, explains="minimisation"),
    "C22": dict(rules=[lang.words], technique=SUM, explains="enumeration of words"),
    "C23": dict(rules=[lang.names], technique=SUM, explains="names of constructed states"),
    "C17": dict(rules=[apps.handles], technique=EFF, explains="the wasm bindings"),
    "C18": dict(rules=[apps.equivalence], technique=EFF, explains="the equivalence command"),
    "C19": dict(rules=[apps.commands], technique=EFF, explains="the other commands"),
    "C24": dict(rules=[apps.drawing], technique=EFF, explains="drawings"),
    "C20": dict(rules=[apps.dispatch], technique=EFF, explains="dispatch and output"),
}
