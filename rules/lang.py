"""Rules about the automata library: what its operations compute."""
D = "dandy::dfa::Dfa::"
DE = "dandy::dfa::eval::DfaEvaluator::<'a>::"
N = "dandy::nfa::Nfa::"
NE = "dandy::nfa::eval::NfaEvaluator::<'a>::"
AE = "dandy::util::alphabet_equal"
from core import ok_part


def alphabets(ctx):
    ctx.same(AE, alts=["alphabet_equal__%d" % i for i in range(2, 10)])


def fk(ctx, *parts):
    """key of the function whose key contains all these parts"""
    ks = [k for k in ctx.S.bodies if all(p in k for p in parts) and "{closure" not in k]
    assert len(ks) == 1, (parts, ks)
    return ks[0]


def dfa_runs(ctx):
    for f in ("alphabet", "states", "initial_state", "initial_state_index", "evaluator", "accepts", "accepts_graphemes", "graphemes_only"):
        ctx.same(D + f)
    for f in ("name", "is_initial", "is_accepting", "transitions"):
        ctx.same("dandy::dfa::DfaState::" + f)
    ctx.same(fk(ctx, "dfa", "From<&'a dandy::dfa::Dfa>", "::from"), ob="start of a run")
    for f in ("current_state", "current_state_idx", "is_accepting", "step_all"):
        ctx.same(DE + f)
    for f in ("step", "step_multiple"):
        ctx.same(DE + f, ("ret", "arg0"))


def nfa_runs(ctx):
    for f in ("alphabet", "states", "initial_state", "initial_state_index", "evaluator", "accepts", "accepts_graphemes", "graphemes_only",
              "closure", "has_epsilon_moves"):
        ctx.same(N + f)
    for f in ("name", "is_initial", "is_accepting", "transitions", "epsilon_transitions"):
        ctx.same("dandy::nfa::NfaState::" + f)
    ctx.same(fk(ctx, "nfa::eval", "From<&'a dandy::nfa::Nfa>", "::from"), ob="start of a run")
    for f in ("current_states", "current_states_idx", "is_accepting", "step_all"):
        ctx.same(NE + f)
    for f in ("step", "step_multiple"):
        ctx.same(NE + f, ("ret", "arg0"))


def dfa_sets(ctx):
    alphabets(ctx)
    for f in ("product_construction", "union", "intersection", "difference", "symmetric_difference"):
        ctx.same(D + f, mask=("names",), opaque=(AE,))
    ctx.same(D + "invert", ("arg0",))


def nfa_sets(ctx):
    alphabets(ctx)
    for f in ("product_construction", "intersection", "union"):
        ctx.same(N + f, mask=("names",), opaque=(AE,), alts=("union__2",) if f == "union" else ())


def equivalence(ctx):
    alphabets(ctx)
    ctx.same(D + "equivalent_to", opaque=(AE,))
    ctx.same(N + "equivalent_to", opaque=(AE,))


def determinise(ctx):
    ctx.same(N + "to_dfa", mask=("names",))
    ctx.same(D + "to_nfa")
    ctx.same(fk(ctx, "From<dandy::dfa::Dfa> for dandy::nfa::Nfa"))


def reachability(ctx):
    for t in (D, N):
        for f in ("reachable_state_idx", "unreachable_state_idx", "reachable_states", "unreachable_states", "has_reachable_accepting_state"):
            ctx.same(t + f, alts=("reachable_state_idx__2",) if t == N and f == "reachable_state_idx" else ())


def trimming(ctx):
    for t in (D, N):
        ctx.same(t + "remove_unreachable_states", ("arg0",))


def epsilon_removal(ctx):
    ctx.same(N + "remove_epsilon_moves", ("arg0",), mask=("names",))
    ctx.same(N + "optimize", ("arg0",), whole=(N + "remove_unreachable_states", N + "remove_epsilon_moves"))


def dfa_validation(ctx):
    ctx.same(fk(ctx, "TryFrom<dandy::parser::ParsedDfa", "::try_from"), proj=ok_part("Ok"), ob="accepting a parsed DFA")
    errors(ctx, fk(ctx, "TryFrom<dandy::parser::ParsedDfa", "::try_from"), "dfa")


def nfa_validation(ctx):
    ctx.same(fk(ctx, "TryFrom<dandy::parser::ParsedNfa", "::try_from"), proj=ok_part("Ok"), ob="accepting a parsed NFA")
    errors(ctx, fk(ctx, "TryFrom<dandy::parser::ParsedNfa", "::try_from"), "nfa")


DEFECTS = {"DuplicateAlphabetSymbol": "duplicate_alphabet_symbol", "DuplicateStateDefinition": "duplicate_state_definition",
           "WrongNumberOfTransitions": "wrong_number_of_transitions", "TransitionDoesNotExist": "transition_does_not_exist",
           "MultipleInitialStates": "multiple_initial_states", "MissingInitialState": "missing_initial_state"}


def implies(g, d):
    """g implies d, using that the first element with P that also has Q is an element with P and Q"""
    import canon
    import terms as tm
    from terms import raw, el, ix
    if tm.IMPLIES(g, d):
        return True
    for cube in tm.paths(g, 400):
        cond, groups = tm.TR, {}
        for a, sign in cube:
            cond = tm.AND(cond, tm.var(a) if sign else tm.NOT(tm.var(a)))
            if a.op == "firstis":
                groups.setdefault((a.args[1], a.args[2]), []).append((a, sign))
        for (src, _), lst in groups.items():
            b0, s0, p, _ = tm.open_(lst[0][0])
            for a, sign in lst:
                b, _, _, h = tm.open_(a)
                h = tm.subst(h, {raw("el", b): el(b0), raw("ix", b): ix(b0)})
                p = tm.AND(p, h if sign else tm.NOT(h))
            cond = tm.AND(cond, tm.any_(b0, s0, p))
            for a, sign in canon.certain(p).items():
                cond = tm.AND(cond, tm.any_(b0, s0, tm.var(a) if sign else tm.NOT(tm.var(a))))
            for a in tm.atoms_of(d):
                if a.op == "any" and a.args[1] is s0:
                    nb, _, q = tm.open_(a)
                    if tm.IMPLIES(p, tm.subst(q, {raw("el", nb): el(b0), raw("ix", nb): ix(b0)})):
                        cond = tm.AND(cond, tm.var(a))
        if not tm.IMPLIES(cond, d):
            return False
    return True


def errors(ctx, key, kind):
    """an error is reported only when the table has the problem it names"""
    import terms as tm
    from terms import Undecided
    rule = "the path condition of each error implies the problem it names"
    try:
        r = ctx.summary(ctx.P, key)["ret"]
        got = {}
        for g, x in tm.leaves(r):
            if x.op != "agg":
                raise Undecided("result is not a choice of variants")
            if x.args[1] == "Err":
                for h, e in tm.leaves(dict(x.args[2])["0"]):
                    if e.op != "agg":
                        raise Undecided("error is not a plain variant")
                    got[e.args[1]] = tm.OR(got.get(e.args[1], tm.F), tm.AND(g, h))
        want = {v: tm.as_bool(ctx.summary(ctx.S, f"dandy::{kind}::parse::defect::{f}")["ret"]) for v, f in DEFECTS.items()}
    except Undecided as e:
        ctx.unknown("errors name real problems", ctx.where(key), rule, str(e))
        return
    for v, g in got.items():
        ob = f"error {v}"
        if v not in want:
            ctx.unknown(ob, ctx.where(key), rule, "a kind of error without a meaning")
        elif implies(g, want[v]):
            ctx.ok(ob, ctx.where(key), rule)
        else:
            other = [w for w in want if implies(g, want[w])]
            if other or tm.AND(g, want[v]) is tm.F:
                ctx.bad(ob, ctx.where(key), rule, f"{v} is reported when the problem is {other}")
            else:
                ctx.unknown(ob, ctx.where(key), rule, f"reported when {tm.show_node(g)[:300]}")


def names_of(t):
    """of an automaton, the list of the names of its states"""
    import terms as tm
    from terms import Undecided

    def seg(x):
        if x.op == "one":
            out = []
            for g, y in tm.leaves(x.args[1]):
                out.append(tm.one(tm.AND(x.args[0], g), tm.fld(y, "name")))
            return out
        if x.op == "for":
            b, src, inner = tm.open_(x)
            return [tm.for_(b, src, [z for y in inner for z in seg(y)])]
        if x.op == "all":
            b = tm.fresh(x.args[0])
            return [tm.for_(b, x.args[0], [tm.one(tm.TR, tm.fld(tm.el(b), "name"))])]
        raise Undecided("states are not a plain list")
    out = {}
    for g, v in tm.leaves(t):
        for h, states in tm.leaves(tm.fld(v, "states")):
            n = tm.seq("vec", [y for x in tm.segs_of(states) for y in seg(x)])
            out[n] = tm.OR(out.get(n, tm.F), tm.AND(g, h))
    import canon
    return {"names": canon.canon(tm.gate_of(out))}


def names(ctx):
    """what the states of constructed automata are called"""
    alphabets(ctx)
    for t in (D, N):
        ctx.same(t + "product_construction", mask=("only_names",), opaque=(AE,))
    ctx.same(N + "union", mask=("only_names",), opaque=(AE,), alts=("union__2",))
    ctx.same(N + "remove_epsilon_moves", ("arg0",), proj=names_of)
    ctx.same(N + "to_dfa", mask=("only_names",))
    ctx.same(D + "to_nfa", mask=("only_names",))
    for t in (D, N):
        ctx.same(t + "remove_unreachable_states", ("arg0",), mask=("only_names",))
    ctx.same(RX + "tree_to_nfa", ("ret", "arg1"), mask=("only_names",))
    ctx.same(RX + "to_nfa", whole=(RX + "tree_to_nfa",), mask=("only_names",))


RX = "dandy::regex::Regex::"


def regex_automaton(ctx):
    ctx.same(RX + "tree_to_nfa", ("ret", "arg1", "arg2"))
    ctx.same(RX + "to_nfa", whole=(RX + "tree_to_nfa",))


def regex_text(ctx):
    ctx.same(RX + "build_string", ("arg1",))
    ctx.same(RX + "to_string", whole=(RX + "build_string",))


TB = "dandy::table::Table::<'a>::"


def tables(ctx):
    ctx.same(TB + "push_row", ("arg0",))
    ctx.same(TB + "to_string", alts=("to_string__2",))
    for t in (D, N):
        ctx.same(t + "gen_table", whole=(TB + "push_row", TB + "to_string"))
        for f in ("to_table", "ascii_table"):
            ctx.same(t + f, whole=(t + "gen_table",))


W = "dandy::nfa::words::"
WI = W + "WordComponentIndices::<'a>::"


def words(ctx):
    G, MIN, NEXT, PUT, NEW = WI + "generate_matrices_up_to", WI + "min_word", WI + "next_word", WI + "put_next", WI + "new"
    STEP, ADJ, ID = WI + "is_reachable_in_one_step", WI + "generate_adjacency_matrix", WI + "identity_matrix"
    for tr in ("Add", "AddAssign", "Mul", "MulAssign", "One", "Zero"):
        for k in ctx.S.bodies:
            if k.startswith(f"<{W}NumBool as ") and f"::{tr}>::" in k and "{closure" not in k:
                ctx.same(k, ("arg0",) if tr.endswith("Assign") else ("ret",), ob=f"truth values: {tr}::{k.rsplit('::', 1)[1]}")
    ctx.same(fk(ctx, W + "NumBool", "From<bool>"), ob="truth values: from bool")
    ctx.same(STEP)
    ctx.same(ADJ, whole=(STEP,))
    ctx.same(ID)
    ctx.same(NEW, whole=(ADJ, ID))
    ctx.same(G, ("arg0",), alts=[f"generate_matrices_up_to__{i}" for i in (2, 3, 4)])
    ctx.same(MIN, ("ret", "arg0"), whole=(G,), alts=("min_word__2",))
    ctx.same(NEXT, ("ret", "arg0"), whole=(MIN,), alts=("next_word__2",))
    ctx.same(PUT, ("arg0",), whole=(MIN, NEXT))
    ctx.same(fk(ctx, W, "From<&'a dandy::nfa::Nfa>"), whole=(NEW,), ob="start of an enumeration")
    for t in ("Words", "WordComponents", "WordComponentIndices"):
        ctx.same(fk(ctx, f"<{W}{t}<'_> as ", "::next"), ("ret", "arg0"), whole=(PUT,), ob=f"{t}::next")
    for t in ("Words", "WordComponents"):
        ctx.same(W + t + "::<'a>::new", whole=(NEW,))
    for f in ("words", "word_components", "word_component_indices"):
        ctx.same(N + f, whole=(NEW,))
