"""Rules about the programs around the library: the command line tool and the wasm bindings.
Their functions are compared as state transformers: the value returned, what is written to the standard output, the
standard error, the output callback and the output file, and every thread-local variable, with the library's own
functions left as they are."""
import canon as cn
import compare as cmp
import terms as tm
from terms import Undecided

W = "dandy_wasm::"
C = "dandy_cli::"
RULE = "value, output and state effects equal those of the reference function"


def library(ctx):
    return tuple(k for k in ctx.S.bodies if k.startswith("dandy::") and "{closure" not in k and k in ctx.P.bodies)


def effects(ctx, key, whole=(), spec=None, ob=None, only=None, limit=120, put=None):
    """key behaves as its reference in everything it returns and does"""
    ob = ob or key.split("::", 1)[1]
    spec = spec or key
    if not present(ctx, key, spec, ob, whole):
        return
    op = library(ctx) + tuple(whole)
    # the library's functions are known by name: a call more or less is a difference
    for k in op:
        ctx.extra.update({"app:op:" + k} | {f"app:op:{k}!{i}" for i in range(3)})
    ctx.extra.update("app:op:dandy::" + x for x in ("equivalent", "plain", "accepts", "accepts_graphemes"))
    try:
        a = ctx.summary(ctx.P, key, (), limit, op)
        b = ctx.summary(ctx.S, spec, (), 600, op)
    except Undecided as e:
        ctx.unknown(ob, ctx.where(key), RULE, str(e))
        return
    unk = a["unknown"]
    if put:
        # a value from outside takes the place of the reference's parameter
        a = {k: cn.canon(tm.replace(v, put)) if isinstance(v, tm.T) else v for k, v in a.items()}
        unk = unk - {k.args[0] for k in put}
    extra = sorted(unk - b["unknown"])
    slots = ["ret"] + sorted(k for k in set(a) | set(b) if k.startswith("arg") or k.startswith("static:") or k in ("out", "err", "sink", "file"))
    if only is not None:
        slots = [s for s in slots if s in only]
    verdicts = {}
    for s in slots:
        x, y = a.get(s), b.get(s)
        if x is None or y is None:
            if not s.startswith("static:"):
                verdicts[s] = cmp.Verdict("undecided", "no counterpart")
                continue
            # a variable only one of them uses is left as it was by the other one
            init = tm.raw("static", s[7:])
            x, y = (init if x is None else x), (init if y is None else y)
        if x is y and s in ("out", "err", "sink", "file") and tm.is_empty(x) is tm.TR:
            continue
        verdicts[s] = cmp.judge(x, y, ctx.extra)
    for s, v in verdicts.items():
        o = ob if s == "ret" else f"{ob}: {slot_name(s)}"
        if v.status == "ok" and not extra:
            ctx.ok(o, ctx.where(key), RULE)
        elif v.status == "violation" and not extra:
            ctx.bad(o, ctx.where(key), RULE, v.detail)
        else:
            ctx.unknown(o, ctx.where(key), RULE, f"calls {extra}, whose effects are not known" if extra else v.detail)


def slot_name(s):
    return {"out": "standard output", "err": "standard error", "sink": "reported results", "file": "output file"}.get(s, s)


def present(ctx, key, spec, ob, whole):
    for k, s in [(key, spec)] + [(w, w) for w in whole]:
        if ctx.P.find(k) is None:
            ctx.unknown(ob, ctx.where(k), RULE, f"there is no function {k}")
            return False
        assert ctx.S.find(s) is not None, s
        if k == s and ctx.shape(ctx.P, k) != ctx.shape(ctx.S, s):
            ctx.unknown(ob, ctx.where(k), RULE, f"{k} takes {ctx.shape(ctx.P, k)}, its reference {ctx.shape(ctx.S, s)}")
            return False
    return True


def handles(ctx):
    for f in ("load_dfa", "load_nfa", "load_regex", "delete_dfa", "delete_nfa", "delete_regex", "regex_to_nfa", "dfa_to_nfa", "nfa_to_dfa",
              "minimize_dfa", "check_dfa_eq", "check_nfa_eq", "dfa_to_table", "nfa_to_table"):
        effects(ctx, W + f)
    for f in ("DFA_MAP", "NFA_MAP", "REGEX_MAP", "KEYGEN"):
        k = W + f + "::__rust_std_internal_init_fn"
        effects(ctx, k, ob=f"initial {f}")


A = C + "automata::Automata::"
DT = C + "equivalence::DandyTester::"


def equivalence(ctx):
    for f in ("get_type", "into_minimized_dfa", "into_minimized_dfa_automata", "into_dfa", "into_dfa_automata", "borrow_dfa", "into_nfa",
              "into_to_nfa_automata", "borrow_nfa", "prepare_to_compare_with", "test_equivalence", "load_test", "table"):
        effects(ctx, A + f)
    for f in ("new", "test_equivalence"):
        effects(ctx, DT + f)
    effects(ctx, C + "last_n_components")
    effects(ctx, C + "equivalence::equivalence", whole=(DT + "new", DT + "test_equivalence"))


def commands(ctx):
    for f in ("load", "load_file", "into_minimized_dfa_if_not_dfa", "convert_to"):
        effects(ctx, A + f)
    effects(ctx, C + "binary_op::binary_op", whole=tuple(A + x for x in ("load_file", "test_equivalence", "into_minimized_dfa")))
    effects(ctx, C + "enumerate::enumerate_nfa")
    for f in ("enumerate_regex", "enumerate_file"):
        effects(ctx, C + "enumerate::" + f, whole=(C + "enumerate::enumerate_nfa",))
    effects(ctx, C + "test_files::test_files")


def dispatch(ctx):
    effects(ctx, C + "Operation::binary_operation")
    for f in ("as_str", "as_str_lower"):
        effects(ctx, C + "BinaryOperation::" + f)
    effects(ctx, C + "main", spec=C + "run", ob="main", whole=(
        C + "equivalence::equivalence", C + "binary_op::binary_op", C + "test_files::test_files", C + "enumerate::enumerate_regex",
        C + "enumerate::enumerate_file"), put={tm.app("Parser::parse"): tm.raw("param", "a0")})


R = "dandy_draw::"


def drawing(ctx):
    """what a drawing shows: a log of what the surface is told"""
    import lang
    P2 = R + "pos2::"
    for k in ctx.S.bodies:
        if "dandy_draw::pos2::" in k and "{closure" not in k:
            ctx.same(k, ob="points: " + k.split("pos2::", 1)[1])
    for t in ("Dfa", "Nfa"):
        ctx.same(lang.fk(ctx, R + "State", f"{t}State>"), ob=f"a state to draw from {t}State")
        ctx.same(R + t.lower() + "_to_arrows")
    ctx.same(R + "Arrow::<'a>::new")
    for k in ctx.S.bodies:
        if k.startswith("<dandy_draw::GroupedArrow") and "ArrowLike" in k and "{closure" not in k:
            ctx.same(k, ob="grouped arrow: " + k.rsplit("::", 1)[1])
    G, PL, DR = R + "group_arrows", R + "place_arrows", R + "draw"
    ctx.same(G)
    ctx.same(PL)
    ctx.same(DR, ("arg2",), whole=(G, PL))
    for t in ("dfa", "nfa"):
        ctx.same(R + f"draw_{t}_with_opts", ("arg1",), whole=(DR, R + t + "_to_arrows"))
        ctx.same(R + f"draw_{t}", ("arg1",), whole=(R + f"draw_{t}_with_opts",))
