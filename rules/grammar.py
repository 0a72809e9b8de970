"""Grammars: the nom combinators of a parser, read off its value-flow summary, in a normal form that only keeps what is recognised
and how the result is put together.

A parser is (items, value): a flat sequence of items, each binding a variable, and a value over these variables.
  lit text | one chars | while min chars | guard condition | eof | opt P | many min P | sep min P P | alt P.. | recognize P | peek P
  | not P | mu id P | ref id | fun key | on text (a change of the whole input) | rest of line | unknown term
Sets of characters are kept as the subset of a universe of characters that contains every character mentioned by either grammar and
representatives of every class of characters, so equality of predicates is decided by cases."""
import re
import terms as tm
import compare as cmp
import canon as cn
from terms import T, N, raw, c, UNIT, Undecided, TR, F

BASE_U = [chr(i) for i in range(128)] + list("\u00a0\u0085\u2028\u3000\u200b\u0301éßΩ→εφ∅₀٣中😀")


class Variable:
    n = 0


def new_var():
    Variable.n += 1
    return raw("gv", Variable.n)


class Item:
    __slots__ = ("kind", "a", "var")

    def __init__(self, kind, *a, var=None):
        self.kind, self.a, self.var = kind, a, var if var is not None else new_var()

    def __repr__(self):
        return f"{self.kind}({', '.join(show(x) for x in self.a)})"


class P:
    __slots__ = ("items", "value")

    def __init__(self, items, value):
        self.items, self.value = list(items), value

    def __repr__(self):
        return show(self)


WIDTH = [60]


def show(x):
    k = WIDTH[0]
    if isinstance(x, P):
        return "[" + " ".join(map(repr, x.items)) + (" => " + tm.show(x.value)[:k] if x.value is not UNIT else "") + "]"
    if isinstance(x, frozenset):
        if len(x) <= 10:
            return "{" + "".join(sorted(x)) + "}"
        return f"<{len(x)} kinds of chars>"
    if isinstance(x, (list, tuple)):
        return " | ".join(show(y) for y in x)
    if isinstance(x, T):
        return tm.show(x)[:k]
    if isinstance(x, N):
        return tm.show_node(x)[:k]
    return repr(x)


def char(s):
    return raw("c", "char", s)


def occurs(x, v):
    """how a variable is used: 'no', 'some' (only whether it is Some), 'yes'"""
    best = "no"

    def go(y):
        nonlocal best
        if best == "yes":
            return
        if isinstance(y, tuple):
            for z in y:
                go(z)
        elif isinstance(y, N):
            for a in tm.atoms_of(y):
                go(a)
        elif isinstance(y, T):
            if y is v:
                best = "yes"
            elif y.op == "is" and y.args[0] is v:
                best = "some" if best == "no" else best
            else:
                for z in y.args:
                    go(z)
    go(x)
    return best


def mentioned(x, out):
    """every literal text in a term"""
    seen = set()

    def go(y):
        if isinstance(y, tuple):
            for z in y:
                go(z)
        elif isinstance(y, N):
            if y not in seen:
                seen.add(y)
                for a in tm.atoms_of(y):
                    go(a)
        elif isinstance(y, T) and y not in seen:
            seen.add(y)
            if tm.is_c(y) and isinstance(tm.cval(y), str):
                out.update(tm.cval(y))
            for z in y.args:
                go(z)
    go(x)


WS = set(" \t\n\r\x0b\x0c\u0085\u00a0\u2028\u2029\u3000\u1680\u205f") | {chr(i) for i in range(0x2000, 0x200b)}
CLASSES = {
    "is_whitespace": lambda ch: ch in WS, "is_ascii_whitespace": lambda ch: ch in " \t\n\r\x0c", "is_alphanumeric": str.isalnum, "is_alphabetic": str.isalpha,
    "is_numeric": str.isnumeric, "is_ascii": lambda ch: ord(ch) < 128, "is_control": lambda ch: ord(ch) < 32 or 127 <= ord(ch) < 160,
    "is_ascii_digit": lambda ch: ch in "0123456789", "is_ascii_alphanumeric": lambda ch: ord(ch) < 128 and ch.isalnum(),
    "is_ascii_alphabetic": lambda ch: ord(ch) < 128 and ch.isalpha(), "is_ascii_punctuation": lambda ch: ord(ch) < 128 and ch.isprintable() and not ch.isalnum() and ch != " ",
    "is_uppercase": str.isupper, "is_lowercase": str.islower, "is_ascii_uppercase": lambda ch: "A" <= ch <= "Z", "is_ascii_lowercase": lambda ch: "a" <= ch <= "z",
}


def ev_atom(a):
    if a.op == "tst":
        a = a.args[0]
    if a.op == "app":
        f, xs = a.args[0].split("::")[-1], a.args[1]
        if f in CLASSES and len(xs) == 1 and tm.is_c(xs[0]):
            return CLASSES[f](tm.cval(xs[0]))
        if f in ("contains", "starts_with", "ends_with") and len(xs) == 2 and all(tm.is_c(x) for x in xs):
            s, t = map(tm.cval, xs)
            return t in s if f == "contains" else s.startswith(t) if f == "starts_with" else s.endswith(t)
    if a.op in ("eq", "eqc") and all(tm.is_c(x) for x in a.args):
        return tm.cval(a.args[0]) == tm.cval(a.args[1])
    raise Undecided(f"character predicate {tm.show(a)[:80]}")


def ev_node(n):
    while n is not TR and n is not F:
        n = n.hi if ev_atom(tm._atom_list[n.v]) else n.lo
    return n is TR


class Reader:
    """turns summaries of one program into parsers"""
    def __init__(self, ctx, prog, universe):
        self.ctx, self.prog, self.U = ctx, prog, universe
        self.stack, self.refs, self.funs = [], set(), {}

    # ------------------------------------------------ functions
    def lit_of(self, x):
        if tm.is_c(x) and isinstance(tm.cval(x), str):
            return tm.cval(x)
        return None

    def apply(self, f, v):
        """value of a function on a value"""
        if f.op == "lam":
            b, _, r = tm.open_(f)
            return tm.replace(r, {tm.el(b): v})
        if f.op == "ctor":
            adt, w = f.args
            names = dict(tm.ADTS.get(adt, ())).get(w) or ["0"]
            return tm.agg(adt, w, [(names[0], v)])
        if f.op == "fn":
            k = self.key_of(f)
            if k is not None:
                b = self.prog.find(k)
                if len(b["params"]) == 1:
                    r = self.ctx.summary(self.prog, k)["ret"]
                    return tm.replace(r, {self.param(k): v})
        raise Undecided(f"function {tm.show(f)[:80]}")

    def param(self, k):
        p = self.prog.find(k)["params"][0]
        return raw("param", "self" if p["pat"] and p["pat"].get("name") == "self" else "a0")

    def key_of(self, f):
        k = f.args[0]
        return k if self.prog.find(k) is not None else None

    def chars(self, f):
        """set of characters satisfying a predicate"""
        s = self.lit_of(f)
        if s is not None:
            return frozenset(ch for ch in self.U if ch in s)
        if f.op == "fn" and f.args[0].split("::")[-1] in CLASSES:
            return frozenset(ch for ch in self.U if CLASSES[f.args[0].split("::")[-1]](ch))
        if f.op == "seq":
            out = set()
            for sg in f.args[1]:
                if sg.op != "one" or sg.args[0] is not TR or self.lit_of(sg.args[1]) is None:
                    raise Undecided("list of characters")
                out.update(self.lit_of(sg.args[1]))
            return frozenset(ch for ch in self.U if ch in out)
        return frozenset(ch for ch in self.U if ev_node(tm.as_bool(self.apply(f, char(ch)))))

    # ------------------------------------------------ parsers
    def nonterminal(self, key):
        """the parser a local function is"""
        if key in self.stack:
            self.refs.add(key)
            it = Item("ref", key)
            return P([it], it.var)
        self.stack.append(key)
        try:
            body = self.prog.find(key)
            if len(body["params"]) != 1:
                raise Undecided(f"{key} takes {len(body['params'])} parameters")
            r = self.ctx.summary(self.prog, key)["ret"]
            try:
                p = self.summary(r, self.param(key))
            except Undecided:
                if self.has_parser(r):
                    raise
                p = None
            if p is None:
                it = Item("fun", key)
                p = P([it], it.var)
                self.funs[key] = r
        finally:
            self.stack.pop()
        if key in self.refs:
            self.refs.discard(key)
            it = Item("mu", key, p)
            p = P([it], it.var)
        return p

    def has_parser(self, x):
        found = False

        def go(y):
            nonlocal found
            if found:
                return
            if isinstance(y, tuple):
                for z in y:
                    go(z)
            elif isinstance(y, N):
                for a in tm.atoms_of(y):
                    go(a)
            elif isinstance(y, T):
                if y.op == "app" and isinstance(y.args[0], str) and y.args[0].startswith("nom:") and y.args[0] != "nom:fail":
                    found = True
                for z in y.args:
                    go(z)
        go(x)
        return found

    def is_call(self, x):
        """(parser term, input) of a run of a parser"""
        if x.op == "app" and x.args[0] in ("Finish::finish",) and len(x.args[1]) == 1:
            return self.is_call(x.args[1][0])
        if x.op == "app" and x.args[0] in ("call", "Parser::parse") and len(x.args[1]) == 2:
            return x.args[1]
        if x.op == "app" and x.args[0].startswith("nom:") and len(x.args[1]) == 1 and x.args[0][4:] in ZERO:
            return raw("fn", "nom::" + x.args[0][4:]), x.args[1][0]
        return None

    def input(self, x, src):
        """changes of the whole input before parsing"""
        if x is src:
            return []
        if x.op == "app" and x.args[0] in ("str::trim", "str::trim_start", "str::trim_end") and len(x.args[1]) == 1:
            return self.input(x.args[1][0], src) + [Item("on", x.args[0])]
        return None

    def summary(self, r, src):
        """a function from input to a result, as a parser"""
        pc = self.is_call(r)
        if pc is not None:
            pre = self.input(pc[1], src)
            if pre is None:
                raise Undecided(f"parses {tm.show(pc[1])[:80]}")
            p = self.parser(pc[0])
            return P(pre + p.items, p.value)
        # by hand: run parsers one after another and combine their results
        good = []
        for g, x in tm.leaves(r):
            if x.op == "agg" and x.args[1] == "Err":
                continue
            if self.is_call(x) is not None and tm.IMPLIES(g, tm.NOT(tm.is_variant(x, tm.RES, "Ok"))):
                continue
            if x.op == "app" and x.args[0] == "nom:fail":
                continue
            good.append((g, x))
        if len(good) != 1 or not self.has_parser(r):
            raise Undecided("not a sequence of parsers")
        g, x = good[0]
        if x.op == "agg" and x.args[1] == "Ok":
            x = tm.agg_get(x, "0")
            rest, val = (x.args[0][0], x.args[0][1]) if x.op == "tup" and len(x.args[0]) == 2 else (None, x)
            tail = []
        elif self.is_call(x) is not None:
            p = self.parser(self.is_call(x)[0])
            rest, val, tail = self.is_call(x)[1], None, [p]
        else:
            raise Undecided("result of a hand-written parser")
        if rest is None:
            # an entry point: the rest of the input is dropped
            calls = []
            self.calls_in(val, calls)
            if not calls:
                raise Undecided("result without a parser")
            rest = tm.fld(raw("pay", max(calls, key=lambda t: t.h), "Ok", "0"), "0")
        chain = []
        while rest is not src:
            if not (rest.op == "fld" and rest.args[1] == "0" and rest.args[0].op == "pay" and self.is_call(rest.args[0].args[0]) is not None):
                pre = self.input(rest, src)
                if pre is None:
                    raise Undecided(f"rest of the input {tm.show(rest)[:80]}")
                break
            call = rest.args[0].args[0]
            chain.append(call)
            rest = self.is_call(call)[1]
        else:
            pre = []
        items, m = list(pre), {}
        when = TR
        for call in reversed(chain):
            p = self.parser(self.is_call(call)[0])
            items += p.items
            okv = raw("pay", call, "Ok", "0")
            m[tm.fld(okv, "1")] = p.value
            m[okv] = tm.tup(raw("gv", 0), p.value)
            when = tm.AND(when, tm.is_variant(call, tm.RES, "Ok"))
        if tail:
            items += tail[0].items
            val = tail[0].value
        else:
            val = tm.replace(val, m)
        if not tm.IMPLIES(g, when):
            raise Undecided("result without success of all parsers")
        more = tm.restrict(g, when)
        if more is not TR:
            items.append(Item("guard", tm.as_bool(tm.replace(tm.B(more), m))))
        return P(items, val)

    def calls_in(self, x, out):
        seen = set()

        def go(y):
            if isinstance(y, tuple):
                for z in y:
                    go(z)
            elif isinstance(y, N):
                for a in tm.atoms_of(y):
                    go(a)
            elif isinstance(y, T) and y not in seen:
                seen.add(y)
                if y.op == "pay" and y.args[1] == "Ok" and self.is_call(y.args[0]) is not None:
                    out.append(y.args[0])
                for z in y.args:
                    go(z)
        go(x)

    def parser(self, t):
        """a combinator term"""
        if t.op == "fn":
            k = self.key_of(t)
            if k is not None:
                return self.nonterminal(k)
            return self.atom(t.args[0].split("::")[-1], t)
        if t.op == "lam":
            b, _, r = tm.open_(t)
            src = raw("gv", -1 - len(self.stack))
            return self.summary(tm.replace(r, {tm.el(b): src}), src)
        if t.op == "tup":
            return self.seq([self.parser(x) for x in t.args[0]])
        if tm.is_c(t):
            return self.atom("tag", app_(t))
        if t.op == "app" and t.args[0].startswith("nom:"):
            return self.comb(t.args[0][4:], list(t.args[1]), t)
        raise Undecided(f"parser {tm.show(t)[:80]}")

    def seq(self, ps, pick=None):
        items = [i for p in ps for i in p.items]
        return P(items, tm.tup(*[p.value for p in ps]) if pick is None else ps[pick].value)

    def one(self, kind, *a):
        it = Item(kind, *a)
        return P([it], it.var)

    def atom(self, n, t):
        S = lambda s: frozenset(ch for ch in self.U if ch in s)
        if n in ("space0", "space1"):
            return self.one("while", int(n[-1]), S(" \t"))
        if n in ("multispace0", "multispace1"):
            return self.one("while", int(n[-1]), S(" \t\r\n"))
        if n in ("digit1", "digit0"):
            return self.one("while", int(n[-1]), S("0123456789"))
        if n in ("alpha1", "alpha0"):
            return self.one("while", int(n[-1]), frozenset(ch for ch in self.U if CLASSES["is_ascii_alphabetic"](ch)))
        if n in ("alphanumeric1", "alphanumeric0"):
            return self.one("while", int(n[-1]), frozenset(ch for ch in self.U if CLASSES["is_ascii_alphanumeric"](ch)))
        if n == "line_ending":
            return self.alt([self.lit("\n"), self.lit("\r\n")])
        if n == "newline":
            return self.lit("\n")
        if n == "tab":
            return self.lit("\t")
        if n == "crlf":
            return self.lit("\r\n")
        if n == "anychar":
            return self.one("one", frozenset(self.U))
        if n == "not_line_ending":
            return self.one("rest of line")
        if n == "rest":
            return self.one("while", 0, frozenset(self.U))
        if n == "eof":
            return P([Item("eof")], c(""))
        if n == "fail":
            return P([Item("fail")], UNIT)
        raise Undecided(f"parser {tm.show(t)[:80]}")

    def lit(self, s):
        return P([Item("lit", s)], c(s)) if s else P([], c(s))

    def alt(self, ps):
        return self.one("alt", ps)

    def comb(self, n, a, t):
        if n in ZERO and not a:
            return self.atom(n, t)
        if n == "tag" or n == "char":
            s = self.lit_of(a[0])
            if s is None:
                raise Undecided(f"literal {tm.show(a[0])[:60]}")
            return P([Item("lit", s)], a[0]) if s else P([], a[0])
        if n in ("one_of", "satisfy"):
            return self.one("one", self.chars(a[0]))
        if n == "none_of":
            return self.one("one", frozenset(self.U) - self.chars(a[0]))
        if n in ("take_while", "take_while1", "is_a"):
            return self.one("while", 0 if n == "take_while" else 1, self.chars(a[0]))
        if n in ("take_till", "take_till1", "is_not"):
            return self.one("while", 0 if n == "take_till" else 1, frozenset(self.U) - self.chars(a[0]))
        if n == "alt":
            return self.alt([self.parser(x) for x in (a[0].args[0] if a[0].op == "tup" else a)])
        if n == "or":
            return self.alt([self.parser(x) for x in a])
        if n == "map":
            p = self.parser(a[0])
            return P(p.items, self.apply(a[1], p.value))
        if n == "value":
            return P(self.parser(a[1]).items, a[0])
        if n == "into":
            return self.parser(a[0])
        if n == "verify":
            p = self.parser(a[0])
            return P(p.items + [Item("guard", tm.as_bool(self.apply(a[1], p.value)))], p.value)
        if n in ("map_opt", "map_res"):
            p = self.parser(a[0])
            v = self.apply(a[1], p.value)
            w, adt = ("Some", tm.OPT) if n == "map_opt" else ("Ok", tm.RES)
            return P(p.items + [Item("guard", tm.is_variant(v, adt, w))], tm.pay(v, w, "0"))
        if n in ("pair", "and"):
            return self.seq([self.parser(x) for x in a])
        if n == "tuple":
            return self.parser(a[0]) if a[0].op == "tup" else self.seq([self.parser(a[0])])
        if n == "preceded":
            return self.seq([self.parser(x) for x in a], 1)
        if n == "terminated":
            return self.seq([self.parser(x) for x in a], 0)
        if n == "delimited":
            return self.seq([self.parser(x) for x in a], 1)
        if n == "separated_pair":
            ps = [self.parser(x) for x in a]
            return P([i for p in ps for i in p.items], tm.tup(ps[0].value, ps[2].value))
        if n == "all_consuming":
            p = self.parser(a[0])
            return P(p.items + [Item("eof")], p.value)
        if n == "complete":
            return self.parser(a[0])
        if n == "success":
            return P([], a[0])
        if n in ("opt", "recognize", "peek", "not"):
            return self.one(n, self.parser(a[0]))
        if n in ("many0", "many1"):
            return self.one("many", int(n[-1]), self.parser(a[0]))
        if n in ("separated_list0", "separated_list1"):
            s = self.parser(a[0])
            return self.one("sep", int(n[-1]), P(s.items, UNIT), self.parser(a[1]))
        raise Undecided(f"combinator {n}")


ZERO = {"space0", "space1", "multispace0", "multispace1", "digit1", "alpha1", "line_ending", "newline", "tab", "crlf", "anychar", "not_line_ending", "rest", "eof", "fail",
        "alphanumeric1", "alphanumeric0"}


def app_(t):
    return t


# ---------------------------------------------------------------- normal form
def normal(p, U):
    items = []
    for it in p.items:
        k = it.kind
        if k in ("opt", "recognize", "peek", "not", "mu"):
            it = Item(k, *it.a[:-1], normal(it.a[-1], U), var=it.var)
        elif k == "many":
            it = Item(k, it.a[0], normal(it.a[1], U), var=it.var)
        elif k == "sep":
            it = Item(k, it.a[0], normal(P(it.a[1].items, UNIT), U), normal(it.a[2], U), var=it.var)
        elif k == "alt":
            it = Item(k, [normal(x, U) for x in it.a[0]], var=it.var)
        items.append(it)
    p = P(items, p.value)
    for _ in range(60):
        q = step(p, U)
        if q is None:
            return p
        p = q
    return p


def rest_uses(p, i, v):
    u = occurs(p.value, v)
    for it in p.items[i + 1:]:
        if it.kind == "guard":
            w = occurs(it.a[0], v)
            u = max(u, w, key=("no", "some", "yes").index)
    return u


def put(p, i, new, m=None):
    """replace item i by items, and variables by values"""
    m = m or {}
    tail = []
    for it in p.items[i + 1:]:
        if it.kind == "guard" and m:
            it = Item("guard", tm.as_bool(tm.replace(tm.B(it.a[0]), m)), var=it.var)
        tail.append(it)
    return P(p.items[:i] + list(new) + tail, tm.replace(p.value, m) if m else p.value)


def is_const(v):
    return tm.is_c(v) or v is UNIT or v.op == "agg" and all(is_const(x) for _, x in v.args[2])


def step(p, U):
    """one rewriting, or None"""
    for i, it in enumerate(p.items):
        k, u = it.kind, rest_uses(p, i, it.var)
        if k == "guard":
            g = it.a[0]
            if g is TR:
                return put(p, i, [])
            # right after the last item whose variable it speaks of
            j = i
            while j > 0 and p.items[j - 1].kind != "guard" and occurs(g, p.items[j - 1].var) == "no":
                j -= 1
            if j != i:
                items = p.items[:i] + p.items[i + 1:]
                return P(items[:j] + [it] + items[j:], p.value)
            if j > 0 and p.items[j - 1].kind == "guard":
                return P(p.items[:j - 1] + [Item("guard", tm.AND(p.items[j - 1].a[0], g))] + p.items[i + 1:], p.value)
            if j > 0 and p.items[j - 1].kind == "while":
                w = p.items[j - 1]
                s = simplify_guard(g, w)
                mn = w.a[0]
                if mn == 0 and tm.IMPLIES(s, tm.NOT(tm.eq0(tm.length(w.var)))):
                    return P(p.items[:j - 1] + [Item("while", 1, w.a[1], var=w.var), it] + p.items[i + 1:], p.value)
                if s is not g:
                    return P(p.items[:i] + [Item("guard", s)] + p.items[i + 1:], p.value)
        elif k == "lit":
            if i + 1 < len(p.items) and p.items[i + 1].kind == "lit":
                return P(p.items[:i] + [Item("lit", it.a[0] + p.items[i + 1].a[0])] + p.items[i + 2:], p.value)
        elif k == "one":
            if len(it.a[0]) == 1:
                return put(p, i, [Item("lit", next(iter(it.a[0])))], {it.var: char(next(iter(it.a[0])))})
            if not it.a[0]:
                return put(p, i, [Item("fail")])
        elif k == "opt":
            q = it.a[0]
            if u != "yes" and q.value is not UNIT:
                return put(p, i, [Item("opt", normal(P(q.items, UNIT), U), var=it.var)])
            if u == "no" and not q.items:
                return put(p, i, [])
            if u == "yes" and is_const(q.value) and occurs(p.value, it.var) == "yes":
                m = {raw("pay", it.var, "Some", "0"): q.value}
                r = put(p, i, [it], m)
                if rest_uses(r, i, it.var) != "yes":
                    return r
        elif k in ("many", "sep"):
            q = it.a[-1]
            if u == "no" and q.value is not UNIT:
                return put(p, i, [Item(k, *it.a[:-1], normal(P(q.items, UNIT), U), var=it.var)])
        elif k == "recognize":
            q = it.a[0]
            if u == "no":
                return put(p, i, P(q.items, UNIT).items)
            if q.value is not UNIT:
                return put(p, i, [Item(k, normal(P(q.items, UNIT), U), var=it.var)])
            if len(q.items) == 1 and q.items[0].kind in ("while", "rest of line"):
                return put(p, i, q.items, {it.var: q.items[0].var})
        elif k in ("peek", "not"):
            q = it.a[0]
            if u == "no" and q.value is not UNIT:
                return put(p, i, [Item(k, normal(P(q.items, UNIT), U), var=it.var)])
        elif k == "mu":
            if u == "no":
                pass
        elif k == "alt":
            bs = it.a[0]
            if u == "no" and any(b.value is not UNIT for b in bs):
                return put(p, i, [Item("alt", [normal(P(b.items, UNIT), U) for b in bs], var=it.var)])
            if len(bs) == 1:
                return put(p, i, bs[0].items, {it.var: bs[0].value})
            if u != "no" and is_const(bs[0].value) and all(b.value is bs[0].value for b in bs):
                return put(p, i, [it], {it.var: bs[0].value})
            # a branch that is itself a choice
            for j, b in enumerate(bs):
                if len(b.items) == 1 and b.items[0].kind == "alt":
                    inner = b.items[0]
                    new = [normal(P(x.items, tm.replace(b.value, {inner.var: x.value})), U) for x in inner.a[0]]
                    return put(p, i, [Item("alt", bs[:j] + new + bs[j + 1:], var=it.var)])
            # alone: its value is computed in the branches
            if len(p.items) == 1 and p.value is not it.var and u != "no":
                new = [normal(P(b.items, tm.replace(p.value, {it.var: b.value})), U) for b in bs]
                return P([Item("alt", new, var=it.var)], it.var)
            # characters
            for j in range(len(bs) - 1):
                x, y = bs[j], bs[j + 1]
                cx, cy = chars_of(x), chars_of(y)
                if cx is not None and cy is not None:
                    dead = x.value is UNIT and y.value is UNIT
                    if dead or cx[1] and cy[1]:
                        nw = Item("one", cx[0] | cy[0])
                        return put(p, i, [Item("alt", bs[:j] + [P([nw], UNIT if dead else nw.var)] + bs[j + 2:], var=it.var)])
            # neighbours with different first characters stand in any order
            for j in range(len(bs) - 1):
                x, y = bs[j], bs[j + 1]
                fx, fy = first(x, U), first(y, U)
                if fx is not None and fy is not None and not (fx & fy) and sorted(fy) < sorted(fx):
                    return put(p, i, [Item("alt", bs[:j] + [y, x] + bs[j + 2:], var=it.var)])
        elif k == "on":
            if i > 0 and p.items[i - 1].kind == "on" and (p.items[i - 1].a == it.a or p.items[i - 1].a[0] == "str::trim"):
                return put(p, i, [])
            if i > 0 and p.items[i - 1].kind == "on" and it.a[0] == "str::trim":
                return P(p.items[:i - 1] + p.items[i:], p.value)
    return None


def chars_of(p):
    """(characters, value is the character) of a parser of a single character"""
    if len(p.items) == 1:
        it = p.items[0]
        if it.kind == "one":
            return it.a[0], p.value is it.var
        if it.kind == "lit" and len(it.a[0]) == 1:
            return frozenset(it.a[0]), p.value is char(it.a[0])
    return None


def simplify_guard(g, w):
    mn, cs = w.a
    n = len(w.var.args)
    for a in list(tm.atoms_of(g)):
        if a.op in ("eq", "eqc") and any(x is w.var for x in a.args):
            o = next(x for x in a.args if x is not w.var) if a.args[0] is not a.args[1] else a.args[0]
            if tm.is_c(o) and isinstance(tm.cval(o), str) and (len(tm.cval(o)) < mn or any(ch not in cs for ch in tm.cval(o))):
                g = tm.cof(g, a, False)
        elif mn > 0 and tm.var(a) is tm.eq0(tm.length(w.var)):
            g = tm.cof(g, a, False)
    return g


END = "<end>"


def first(p, U, depth=0):
    """characters (or the end of the input) at which the parser can succeed; None if unknown or it can succeed on nothing"""
    out = set()
    for i, it in enumerate(p.items):
        k = it.kind
        if k == "guard":
            continue
        if k == "lit":
            return frozenset(out | {it.a[0][0]})
        if k == "one":
            return frozenset(out | it.a[0])
        if k == "while":
            out |= it.a[1]
            if it.a[0]:
                return frozenset(out)
        elif k == "eof":
            return frozenset(out | {END})
        elif k == "fail":
            return frozenset(out)
        elif k == "alt":
            fs = [first(P(b.items + p.items[i + 1:], UNIT), U, depth + 1) for b in it.a[0]]
            if any(f is None for f in fs):
                return None
            return frozenset(out.union(*fs))
        elif k in ("opt", "many", "sep", "recognize"):
            q = it.a[-1]
            f = first(P(q.items, UNIT), U, depth + 1)
            if f is None:
                return None
            out |= f
            if k == "recognize" or k in ("many", "sep") and it.a[0] == 1:
                return frozenset(out)
        elif k == "fun":
            # a cluster: a guard right behind it may exclude some first characters
            nxt = p.items[i + 1] if i + 1 < len(p.items) else None
            out |= set(U)
            if nxt is not None and nxt.kind == "guard":
                out -= excluded(nxt.a[0], U)
            return frozenset(out)
        elif k == "mu":
            return None if depth > 6 else first(it.a[-1], U, depth + 1)
        else:
            return None
    return None


def excluded(g, U):
    """characters c such that the condition fails whenever the first character of the text it speaks of is c"""
    out = set()
    subj = {}
    for a in tm.atoms_of(g):
        if a.op in ("eq", "eqc"):
            for x, y in (a.args, a.args[::-1]):
                if isinstance(y, T) and tm.is_c(y) and isinstance(x, T) and "chars" in tm.show(x):
                    subj.setdefault(x, {})[tm.cval(y)] = a
    for x, m in subj.items():
        for ch in m:
            h = g
            for d, a in m.items():
                h = tm.cof(h, a, d == ch)
            for a in list(tm.atoms_of(h)):
                if a.op == "eq0" or a.op == "is":
                    h0, h1 = tm.cof(h, a, False), tm.cof(h, a, True)
                    # the text has a first character
                    if a.op == "eq0" and "len" in tm.show(a):
                        h = h0
            if h is F:
                out.add(ch)
    return out


# ---------------------------------------------------------------- comparison
class Diff:
    def __init__(self, status, where, what):
        self.status, self.where, self.what = status, where, what


def walk(it):
    """all items within an item or parser"""
    if isinstance(it, P):
        for z in it.items:
            yield from walk(z)
        return
    yield it
    for x in it.a:
        for z in (x if isinstance(x, list) else [x]):
            if isinstance(z, P):
                yield from walk(z)


def has_kind(it, kinds):
    return any(z.kind in kinds for z in walk(it))


def nested_ref(body):
    """the recursion passes through something that takes input first"""
    def go(p, taken):
        for it in p.items:
            if it.kind == "ref" and taken:
                return True
            subs = [z for x in it.a for z in (x if isinstance(x, list) else [x]) if isinstance(z, P)]
            if any(go(z, taken) for z in subs):
                return True
            if not nullable(it):
                taken = True
        return False
    return go(body, False)


def after(items, ch, U, follow, depth=0):
    """what may be left to parse after a first character (conditions ignored)"""
    if depth > 40:
        raise Undecided("depth")
    if not items:
        if follow is None:
            raise Undecided("what follows")
        if ch in follow:
            yield None
        return
    it, rest = items[0], list(items[1:])
    k = it.kind
    go = lambda xs: after(xs, ch, U, follow, depth + 1)
    if k in ("guard", "peek", "not", "on"):
        yield from go(rest)
    elif k == "lit":
        if it.a[0][0] == ch:
            yield ([Item("lit", it.a[0][1:])] if len(it.a[0]) > 1 else []) + rest
    elif k == "one":
        if ch in it.a[0]:
            yield rest
    elif k == "while":
        if ch in it.a[1]:
            yield [Item("while", 0, it.a[1])] + rest
        if not it.a[0]:
            yield from go(rest)
    elif k == "rest of line":
        if ch not in "\r\n":
            yield [it] + rest
        yield from go(rest)
    elif k == "alt":
        for b in it.a[0]:
            yield from go(b.items + rest)
    elif k == "opt":
        yield from go(it.a[0].items + rest)
        yield from go(rest)
    elif k == "recognize":
        yield from go(it.a[0].items + rest)
    elif k == "many":
        if not all(nullable(z) for z in it.a[1].items):
            yield from go(it.a[1].items + [Item("many", 0, it.a[1])] + rest)
            if not it.a[0]:
                yield from go(rest)
        else:
            raise Undecided("repetition of what may be empty")
    elif k == "sep":
        yield from go(it.a[2].items + [Item("many", 0, P(it.a[1].items + it.a[2].items, UNIT))] + rest)
        if not it.a[0]:
            yield from go(rest)
    elif k == "fun":
        nxt = rest[0] if rest else None
        if not (nxt is not None and nxt.kind == "guard" and ch in excluded(nxt.a[0], U)):
            yield [Item("while", 0, frozenset(U))] + rest
    elif k in ("eof", "fail"):
        return
    else:
        raise Undecided(k)


def second(items, U, follow):
    """first character -> characters that may come second"""
    out = {}
    for ch in U:
        for xs in after(list(items), ch, U, follow):
            f = None if xs is None else first(P(xs, UNIT), U) if xs else follow
            if f is None:
                f = frozenset(U) | {END}
            out[ch] = out.get(ch, frozenset()) | f
    return out


def nullable(it, at_end=False):
    k = it.kind
    if k in ("guard", "on", "opt", "peek", "not"):
        return True
    if k == "eof":
        return at_end
    if k == "lit":
        return not it.a[0]
    if k in ("one", "fun", "fail", "rest of line", "ref"):
        return k == "rest of line"
    if k == "while":
        return it.a[0] == 0
    if k in ("many", "sep"):
        return it.a[0] == 0 or all(nullable(z, at_end) for z in it.a[-1].items)
    if k == "alt":
        return any(all(nullable(z, at_end) for z in b.items) for b in it.a[0])
    return all(nullable(z, at_end) for z in it.a[-1].items)


def cont(p, U, at_end=False):
    """characters with which the parser may go on after a complete match (nothing else follows if at_end); None if unknown"""
    out = set()
    for it in reversed(p.items):
        k = it.kind
        if k == "guard":
            continue
        subs = [b for b in it.a[0]] if k == "alt" else [it.a[-1]] if k in ("opt", "many", "sep", "recognize", "mu") else []
        if k in ("fun", "ref", "rest of line", "peek", "not"):
            if k == "rest of line":
                out |= set(U) - {"\n", "\r"}
            elif k in ("fun", "ref"):
                return None
        if k == "while":
            out |= it.a[1]
        for q in subs:
            x = cont(q, U, at_end)
            if x is None:
                return None
            out |= x
        if k in ("opt", "many"):
            f = first(P(it.a[-1].items + [Item("fail")], UNIT), U)
            if f is None:
                return None
            out |= f
        if k == "sep" and not at_end:
            f = first(it.a[1], U)
            if f is None:
                return None
            out |= f
        if not nullable(it):
            break
    return out


def minlen(p):
    n = 0
    for it in p.items:
        k = it.kind
        if k == "lit":
            n += len(it.a[0])
        elif k in ("one", "fun"):
            n += 1
        elif k == "while":
            n += it.a[0]
        elif k == "alt":
            n += min(minlen(b) for b in it.a[0])
        elif k == "recognize":
            n += minlen(it.a[0])
        elif k in ("many", "sep") and it.a[0]:
            n += minlen(it.a[-1])
        elif k in ("mu",):
            n += minlen(it.a[-1])
        elif k == "ref":
            n += 1
    return n


class Compare:
    def __init__(self, ctx, U, ra, rb):
        self.ctx, self.U, self.ra, self.rb = ctx, U, ra, rb
        self.diffs, self.refs, self.funs, self.count, self.binders = [], {}, [], 0, []

    def say(self, status, where, what):
        self.diffs.append(Diff(status, where, what))

    def parsers(self, a, b, where, follow=None):
        """a found, b expected; follow: what can start right behind, if known"""
        if len(a.items) == len(b.items):
            self.items(a, b, where, follow)
            return
        if minlen(a) != minlen(b):
            self.say("violation", where, f"expected {show(b)[:300]}, found {show(a)[:300]}")
            return
        # something that may be empty, or a condition, is missing or added
        for x, y, word in ((a, b, "missing"), (b, a, "added")):
            i = missing(x.items, y.items)
            if i is None:
                continue
            it = y.items[i]
            if it.kind == "guard":
                self.say("violation", where, f"a condition is {word}: {show(it.a[0])[:200]}")
                return
            if it.kind == "on":
                self.say("violation", where, f"{it.a[0]} is {word}")
                return
            if it.kind == "eof":
                self.say("violation", where, f"the end of the input is {word}")
                return
            if it.kind in ("while", "opt", "many", "sep") and self.needed(y.items, i, follow):
                self.say("violation", where, f"{it!r} is {word} before {show(y.items[i + 1] if i + 1 < len(y.items) else 'the end')[:80]}")
                return
        # one instead of any number of times
        for x, y, word in ((a, b, "expected"), (b, a, "found")):
            if len(y.items) == 1 and y.items[0].kind == "many" and y.items[0].a[0] == 1:
                c2 = self.probe(P(x.items, UNIT), P(y.items[0].a[1].items, UNIT))
                if not c2.diffs:
                    f = first(P(x.items, UNIT), self.U)
                    if f is not None and follow is not None and (f - follow - {END}) and not (cont(x, self.U) is None or cont(x, self.U) & f):
                        self.say("violation", where, f"any number of times is {word}: {show(y)[:200]}")
                        return
        self.say("undecided", where, f"expected {show(b)[:200]}, found {show(a)[:200]}")

    def probe(self, a, b):
        c2 = Compare(self.ctx, self.U, self.ra, self.rb)
        c2.refs, c2.binders = dict(self.refs), list(self.binders)
        c2.parsers(a, b, "")
        return c2

    def needed(self, items, i, follow):
        """some input is only matched with item i in place: it starts with a character that the item takes, that nothing before would
        have taken and that nothing behind can start with"""
        f = first(P([items[i], Item("fail")], UNIT), self.U)
        rest = items[i + 1:]
        g = first(P(rest, UNIT), self.U) if rest else follow
        if rest and g is None and follow is not None and all(nullable(z) for z in rest):
            g = first(P(rest + [Item("one", frozenset(follow))], UNIT), self.U)
        if f is None or g is None:
            return False
        before = set()
        ends = all(nullable(z, True) for z in rest)
        for z in reversed(items[:i]):
            k = cont(P([z], UNIT), self.U, ends)
            if k is None:
                return False
            before |= k
            if not nullable(z):
                break
        if f - g - before - {END}:
            return True
        # two characters
        try:
            with_, without = second(items[i:], self.U, follow), second(rest, self.U, follow)
        except Undecided:
            return False
        return any(x not in before and x != END and with_[x] - without.get(x, frozenset()) - {END} for x in with_ if x in f)

    def items(self, a, b, where, follow=None):
        for i, (x, y) in enumerate(zip(a.items, b.items)):
            w = f"{where}.{i}"
            self.count += 1
            if x.kind == "guard" and y.kind == "guard":
                self.value(tm.B(x.a[0]), tm.B(y.a[0]), a, b, i, w + " condition")
            elif {x.kind, y.kind} == {"many", "opt"} and x.a[0] != 1 and y.a[0] != 1 and not self.probe(P(x.a[-1].items, UNIT), P(y.a[-1].items, UNIT)).diffs:
                many = a if x.kind == "many" else b
                if self.needed(many.items, i, follow):
                    self.say("violation", w, f"expected {y!r}, found {x!r}")
                else:
                    self.say("undecided", w, f"expected {y!r}, found {x!r}")
            else:
                rest = b.items[i + 1:]
                self.item(x, y, w, first(P(rest, UNIT), self.U) if rest else follow)
        self.value(a.value, b.value, a, b, len(a.items), where + " value")

    def item(self, x, y, w, follow=None):
        if x.kind != y.kind:
            if "mu" in (x.kind, y.kind):
                m, o = (x, y) if x.kind == "mu" else (y, x)
                body = m.a[1]
                if not has_kind(o, ("mu", "ref")) and nested_ref(body):
                    funs = [z.a[0] for z in walk(o) if z.kind == "fun"]
                    if all((z in self.rb.funs or z in self.ra.funs) and self.ctx.P.find(z) is not None and self.ctx.S.find(z) is not None for z in funs):
                        self.say("violation", w, f"recursion is {'added' if m is x else 'missing'}: {show(m)[:200]}")
                        return
                self.say("undecided", w, f"expected {y!r}, found {x!r}"[:300])
                return
            if "alt" in (x.kind, y.kind):
                self.alts(x.a[0] if x.kind == "alt" else [P([x], x.var)], y.a[0] if y.kind == "alt" else [P([y], y.var)], w, x, y)
            elif {x.kind, y.kind} <= {"lit", "one"}:
                self.say("violation", w, f"expected {y!r}, found {x!r}")
            elif minlen(P([x], UNIT)) != minlen(P([y], UNIT)):
                self.say("violation", w, f"expected {y!r}, found {x!r}")
            elif x.kind in ("one", "lit") and y.kind == "fun" and y.a[0].endswith("::one_cluster"):
                # one code point, where the reference takes a whole cluster of any number of them
                self.say("violation", w, f"expected {y!r}, found {x!r}")
            elif {x.kind, y.kind} <= {"lit", "one", "while", "fun"} and first(P([x], UNIT), self.U) != first(P([y], UNIT), self.U):
                self.say("violation", w, f"expected {y!r}, found {x!r}")
            else:
                self.say("undecided", w, f"expected {y!r}, found {x!r}"[:300])
            return
        k = x.kind
        if k in ("lit", "one", "on"):
            if x.a != y.a:
                self.say("violation", w, f"expected {y!r}, found {x!r}")
        elif k == "while":
            if x.a != y.a:
                d = sorted(set(x.a[1]) ^ set(y.a[1]))[:5]
                self.say("violation", w, f"expected {y!r}, found {x!r}" + (f", differing at {d}" if d else ""))
        elif k == "alt":
            self.alts(x.a[0], y.a[0], w, x, y)
        elif k in ("opt", "recognize", "peek", "not"):
            self.parsers(x.a[0], y.a[0], w + "." + k)
        elif k == "many":
            if x.a[0] != y.a[0]:
                self.say("violation", w, f"at least {y.a[0]} expected, found {x.a[0]}: {show(y)[:120]}")
            self.parsers(x.a[1], y.a[1], w + ".many")
        elif k == "sep":
            if x.a[0] != y.a[0]:
                self.say("violation", w, f"at least {y.a[0]} expected, found {x.a[0]}: {show(y)[:120]}")
            self.parsers(x.a[1], y.a[1], w + ".separator", first(y.a[2], self.U))
            self.parsers(x.a[2], y.a[2], w + ".element")
        elif k == "mu":
            self.refs[x.a[0]] = y.a[0]
            self.parsers(x.a[1], y.a[1], w + ".rec")
        elif k == "ref":
            if self.refs.get(x.a[0]) != y.a[0]:
                self.say("undecided", w, f"recursion to {x.a[0]} instead of {y.a[0]}")
        elif k == "fun":
            if (x.a[0], y.a[0]) not in self.funs:
                self.funs.append((x.a[0], y.a[0]))

    def alts(self, xs, ys, w, x, y):
        if len(xs) == len(ys):
            n = len(self.diffs)
            for j, (p, q) in enumerate(zip(xs, ys)):
                self.parsers(p, q, f"{w}|{j}")
            new = self.diffs[n:]
            if new and len(xs) > 1:
                perm = self.permutation(xs, ys)
                if perm is not None:
                    self.diffs[n:] = []
                    # the same branches in another order
                    for i in range(len(perm)):
                        for j in range(i):
                            if perm[j] > perm[i] and overlap(ys[perm[i]], ys[perm[j]]):
                                self.say("violation", w, f"{show(ys[perm[i]])[:120]} must be tried before {show(ys[perm[j]])[:120]}, both match some inputs")
                                return
                    self.say("undecided", w, "branches in another order")
            return
        # a branch too few or too many
        for us, vs, word in ((xs, ys, "missing"), (ys, xs, "added")):
            if len(us) + 1 == len(vs):
                for j in range(len(vs)):
                    rest = vs[:j] + vs[j + 1:]
                    if self.permutation(us, rest) is not None:
                        f = first(vs[j], self.U)
                        others = [first(q, self.U) for q in rest]
                        if f and all(o is not None for o in others) and f - frozenset().union(*others):
                            self.say("violation", w, f"branch {show(vs[j])[:200]} is {word}")
                            return
                        if len(vs[j].items) == 1 and vs[j].items[0].kind == "lit" and not any(may_start(q, vs[j].items[0].a[0]) for q in rest):
                            self.say("violation", w, f"branch {show(vs[j])[:200]} is {word}")
                            return
        fx = [first(p, self.U) for p in xs]
        fy = [first(p, self.U) for p in ys]
        if all(f is not None for f in fx + fy) and frozenset().union(*fx) != frozenset().union(*fy):
            self.say("violation", w, f"alternatives start differently: expected {show(ys)[:200]}, found {show(xs)[:200]}")
            return
        self.say("undecided", w, f"expected alternatives {show(ys)[:200]}, found {show(xs)[:200]}")

    def permutation(self, xs, ys):
        if len(xs) != len(ys):
            return None
        used, out = set(), []
        for p in xs:
            for j, q in enumerate(ys):
                if j in used:
                    continue
                c2 = self.probe(p, q)
                if not c2.diffs:
                    used.add(j)
                    out.append(j)
                    self.funs += [f for f in c2.funs if f not in self.funs]
                    break
            else:
                return None
        return out

    def value(self, u, v, a, b, upto, w):
        ma, mb, fin = {}, {}, []
        for i, (x, y) in enumerate(zip(a.items[:upto], b.items[:upto])):
            s = raw("param", f"v{i}")
            ma[x.var], mb[y.var] = s, s
            if x.kind == "one" and len(x.a[0]) <= 6:
                fin.append([(s, char(ch)) for ch in sorted(x.a[0])])
            if x.kind == "opt" and len(x.a[0].items) == 1 and x.a[0].items[0].kind == "one" and x.a[0].value is x.a[0].items[0].var and len(x.a[0].items[0].a[0]) <= 6:
                fin.append([(s, tm.NONE)] + [(s, tm.some(char(ch))) for ch in sorted(x.a[0].items[0].a[0])])
        try:
            u, v = tm.replace(u, ma), tm.replace(v, mb)
            for i, y in enumerate(b.items[:upto]):
                if y.kind in ("many", "sep") and y.a[0] == 1 and i < len(a.items) and a.items[i].kind == y.kind and a.items[i].a[0] == 1:
                    s = raw("param", f"v{i}")
                    more = {tm.length(s): tm.add(tm.length(raw("param", f"rest{i}")), c(1))}
                    u, v = tm.replace(u, more), tm.replace(v, more)
            cases = [{}]
            for opts in fin:
                cases = [dict(m, **{}) | {s: t} for m in cases for s, t in opts]
            for m in cases:
                uu, vv = (cn.canon(tm.replace(u, m)), cn.canon(tm.replace(v, m))) if m else (cn.canon(u), cn.canon(v))
                r = cmp.judge(uu, vv, self.ctx.extra)
                if r.status != "ok":
                    self.say(r.status, w, r.detail)
                    return
        except (Undecided, KeyError, AttributeError, TypeError, IndexError, ValueError, AssertionError) as e:
            self.say("undecided", w, f"{type(e).__name__}: {e}")


def shape(it):
    WIDTH[0] = 100000
    try:
        return re.sub(r"gv\(\d+\)", "gv", repr(it))
    finally:
        WIDTH[0] = 60


def missing(xs, ys):
    """position of the one item of ys that xs lacks (by kind and shape)"""
    if len(xs) + 1 != len(ys):
        return None
    key = lambda it: (it.kind, repr(it) if it.kind != "guard" else "")
    ka, kb = [key(x)[0] for x in xs], [key(y)[0] for y in ys]
    cands = [i for i in range(len(ys)) if kb[:i] + kb[i + 1:] == ka]
    if not cands:
        return None
    strip = shape
    for i in cands:
        if [strip(x) for x in xs if x.kind not in ("guard",)] == [strip(y) for j, y in enumerate(ys) if j != i and y.kind not in ("guard",)]:
            return i
    return cands[0] if len(cands) == 1 else None


def may_start(p, s):
    """an input that starts with s may be accepted by p (unless it certainly is not)"""
    if not p.items:
        return True
    it = p.items[0]
    if it.kind == "lit":
        return it.a[0].startswith(s) or s.startswith(it.a[0])
    if it.kind in ("one", "while"):
        return s[0] in it.a[-1]
    return True


def overlap(p, q):
    """some input is matched by both, so their order matters: a literal, and a run of characters with only finitely many words excluded"""
    for x, y in ((p, q), (q, p)):
        if len(x.items) == 1 and x.items[0].kind == "alt":
            if any(overlap(b, y) for b in x.items[0].a[0]):
                return True
        if len(x.items) == 1 and x.items[0].kind == "lit" and y.items and y.items[0].kind == "while" and all(ch in y.items[0].a[1] for ch in x.items[0].a[0]):
            if len(y.items) == 1:
                return True
            if len(y.items) == 2 and y.items[1].kind == "guard":
                ats = tm.atoms_of(y.items[1].a[0])
                if all(a.op in ("eq", "eqc") and any(tm.is_c(z) for z in a.args) for a in ats):
                    g = y.items[1].a[0]
                    for a in list(ats):
                        g = tm.cof(g, a, False)
                    return g is TR
    return False


# ---------------------------------------------------------------- rule
RULE = "the grammar read off the combinators equals the reference grammar"


def grammar(ctx, key):
    name = key.replace("dandy::", "")
    if ctx.P.find(key) is None:
        ctx.unknown(name, key, RULE, "no such function")
        return
    try:
        U = list(BASE_U)
        more = set()
        for prog in (ctx.P, ctx.S):
            for k in prog.bodies:
                if "::parser::" in k and "{closure" not in k and "#" not in k:
                    b = prog.find(k)
                    if b and len(b["params"]) == 1 and "as std" not in k and k.startswith("dandy::parser"):
                        try:
                            mentioned(ctx.summary(prog, k)["ret"], more)
                        except (Undecided, KeyError):
                            pass
        U += sorted(more - set(U))
        rs = [Reader(ctx, ctx.P, U), Reader(ctx, ctx.S, U)]
        ps = [normal(r.nonterminal(key), U) for r in rs]
    except Undecided as e:
        ctx.unknown(name, ctx.where(key), RULE, str(e))
        return
    cm = Compare(ctx, U, *rs)
    cm.parsers(ps[0], ps[1], "")
    bad = [d for d in cm.diffs if d.status == "violation"]
    und = [d for d in cm.diffs if d.status == "undecided"]
    if bad:
        ctx.bad(name, ctx.where(key), RULE, "; ".join(f"at {d.where}: {d.what}" for d in bad[:3]))
    elif und:
        ctx.unknown(name, ctx.where(key), RULE, "; ".join(f"at {d.where}: {d.what}" for d in und[:3]))
    else:
        ctx.ok(name, ctx.where(key), RULE, )
    ctx.extra_counts = getattr(ctx, "extra_counts", 0) + cm.count
    for x, y in cm.funs:
        v = ctx.compare(x, [y], ("ret",), (), None, (), 120)["ret"]
        rule = "hand-written parser equals the reference"
        (ctx.ok if v.status == "ok" else ctx.unknown if v.status == "undecided" else ctx.bad)(x, ctx.where(x), rule, *([] if v.status == "ok" else [v.detail]))


def tables(ctx):
    for f in ("dfa", "nfa"):
        grammar(ctx, "dandy::parser::" + f)


def regexes(ctx):
    grammar(ctx, "dandy::parser::regex")
