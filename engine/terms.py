"""Hash-consed value terms, binary decision diagrams over uninterpreted atoms and the smart
constructors that bring every value-flow summary into one canonical form.

Nothing here executes the analysed program: terms are syntactic summaries of dataflow."""
import sys
import zlib

sys.setrecursionlimit(20000)


class Undecided(Exception):
    """The analysis met something it does not understand or an internal limit."""


# ---------------------------------------------------------------- terms
class T:
    __slots__ = ("op", "args", "id", "fv", "h", "__weakref__")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


_tab = {}
_EMPTY = frozenset()
# abstractions: args = (binder id, source, *body); the binder scopes over body only
from fractions import Fraction
ABS = {"for", "any", "first", "fold", "count", "until", "last", "sumof"}


def _scan(x):
    """(free ids, height) of an argument"""
    if isinstance(x, (T, N)):
        return x.fv, x.h
    if isinstance(x, tuple):
        fv, h = _EMPTY, 0
        for y in x:
            a, b = _scan(y)
            if a:
                fv = fv | a
            if b > h:
                h = b
        return fv, h
    return _EMPTY, 0


def raw(op, *args):
    if op == "lfp":
        args = args[:2] + (tuple(sorted((unorder(x) for x in args[2]), key=sk)),) + args[3:]
    k = (op, args)
    t = _tab.get(k)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.args = args
    t.id = len(_tab)
    if op in ABS:
        sfv, sh = _scan(args[1])
        bfv, bh = _scan(args[2:])
        t.fv = sfv | (bfv - {args[0]})
        t.h = max(sh, bh + 1)
    elif op in ("el", "ix", "mu"):
        t.fv = frozenset((args[0],))
        t.h = 0
    else:
        t.fv, t.h = _scan(args)
    _tab[k] = t
    return t


# ---------------------------------------------------------------- BDDs
_skeys = {}


def skey(x):
    """order key that does not depend on which numbers open binders happen to have"""
    if isinstance(x, tuple):
        return hash(tuple(skey(y) for y in x))
    if isinstance(x, str):
        return zlib.crc32(x.encode())
    if not isinstance(x, (T, N)):
        return hash(x) if isinstance(x, (int, float)) else 7
    k = _skeys.get(x)
    if k is None:
        if isinstance(x, N):
            k = _nkey(x)
        elif x.op in ("el", "ix", "mu"):
            b = x.args[0]
            k = hash((zlib.crc32(x.op.encode()), b if isinstance(b, int) and b < 0 else 1))
        else:
            k = hash((zlib.crc32(x.op.encode()), skey(x.args)))
        _skeys[x] = k
    return k


def _nkey(n):
    if n.v is None:
        return 3 if n is TR else 5
    ats = sorted(atoms_of(n), key=lambda a: (skey(a), a.id))
    if len(ats) > 14:
        return hash(tuple(skey(a) for a in ats))
    memo = {}

    def go(n, i):
        if n.v is None:
            return 3 if n is TR else 5
        r = memo.get(n)
        if r is None:
            a = ats[i]
            lo, hi = cof(n, a, False), cof(n, a, True)
            r = memo[n] = go(lo, i + 1) if lo is hi else hash((skey(a), go(lo, i + 1), go(hi, i + 1)))
        return r
    return go(n, 0)


def sk(t):
    return (skey(t), t.id)


class N:
    __slots__ = ("v", "lo", "hi", "id", "fv", "h", "sz")

    def __repr__(self):
        return show_node(self)


_nodes = {}
_ite = {}
_atoms = {}      # atom term -> order
_atom_list = []
LIMIT = 150000
_budget = [LIMIT]


def new_budget():
    _budget[0] = len(_nodes) + LIMIT
    if len(_ite) > 3000000:
        _ite.clear()


def _mkterm(i):
    n = N()
    n.v = None
    n.lo = n.hi = None
    n.id = i
    n.fv = _EMPTY
    n.h = 0
    n.sz = 1
    return n


F, TR = _mkterm(0), _mkterm(1)


def _node(v, lo, hi):
    if lo is hi:
        return lo
    k = (v, lo.id, hi.id)
    n = _nodes.get(k)
    if n is None:
        if len(_nodes) > _budget[0]:
            raise Undecided("decision diagram limit")
        n = N()
        n.v, n.lo, n.hi = v, lo, hi
        n.id = len(_nodes) + 2
        a = _atom_list[v]
        n.fv = lo.fv | hi.fv | a.fv
        n.h = max(lo.h, hi.h, a.h)
        _nodes[k] = n
    return n


def var(atom):
    i = _atoms.get(atom)
    if i is None:
        i = _atoms[atom] = len(_atom_list)
        _atom_list.append(atom)
    return _node(i, F, TR)


def ite_n(c, a, b):
    if c is TR:
        return a
    if c is F:
        return b
    if a is b:
        return a
    if a is TR and b is F:
        return c
    k = (c.id, a.id, b.id)
    r = _ite.get(k)
    if r is not None:
        return r
    v = min(n.v for n in (c, a, b) if n.v is not None)
    lo = ite_n(*[n.lo if n.v == v else n for n in (c, a, b)])
    hi = ite_n(*[n.hi if n.v == v else n for n in (c, a, b)])
    r = _node(v, lo, hi)
    _ite[k] = r
    return r


def AND(*xs):
    r = TR
    for x in xs:
        r = ite_n(r, x, F)
    return r


def OR(*xs):
    r = F
    for x in xs:
        r = ite_n(r, TR, x)
    return r


def NOT(x):
    return ite_n(x, F, TR)


def XNOR(a, b):
    return ite_n(a, b, NOT(b))


def IMPLIES(a, b):
    """does a imply b (as decision diagrams)"""
    return AND(a, NOT(b)) is F


def atoms_of(n, acc=None):
    if acc is None:
        acc = {}
    seen = set()
    st = [n]
    while st:
        x = st.pop()
        if x.v is None or x.id in seen:
            continue
        seen.add(x.id)
        acc[_atom_list[x.v]] = True
        st += [x.lo, x.hi]
    return list(acc)


def cof(n, atom, val):
    """cofactor with respect to one atom"""
    i = _atoms.get(atom)
    if i is None:
        return n
    memo = {}

    def go(x):
        if x.v is None or x.v > i:
            return x
        r = memo.get(x.id)
        if r is None:
            if x.v == i:
                r = x.hi if val else x.lo
            else:
                r = _node(x.v, go(x.lo), go(x.hi))
            memo[x.id] = r
        return r
    return go(n)


def restrict(f, care):
    """simplify f under the care set (generalised cofactor)"""
    if care is TR or f.v is None:
        return f
    if care is F:
        return f
    memo = {}

    def go(f, c):
        if c is TR or f.v is None:
            return f
        k = (f.id, c.id)
        if k in memo:
            return memo[k]
        if c.v < f.v:
            r = go(f, OR(c.lo, c.hi))
        else:
            cl, ch = (c.lo, c.hi) if c.v == f.v else (c, c)
            if cl is F:
                r = go(f.hi, ch)
            elif ch is F:
                r = go(f.lo, cl)
            else:
                r = _node(f.v, go(f.lo, cl), go(f.hi, ch))
        memo[k] = r
        return r
    return go(f, care)


def paths(n, limit=64):
    """all satisfying paths as lists of (atom, bool)"""
    out = []

    def go(x, acc):
        if len(out) > limit:
            raise Undecided("too many paths")
        if x is F:
            return
        if x is TR:
            out.append(list(acc))
            return
        a = _atom_list[x.v]
        go(x.lo, acc + [(a, False)])
        go(x.hi, acc + [(a, True)])
    go(n, [])
    return out


# ---------------------------------------------------------------- basic constructors
def c(v):
    # keep python bool / int apart
    return raw("c", type(v).__name__, v)


UNIT = raw("tup", ())


def is_c(t):
    return t.op == "c"


def cval(t):
    return t.args[1]


def is_int(t):
    return t.op == "c" and t.args[0] == "int"


def B(n):
    if n is TR:
        return c(True)
    if n is F:
        return c(False)
    if n.lo is F and n.hi is TR:
        a = _atom_list[n.v]
        if a.op == "tst":
            return a.args[0]
    return raw("b", n)


def as_bool(t):
    if t.op == "b":
        return t.args[0]
    if t.op == "c" and t.args[0] == "bool":
        return TR if t.args[1] else F
    if t.op == "gate":
        r = F
        for g, v in t.args[0]:
            r = OR(r, AND(g, as_bool(v)))
        return r
    return var(raw("tst", t))


def boolish(t):
    if t.op == "b" or (t.op == "c" and t.args[0] == "bool"):
        return True
    if t.op == "gate":
        return all(boolish(v) for _, v in t.args[0])
    return False


def tup(*xs):
    # eta: (x.0, x.1, ..) is x
    if xs and all(x.op == "fld" and x.args[1] == str(i) and x.args[0] is xs[0].args[0] for i, x in enumerate(xs)):
        base = xs[0].args[0]
        if base in _tuple_arity and _tuple_arity[base] == len(xs):
            return base
    return raw("tup", tuple(xs))


_tuple_arity = {}   # symbolic bases known to be tuples of that length
ADTS = {}           # adt path -> [(variant, [field names])]
OPT = "std::option::Option"
RES = "std::result::Result"
ADTS["std::cmp::Ordering"] = [("Less", []), ("Equal", []), ("Greater", [])]
ADTS[OPT] = [("None", []), ("Some", ["0"])]
ADTS[RES] = [("Ok", ["0"]), ("Err", ["0"])]
CF = "std::ops::ControlFlow"
ADTS["std::ops::RangeFrom"] = [("RangeFrom", ["start"])]
ADTS["std::ops::Range"] = [("Range", ["start", "end"])]
ADTS[CF] = [("Continue", ["0"]), ("Break", ["0"])]


MASK = set()     # (adt, field) pairs an obligation does not speak about
MASKED = raw("masked")


def agg(adt, variant, fields):
    """fields: iterable of (name, T)"""
    fields = tuple(sorted(fields, key=lambda p: p[0]))
    if MASK:
        fields = tuple((n, MASKED if (adt, n) in MASK else v) for n, v in fields)
    if adt == OPT and variant == "Some" and fields[0][1].op == "pay" and fields[0][1].args[1] == "Some":
        return fields[0][1].args[0]
    # eta contraction for structs: {f: x.f, ..} is x
    vs = ADTS.get(adt)
    if vs and len(vs) == 1 and fields:
        f0 = next((v for _, v in fields if v is not MASKED), MASKED)
        if f0.op == "fld" and len(fields) == len(vs[0][1]):
            base = f0.args[0]
            if all(v is MASKED or v.op == "fld" and v.args[0] is base and v.args[1] == n for n, v in fields):
                return base
    return raw("agg", adt, variant, fields)


def some(x):
    return agg(OPT, "Some", (("0", x),))


NONE = agg(OPT, "None", ())


def ok(x):
    return agg(RES, "Ok", (("0", x),))


def err(x):
    return agg(RES, "Err", (("0", x),))


def agg_get(a, f):
    for n, v in a.args[2]:
        if n == f:
            return v
    return None


# ---------------------------------------------------------------- gates
def gate_of(leaves):
    """leaves: dict leaf -> node (disjoint)"""
    items = [(g, v) for v, g in leaves.items() if g is not F]
    if not items:
        raise Undecided("empty gate")
    if len(items) == 1:
        return items[0][1]
    if all(boolish(v) or v.op in ("fld",) for _, v in items) and any(boolish(v) for _, v in items):
        r = F
        for g, v in items:
            r = OR(r, AND(g, as_bool(v)))
        return B(r)
    items.sort(key=lambda p: sk(p[1]))
    return raw("gate", tuple(items))


def leaves(t):
    """[(guard, leaf)]"""
    if t.op == "gate":
        return list(t.args[0])
    return [(TR, t)]


def ite(cn, a, b):
    if a is b or cn is TR:
        return a
    if cn is F:
        return b
    if boolish(a) or boolish(b):
        return B(ite_n(cn, as_bool(a), as_bool(b)))
    if a.op == "agg" and b.op == "agg" and a.args[:2] == b.args[:2]:
        return agg(a.args[0], a.args[1], [(n, ite(cn, v, agg_get(b, n))) for n, v in a.args[2]])
    if a.op == "tup" and b.op == "tup" and len(a.args[0]) == len(b.args[0]):
        return tup(*[ite(cn, x, y) for x, y in zip(a.args[0], b.args[0])])
    if a.op == "seq" or b.op == "seq":
        m = merge_seq(cn, a, b)
        if m is not None:
            return m
    # struct built on one side only: expand the other
    for x, y, flip in ((a, b, False), (b, a, True)):
        if x.op == "agg" and y.op in ("fld", "el", "mu", "param", "pay", "at", "app", "idx", "new"):
            vs = ADTS.get(x.args[0])
            if vs and len(vs) == 1 and vs[0][1]:
                y2 = raw("agg", x.args[0], x.args[1], tuple(sorted((f, fld(y, f)) for f in vs[0][1])))
                return agg(x.args[0], x.args[1],
                           [(n, ite(cn, *((v, agg_get(y2, n)) if not flip else (agg_get(y2, n), v)))) for n, v in x.args[2]])
    lv = {}
    for g, v in leaves(a):
        lv[v] = OR(lv.get(v, F), AND(cn, g))
    nc = NOT(cn)
    for g, v in leaves(b):
        lv[v] = OR(lv.get(v, F), AND(nc, g))
    # merge leaves of the same shape (same variant of the same type)
    return merge_leaves(lv)


def merge_leaves(lv):
    by = {}
    for v, g in lv.items():
        if g is F:
            continue
        k = (v.op, v.args[0], v.args[1]) if v.op == "agg" else (v.op, len(v.args[0])) if v.op == "tup" else v
        by.setdefault(k, []).append((g, v))
    out = {}
    for k, xs in by.items():
        if len(xs) == 1:
            g, v = xs[0]
        else:
            g = OR(*[x for x, _ in xs])
            v = xs[-1][1]
            for gx, vx in reversed(xs[:-1]):
                v = ite(restrict(gx, g), vx, v)
        out[v] = OR(out.get(v, F), g)
    return gate_of(out)


def mapgate(t, f):
    """apply f to every leaf; f returns a T"""
    if t.op != "gate":
        return f(t)
    r = None
    for g, v in reversed(t.args[0]):
        x = f(v)
        r = x if r is None else ite(g, x, r)
    return r


def mapgate_n(t, f):
    """apply f to every leaf; f returns a node"""
    if t.op != "gate":
        return f(t)
    r = F
    for g, v in t.args[0]:
        r = OR(r, AND(g, f(v)))
    return r


# ---------------------------------------------------------------- arithmetic
def lin_parts(t):
    """(dict term->coef, const)"""
    if is_int(t):
        return {}, t.args[1]
    if t.op == "lin":
        return dict(t.args[0]), t.args[1]
    return {t: 1}, 0


def mklin(d, k):
    d = {t: n for t, n in d.items() if n}
    if not d:
        return c(k)
    if k == 0 and len(d) == 1:
        (t, n), = d.items()
        if n == 1:
            return t
    return raw("lin", tuple(sorted(d.items(), key=lambda p: sk(p[0]))), k)


def add(a, b, sign=1):
    if a.op == "gate":
        return mapgate(a, lambda x: add(x, b, sign))
    if b.op == "gate":
        return mapgate(b, lambda x: add(a, x, sign))
    d, k = lin_parts(a)
    d2, k2 = lin_parts(b)
    for t, n in d2.items():
        d[t] = d.get(t, 0) + sign * n
    return mklin(d, k + sign * k2)


def sub(a, b):
    return add(a, b, -1)


def mul(a, b):
    if a.op == "gate":
        return mapgate(a, lambda x: mul(x, b))
    if b.op == "gate":
        return mapgate(b, lambda x: mul(a, x))
    if is_int(b):
        a, b = b, a
    if is_int(a):
        d, k = lin_parts(b)
        n = a.args[1]
        return mklin({t: x * n for t, x in d.items()}, k * n)
    return app("mul", *sorted((a, b), key=sk))


def bounds(x):
    """least and greatest value of a running number"""
    s = SRC.get(x.args[0]) if x.op in ("ix", "el") else None
    if s is None:
        return None
    while s.op in ("until", "before") and (x.op == "el" or s.op == "until"):
        s = s.args[1]
    if x.op == "el":
        while s.op == "rev":
            s = s.args[0]
        return (s.args[0], sub(s.args[1], c(1))) if s.op == "range" else None
    if s.op == "before":
        return c(0), sub(s.args[0], c(1))
    if s.op == "range" and s.args[0] is c(0):
        return c(0), sub(s.args[1], c(1))
    return None


def extremes(t, d):
    """what t is at least and at most, by the range of one running number in it"""
    for x, n in d.items():
        if n in (1, -1) and x.op in ("ix", "el"):
            r = bounds(x)
            if r is not None and r[0].op in ("c", "lin", "len", "ix", "el", "fld", "param") and r[1].op in ("c", "lin", "len", "ix", "el", "fld", "param"):
                rest = sub(t, mul(c(n), x))
                lo, hi = (add(rest, r[0]), add(rest, r[1])) if n == 1 else (sub(rest, r[1]), sub(rest, r[0]))
                yield lo, hi


def sign(t, up):
    """t >= 0 (up) or t < 0 for sure: every atomic quantity is non-negative"""
    d, k = lin_parts(t)
    return k >= 0 and all(n > 0 for n in d.values()) if up else k < 0 and all(n < 0 for n in d.values())


def found_at(x):
    b, src, g, v = open_(x)
    return v is raw("ix", b) and src.op not in ("range", "lfp", "while", "ever")


def shrinks(d):
    """d is (size after minimising) - (size before), which is never positive: 1; the opposite: -1"""
    if len(d) != 2:
        return 0
    for x, n in d.items():
        a = _states_of(x)
        if n in (1, -1) and a is not None and a.op == "app" and a.args[0].startswith("op:") and a.args[0].endswith("::Dfa::minimize!0"):
            (y,) = [z for z in d if z is not x]
            if d[y] == -n and _states_of(y) is a.args[1][0]:
                return n
    return 0


def _states_of(x):
    if x.op == "len" and x.args[0].op == "app" and x.args[0].args[0].startswith("op:") and x.args[0].args[0].endswith("::Dfa::states"):
        return x.args[0].args[1][0]
    return None


def ge0(t):
    if t.op == "gate":
        return mapgate_n(t, ge0)
    d, k = lin_parts(t)
    if not d:
        return TR if k >= 0 else F
    w = shrinks(d)
    if w == 1 and k <= 0:
        return eq0(t) if k == 0 else F
    if w == -1 and k >= -1:
        return TR if k >= 0 else NOT(eq0(add(t, c(1))))
    for lo, hi in extremes(t, d):
        if sign(lo, True):
            return TR
        if sign(hi, False):
            return F
        if hi is c(0):
            return eq0(t)
        if lo is c(-1):
            return NOT(eq0(add(t, c(1))))
    # every atomic quantity is a count or an index, hence non-negative
    if all(n > 0 for n in d.values()) and k >= 0:
        return TR
    if all(n < 0 for n in d.values()) and k < 0:
        return F
    if len(d) == 1:
        (x, n), = d.items()
        if n == 1 and k == -1:
            return NOT(eq0(x))
        if n == -1 and k == 0:
            return eq0(x)
    if k in (0, -1) and len(d) >= 2 and all(n in (1, -1) for n in d.values()):
        for x, n in d.items() if len(d) == 2 else ():
            if x.op == "ix" and SRC.get(x.args[0]) is not None and SRC[x.args[0]].op not in ("lfp", "while", "ever"):
                # an index is below the length of what it runs over
                if sub(t, c(k)) is (sub(length(SRC[x.args[0]]), x) if n < 0 else sub(x, length(SRC[x.args[0]]))):
                    if n < 0:
                        return TR
                    return F
            if x.op in ("first", "last") and x.args[0] is not None and found_at(x):
                # so is the position where an element was found
                if sub(t, c(k)) is (sub(length(x.args[1]), x) if n < 0 else sub(x, length(x.args[1]))):
                    return TR if n < 0 else F
        r = all_distinct(t)
        if r is not None:
            st, isneg = r
            # len(set) <= len(src) always
            if k == 0:
                return TR if isneg else st
            return NOT(st) if isneg else F
    first = min(d, key=sk)
    if d[first] < 0:
        return NOT(var(raw("ge0", mklin({x: -n for x, n in d.items()}, -k - 1))))
    return var(raw("ge0", t))


def all_distinct(t):
    """t = +-(number of different keys of a list - length of the list) -> (no key occurs twice, key side negative)"""
    d, k = lin_parts(t)
    for x, n in d.items():
        if x.op != "len" or n not in (1, -1):
            continue
        q = x.args[0]
        if q.op == "until" and len(d) == 2 and sub(t, mul(c(n), sub(x, length(q.args[1])))) is c(k):
            # what is left of a list that is cut where something happens
            b, src, g = open_(q)
            return NOT(any_(b, src, g)), n < 0
        if q.op != "seq" or q.args[0] not in ("set", "map", "bset", "bmap") or not q.args[1]:
            continue
        parts, total = [], c(0)
        for g in q.args[1]:
            if g.op == "all":
                parts.append((g.args[0], lambda bb: dictkey(q.args[0], el(bb))))
            elif g.op == "for":
                b, src, inner = open_(g)
                if len(inner) != 1 or inner[0].op != "one" or inner[0].args[0] is not TR:
                    parts = None
                    break
                kk = dictkey(q.args[0], inner[0].args[1])
                parts.append((src, lambda bb, b=b, kk=kk: subst(kk, {raw("el", b): el(bb), raw("ix", b): ix(bb)})))
            else:
                parts = None
                break
            total = add(total, length(parts[-1][0]))
        if not parts or sub(t, mul(c(n), sub(x, total))) is not c(k):
            continue
        rep = F
        for i, (src, key) in enumerate(parts):
            b2 = fresh(src)
            b1 = fresh(raw("before", ix(b2), src))
            again = any_(b1, raw("before", ix(b2), src), eq(key(b1), key(b2)))
            for src0, key0 in parts[:i]:
                b1 = fresh(src0)
                again = OR(again, any_(b1, src0, eq(key0(b1), key(b2))))
            rep = OR(rep, any_(b2, src, again))
        return NOT(rep), n < 0
    return None


def eq0(t):
    if t.op == "gate":
        return mapgate_n(t, eq0)
    d, k = lin_parts(t)
    if not d:
        return TR if k == 0 else F
    for lo, hi in extremes(t, d):
        if sign(sub(lo, c(1)), True) or sign(hi, False):
            return F
    if k == 0 and len(d) >= 2 and all(n in (1, -1) for n in d.values()):
        r = all_distinct(t)
        if r is not None:
            return r[0]
    if all(n > 0 for n in d.values()) and k > 0:
        return F
    if all(n < 0 for n in d.values()) and k < 0:
        return F
    first = min(d, key=sk)
    if d[first] < 0:
        t = mklin({x: -n for x, n in d.items()}, -k)
        d, k = lin_parts(t)
    if len(d) == 1 and k == 0:
        (x, n), = d.items()
        e = empty_of(x)
        if e is not None:
            return e
        return var(raw("eq0", x))
    for x, n in d.items():
        # position of the first element with g, compared with a position
        if x.op == "first" and n in (1, -1):
            b, src, g, v = open_(x)
            if v is raw("ix", b) and src.op not in ("range", "before", "until"):
                i = mul(c(-n), sub(t, mul(c(n), x)))
                if i.op == "ix":
                    b2 = fresh(raw("before", i, src))
                    m = lambda y, e, j: sub_any(y, {raw("el", b): e, raw("ix", b): j}, frozenset((b,)), {})
                    return AND(m(g, idx(src, i), i), NOT(any_(b2, raw("before", i, src), m(g, el(b2), ix(b2)))))
    if len(d) == 1 and list(d.values()) == [1] and k < 0:
        (x, n), = d.items()
        return onehot(x, c(-k))
    return var(raw("eq0", t))


def empty_of(x):
    """len(seq)==0 for explicitly built sequences"""
    if x.op == "len" and x.args[0].op == "seq":
        return is_empty(x.args[0])
    return None


_onehot = {}


def onehot(x, k):
    """x == constant k; constants of the same x exclude each other"""
    lst = _onehot.setdefault(x, [])
    if k not in lst:
        lst.append(k)
    r = TR
    for y in lst:
        a = var(raw("eqc", x, y))
        if y is k:
            return AND(r, a)
        r = AND(r, NOT(a))


# ---------------------------------------------------------------- equality and variants
def eq(a, b):
    if a is b:
        return TR
    if boolish(a) or boolish(b):
        return XNOR(as_bool(a), as_bool(b))
    if a.op == "gate":
        return mapgate_n(a, lambda x: eq(x, b))
    if b.op == "gate":
        return mapgate_n(b, lambda x: eq(a, x))
    if is_c(a) and is_c(b):
        return TR if a.args == b.args else F
    if a.op == "agg" and b.op == "agg":
        if a.args[1] != b.args[1]:
            return F
        return AND(*[eq(v, agg_get(b, n)) for n, v in a.args[2]])
    if b.op == "agg":
        a, b = b, a
    if a.op == "agg":
        vs = ADTS.get(a.args[0])
        if vs and len(vs) > 1:
            r = is_variant(b, a.args[0], a.args[1])
            return AND(r, *[eq(v, pay(b, a.args[1], n)) for n, v in a.args[2]])
        return AND(*[eq(v, fld(b, n)) for n, v in a.args[2]])
    if b.op == "tup":
        a, b = b, a
    if a.op == "tup":
        if b.op == "tup":
            if len(a.args[0]) != len(b.args[0]):
                return F
            return AND(*[eq(x, y) for x, y in zip(a.args[0], b.args[0])])
        return AND(*[eq(x, fld(b, str(i))) for i, x in enumerate(a.args[0])])
    if a.op == "app" and b.op == "app" and a.args[0] == "num" and b.args[0] == "num":
        return eq(a.args[1][0], b.args[1][0])
    if a.op == "sorted" and b.op == "sorted" and len(a.args) == 1 and len(b.args) == 1 and a.args[0].op == "seq" and b.args[0].op == "seq":
        return eq(as_set(a.args[0]), as_set(b.args[0]))
    if is_int(a) or is_int(b) or a.op in ("lin", "len", "count", "ix") or b.op in ("lin", "len", "count", "ix"):
        return eq0(sub(a, b))
    if is_c(b):
        a, b = b, a
    if is_c(a):
        return onehot(b, a)
    if a.op == "seq" and b.op == "seq" and not a.args[1] and not b.args[1]:
        return TR
    if b.id < a.id:
        a, b = b, a
    return var(raw("eq", a, b))


def as_set(x):
    return seq("set", list(x.args[1])) if x.op == "seq" else x


def variants(adt):
    return [v for v, _ in ADTS.get(adt, [])]


def is_variant(x, adt, v):
    if x.op == "gate":
        return mapgate_n(x, lambda y: is_variant(y, adt, v))
    if x.op == "agg":
        return TR if x.args[1] == v else F
    if adt == OPT:
        pos = opt_some(x)
        return pos if v == "Some" else NOT(pos)
    vs = variants(adt)
    if not vs or v not in vs:
        raise Undecided(f"unknown variant {adt}::{v}")
    if len(vs) == 1:
        return TR
    r = TR
    for w in vs:
        if w == vs[-1]:
            return r
        a = var(raw("is", x, w))
        if w == v:
            return AND(r, a)
        r = AND(r, NOT(a))


def opt_some(x):
    if x.op == "get":
        return member(x.args[0], x.args[1])
    if x.op == "ifsome":         # (cond, value)
        return x.args[0]
    if x.op == "popped":
        return NOT(eq0(length(x.args[0])))
    if x.op == "nth":            # element number k of a list
        return ge0(sub(sub(length(x.args[0]), x.args[1]), c(1)))
    return var(raw("is", x, "Some"))


def pay(x, v, f):
    if x.op == "agg":
        if x.args[1] == v:
            r = agg_get(x, f)
            if r is not None:
                return r
        return raw("bot")
    if x.op == "gate":
        good = [(g, y) for g, y in x.args[0] if not (y.op == "agg" and y.args[1] != v)]
        if not good:
            return raw("bot")
        r = pay(good[-1][1], v, f)
        cover = OR(*[g for g, _ in good])
        for g, y in reversed(good[:-1]):
            r = ite(restrict(g, cover), pay(y, v, f), r)
        return r
    if x.op == "get" and v == "Some":
        return at(x.args[0], x.args[1])
    if x.op == "nth" and v == "Some":
        return idx(x.args[0], x.args[1])
    return raw("pay", x, v, f)


def fld(x, f):
    if x.op == "agg":
        r = agg_get(x, f)
        return r if r is not None else raw("bot")
    if x.op == "tup":
        i = int(f)
        return x.args[0][i] if i < len(x.args[0]) else raw("bot")
    if x.op == "gate":
        return mapgate(x, lambda y: fld(y, f))
    if x.op == "bot":
        return x
    if x.op == "with":
        return x.args[2] if x.args[1] == f else fld(x.args[0], f)
    return raw("fld", x, f)


def fpoly(t):
    """arithmetic on reals as a sum of products: {sorted factors: coefficient}"""
    if t.op == "c" and t.args[0] == "float":
        v = Fraction(str(t.args[1]))
        return {(): v} if v else {}
    if t.op == "app":
        f, xs = t.args[0], t.args[1]
        if f == "fsum":
            out = {}
            for x in xs:
                for m, k in fpoly(x).items():
                    out[m] = out.get(m, 0) + k
            return {m: k for m, k in out.items() if k}
        if f == "fprod":
            out = {(): Fraction(1)}
            for x in xs:
                y, nx = fpoly(x), {}
                for m, k in out.items():
                    for n, l in y.items():
                        q = tuple(sorted(m + n, key=sk))
                        nx[q] = nx.get(q, 0) + k * l
                out = nx
            return {m: k for m, k in out.items() if k}
    return {(t,): Fraction(1)}


def fbuild(d):
    """the canonical term of such a sum"""
    out = []
    for m, k in sorted(d.items(), key=lambda p: tuple(sk(x) for x in p[0])):
        k = raw("c", "float", str(k))
        out.append(k if not m else m[0] if len(m) == 1 and k.args[1] == "1" else raw("app", "fprod", (k,) + m))
    return raw("c", "float", "0") if not out else out[0] if len(out) == 1 else raw("app", "fsum", tuple(out))


def farith(f, args):
    if f in ("fsum", "fprod"):
        return fbuild(fpoly(raw("app", f, tuple(args))))
    a = fpoly(args[0])
    if f == "fneg":
        return fbuild({m: -k for m, k in a.items()})
    if f == "fadd":
        return fbuild(fpoly(raw("app", "fsum", tuple(args))))
    if f == "fsub":
        return fbuild(fpoly(raw("app", "fsum", (args[0], farith("fneg", (args[1],))))))
    if f == "fmul":
        return fbuild(fpoly(raw("app", "fprod", tuple(args))))
    b = fpoly(args[1])
    if set(b) == {()}:
        return fbuild({m: k / b[()] for m, k in a.items()})
    return raw("app", f, tuple(args))


FARITH = ("fsum", "fprod", "fneg", "fadd", "fsub", "fmul", "fdiv")


def app(f, *args):
    if f in FARITH:
        for i, x in enumerate(args):
            if x.op == "gate":
                return mapgate(x, lambda y: app(f, *args[:i], y, *args[i + 1:]))
        return farith(f, args)
    if f == "join" and args[1] is c("") and args[0].op == "seq" and args[0].args[0] == "vec":
        # the pieces one after another
        return seq("str", list(args[0].args[1]))
    if f.startswith("op:dandy") and any(a.op == "gate" for a in args):
        # a call on a choice is the choice of the calls
        n = 1
        for a in args:
            n *= len(leaves(a))
        if n <= (64 if f.startswith("op:dandy_") else 12):
            i = next(i for i, a in enumerate(args) if a.op == "gate")
            return mapgate(args[i], lambda x: app(f, *args[:i], x, *args[i + 1:]))
    if f in LANG_EQ and len(args) == 2 or f in LANG_ARG:
        return by_language(f, args)
    return raw("app", f, tuple(args))


# library functions whose result depends only on the language (and the alphabet) of their argument, and functions that
# keep the language: rules that look at the latter themselves do not leave them as calls
_D, _N = "op:dandy::dfa::Dfa::", "op:dandy::nfa::Nfa::"
LANG_EQ = (_D + "equivalent_to", _N + "equivalent_to")
LANG_ARG = (_D + "accepts", _N + "accepts", _D + "accepts_graphemes", _N + "accepts_graphemes", _N + "words", _N + "word_components",
            _N + "word_component_indices")
LANG_SAME = (_D + "to_nfa", _N + "to_dfa", _D + "minimize!0", _D + "remove_unreachable_states!0", _D + "merge_nondistinguishable_states!0",
             _N + "remove_unreachable_states!0", _N + "remove_epsilon_moves!0", _N + "optimize!0")


def language_of(x):
    while x.op == "app" and x.args[0] in LANG_SAME and len(x.args[1]) == 1:
        x = x.args[1][0]
    return x


def by_language(f, args):
    if f in LANG_EQ:
        return raw("app", "op:dandy::equivalent", tuple(sorted((language_of(a) for a in args), key=sk)))
    x = args[0]
    if "::word" in f:
        # only enumerates an automaton without epsilon moves
        if not (x.op == "app" and x.args[0] in (_D + "to_nfa", _N + "remove_epsilon_moves!0")):
            return raw("app", f, tuple(args))
        return raw("app", f, (raw("app", "op:dandy::plain", (language_of(x),)),) + tuple(args[1:]))
    return raw("app", "op:dandy::" + f.rsplit("::", 1)[1], (language_of(x),) + tuple(args[1:]))


def strip_ref(x):
    return x


# ---------------------------------------------------------------- sequences
# seq(kind, segs); segments: one(guard, elem) | for(b, src, segs) | all(src) | rep(x, n)
def one(g, e):
    return raw("one", g, e)


def unorder(s):
    """a segment whose elements go into a set: the order of its parts does not matter"""
    if s.op == "for" and (len(s.args[2]) > 1 or s.args[2][0].op == "for"):
        inner = tuple(sorted((unorder(x) for x in s.args[2]), key=sk))
        if inner != s.args[2]:
            return raw("for", s.args[0], s.args[1], inner)
    return s


def seq(kind, segs):
    out = []
    for s in segs:
        if s.op == "one":
            if s.args[0] is F:
                continue
        elif s.op == "all":
            src = s.args[0]
            if src.op == "seq":
                out += list(src.args[1])
                continue
        out.append(s)
    if kind in ("set",):
        d = {}
        rest = []
        for s in out:
            if s.op == "one":
                d[s.args[1]] = OR(d.get(s.args[1], F), s.args[0])
            else:
                s = unorder(s)
                if s not in rest:
                    rest.append(s)
        out = sorted(rest, key=sk) + [one(g, e) for e, g in sorted(d.items(), key=lambda p: sk(p[0]))]
    if kind == "str":
        o2 = []
        for s in out:
            if (s.op == "one" and s.args[0] is TR and s.args[1].op == "c" and s.args[1].args[0] == "str"):
                if s.args[1].args[1] == "":
                    continue
                if o2 and o2[-1].op == "one" and o2[-1].args[0] is TR and o2[-1].args[1].op == "c":
                    o2[-1] = one(TR, c(o2[-1].args[1].args[1] + s.args[1].args[1]))
                    continue
            o2.append(s)
        out = o2
        if not out:
            return c("")
        if len(out) == 1 and out[0].op == "one" and out[0].args[0] is TR:
            return out[0].args[1]
    return raw("seq", kind, tuple(out))


def empty(kind):
    return seq(kind, ())


def segs_of(x):
    """segments of any collection-valued term"""
    if x.op == "seq":
        return list(x.args[1])
    if x.op == "c" and x.args[0] == "str":
        return [one(TR, x)] if x.args[1] else []
    return [all_(x)]


def str_segs(x):
    if x.op == "seq" and x.args[0] == "str":
        return list(x.args[1])
    if x.op == "c" and x.args[1] == "":
        return []
    return [one(TR, x)]


def all_(src):
    return raw("all", src)


_fresh = [1]
SRC = {}     # open binder -> source


def fresh(src=None):
    _fresh[0] += 1
    SRC[_fresh[0]] = src
    return _fresh[0]


def el(b):
    s = SRC.get(b)
    if s is not None and s.op == "range" and is_c(s.args[0]) and s.args[0].args[1] == 0:
        return raw("ix", b)
    return raw("el", b)


def ix(b):
    return raw("ix", b)


def close(op, b, src, *body):
    fv, h = _scan(body)
    nb = -(h + 1)
    if b != nb:
        m = {raw("el", b): raw("el", nb), raw("ix", b): raw("ix", nb), raw("mu", b): raw("mu", nb)}
        body = tuple(sub_any(x, m, frozenset((b,)), {}) for x in body)
    return raw(op, nb, src, *body)


def open_(t):
    """-> (fresh binder, src, *body)"""
    b = t.args[0]
    src = t.args[1]
    nb = fresh(src)
    m = {raw("el", b): el(nb), raw("ix", b): raw("ix", nb), raw("mu", b): raw("mu", nb)}
    body = tuple(sub_any(x, m, frozenset((b,)), {}) for x in t.args[2:])
    return (nb, src) + body


def for_(b, src, segs):
    segs = [s for s in segs if not (s.op == "one" and s.args[0] is F)]
    if not segs:
        return None
    if len(segs) == 1 and segs[0].op == "one" and segs[0].args[0] is TR and segs[0].args[1] is raw("el", b):
        return all_(src)
    if src.op == "seq":
        fused = fuse(b, src, segs)
        if fused is not None:
            return fused
    return close("for", b, src, tuple(segs))


def fuse(b, src, segs):
    """for b over an explicitly built sequence; returns a list of segments or None"""
    uses_ix = raw("ix", b).fv & _scan(tuple(segs))[0] and _uses(tuple(segs), raw("ix", b))
    out = []
    for s in src.args[1]:
        if s.op == "one":
            if uses_ix:
                return None
            for x in segs:
                y = sub_any(x, {raw("el", b): s.args[1]}, frozenset((b,)), {})
                out += guard_seg(s.args[0], y)
        elif s.op == "all":
            if uses_ix and len(src.args[1]) > 1:
                return None
            nb = fresh(s.args[0])
            r = for_(nb, s.args[0], [sub_any(x, {raw("el", b): el(nb), raw("ix", b): ix(nb)}, frozenset((b,)), {}) for x in segs])
            out += r if isinstance(r, list) else [r]
        elif s.op == "for":
            if uses_ix and not (len(src.args[1]) == 1 and len(s.args[2]) == 1 and s.args[2][0].op == "one" and s.args[2][0].args[0] is TR):
                return None
            nb, ssrc, inner = open_(s)
            body = []
            for i in inner:
                if i.op == "one":
                    for x in segs:
                        y = sub_any(x, {raw("el", b): i.args[1], raw("ix", b): ix(nb)}, frozenset((b,)), {})
                        body += guard_seg(i.args[0], y)
                else:
                    q = fuse(b, raw("seq", "vec", (i,)), segs)
                    if q is None:
                        return None
                    body += q
            r = for_(nb, ssrc, body)
            if r is not None:
                out += r if isinstance(r, list) else [r]
        else:
            return None
    return out


def _uses(x, t):
    if x is t:
        return True
    if isinstance(x, T):
        if not (x.fv & t.fv):
            return False
        return any(_uses(y, t) for y in x.args)
    if isinstance(x, N):
        if not (x.fv & t.fv):
            return False
        return any(_uses(a, t) for a in atoms_of(x))
    if isinstance(x, tuple):
        return any(_uses(y, t) for y in x)
    return False


uses = _uses


def guard_seg(g, s):
    """list of segments: s under guard g"""
    if g is TR:
        return [s]
    if g is F:
        return []
    if s.op == "one":
        return [one(AND(g, s.args[0]), s.args[1])]
    if s.op == "all":
        b = fresh(s.args[0])
        r = for_(b, s.args[0], [one(g, el(b))])
        return r if isinstance(r, list) else [r]
    if s.op == "for":
        b, src, inner = open_(s)
        body = []
        for i in inner:
            body += guard_seg(g, i)
        r = for_(b, src, body)
        return [] if r is None else r if isinstance(r, list) else [r]
    return [raw("segif", g, s)]


def merge_seq(cn, a, b):
    ka = a.args[0] if a.op == "seq" else None
    kb = b.args[0] if b.op == "seq" else None
    kind = ka or kb
    if kind == "str" or (ka is None or kb is None) and kind is not None:
        if kind == "str":
            sa, sb = str_segs(a), str_segs(b)
            if a.op == "gate" or b.op == "gate":
                return None
        else:
            # one side opaque: only merge when it is a prefix of the other
            o = b if ka else a
            s = a if ka else b
            if all_(o) not in s.args[1]:
                return None
            sa = segs_of(a) if ka else [all_(a)]
            sb = segs_of(b) if kb else [all_(b)]
    else:
        if ka != kb:
            return None
        sa, sb = segs_of(a), segs_of(b)
    if kind == "set":
        common = [s for s in sa if s in sb]
        ra = [s for s in sa if s not in common]
        rb = [s for s in sb if s not in common]
    else:
        i = 0
        while i < len(sa) and i < len(sb) and sa[i] is sb[i]:
            i += 1
        common, ra, rb = sa[:i], sa[i:], sb[i:]
        if i == 0 and sa and sb:
            if len(sa) + len(sb) > 2 and kind == "str":
                pass
            else:
                return None
        if kind == "str" and i == 0 and sa and sb:
            return None
    if kind != "set" and ra and rb and not all(s.op == "one" for s in ra + rb):
        pass
    out = list(common)
    nc = NOT(cn)
    for s in ra:
        out += guard_seg(cn, s)
    for s in rb:
        out += guard_seg(nc, s)
    return seq(kind, out)


def dictkey(kind, e):
    return fld(e, "0") if kind == "map" else e


def member(s, x):
    """x in s (keys for maps)"""
    if s.op == "gate":
        return mapgate_n(s, lambda y: member(y, x))
    if x.op == "gate":
        return mapgate_n(x, lambda y: member(s, y))
    if s.op == "seq":
        kind = s.args[0]
        return OR(*[seg_member(kind, g, x) for g in s.args[1]])
    if s.op == "range":
        return AND(ge0(sub(x, s.args[0])), ge0(sub(sub(s.args[1], x), c(1))))
    if s.op in ("rev", "sorted"):
        return member(s.args[0], x)
    if s.op == "keys":
        return member(s.args[0], x)
    if x.op == "el":
        src = SRC.get(x.args[0])
        if src is not None and (src is s or (src.op in ("before", "until") and src.args[1] is s) or assumed_equal(src, s)):
            return TR
    if s.op == "fold" and s.args[1].op == "ever":
        n = bound_of(s)
        if n is not None:
            d = sub(x, n)
            if is_int(d) and d.args[1] >= 0:
                return F
    return var(raw("in", s, x))


ASSUME = []      # pairs of collections known to have the same elements on the current path


def assumed_equal(a, b):
    for x, y in ASSUME:
        if (x is a and y is b) or (x is b and y is a):
            return True
    return False


def set_equalities(n):
    """pairs of collections that a condition forces to have equal element sets"""
    out = []
    for a in atoms_of(n):
        if a.op == "eq" and cof(n, a, False) is F:
            x, y = a.args
            if x.op == "seq" and y.op == "seq" and len(x.args[1]) == 1 and len(y.args[1]) == 1:
                p, q = x.args[1][0], y.args[1][0]
                if p.op == "all" and q.op == "all":
                    out.append((p.args[0], q.args[0]))
    return out


def seg_member(kind, g, x):
    if g.op == "one":
        return AND(g.args[0], eq(dictkey(kind, g.args[1]), x))
    if g.op == "all":
        return member(g.args[0], x)
    if g.op == "rep":
        return AND(NOT(eq0(g.args[1])), eq(g.args[0], x))
    if g.op == "for":
        b, src, inner = open_(g)
        return any_(b, src, OR(*[seg_member(kind, i, x) for i in inner]))
    if g.op == "segif":
        return AND(g.args[0], seg_member(kind, g.args[1], x))
    raise Undecided("membership in " + g.op)


def primes(g):
    """all prime implicants of a small diagram, as conjunctions"""
    ats = sorted(atoms_of(g), key=sk)
    out = []

    def go(f, i):
        # prime implicants of f over atoms i.. as a set of literal tuples
        if f is F:
            return []
        if f is TR:
            return [()]
        while ats[i] not in set(atoms_of(f)):
            i += 1
        a = ats[i]
        f0, f1 = cof(f, a, False), cof(f, a, True)
        both = go(AND(f0, f1), i + 1)
        r = list(both)
        for fx, sign in ((f0, False), (f1, True)):
            for p in go(fx, i + 1):
                if not any(set(q) <= set(p) for q in both):
                    r.append(((a, sign),) + p)
        return r
    for p in go(g, 0):
        out.append(AND(*[var(a) if sg else NOT(var(a)) for a, sg in p]))
    return out


def earliest(b, src, g):
    """the first element that, or before which one, has a property is the first one that has it"""
    if g.v is None:
        return g
    for a in atoms_of(g):
        if a.op == "any" and a.args[1].op == "before" and a.args[1].args[0] is raw("ix", b) and a.args[1].args[1] is src:
            q = cof(g, a, False)
            h = sub_any(a.args[2], {raw("el", a.args[0]): el(b), raw("ix", a.args[0]): ix(b)}, frozenset((a.args[0],)), {})
            if h is q:
                return q
    return g


def any_(b, src, g):
    """exists b over src: g"""
    if g is F:
        return F
    g = earliest(b, src, g)
    if src.op == "seq":
        if not _uses(g, raw("ix", b)):
            return OR(*[seg_any(s, lambda e: sub_any(g, {raw("el", b): e}, frozenset((b,)), {})) for s in src.args[1]])
    if src.op in ("rev", "sorted") and not _uses(g, raw("ix", b)):
        nb = fresh(src.args[0])
        return any_(nb, src.args[0], sub_any(g, {raw("el", b): el(nb)}, frozenset((b,)), {}))
    if g is TR:
        return NOT(eq0(length(src)))
    # Shannon expansion over atoms that do not depend on the binder
    for a in atoms_of(g):
        if b not in a.fv:
            return ite_n(var(a), any_(b, src, cof(g, a, True)), any_(b, src, cof(g, a, False)))
    # one-point rule
    e = raw("el", b)
    if not _uses(g, raw("ix", b)):
        for a in atoms_of(g):
            if a.op == "eq" and e in a.args and cof(g, a, False) is F:
                y = a.args[1] if a.args[0] is e else a.args[0]
                if b not in y.fv:
                    return AND(member(src, y), sub_any(g, {e: y}, frozenset((b,)), {}))
    else:
        for a in atoms_of(g):
            if a.op == "eq0" and cof(g, a, False) is F:
                d, k = lin_parts(a.args[0])
                n = d.get(raw("ix", b))
                if n in (1, -1) and len(d) == 2 and k == 0:
                    (y,) = [z for z in d if z is not raw("ix", b)]
                    if d[y] == -n and b not in y.fv and src.op not in ("range", "before", "until", "skip"):
                        r = sub_any(cof(g, a, True), {e: idx(src, y), raw("ix", b): y}, frozenset((b,)), {})
                        if y.op == "ix" and SRC.get(y.args[0]) is src:
                            return r
                        return AND(ge0(sub(sub(length(src), y), c(1))), r)
    # "some earlier element has Q" adds nothing when the first such element satisfies g already
    for a in atoms_of(g):
        if a.op == "any" and a.args[1].op == "before" and a.args[1].args[0] is raw("ix", b) \
                and (a.args[1].args[1] is src or src.op == "before" and a.args[1].args[1] is src.args[1]) and cof(g, a, True) is TR:
            bb, _, q = open_(a)
            g0 = cof(g, a, False)
            if b not in q.fv and IMPLIES(sub_any(q, {raw("el", bb): e, raw("ix", bb): ix(b)}, frozenset((bb,)), {}), g0):
                return any_(b, src, g0)
    # quantifiers over independent collections come in a fixed order
    if src.op not in ("while", "lfp", "ever"):
        for a in atoms_of(g):
            if a.op == "any" and b not in a.args[1].fv and a.args[1].op not in ("while", "lfp", "ever") and cof(g, a, False) is F \
                    and skey(a.args[1]) < skey(src):
                nb, nsrc, q = open_(a)
                return any_(nb, nsrc, any_(b, src, AND(cof(g, a, True), q)))
    # split off single-literal implicants
    ats = atoms_of(g)
    if len(ats) > 1:
        for a in sorted(ats, key=sk):
            if cof(g, a, True) is TR:
                return OR(any_(b, src, var(a)), any_(b, src, cof(g, a, False)))
            if cof(g, a, False) is TR:
                return OR(any_(b, src, NOT(var(a))), any_(b, src, cof(g, a, True)))
        if len(ats) <= 7:
            ps = primes(g)
            if 1 < len(ps) <= 4:
                return OR(*[any_(b, src, p) for p in ps])
    elif g.lo is F and g.hi is TR:
        a = ats[0]
        if a.op == "eq":
            x, y = a.args
            e = raw("el", b)
            if x is e and b not in y.fv:
                return member(src, y)
            if y is e and b not in x.fv:
                return member(src, x)
        if a.op == "eqc" and a.args[0] is raw("el", b) and len(_onehot.get(a.args[0], ())) == 1:
            pass
    return var(close("any", b, src, g))


def seg_any(s, f):
    """exists an element e of segment s with f(e)"""
    if s.op == "one":
        return AND(s.args[0], f(s.args[1]))
    if s.op == "all":
        b = fresh(s.args[0])
        return any_(b, s.args[0], f(el(b)))
    if s.op == "for":
        b, src, inner = open_(s)
        return any_(b, src, OR(*[seg_any(i, f) for i in inner]))
    if s.op == "rep":
        return AND(NOT(eq0(s.args[1])), f(s.args[0]))
    if s.op == "segif":
        return AND(s.args[0], seg_any(s.args[1], f))
    raise Undecided("exists over " + s.op)


def is_empty(s):
    if s.op == "gate":
        return mapgate_n(s, is_empty)
    if s.op == "c":
        return TR if s.args[1] == "" else F
    if s.op == "seq":
        if s.args[0] == "str":
            if any(x.op == "one" and x.args[0] is TR and x.args[1].op == "c" for x in s.args[1]):
                return F
            return var(raw("eq0", raw("len", s)))
        return NOT(OR(*[seg_any(x, lambda e: TR) for x in s.args[1]]))
    return eq0(length(s))


def setlike(src):
    """no element occurs twice"""
    while src.op in ("until", "before"):
        src = src.args[1]
    return src.op == "lfp" or src.op == "seq" and src.args[0] in ("set", "bset")


def own_key(b, k):
    """an element itself, perhaps put together again from its parts"""
    e = raw("el", b)
    return k is e or k.op == "tup" and k.args[0] and all(x is fld(e, str(i)) for i, x in enumerate(k.args[0]))


def length(s):
    if s.op == "gate":
        return mapgate(s, length)
    if s.op == "c" and s.args[0] == "str":
        return c(len(s.args[1].encode()))
    if s.op == "seq" and s.args[0] != "str":
        r = c(0)
        if s.args[0] in ("set", "map") and not (len(s.args[1]) <= 1 and all(x.op in ("one", "all") for x in s.args[1])):
            g = s.args[1][0] if len(s.args[1]) == 1 else None
            if g is not None and g.op == "for" and setlike(g.args[1]):
                b, src, inner = open_(g)
                if len(inner) == 1 and inner[0].op == "one" and inner[0].args[0] is TR and own_key(b, dictkey(s.args[0], inner[0].args[1])):
                    return length(src)
            return raw("len", s)
        for x in grouped(s.args[1]) if s.args[0] == "vec" else s.args[1]:
            if x.op == "one" and x.args[0] is TR:
                r = add(r, c(1))
            elif x.op == "one":
                r = add(r, ite(x.args[0], c(1), c(0))) if False else add(r, raw("len", seq(s.args[0], [x])))
            elif x.op == "all":
                if s.args[0] in ("set", "map"):
                    return raw("len", s)
                r = add(r, length(x.args[0]))
            elif x.op == "rep":
                r = add(r, x.args[1])
            elif x.op == "for" and len(x.args[2]) == 1 and x.args[2][0].op == "one" and x.args[2][0].args[0] is TR:
                r = add(r, length(x.args[1]))
            else:
                r = add(r, raw("len", seq("vec", [x])))
        return r
    if s.op == "range":
        d = sub(s.args[1], s.args[0])
        return d
    if s.op in ("rev", "sorted"):
        return length(s.args[0])
    if s.op in ("store", "stf"):
        return length(s.args[0])
    if s.op == "before" and s.args[0].op == "ix" and SRC.get(s.args[0].args[0]) is s.args[1]:
        return s.args[0]
    return raw("len", s)


def at(m, k):
    if m.op == "gate":
        return mapgate(m, lambda y: at(y, k))
    if m.op == "seq":
        # a map with exactly one explicit entry for that very key and nothing else after it
        for s in reversed(m.args[1]):
            if s.op == "one" and s.args[0] is TR and fld(s.args[1], "0") is k:
                return fld(s.args[1], "1")
            if not (s.op == "one" and eq(fld(s.args[1], "0"), k) is F):
                break
        if m.args[1] and all(numbered(s) for s in m.args[1]):
            return app("num", k)
        if len(m.args[1]) == 1:
            r = at_for(m.args[1][0], k)
            if r is not None:
                return r
    return raw("at", m, k)


def at_for(s, k):
    """look up, in a map filled by an iteration over distinct elements, the key of one of these elements"""
    if s.op != "for" or len(s.args[2]) != 1:
        return None
    i = s.args[2][0]
    if i.op != "one" or i.args[0] is not TR or i.args[1].op != "tup":
        return None
    src = s.args[1]
    for y in k.fv:
        if SRC.get(y) is src:
            b, _, inner = open_(s)
            e = sub_any(inner[0].args[1], {raw("el", b): el(y), raw("ix", b): ix(y)}, frozenset((b,)), {})
            if fld(e, "0") is k and (src.op == "lfp" or k in (el(y), ix(y))):
                return fld(e, "1")
    return None


def sortedby(v, k):
    """sorting the elements found by an exploration by their discovery number lists them in discovery order"""
    if v.op == "seq" and len(v.args[1]) == 1 and v.args[1][0].op == "for" and v.args[1][0].args[1].op == "lfp":
        b, src, inner = open_(v.args[1][0])
        if len(inner) == 1 and inner[0].op == "one" and inner[0].args[0] is TR:
            kb = k.args[0]
            r = sub_any(k.args[2], {raw("el", kb): inner[0].args[1]}, frozenset((kb,)), {})
            if r.op == "app" and r.args[0] == "num":
                return v
    # only the order of the keys counts
    if k.op == "lam":
        kb, _, x = open_(k)
        if x.op == "agg" and x.args[0] == "std::cmp::Reverse":
            x = mul(c(-1), x.args[2][0][1])
        if x.op == "lin":
            d, _ = lin_parts(x)
            x = mklin({y: n for y, n in d.items() if kb in y.fv}, 0)
        k = close("lam", kb, UNIT, x)
    return raw("sortedby", v, k)


def numbered(s):
    """every entry of this map segment maps a key to its discovery number"""
    if s.op == "for":
        return all(numbered(x) for x in s.args[2])
    if s.op == "one":
        e = s.args[1]
        return e.op == "tup" and len(e.args[0]) == 2 and e.args[0][1].op == "app" and e.args[0][1].args == ("num", (e.args[0][0],))
    return False


def idx(s, i):
    """element i of a list"""
    if s.op == "gate":
        return mapgate(s, lambda y: idx(y, i))
    if i.op == "gate":
        return mapgate(i, lambda y: idx(s, y))
    if i.op == "ix":
        if SRC.get(i.args[0]) is s:
            return el(i.args[0])
    if s.op == "store":
        e = eq(s.args[1], i)
        if e is TR:
            return s.args[2]
        if e is F:
            return idx(s.args[0], i)
    if s.op == "stf":
        t, j, f, v = s.args
        e, old = eq(j, i), idx(t, i)
        if e is F:
            return old
        return with_field(old, f, lambda x: ite(e, v, x))
    if s.op == "seq":
        sg = s.args[1]
        if len(sg) == 1:
            x = sg[0]
            if x.op == "all":
                return idx(x.args[0], i)
            if x.op == "for" and len(x.args[2]) == 1 and x.args[2][0].op == "one" and x.args[2][0].args[0] is TR:
                b, src, inner = open_(x)
                return sub_any(inner[0].args[1], {raw("ix", b): i, raw("el", b): elem_at(src, i)}, frozenset((b,)), {})
            if x.op == "rep":
                return x.args[0]
            if x.op == "one" and x.args[0] is TR and s.args[0] == "vec":
                return x.args[1]
        if is_int(i) and all(x.op == "one" and x.args[0] is TR for x in sg[: i.args[1] + 1]) and len(sg) > i.args[1]:
            return sg[i.args[1]].args[1]
        if is_int(i) and any(x.op == "one" and x.args[0] is not TR for x in sg):
            g = grouped(sg)
            if len(g) != len(sg) and len(g) > i.args[1] and all(x.op == "one" and x.args[0] is TR for x in g[: i.args[1] + 1]):
                return g[i.args[1]].args[1]
        # position just after a known prefix
        if sg and sg[-1].op == "one" and sg[-1].args[0] is TR:
            if eq(i, length(seq(s.args[0], sg[:-1]))) is TR:
                return sg[-1].args[1]
    if s.op == "rev":
        pass
    return raw("idx", s, i)


def grouped(sg):
    """neighbouring parts of which exactly one happens are one part"""
    out, i = [], 0
    while i < len(sg):
        x = sg[i]
        if x.op == "one" and x.args[0] is not TR:
            g, v, j = x.args[0], [(x.args[0], x.args[1])], i + 1
            while j < len(sg) and sg[j].op == "one" and AND(g, sg[j].args[0]) is F:
                g = OR(g, sg[j].args[0])
                v.append((sg[j].args[0], sg[j].args[1]))
                j += 1
                if g is TR:
                    break
            if g is TR:
                r = v[-1][1]
                for h, y in reversed(v[:-1]):
                    r = ite(h, y, r)
                out.append(one(TR, r))
                i = j
                continue
        out.append(x)
        i += 1
    return out


def with_field(x, f, h):
    if x.op == "agg":
        return agg(x.args[0], x.args[1], [(n, h(v) if n == f else v) for n, v in x.args[2]])
    if x.op == "gate":
        return mapgate(x, lambda y: with_field(y, f, h))
    return raw("with", x, f, h(fld(x, f)))


def elem_at(src, i):
    if src.op == "range":
        return add(src.args[0], i)
    return idx(src, i)


def store(s, i, v):
    if s.op == "seq":
        sg = list(s.args[1])
        if is_int(i) and len(sg) > i.args[1] and all(x.op == "one" and x.args[0] is TR for x in sg[: i.args[1] + 1]):
            sg[i.args[1]] = one(TR, v)
            return seq(s.args[0], sg)
        if len(sg) == 1 and sg[0].op == "all":
            return store(sg[0].args[0], i, v)
        if s.args[0] == "vec" and len(sg) == 1 and sg[0].op == "rep" and add(sg[0].args[1], c(1), -1) is i:
            return seq("vec", ([] if i is c(0) else [raw("rep", sg[0].args[0], i)]) + [one(TR, v)])
    if v is idx(s, i):
        return s
    if s.op == "store" and s.args[1] is i:
        return store(s.args[0], i, v)
    if v.op == "agg":
        OWNER[root(s)] = v.args[:2]
        old = idx(s, i)
        ch = [(n, x) for n, x in v.args[2] if x is not fld(old, n)]
        if len(ch) < len(v.args[2]):
            for n, x in ch:
                s = store_field(s, i, n, x)
            return s
    return raw("store", s, i, v)


OWNER = {}       # list -> (type, variant) of its elements


def root(s):
    while s.op in ("stf", "store"):
        s = s.args[0]
    return s


def store_field(s, i, f, v):
    """s with field f of element i replaced; independent writes are kept in a fixed order"""
    if s.op == "seq" and len(s.args[1]) == 1 and s.args[1][0].op == "all":
        return store_field(s.args[1][0].args[0], i, f, v)
    if s.op == "stf":
        t, j, g, w = s.args
        if g == f and i is j:
            return store_field(t, i, f, v)
        if (g != f or v is w or eq(i, j) is F) and (g, sk(j)) > (f, sk(i)):
            return raw("stf", store_field(t, i, f, v), j, g, w)
    return raw("stf", s, i, f, v)


CLASSES = {"op:dandy::dfa::Dfa::state_equivalence_classes_idx": "states"}


def positions(v):
    """(src, b, g) of a strictly increasing list of the positions of src with g"""
    if v.op == "sorted" and v.args[0].op == "seq" and len(v.args[0].args[1]) == 1 and v.args[0].args[1][0].op == "for":
        p = v.args[0].args[1][0].args[1]
        if p.op == "app" and p.args[0] in CLASSES:
            # members of the classes of a partition of positions: each position occurs once
            src = fld(p.args[1][0], CLASSES[p.args[0]])
            b = fresh(src)
            return src, b, member(as_set(v.args[0]), ix(b))
    if v.op in ("sorted", "rev") and v.op == "sorted":
        return positions(v.args[0])
    if v.op != "seq" or len(v.args[1]) != 1:
        return None
    x = v.args[1][0]
    if x.op == "all" and x.args[0].op in ("seq", "sorted"):
        return positions(x.args[0])
    if x.op == "all" and x.args[0].op == "fold":
        n = bound_of(x.args[0])
        if n is not None:
            src = range_(c(0), n)
            b = fresh(src)
            return src, b, var(raw("in", x.args[0], el(b)))
        return None
    if x.op != "for":
        return None
    b, src, inner = open_(x)
    if len(inner) != 1 or inner[0].op != "one" or inner[0].args[1] is not (el(b) if src.op == "range" else ix(b)):
        return None
    return src, b, inner[0].args[0]


_bounds = {}


def bound_of(L):
    if L not in _bounds:
        _bounds[L] = bound_of_(L)
    return _bounds[L]


def bound_of_(L):
    """n when every element of a set grown over positions is below n"""
    if L.op == "fold":
        src = L.args[1]
        if src.op != "ever":
            return None
        b, _, ini, stp = open_(L)
        n = length(src.args[0])
        new = [x for x in stp.args[1] if x is not all_(raw("mu", b))]
        if not all(x.op == "one" and is_position(x.args[1], n) for x in new):
            return None
        return n if all_below(ini, n) else None
    return None


def is_position(x, n):
    if x.op == "ix":
        s = SRC.get(x.args[0])
        s = s.args[0] if s is not None and s.op == "ever" else s
        return s is not None and s.op not in ("lfp", "while") and length(s) is n
    if x.op == "el":
        s = SRC.get(x.args[0])
        return s is not None and s.op == "range" and s.args[0] is c(0) and s.args[1] is n
    # the index of the initial state is that of a state
    return x.op == "fld" and x.args[1] == "initial_state" and n is length(fld(x.args[0], "states"))


def all_below(s, n):
    if s.op == "fold":
        return bound_of(s) is n
    if s.op != "seq" or s.args[0] == "str":
        return False
    for x in s.args[1]:
        if x.op == "one":
            if not is_position(x.args[1], n):
                return False
        elif x.op == "all":
            if not all_below(x.args[0], n):
                return False
        else:
            return False
    return True


def rank_insert(v, x):
    """number of entries of an increasing list before a value that is not in it"""
    if v.op == "gate":
        return mapgate(v, lambda y: rank_insert(y, x))
    if x.op == "gate" and v.op == "sorted":
        return mapgate(x, lambda y: rank_insert(v, y))
    p = positions(v)
    if p is not None:
        src, b, g = p
        w = el(b) if src.op == "range" else ix(b)
        d = sub(x, length(src))
        if is_int(d) and d.args[1] >= 0:
            return sub(length(src), length(seq("vec", segs_list(for_(b, src, [one(NOT(g), w)])))))
        return sub(x, posof_(seq("vec", [for_(b, src, [one(NOT(g), w)])]), x))
    return app("insertpos", v, x)


def segs_list(r):
    return [] if r is None else r if isinstance(r, list) else [r]


def sorted_(v):
    return mapgate(v, lambda x: raw("sorted", x))


def posof_(v, x):
    if v.op == "gate":
        return mapgate(v, lambda y: posof_(y, x))
    if v.op == "seq" and len(v.args[1]) > 1 and v.args[1][-1] is one(TR, x):
        first = seq(v.args[0], v.args[1][:-1])
        if member(first, x) is F:
            return length(first)
    p = positions(v)
    if p is not None and p[2] is TR and (p[0].op != "range" or p[0].args[0] is c(0)):
        return x
    return app("posof", v, x)


def split_ranges(segs, n):
    """a range that goes a few numbers beyond n, cut at n"""
    for x in segs:
        if x.op == "for" and x.args[1].op == "range" and x.args[1].args[0] is c(0):
            d = sub(x.args[1].args[1], n)
            if is_int(d) and 0 < d.args[1] < 5:
                b, src, inner = open_(x)
                yield from segs_list(for_(b, range_(c(0), n), inner))
                for i in range(d.args[1]):
                    at = add(n, c(i))
                    for y in inner:
                        yield from sub_seg(y, {el(b): at, ix(b): at, raw("el", b): at}, frozenset((b,)), {})
                continue
        yield x


def fold_(b, src, ini, stp):
    if stp.op == "removeat" and stp.args[0] is raw("mu", b) and stp.args[1] is el(b):
        if src.op == "gate":
            return mapgate(src, lambda s: fold_(b, s, ini, stp))
        if ini.op == "gate":
            return mapgate(ini, lambda i: fold_(b, src, i, stp))
        if ini.op == "seq" and len(ini.args[1]) == 1 and ini.args[1][0].op == "for" and ini.args[1][0].args[1].op == "range" \
                and ini.args[1][0].args[1].args[1].op == "gate":
            n, lst, inner = open_(ini.args[1][0])
            return mapgate(lst.args[1], lambda hi: fold_(b, src, seq("vec", segs_list(for_(n, range_(lst.args[0], hi), inner))), stp))
    # removing a set of positions from the highest down keeps exactly the other positions
    if stp.op == "removeat" and stp.args[0] is raw("mu", b) and stp.args[1] is el(b) and src.op == "rev" and src.args[0].op == "sorted" \
            and positions(src.args[0]) is not None:
        s = src.args[0]
        gone = as_set(s.args[0])
        if ini.op == "seq" and ini.args[0] == "vec":
            out, at = [], c(0)
            for x in split_ranges(ini.args[1], length(positions(src.args[0])[0])):
                if x.op == "one" and x.args[0] is TR:
                    out.append(one(NOT(member(gone, at)), x.args[1]))
                    at = add(at, c(1))
                    continue
                if x.op != "for":
                    break
                n, lst, inner = open_(x)
                if len(inner) != 1 or inner[0].op != "one" or inner[0].args[0] is not TR:
                    break
                out += segs_list(for_(n, lst, [one(NOT(member(gone, add(at, ix(n)))), inner[0].args[1])]))
                at = add(at, length(lst))
            else:
                return seq("vec", out)
        elif ini.op != "seq":
            n = fresh(ini)
            return seq("vec", segs_list(for_(n, ini, [one(NOT(member(gone, ix(n))), el(n))])))
    r = scattered(b, src, ini, stp)
    if r is None:
        r = indexed_update(b, src, ini, stp)
    return r if r is not None else close("fold", b, src, ini, stp)


def scattered(b, src, ini, stp):
    """each element is put at the position its symbol has in another alphabet with the same symbols: the elements in the
    order of these positions"""
    if stp.op != "store" or stp.args[0] is not raw("mu", b) or stp.args[2] is not el(b) or src.op in ("rev", "until", "before", "range"):
        return None
    p = stp.args[1]
    if p.op != "first" or ini.op != "seq" or ini.args[0] != "vec" or len(ini.args[1]) != 1 or ini.args[1][0].op != "rep":
        return None
    pb, A, g, v = open_(p)
    if v is not raw("ix", pb) and v is not ix(pb):
        return None
    if A.op != "fld" or A.args[1] != "alphabet":
        return None
    for a in atoms_of(g):
        if a.op == "eq" and g is var(a) and el(pb) in a.args:
            y = a.args[1] if a.args[0] is el(pb) else a.args[0]
            if y.op == "idx" and y.args[1] is ix(b) and y.args[0].op == "fld" and y.args[0].args[1] == "alphabet" and y.args[0] is not A:
                if ini.args[1][0].args[1] not in (length(A), length(y.args[0])):
                    return None
                nb, kb, ob = fresh(src), fresh(None), fresh(None)
                pairs = seq("vec", segs_list(for_(nb, src, [one(TR, tup(el(nb), subst(p, {raw("ix", b): ix(nb), raw("el", b): el(nb)})))])))
                key = close("lam", kb, UNIT, fld(raw("el", kb), "1"))
                s = sortedby(pairs, key)
                ob = fresh(s)
                return seq("vec", segs_list(for_(ob, s, [one(TR, fld(el(ob), "0"))])))
    return None


def indexed_update(b, src, ini, stp):
    """a loop over the positions of a list that only rewrites the element at its own position"""
    if stp.op not in ("stf", "store") or src.op in ("rev", "until", "before"):
        return None
    i, mu = ix(b), raw("mu", b)
    if src.op == "range":
        if src.args[0] is not c(0):
            return None
        i = el(b)
    if length(src) is not length(ini):
        return None
    writes = []
    x = stp
    while x.op in ("stf", "store"):
        if x.args[1] is not i:
            return None
        writes.append(x)
        x = x.args[0]
    if x is not mu:
        return None
    nb = fresh(ini)
    here = idx(mu, i)
    m = {here: el(nb)}
    E = el(nb)
    for w in reversed(writes):
        v = sub_any(w.args[-1], m, here.fv, {})
        v = sub_any(v, {raw("ix", b): ix(nb), raw("el", b): ix(nb) if src.op == "range" else raw("el", b)}, frozenset((b,)), {})
        if uses(v, mu):
            return None
        if w.op == "stf" and E is el(nb):
            own = OWNER.get(root(mu)) or OWNER.get(root(ini))
            if own is None:
                return None
            E = agg(own[0], own[1], [(f, v if f == w.args[2] else fld(E, f)) for f in dict(ADTS[own[0]])[own[1]]])
            continue
        E = v if w.op == "store" else with_field(E, w.args[2], lambda _: v)
    if b in E.fv:
        return None
    return seq("vec", segs_list(for_(nb, ini, [one(TR, E)])))


def range_(lo, hi):
    if is_c(lo) and lo.args[1] == 0 and hi.op == "len":
        return raw("range", lo, hi)
    return raw("range", lo, hi)


def first_(b, src, g, v):
    """value v of the first b in src with g"""
    g = earliest(b, src, g)
    if b not in v.fv:
        return v
    if v.op == "agg":
        return agg(v.args[0], v.args[1], [(n, first_(b, src, g, x)) for n, x in v.args[2]])
    if v.op == "tup":
        return tup(*[first_(b, src, g, x) for x in v.args[0]])
    if v.op == "gate":
        out = {}
        for gg, x in v.args[0]:
            if b in gg.fv:
                break
        else:
            return mapgate(v, lambda x: first_(b, src, g, x))
    if v.op == "gate":
        # which leaf is decided by the first element that satisfies g
        keys = {(y.op, y.args[0], y.args[1]) for _, y in v.args[0] if y.op == "agg"}
        if all(y.op == "agg" for _, y in v.args[0]) and len(keys) == len(v.args[0]):
            r = None
            for gg, x in v.args[0]:
                y = first_(b, src, AND(g, gg), x)
                # the guard: the first g-element also satisfies gg
                w = var(close("firstis", b, src, g, gg)) if r is not None else None
                r = y if r is None else ite(w, y, r)
            return r
    if boolish(v):
        return B(var(close("firstis", b, src, g, as_bool(v))))
    return close("first", b, src, g, v)


ABS.add("firstis")
ABS.add("lfp")
ABS.add("whileloop")
ABS.add("fix")

# ---------------------------------------------------------------- substitution
def sub_any(x, m, keys, memo):
    if isinstance(x, T):
        if not (x.fv & keys):
            return x
        r = memo.get(x)
        if r is None:
            r = memo[x] = _sub_t(x, m, keys, memo)
        return r
    if isinstance(x, N):
        if x.v is None or not (x.fv & keys):
            return x
        k = ("n", x.id)
        r = memo.get(k)
        if r is None:
            a = _sub_atom(_atom_list[x.v], m, keys, memo)
            r = memo[k] = ite_n(a, sub_any(x.hi, m, keys, memo), sub_any(x.lo, m, keys, memo))
        return r
    if isinstance(x, tuple):
        return tuple(sub_any(y, m, keys, memo) for y in x)
    return x


def subst(x, m):
    """m: dict of atomic terms (el/ix/mu) to terms"""
    keys = frozenset(k.args[0] for k in m)
    return sub_any(x, m, keys, {})


class _Everything:
    def __rand__(self, other):
        return True


def replace(x, m):
    """x with whole sub-terms (or atoms) replaced: {term: term} or {atom: node}"""
    return sub_any(x, m, _Everything(), {})


def _sub_atom(a, m, keys, memo):
    if not (a.fv & keys):
        return var(a)
    r = m.get(a)
    if r is not None:
        return r
    k = ("a", a)
    r = memo.get(k)
    if r is not None:
        return r
    s = lambda x: sub_any(x, m, keys, memo)
    o = a.op
    if o == "tst":
        r = as_bool(s(a.args[0]))
    elif o == "is":
        x = s(a.args[0])
        if x.op == "agg" or x.op == "gate":
            adt = adt_of(x)
            # 'is' atoms are ordered one-hot: recover the plain test
            r = is_chain(x, adt, a.args[1])
        elif a.args[1] == "Some":
            r = opt_some(x)
        else:
            r = var(raw("is", x, a.args[1]))
    elif o == "eq":
        r = eq(s(a.args[0]), s(a.args[1]))
    elif o == "eqc":
        x = s(a.args[0])
        if x.op in ("c", "gate", "lin"):
            r = eq(x, a.args[1])
        else:
            r = var(raw("eqc", x, a.args[1]))
            lst = _onehot.setdefault(x, [])
            for k0 in _onehot.get(a.args[0], []):
                if k0 not in lst:
                    lst.append(k0)
    elif o == "eq0":
        r = eq0(s(a.args[0]))
    elif o == "ge0":
        r = ge0(s(a.args[0]))
    elif o == "in":
        r = member(s(a.args[0]), s(a.args[1]))
    elif o == "any":
        b, src, g = open_(a)
        src = s(src)
        SRC[b] = src
        r = any_(b, src, s(g))
    elif o == "firstis":
        b, src, g, h = open_(a)
        src = s(src)
        SRC[b] = src
        r = var(close("firstis", b, src, s(g), s(h)))
    else:
        r = var(raw(o, *[s(x) for x in a.args]))
    memo[k] = r
    return r


def adt_of(x):
    if x.op == "agg":
        return x.args[0]
    if x.op == "gate":
        for _, y in x.args[0]:
            if y.op == "agg":
                return y.args[0]
    return None


def is_chain(x, adt, w):
    """truth of the one-hot chain atom 'is w' on x"""
    if x.op == "gate":
        return mapgate_n(x, lambda y: is_chain(y, adt, w))
    if x.op == "agg":
        return TR if x.args[1] == w else F
    if w == "Some":
        return opt_some(x)
    return var(raw("is", x, w))


def _sub_t(t, m, keys, memo):
    r = m.get(t)
    if r is not None:
        return r
    s = lambda x: sub_any(x, m, keys, memo)
    o, a = t.op, t.args
    if o in ("el", "ix", "mu"):
        return t
    if o == "fld":
        return fld(s(a[0]), a[1])
    if o == "pay":
        return pay(s(a[0]), a[1], a[2])
    if o == "agg":
        return agg(a[0], a[1], [(n, s(v)) for n, v in a[2]])
    if o == "tup":
        return tup(*[s(v) for v in a[0]])
    if o == "b":
        return B(s(a[0]))
    if o == "gate":
        r = None
        for g, v in reversed(a[0]):
            x = s(v)
            r = x if r is None else ite(s(g), x, r)
        return r
    if o == "lin":
        r = c(a[1])
        for x, n in a[0]:
            r = add(r, mul(c(n), s(x)))
        return r
    if o == "seq":
        out = []
        for x in a[1]:
            out += sub_seg(x, m, keys, memo)
        return seq(a[0], out)
    if o in ("one", "all", "for", "rep", "segif"):
        l = sub_seg(t, m, keys, memo)
        if len(l) == 1:
            return l[0]
        return raw("segs", tuple(l))
    if o == "len":
        return length(s(a[0]))
    if o == "idx":
        return idx(s(a[0]), s(a[1]))
    if o == "at":
        return at(s(a[0]), s(a[1]))
    if o == "store":
        return store(s(a[0]), s(a[1]), s(a[2]))
    if o == "stf":
        return store_field(s(a[0]), s(a[1]), a[2], s(a[3]))
    if o == "with":
        x = s(a[0])
        return with_field(x, a[1], lambda _: s(a[2])) if x.op in ("agg", "gate") else raw("with", x, a[1], s(a[2]))
    if o == "get":
        return raw("get", s(a[0]), s(a[1]))
    if o == "first":
        b, src, g, v = open_(t)
        src = s(src)
        SRC[b] = src
        return first_(b, src, s(g), s(v))
    if o == "lfp":
        op = open_(t)
        b, src = op[0], s(op[1])
        SRC[b] = None
        body = []
        for x in op[2]:
            body += sub_seg(x, m, keys, memo)
        return close(o, b, src, tuple(body), op[3])
    if o == "fold":
        op = open_(t)
        b, src = op[0], s(op[1])
        SRC[b] = src
        return fold_(b, src, s(op[2]), s(op[3]))
    if o in ABS:
        op = open_(t)
        b, src = op[0], s(op[1])
        SRC[b] = src
        return close(o, b, src, *[s(x) for x in op[2:]])
    if o == "app":
        return posof_(s(a[1][0]), s(a[1][1])) if a[0] == "posof" else app(a[0], *[s(x) for x in a[1]])
    if o == "sortedby":
        return sortedby(s(a[0]), s(a[1]))
    if o == "range":
        return range_(s(a[0]), s(a[1]))
    return raw(o, *[s(x) for x in a])


def sub_seg(x, m, keys, memo):
    if not (x.fv & keys):
        return [x]
    s = lambda y: sub_any(y, m, keys, memo)
    if x.op == "one":
        return [one(s(x.args[0]), s(x.args[1]))]
    if x.op == "all":
        y = s(x.args[0])
        return list(y.args[1]) if y.op == "seq" and y.args[0] != "str" else [all_(y)]
    if x.op == "for":
        b, src, inner = open_(x)
        src = s(src)
        SRC[b] = src
        body = []
        for i in inner:
            body += sub_seg(i, m, keys, memo)
        r = for_(b, src, body)
        return [] if r is None else r if isinstance(r, list) else [r]
    if x.op == "segif":
        out = []
        for y in sub_seg(x.args[1], m, keys, memo):
            out += guard_seg(s(x.args[0]), y)
        return out
    return [raw(x.op, *[s(y) for y in x.args])]


# ---------------------------------------------------------------- printing
def show_node(n, depth=0):
    if n is TR:
        return "⊤"
    if n is F:
        return "⊥"
    try:
        ps = paths(n, 12)
    except Undecided:
        return "<big condition>"
    try:
        m = NOT(n) if len(ps) > 1 else n
    except Undecided:
        m = n
    if len(ps) > len(_safe_paths(m, 12) or ps):
        return "¬(" + show_node(m) + ")"
    return " ∨ ".join("∧".join(("" if v else "¬") + show(a) for a, v in p) for p in ps)


def _safe_paths(n, k):
    try:
        return paths(n, k)
    except Undecided:
        return None


def show(t):
    if isinstance(t, N):
        return "[" + show_node(t) + "]"
    if isinstance(t, tuple):
        return "(" + ", ".join(show(x) for x in t) + ")"
    if not isinstance(t, T):
        return str(t)
    o, a = t.op, t.args
    if o == "c":
        return repr(a[1])
    if o == "b":
        return "[" + show_node(a[0]) + "]"
    if o == "fld":
        return show(a[0]) + "." + a[1]
    if o == "pay":
        return show(a[0]) + "!" + a[1] + ("" if a[2] == "0" else "." + a[2])
    if o == "agg":
        nm = a[0].split("::")[-1]
        nm = nm if nm == a[1] else (a[1] if nm in ("Option", "Result") else nm + "::" + a[1])
        return nm + ("{" + ", ".join(f"{n}: {show(v)}" for n, v in a[2]) + "}" if a[2] else "")
    if o == "tup":
        return "(" + ", ".join(show(x) for x in a[0]) + ")"
    if o == "gate":
        return "{" + "; ".join(show_node(g) + " → " + show(v) for g, v in a[0]) + "}"
    if o == "lin":
        return "(" + "+".join((f"{n}*" if n != 1 else "") + show(x) for x, n in a[0]) + (f"{a[1]:+d}" if a[1] else "") + ")"
    if o == "seq":
        return a[0] + "[" + ", ".join(show(x) for x in a[1]) + "]"
    if o == "one":
        return show(a[1]) + ("" if a[0] is TR else " if " + show_node(a[0]))
    if o == "all":
        return "*" + show(a[0])
    if o == "for":
        return f"for β{a[0]}∈{show(a[1])}: {'; '.join(show(x) for x in a[2])}"
    if o in ("el", "ix", "mu"):
        return {"el": "β", "ix": "#", "mu": "μ"}[o] + str(a[0])
    if o == "lfp":
        return f"lfp β{a[0]} from {show(a[1])} step {'; '.join(show(x) for x in a[2])}" + ("" if a[3].args[1] == "ok" else "!" + show(a[3]))
    if o == "any":
        return f"∃β{a[0]}∈{show(a[1])}.({show_node(a[2])})"
    if o == "tst":
        return show(a[0])
    if o == "app":
        return a[0] + "(" + ", ".join(show(x) for x in a[1]) + ")"
    if o == "eqc":
        return f"({show(a[0])}={show(a[1])})"
    if o == "eq":
        return f"({show(a[0])}={show(a[1])})"
    if o == "eq0":
        return f"({show(a[0])}=0)"
    if o == "ge0":
        return f"({show(a[0])}≥0)"
    if o == "in":
        return f"({show(a[1])}∈{show(a[0])})"
    if o == "is":
        return f"({show(a[0])} is {a[1]})"
    if o == "idx":
        return f"{show(a[0])}[{show(a[1])}]"
    if o == "at":
        return f"{show(a[0])}⟨{show(a[1])}⟩"
    if o == "param":
        return "$" + str(a[0])
    return o + "(" + ", ".join(show(x) for x in a) + ")"
