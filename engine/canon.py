"""Second normalisation pass: every sub-term is rewritten under what its position makes certain.

Facts are literals over atoms.  A literal `no element of S has P` makes P false for every binder
that ranges over S (or a prefix of S)."""
import terms as tm
from terms import *

_facts = {}


class Facts:
    def __init__(self, lits, act, ctx=()):
        self.ctx = ctx            # conditions that say more than their certain literals
        self.lits = lits          # atom -> bool
        self.act = act            # active binders ((id, src), ..)
        self.care = [a for a, v in lits.items() if a.op == "any" and not v]

    @staticmethod
    def make(lits, act, ctx=()):
        k = (frozenset(lits.items()), act, ctx)
        f = _facts.get(k)
        if f is None:
            f = _facts[k] = Facts(dict(lits), act, ctx)
        return f

    def add(self, new):
        d = dict(self.lits)
        d.update(new)
        return Facts.make(d, self.act, self.ctx)

    def under(self, n):
        """with a condition known to hold"""
        lits = certain(n)
        f = self.add(lits)
        for a, v in lits.items():
            n = cof(n, a, v)
        if n.v is None or n in f.ctx:
            return f
        return Facts.make(f.lits, f.act, f.ctx + (n,))


NOTHING = Facts.make({}, ())


def certain(n):
    """literals every satisfying assignment of n has"""
    out = {}
    if n.v is None:
        return out
    for a in atoms_of(n):
        if cof(n, a, True) is F:
            out[a] = False
        elif cof(n, a, False) is F:
            out[a] = True
    return out


def literal(n):
    """(atom, sign) if n is a single literal"""
    if n.v is None:
        return None
    a = tm._atom_list[n.v]
    if n.hi is TR and n.lo is F:
        return a, True
    if n.hi is F and n.lo is TR:
        return a, False
    return None


def ordered(n):
    """comparisons of the same two quantities, decided by where their difference lies"""
    for _ in range(8):
        if n.v is None:
            return n
        groups = {}
        for a in atoms_of(n):
            if a.op in ("ge0", "eq0"):
                d, k = tm.lin_parts(a.args[0])
            elif a.op == "eq":
                d, k = tm.lin_parts(sub(a.args[0], a.args[1]))
            else:
                continue
            if d:
                if d[min(d, key=sk)] < 0:
                    d, k = {x: -n for x, n in d.items()}, -k
                    if a.op == "ge0":
                        continue
                groups.setdefault(tuple(sorted(d.items(), key=lambda p: sk(p[0]))), []).append((-k, a))
        n0 = n
        for d, atoms in sorted(groups.items(), key=lambda p: [sk(x) for x, _ in p[0]]):
            if len(atoms) < 2 or n.v is None or all(a.op == "eq" for _, a in atoms):
                continue
            cuts = sorted({k for k, a in atoms} | {k + 1 for k, a in atoms if a.op != "ge0"})
            fs = []
            for x in [cuts[0] - 1] + cuts:
                m = n
                for k, a in atoms:
                    m = cof(m, a, x >= k if a.op == "ge0" else x == k)
                if not fs or fs[-1][1] is not m:
                    fs.append((x, m))
            t = tm.mklin(dict(d), 0)
            if len(fs) == 3 and fs[0][1] is fs[2][1] and fs[2][0] == fs[1][0] + 1:
                pos, neg = [x for x, q in d if q == 1], [x for x, q in d if q == -1]
                same = len(d) == 2 and len(pos) == len(neg) == 1 and fs[1][0] == 0
                n = ite_n(eq(pos[0], neg[0]) if same else eq0(sub(t, c(fs[1][0]))), fs[1][1], fs[0][1])
            else:
                n = fs[0][1]
                for x, m in fs[1:]:
                    n = ite_n(ge0(sub(t, c(x))), m, n)
        if n is n0:
            break
    return n


def in_order(r):
    if r.op != "gate":
        return r
    lv = {}
    for g, v in r.args[0]:
        g = ordered(g)
        if g is not F:
            lv[v] = g
    return tm.gate_of(lv)


def base(src):
    """the collections src is a part of"""
    out = [src]
    while src.op in ("before", "until", "rev", "sorted", "butlast"):
        src = src.args[0] if src.op in ("rev", "sorted", "butlast") else src.args[1]
        out.append(src)
    return out


_places = {}


def places(n):
    """(position, collection) of every indexed element a condition speaks about"""
    r = _places.get(n)
    if r is None:
        out, seen = {}, set()

        def go(x):
            if isinstance(x, tuple):
                for y in x:
                    go(y)
            elif isinstance(x, T) and x not in seen:
                seen.add(x)
                if x.op == "idx" and x.args[0].op in ("fld", "param"):
                    out[(x.args[1], x.args[0])] = None
                for y in x.args:
                    go(y)
        for a in atoms_of(n):
            go(a)
        r = _places[n] = tuple(out)
    return r


def reached(L, act):
    """elements that follow an element of a closure: they are in the closure too"""
    out = ()
    if L.op != "lfp":
        return out
    for b, src in act:
        if src is not L:
            continue
        for x in lfp_steps(L):
            lb, seg = x
            nb, ssrc, inner = open_(seg)
            for c2, csrc in act:
                m = {raw("el", lb): el(b)}
                if csrc is sub_any(ssrc, m, frozenset((lb,)), {}):
                    m[raw("el", nb)] = el(c2)
                    m[raw("ix", nb)] = ix(c2)
                    out += ((sub_any(inner[0].args[1], m, frozenset((lb, nb)), {}), None),)
    return out


def lfp_steps(L):
    lb, _, segs, _ = open_(L)
    return [(lb, x) for x in segs if x.op == "for" and len(x.args[2]) == 1 and x.args[2][0].op == "one" and x.args[2][0].args[0] is TR]


def open_at(care, src, i):
    b, s, p = open_(care)
    if src is None:
        return b, s, subst(p, {raw("el", b): i})
    return b, s, subst(p, {raw("el", b): idx(src, i), raw("ix", b): i})


class Canon:
    eta = False
    joins = False     # a joined list is written as the loop that writes it

    def __init__(self):
        self.memo = {}

    # ------------------------------------------------------------ nodes
    def node(self, n, f, depth=0):
        if n.v is None:
            return n
        k = ("n", n.id, id(f))
        r = self.memo.get(k)
        if r is not None:
            return r
        r = self.node_(n, f)
        self.memo[k] = r
        return r

    def known(self, n, f):
        for a in atoms_of(n):
            v = f.lits.get(a)
            if v is not None:
                n = cof(n, a, v)
        for k in f.ctx:
            for a, v in f.lits.items():
                k = cof(k, a, v)
            if k.v is None or not any(a in atoms_of(n) for a in atoms_of(k)):
                continue
            if AND(k, n) is F:
                return F
            if AND(k, NOT(n)) is F:
                return TR
            for a in sorted(atoms_of(k), key=sk):
                for v in (True, False):
                    n2 = cof(n, a, v)
                    if n2 is not n and AND(k, NOT(XNOR(n, n2))) is F:
                        n = n2
        never = F
        for care in f.care:
            for b, src in f.act + places(n) + reached(care.args[1], f.act):
                if src is None or care.args[1] in base(src):
                    _, _, p = open_as(care, b) if isinstance(b, int) else open_at(care, src, b)
                    if n is F or n is TR:
                        return n
                    if AND(n, NOT(p)) is F:
                        return F
                    if OR(n, p) is TR:
                        return TR
                    never = OR(never, p)
                    if AND(n, NOT(never)) is F:
                        return F
                    if OR(n, never) is TR:
                        return TR
                    lit = literal(p)
                    if lit and lit[0] in atoms_of(n):
                        n = cof(n, lit[0], not lit[1])
                    elif lit and lit[0].op == "eq0" and not lit[1]:
                        n = self.same_size(n, lit[0].args[0])
        anys = [a for a in atoms_of(n) if a.op == "any"]
        if anys:
            # an element with g at a known position is an element with g
            for i, src in places(n):
                for a in anys:
                    if a.args[1] is src:
                        _, _, p = open_at(a, src, i)
                        never = OR(never, AND(p, NOT(var(a))))
            # existence conditions that change nothing
            if never is not F:
                for a in sorted(anys, key=sk):
                    for v in (True, False):
                        n2 = cof(n, a, v)
                        if n2 is not n and AND(XNOR(n, n2), NOT(never)) is NOT(never):
                            n = n2
        return n

    def same_size(self, n, z):
        """n where the two lengths z is the difference of are equal"""
        d, k = tm.lin_parts(z)
        if k or len(d) != 2 or sorted(d.values()) != [-1, 1] or any(x.op != "len" for x in d):
            return n
        for x, y in (list(d), list(d)[::-1]):
            for a in sorted(atoms_of(n), key=sk):
                if a.op in ("ge0", "eq0") and tm._uses(a, x) and not tm._uses(a, y):
                    a2 = tm.replace(var(a), {x: y})
                    if a2.v is None or all(q in atoms_of(n) for q in atoms_of(a2)):
                        n = ite_n(a2, cof(n, a, True), cof(n, a, False))
                        if n.v is None:
                            return n
        return n

    tables = ()

    def columns(self, src):
        """the alphabet a row of transitions has a column for each symbol of"""
        if self.tables and src.op == "fld" and src.args[1] == "transitions":
            e = src.args[0]
            rows = tm.SRC.get(e.args[0]) if e.op == "el" else e.args[0] if e.op == "idx" else None
            if isinstance(rows, T) and rows.op == "fld" and rows.args[1] == "states" and rows.args[0] in self.tables:
                return tm.fld(rows.args[0], "alphabet")
        return None

    def opened(self, t, f):
        op = open_(t)
        b, src = op[0], self.term(op[1], f)
        X = self.columns(src)
        if X is not None:
            nb = fresh(X)
            m = {raw("el", b): idx(src, ix(nb)), raw("ix", b): ix(nb)}
            if t.op in ("fold", "sumof"):
                m[raw("mu", b)] = raw("mu", nb)
            op = (nb, X) + tuple(sub_any(x, m, frozenset((b,)), {}) for x in op[2:])
            b, src = nb, X
        tm.SRC[b] = src
        return (b, src) + op[2:]

    def same_length(self, f, s1, s2):
        g = eq0(sub(length(s1), length(s2)))
        return g is TR or self.known(g, f) is TR

    def rebase(self, f, b, src, g):
        """a condition on the positions of one list that only speaks of the elements of another of the same length"""
        if src.op in ("fld", "param") and not tm._uses(g, raw("el", b)) and tm._uses(g, raw("ix", b)):
            for i, s2 in places(g):
                if i is raw("ix", b) and s2 is not src and self.same_length(f, src, s2):
                    nb = fresh(s2)
                    return nb, s2, sub_any(g, {raw("ix", b): ix(nb)}, frozenset((b,)), {})
        return b, src, g

    def node_(self, n, f):
        for _ in range(4):
            n0 = n
            n = self.known(n, f)
            if n.v is None:
                return n
            for a in sorted(atoms_of(n), key=sk):
                if n.v is None:
                    return n
                if a not in atoms_of(n):
                    continue
                c_ = certain(n)
                c_.pop(a, None)
                a2 = self.atom(a, f.add(c_))
                if a2 is not var(a):
                    n = ite_n(a2, cof(n, a, True), cof(n, a, False))
            if n is n0:
                break
        return ordered(n)

    def atom(self, a, f):
        k = ("a", a.id, id(f))
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = self.atom_(a, f)
        return r

    def atom_(self, a, f):
        t = lambda x: self.term(x, f)
        o = a.op
        if o == "tst":
            return as_bool(t(a.args[0]))
        if o == "is":
            x = t(a.args[0])
            if x is a.args[0]:
                return var(a)
            return is_chain(x, adt_of(x), a.args[1]) if x.op in ("agg", "gate") else opt_some(x) if a.args[1] == "Some" else var(raw("is", x, a.args[1]))
        if o == "eq":
            return eq(t(a.args[0]), t(a.args[1]))
        if o == "eqc":
            x = t(a.args[0])
            return var(a) if x is a.args[0] else tm._sub_atom(raw("eqc", raw("el", -999), a.args[1]), {raw("el", -999): x}, frozenset((-999,)), {})
        if o == "eq0":
            r = eq0(t(a.args[0]))
            lit = literal(r)
            if lit and lit[0].op == "eq0":
                # a number that is not negative is not zero when it is at least one
                q = lit[0].args[0]
                for q in (q, sub(c(0), q)):
                    if in_range(q, f.act):
                        return NOT(ge0(sub(q, c(1)))) if lit[1] else ge0(sub(q, c(1)))
            return r
        if o == "ge0":
            r = ge0(t(a.args[0]))
            lit = literal(r)
            if lit and lit[0].op == "ge0":
                q = lit[0].args[0]
                if in_range(q, f.act):
                    return TR if lit[1] else F
                if in_range(sub(c(-1), q), f.act):
                    return F if lit[1] else TR
            return r
        if o == "in":
            return member(t(a.args[0]), t(a.args[1]))
        if o == "any":
            b, src, g = self.opened(a, f)
            return any_(*self.rebase(f, b, src, self.node(g, self.under(f, b, src))))
        if o == "firstis":
            b, src, g, h = self.opened(a, f)
            fu = self.under(f, b, src)
            g = self.node(g, fu)
            h = self.node(h, self.at_first(fu, b, src, g))
            return firstis_(b, src, g, h)
        return var(self.generic(a, f))

    def under(self, f, b, src):
        return Facts.make(f.lits, f.act + ((b, src),), f.ctx)

    def at_first(self, f, b, src, g):
        """facts at the first element with g"""
        new = certain(g)
        nb = fresh(raw("before", ix(b), src))
        prev = any_(nb, raw("before", ix(b), src), sub_any(g, {raw("el", b): el(nb), raw("ix", b): ix(nb)}, frozenset((b,)), {}))
        lit = literal(prev)
        if lit:
            new[lit[0]] = not lit[1]
        return f.add(new)

    # ------------------------------------------------------------ terms
    def term(self, t, f=NOTHING):
        if isinstance(t, N):
            return self.node(t, f)
        if isinstance(t, tuple):
            return tuple(self.term(x, f) for x in t)
        if not isinstance(t, T):
            return t
        k = (t.id, id(f))
        r = self.memo.get(k)
        if r is None:
            r = self.term_(t, f)
            self.memo[k] = r
        return r

    def generic(self, t, f):
        return raw(t.op, *[self.term(x, f) for x in t.args])

    def term_(self, t, f):
        s = lambda x: self.term(x, f)
        o, a = t.op, t.args
        if o in ("el", "ix", "mu", "c", "param", "fn", "const", "masked", "zst", "static"):
            return t
        if o == "fld":
            return fld(s(a[0]), a[1])
        if o == "pay":
            return pay(s(a[0]), a[1], a[2])
        if o == "mapdel":
            # nothing is taken out when it is not there
            m, k = s(a[0]), s(a[1])
            return ite(self.node(member(m, k), f), raw("mapdel", m, k), m)
        if o == "agg":
            fs = [(n, s(v)) for n, v in a[2]]
            if self.eta and fs and all(v.op == "fld" and v.args[1] == n and v.args[0] is fs[0][1].args[0] for n, v in fs):
                return fs[0][1].args[0]
            # a variant put together again from what was taken out of it
            if len(fs) == 1 and fs[0][1].op == "pay" and fs[0][1].args[1] == a[1] and a[0] not in (tm.OPT, tm.RES, tm.CF) \
                    and len({p.split("::")[-1] for p, vs in tm.ADTS.items() if len(vs) > 1 for v, ns in vs if v == a[1] and ns}) == 1 and fs[0][1].args[2] == fs[0][0]:
                return fs[0][1].args[0]
            return agg(a[0], a[1], fs)
        if o == "tup":
            return tup(*[s(v) for v in a[0]])
        if o == "b":
            return B(self.node(a[0], f))
        if o == "gate":
            r = None
            lv = []
            for g, v in a[0]:
                g2 = self.node(g, f)
                if g2 is F:
                    continue
                lv.append((g2, self.term(v, f.under(g2))))
            if not lv:
                return t
            if len(lv) > 1 and all(v.op == "seq" and v.args[0] == "vec" for _, v in lv):
                return vec_gate(lv)
            if len(lv) == 2:
                x = extremum(lv) or stopped(lv)
                if x is not None:
                    return x
            if any(v.op == "seq" and v.args[0] == "str" for _, v in lv):
                x = text_leaves(lv)
                if x is not None:
                    return x
            for g, v in reversed(lv):
                r = v if r is None else ite(g, v, r)
            return in_order(r)
        if o == "lin":
            r = c(a[1])
            ls = {}
            for x, n in a[0]:
                y = s(x)
                if y.op == "len" and y.args[0].op == "seq" and y.args[0].args[0] == "vec":
                    ls.setdefault(n, []).append(y.args[0])
                else:
                    r = add(r, mul(c(n), y))
            for n, ys in ls.items():
                # lengths of runs of which exactly one happens
                r = add(r, mul(c(n), length(seq("vec", join_parts([p for y in ys for p in y.args[1]])))))
            return r
        if o == "seq":
            out = []
            for x in a[1]:
                self.kind = a[0]
                out += self.seg(x, f)
            if a[0] == "vec":
                out = join_parts(order_parts(split_parts(out)))
            if a[0] == "str" and any(x.op == "one" and (x.args[0] is not TR or x.args[1].op in ("gate", "seq")) for x in out):
                x = text_leaves([(TR, raw("seq", "str", tuple(out)))])
                if x is not None:
                    return x
                out = order_parts(out)
            if a[0] == "set":
                out = one_closure(out)
            if self.eta and a[0] == "vec" and len(out) == 1 and out[0].op == "all" and out[0].args[0].op in ("fld", "el", "at"):
                return out[0].args[0]
            return seq(a[0], out)
        if o in ("one", "all", "for", "rep", "segif"):
            l = self.seg(t, f)
            return l[0] if len(l) == 1 else raw("segs", tuple(l))
        if o == "len":
            x = s(a[0])
            return length(self.columns(x) or x)
        if o == "idx":
            return idx(s(a[0]), s(a[1]))
        if o == "at":
            return at(s(a[0]), s(a[1]))
        if o == "stf":
            return store_field(s(a[0]), s(a[1]), a[2], s(a[3]))
        if o == "with":
            return raw("with", s(a[0]), a[1], s(a[2]))
        if o == "store":
            return store(s(a[0]), s(a[1]), s(a[2]))
        if o == "first":
            b, src, g, v = self.opened(t, f)
            fu = self.under(f, b, src)
            g = self.node(g, fu)
            return first_(b, src, g, self.term(v, self.at_first(fu, b, src, g)))
        if o == "last":
            b, src, g, v = self.opened(t, f)
            fu = self.under(f, b, src)
            g = self.node(g, fu)
            v = self.term(v, fu.add(certain(g)))
            b1 = fresh(raw("before", ix(b), src))
            prev = any_(b1, raw("before", ix(b), src), sub_any(g, {raw("el", b): el(b1), raw("ix", b): ix(b1)}, frozenset((b,)), {}))
            if self.node(any_(b, src, AND(g, prev)), f) is F:
                return first_(b, src, g, v)
            return close("last", b, src, g, v)
        if o == "lfp":
            b, src, step, mark = open_(t)
            src = s(src)
            tm.SRC[b] = None
            body = []
            for x in step:
                body += self.seg(x, f)
            return lfp_(b, src, body, mark)
        if o in ABS:
            op = self.opened(t, f)
            b, src = op[0], op[1]
            fu = self.under(f, b, src)
            if o == "fold":
                ini, stp = s(op[2]), self.term(op[3], fu)
                p = self.peel(b, src, ini, stp, f)
                return p if p is not None else tm.fold_(b, src, ini, stp)
            if o == "until":
                g = self.term(B(op[2]) if isinstance(op[2], tm.N) else op[2], fu)
                return src if g is B(F) or g is F else close(o, b, src, g if not isinstance(op[2], tm.N) else tm.as_bool(g))
            return close(o, b, src, *[self.term(x, fu) for x in op[2:]])
        if o == "app" and a[0] == "join" and self.joins:
            v, sep = s(a[1][0]), s(a[1][1])
            if v.op == "seq" and v.args[0] == "vec" and len(v.args[1]) == 1 and v.args[1][0].op == "for":
                b, src, inner = open_(v.args[1][0])
                if len(inner) == 1 and inner[0].op == "one" and inner[0].args[0] is TR:
                    z = tm.as_bool(B(eq(ix(b), c(0))))
                    r = for_(b, src, [one(TR, ite(z, c(""), sep)), one(TR, inner[0].args[1])])
                    if r is not None:
                        return self.term(seq("str", r if isinstance(r, list) else [r]), f)
            return app(a[0], v, sep)
        if o == "app":
            return posof_(s(a[1][0]), s(a[1][1])) if a[0] == "posof" else app(a[0], *[s(x) for x in a[1]])
        if o == "sortedby":
            return sortedby(s(a[0]), s(a[1]))
        if o == "range":
            return range_(s(a[0]), s(a[1]))
        return self.generic(t, f)

    def peel(self, b, src, ini, stp, f):
        """a loop whose first round differs from the others: that round, then the loop over the others"""
        if src.op in ("rev", "range", "iota") or stp.op == "removeat":
            return None
        at0 = tm.as_bool(B(tm.eq0(ix(b))))
        if at0 in (TR, F) or not any(x is list(atoms_of(at0))[0] for x in deep_atoms(stp, b)):
            return None
        m = {raw("ix", b): c(0), raw("el", b): tm.idx(src, c(0))}
        mu = raw("mu", b)
        first = tm.subst(stp, m)
        if first is mu:
            return None
        first = tm.replace(first, {mu: ini})
        empty = tm.as_bool(B(tm.eq0(length(src))))
        rest = ite(at0, mu, self.term(stp, f.under(NOT(at0))))
        if tm.subst(rest, m) is not mu:
            return None
        return self.term(ite(empty, ini, tm.fold_(b, src, first, rest)), f)

    def seg(self, x, f):
        if x.op == "one":
            g = self.node(x.args[0], f)
            return [] if g is F else [one(g, self.term(x.args[1], f.under(g)))]
        if x.op == "all":
            y = self.term(x.args[0], f)
            X = self.columns(y)
            if X is not None:
                nb = fresh(X)
                return [close("for", nb, X, (one(TR, idx(y, ix(nb))),))]
            return list(y.args[1]) if y.op == "seq" and y.args[0] != "str" else [all_(y)]
        if x.op == "for":
            kind = self.kind
            b, src, inner = self.opened(x, f)
            fu = self.under(f, b, src)
            body = []
            for i in inner:
                self.kind = kind
                body += self.seg(i, fu)
            if len(body) == 1 and body[0].op == "one" and body[0].args[0] is TR and b not in body[0].args[1].fv \
                    and src.op != "lfp" and kind == "vec":
                return [raw("rep", body[0].args[1], length(src))]
            if kind == "str" and len(body) == 1 and body[0].op == "one" and body[0].args[0] is TR and body[0].args[1].op == "c" \
                    and (src.op == "range" or src.op == "gate"):
                # the same text again and again
                n = length(src)
                lv = n.args[0] if n.op == "gate" else [(TR, n)]
                return [one(g, app("str::repeat", c(str(body[0].args[1].args[1])), v)) for g, v in lv if v is not c(0)]
            b, src, body = by_length(b, src, body)
            src, body = grouped_values(b, src, body)
            tm.SRC[b] = src
            if kind == "vec":
                body = order_parts(split_parts(body))
            if kind == "str" and any(y.op == "one" and (y.args[0] is not TR or y.args[1].op in ("gate", "seq")) for y in body):
                v = text_leaves([(TR, raw("seq", "str", tuple(body)))])
                if v is not None:
                    body = list(v.args[1]) if v.op == "seq" else [one(TR, v)]
            if kind == "str":
                body = [y for y in body if not (y.op == "one" and y.args[1] is c(""))]
                if not body:
                    return []
                r = first_apart(b, src, body)
                if r is not None:
                    return r
            r = for_(b, src, body)
            return [] if r is None else r if isinstance(r, list) else [r]
        if x.op == "segif":
            g = self.node(x.args[0], f)
            out = []
            for y in self.seg(x.args[1], f.under(g)):
                out += guard_seg(g, y)
            return out
        return [self.generic(x, f)]


def by_length(b, src, body):
    """a loop that only uses positions runs over the list the length is taken from"""
    if src.op in ("range", "stf", "store") and (src.op != "range" or src.args[0] is c(0)):
        n = length(src)
        if n.op == "len" and n.args[0] is not src and n.args[0].op not in ("lfp", "keys") \
                and not (n.args[0].op == "seq" and n.args[0].args[0] in ("set", "map", "bset", "bmap", "str")) \
                and (src.op == "range" or not any(tm._uses(x, raw("el", b)) for x in body)):
            nb = fresh(n.args[0])
            m = {raw("ix", b): ix(nb)}
            if src.op == "range":
                m[raw("el", b)] = ix(nb)
            return nb, n.args[0], [y for x in body for y in tm.sub_seg(x, m, frozenset((b,)), {})]
    return b, src, body


def grouped_values(b, src, body):
    """lists of elements collected by key of which only a part of each element is used: that part is collected"""
    if src.op != "fold" or len(body) != 1 or body[0].op != "one":
        return src, body
    val = raw("fld", raw("el", b), "1")
    uses, seen = [], set()

    def scan(x):
        if isinstance(x, tuple):
            return all(scan(y) for y in x)
        if x is val:
            return False
        if not isinstance(x, (T, N)) or x in seen:
            return True
        seen.add(x)
        if isinstance(x, N):
            return all(scan(a) for a in atoms_of(x))
        if x.op == "seq" and x.args[0] == "vec" and len(x.args[1]) == 1 and x.args[1][0].op == "for" and x.args[1][0].args[1] is val:
            uses.append(x)
            return True
        return all(scan(y) for y in x.args)
    if not scan(body[0]) or len(uses) != 1:
        return src, body
    b2, _, inner = open_(uses[0].args[1][0])
    if len(inner) != 1 or inner[0].op != "one" or inner[0].args[0] is not TR or b in inner[0].args[1].fv:
        return src, body
    w = inner[0].args[1]
    fb, fsrc, ini, stp = open_(src)
    mu = raw("mu", fb)
    if ini.op != "seq" or ini.args[0] != "map" or ini.args[1] or stp.op != "seq" or stp.args[0] != "map" or len(stp.args[1]) != 3:
        return src, body
    old, new, put = stp.args[1]
    if old is not all_(mu) or new.op != "one" or put.op != "one" or put.args[0] is not TR or any(x.args[1].op != "tup" for x in (new, put)):
        return src, body
    k, v = put.args[1].args[0]
    if new.args[1] is not tup(k, tm.empty("vec")) or v.op != "seq" or v.args[0] != "vec" or len(v.args[1]) != 2 \
            or v.args[1][0] is not all_(at(raw("seq", "map", (old, new)), k)) or v.args[1][1].op != "one" or v.args[1][1].args[0] is not TR:
        return src, body
    v2 = raw("seq", "vec", (v.args[1][0], one(TR, tm.subst(w, {el(b2): v.args[1][1].args[1]}))))
    src2 = tm.fold_(fb, fsrc, ini, raw("seq", "map", (old, new, one(TR, tup(k, v2)))))
    return src2, [one(body[0].args[0], tm.replace(body[0].args[1], {uses[0]: val}))]


def open_as(t, b):
    """body of an `any` for the already open binder b"""
    nb = t.args[0]
    m = {raw("el", nb): el(b), raw("ix", nb): ix(b)}
    return b, t.args[1], sub_any(t.args[2], m, frozenset((nb,)), {})


def firstis_(b, src, g, h):
    if h is TR:
        return any_(b, src, g)
    if h is F:
        return F
    if b not in h.fv:
        return AND(h, any_(b, src, g))
    if IMPLIES(g, h):
        return any_(b, src, g)
    if AND(g, h) is F:
        return F
    return var(close("firstis", b, src, g, h))


def seg_guard(x):
    """a condition (free of the part's own binders) without which the part is empty"""
    if x.op == "one":
        return x.args[0]
    if x.op == "segif":
        return x.args[0]
    if x.op == "for":
        b = x.args[0]
        r = F
        for i in x.args[2]:
            r = OR(r, seg_guard(i))
        for at_ in sorted(atoms_of(r), key=sk):
            if b in at_.fv:
                r = OR(cof(r, at_, True), cof(r, at_, False))
        return r
    return TR


def split_parts(parts):
    """an element that is a choice is a choice of elements"""
    out = []
    for x in parts:
        if x.op == "one" and x.args[1].op == "gate":
            for h, v in x.args[1].args[0]:
                g = AND(x.args[0], h)
                if g is not F:
                    out.append(one(g, v))
        else:
            out.append(x)
    return out


def order_parts(parts):
    """neighbouring parts whose conditions exclude each other have no order"""
    if len(parts) < 2:
        return parts
    gs = [seg_guard(x) for x in parts]
    if all(g is TR for g in gs):
        return parts
    # the least order among those the exclusions allow
    n = len(parts)
    free = [[AND(gs[i], gs[j]) is F for j in range(n)] for i in range(n)]
    keys = [sk(x) for x in parts]
    left, out = list(range(n)), []
    while left:
        k = min((i for p, i in enumerate(left) if all(free[j][i] for j in left[:p])), key=lambda i: keys[i])
        out.append(parts[k])
        left.remove(k)
    return out


def join_parts(parts):
    """two neighbouring runs over one source of which exactly one happens are one run with a choice inside"""
    out = []
    for y in parts:
        if out and y.op == "for" and out[-1].op == "for" and y.args[1] is out[-1].args[1] \
                and len(y.args[2]) == 1 and len(out[-1].args[2]) == 1 \
                and y.args[2][0].op == "one" and out[-1].args[2][0].op == "one":
            b, src, (i,) = open_(out[-1])
            nb = y.args[0]
            j = sub_seg(y.args[2][0], {raw("el", nb): el(b), raw("ix", nb): ix(b)}, frozenset((nb,)), {})
            j = j[0] if isinstance(j, (list, tuple)) else j
            g, h = i.args[0], j.args[0]
            if b not in g.fv and b not in h.fv and AND(g, h) is F:
                r = for_(b, src, [one(OR(g, h), ite(restrict(g, OR(g, h)), i.args[1], j.args[1]))])
                if not isinstance(r, list) and r is not None:
                    out[-1] = r
                    continue
        out.append(y)
    return out


def deep_atoms(t, b, seen=None):
    """atoms of all conditions inside t that mention b"""
    if seen is None:
        seen = set()
    if isinstance(t, tuple):
        for x in t:
            yield from deep_atoms(x, b, seen)
    elif isinstance(t, tm.N):
        for a in atoms_of(t):
            if b in a.fv and a not in seen:
                seen.add(a)
                yield a
                yield from deep_atoms(a.args, b, seen)
    elif isinstance(t, tm.T):
        if b in t.fv and t not in seen:
            seen.add(t)
            yield from deep_atoms(t.args, b, seen)


def extremum(lv):
    """the larger (smaller) of two numbers, however the comparison treats equal ones"""
    (g, a), (h, b) = lv
    if OR(g, h) is not TR or a.op in ("c", "agg", "tup", "seq") and b.op in ("c", "agg", "tup", "seq"):
        return None
    l = literal(g)
    if l is None or l[0].op != "ge0":
        return None
    try:
        d = tm.sub(a, b)
    except Undecided:
        return None
    for x, name in ((d, "max"), (tm.sub(b, a), "min")):
        if g in (tm.ge0(x), tm.ge0(tm.sub(x, c(1)))):
            return app(name, *sorted((a, b), key=sk))
    return None


def stopped(lv):
    """a loop left early by a round after which no round changes anything: the same as the loop over everything"""
    for (_, v), (_, w) in (lv, lv[::-1]):
        if v.op != "first" or w.op != "fold" or w.args[1] is not v.args[1]:
            continue
        b, src, stop, val = open_(v)
        nb, _, ini, stp = open_(w)
        mu = raw("mu", nb)
        sofar = close("fold", nb, raw("before", ix(b), src), ini, stp)
        m = {raw("el", nb): raw("el", b), raw("ix", nb): raw("ix", b), mu: sofar}
        b1 = fresh(raw("before", ix(nb), src))
        try:
            over = any_(b1, raw("before", ix(nb), src), sub_any(stop, {raw("el", b): el(b1), raw("ix", b): ix(b1)}, frozenset((b,)), {}))
            if any(x is not mu and AND(g, over) is not F for g, x in tm.leaves(stp)):
                continue
            here = [(g, x) for g, x in tm.leaves(sub_any(stp, m, frozenset((nb,)), {})) if AND(g, stop) is not F]
            if all(x is y for g, x in tm.leaves(val) for h, y in here if AND(g, h, stop) is not F):
                return w
        except Undecided:
            continue
    return None


def text_leaves(lv, limit=24):
    """a text assembled from conditional pieces: the choice between the complete texts"""
    todo, out = [(g, [], [v]) for g, v in lv], {}
    n = 0
    while todo:
        g, done, rest = todo.pop()
        if not rest:
            n += 1
            if n > 4 * limit:
                return None
            v = seq("str", done)
            out[v] = OR(out.get(v, F), g)
            continue
        x, rest = rest[0], rest[1:]
        if x.op == "one":
            h = AND(g, x.args[0])
            if h is not F:
                todo.append((h, done, [x.args[1]] + rest))
            if x.args[0] is not TR:
                h = AND(g, NOT(x.args[0]))
                if h is not F:
                    todo.append((h, done, rest))
        elif x.op == "gate":
            for h, y in x.args[0]:
                h = AND(g, h)
                if h is not F:
                    todo.append((h, done, [y] + rest))
        elif x.op == "seq" and x.args[0] == "str":
            todo.append((g, done, list(x.args[1]) + rest))
        elif x.op in ("for", "rep", "all", "segif"):
            todo.append((g, done + [x], rest))
        else:
            todo.append((g, done + tm.str_segs(x), rest))
        if len(todo) > 4 * limit:
            return None
    return tm.gate_of(out) if len(out) <= limit else None


def first_apart(b, src, body):
    """a text whose first round is different: the first round, then the others"""
    z = eq(ix(b), c(0))
    if len(body) != 1 or body[0].op != "one" or body[0].args[0] is not TR or body[0].args[1].op != "gate":
        return None
    a = var_of(z)
    lv = body[0].args[1].args[0]
    if a is None or not any(a in tm.atoms_of(g) for g, _ in lv):
        return None
    some = ge0(sub(length(src), c(1)))
    m = {raw("el", b): idx(src, c(0)), raw("ix", b): c(0)}
    head, rest = {}, {}
    for g, v in lv:
        h = AND(g, z)
        if h is not F:
            h, w = sub_any(h, m, frozenset((b,)), {}), sub_any(v, m, frozenset((b,)), {})
            head[w] = OR(head.get(w, F), h)
        h = AND(g, NOT(z))
        if h is not F:
            rest[v] = OR(rest.get(v, F), h)
    rest.pop(c(""), None)
    pieces = [one(h, w) for w, h in sorted(head.items(), key=lambda p: sk(p[0]))]
    inner = [one(g, v) for v, g in sorted(rest.items(), key=lambda p: sk(p[0]))]
    if inner:
        r = for_(b, src, inner)
        pieces += [] if r is None else r if isinstance(r, list) else [r]
    return [one(some, seq("str", pieces))]


def var_of(g):
    l = literal(g)
    return l[0] if l is not None and l[1] else None


def already_sorted(lv):
    """sorting that happens only when the keys are not yet in order: the same as sorting"""
    if len(lv) != 2:
        return None
    for (g, v), (h, w) in (lv, lv[::-1]):
        if len(v.args[1]) != 1 or v.args[1][0].op != "for" or v.args[1][0].args[1].op != "sortedby":
            continue
        sb = v.args[1][0].args[1]
        l = literal(h)
        if l is None or l[1] or l[0].op != "any" or l[0].args[1].op != "windows" or cval(l[0].args[1].args[1]) != 2:
            continue
        keys = l[0].args[1].args[0]
        d = l[0]
        db, dsrc, dg = open_(d)
        if dg is not ge0(sub(idx(el(db), c(0)), idx(el(db), c(1)))):
            continue
        inner = sb.args[0]
        if inner.op != "seq" or len(inner.args[1]) != 1 or inner.args[1][0].op != "for":
            continue
        b, src, (i,) = open_(inner.args[1][0])
        if i.op != "one" or i.args[0] is not TR or i.args[1] is not tup(el(b), idx(keys, ix(b))):
            continue
        kb = sb.args[1]
        if sub_any(kb.args[2], {raw("el", kb.args[0]): i.args[1]}, frozenset((kb.args[0],)), {}) is not idx(keys, ix(b)):
            continue
        # the unsorted run does the same to the bare rows
        b2, _, body = open_(v.args[1][0])
        if len(w.args[1]) == 1 and w.args[1][0].op == "for" and w.args[1][0].args[1] is src:
            b3, _, wb = open_(w.args[1][0])
            wb = [y for z in wb for y in _as_list(sub_seg(z, {raw("el", b3): fld(el(b2), "0")}, frozenset((b3,)), {}))]
            if list(wb) == list(body):
                return v
    return None


def _as_list(x):
    return list(x) if isinstance(x, (list, tuple)) else [x]


def vec_gate(lv):
    r = already_sorted(lv)
    return r if r is not None else vec_gate_(lv)


def vec_gate_(lv):
    """a choice between lists is one list of guarded parts (the guards exclude each other, so parts of
    different lists may be put in any order)"""
    ls = [list(v.args[1]) for _, v in lv]
    pre, post = [], []
    while all(ls) and all(x[0] is ls[0][0] for x in ls):
        pre.append(ls[0][0])
        ls = [x[1:] for x in ls]
    while all(ls) and all(x[-1] is ls[0][-1] for x in ls):
        post.insert(0, ls[0][-1])
        ls = [x[:-1] for x in ls]
    mid = []
    rest = [(g, x) for (g, _), x in zip(lv, ls) if x]
    # the same part in several lists
    if all(len(x) == 1 for _, x in rest):
        by = {}
        for g, x in rest:
            by[x[0]] = OR(by.get(x[0], F), g)
        rest = [(g, [x]) for x, g in by.items()]
    blocks = []
    for g, x in rest:
        blk = []
        for y in x:
            blk += guard_seg(g, y)
        blocks.append(blk)
    blocks.sort(key=lambda bl: sk(bl[0]) if bl else (0, 0))
    for bl in blocks:
        mid += bl
    return seq("vec", join_parts(order_parts(pre + mid + post)))


def unsort(v):
    """the sorted list of a set's elements stands for the set"""
    if v.op == "sorted" and len(v.args) == 1 and v.args[0].op == "seq" and v.args[0].args[0] != "str":
        ss = v.args[0].args[1]
        if len(ss) == 1 and ss[0].op == "all" and (ss[0].args[0].op == "lfp" or ss[0].args[0].op == "seq" and ss[0].args[0].args[0] == "set"):
            return seq("set", list(ss))
    if v.op == "tup":
        return tm.tup(*[unsort(x) for x in v.args[0]])
    if v.op == "agg":
        new = tuple((n, unsort(x)) for n, x in v.args[2])
        if new != v.args[2]:
            return raw("agg", v.args[0], v.args[1], new)
    return v


def unsort_seg(x):
    if x.op == "one":
        return one(x.args[0], unsort(x.args[1]))
    if x.op == "for":
        b, src, inner = open_(x)
        return for_(b, src, [unsort_seg(i) for i in inner]) or x
    return x


def one_closure(segs):
    """the closures of several sets by the same step, united, are the closure of the sets united"""
    groups, out = [], []
    for x in segs:
        y = closure_of(x, [st for st, *_ in groups])
        if y is None:
            out.append(x)
            continue
        i, st, seeds = y
        if i is None:
            groups.append((st, seeds, [x]))
        else:
            groups[i][1].extend(seeds)
            groups[i][2].append(x)
    if len(out) == len(segs):
        return segs
    for (b, step, mark), seeds, xs in groups:
        if len(xs) == 1 and xs[0].op == "all":
            out += xs
        else:
            out.append(all_(lfp_(b, seq("set", seeds), list(step), mark)))
    return out


def closure_of(x, known):
    """(which of the known steps, step, seeds) when x stands for the elements of a closure"""
    if x.op == "all" and x.args[0].op == "lfp":
        y = x.args[0]
        for i, st in enumerate(known):
            (b, src, step), mark = open_as(y, st[0]), y.args[3]
            if tuple(step) == st[1] and mark == st[2]:
                return i, st, [all_(src)] if src.op != "seq" else list(src.args[1])
        b, src, step, mark = open_(y)
        tm.SRC[b] = None
        return None, (b, tuple(step), mark), [all_(src)] if src.op != "seq" else list(src.args[1])
    if x.op == "segif":
        r = closure_of(x.args[1], known)
        if r is not None:
            sd = []
            for z in r[2]:
                sd += guard_seg(x.args[0], z)
            return r[0], r[1], sd
    if x.op == "for":
        b, src, inner = open_(x)
        tm.SRC[b] = src
        st, seeds, i = None, [], None
        for z in inner:
            r = closure_of(z, known if st is None else [st])
            if r is None or st is not None and r[0] != 0:
                return None
            if st is None:
                i, st = r[0], r[1]
                if any(b in z.fv for z in st[1]):
                    return None
            seeds += r[2]
        if st is None:
            return None
        r = for_(b, src, seeds)
        return i, st, [] if r is None else r if isinstance(r, list) else [r]
    return None


def in_range(t, act):
    """length of the states of an automaton handed in - one of its own state indices - 1"""
    d, k = lin_parts(t)
    if len(d) != 2 or k < -1:
        return False
    if row_fits(t, act):
        return True
    for x, n in d.items():
        if x.op == "len" and n == 1 and x.args[0].op == "fld" and x.args[0].args[1] == "states":
            S = x.args[0]
            A = S.args[0]
            while A.op == "fld":
                A = A.args[0]
            (y, m), = [p for p in d.items() if p[0] is not x]
            if A.op == "param" and m == -1:
                if y.op == "el":
                    return any(b == y.args[0] and own_index(src, S) for b, src in act)
                return y is fld(S.args[0], "initial_state")
    return False


def row_fits(t, act):
    """width of a table - position in one of its rows - 1"""
    d, k = lin_parts(t)
    if len(d) != 2 or k < -1:
        return False
    w = [x for x, n in d.items() if n == 1 and x.op == "len" and x.args[0].op == "fld" and x.args[0].args[1] == "row_len"]
    i = [x for x, n in d.items() if n == -1 and x.op == "ix"]
    if not w or not i:
        return False
    rows = fld(w[0].args[0].args[0], "rows")
    for b, src in act:
        if b == i[0].args[0] and src.op == "el":
            return any(b2 == src.args[0] and s2 is rows for b2, s2 in act)
    return False


def own_index(src, S):
    """the elements of src are state indices of the NFA with the states S"""
    if src.op == "fld" and src.args[1] == "current_states":
        return fld(fld(src.args[0], "nfa"), "states") is S
    t = src
    if t.op == "idx" and t.args[0].op == "fld" and t.args[0].args[1] == "transitions":
        t = t.args[0]
    elif not (t.op == "fld" and t.args[1] == "epsilon_transitions"):
        return False
    return t.args[0].op == "idx" and t.args[0].args[0] is S


def lfp_(b, src, segs, mark):
    """a closure inside a closure adds nothing"""
    out = []
    for x in segs:
        if x.op == "all" and x.args[0].op == "lfp":
            y = x.args[0]
            i = y.args[1]
            if i.op == "seq" and len(i.args[1]) == 1 and i.args[1][0].op == "one" and i.args[1][0].args[0] is TR \
                    and i.args[1][0].args[1] is raw("el", b) and y.args[3] is mark:
                nb = y.args[0]
                m = {raw("el", nb): el(b), raw("ix", nb): ix(b)}
                for z in y.args[2]:
                    if b in z.fv and nb != b:
                        out.append(x)
                        break
                else:
                    for z in y.args[2]:
                        out += sub_seg(z, m, frozenset((nb,)), {})
                continue
        out.append(x)
    out = [unsort_seg(x) for x in out]
    if src.op == "seq":
        src = seq(src.args[0], [unsort_seg(x) for x in src.args[1]])
    uniq = []
    for x in out:
        if x not in uniq:
            uniq.append(x)
    return close("lfp", b, src, tuple(uniq), mark)


def canon(t, lits=None, tables=(), joins=False):
    cn = Canon()
    cn.joins = joins
    cn.tables = tables
    cn.eta = bool(lits)
    f = Facts.make(lits, ()) if lits else NOTHING
    for _ in range(3):
        t2 = cn.term(t, f)
        if t2 is t:
            break
        t = t2
    return t
