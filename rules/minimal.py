"""Rules about minimisation: which states are merged, and how."""
import canon as cn
import terms as tm
from terms import (T, N, TR, F, AND, OR, NOT, var, raw, el, ix, open_, cof, ite, ite_n, IMPLIES, Undecided)

D = "dandy::dfa::Dfa::"
SECI = "op:" + D + "state_equivalence_classes_idx"


class ClassCanon(cn.Canon):
    """What is computed from a partition of the states in terms of rep(x), the chosen member of the class of x."""

    def __init__(self):
        super().__init__()
        self.same_as = {}        # atom "x is the chosen one of its class" -> (classes, x)

    # ---------------------------------------------------------------- the chosen member
    def rep(self, P, x):
        if x.op == "gate":
            return tm.mapgate(x, lambda y: self.rep(P, y))
        if x.op == "app" and x.args[0] == "rep":
            return x
        return raw("app", "rep", (P, x))

    def chosen(self, P, x):
        """x is the chosen member of its class"""
        return tm.eq(x, self.rep(P, x))

    def about(self, a):
        """(classes, x) when the atom says that x is the chosen member of its class"""
        r = self.same_as.get(a)
        if r is None:
            r = False
            if a.op in ("eq", "eq0"):
                parts = a.args if a.op == "eq" else tuple(tm.lin_parts(a.args[0])[0]) if a.args[0].op == "lin" else a.args
                for y in parts:
                    if y.op == "app" and y.args[0] == "rep" and self.chosen(*y.args[1]) is var(a):
                        r = y.args[1]
            self.same_as[a] = r
        return r

    def classes(self, src):
        return src.op == "app" and src.args[0] == SECI

    def member_of_class(self, x):
        return x.op == "el" and tm.SRC.get(x.args[0]) is not None and self.classes(tm.SRC[x.args[0]])

    def listed(self, x):
        """the class whose members are listed"""
        if x.op == "seq" and x.args[0] == "vec" and len(x.args[1]) == 1 and x.args[1][0].op == "all":
            x = x.args[1][0].args[0]
        return x if self.member_of_class(x) else None

    def pick(self, t):
        """the class, when t is a member that is singled out"""
        if t.op == "pay" and t.args[1:2] == ("Some",) or t.op == "pay" and "Some" in t.args:
            x = t.args[0]
            if x.op == "popped" and self.listed(x.args[0]):
                return "last", self.listed(x.args[0])
            if x.op == "app" and x.args[0] in ("Iterator::min", "Iterator::max") and len(x.args[1]) == 1 and self.listed(x.args[1][0]):
                return x.args[0], self.listed(x.args[1][0])
        if t.op == "idx" and tm.is_c(t.args[1]) and t.args[1].args[1] == 0 and self.listed(t.args[0]):
            return "first", self.listed(t.args[0])
        return None

    def found(self, P, b2, b1, h):
        """some member of some class has h (which fixes the member): h of that member"""
        for a, sign in cn.certain(h).items():
            if not sign:
                continue
            xs = []
            if a.op == "eq":
                xs = [(a.args[0], a.args[1]), (a.args[1], a.args[0])]
            elif a.op == "eq0" and a.args[0].op == "lin":
                d, k = tm.lin_parts(a.args[0])
                e = raw("el", b1)
                if d.get(e) in (1, -1):
                    rest = tm.sub(a.args[0], tm.mul(tm.c(d[e]), e))
                    xs = [(e, tm.mul(tm.c(-d[e]), rest))]
            for e, x in xs:
                if e is raw("el", b1) and b1 not in x.fv and b2 not in x.fv:
                    return self.at_member(P, b2, b1, h, x)
        return None

    def at_member(self, P, b2, b1, h, x):
        """h of the member x of the class it is in (a node or a term)"""
        first = tm.idx(raw("el", b2), tm.c(0))
        pos0 = tm.eq0(ix(b1))
        m = {raw("el", b1): x, first: self.rep(P, x)}
        for a in tm.atoms_of(pos0):
            m[a] = self.chosen(P, x)
        import compare
        for a in compare.all_atoms(h):
            if a.op == "in" and a.args[0] is raw("el", b2) and b2 not in a.args[1].fv and b1 not in a.args[1].fv:
                m[a] = tm.eq(self.rep(P, x), self.rep(P, a.args[1])) if a.args[1] is not x else TR
        h = tm.replace(h, m)
        if isinstance(h, N):
            # a class with a member is not empty, one with another member than the chosen one has two
            size = tm.length(raw("el", b2))
            h = self.suppose(h, tm.ge0(tm.sub(size, tm.c(1))))
            h2 = self.suppose(h, tm.ge0(tm.sub(size, tm.c(2))))
            if IMPLIES(h2, NOT(self.chosen(P, x))):
                h = h2
            h = tm.replace(h, {size: raw("app", "classsize", (P, self.rep(P, x)))})
        if any(b in h.fv for b in (b1, b2)):
            return None
        return h

    def suppose(self, h, lit):
        l = cn.literal(lit)
        return cof(h, *l) if l else h

    def atom_(self, a, f):
        if a.op == "any":
            r = self.but_pick(a)
            if r is not None:
                return self.node(r, f)
        if a.op == "is" and self.pick(raw("pay", a.args[0], "Some", "0")):
            # no class is empty
            return TR if a.args[1] == "Some" else F
        if a.op == "any" and self.classes(a.args[1]):
            b2, P, g = open_(a)
            for i in tm.atoms_of(g):
                if i.op == "in" and raw("el", b2) in i.args and IMPLIES(g, var(i)):
                    x = i.args[1] if i.args[0] is raw("el", b2) else i.args[0]
                    if b2 not in x.fv:
                        r = self.at_member(P, b2, -10**6, cof(g, i, True), x)
                        if r is not None:
                            return self.node(r, f)
                if i.op == "in" and i.args[0].op == "butlast":
                    cl, x = self.listed(i.args[0].args[0]), i.args[1]
                    if cl is raw("el", b2) and b2 not in x.fv and IMPLIES(g, var(i)):
                        r = self.at_member(P, b2, -10**6, cof(g, i, True), x)
                        if r is not None:
                            return self.node(AND(r, NOT(self.chosen(P, x))), f)
                if i.op == "any" and i.args[1] is raw("el", b2) and IMPLIES(g, var(i)):
                    rest = cof(g, i, True)
                    b1, _, h = open_(i)
                    r = self.found(P, b2, b1, AND(h, rest))
                    if r is not None:
                        return self.node(r, f)
        return super().atom_(a, f)

    # ---------------------------------------------------------------- terms
    def but_pick(self, t):
        """the other members of a class, as its members that are not the chosen one"""
        b, src, inner = open_(t)[:3]
        cl = self.listed(src.args[0]) if src.op == "butlast" else None
        if cl is not None and not tm._uses(raw("tup", tuple(inner)) if isinstance(inner, (tuple, list)) else inner, raw("ix", b)):
            nb = tm.fresh(cl)
            m = {raw("el", b): el(nb)}
            k = frozenset((b,))
            g = NOT(tm.eq(el(nb), tm.idx(cl, tm.c(0))))
            if t.op == "any":
                return tm.any_(nb, cl, AND(g, tm.sub_any(inner, m, k, {})))
            body = [z for y in inner for x in tm.sub_seg(y, m, k, {}) for z in [tm.guard_seg(g, x)]]
            body = [z for w in body for z in (w if isinstance(w, list) else [w])]
            l = tm.segs_list(tm.for_(nb, cl, body))
            return l[0] if len(l) == 1 else t
        return None

    def term_(self, t, f):
        if t.op == "seq" and t.args[0] == "vec" and len(t.args[1]) == 1 and t.args[1][0].op == "all" and self.member_of_class(t.args[1][0].args[0]):
            return t.args[1][0].args[0]
        p = self.pick(t)
        if p is not None:
            return tm.idx(p[1], tm.c(0))
        if t.op == "for":
            r = self.but_pick(t)
            if r is not None:
                return self.term(r, f)
        if t.op == "at" and t.args[0].op == "seq" and t.args[0].args[0] == "map" and len(t.args[0].args[1]) == 1:
            r = self.lookup(t.args[0].args[1][0], t.args[1])
            if r is not None:
                return self.term(r, f)
        r = super().term_(t, f)
        if r.op == "seq" and r.args[0] == "vec" and len(r.args[1]) > 1:
            r = self.alternatives(r)
        if r.op == "stf" and r.args[0].op == "seq":
            r = self.into_element(r)
        if r.op == "gate":
            r = self.collapse(r)
        return r

    def lookup(self, x, k):
        if x.op != "for" or not self.classes(x.args[1]):
            return None
        b2, P, inner = open_(x)
        if len(inner) == 1 and inner[0].op == "for":
            inner = (self.but_pick(inner[0]) or inner[0],)
        if len(inner) != 1 or inner[0].op != "for" or inner[0].args[1] is not raw("el", b2):
            return None
        b1, _, body = open_(inner[0])
        if len(body) != 1 or body[0].op != "one":
            return None
        kv = body[0].args[1]
        if kv.op != "tup" or kv.args[0][0] is not raw("el", b1):
            return None
        return self.at_member(P, b2, b1, kv.args[0][1], self.term(k))

    def into_element(self, r):
        """a field of one position of a listing"""
        s, i, name, v = r.args
        if s.args[0] != "vec" or len(s.args[1]) != 1 or s.args[1][0].op != "for":
            return r
        b, src, inner = open_(s.args[1][0])
        if len(inner) != 1 or inner[0].op != "one" or inner[0].args[0] is not TR or inner[0].args[1].op != "agg":
            return r
        x = inner[0].args[1]
        fs = dict(x.args[2])
        if name not in fs:
            return r
        fs[name] = ite(tm.eq(ix(b), i), v, fs[name])
        return tm.seq("vec", tm.segs_list(tm.for_(b, src, [tm.one(TR, tm.agg(x.args[0], x.args[1], list(fs.items())))])))

    def collapse(self, t):
        """what happens anyway when x is the chosen one of its class"""
        for _ in range(6):
            if t.op != "gate":
                return t
            ats = [a for g, _ in t.args[0] for a in tm.atoms_of(g) if self.about(a)]
            for a in ats:
                P, x = self.about(a)
                t1 = t0 = None
                for g, v in reversed(t.args[0]):
                    t1 = v if t1 is None else ite(cof(g, a, True), v, t1)
                    t0 = v if t0 is None else ite(cof(g, a, False), v, t0)
                y = self.rep(P, x)
                hide = raw("param", "the chosen")
                if tm.replace(tm.replace(tm.replace(t1, {y: hide}), {x: hide}), {hide: y}) is t0:
                    t = t0
                    break
            else:
                return t
        return t

    def seg(self, x, f):
        if x.op == "for":
            x = self.but_pick(x) or x
        r = super().seg(x, f)
        return [self.initial(self.one_way(y)) for y in r]

    def alternatives(self, r):
        """two runs over one list of which only one happens and which list the same things"""
        out = []
        for x in r.args[1]:
            p = out[-1] if out else None
            if p is not None and p.op == x.op == "for" and p.args[1] is x.args[1] and len(p.args[2]) == len(x.args[2]) == 1:
                b, src, i = open_(p)
                b2, _, j = open_(x)
                j = [y for z in j for y in tm.sub_seg(z, {raw("el", b2): el(b), raw("ix", b2): ix(b)}, frozenset((b2,)), {})]
                if len(j) == 1 and i[0].op == j[0].op == "one" and i[0].args[1] is j[0].args[1]:
                    g1, g2 = i[0].args[0], j[0].args[0]
                    if AND(self.outer(g1, b), self.outer(g2, b)) is F:
                        out[-1:] = tm.segs_list(tm.for_(b, src, [tm.one(OR(g1, g2), i[0].args[1])]))
                        continue
            out.append(x)
        return tm.seq("vec", out)

    def outer(self, g, b):
        for a in list(tm.atoms_of(g)):
            if b in a.fv:
                g = OR(cof(g, a, True), cof(g, a, False))
        return g

    def one_way(self, x):
        """elements that are the same whether or not x is the chosen one of its class"""
        if x.op != "for" or len(x.args[2]) < 2 or not all(y.op == "one" for y in x.args[2]):
            return x
        b, src, inner = open_(x)
        g = F
        for y in inner:
            if AND(g, y.args[0]) is not F:
                return x
            g = OR(g, y.args[0])
        v = None
        for y in inner:
            v = y.args[1] if v is None else ite(y.args[0], y.args[1], v)
        if g is not TR or v.op != "gate" or (w := self.collapse(v)) is v:
            return x
        l = tm.segs_list(tm.for_(b, src, [tm.one(TR, w)]))
        return l[0] if len(l) == 1 else x

    def initial(self, x):
        """the flag of a surviving state says whether it stands for the initial state"""
        if x.op != "for" or len(x.args[2]) != 1 or x.args[1].op != "fld" or x.args[1].args[1] != "states":
            return x
        b, src, inner = open_(x)
        if inner[0].op != "one":
            return x
        g, v = inner[0].args
        for a in tm.atoms_of(g):
            if not self.about(a):
                continue
            P, y = self.about(a)
            if y is not ix(b) or not IMPLIES(g, self.chosen(P, y)):
                continue
            ini = tm.fld(src.args[0], "initial_state")
            e2 = tm.eq(ix(b), ini)
            e3 = tm.eq(ix(b), self.rep(P, ini))
            flag = tm.as_bool(tm.fld(el(b), "initial"))
            e34 = AND(e3, self.chosen(P, ini))
            m = {k: e34 for k in list(tm.atoms_of(e2)) + list(tm.atoms_of(flag))}
            m.pop(next(iter(tm.atoms_of(e3))), None)
            v = tm.replace(v, {**m, tm.fld(el(b), "initial"): tm.B(e34)})
            g = tm.replace(g, m)
            if v.op == "agg":
                # under the guard
                fs = [(n, tm.B(self.given(tm.as_bool(w), g)) if tm.boolish(w) else w) for n, w in v.args[2]]
                v = tm.agg(v.args[0], v.args[1], fs)
            l = tm.segs_list(tm.for_(b, src, [tm.one(g, v)]))
            return l[0] if len(l) == 1 else x
        return x

    def given(self, n, g):
        for a in list(tm.atoms_of(n)):
            for s in (True, False):
                if IMPLIES(g, var(a) if s else NOT(var(a))):
                    n = cof(n, a, s)
        return n


def ways(x, out, seen=None):
    """how members of classes are chosen"""
    seen = set() if seen is None else seen
    if isinstance(x, tuple):
        for y in x:
            ways(y, out, seen)
    elif isinstance(x, N):
        if x not in seen:
            seen.add(x)
            for a in tm.atoms_of(x):
                ways(a, out, seen)
    elif isinstance(x, T) and x not in seen:
        seen.add(x)
        if x.op in ("popped", "butlast"):
            out.add("last")
        elif x.op == "app" and x.args[0] in ("Iterator::min", "Iterator::max"):
            out.add(x.args[0])
        elif x.op == "idx" and x.args[1] is tm.c(0) or x.op == "eq0" and x.args[0].op == "ix":
            out.add("first")
        for y in x.args:
            ways(y, out, seen)


def by_class(t):
    kinds_ = set()
    ways(t, kinds_)
    if len(kinds_) > 1:
        raise Undecided(f"members of classes are chosen in several ways: {sorted(kinds_)}")
    c = ClassCanon()
    for _ in range(5):
        t2 = c.term(t)
        if t2 is t:
            break
        t = cn.canon(t2)
        c.memo = {}
    left = set()
    apart(t, left)
    if left:
        raise Undecided("the classes are used in another way: " + min(left)[:200])
    return t


def apart(x, out, seen=None):
    """uses of the classes other than by the chosen members"""
    seen = set() if seen is None else seen
    if isinstance(x, tuple):
        for y in x:
            apart(y, out, seen)
    elif isinstance(x, N):
        if x not in seen:
            seen.add(x)
            for a in tm.atoms_of(x):
                apart(a, out, seen)
    elif isinstance(x, T) and x not in seen:
        seen.add(x)
        if x.op == "app" and x.args[0] in ("rep", "classsize"):
            return apart(x.args[1][1], out, seen)
        for y in x.args:
            if isinstance(y, T) and y.op == "app" and y.args[0] == SECI:
                out.add(tm.show(x))
            apart(y, out, seen)


# ---------------------------------------------------------------- partition refinement
class Shape(Exception):
    """not the partition refinement this rule knows"""


class Broken(Exception):
    """a refinement that computes something else"""


Q = raw("param", "some state")
STATES = tm.fld(raw("param", "self"), "states")
ALPHABET = tm.fld(raw("param", "self"), "alphabet")
ATQ = tm.idx(STATES, Q)
KNOWN = {"popped", "butlast", "mu", "skip", "take", "rev", "tst", "eq0"}


class InRange(cn.Canon):
    """without the tests whether a state's index is below the number of states"""

    def atom_(self, a, f):
        if a.op == "ge0" and a.args[0].op == "lin":
            d, k = tm.lin_parts(a.args[0])
            if k == -1 and len(d) == 2 and d.get(tm.length(STATES)) == 1 and -1 in d.values():
                return TR
        return super().atom_(a, f)


def in_range(x):
    return InRange().term(x)


def understood(n):
    import compare
    return not (compare.vocab(n) - compare.BASE - KNOWN - {"field:states", "field:alphabet", "field:accepting", "field:transitions", "field:initial_state",
                                                           "field:initial", "field:0", "field:1", "field:2"})


def members(s):
    """which states a set has"""
    return tm.as_bool(in_range(cn.canon(tm.B(tm.member(s, Q)))))


class Block:
    """conditions about a block y of which I is the part with X and D the part without"""

    def __init__(self, y, X, worklist):
        self.y, self.X, self.w = y, X, worklist
        self.Y = tm.member(y, Q)
        self.NI, self.ND, self.YW = (var(raw("param", x)) for x in ("both: some with", "both: some without", "in the worklist"))
        self.sizes = set()

    def kind(self, s):
        n = members(s)
        for k, m in (("I", AND(self.Y, self.X)), ("D", AND(self.Y, NOT(self.X))), ("Y", self.Y), ("I", self.X if False else None)):
            if m is not None and n is m:
                return k
        if understood(n):
            raise Broken(f"a block y is replaced by the states with {tm.show_node(n)} instead of those with or without {tm.show_node(self.X)}")
        raise Shape(f"set of states with {tm.show_node(n)[:200]}")

    def cond(self, n):
        n = tm.as_bool(in_range(tm.B(n)))
        m = {}
        for a in tm.atoms_of(n):
            m[a] = self.atom(a)
        return tm.as_bool(tm.replace(tm.B(n), m))

    def atom(self, a):
        if a.op == "any" and self.w is not None and a.args[1] is self.w:
            if understood(a):
                raise Broken(f"whether the split block waits in the worklist is decided by {tm.show(a)[:200]}")
            raise Shape(f"condition {tm.show(a)[:200]}")
        if a.op == "any":
            b, src, p = open_(a)
            if src is self.y:
                n = AND(self.Y, tm.subst(p, {raw("el", b): Q}))
            elif src is STATES:
                n = tm.subst(p, {raw("el", b): ATQ, raw("ix", b): Q})
            else:
                raise Shape(f"condition {tm.show(a)[:200]}")
            n = in_range(n)
            if n is AND(self.Y, self.X):
                return self.NI
            if n is AND(self.Y, NOT(self.X)):
                return self.ND
            if n is self.Y:
                return TR
            if understood(n) and IMPLIES(n, self.Y):
                raise Broken(f"whether to split depends on {tm.show(a)[:300]}")
            raise Shape(f"condition {tm.show(a)[:200]}")
        if a.op == "in" and a.args[1] is self.y or a.op == "in" and self.y in a.args:
            return self.YW
        if a.op in ("ge0", "eq0"):
            d, k = tm.lin_parts(a.args[0]) if a.args[0].op == "lin" else ({a.args[0]: 1}, 0)
            cnt = {"I": 0, "D": 0}
            for x, c_ in d.items():
                if x.op != "len":
                    raise Shape(f"condition {tm.show(a)[:200]}")
                kd = self.kind(x.args[0])
                for z in ("ID" if kd == "Y" else kd):
                    cnt[z] += c_
            if a.op == "ge0" and k == -1 and cnt in ({"I": 1, "D": 0}, {"I": 0, "D": 1}):
                return self.NI if cnt["I"] else self.ND
            if a.op == "ge0" and k == 0 and cnt in ({"I": -1, "D": 0}, {"I": 0, "D": -1}):
                return NOT(self.NI if cnt["I"] else self.ND)
            if a.op == "eq0" and k == 0 and cnt in ({"I": -1, "D": 0}, {"I": 0, "D": -1}):
                return NOT(self.NI if cnt["I"] else self.ND)
            if a.op == "eq0" and k == 0 and cnt in ({"I": 1, "D": 0}, {"I": 0, "D": 1}):
                return NOT(self.NI if cnt["I"] else self.ND)
            return var(raw("param", f"sizes: {cnt} {k} {a.op}"))
        if a.op in ("eq",):
            return var(a)
        raise Shape(f"condition {tm.show(a)[:200]}")


def pieces(v):
    """[(condition, set)] listed by an element (a choice of sets)"""
    return [(g, x) for g, x in tm.leaves(v)]


def split_parts_of(parts, blocks, blk_of):
    """kinds of sets listed for each block, with the condition under which they are"""
    out = []
    for x in parts:
        if x.op == "for" and strip(x.args[1]) is blocks:
            b, _, inner = open_(x)
            k = blk_of(el(b))
            for y in inner:
                if y.op != "one":
                    raise Shape("nested listing")
                for g, s in pieces(y.args[1]):
                    out.append((k, k.cond(AND(y.args[0], g)), k.kind(s)))
        elif x.op == "for" and understood(x.args[1]):
            raise Broken(f"the new blocks come from {tm.show(x.args[1])[:200]} instead of all blocks")
        else:
            raise Shape(f"part {x.op}")
    return out


def strip(src):
    while src.op == "rev":
        src = src.args[0]
    return src


def always(n, given=TR):
    return IMPLIES(given, n)


def kinds(ps, kind):
    g = F
    for _, c_, k in ps:
        if k == kind:
            g = OR(g, c_)
    return g


def assume(blk, n):
    """the conditions do not both say that a block is empty"""
    return n


def at_case(n, blk, i, d, w=None):
    for a, v in ((blk.NI, i), (blk.ND, d)) + (((blk.YW, w),) if w is not None else ()):
        n = cof(n, tm._atom_list[a.v], v)
    return n


def new_blocks(parts, blocks, blk_of):
    ps = split_parts_of(parts, blocks, blk_of)
    if not ps:
        raise Shape("no blocks")
    blk = ps[0][0]
    # every part with its own binder: conditions are over the same three atoms
    at = lambda k, i, d: at_case(kinds(ps, k), blk, i, d)
    for k in "ID":
        if at(k, True, True) is not TR:
            raise Broken(f"a block with both kinds of states does not leave its part {'with' if k == 'I' else 'without'} the property")
    if at("Y", True, True) is not F:
        raise Broken("a block with both kinds of states is kept although it is split")
    for i, d, part, empty in ((True, False, "I", "D"), (False, True, "D", "I")):
        if at(empty, i, d) is not F:
            raise Broken("an empty block is made")
        if OR(at("Y", i, d), at(part, i, d)) is not TR:
            raise Broken("a block that is not split is lost")
        if AND(at("Y", i, d), at(part, i, d)) is not F:
            raise Broken("a block is listed twice")


def other_members(x, w, blk):
    """(what of the old worklist a part keeps): (condition for z /= y, condition for y)"""
    if x.op == "all" and x.args[0] is w:
        return TR, TR
    if x.op == "segif":
        o = other_members(x.args[1], w, blk)
        return o and tuple(AND(blk.cond(x.args[0]), z) for z in o)
    if x.op != "for":
        return None
    b, src, inner = open_(x)
    gone = False
    s = strip(src)
    if s.op in ("swapremove", "removeat") and s.args[0] is w:
        i = s.args[1]
        if i.op == "pay":
            i = i.args[0]
        if i.op != "first" or i.args[1] is not w:
            raise Shape(f"removes {tm.show(i)[:100]}")
        b1, _, g, v = open_(i)
        if g is not tm.eq(el(b1), blk.y):
            if understood(g):
                raise Broken(f"a block other than the one that is split leaves the worklist: {tm.show_node(g)[:200]}")
            raise Shape("removal")
        if v is not ix(b1):
            raise Shape("removal")
        gone, s = True, w
    if s is not w:
        return None
    if len(inner) != 1 or inner[0].op != "one" or inner[0].args[1] is not el(b):
        raise Shape("worklist")
    same = tm.eq(el(b), blk.y)
    g = inner[0].args[0]
    a = next(iter(tm.atoms_of(same)), None)
    no, yes = blk.cond(cof(g, a, False) if a else g), F if gone else blk.cond(cof(g, a, True) if a else g)
    for n in (no, yes):
        if any(b in z.fv for z in tm.atoms_of(n)):
            raise Shape("worklist")
    return no, yes


def worklist(W, blocks, w, blk_of):
    """the new worklist of a round over one column"""
    if W.op == "fold":
        b, src, ini, stp = open_(W)
        if strip(src) is not blocks:
            if understood(src):
                raise Broken(f"the worklist is updated for {tm.show(src)[:200]} instead of all blocks")
            raise Shape("worklist fold")
        if ini is not w:
            raise Shape("worklist start")
        old, ys = raw("mu", b), el(b)
    elif W is w:
        raise Broken("the worklist never grows")
    else:
        stp, old, ys = W, w, None
    if stp.op != "seq" or stp.args[0] != "vec":
        raise Shape("worklist is no plain list")
    blk, keep_o, keep_y, pushed = None, F, F, []
    if ys is not None:
        blk = blk_of(ys, old)
    for x in stp.args[1]:
        if ys is not None:
            if x.op == "one":
                for g, s in pieces(x.args[1]):
                    pushed.append((blk, blk.cond(AND(x.args[0], g)), blk.kind(s)))
                continue
            o = other_members(x, old, blk)
            if o is None:
                raise Shape("worklist part")
            keep_o, keep_y = OR(keep_o, o[0]), OR(keep_y, o[1])
        elif x.op == "all" and x.args[0] is old or x.op == "for" and strip(x.args[1]) is old and (i := open_(x)[2]) and len(i) == 1 and i[0] is tm.one(TR, el(open_(x)[0])):
            keep_o = keep_y = TR
        else:
            for k, g, s in split_parts_of([x], blocks, lambda y: blk_of(y, old)):
                blk = blk or k
                pushed.append((k, g, s))
    if blk is None:
        raise Shape("worklist")
    if keep_o is not TR:
        if understood(keep_o):
            raise Broken(f"blocks waiting in the worklist are dropped unless {tm.show_node(keep_o)[:200]}")
        raise Shape("worklist members")
    at = lambda k, *v: at_case(kinds(pushed, k), blk, *v)
    for w_ in (True, False):
        i, d, y = (at(k, True, True, w_) for k in "IDY")
        kept = OR(at_case(keep_y, blk, True, True, w_), y) if w_ else y
        if w_:
            good = OR(AND(i, d), AND(kept, OR(i, d)))
        else:
            good = OR(i, d)
        if good is not TR:
            raise Broken("after a split " + ("of a block that waits in the worklist not both parts wait there" if w_ else "neither part is put on the worklist"))
        for a, b_, part in ((True, False, "I"), (False, True, "D")):
            for k in "IDY":
                if at(k, a, b_, w_) is not F and not (w_ and k in (part, "Y")):
                    raise Shape("blocks that are not split are put on the worklist")
            if w_ and OR(OR(at_case(keep_y, blk, a, b_, True), at("Y", a, b_, True)), at(part, a, b_, True)) is not TR:
                raise Broken("a block that is not split leaves the worklist")


def start(v, cases, what, all_needed):
    """initial blocks: for every combination of (some accepting, some not) that is possible"""
    if v.op != "seq" or v.args[0] != "vec":
        raise Shape(f"initial {what}")
    acc = tm.as_bool(tm.fld(ATQ, "accepting"))
    b = tm.fresh(STATES)
    some = {True: tm.any_(b, STATES, tm.as_bool(tm.fld(el(b), "accepting"))), False: tm.any_(b, STATES, NOT(tm.as_bool(tm.fld(el(b), "accepting"))))}
    for f, n in cases:
        got, some_of = [], F
        for x in v.args[1]:
            if x.op != "one":
                raise Shape(f"initial {what}")
            for g, s in pieces(x.args[1]):
                g = AND(x.args[0], g)
                for val, have in ((True, f), (False, n)):
                    for a in tm.atoms_of(some[val]):
                        g = cof(g, a, have if some[val] is var(a) else not have)
                if g is F:
                    continue
                if g is not TR:
                    if not all_needed and f and n and understood(g):
                        m = members(s)
                        if m is acc or m is NOT(acc):
                            some_of = OR(some_of, g)
                            continue
                    raise Shape(f"initial {what} when {tm.show_node(g)[:100]}")
                m = members(s)
                if m is acc:
                    got.append("F" if f and n else "all" if f else "none")
                elif m is NOT(acc):
                    got.append("N" if f and n else "all" if n else "none")
                elif m is TR:
                    got.append("all")
                elif m is F:
                    got.append("none")
                elif understood(m):
                    raise Broken(f"the initial {what} have a block of the states with {tm.show_node(m)[:200]}")
                else:
                    raise Shape(f"initial {what}")
        if all_needed:
            want = ["F", "N"] if f and n else ["all"]
            if sorted(got) != want:
                raise Broken(f"with {'' if f else 'no '}accepting and {'' if n else 'no '}other states the initial {what} are {got} instead of {want}")
        elif f and n and not ({"F", "N"} & set(got)) and some_of is not TR:
            if some_of is not F:
                raise Shape(f"initial {what} with the accepting or the other states only when {tm.show_node(some_of)[:200]}")
            raise Broken(f"the initial {what} have neither the accepting nor the other states: {got}")


def taken(a, rest, w):
    """a is a member of the worklist and rest is the others"""
    s = tm.SOME if hasattr(tm, "SOME") else None
    if a.op == "pay" and a.args[0].op == "popped" and a.args[0].args[0] is w and rest.op == "butlast" and rest.args[0] is w:
        return True
    if a.op == "idx" and a.args[0] is w and tm.is_c(a.args[1]):
        i = a.args[1]
        if rest.op in ("swapremove", "removeat") and rest.args[0] is w and rest.args[1] is i:
            return True
        if rest.op == "skip" and i is tm.c(0) and w in rest.args and tm.c(1) in rest.args:
            return True
    return False


def refinement(ret):
    """the summary is a partition refinement to the coarsest stable partition"""
    acc = None
    b0 = tm.fresh(STATES)
    anyF = tm.any_(b0, STATES, tm.as_bool(tm.fld(el(b0), "accepting")))
    anyN = tm.any_(b0, STATES, NOT(tm.as_bool(tm.fld(el(b0), "accepting"))))
    facts = []
    main = False
    for g, v in tm.leaves(ret):
        cases = []
        for f, n in ((True, True), (True, False), (False, True)):
            h = g
            for node, have in ((anyF, f), (anyN, n)):
                a = tm._atom_list[node.v]
                h = cof(h, a, have if node is var(a) else not have)
            b1 = tm.fresh(STATES)
            if h is not TR and h is not F and (v.op == "seq" or not understood(h)):
                raise Shape(f"result when {tm.show_node(h)[:100]}")
            if h is not F:
                cases.append((f, n))
        if not cases:
            continue
        if v.op == "seq":
            start(v, cases, "blocks", True)
            if (True, True) in cases:
                raise Broken("accepting and other states are never refined further")
            continue
        if v.op != "fld" or v.args[0].op != "fold":
            raise Shape("result")
        fo, p = v.args[0], int(v.args[1])
        b, src, ini, stp = open_(fo)
        if src.op != "while" or stp.op != "tup" or ini.op != "tup":
            raise Shape("no loop until done")
        mu = raw("mu", b)
        P = tm.fld(mu, str(p))
        ws = [i for i in range(len(stp.args[0]) - 1) if tm.as_bool(stp.args[0][-1]) is tm.eq0(tm.length(tm.fld(mu, str(i))))]
        if len(ws) != 1:
            raise Shape("end of the loop")
        w = ws[0]
        W = tm.fld(mu, str(w))
        start(ini.args[0][p], cases, "blocks", True)
        start(ini.args[0][w], cases, "worklist", False)
        sp, sw = stp.args[0][p], stp.args[0][w]
        if sp.op != "fld" or sw.op != "fld" or sp.args[0] is not sw.args[0] or sp.args[0].op != "fold":
            raise Shape("no loop over the columns")
        fc, p2, w2 = sp.args[0], int(sp.args[1]), int(sw.args[1])
        bc, cols, ini2, st2 = open_(fc)
        if strip(cols) is not ALPHABET:
            if understood(cols):
                raise Broken(f"blocks are split for the columns of {tm.show(cols)[:100]} instead of every column of the alphabet")
            raise Shape("columns")
        if ini2.op != "tup" or ini2.args[0][p2] is not P:
            raise Shape("blocks at the start of a round")
        rest = ini2.args[0][w2]
        mu2 = raw("mu", bc)
        P2, W2 = tm.fld(mu2, str(p2)), tm.fld(mu2, str(w2))
        if st2.op != "tup":
            raise Shape("columns")
        NP, NW = st2.args[0][p2], st2.args[0][w2]
        # the block the others are split by
        A = None
        import compare
        for a in compare.all_atoms(NP):
            if a.op == "in":
                for x in a.args:
                    if taken(x, rest, W):
                        A = x
        if A is None:
            raise Shape("block taken from the worklist")
        X = members_of(A, tm.idx(tm.fld(ATQ, "transitions"), ix(bc)))
        mk = lambda y, wl=W2: Block(y, X, wl)
        if NP.op != "seq" or NP.args[0] != "vec":
            raise Shape("blocks are no plain list")
        new_blocks(NP.args[1], P2, mk)
        worklist(NW, P2, W2, mk)
        main = (True, True) in cases
        facts.append(tm.show(cols))
    if not main:
        raise Shape("no refinement when there are accepting and other states")


def members_of(s, x):
    return tm.member(s, x)


def minimisation(ctx):
    key = D + "state_equivalence_classes_idx"
    ob, rule = "dfa::Dfa::state_equivalence_classes_idx", "the loop refines the partition by every block and every column until none splits another"
    try:
        s = ctx.summary(ctx.P, key, (), 60)["ret"]
        refinement(s)
        ctx.ok(ob, ctx.where(key), rule)
    except Broken as e:
        ctx.bad(ob, ctx.where(key), rule, str(e))
    except (Shape, Undecided, KeyError, AttributeError, TypeError, IndexError, ValueError, AssertionError, RecursionError) as e:
        ctx.unknown(ob, ctx.where(key), rule, f"{type(e).__name__} {e}")
    ctx.same(D + "state_equivalence_classes", whole=(key,))
    ctx.same(D + "merge_nondistinguishable_states", ("ret", "arg0"), whole=(key,), proj=lambda t: by_class(t))
    ctx.same(D + "minimize", ("ret", "arg0"), whole=(D + "merge_nondistinguishable_states", D + "remove_unreachable_states"), alts=("minimize__2",))
    ctx.same(D + "remove_unreachable_states", ("arg0",))
