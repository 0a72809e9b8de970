"""Iterator pipelines: lazy values `it(base, stages)` that are only interpreted when something consumes them."""
from terms import *
import terms as tm


def stg(name, *args):
    return raw("stg", name, *args)


def mk_it(base, stages=()):
    return raw("it", base, tuple(stages))


def is_range_agg(v):
    return v.op == "agg" and v.args[0].startswith("std::ops::Range")


def into_iter(self, v, st):
    """value -> iterator value"""
    if v.op == "it":
        return v
    if v.op == "gate" and any(x.op in ("it", "ref", "agg") for _, x in v.args[0]):
        if all(x.op == "agg" and x.args[0] == OPT for _, x in v.args[0]):
            return mk_it(opt_seq(v))
        r = None
        for g, x in reversed(v.args[0]):
            y = self.into_iter(x, st)
            r = y if r is None else ite(g, y, r)
        return r
    if v.op == "ref":
        inner = self.rd(st, (v.args[0], v.args[1]))
        if inner.op in ("it", "gate") and (inner.op == "it" or any(x.op == "it" for _, x in inner.args[0])):
            return raw("it", raw("byref", v.args[0], v.args[1]), ())
        if is_range_agg(inner):
            return raw("it", raw("byref", v.args[0], v.args[1]), ())
        return mk_it(raw("mutiter", v.args[0], v.args[1]))
    if is_range_agg(v):
        n = v.args[0].split("::")[-1]
        if n == "Range":
            return mk_it(range_(agg_get(v, "start"), agg_get(v, "end")))
        if n == "RangeInclusive":
            return mk_it(range_(agg_get(v, "start"), add(agg_get(v, "end"), c(1))))
        if n == "RangeFrom":
            return mk_it(raw("iota", agg_get(v, "start")))
        raise Undecided("iteration over " + n)
    if v.op == "agg" and v.args[0] == OPT:
        return mk_it(opt_seq(v))
    return mk_it(v)


def opt_seq(v):
    p = pay(v, "Some", "0")
    return seq("vec", [one(is_variant(v, OPT, "Some"), p)])


def mk_iter(self, v, st, ty=None):
    """into_iter of a value whose static type is known (Option needs it)"""
    if ty is not None:
        k = self.coll_kind(ty)
        if k == "opt":
            v = self.deref_val(st, v)
            return mk_it(opt_seq(v))
        if k == "res":
            v = self.deref_val(st, v)
            return mk_it(seq("vec", [one(is_variant(v, RES, "Ok"), pay(v, "Ok", "0"))]))
        t = self.ty(ty)
        if not (t["k"] == "ref" and t["m"]) and not (t["k"] == "param"):
            if v.op == "ref":
                inner = self.rd(st, (v.args[0], v.args[1]))
                if inner.op != "it":
                    v = inner
    return self.into_iter(v, st)


def with_stage(it, s):
    if it.op == "gate":
        return mapgate(it, lambda x: with_stage(x, s))
    return raw("it", it.args[0], it.args[1] + (s,))


def resolve_byref(self, it, st):
    """by-reference iteration: take the iterator out of its cell"""
    pl = (it.args[0].args[0], it.args[0].args[1])
    inner = self.rd(st, pl)
    inner = self.into_iter(inner, st)
    stages = it.args[1]
    self.wr(st, pl, raw("it", seq("vec", []), ()))
    if inner.op == "gate":
        raise Undecided("gated iterator by reference")
    return raw("it", inner.args[0], inner.args[1] + stages)


_uid = [0]


def drive(self, st, it, body, e, label=None, ty=None):
    """run body(st, element) for every element the iterator yields; afterwards st is the state after the loop"""
    it = self.mk_iter(it, st, ty) if ty is not None else self.into_iter(it, st)
    _uid[0] += 1
    D = self.mk_target("loop", label if label is not None else ("drive", _uid[0]))
    self.targets.append(D)

    def last(t, v, pos):
        saved = D.conts
        D.conts = []
        body(t, v)
        conts = D.conts
        D.conts = saved
        if conts:
            if not t.dead():
                conts = conts + [(t.live, t.copy(), UNIT)]
            m, _ = self.merge_many(conts)
            if m is not None:
                t.store, t.live = m.store, m.live
    try:
        self.drive_it(st, it, last, e, D)
    finally:
        self.targets.pop()
    finish(self, st, D)


def finish(self, st, D):
    if D.exits:
        exits = list(D.exits)
        if not st.dead():
            exits.append((st.live, st.copy(), UNIT))
        m, _ = self.merge_many(exits)
        D.exits = []
        st.store, st.live = m.store, m.live


def drive_it(self, st, it, push, e, D):
    if it.op == "gate":
        lv = list(it.args[0])

        def go(i, t):
            if i == len(lv) - 1:
                return self.drive_it(t, lv[i][1], push, e, None)
            return self.branch(t, lv[i][0], lambda t2: self.drive_it(t2, lv[i][1], push, e, None), lambda t2: go(i + 1, t2))
        go(0, st)
        return
    base, stages = it.args
    if base.op == "byref":
        it = resolve_byref(self, it, st)
        base, stages = it.args
    stages = list(stages)
    # an infinite left side of a zip: drive the finite side instead
    if base.op in ("iota", "rept"):
        if stages and stages[0].args[0] == "zip":
            other = self.into_iter(stages[0].args[1], st)
            rest = stages[1:]

            def p2(t, v, pos):
                left = base.args[0] if base.op == "rept" else add(base.args[0], pos)
                push_stages(self, t, tup(left, v), pos, rest, push, e, D)
            need_pos(self, st, other, p2, e, D)
            return
        if stages and stages[0].args[0] == "take":
            n = stages[0].args[1]
            if base.op == "rept":
                base = seq("vec", [raw("rep", base.args[0], n)])
            else:
                base = range_(base.args[0], add(base.args[0], n))
            stages = stages[1:]
        elif base.op == "iota":
            base = raw("iotaseq", base.args[0])
        else:
            raise Undecided("infinite iteration")
    if base.op == "chain":
        for x in base.args:
            self.drive_it(st, x, lambda t, v, pos: push_stages(self, t, v, None, stages, push, e, D), e, None)
            if st.dead():
                return
        return
    # reversals and skips at the bottom of the pipeline
    while stages and stages[0].args[0] in ("rev", "skip", "copied"):
        s = stages[0]
        if s.args[0] == "rev":
            if base.op == "mutiter":
                base = raw("mutiter", base.args[0], base.args[1], "rev")
            else:
                base = rev_(base)
        elif s.args[0] == "skip":
            if base.op == "mutiter":
                break
            base = skip_(base, s.args[1])
        stages = stages[1:]
    # take_while-like stages need a target that ends this pipeline only
    own = D
    if D is None and any(s.args[0] in ("take_while", "map_while") for s in stages):
        _uid[0] += 1
        own = self.mk_target("loop", ("pipe", _uid[0]))
        self.targets.append(own)
    counters = {}
    for i, s in enumerate(stages):
        if s.args[0] in ("enumerate", "take", "zip", "skip"):
            counters[i] = self.newcell(st, c(0))
    try:
        drive_base(self, st, base, lambda t, v, pos: push_stages(self, t, v, pos, stages, push, e, own, counters, 0), e, own)
    finally:
        if own is not D and own is not None:
            self.targets.remove(own)
    if own is not D and own is not None:
        finish(self, st, own)


def need_pos(self, st, it, push, e, D):
    """drive an iterator, always supplying a position"""
    cell = self.newcell(st, c(0))

    def p(t, v, pos):
        if pos is None:
            pos = t.store[cell]
        t.store[cell] = add(t.store[cell], c(1))
        push(t, v, pos)
    self.drive_it(st, it, p, e, D)


def rev_(base):
    if base.op == "rev":
        return base.args[0]
    if base.op == "seq":
        if all(s.op == "one" for s in base.args[1]):
            return seq(base.args[0], list(reversed(base.args[1])))
    return tm.mapgate(base, lambda x: raw("rev", x))


def at_least_zero(n):
    """m, when n is max(0, m)"""
    if n.op == "gate" and len(n.args[0]) == 2:
        for (g, m), (_, z) in (n.args[0], n.args[0][::-1]):
            if z is c(0) and g in (ge0(sub(m, c(1))), ge0(m)):
                return m
    if n.op == "app" and n.args[0] == "max" and len(n.args[1]) == 2 and c(0) in n.args[1]:
        return n.args[1][1 - n.args[1].index(c(0))]
    return None


def skip_(base, n):
    if base.op == "range":
        return range_(add(base.args[0], n), base.args[1])
    if is_int(n) and n.args[1] == 0:
        return base
    if base.op == "seq" and is_int(n):
        sg = base.args[1]
        k = n.args[1]
        if len(sg) >= k and all(s.op == "one" and s.args[0] is TR for s in sg[:k]):
            return seq(base.args[0], sg[k:])
    if base.op == "skip":
        return raw("skip", base.args[0], add(base.args[1], n))
    # all but the first (length - k) elements: the last k, that is the first k of the reverse, turned round again
    m = at_least_zero(n)
    if m is not None:
        S = base.args[1][0].args[0] if base.op == "seq" and len(base.args[1]) == 1 and base.args[1][0].op == "all" else base
        k = sub(length(S), m)
        if length(S).op == "len" and length(S) not in lin_parts(k)[0]:
            r = raw("rev", S)
            b = fresh(r)
            x = for_(b, r, [one(ge0(sub(sub(k, ix(b)), c(1))), el(b))])
            return raw("rev", seq("vec", x if isinstance(x, list) else [x]))
    return raw("skip", base, n)


def drive_base(self, st, base, push, e, D):
    if base.op == "gate":
        lv = list(base.args[0])

        def go(i, t):
            if i == len(lv) - 1:
                return drive_base(self, t, lv[i][1], push, e, None)
            return self.branch(t, lv[i][0], lambda t2: drive_base(self, t2, lv[i][1], push, e, None), lambda t2: go(i + 1, t2))
        go(0, st)
        return
    if base.op == "mutiter":
        drive_mut(self, st, base, push, e, D)
        return
    if base.op == "range":
        lo, hi = base.args
        if is_c(lo) and lo.args[1] == 0 and hi.op == "len" and not has_mu(hi):
            # an index range over the length of a collection is an iteration over that collection
            self.run_loop(st, hi.args[0], lambda t, b: push(t, ix(b), ix(b)), e, own=D)
            return
        n = sub(hi, lo)
        if not is_c(lo) and (n.op == "len" or is_c(n)):
            drive_base(self, st, range_(c(0), n), lambda t, v, p: push(t, add(lo, v), p), e, D)
            return
        self.run_loop(st, base, lambda t, b: push(t, el(b), sub(el(b), lo)), e, own=D)
        return
    if base.op == "seq" and base.args[0] != "str":
        segs = list(base.args[1])
        if len(segs) == 1:
            drive_seg(self, st, segs[0], push, e, D, TR)
            return
        pos = 0
        for k, s in enumerate(segs):
            if st.dead():
                return
            if s.op == "one" and s.args[0] is TR and pos is not None:
                p = c(pos)
                pos += 1
                drive_seg(self, st, s, (lambda t, v, q, p=p: push(t, v, p)), e, None, TR)
                continue
            pos = None
            off = length(seq(base.args[0], segs[:k])) if base.args[0] == "vec" else None
            if off is None or has_mu(off):
                drive_seg(self, st, s, (lambda t, v, q: push(t, v, None)), e, None, TR)
            else:
                drive_seg(self, st, s, (lambda t, v, q, off=off: push(t, v, None if q is None else add(off, q))), e, None, TR)
        return
    if base.op == "skip" and base.args[0].op != "range" and is_int(base.args[1]) and placed(base.args[0]):
        # the elements from position n on
        n = base.args[1]

        def late(t, v, p):
            if p is None:
                raise Undecided("skip at unknown positions")
            return self.branch(t, ge0(sub(p, n)), lambda t2: push(t2, v, sub(p, n)), lambda t2: UNIT)
        drive_base(self, st, base.args[0], late, e, D)
        return
    self.run_loop(st, base, lambda t, b: push(t, el(b), ix(b)), e, own=D)


def placed(base):
    """the position of every element is known"""
    if base.op != "seq":
        return True
    for s in base.args[1]:
        if s.op == "one" and s.args[0] is not TR or s.op == "segif":
            return False
        if s.op == "for":
            if len(s.args[2]) != 1 or s.args[2][0].op != "one" or s.args[2][0].args[0] is not TR:
                return False
        if s.op == "all" and not placed(s.args[0]):
            return False
    return True


def drive_seg(self, st, s, push, e, D, g):
    if s.op == "one":
        self.branch(st, s.args[0], lambda t: push(t, s.args[1], c(0) if s.args[0] is TR else None), lambda t: UNIT)
    elif s.op == "all":
        drive_base(self, st, s.args[0], push, e, D)
    elif s.op == "for":
        b0, src, inner = open_(s)
        m = lambda x, b: subst(x, {raw("el", b0): el(b), raw("ix", b0): ix(b)})
        single = len(inner) == 1 and inner[0].op == "one" and inner[0].args[0] is TR

        def bd(t, b):
            for i in inner:
                for y in tm.sub_seg(i, {raw("el", b0): el(b), raw("ix", b0): ix(b)}, frozenset((b0,)), {}):
                    if t.dead():
                        return
                    drive_seg(self, t, y, (lambda t2, v, p: push(t2, v, ix(b) if single else None)), e, None, TR)
        self.run_loop(st, src, bd, e, own=D)
    elif s.op == "rep":
        n = s.args[1]
        self.run_loop(st, range_(c(0), n), lambda t, b: push(t, s.args[0], ix(b)), e, own=D)
    elif s.op == "segif":
        self.branch(st, s.args[0], lambda t: drive_seg(self, t, s.args[1], push, e, None, TR), lambda t: UNIT)
    else:
        raise Undecided("iteration over segment " + s.op)


def has_mu(x):
    seen = set()

    def go(y):
        if isinstance(y, T):
            if y in seen:
                return False
            seen.add(y)
            if y.op == "mu":
                return True
            return bool(y.fv) and any(go(z) for z in y.args)
        if isinstance(y, N):
            return bool(y.fv) and any(go(a) for a in atoms_of(y))
        if isinstance(y, tuple):
            return any(go(z) for z in y)
        return False
    return go(x)


def drive_mut(self, st, base, push, e, D):
    """iter_mut: every element is rewritten in place"""
    place = (base.args[0], base.args[1])
    cur = self.rd(st, place)
    if cur.op == "seq" and all(s.op == "one" and s.args[0] is TR for s in cur.args[1]) and len(base.args) == 2:
        for i in range(len(cur.args[1])):
            push(st, self.mkref((place[0], place[1] + (("i", c(i)),))), c(i))
            if st.dead():
                return
        return
    acc = self.newcell(st, seq("vec", []))

    def body(t, v, pos):
        cell = self.newcell(t, v)
        push(t, self.mkref((cell, ())), pos)
        if t.dead():
            return
        t.store[acc] = seq("vec", segs_of(t.store[acc]) + [one(TR, t.store[cell])])
    src = cur if len(base.args) == 2 else rev_(cur)
    n0 = self.exit_count()
    drive_base(self, st, src, body, e, D)
    new = st.store.get(acc)
    if new is None or st.dead():
        return
    out = new.args[1][0].args[0] if (new.op == "seq" and len(new.args[1]) == 1 and new.args[1][0].op == "all") else new
    if len(base.args) == 3:
        if out is src:
            out = cur
        else:
            out = rev_(out)
    elif out is cur or (cur.op == "seq" and out is seq("vec", list(cur.args[1]))):
        out = cur
    if D is not None and D.exits and out is not cur:
        raise Undecided("iter_mut left early")
    self.wr(st, place, out)


def push_stages(self, t, v, pos, stages, push, e, D, counters=None, i=0):
    """push one element through the remaining stages"""
    if t.dead():
        return
    if i >= len(stages):
        return push(t, v, pos)
    s = stages[i]
    k = s.args[0]
    nxt = lambda t2, v2, p2: push_stages(self, t2, v2, p2, stages, push, e, D, counters, i + 1)
    if k in ("copied", "peekable", "byref", "fuse"):
        return nxt(t, self.deref_val(t, v) if k == "copied" else v, pos)
    if k == "map":
        r = self.call_value(s.args[1], [v], t, e)
        return nxt(t, r, pos)
    if k == "inspect":
        self.call_value(s.args[1], [v], t, e)
        return nxt(t, v, pos)
    if k == "filter":
        g = as_bool(self.call_value(s.args[1], [v], t, e))
        self.branch(t, g, lambda t2: nxt(t2, v, None), lambda t2: UNIT)
        return
    if k == "filter_map":
        r = self.call_value(s.args[1], [v], t, e)
        if t.dead():
            return
        self.branch(t, is_variant(r, OPT, "Some"), lambda t2: nxt(t2, pay(r, "Some", "0"), None), lambda t2: UNIT)
        return
    if k == "flat_map":
        r = self.call_value(s.args[1], [v], t, e)
        if t.dead():
            return
        inner = self.mk_iter(r, t, None) if not s.args[2:] else opt_iter(self, r, t, s.args[2])
        self.drive_it(t, inner, lambda t2, v2, p2: nxt(t2, v2, None), e, None)
        return
    if k == "flatten":
        inner = opt_iter(self, v, t, s.args[1]) if s.args[1:] else self.mk_iter(v, t, None)
        self.drive_it(t, inner, lambda t2, v2, p2: nxt(t2, v2, None), e, None)
        return
    if k in ("enumerate", "take", "zip", "skip"):
        if pos is None:
            if counters is None or i not in counters:
                raise Undecided("position in a filtered stream")
            cell = counters[i]
            pos2 = t.store[cell]
            t.store[cell] = add(pos2, c(1))
        else:
            pos2 = pos
        if k == "enumerate":
            return nxt(t, tup(pos2, v), pos)
        if k == "take":
            self.branch(t, ge0(sub(sub(s.args[1], pos2), c(1))), lambda t2: nxt(t2, v, pos), lambda t2: UNIT)
            return
        if k == "skip":
            self.branch(t, ge0(sub(pos2, s.args[1])), lambda t2: nxt(t2, v, None), lambda t2: UNIT)
            return
        o = self.into_iter(s.args[1], t)
        w = elem_of(self, o, pos2, t, e)
        return nxt(t, tup(v, w), pos)
    if k == "take_while":
        g = as_bool(self.call_value(s.args[1], [v], t, e))

        def stop(t2):
            D.exits.append((t2.live, t2.copy(), UNIT))
            t2.live = F
        self.branch(t, g, lambda t2: nxt(t2, v, pos), stop)
        return
    if k == "map_while":
        r = self.call_value(s.args[1], [v], t, e)

        def stop(t2):
            D.exits.append((t2.live, t2.copy(), UNIT))
            t2.live = F
        self.branch(t, is_variant(r, OPT, "Some"), lambda t2: nxt(t2, pay(r, "Some", "0"), pos), stop)
        return
    raise Undecided("iterator stage " + k)


def opt_iter(self, v, st, kind):
    v = self.deref_val(st, v)
    if kind == "opt":
        return mk_it(opt_seq(v))
    return mk_it(seq("vec", [one(is_variant(v, RES, "Ok"), pay(v, "Ok", "0"))]))


def elem_of(self, it, pos, st, e):
    """element number pos of an iterator without length-changing stages"""
    if it.op != "it":
        raise Undecided("zip with a gated iterator")
    base, stages = it.args
    stages = list(stages)
    while stages and stages[0].args[0] in ("skip", "rev", "copied"):
        if stages[0].args[0] == "skip":
            pos = add(pos, stages[0].args[1])
        elif stages[0].args[0] == "rev":
            base = rev_(base)
        stages = stages[1:]
    if base.op == "rept":
        v = base.args[0]
    elif base.op == "iota":
        v = add(base.args[0], pos)
    elif base.op == "range":
        v = add(base.args[0], pos)
    elif base.op == "mutiter" and len(base.args) == 2:
        v = self.mkref((base.args[0], base.args[1] + (("i", pos),)))
    elif base.op == "chain":
        first, rest = base.args[0], base.args[1:]
        n = iter_len(self, first, st)
        more = rest[0] if len(rest) == 1 else mk_it(raw("chain", *rest))
        v = self.branch(st, ge0(sub(sub(n, pos), c(1))), lambda t: elem_of(self, first, pos, t, e),
                        lambda t: elem_of(self, more, sub(pos, n), t, e))
    elif base.op == "byref":
        return elem_of(self, resolve_byref(self, it, st), pos, st, e)
    elif base.op in ("mutiter", "iotaseq", "it", "rev"):
        raise Undecided("zip with a complex iterator " + base.op)
    else:
        v = idx(base, pos)
    for s in stages:
        k = s.args[0]
        if k == "map":
            v = self.call_value(s.args[1], [v], st, e)
        elif k == "copied":
            v = self.deref_val(st, v)
        elif k in ("take", "peekable", "fuse", "byref"):
            pass
        elif k == "enumerate":
            v = tup(pos, v)
        elif k == "zip":
            v = tup(v, elem_of(self, self.into_iter(s.args[1], st), pos, st, e))
        else:
            raise Undecided("zip with stage " + k)
    return v


def iter_len(self, it, st):
    """number of elements an iterator yields, when that is a closed form"""
    it = self.into_iter(it, st)
    if it.op != "it":
        raise Undecided("length of a gated iterator")
    base, stages = it.args
    if base.op == "chain":
        n = c(0)
        for x in base.args:
            n = add(n, iter_len(self, x, st))
    elif base.op == "range":
        n = sub(base.args[1], base.args[0])
    elif base.op == "mutiter":
        n = length(self.rd(st, (base.args[0], base.args[1])))
    elif base.op in ("byref", "iota", "rept"):
        raise Undecided("length of a complex iterator")
    else:
        n = length(base)
    for s in stages:
        k = s.args[0]
        if k in ("map", "copied", "enumerate", "rev", "peekable", "zip"):
            continue
        if k == "take":
            n = min_(n, s.args[1])
        elif k == "skip":
            n = sub(n, s.args[1])
        else:
            raise Undecided("length of a filtered iterator")
    return n


def min_(a, b):
    return ite(ge0(sub(a, b)), b, a)


# ------------------------------------------------------------ consumers
def seq_of(self, st, it, kind, e):
    """materialise an iterator as a collection of the given kind"""
    it = self.into_iter(it, st)
    if it.op == "it" and not it.args[1] and it.args[0].op not in ("mutiter", "chain", "byref", "iota", "rept", "range", "gate"):
        return seq(kind, segs_of(it.args[0]))
    cell = self.newcell(st, seq(kind, []))

    def body(t, v):
        v = self.deref_val(t, v) if kind == "str" else v
        cur = t.store[cell]
        t.store[cell] = seq(kind, (str_segs(cur) if kind == "str" else segs_of(cur)) + [one(TR, v)])
    self.drive(st, it, body, e)
    return st.store.get(cell, raw("bot"))


def drive_collect(self, st, it, ty, e):
    kind = self.coll_kind(ty)
    if kind in ("vec", "set", "map", "str"):
        return seq_of(self, st, it, kind, e)
    if kind == "path":
        return app("PathBuf::from_iter", seq_of(self, st, it, "vec", e))
    if kind in ("opt", "res"):
        t = self.strip_ty(ty)
        inner = self.coll_kind(t["a"][0])
        if inner not in ("vec", "set", "map", "str"):
            raise Undecided("collect into option of " + str(inner))
        cell = self.newcell(st, seq(inner, []))
        good = "Some" if kind == "opt" else "Ok"
        adt = OPT if kind == "opt" else RES
        D = self.mk_target("loop", ("collect", id(e), len(self.targets)))
        self.targets.append(D)

        def body(t, v):
            def fa(t2):
                t2.store[cell] = seq(inner, segs_of(t2.store[cell]) + [one(TR, pay(v, good, "0"))])

            def fb(t2):
                bad = NONE if kind == "opt" else err(pay(v, "Err", "0"))
                D.exits.append((t2.live, t2.copy(), bad))
                t2.live = F
            self.branch(t, is_variant(v, adt, good), fa, fb)
        try:
            self.drive(st, it, body, e)
        finally:
            self.targets.pop()
        exits = list(D.exits)
        if not st.dead():
            v = st.store[cell]
            exits.append((st.live, st.copy(), some(v) if kind == "opt" else ok(v)))
        m, val = self.merge_many(exits)
        st.store, st.live = m.store, m.live
        return val
    raise Undecided("collect into " + self.tstr(ty))


def drive_exit(self, st, it, test, default, e):
    """test(t, v) -> (stop condition, value or fn(t)); first stop wins"""
    D = self.mk_target("loop", ("exit", len(self.targets), self.steps))
    self.targets.append(D)

    def body(t, v):
        g, val = test(t, v)
        if t.dead():
            return

        def stop(t2):
            D.exits.append((t2.live, t2.copy(), val(t2) if callable(val) else val))
            t2.live = F
        self.branch(t, g, stop, lambda t2: UNIT)
    try:
        self.drive(st, it, body, e)
    finally:
        self.targets.pop()
    exits = list(D.exits)
    if not st.dead():
        exits.append((st.live, st.copy(), default(st) if callable(default) else default))
    if not exits:
        return raw("bot")
    m, val = self.merge_many(exits)
    st.store, st.live = m.store, m.live
    return val
