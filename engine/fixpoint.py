"""Recognition of worklist / frontier / until-no-change loops and their closed form

    lfp(b, initial elements, successors of el(b))

The order in which the worklist is processed, the representation of its elements (indices, evaluators,
tuples...) and the place of the visited test disappear from the closed form."""
from terms import *
import terms as tm


DEBUG = False


class No(Exception):
    pass


def recognise(self, st, b, leaves, own, foreign, after, e):
    if after is None:
        return None
    for f in (stack_loop, frontier_loop, flag_loop, grow_loop):
        try:
            r = f(self, st, b, leaves, own, foreign, after)
        except No:
            if DEBUG:
                import traceback
                traceback.print_exc()
            continue
        if r is not None:
            return r
    return None


# ------------------------------------------------------------ helpers
def repl(x, table):
    """replace (possibly composite) terms"""
    keys = frozenset().union(*[k.fv for k in table]) if table else frozenset()
    return tm.sub_any(x, table, keys, {})


def flat(segs):
    out = []
    for s in segs:
        out += list(s.args[0]) if s.op == "segs" else [s]
    return out


def repl_segs(segs, table):
    keys = frozenset().union(*[k.fv for k in table])
    out = []
    for s in segs:
        out += tm.sub_seg(s, table, keys, {}) if (s.fv & keys) else [s]
    return out


def map_segs(segs, f):
    """f(guard, elem) -> (guard, elem) applied to every leaf, through nested loops"""
    out = []
    for s in segs:
        if s.op == "one":
            g, x = f(s.args[0], s.args[1])
            if g is not F:
                out.append(one(g, x))
        elif s.op == "all":
            nb = fresh(s.args[0])
            g, x = f(TR, el(nb))
            r = for_(nb, s.args[0], [one(g, x)])
            out += [] if r is None else r if isinstance(r, list) else [r]
        elif s.op == "for":
            bb, src, inner = open_(s)
            r = for_(bb, src, map_segs(inner, f))
            out += [] if r is None else r if isinstance(r, list) else [r]
        else:
            raise No()
    return out


def each(segs, f):
    map_segs(segs, lambda g, x: (f(g, x), (g, x))[1])


def components(x, path=()):
    """leaf components of a tuple / struct value"""
    if x.op == "tup" and x.args[0]:
        out = []
        for i, y in enumerate(x.args[0]):
            out += components(y, path + (str(i),))
        return out
    if x.op == "agg" and len(tm.ADTS.get(x.args[0], ())) == 1 and x.args[2]:
        out = []
        for n, y in x.args[2]:
            out += components(y, path + (n,))
        return out
    return [(path, x)]


def get(x, path):
    for p in path:
        x = fld(x, p)
    return x


def rebuild(shape, path, f):
    if shape.op == "tup" and shape.args[0]:
        return tup(*[rebuild(y, path + (str(i),), f) for i, y in enumerate(shape.args[0])])
    if shape.op == "agg" and len(tm.ADTS.get(shape.args[0], ())) == 1 and shape.args[2]:
        return agg(shape.args[0], shape.args[1], [(n, rebuild(y, path + (n,), f)) for n, y in shape.args[2]])
    return f(path)


def key_parts(k):
    """components an (injective) key expression is made of"""
    if k.op == "tup":
        return [p for y in k.args[0] for p in key_parts(y)]
    if k.op == "agg" and len(tm.ADTS.get(k.args[0], ())) == 1:
        return [p for _, y in k.args[2] for p in key_parts(y)]
    if k.op == "sorted":
        return key_parts(k.args[0])
    if k.op == "seq" and len(k.args[1]) == 1 and k.args[1][0].op == "all":
        return key_parts(k.args[1][0].args[0])
    return [norm_set(k)]


LOSSY = {"min", "max", "bitand", "bitor", "rem", "div", "shr", "cast8", "cast16", "cast32"}


def lossy(k):
    """a key that different elements share"""
    if k.op == "app" and k.args[0] in LOSSY:
        return True
    return any(lossy(y) for y in k.args if isinstance(y, T)) or any(lossy(z) for y in k.args if isinstance(y, tuple) for z in y if isinstance(z, T))


def norm_set(x):
    if x.op == "seq" and len(x.args[1]) == 1 and x.args[1][0].op == "all":
        return norm_set(x.args[1][0].args[0])
    if x.op == "sorted":
        return norm_set(x.args[0])
    return x


def rekey(k, table):
    n = norm_set(k)
    if n in table and n is k:
        return table[n]
    if k.op not in ("tup", "agg"):
        if n in table:
            if k.op == "sorted":
                return raw("sorted", *([rekey(k.args[0], table)] + list(k.args[1:])))
            if k.op == "seq":
                return seq(k.args[0], segs_of(rekey(k.args[1][0].args[0], table)))
        raise No()
    if k.op == "tup":
        return tup(*[rekey(y, table) for y in k.args[0]])
    return agg(k.args[0], k.args[1], [(n, rekey(y, table)) for n, y in k.args[2]])


def mentions_before(a):
    seen = set()

    def go(y):
        if isinstance(y, T):
            if y in seen:
                return False
            seen.add(y)
            if y.op == "before":
                return True
            return any(go(z) for z in y.args)
        if isinstance(y, N):
            return any(go(z) for z in atoms_of(y))
        if isinstance(y, tuple):
            return any(go(z) for z in y)
        return False
    return go(a)


# ------------------------------------------------------------ pop loops
def popped_val(mu):
    return pay(raw("popped", mu), "Some", "0")


def stack_loop(self, st, b, leaves, own, foreign, after):
    # the worklist: the loop ends exactly when it is empty
    W = None
    for lf in leaves:
        e0 = eq0(length(lf.mu))
        if own and all(g is e0 and v is UNIT for g, _, v in own):
            W = lf
    if W is None or W.step.op != "seq":
        return None
    d = popped_val(W.mu)
    bl = all_(raw("butlast", W.mu))
    d2 = None
    segs = list(W.step.args[1])
    if bl in segs:
        segs.remove(bl)
    else:
        bf = [s for s in segs if s.op == "all" and s.args[0].op in ("skip", "butfirst") and s.args[0].args[0] is W.mu]
        if not bf:
            return None
        segs.remove(bf[0])
        d = idx(W.mu, c(0))
    nonempty = lambda n: cof(n, _atom(eq0(length(W.mu))), False)

    def clean(x):
        return repl(x, {length(W.mu): raw("positive")}) if False else x
    return close_worklist(self, st, b, leaves, own, foreign, after, W, segs, d, lambda lf: lf.step, nonempty)


def _atom(n):
    if n.lo is F and n.hi is TR:
        return tm._atom_list[n.v]
    raise No()


def frontier_loop(self, st, b, leaves, own, foreign, after):
    W = None
    for lf in leaves:
        e0 = eq0(length(lf.mu))
        if own and all(g is e0 and v is UNIT for g, _, v in own):
            W = lf
    if W is None or W.step.op != "seq":
        return None
    if foreign:
        return None
    nb = fresh(W.mu)
    d = el(nb)

    def per(lf):
        s = lf.step
        if s is lf.mu:
            return s
        if s.op != "seq":
            raise No()
        out = []
        for x in s.args[1]:
            if x.op == "all" and x.args[0] is W.mu:
                out.append(one(TR, d))
            elif x.op == "for" and x.args[1] is W.mu:
                b0, src, inner = open_(x)
                out += flat(tm.sub_any(tuple(inner), {el(b0): d, raw("el", b0): d, ix(b0): ix(nb)}, frozenset((b0,)), {}))
            elif x.op == "all" and x.args[0] is lf.mu and lf is not W:
                out.append(x)
            elif tm.uses(x, W.mu):
                raise No()
            else:
                out.append(x)
        return seq(s.args[0], out)
    step = per(W)
    segs = list(step.args[1]) if step.op == "seq" else None
    if segs is None or any(tm.uses(s, W.mu) and not mentions_before(s) for s in segs):
        raise No()
    return close_worklist(self, st, b, leaves, own, foreign, after, W, segs, d, per, lambda n: n)


def close_worklist(self, st, b, leaves, own, foreign, after, W, pushes, d, stepof, nonempty):
    init = segs_of(W.init)
    pushes = [s for s in map_segs(pushes, lambda g, x: (nonempty(g), x))]
    if not pushes:
        raise No()
    e0 = next((s.args[1] for s in init if s.op == "one" and s.args[0] is TR), None)
    if e0 is None:
        e0 = d
    # ---- components that never change
    comps = components(e0)
    const = {}
    if all(s.op == "one" for s in init):
        for p, t in comps:
            if all(get(s.args[1], p) is t for s in init):
                const[p] = t
    mus = [lf.mu for lf in leaves]
    for p in list(const):
        if any(tm.uses(const[p], m) for m in mus):
            del const[p]
    nb = fresh(None)
    while True:
        varying = [p for p, _ in comps if p not in const]
        if not varying:
            varying = None

        def comp(p):
            if p in const:
                return const[p]
            if len(varying) == 1:
                return el(nb)
            return fld(el(nb), str(varying.index(p)))
        tmpl = rebuild(e0, (), comp) if varying else e0
        ps = repl_segs(pushes, {d: tmpl}) if d.op != "el" else repl_segs(pushes, {d: tmpl})
        bad = set()

        def chk(g, x):
            for p in const:
                if get(x, p) is not const[p]:
                    bad.add(p)
        each(ps, chk)
        if not bad:
            break
        for p in bad:
            del const[p]
    if not varying:
        raise No()
    key = lambda x: [norm_set(get(x, p)) for p in varying]
    canon = lambda x: get(x, varying[0]) if len(varying) == 1 else tup(*[get(x, p) for p in varying])
    dtable = {d: tmpl}

    # ---- the record of visited elements
    def own_atoms(n, mu):
        return [a for a in atoms_of(n) if a.op == "in" and a.args[0] is mu]
    S = None
    for lf in leaves:
        if lf is W or stepof(lf).op != "seq" or stepof(lf).args[0] not in ("set", "map", "vec"):
            continue
        hit = []
        each(ps, lambda g, x: hit.append(1) if own_atoms(g, lf.mu) else None)
        if hit:
            S = lf
            break
    if S is None:
        raise No()
    status = "ok"
    kind = S.step.args[0]
    sstep = list(repl_segs(stepof(S).args[1], dtable))
    mine = all_(S.mu)
    if mine not in sstep:
        raise No()
    sstep.remove(mine)
    sstep = map_segs(sstep, lambda g, x: (nonempty(g), x))
    kshape = []
    dkey = key(tmpl)
    pop_checked, push_checked = [], []
    marker = []

    def strip(g, x):
        """remove the visited test of element x"""
        want = key(x)
        ok_ = False
        for a in own_atoms(g, S.mu):
            ps_ = key_parts(a.args[1])
            if sorted(ps_, key=lambda t: t.id) == sorted(want, key=lambda t: t.id):
                kshape.append((a.args[1], x))
                g = cof(g, a, False)
                ok_ = True
                push_checked.append(1)
            elif sorted(ps_, key=lambda t: t.id) == sorted(dkey, key=lambda t: t.id):
                kshape.append((a.args[1], tmpl))
                g = cof(g, a, False)
                pop_checked.append(1)
                ok_ = True
            elif lossy(a.args[1]):
                kshape.append((tup(*want) if len(want) > 1 else want[0], x))
                g = cof(g, a, False)
                marker.append("coarse key")
                ok_ = True
        g = earlier_free(g)
        if not ok_:
            marker.append("unchecked")
        return g, canon(x)

    def earlier_free(g):
        # "an equal element came earlier in this round": it was recorded and pushed then
        for a in atoms_of(g):
            if mentions_before(a):
                if a.op not in ("in", "any"):
                    raise No()
                g = cof(g, a, False)
        return g
    rel = map_segs(ps, strip)
    # visited tests that look at something else than the pushed element stay visible
    vis = raw("visited")
    rel = [y for s in rel for y in (tm.sub_seg(s, {S.mu: vis}, frozenset((S.mu.args[0],)), {}) if tm.uses(s, S.mu) else [s])]
    if any(tm.uses(s, m) for s in rel for m in mus):
        raise No()
    if len(varying) == 1:
        # an element need not add itself
        rel = map_segs(rel, lambda g, x: (cof(g, list(atoms_of(eq(x, el(nb))))[0], False) if eq(x, el(nb)) not in (TR, F) and len(atoms_of(eq(x, el(nb)))) == 1 else g, x))
    rel = set_simplify(rel)
    # what is recorded
    recorded = []

    rguards = []
    order = lambda parts: sorted(parts, key=lambda t: t.id)

    def rec_key(g, x):
        ps_ = order(key_parts(fld(x, "0") if kind == "map" else x))
        for a in own_atoms(g, S.mu):
            if order(key_parts(a.args[1])) == ps_:
                g = cof(g, a, False)
        return earlier_free(g), tup(*key_parts(fld(x, "0") if kind == "map" else x))

    # the order in which the key lists the components of an element
    perm = list(range(len(dkey)))
    for k_, x_ in kshape:
        ps_, want_ = key_parts(k_), key(x_)
        if len(ps_) == len(want_) and len(set(ps_)) == len(ps_) and set(ps_) == set(want_):
            perm = [want_.index(y) for y in ps_]
            break

    def strip_key(g, x):
        want = order(key(x))
        for a in own_atoms(g, S.mu):
            if order(key_parts(a.args[1])) in (want, order(dkey)):
                g = cof(g, a, False)
        ks = key(x)
        return earlier_free(g), tup(*[ks[i] for i in perm])

    def rec(g, x):
        g, k = rec_key(g, x)
        recorded.append(order(k.args[0]))
        rguards.append((g, order(k.args[0]) == order(dkey)))
    each(sstep, rec)
    pk = []
    each(ps, lambda g, x: pk.append(sorted(key(x), key=lambda t: t.id)))
    # the elements are recorded (and tested) when they are taken; a test before the push only saves work
    at_pop = bool(pop_checked) and bool(rguards) and all(d_ and g_ is TR for g_, d_ in rguards)
    if not pop_checked:
        n_rec = sorted(_shape(p) for p in recorded)
        n_psh = sorted(_shape(p) for p in pk)
        if set(n_psh) - set(n_rec):
            marker.append("unrecorded")
        elif not same_flow(flat(map_segs(ps, strip_key)), flat(map_segs(sstep, rec_key))):
            marker.append("recorded differently")
    elif not push_checked and any(not d_ or g_ is not TR for g_, d_ in rguards):
        marker.append("recorded differently")
    # what is recorded before the first step are the elements to start from (nothing when the test comes at the pop)
    sk0 = lambda ps: tuple(sorted(t.id for t in ps))
    i_seg, i_rec = set(), set()
    for s in init:
        i_seg.add(("e", sk0(key_parts(tup(*key(s.args[1])))), s.args[0].id) if s.op == "one" else ("s", s.id))
    known = S.init.op == "seq"
    if not known:
        i_rec.add(("s", all_(S.init).id))
    else:
        for s in S.init.args[1]:
            if s.op == "one":
                k = fld(s.args[1], "0") if kind == "map" else s.args[1]
                i_rec.add(("e", sk0(map(norm_set, key_parts(k))), s.args[0].id))
            else:
                i_rec.add(("s", s.id))
    if at_pop or pop_checked and not push_checked:
        if i_rec:
            marker.append("preset")
    elif i_rec - i_seg:
        if any(k[0] == "s" for k in i_rec | i_seg):
            raise No()
        marker.append("preset")
    elif i_seg - i_rec:
        marker.append("uninit")
    if marker:
        status = ",".join(sorted(set(marker)))
    if not kshape:
        raise No()
    initc = []
    for s in init:
        if s.op == "one":
            initc.append(one(s.args[0], canon(s.args[1])))
        elif len(varying) == 1 and varying[0] == ():
            initc.append(s)
        else:
            raise No()
    L = close("lfp", nb, seq("set", initc), tuple(_set_order(rel)), c(status))
    tm.SRC[nb] = L
    # ---- the visited collection at the end
    k, x = kshape[0]
    table = {norm_set(get(x, p)): get(tmpl, p) for p in varying}
    kk = rekey(k, table)
    number = None
    if kind == "map":
        number = numbering(self, leaves, S, W, kk)
        val = number[1] if number else None
        if val is None:
            raise No()
        segs = [one(TR, tup(kk, val))]
    else:
        segs = [one(TR, kk)]
    r = for_(nb, L, segs)
    Sfin = seq(kind, r if isinstance(r, list) else [r])

    def sub(x):
        if isinstance(x, tuple):
            return tuple(sub(y) for y in x)
        if isinstance(x, N):
            x = nonempty(x)
            x = repl(x, dtable)
            for a in own_atoms(x, S.mu):
                ps_ = sorted(key_parts(a.args[1]), key=lambda t: t.id)
                if pop_checked and ps_ == sorted(dkey, key=lambda t: t.id):
                    x = cof(x, a, False)
            return x
        if isinstance(x, T):
            return repl(x, dtable)
        return x
    W.kind, W.final, W.head = "worklist", seq(W.init.args[0] if W.init.op == "seq" else "vec", []), raw("worklist", L)
    S.kind, S.final, S.head = "visited", Sfin, raw("visitedat", L)
    if number:
        number[0].kind, number[0].final, number[0].head = "numbering", length(L), raw("numberat", L)
    for lf in leaves:
        if lf in (W, S) or (number and lf is number[0]):
            continue
        s = stepof(lf)
        s = repl(s, dtable)
        if s.op == "seq":
            def f(g, x):
                return sub(g), x
            keep = [y for y in s.args[1] if y.op == "all" and y.args[0] is lf.mu]
            rest = [y for y in s.args[1] if y not in keep]
            if tm.uses(tuple(rest), S.mu) or pop_checked:
                rest = map_segs(rest, f)
            s = seq(s.args[0], keep + rest)
        elif s.op in ("b", "gate"):
            if pop_checked:
                s = B(sub(as_bool(s))) if boolish(s) else s
        if number:
            s = number[2](s)
        lf.step = s
    return {"src": L, "b": nb, "sub": sub}


def same_flow(xs, ys):
    """two lists of segments contribute the same elements to a set (guards may differ where another segment contributes
    the element anyway)"""
    if {unorder(s) for s in xs} == {unorder(s) for s in ys}:
        return True
    both = xs + ys

    def lvl(x, y, m):
        """x, y opened on the same binders; m: membership of an element in the other segments"""
        if x.op != y.op:
            return False
        if x.op == "one":
            if x.args[1] is not y.args[1]:
                return False
            d = NOT(XNOR(x.args[0], y.args[0]))
            return AND(d, NOT(m(x.args[1]))) is F
        if x.op == "all":
            return x is y
        if x.args[1] is not y.args[1]:
            return False
        b, _, xi = open_(x)
        nb = y.args[0]
        t = {raw("el", nb): el(b), raw("ix", nb): ix(b)}
        yi = flat(tm.sub_any(tuple(y.args[2]), t, frozenset((nb,)), {}))
        return lists(list(xi), yi, m)

    def lists(xi, yi, m):
        if len(xi) != len(yi):
            return False
        yi = list(yi)
        for x in xi:
            for j, y in enumerate(yi):
                if lvl(x, y, m):
                    del yi[j]
                    break
            else:
                return False
        return True

    if len(xs) != len(ys):
        return False
    left = list(ys)
    for i, x in enumerate(xs):
        for j, y in enumerate(left):
            others = [s for s in both if s is not x and s is not y]
            try:
                if lvl(x, y, lambda e: OR(*[tm.seg_member("set", o, e) for o in others])):
                    del left[j]
                    break
            except Undecided:
                raise No()
        else:
            return False
    return True


def _shape(parts):
    """printable form of key parts with binder numbers erased"""
    import re
    return tuple(sorted(re.sub(r"[β#]-?\d+", "β", show(p)) for p in parts))


def set_simplify(rel):
    """a segment of a union need not repeat what the other segments contribute"""
    rel = list(rel)
    for i in range(len(rel)):
        others = [s for j, s in enumerate(rel) if j != i]
        if not others:
            break

        def f(g, x):
            if g is TR:
                return g, x
            try:
                m = OR(*[tm.seg_member("set", o, x) for o in others])
            except Undecided:
                return g, x
            return (restrict(g, NOT(m)) if m is not TR else g), x
        r = map_segs([rel[i]], f)
        rel[i:i + 1] = r if len(r) == 1 else [raw("segs", tuple(r))]
    return flat(rel)


def _set_order(rel):
    return sorted(rel, key=sk)


def numbering(self, leaves, S, W, kk):
    """the visited map assigns consecutive numbers"""
    from loops import renumber
    for G in leaves:
        if G in (S, W):
            continue
        d = sub(sub(G.step, G.mu), sub(length(S.step), length(S.mu)))
        if not (is_int(d) and d.args[1] == 0):
            continue
        # entries present before the loop carry 0, 1, ...
        n = 0
        for s in segs_of(S.init):
            if s.op != "one" or s.args[0] is not TR or fld(s.args[1], "1") is not c(n):
                raise Undecided("numbering with an unexpected start")
            n += 1
        if G.init is not c(n):
            raise Undecided("numbering with an unexpected start")
        return (G, app("num", kk), lambda s: renumber(s, S.mu))
    return None


# ------------------------------------------------------------ until nothing changes
def flag_loop(self, st, b, leaves, own, foreign, after):
    if foreign or not own:
        return None
    if any(v is not UNIT for _, _, v in own):
        return None
    U = None
    for lf in leaves:
        if boolish(lf.init) and as_bool(lf.init) is TR and len(own) == 1 and own[0][0] is NOT(var(raw("tst", lf.mu))):
            U = lf
    rest = [lf for lf in leaves if lf is not U and lf.step is not lf.mu]
    if len(rest) != 1:
        return None
    S = rest[0]
    if S.step.op != "seq" or S.step.args[0] != "set":
        return None
    segs = list(S.step.args[1])
    mine = all_(S.mu)
    if mine not in segs:
        return None
    segs.remove(mine)
    strip_u = (lambda n: cof(n, raw("tst", U.mu), True)) if U is not None else (lambda n: n)
    segs = map_segs(segs, lambda g, x: (strip_u(g), x))
    # something new was added
    changed = F
    for s in map_segs(segs, lambda g, x: (AND(g, NOT(member(S.mu, x))), x)):
        changed = OR(changed, seg_any(s, lambda x: TR))
    status = "ok"
    if U is not None:
        u = strip_u(as_bool(U.step))
        if u is not changed:
            return None
    else:
        g = OR(*[g for g, _, _ in own])
        if g is not NOT(changed):
            return None
    nb = fresh(None)
    rel = []
    for s in segs:
        if s.op == "for" and s.args[1] is S.mu:
            b0, src, inner = open_(s)
            rel += flat(tm.sub_any(tuple(inner), {raw("el", b0): el(nb), el(b0): el(nb)}, frozenset((b0,)), {}))
        else:
            return None

    def strip(g, x):
        for a in atoms_of(g):
            if a.op == "in" and a.args[0] is S.mu and a.args[1] is x:
                g = cof(g, a, False)
            elif mentions_before(a):
                g = cof(g, a, False)
        return g, x
    rel = map_segs(rel, strip)
    if any(tm.uses(s, lf.mu) for s in rel for lf in leaves):
        return None
    L = close("lfp", nb, seq("set", segs_of(S.init)), tuple(_set_order(rel)), c(status))
    S.kind, S.final, S.head = "visited", seq("set", [all_(L)]), raw("visitedat", L)
    if U is not None:
        U.kind, U.final, U.head = "flag", c(False), c(True)
    for lf in leaves:
        if lf.kind is None:
            lf.kind, lf.final, lf.head = "same", lf.init, lf.init
    tm.SRC[nb] = L
    return {"src": L, "b": nb, "sub": lambda x: x}


def monotone(n, mu):
    """the condition can only become true, never false, when the set mu grows"""
    for a in atoms_of(n):
        if not tm.uses(a, mu):
            continue
        lo, hi = cof(n, a, False), cof(n, a, True)
        if a.op == "in" and a.args[0] is mu and not tm.uses(a.args[1], mu):
            up = True
        elif a.op == "any":
            _, src, p = tm.open_(a)
            if tm.uses(src, mu):
                return False
            if monotone(p, mu):
                up = True
            elif monotone(NOT(p), mu):
                up = False
            else:
                return False
        else:
            return False
        if not (tm.IMPLIES(lo, hi) if up else tm.IMPLIES(hi, lo)):
            return False
    return True


def grow_loop(self, st, b, leaves, own, foreign, after):
    """until nothing changes: every element of a fixed source whose (monotone) condition on the set holds joins the set"""
    if foreign or not own or any(v is not UNIT for _, _, v in own):
        return None
    U = None
    for lf in leaves:
        if boolish(lf.init) and as_bool(lf.init) is TR and len(own) == 1 and own[0][0] is NOT(var(raw("tst", lf.mu))):
            U = lf
    rest = [lf for lf in leaves if lf is not U and lf.step is not lf.mu]
    if len(rest) != 1:
        return None
    S = rest[0]
    drop = (lambda n: cof(n, raw("tst", U.mu), True)) if U is not None else (lambda n: n)
    g = OR(*[g for g, _, _ in own])

    def changed_by(x, src, bb, segs, mu):
        n = F
        for s in segs:
            if s.op != "one":
                raise No()
            n = OR(n, AND(s.args[0], NOT(member(mu, s.args[1]))))
        return n

    if S.step.op == "seq" and S.step.args[0] == "set":
        segs = list(S.step.args[1])
        if all_(S.mu) not in segs:
            return None
        segs.remove(all_(S.mu))
        if len(segs) != 1 or segs[0].op != "for":
            return None
        bb, src, inner = tm.open_(segs[0])
        if tm.uses(src, S.mu):
            return None
        mu = S.mu
        changed = tm.any_(bb, src, drop(changed_by(None, src, bb, inner, mu)))
        if U is not None:
            if drop(as_bool(U.step)) is not changed:
                return None
        elif g is not NOT(changed):
            return None
    elif S.step.op == "fld" and S.step.args[0].op == "fold" and U is not None:
        f = S.step.args[0]
        if not (U.step.op == "fld" and U.step.args[0] is f):
            n = as_bool(U.step)
            if n is not var(raw("tst", fld(f, "1"))) and n is not var(raw("tst", fld(f, "0"))):
                return None
            ku = "1" if n is var(raw("tst", fld(f, "1"))) else "0"
        else:
            ku = U.step.args[1]
        ks = S.step.args[1]
        bb, src, ini, stp = tm.open_(f)
        m5 = raw("mu", bb)
        if ini.op != "tup" or len(ini.args[0]) != 2 or stp.op != "tup" or fld(ini, ks) is not S.mu or as_bool(fld(ini, ku)) is not F or tm.uses(src, S.mu):
            return None
        mu = fld(m5, ks)
        s2 = fld(stp, ks)
        if s2.op != "seq" or s2.args[0] != "set" or all_(mu) not in s2.args[1]:
            return None
        inner = list(s2.args[1])
        inner.remove(all_(mu))
        n = changed_by(None, src, bb, inner, mu)
        if as_bool(fld(stp, ku)) is not OR(n, var(raw("tst", fld(m5, ku)))):
            return None
    else:
        return None
    nb = fresh(src)
    new = raw("mu", nb)
    table = {mu: new, raw("el", bb): raw("el", nb), el(bb): el(nb), ix(bb): ix(nb)}
    keys = frozenset().union(*[k.fv for k in table])
    inner = [x for s in inner for x in tm.sub_seg(s, table, keys, {})]
    if any(tm.uses(s, lf.mu) for s in inner for lf in leaves):
        return None
    out = []
    for s in inner:
        h, x = s.args
        for a in atoms_of(h):
            if a.op == "in" and a.args[0] is new and a.args[1] is x:
                h = cof(h, a, False)
        if tm.uses(x, new) or not monotone(h, new):
            return None
        out.append(one(h, x))
    L = close("fold", nb, raw("ever", src), S.init, seq("set", [all_(new)] + out))
    S.kind, S.final, S.head = "visited", L, raw("visitedat", L)
    if U is not None:
        U.kind, U.final, U.head = "flag", c(False), c(True)
    for lf in leaves:
        if lf.kind is None:
            lf.kind, lf.final, lf.head = "same", lf.init, lf.init
    tm.SRC[nb] = src
    return {"src": L, "b": nb, "sub": lambda x: x}
