"""Loop summaries: run the body once from a havocked ("loop head") state, look at the per-iteration
step of every modified location and close it into a canonical form."""
from terms import *
import terms as tm


def leaf_diffs(self, v0, v1, path=()):
    """places (paths) at which two values differ"""
    if v0 is v1:
        return []
    for a, b in ((v0, v1), (v1, v0)):
        if a.op == "agg" and (len(tm.ADTS.get(a.args[0], ())) == 1):
            adt = a.args[0]
            if b.op == "agg" and b.args[:2] == a.args[:2] or b.op in ("fld", "param", "el", "mu", "pay", "at", "idx", "new", "app"):
                out = []
                for n, _ in a.args[2]:
                    out += leaf_diffs(self, fld(v0, n), fld(v1, n), path + (("f", n, adt),))
                return out
        if a.op == "tup":
            n = len(a.args[0])
            if b.op == "tup" and len(b.args[0]) == n:
                out = []
                for i in range(n):
                    out += leaf_diffs(self, fld(v0, str(i)), fld(v1, str(i)), path + (("f", str(i), ("tuple", n)),))
                return out
    return [path]


class LoopRec:
    """what the classification of one loop produced (kept for rules and diagnostics)"""

    def __init__(self, kind, fn, sp):
        self.kind, self.fn, self.sp = kind, fn, sp
        self.leaves = []


class Leaf:
    __slots__ = ("place", "init", "mu", "step", "brk", "final", "head", "kind", "pair")


def _trunc(self, marks):
    n, tl = marks
    del self.events[n:]
    for t, (a, b) in tl:
        del t.exits[a:]
        del t.conts[b:]


def _marks(self):
    return len(self.events), [(t, (len(t.exits), len(t.conts))) for t in self.targets]


def run_loop(self, st, src, body, e, label=None, gen=True, own=None):
    saved = list(tm.ASSUME)
    try:
        return run_loop_(self, st, src, body, e, label, gen, own)
    finally:
        tm.ASSUME[:] = saved


def run_loop_(self, st, src, body, e, label=None, gen=True, own=None, keep=None):
    """src: term iterated over (gen) or a placeholder; body(st, b).
    Returns the value of own-breaks that carry one (or None)."""
    if gen and src.op == "seq" and not src.args[1]:
        return None
    b = fresh(src)
    if own is not None:
        target = own
        if target.exits:
            raise Undecided("two loops share one exit target")
        others_t = [t for t in self.targets if t is not target]
    else:
        target = self.mk_target("loop", label if label is not None else ("loop", b))
        others_t = list(self.targets)
        self.targets.append(target)
    outer_live = st.live
    ctx_entry = {"b": b, "src": src, "guard": AND(*self.gstack, st.live), "gen": gen, "fn": self.fr.key}
    saved_g, saved_ctx = self.gstack, self.ctx
    mod, pinned, nopin = [], [], set()
    pre_cells = list(st.store)
    marks = (len(self.events), [(t, (len(t.exits), len(t.conts))) for t in others_t])
    nloops = len(self.loops)
    for p in tm.set_equalities(ctx_entry["guard"]):
        if p not in tm.ASSUME:
            tm.ASSUME.append(p)
    try:
        self.gstack = []
        self.ctx = saved_ctx + [ctx_entry]
        for attempt in range(14):
            _trunc(self, marks)
            del self.loops[nloops:]
            target.exits, target.conts = [], []
            s1 = St_(st.store, TR)
            mus = []
            for place in mod:
                init = self.rd(st, place)
                m = raw("mu", fresh())
                self.wr(s1, place, m)
                mus.append((place, init, m))
            for place in pinned:
                pass
            start = dict(s1.store)
            body(s1, b)
            ends = list(target.conts)
            if not s1.dead():
                ends.append((s1.live, s1, UNIT))
            if keep is not None:
                for _, s, _v in ends:
                    self.wr(s, *keep)
            others = list(target.exits)
            for t, (na, nc) in marks[1]:
                others += t.exits[na:]
                others += t.conts[nc:]
            found = []
            for lst in (ends, others):
                for _, s, _v in lst:
                    for cell in pre_cells:
                        v0, v1 = start[cell], s.store.get(cell)
                        if v1 is None or v0 is v1:
                            continue
                        for p in leaf_diffs(self, v0, v1):
                            if (cell, p) not in found:
                                found.append((cell, p))
            new = [p for p in found if not any(p[0] == q[0] and p[1][: len(q[1])] == q[1] for q in mod)]
            # a location changed only on exits is not loop carried
            carried = []
            for p in new:
                for _, s, _v in ends:
                    if self.rd_opt(s, p) is not self.rd_opt(St_(start, TR), p):
                        carried.append(p)
                        break
            if carried:
                # keep the coarsest set of places
                for p in carried:
                    if p in pinned:
                        pinned.remove(p)
                        nopin.add(p)
                    mod = [q for q in mod if not (q[0] == p[0] and q[1][: len(p[1])] == p[1])]
                    mod.append(p)
                continue
            # optimistic constants: the step restores the initial value
            pin = []
            for place, init, m in mus:
                if place in nopin:
                    continue
                if ends and all(self.rd_opt(s, place) is init for _, s, _v in ends):
                    pin.append(place)
            if pin:
                for p in pin:
                    mod.remove(p)
                    pinned.append(p)
                    nopin.add(p)
                continue
            break
        else:
            raise Undecided("loop did not stabilise")
    finally:
        if own is None:
            self.targets.remove(target)
        self.gstack, self.ctx = saved_g, saved_ctx

    # ---- merge the continuing paths
    after, _ = self.merge_many(ends)
    leaves = []
    for place, init, m in mus:
        lf = Leaf()
        lf.place, lf.init, lf.mu = place, init, m
        lf.step = self.rd(after, place) if after is not None else m
        lf.final = lf.head = None
        lf.kind = lf.pair = None
        leaves.append(lf)
    cont_live = after.live if after is not None else F

    own_exits = list(target.exits)
    target.exits, target.conts = [], []
    foreign = []
    for t, (na, nc) in marks[1]:
        for i in range(na, len(t.exits)):
            foreign.append((t, "exits", t.exits[i]))
        for i in range(nc, len(t.conts)):
            foreign.append((t, "conts", t.conts[i]))
        del t.exits[na:]
        del t.conts[nc:]

    if not gen and own_exits:
        r = counted(self, start, leaves, own_exits, foreign)
        if r is not None:
            place, crange, val = r
            _trunc(self, marks)
            del self.loops[nloops:]

            def numbered(t, bb):
                self.wr(t, place, val(bb))
                body(t, bb)
            v = run_loop_(self, st, crange, numbered, e, label, True, own)
            return None if isinstance(v, tuple) else v
        r = drained(self, start, leaves, own_exits, foreign)
        if r is not None:
            place, dsrc, init = r
            _trunc(self, marks)
            del self.loops[nloops:]

            def taken(t, bb):
                self.wr(t, place, seq("vec", [all_(raw("undrained", ix(bb))), one(TR, el(bb))] if dsrc.op == "rev" else
                                      [one(TR, el(bb)), all_(raw("undrained", ix(bb)))]))
                body(t, bb)
            v = run_loop_(self, st, dsrc, taken, e, label, True, own, (place, init))
            self.wr(st, place, tm.empty("vec"))
            return None if isinstance(v, tuple) else v
    if not gen:
        r = self.recognise_fixpoint(st, b, leaves, own_exits, foreign, after, e, ctx_entry, marks)
        if r is not None:
            src, b = r["src"], r["b"]
            ctx_entry["src"], ctx_entry["b"] = src, b
            own_exits = []          # the loop ends exactly when the fixpoint is reached
            foreign = [(t, k, (r["sub"](g), sub_store(s, r["sub"]), r["sub"](v))) for t, k, (g, s, v) in foreign]
            after = None
            for ev in self.events[marks[0]:]:
                ev.guard = r["sub"](ev.guard)
                ev.data = {k: r["sub"](v) for k, v in ev.data.items()}
    # ---- early exits restrict the iterations that take part
    own_g = OR(*[g for g, _, _ in own_exits]) if own_exits else F
    rec = LoopRec("for" if gen else "while", self.fr.key, e.get("sp", ""))
    rec.src = src
    rec.leaves = leaves
    self.loops.append(rec)

    fo = self.classify_loop(b, src, leaves, own_g, gen)
    if src.op == "while":
        # rounds are identified by what they do
        src = raw("while", fo if fo is not None else B(own_g))
        tm.SRC[b] = src
        rec.src = src
    heads = {lf.mu: lf.head for lf in leaves}
    H = (lambda x: subst(x, heads)) if heads else (lambda x: x)

    for ev in self.events[marks[0]:]:
        ev.guard = H(ev.guard)
        ev.data = {k: H(v) if isinstance(v, (T, N, tuple)) else v for k, v in ev.data.items()}

    # ---- final state
    new_store = dict(st.store)
    fin = St_(new_store, outer_live)
    for lf in leaves:
        self.wr(fin, lf.place, lf.final)

    if not gen and own_exits:
        # while loop: the state afterwards is the state at the break, from the loop head
        m, val = self.merge_many(own_exits)
        finals = {lf.mu: lf.final for lf in leaves}
        Fi = lambda x: subst(x, finals) if finals else x
        st.store = {k: Fi(v) if (isinstance(v, T) and k in st.store) else v for k, v in m.store.items()}
        exit_any = F
        val = Fi(val) if isinstance(val, T) else val
        any_foreign = F
        for t, kind, (g, s, v) in foreign:
            bb = b
            g2 = any_(bb, src, H(g))
            any_foreign = OR(any_foreign, g2)
            getattr(t, kind).append((AND(outer_live, g2), self.exit_state(start, st, s, H, bb, src, H(g), fin, leaves, False), first_(bb, src, H(g), H(v))))
        st.live = AND(outer_live, NOT(any_foreign))
        return None if val is UNIT else val

    # for loops (and recognised fixpoints)
    any_exit = F
    ret = None
    allg = OR(*[H(g) for _, _, (g, _, _) in foreign], *([H(g) for g, _, _ in own_exits] if gen else []))
    any_exit = any_(b, src, allg)
    own = None
    if gen and own_exits:
        own = self.merge_many(own_exits)
    gs = [H(g) for _, _, (g, _, _) in foreign] + ([H(own[0].live)] if own else [])
    conds = exit_conditions(self, b, src, allg, any_exit, gs)
    for (t, kind, (_, s, v)), g, g2 in zip(foreign, gs, conds):
        getattr(t, kind).append((AND(outer_live, g2), self.exit_state(start, st, s, H, b, src, g, fin, leaves, False), first_(b, src, g, H(v))))
    if own:
        m, val = own
        g, gb = gs[-1], conds[-1]
        es = self.exit_state(start, st, m, H, b, src, g, fin, leaves, True)
        ret = first_(b, src, g, H(val)) if val is not UNIT else None
        foreign_any = OR(F, *conds[:-1])
        rest = St_(fin.store, AND(outer_live, NOT(any_exit)))
        out = St_(None, None)
        es.live = AND(outer_live, gb)
        self.merge_into(out, gb, es, rest)
        st.store = out.store
        st.live = AND(outer_live, NOT(foreign_any))
        target_val = (gb, ret)
        self.last_break = target_val
        return target_val
    st.store = fin.store
    st.live = AND(outer_live, NOT(any_exit))
    return None


def mk_target(self, kind, label):
    from interp import Target
    return Target(kind, label, self.fr)


def rd_opt(self, st, place):
    if place[0] not in st.store:
        return None
    return self.rd(st, place)


def exit_state(self, start, st, s, H, b, src, g, fin, leaves, own):
    """memory right after an iteration left the loop"""
    out = St_(fin.store, s.live)
    for cell in list(out.store):
        vs = s.store.get(cell)
        v0 = start.get(cell)
        if vs is None or v0 is None:
            continue
        if vs is v0:
            if not own:
                for lf in leaves:
                    if lf.place[0] == cell:
                        self.wr(out, lf.place, first_(b, src, g, H(lf.mu)))
            continue
        for p in leaf_diffs(self, v0, vs):
            pl = (cell, p)
            self.wr(out, pl, first_(b, src, g, H(self.rd(s, pl))))
        if not own:
            for lf in leaves:
                if lf.place[0] == cell and self.rd(s, lf.place) is lf.mu:
                    self.wr(out, lf.place, first_(b, src, g, H(lf.mu)))
    return out


def exit_conditions(self, b, src, allg, anyg, gs):
    """which of several exits is taken: a partition of `anyg`"""
    live = [i for i, g in enumerate(gs) if g is not F]
    out = [F] * len(gs)
    if len(live) == 1:
        out[live[0]] = anyg
        return out
    cs = {i: self.first_is(b, src, allg, gs[i]) for i in live}
    order = sorted(live, key=lambda i: sk(cs[i]))
    rest = anyg
    for k, i in enumerate(order):
        if k == len(order) - 1:
            out[i] = rest
        else:
            out[i] = AND(rest, cs[i])
            rest = AND(rest, NOT(cs[i]))
    return out


def first_is(self, b, src, allg, g):
    if g is F:
        return F
    if b not in g.fv:
        return AND(g, any_(b, src, allg))
    return var(close("firstis", b, src, allg, g))


def find_next_cond(e):
    """`loop { if let Some(p) = Iterator::next(&mut it) { body } else { break } }` -> (it expr, pat, body)"""
    x = e["body"]
    while x["e"] == "block" and not x["stmts"] and x["expr"] is not None:
        x = x["expr"]
    if x["e"] == "block" and len(x["stmts"]) == 1 and x["expr"] is None and x["stmts"][0]["s"] == "expr":
        x = x["stmts"][0]["e"]
    if x["e"] == "if" and x["cond"]["e"] == "let" and x["els"]:
        return x["cond"]["a"], x["cond"]["pat"], x["then"], x["els"]
    if x["e"] == "match" and len(x["arms"]) == 2 and x["arms"][0]["guard"] is None:
        a0, a1 = x["arms"]
        if a0["pat"].get("v") == "Some" or a0["pat"]["p"] == "variant" and a0["pat"]["v"] == "Some":
            return x["a"], a0["pat"], a0["body"], a1["body"]
    return None


def is_break(x, label):
    while x["e"] == "block":
        if x["expr"] is not None and not x["stmts"]:
            x = x["expr"]
        elif len(x["stmts"]) == 1 and x["stmts"][0]["s"] == "expr" and x["expr"] is None:
            x = x["stmts"][0]["e"]
        else:
            return False
    return x["e"] == "break" and x["label"] == label and not x.get("a")


def as_iterator_loop(self, e, st):
    r = find_next_cond(e)
    if r is None:
        return None
    a, pat, then, els = r
    if a["e"] != "call" or not is_break(els, e.get("label")):
        return None
    ft = self.ty(a["fty"])
    if ft["k"] != "fndef" or not ft["p"].endswith("iter::Iterator::next"):
        return None
    if (ft.get("res") or {}).get("local"):
        return None
    if pat["p"] != "variant" or pat["v"] != "Some":
        return None
    it = self.ev_(a["args"][0], st)
    if it.op != "ref":
        return None
    inner = self.rd(st, (it.args[0], it.args[1]))
    if inner.op not in ("it", "agg"):
        return None
    sub = pat["subs"][0][1]

    def body(t, v):
        cell = self.newcell(t, v)
        self.bind_irrefutable(sub, (cell, ()), t)
        self.ev_(then, t)
    self.drive(st, it, body, e, label=e.get("label"))
    return UNIT


from drive import has_mu  # noqa: E402


def counted(self, start, leaves, own_exits, foreign):
    """a loop whose rounds are numbered by a variable: one location goes up (or down) by one in every round that
    goes on, and the loop ends, before it does anything else, exactly when that location reaches a bound.
    -> (location, numbers it runs over, its loop-head value)"""
    if any(v is not UNIT for _, _, v in own_exits):
        return None
    mus = [lf.mu for lf in leaves]
    own_g = OR(*[g for g, _, _ in own_exits])
    for lf in leaves:
        d = sub(lf.step, lf.mu) if lf.step.op == "lin" else None
        if d is not c(1) and d is not c(-1):
            continue
        up = d is c(1)
        for a in atoms_of(own_g):
            if a.op not in ("ge0", "eq0"):
                continue
            parts, _ = tm.lin_parts(a.args[0])
            n = parts.get(lf.mu)
            if n not in (1, -1):
                continue
            rest = sub(a.args[0], mul(c(n), lf.mu))
            if any(mentions(rest, m) for m in mus):
                continue
            if a.op == "eq0":
                val, bound = True, (rest if n == -1 else mul(c(-1), rest))
                lo = lf.init
                if up and not (lo is c(0) and tm.sign(bound, True)) or not up and not (bound is c(0) and tm.sign(lo, True)):
                    continue
            else:
                # n*mu + rest >= 0
                if n == 1:      # mu >= -rest ; otherwise mu <= -rest-1
                    val, bound = (True, mul(c(-1), rest)) if up else (False, sub(mul(c(-1), rest), c(1)))
                else:           # mu <= rest ; otherwise mu >= rest+1
                    val, bound = (False, add(rest, c(1))) if up else (True, rest)
            if tm.cof(own_g, a, val) is not TR:
                continue
            lit = var(a) if val else NOT(var(a))
            if any(AND(g, lit) is not F for _, _, (g, _, _) in foreign):
                continue
            if any(AND(g, lit) is not F and any(s.store.get(cell) is not v for cell, v in start.items()) for g, s, _ in own_exits):
                continue
            if up:
                n = sub(bound, lf.init)
                if n.op == "len" and not has_mu(n):
                    src, val = n.args[0], lambda b, lo=lf.init: add(lo, ix(b))
                elif n.op == "len" or is_c(n):
                    src, val = range_(c(0), n), lambda b, lo=lf.init: add(lo, el(b))
                else:
                    src, val = range_(lf.init, bound), el
            else:
                src, val = raw("rev", range_(add(bound, c(1)), add(lf.init, c(1)))), el
            if tm.subst(lit, {lf.mu: val(fresh(src))}) is not F:
                continue
            return lf.place, src, val
    return None


def drained(self, start, leaves, own_exits, foreign):
    """a loop that takes one element after the other from the end of a list until it is empty.
    -> (location, what it runs over, the list)"""
    if foreign or any(v is not UNIT for _, _, v in own_exits):
        return None
    own_g = OR(*[g for g, _, _ in own_exits])
    for lf in leaves:
        if lf.step is not raw("butlast", lf.mu) or lf.init.op == "gate" or (lf.mu in self.backs) == (lf.mu in self.fronts):
            continue
        if own_g not in (NOT(tm.is_variant(raw("popped", lf.mu), tm.OPT, "Some")), tm.eq0(length(lf.mu))):
            continue
        if any(s.store.get(cell) is not v and cell != lf.place[0] for _, s, _ in own_exits for cell, v in start.items()):
            continue
        return lf.place, raw("rev", lf.init) if lf.mu in self.backs else lf.init, lf.init
    return None


def fold_key(lf, steps):
    """an order of the parts of a state that does not depend on where they were declared"""
    mus = {m.mu: c(1000 if m is lf else 1001) for m in steps}
    return tm.show(lf.init), tm.show(subst(steps[lf], mus))


def sub_store(s, f):
    return St_({k: f(v) for k, v in s.store.items()}, s.live)


def St_(store, live):
    from interp import St
    return St(dict(store) if store is not None else {}, live)


# ---------------------------------------------------------------- classification
def before(b, src):
    return raw("before", ix(b), src)


def mentions(x, mu):
    return tm.uses(x, mu)


def _own_member_strip(n, mu):
    """drop freshness tests against the collection itself"""
    for a in atoms_of(n):
        if a.op == "in" and a.args[0] is mu:
            n = cof(n, a, False)
    return n


def strip_seg(s, mu):
    if s.op == "one":
        return one(_own_member_strip(s.args[0], mu), s.args[1])
    if s.op == "for":
        b, src, inner = open_(s)
        r = for_(b, src, [strip_seg(i, mu) for i in inner])
        if isinstance(r, list):
            return raw("segs", tuple(r))
        return r if r is not None else raw("segs", ())
    return s


def classify_loop(self, b, src, leaves, until_g, gen):
    """fill lf.final / lf.head for every leaf"""
    todo = [lf for lf in leaves if lf.kind is None]
    done = {lf.mu: lf.head for lf in leaves if lf.kind is not None}       # mu -> head
    allmus = [lf.mu for lf in leaves]

    def over(segs, bb, s):
        r = for_(bb, s, segs)
        return [] if r is None else r if isinstance(r, list) else [r]

    def rename(x, nb):
        return subst(x, {raw("el", b): raw("el", nb) if True else None, raw("ix", b): ix(nb)})

    def for_head(f):
        """build the 'earlier iterations' version with a fresh binder: f(binder, source, renamer)"""
        nb = fresh(before(b, src))
        return f(nb, before(b, src), lambda x: rename(x, nb))

    def usrc(g):
        return src

    plain = src.op == "while"
    if plain:
        # rounds until own_g holds: one fold of everything that changes, with the condition that ends it
        for lf in list(todo):
            if lf.step is lf.mu:
                lf.kind = "same"
                lf.final = lf.head = lf.init
                todo.remove(lf)
                done[lf.mu] = lf.init
    else:
        number_pairs(self, todo)
    progress = not plain
    while todo and progress:
        progress = False
        for lf in list(todo):
            step = lf.step
            others = [m for m in allmus if m is not lf.mu and m not in done and mentions(step, m)]
            if done:
                step = subst(step, done) if any(mentions(step, m) for m in done) else step
            r = classify_leaf(self, lf, step, b, src, for_head, over, others)
            if r:
                lf.kind = r
                done[lf.mu] = lf.head
                todo.remove(lf)
                progress = True
    for lf in leaves:
        if getattr(lf, "pair", None) is not None and lf.final is lf:
            M = lf.pair
            if M.final is None:
                raise Undecided("numbering of a map that is not closed")
            lf.final = add(lf.init, sub(length(M.final), length(M.init)))
    out = None
    if todo:
        # folds over what could not be resolved, one per group of values that depend on each other
        steps = {lf: (subst(lf.step, done) if done else lf.step) for lf in todo}
        groups = []
        for lf in todo:
            touch = groups if plain else [g for g in groups if any(mentions(steps[lf], m.mu) or mentions(steps[m], lf.mu) for m in g)]
            groups = [g for g in groups if g not in touch] + [sum(touch, []) + [lf]]
        heads = {}
        # a group that only reads another one cannot be folded on its own
        for group in groups:
            group.sort(key=lambda lf: fold_key(lf, steps))
            acc = raw("mu", b)
            n = len(group)
            base = {}
            if n > 1:
                for lf in group:
                    r = appended(lf.mu, steps[lf])
                    if r is not None and not any(mentions(steps[m], lf.mu) for m in group if m is not lf) and not (plain and mentions(until_g, lf.mu)) \
                            and lf.init.op != "gate" \
                            and not (lf.init.op == "seq" and (lf.init.args[0] != r.args[0] or not lf.init.args[1])) and lf.init is not c(""):
                        base[lf] = (r.args[0], lf.init)
                        steps[lf] = r
            start = lambda lf: seq(base[lf][0], []) if lf in base else lf.init
            m = {lf.mu: (acc if n == 1 else fld(acc, str(i))) for i, lf in enumerate(group)}
            if plain:
                m = {lf.mu: fld(acc, str(i)) for i, lf in enumerate(group)}
                ends = subst(until_g, done) if done else until_g
                stp = raw("tup", tuple(subst(steps[lf], m) for lf in group) + (B(subst(ends, m)),))
                ini = raw("tup", tuple(start(lf) for lf in group) + (c(False),))
                n += 1
            else:
                stp = raw("tup", tuple(subst(steps[lf], m) for lf in group)) if n > 1 else subst(steps[group[0]], m)
                ini = raw("tup", tuple(start(lf) for lf in group)) if n > 1 else group[0].init
            fo = tm.fold_(b, src, ini, stp)
            # the initial value is outside the binder's scope but may be kept in the body: it has no bound ids
            nb = fresh(before(b, src))
            fh = close("fold", nb, before(b, src), ini, rename_mu(stp, b, nb))
            out = fo
            for i, lf in enumerate(group):
                lf.kind = "fold"
                lf.final = fo if n == 1 else fld(fo, str(i))
                lf.head = fh if n == 1 else fld(fh, str(i))
                if lf in base:
                    lf.final, lf.head = after_(base[lf], lf.final), after_(base[lf], lf.head)
    # a break inside a for loop cuts the iteration short
    if gen and until_g is not F and not plain:
        heads = {lf.mu: lf.head for lf in leaves}
        g = subst(until_g, heads) if heads else until_g
        cut = close("until", b, src, g)
        for lf in leaves:
            lf.final = recut(lf.final, lf.init, src, cut)
    return out


def appended(mu, step):
    """the step of an accumulator that only grows at its end, as one sequence"""
    lv = tm.leaves(step)
    kinds = {x.args[0] for _, x in lv if x.op == "seq"}
    if len(kinds) != 1 or len(lv) > 6:
        return None
    (k,) = kinds
    if k not in ("vec", "str"):
        return None
    heads = (all_(mu), one(TR, mu))
    out, first = [], None
    for g, x in lv:
        if x is mu:
            continue
        if x.op != "seq" or not x.args[1] or x.args[1][0] not in heads or tm.uses(tuple(x.args[1][1:]), mu):
            return None
        first = x.args[1][0]
        for y in x.args[1][1:]:
            out += tm.guard_seg(g, y) if g is not TR else [y]
    if first is None or any(tm.uses(g, mu) for g, _ in lv if g is not TR):
        return None
    return seq(k, [first] + out)


def after_(base, more):
    kind, init = base
    if kind == "str":
        return seq("str", tm.str_segs(init) + tm.str_segs(more))
    return seq("vec", segs_of(init) + [all_(more)])


def recut(t, init, src, cut):
    """replace the outermost iterations over src by iterations over the cut source"""
    if t is init:
        return t
    if t.op == "seq":
        pre = init.args[1] if init.op == "seq" else (all_(init),)
        out = []
        for i, s in enumerate(t.args[1]):
            if s in pre:
                out.append(s)
            elif s.op == "for" and s.args[1] is src:
                out.append(raw("for", s.args[0], cut, s.args[2]))
            elif s.op == "all" and s.args[0] is src:
                out.append(all_(cut))
            else:
                out.append(s)
        return seq(t.args[0], out)
    return app("untilbreak", cut, t)


def rename_mu(x, b, nb):
    return subst(x, {raw("el", b): raw("el", nb), raw("ix", b): ix(nb), raw("mu", b): raw("mu", nb)})


def classify_leaf(self, lf, step, b, src, for_head, over, others):
    mu = lf.mu
    if step is mu:
        lf.final = lf.head = lf.init
        return "same"
    if others:
        # dependence on other unresolved locations
        return None
    if step.op == "mapdel" and step.args[0] is mu and not mentions(step.args[1], mu) and b in step.args[1].fv:
        # entries are taken out one by one (each key once)
        lf.head = lf.init
        lf.final = app("consumed", lf.init)
        return "consume"
    # ---- containers
    if step.op == "seq":
        kind = step.args[0]
        segs = list(step.args[1])
        mine = [s for s in segs if (s.op == "all" and s.args[0] is mu) or (kind == "str" and s.op == "one" and s.args[0] is TR and s.args[1] is mu)]
        rest = [s for s in segs if s not in mine]
        if len(mine) == 1 and (kind == "set" or segs[0] is mine[0]):
            own = any(mentions(s, mu) for s in rest)
            if own:
                stripped = []
                for s in rest:
                    x = strip_seg(s, mu)
                    stripped += list(x.args[0]) if x.op == "segs" else [x]
                if any(mentions(s, mu) for s in stripped):
                    return None
            else:
                stripped = rest
            init_segs = str_segs(lf.init) if kind == "str" else segs_of(lf.init)

            def mk(bb, s, ren, parts):
                body = [tm.sub_any(x, {}, frozenset(), {}) if ren is None else ren(x) for x in parts]
                flat = []
                for x in body:
                    flat += list(x.args[0]) if x.op == "segs" else [x]
                return seq(kind, init_segs + over(flat, bb, s))
            hd = for_head(lambda nb, s, ren: mk(nb, s, ren, stripped))
            if own and kind != "set":
                rest2 = [subst(s, {mu: hd}) for s in rest]
                flat = []
                for x in rest2:
                    flat += list(x.args[0]) if x.op == "segs" else [x]
                lf.final = seq(kind, init_segs + over(flat, b, src))
                lf.head = for_head(lambda nb, s, ren: mk(nb, s, ren, flat))
                return "append-fresh"
            lf.final = mk(b, src, None, stripped)
            lf.head = hd
            return "append"
        if not any(mentions(s, mu) for s in segs):
            pass
        else:
            return None
    # ---- booleans
    if boolish(step) or boolish(lf.init):
        n = as_bool(step)
        a = raw("tst", mu)
        if a in atoms_of(n) or True:
            s1, s0 = cof(n, a, True), cof(n, a, False)
            if mentions(s1, mu) or mentions(s0, mu):
                return None
            i = as_bool(lf.init)
            if s1 is TR:
                lf.final = B(OR(i, any_(b, src, s0)))
                lf.head = for_head(lambda nb, s, ren: B(OR(i, any_(nb, s, ren(s0)))))
                return "flag"
            if s0 is F:
                lf.final = B(AND(i, NOT(any_(b, src, NOT(s1)))))
                lf.head = for_head(lambda nb, s, ren: B(AND(i, NOT(any_(nb, s, ren(NOT(s1)))))))
                return "flag"
            if s1 is s0:
                lf.final = ite(any_(b, src, TR), B(var(raw("lastof", *close("last", b, src, TR, B(s0)).args))), lf.init)
                lf.head = raw("lasthead", before(b, src), lf.init, B(s0))
                return "last"
        return None
    # ---- counters
    if step.op in ("lin", "gate", "c") and (step.op == "lin" or _numeric(step, mu)):
        d = sub(step, mu)
        if not mentions(d, mu) and (mentions(step, mu)):
            if b not in d.fv:
                lf.final = add(lf.init, mul(d, length(src)))
                lf.head = add(lf.init, mul(d, ix(b)))
                return "counter"
            z = leaves(d)
            if all(is_int(v) for _, v in z):
                def mk(bb, s, ren):
                    r = lf.init
                    for g, v in z:
                        if v.args[1] != 0:
                            r = add(r, mul(v, close("count", bb, s, ren(g))))
                    return r
                lf.final = mk(b, src, lambda x: x)
                lf.head = for_head(mk)
                return "count"
            lf.final = add(lf.init, close("sumof", b, src, d))
            lf.head = for_head(lambda nb, s, ren: add(lf.init, close("sumof", nb, s, ren(d))))
            return "sum"
    # ---- conditional assignment
    if step.op == "gate":
        keep = F
        rest = []
        for g, v in step.args[0]:
            if v is mu:
                keep = OR(keep, g)
            elif mentions(v, mu):
                return None
            else:
                rest.append((g, v))
        g = NOT(keep)
        first = False
        if mentions(g, mu) or any(mentions(x, mu) for x, _ in rest):
            # first-assignment idiom: guarded by the location still being unset
            a = raw("is", mu, "Some")
            g1, g0 = cof(g, a, True), cof(g, a, False)
            if g1 is F and not mentions(g0, mu) and lf.init.op == "agg" and lf.init.args[1] == "None":
                g = g0
                rest = [(cof(x, a, False), v) for x, v in rest]
                first = True
            else:
                return None
        val = rest[-1][1]
        for x, v in reversed(rest[:-1]):
            val = ite(restrict(x, g), v, val)
        picker = first_ if first else last_

        def mk(bb, s, ren):
            return ite(any_(bb, s, ren(g)), picker(bb, s, ren(g), ren(val)), lf.init)
        lf.final = mk(b, src, lambda x: x)
        lf.head = for_head(mk)
        return "first" if first else "assign"
    if not mentions(step, mu):
        lf.final = ite(any_(b, src, TR), last_(b, src, TR, step), lf.init)
        lf.head = for_head(lambda nb, s, ren: ite(any_(nb, s, TR), last_(nb, s, TR, ren(step)), lf.init))
        return "last"
    return None


def number_pairs(self, todo):
    """a counter that is advanced exactly when a fresh key is put into a map under the counter's value"""
    for G in todo:
        if not (G.step.op == "gate" and mentions(G.step, G.mu)):
            continue
        d = sub(G.step, G.mu)
        zs = leaves(d)
        if not all(is_int(v) and v.args[1] in (0, 1) for _, v in zs):
            continue
        g = OR(*[x for x, v in zs if v.args[1] == 1])
        for M in todo:
            if M is G or M.step.op != "seq" or M.step.args[0] != "map":
                continue
            sg = list(M.step.args[1])
            mine = all_(M.mu)
            if mine not in sg or len(sg) != 2:
                continue
            sg.remove(mine)
            s = sg[0]
            if s.op != "one" or s.args[0] is not g or s.args[1].op != "tup" or s.args[1].args[0][1] is not G.mu:
                continue
            k = s.args[1].args[0][0]
            if g is not NOT(member(M.mu, k)):
                continue
            num = app("num", k)
            mstep = M.step
            tb = {G.mu: num}
            for lf in todo:
                if lf is G:
                    continue
                if lf is M:
                    lf.step = seq("map", [mine, one(g, tup(k, num))])
                else:
                    lf.step = subst(drop_map(lf.step, mstep), tb)
                    lf.step = renumber(lf.step, M.mu)
            G.kind = "numbering"
            break
    for G in [x for x in todo if x.kind == "numbering"]:
        todo.remove(G)
        M = next(m for m in todo if m.step.op == "seq" and m.step.args[0] == "map" and any(
            s.op == "one" and s.args[1].op == "tup" and s.args[1].args[0][1].op == "app" and s.args[1].args[0][1].args[0] == "num" for s in m.step.args[1]))
        self.numbered = getattr(self, "numbered", {})
        self.numbered[G.mu] = M.mu
        G.head = raw("numberat", M.mu)
        G.final = G   # patched once the map is known
        G.pair = M


def drop_map(x, mstep):
    """at(map with the new entry, k) is the number of k"""
    return _map_terms(x, lambda t: app("num", t.args[1]) if t.op == "at" and t.args[0] is mstep else None)


def renumber(x, mu):
    return _map_terms(x, lambda t: app("num", t.args[1]) if t.op == "at" and t.args[0] is mu else None)


def _map_terms(x, f):
    """rewrite matching subterms (found by scanning), innermost binders left alone"""
    found = {}

    def scan(y, seen):
        if isinstance(y, T):
            if y in seen:
                return
            seen.add(y)
            r = f(y)
            if r is not None:
                found[y] = r
            for z in y.args:
                scan(z, seen)
        elif isinstance(y, N):
            for a in atoms_of(y):
                scan(a, seen)
        elif isinstance(y, tuple):
            for z in y:
                scan(z, seen)
    scan(x, set())
    if not found:
        return x
    keys = frozenset().union(*[k.fv for k in found])
    if not keys:
        return x
    return tm.sub_any(x, found, keys, {})


def last_(b, src, g, v):
    if b not in v.fv:
        return v
    if g is TR and v.op in ("lin", "el", "ix"):
        s, down = (src.args[0], True) if src.op == "rev" else (src, False)
        if s.op == "range" and not (down and tm.uses(v, ix(b))):
            return subst(v, {el(b): s.args[0] if down else sub(s.args[1], c(1))})
    if v.op == "agg":
        return agg(v.args[0], v.args[1], [(n, last_(b, src, g, x)) for n, x in v.args[2]])
    if v.op == "tup":
        return tup(*[last_(b, src, g, x) for x in v.args[0]])
    return close("last", b, src, g, v)


def _numeric(t, mu):
    for _, v in leaves(t):
        if not (is_int(v) or v.op == "lin" or v is mu):
            return False
    return any(v.op == "lin" for _, v in leaves(t))


# ---------------------------------------------------------------- while loops
def while_loop(self, e, st):
    """plain `loop`: while, while let, loop { .. break }"""
    label = e.get("label")
    body_e = e["body"]
    # while let Some(x) = it.next()  ==  for x in it
    r = self.as_iterator_loop(e, st)
    if r is not None:
        return r

    def body(t, b):
        self.ev_(body_e, t)
    uid = raw("while")
    v = self.run_loop(st, uid, body, e, label=label, gen=False)
    return v if isinstance(v, T) else UNIT


def recognise_fixpoint(self, st, b, leaves, own, foreign, after, e, ctx_entry, marks):
    from fixpoint import recognise
    return recognise(self, st, b, leaves, own, foreign, after, e)
