"""Abstract interpreter over the THIR dump: turns every function into a canonical, gated
value-flow summary plus the list of effect / panic / access events it can produce.

The interpretation is purely symbolic dataflow: no concrete input is ever evaluated, loops are
summarised by classification of their per-iteration step (append, flag, counter, worklist fixpoint...)."""
import re
from terms import *
import terms as tm
from thir import ty_str


class St:
    __slots__ = ("store", "live")

    def __init__(self, store, live):
        self.store = store
        self.live = live

    def copy(self):
        return St(dict(self.store), self.live)

    def dead(self):
        return self.live is F


class Target:
    __slots__ = ("kind", "label", "frame", "exits", "conts")

    def __init__(self, kind, label, frame):
        self.kind, self.label, self.frame = kind, label, frame
        self.exits = []      # (guard, St, value)
        self.conts = []


class Frame:
    __slots__ = ("key", "crate", "env", "target", "parent", "tsub")

    def __init__(self, key, crate, env, parent=None):
        self.key, self.crate, self.env, self.parent = key, crate, env, parent
        self.target = None
        self.tsub = {}


class Event:
    __slots__ = ("kind", "guard", "ctx", "fn", "sp", "data", "stack")

    def __init__(self, kind, guard, ctx, fn, sp, data, stack=()):
        self.kind, self.guard, self.ctx, self.fn, self.sp, self.data, self.stack = kind, guard, ctx, fn, sp, data, stack

    def __repr__(self):
        d = ", ".join(f"{k}={show(v) if isinstance(v,(T,N,tuple)) else v}" for k, v in self.data.items())
        return f"{self.kind}@{self.sp} if {show_node(self.guard)}: {d}"


class Divert(Exception):
    pass


NAME_RE = re.compile(r"<[^<>]*>")


def norm_name(p):
    """canonical two-component name of an external function"""
    # drop balanced generic groups, keep `<X as Trait>::f` as Trait::f
    s = p
    m = re.match(r"^<.* as (.*)>::(\w+)$", s)
    if m:
        s = m.group(1) + "::" + m.group(2)
    s = s.replace("->", "")
    while True:
        t = NAME_RE.sub("", s)
        if t == s:
            break
        s = t
    parts = [x for x in s.split("::") if x]
    return "::".join(parts[-2:])


STRINGY = re.compile(r"^(&mut |&)*((std::rc::Rc|std::sync::Arc|std::boxed::Box)<)?(str|std::string::String)\b")


class Interp:
    MAXDEPTH = 14

    def __init__(self, prog, opaque=(), opaque_pred=None, keep_calls=()):
        self.P = prog
        self.opaque = set(opaque)
        self.opaque_pred = opaque_pred
        self.footprint = None
        self.events = []
        self.visited = set()
        self.cells = 0
        self.callstack = []
        self.targets = []
        self.gstack = []
        self.ctx = []
        self.fr = None
        self.unknown = set()
        self.statics = {}
        self.lazy = {}
        self.world = {}
        self.borrows = []
        self.backs, self.fronts, self.compared = set(), set(), {}
        self.closures = {}
        self.analysed = set()
        self.loops = []
        self.keymap = prog.keymap
        self.steps = 0
        for a in prog.adts.values():
            tm.ADTS[a["p"]] = [(v["v"], [f[0] for f in v["f"]]) for v in a["variants"]]

    # ------------------------------------------------------------ infrastructure
    def newcell(self, st, v):
        self.cells += 1
        st.store[self.cells] = v
        return self.cells

    def open_world(self, st):
        """what the program has written so far, as places that can be changed like any other: the text on its two streams,
        what it handed to an output function it was given, and its writes to files"""
        for n, k in (("out", "str"), ("err", "str"), ("sink", "vec"), ("file", "vec")):
            self.world[n] = self.newcell(st, seq(k, []))

    def emit(self, st, channel, x):
        cell = self.world.get(channel)
        if cell is None:
            return
        v = st.store[cell]
        if channel in ("sink", "file"):
            st.store[cell] = tm.mapgate(v, lambda y: seq("vec", segs_of(y) + [tm.one(TR, x)]))
        else:
            st.store[cell] = tm.mapgate(v, lambda y: seq("str", tm.str_segs(y) + tm.str_segs(x)))

    def append(self, st, channel, more):
        cell = self.world[channel]
        kind = "vec" if channel in ("sink", "file") else "str"
        sg = segs_of if kind == "vec" else tm.str_segs
        parts = [y for g, v in tm.leaves(more) for x in sg(v) for y in (tm.guard_seg(g, x) if g is not TR else [x])]
        st.store[cell] = tm.mapgate(st.store[cell], lambda y: seq(kind, sg(y) + parts))

    def static_cell(self, st, k):
        cell = self.statics.get(k)
        if cell is None:
            cell = self.statics[k] = self.newcell(st, raw("static", k))
            self.lazy[cell] = raw("static", k)
        elif cell not in st.store:
            st.store[cell] = self.lazy[cell]
        return cell

    def ev(self, st, kind, e, **data):
        g = AND(*self.gstack, st.live)
        if g is F:
            return
        sp = e.get("sp", "") if isinstance(e, dict) else ""
        self.events.append(Event(kind, g, tuple(self.ctx), self.fr.key if self.fr else "", sp, data, tuple(k for k in self.callstack)))

    def types(self):
        return self.fr.crate.types

    def ty(self, i):
        return self.types()[i]

    def tstr(self, i):
        return ty_str(self.types(), i)

    def strip_ty(self, i):
        """through references and smart pointers -> type record"""
        while True:
            t = self.ty(i)
            if t["k"] in ("ref", "ptr"):
                i = t["t"]
            elif t["k"] == "adt" and t["p"] in ("std::rc::Rc", "std::boxed::Box", "std::sync::Arc", "std::borrow::Cow"):
                i = t["a"][0]
            else:
                return t

    def coll_kind(self, i):
        t = self.strip_ty(i)
        if t["k"] in ("slice", "array"):
            return "vec"
        if t["k"] == "adt":
            n = t["p"].split("::")[-1]
            return {"Vec": "vec", "VecDeque": "vec", "HashSet": "set", "BTreeSet": "set", "HashMap": "map", "BTreeMap": "map",
                    "String": "str", "Option": "opt", "Result": "res", "PathBuf": "path"}.get(n)
        if t["k"] == "o" and t.get("s") == "str":
            return "str"
        return None

    def kind_c(self, i, crate):
        """collection kind of a type of another crate's table"""
        saved = self.fr
        fr = Frame(saved.key if saved else "", crate, {})
        self.fr = fr
        try:
            return self.coll_kind(i)
        finally:
            self.fr = saved

    def tstr_c(self, i, crate):
        return ty_str(crate.types, i)

    def is_str_ty_c(self, i, crate):
        return bool(STRINGY.match(ty_str(crate.types, i)))

    def coll_kind_of_fn(self, ft, crate):
        p = ft["p"]
        return "map" if "HashMap" in p or "BTreeMap" in p else "set" if "HashSet" in p or "BTreeSet" in p else None

    def is_str_ty(self, i):
        return bool(STRINGY.match(self.tstr(i)))

    def is_float(self, i):
        t = self.strip_ty(i)
        return t["k"] == "o" and t.get("s") in ("f32", "f64")

    def is_bool(self, i):
        t = self.strip_ty(i)
        return t["k"] == "o" and t.get("s") == "bool"

    def is_intty(self, i):
        t = self.strip_ty(i)
        return t["k"] == "o" and re.match(r"^[iu](size|8|16|32|64|128)$", t.get("s", "")) is not None

    # ------------------------------------------------------------ places
    def rd(self, st, place):
        cell, path = place
        v = st.store[cell]
        for p in path:
            v = self.proj(v, p)
        return v

    def proj(self, v, p):
        k = p[0]
        if k == "f":
            return fld(v, p[1])
        if k == "v":
            return pay(v, p[1], p[2])
        if k == "i":
            return idx(v, p[1])
        if k == "k":
            return at(v, p[1])
        raise Undecided("projection")

    def wr(self, st, place, new):
        cell, path = place
        st.store[cell] = self.setp(st.store[cell], path, new)

    def setp(self, v, path, new):
        if not path:
            return new
        p, rest = path[0], path[1:]
        if v.op == "gate" and p[0] in ("f", "v"):
            return mapgate(v, lambda x: x if (p[0] == "v" and x.op == "agg" and x.args[1] != p[1]) else self.setp(x, path, new))
        if p[0] == "f":
            if v.op == "agg":
                return agg(v.args[0], v.args[1], [(n, self.setp(x, rest, new) if n == p[1] else x) for n, x in v.args[2]])
            if v.op == "tup":
                return tup(*[self.setp(x, rest, new) if str(i) == p[1] else x for i, x in enumerate(v.args[0])])
            adt = p[2]
            if isinstance(adt, tuple):
                return tup(*[self.setp(fld(v, str(i)), rest, new) if str(i) == p[1] else fld(v, str(i)) for i in range(adt[1])])
            vs = tm.ADTS.get(adt)
            if vs and len(vs) == 1:
                return agg(adt, vs[0][0], [(f, self.setp(fld(v, f), rest, new) if f == p[1] else fld(v, f)) for f in vs[0][1]])
            raise Undecided(f"write to field {p[1]} of unknown structure {adt}")
        if p[0] == "v":
            if v.op == "agg" and v.args[1] == p[1]:
                return agg(v.args[0], v.args[1], [(n, self.setp(x, rest, new) if n == p[2] else x) for n, x in v.args[2]])
            if v.op != "agg":
                names = dict(tm.ADTS.get(p[3], ())).get(p[1])
                if names is None:
                    raise Undecided("write through pattern")
                # the write happens under the matching variant only
                val = agg(p[3], p[1], [(n, self.setp(pay(v, p[1], n), rest, new) if n == p[2] else pay(v, p[1], n)) for n in names])
                return ite(is_variant(v, p[3], p[1]), val, v)
            return v
        if p[0] == "i":
            return store(v, p[1], self.setp(idx(v, p[1]), rest, new))
        if p[0] == "k":
            # the key is there: the same as putting it in anew
            return seq("map", tm.segs_of(v) + [tm.one(TR, tup(p[1], self.setp(at(v, p[1]), rest, new)))])
        raise Undecided("write")

    def deref_ref(self, v):
        """a reference value -> place, or None when it is a plain value"""
        if v.op == "ref":
            return (v.args[0], v.args[1])
        return None

    def mkref(self, place):
        return raw("ref", place[0], tuple(place[1]))

    def deref_val(self, st, v):
        """read through a (possibly gated) reference"""
        if v.op == "ref":
            return self.rd(st, (v.args[0], v.args[1]))
        if v.op == "gate" and any(x.op == "ref" for _, x in v.args[0]):
            return mapgate(v, lambda x: self.deref_val(st, x))
        return v

    def write_ref(self, st, v, new):
        if v.op == "ref":
            self.wr(st, (v.args[0], v.args[1]), new)
            return
        if v.op == "gate" and all(x.op == "ref" for _, x in v.args[0]):
            for g, x in v.args[0]:
                pl = (x.args[0], x.args[1])
                self.wr(st, pl, ite(g, new, self.rd(st, pl)))
            return
        raise Undecided("write through an unknown reference")

    def place(self, e, st):
        """-> (cell, path) or None"""
        k = e["e"]
        if k in ("var", "upvar"):
            cell = self.fr.env.get(e["id"])
            if cell is None:
                raise Undecided("unbound variable")
            return (cell, ())
        if k == "field":
            p = self.place(e["a"], st)
            if p is None:
                return None
            t = self.strip_ty(e["a"]["t"])
            adt = t.get("p") if t["k"] == "adt" else ("tuple", len(t["a"])) if t["k"] == "tuple" else None
            return (p[0], p[1] + (("f", e["f"], adt),))
        if k == "deref":
            a = e["a"]
            if a["e"] in ("var", "upvar", "field", "deref", "index"):
                p = self.place(a, st)
                if p is not None:
                    v = self.rd(st, p)
                    r = self.deref_ref(v)
                    if r is not None:
                        return r
                    if v.op == "gate" and any(x.op == "ref" for _, x in v.args[0]):
                        return None
                    return p
            v = self.ev_(a, st)
            r = self.deref_ref(v)
            if r is not None:
                return r
            if v.op == "gate":
                return None
            return (self.newcell(st, v), ())
        if k == "index":
            p = self.place(e["a"], st)
            i = self.ev_(e["i"], st)
            if p is None:
                return None
            self.ev(st, "index", e, base=self.rd(st, p), idx=i, ty="slice")
            return (p[0], p[1] + (("i", i),))
        if k == "borrow":
            return None
        if k in ("coerce",):
            return None
        if k == "block" and not e["stmts"] and e["expr"]:
            return self.place(e["expr"], st)
        return None

    # ------------------------------------------------------------ control flow helpers
    def branch(self, st, cn, fa, fb, want=True):
        """evaluate fa(st) under cn and fb(st) under not cn; merge into st; returns the value"""
        if cn is TR:
            return fa(st)
        if cn is F:
            return fb(st)
        base = st.live
        # what is already known on this path
        k = restrict(cn, base) if base is not TR and base is not F else cn
        if base is not F:
            if AND(base, cn) is F:
                return fb(st)
            if AND(base, NOT(cn)) is F:
                return fa(st)
        s1, s2 = st.copy(), st.copy()
        s1.live = AND(base, cn)
        s2.live = AND(base, NOT(cn))
        n0 = self.exit_count()
        v1 = self.guarded(fa, s1)
        n1 = self.exit_count()
        v2 = self.guarded(fb, s2)
        n2 = self.exit_count()
        d1, d2 = s1.dead(), s2.dead()
        if d1 and d2:
            st.live = F
            return raw("bot")
        if d1:
            st.store, st.live = s2.store, s2.live
            if n1 == n0:       # diverged only by panicking: an assumption, not a condition
                st.live = s2.live if s2.live is not AND(base, NOT(cn)) else base
            return v2
        if d2:
            st.store, st.live = s1.store, s1.live
            if n2 == n1:
                st.live = s1.live if s1.live is not AND(base, cn) else base
            return v1
        self.merge_into(st, cn, s1, s2)
        if v1 is v2:
            return v1
        return self.ite_v(cn, v1, v2)

    def guarded(self, f, s):
        if s.dead():
            return raw("bot")
        r = f(s)
        return UNIT if r is None else r

    def ite_v(self, cn, a, b):
        if a.op == "bot":
            return b
        if b.op == "bot":
            return a
        return ite(cn, a, b)

    def exit_count(self):
        return sum(len(t.exits) + len(t.conts) for t in self.targets)

    def merge_into(self, st, cn, s1, s2):
        out = {}
        a, b = s1.store, s2.store
        for k, v in a.items():
            w = b.get(k, self.lazy.get(k))
            out[k] = v if w is None or w is v else self.ite_v(cn, v, w)
        for k, w in b.items():
            if k not in a:
                v = self.lazy.get(k)
                out[k] = w if v is None or v is w else self.ite_v(cn, v, w)
        st.store = out
        st.live = OR(s1.live, s2.live)

    def merge_many(self, exits):
        """[(guard, St, value)] -> (St, value); the first guards take precedence"""
        exits = [x for x in exits if x[0] is not F]
        if not exits:
            return None, None
        g, s, v = exits[-1]
        cur = s.copy()
        cur.live = g
        val = v
        for g2, s2, v2 in reversed(exits[:-1]):
            care = OR(cur.live, g2)
            cn = restrict(g2, care)
            s3 = s2.copy()
            s3.live = g2
            n = St(None, None)
            self.merge_into(n, cn, s3, cur)
            n.live = care
            val = v2 if v2 is val else self.ite_v(cn, v2, val)
            cur = n
        return cur, val

    # ------------------------------------------------------------ entry points
    def run(self, key, args=None, st=None):
        """summary of a function applied to symbolic parameters"""
        body = self.P.find(key)
        if body is None:
            raise Undecided("no such function " + key)
        tm.new_budget()
        st = st or St({}, TR)
        if args is None:
            args = []
            for i, p in enumerate(body["params"]):
                name = p["pat"]["name"] if p["pat"] and p["pat"]["p"] == "bind" else f"arg{i}"
                args.append(self.sym_param(body, p, raw("param", name), st))
        saved = (self.fr, self.gstack, self.ctx, self.targets)
        self.gstack, self.ctx, self.targets = [], [], []
        try:
            v = self.call_body(body, args, st)
        finally:
            self.fr, self.gstack, self.ctx, self.targets = saved
        return v, st, args

    def sym_param(self, body, p, base, st):
        types = body["crate"].types
        t = types[p["t"]]
        if t["k"] == "ref" and t["m"]:
            return self.mkref((self.newcell(st, base), ()))
        return base

    def call_body(self, body, args, st, env=None, parent=None):
        key = body["key"]
        self.analysed.add(key)
        if len(self.callstack) > self.MAXDEPTH:
            raise Undecided("call depth")
        fr = Frame(key, body["crate"], dict(env or {}), parent)
        saved = self.fr
        self.callstack.append(key)
        self.gstack.append(st.live)
        outer_live = st.live
        st.live = TR
        target = Target("fn", None, fr)
        fr.target = target
        self.targets.append(target)
        self.fr = fr
        try:
            for p, a in zip(body["params"], args):
                if p["pat"] is not None:
                    cell = self.newcell(st, a)
                    self.bind_irrefutable(p["pat"], (cell, ()), st)
            v = self.ev_(body["body"], st)
            exits = list(target.exits)
            if not st.dead():
                exits.append((st.live, St(st.store, st.live), v))
            m, val = self.merge_many(exits)
            if m is None:
                st.live = F
                return raw("bot")
            st.store = m.store
            st.live = AND(outer_live, m.live)
            return val
        finally:
            self.targets.pop()
            self.gstack.pop()
            self.callstack.pop()
            self.fr = saved

    # ------------------------------------------------------------ patterns
    def bind_irrefutable(self, pat, place, st):
        cn, binds = self.match(pat, place, st)
        self.do_binds(binds, st)
        return cn

    def do_binds(self, binds, st):
        for var, v in binds:
            self.fr.env[var] = self.newcell(st, v)

    def match(self, pat, place, st):
        """-> (node, [(var, value)])"""
        k = pat["p"]
        if k in ("wild", "never"):
            return TR, []
        if k == "bind":
            v = None
            t = self.ty(pat["t"])
            if pat["byref"] and t["k"] == "ref" and t["m"]:
                v = self.mkref(place)
            else:
                v = self.rd(st, place)
            b = [(pat["var"], v)]
            cn = TR
            if pat.get("sub"):
                cn, b2 = self.match(pat["sub"], place, st)
                b += b2
            return cn, b
        if k == "deref":
            v = self.rd(st, place)
            r = self.deref_ref(v)
            return self.match(pat["sub"], r if r else place, st)
        if k == "variant":
            v = self.rd(st, place)
            r = self.deref_ref(v)
            if r:
                place, v = r, self.rd(st, r)
            cn = is_variant(v, pat["adt"], pat["v"])
            binds = []
            for n, s in pat["subs"]:
                c2, b2 = self.match(s, (place[0], place[1] + (("v", pat["v"], n, pat["adt"]),)), st)
                cn = AND(cn, c2)
                binds += b2
            return cn, binds
        if k == "leaf":
            cn, binds = TR, []
            v = self.rd(st, place)
            r = self.deref_ref(v)
            if r:
                place = r
            t = self.strip_ty(pat["t"])
            adt = t.get("p") if t["k"] == "adt" else ("tuple", len(t["a"])) if t["k"] == "tuple" else None
            for n, s in pat["subs"]:
                c2, b2 = self.match(s, (place[0], place[1] + (("f", n, adt),)), st)
                cn = AND(cn, c2)
                binds += b2
            return cn, binds
        if k == "const":
            v = self.deref_val(st, self.rd(st, place))
            return eq(v, self.lit(pat["val"])), []
        if k == "or":
            alts = [self.match(p, place, st) for p in pat["pats"]]
            cn = OR(*[a for a, _ in alts])
            names = [n for n, _ in alts[0][1]]
            if any(sorted(n for n, _ in b) != sorted(names) for _, b in alts):
                raise Undecided("or-pattern bindings")
            binds = []
            for n in names:
                val = None
                for a, b in reversed(alts):
                    x = dict(b)[n]
                    val = x if val is None else ite(a, x, val)
                binds.append((n, val))
            return cn, binds
        if k == "range":
            v = self.deref_val(st, self.rd(st, place))
            return var(raw("inrange", v, pat["s"])), []
        if k == "slice":
            v = self.deref_val(st, self.rd(st, place))
            n = len(pat["pre"]) + len(pat["suf"])
            cn = ge0(sub(length(v), c(n))) if pat.get("mid") else eq0(sub(length(v), c(n)))
            binds = []
            for i, p in enumerate(pat["pre"]):
                c2, b2 = self.match(p, (place[0], place[1] + (("i", c(i)),)), st)
                cn = AND(cn, c2)
                binds += b2
            if pat["suf"]:
                for i, p in enumerate(pat["suf"]):
                    c2, b2 = self.match(p, (place[0], place[1] + (("i", sub(length(v), c(len(pat["suf"]) - i))),)), st)
                    cn = AND(cn, c2)
                    binds += b2
            if pat.get("mid"):
                cell = self.newcell(st, raw("subslice", v, len(pat["pre"]), len(pat["suf"])))
                c2, b2 = self.match(pat["mid"], (cell, ()), st)
                binds += b2
            return cn, binds
        raise Undecided("pattern " + k)

    # ------------------------------------------------------------ expressions
    def lit(self, l):
        k, v = l.get("k"), l.get("v")
        if k == "int":
            return c(int(v))
        if k == "bool":
            return c(bool(v))
        if k == "str":
            return c(str(v))
        if k == "char":
            return raw("c", "char", v)
        if k == "float":
            return raw("c", "float", v)
        if k == "bytes":
            return raw("c", "bytes", tuple(v))
        if "v" not in l:
            raise Undecided("constant " + str(l)[:60])
        return raw("c", str(k), str(v))

    def ev_(self, e, st):
        """value of an expression"""
        self.steps += 1
        if self.steps > 4000000:
            raise Undecided("step limit")
        if st.dead():
            return raw("bot")
        return getattr(self, "x_" + e["e"], self.x_unknown)(e, st)

    def x_unknown(self, e, st):
        raise Undecided("expression " + e["e"] + " " + e.get("s", ""))

    def x_block(self, e, st):
        if "label" in e:
            t = Target("block", e["label"], self.fr)
            self.targets.append(t)
            try:
                v = self.block(e, st)
            finally:
                self.targets.pop()
            if t.exits:
                exits = list(t.exits)
                if not st.dead():
                    exits.append((st.live, st.copy(), v))
                m, val = self.merge_many(exits)
                st.store, st.live = m.store, m.live
                return val
            return v
        return self.block(e, st)

    def block(self, e, st):
        for s in e["stmts"]:
            if st.dead():
                return raw("bot")
            if s["s"] == "expr":
                self.ev_(s["e"], st)
            else:
                self.let(s, st)
        if e["expr"] is None or st.dead():
            return UNIT if not st.dead() else raw("bot")
        return self.ev_(e["expr"], st)

    def let(self, s, st):
        pat = s["pat"]
        if s["init"] is None:
            def decl(p):
                if p["p"] == "bind":
                    self.fr.env[p["var"]] = self.newcell(st, raw("uninit"))
                for q in p.get("subs", []):
                    decl(q[1])
            decl(pat)
            return
        pl = self.scrutinee(s["init"], st)
        if st.dead():
            return
        cn, binds = self.match(pat, pl, st)
        if "els" in s and cn is not TR:
            fa = lambda t: self.do_binds(binds, t)
            fb = lambda t: self.ev_(s["els"], t)
            self.branch(st, cn, fa, fb)
        else:
            self.do_binds(binds, st)

    def scrutinee(self, e, st):
        p = self.place(e, st) if e["e"] in ("var", "upvar", "field", "deref", "index") else None
        if p is None:
            v = self.ev_(e, st)
            p = (self.newcell(st, v), ())
        return p

    def x_if(self, e, st):
        cn, pre = self.cond(e["cond"], st)
        if st.dead():
            return raw("bot")

        def fa(t):
            self.do_binds(pre, t)
            return self.ev_(e["then"], t)

        def fb(t):
            return self.ev_(e["els"], t) if e["els"] else UNIT
        return self.branch(st, cn, fa, fb)

    def cond(self, e, st):
        """condition possibly containing let patterns -> (node, bindings)"""
        k = e["e"]
        if k == "let":
            pl = self.scrutinee(e["a"], st)
            if st.dead():
                return F, []
            return self.match(e["pat"], pl, st)
        if k == "logic" and e["op"] == "And":
            c1, b1 = self.cond(e["l"], st)
            if c1 is F or st.dead():
                return F, []
            if not b1 and not self.has_let(e["r"]):
                r = {}

                def fa(t):
                    r["n"], r["b"] = self.cond(e["r"], t)
                    return UNIT
                self.branch(st, c1, fa, lambda t: UNIT)
                return AND(c1, r.get("n", F)), r.get("b", [])
            r = {}

            def fa(t):
                self.do_binds(b1, t)
                r["n"], r["b"] = self.cond(e["r"], t)
                # keep the freshly bound cells visible after the merge
                return UNIT
            self.branch(st, c1, fa, lambda t: UNIT)
            b1v = [(v, st.store[self.fr.env[v]]) for v, _ in b1 if self.fr.env.get(v) in st.store]
            return AND(c1, r.get("n", F)), b1v + r.get("b", [])
        return as_bool(self.ev_(e, st)), []

    def has_let(self, e):
        return e["e"] == "let" or (e["e"] == "logic" and (self.has_let(e["l"]) or self.has_let(e["r"])))

    def x_let(self, e, st):
        cn, b = self.cond(e, st)
        self.do_binds(b, st)
        return B(cn)

    def x_logic(self, e, st):
        a = as_bool(self.ev_(e["l"], st))
        if e["op"] == "And":
            return self.branch(st, a, lambda t: self.ev_(e["r"], t), lambda t: c(False))
        return self.branch(st, a, lambda t: c(True), lambda t: self.ev_(e["r"], t))

    def x_un(self, e, st):
        a = self.deref_val(st, self.ev_(e["a"], st))
        if e["op"] == "Not":
            if self.is_bool(e["t"]):
                return B(NOT(as_bool(a)))
            return app("bitnot", a)
        if self.is_float(e["t"]):
            return app("fneg", a)
        return sub(c(0), a)

    def x_bin(self, e, st):
        a = self.deref_val(st, self.ev_(e["l"], st))
        b = self.deref_val(st, self.ev_(e["r"], st))
        return self.binop(e["op"], a, b, e["l"]["t"], e, st)

    def binop(self, op, a, b, ty, e, st):
        if self.is_float(ty):
            return self.fbin(op, a, b)
        isb = self.is_bool(ty)
        if op in ("Eq", "Ne"):
            n = XNOR(as_bool(a), as_bool(b)) if isb else eq(a, b)
            return B(n if op == "Eq" else NOT(n))
        if isb and op in ("BitAnd", "BitOr", "BitXor"):
            x, y = as_bool(a), as_bool(b)
            return B(AND(x, y) if op == "BitAnd" else OR(x, y) if op == "BitOr" else NOT(XNOR(x, y)))
        if op in ("Lt", "Le", "Gt", "Ge"):
            if not self.is_intty(ty):
                if isb:
                    x, y = as_bool(a), as_bool(b)
                    return B({"Lt": AND(NOT(x), y), "Gt": AND(x, NOT(y)), "Le": OR(NOT(x), y), "Ge": OR(x, NOT(y))}[op])
                return B(var(raw("cmp", op, a, b)))
            if op == "Lt":
                return B(ge0(sub(sub(b, a), c(1))))
            if op == "Le":
                return B(ge0(sub(b, a)))
            if op == "Gt":
                return B(ge0(sub(sub(a, b), c(1))))
            return B(ge0(sub(a, b)))
        if op in ("Add", "AddUnchecked"):
            return add(a, b)
        if op == "Sub":
            self.ev(st, "sub", e, a=a, b=b)
            return sub(a, b)
        if op == "Mul":
            return mul(a, b)
        if op in ("Div", "Rem"):
            self.ev(st, "div", e, a=a, b=b)
        if is_int(a) and is_int(b) and op in ("Div", "Rem") and cval(b):
            return c(cval(a) // cval(b) if op == "Div" else cval(a) % cval(b))
        return app(op.lower(), a, b)

    def fbin(self, op, a, b):
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if op in ("Gt", "Ge"):
                a, b, op = b, a, {"Gt": "Lt", "Ge": "Le"}[op]
            n = var(raw("fcmp", "Eq" if op == "Ne" else op, a, b))
            return B(NOT(n) if op == "Ne" else n)
        return app("f" + op.lower(), a, b)

    def x_cast(self, e, st):
        v = self.deref_val(st, self.ev_(e["a"], st))
        if self.is_float(e["t"]) and not self.is_float(e["a"]["t"]):
            return app("tofloat", v)
        if self.is_float(e["a"]["t"]) and not self.is_float(e["t"]):
            return app("toint", v)
        if self.is_bool(e["a"]["t"]):
            return ite(tm.as_bool(v), c(1), c(0))
        w, v0 = self.int_width(e["t"]), self.int_width(e["a"]["t"])
        if w and v0 and w < v0 and not (is_int(v) and 0 <= cval(v) < 1 << (w - 1)):
            return app("cast" + str(w), v)
        return v

    def int_width(self, t):
        t = str(t)
        if t in ("usize", "isize"):
            return 64
        if t == "char":
            return 32
        return int(t[1:]) if t[:1] in "ui" and t[1:].isdigit() else None

    def x_coerce(self, e, st):
        return self.ev_(e["a"], st)

    def x_deref(self, e, st):
        a = e["a"]
        p = None
        if a["e"] in ("var", "upvar", "field", "deref", "index"):
            p = self.place(e, st)
            if p is not None:
                return self.rd(st, p)
        v = self.ev_(a, st)
        return self.deref_val(st, v)

    def x_field(self, e, st):
        p = self.place(e, st)
        if p is not None:
            return self.rd(st, p)
        v = self.deref_val(st, self.ev_(e["a"], st))
        return fld(v, e["f"])

    def x_index(self, e, st):
        p = self.place(e, st)
        if p is not None:
            return self.rd(st, p)
        v = self.deref_val(st, self.ev_(e["a"], st))
        i = self.ev_(e["i"], st)
        self.ev(st, "index", e, base=v, idx=i, ty="slice")
        return idx(v, i)

    def x_var(self, e, st):
        cell = self.fr.env.get(e["id"])
        if cell is None:
            raise Undecided("unbound variable in " + self.fr.key)
        if cell not in st.store:
            return raw("bot")
        return st.store[cell]

    x_upvar = x_var

    def x_borrow(self, e, st):
        a = e["a"]
        if not e["m"]:
            p = self.place(a, st) if "std::cell::" in self.tstr(a["t"]) else None
            if p is not None:
                # a shared reference through which one can write
                return self.mkref(p)
            v = self.ev_(a, st)
            return v
        p = self.place(a, st)
        if p is not None:
            return self.mkref(p)
        v = self.ev_(a, st)
        if v.op == "ref":
            return v
        if v.op == "gate" and any(x.op == "ref" for _, x in v.args[0]):
            return v
        return self.mkref((self.newcell(st, v), ()))

    def x_assign(self, e, st):
        v = self.ev_(e["r"], st)
        if st.dead():
            return UNIT
        l = e["l"]
        p = self.place(l, st)
        if p is not None:
            self.ev(st, "assign", e, place=p, value=v, ty=self.tstr(l["t"]), field=p[1][-1][1] if p[1] and p[1][-1][0] == "f" else None)
            self.wr(st, p, v)
            return UNIT
        if l["e"] == "deref":
            r = self.ev_(l["a"], st)
            self.write_ref(st, r, v)
            return UNIT
        raise Undecided("assignment target")

    def x_assignop(self, e, st):
        l = e["l"]
        b = self.deref_val(st, self.ev_(e["r"], st))
        p = self.place(l, st)
        if p is None:
            if l["e"] == "deref":
                r = self.ev_(l["a"], st)
                a = self.deref_val(st, r)
                op = e["op"].replace("Assign", "")
                self.write_ref(st, r, self.binop(op, a, b, l["t"], e, st))
                return UNIT
            raise Undecided("assignment target")
        a = self.rd(st, p)
        op = e["op"].replace("Assign", "")
        self.wr(st, p, self.binop(op, a, b, l["t"], e, st))
        return UNIT

    def x_return(self, e, st):
        v = self.ev_(e["a"], st) if e.get("a") else UNIT
        if not st.dead():
            self.fr.target.exits.append((st.live, st.copy(), v))
            st.live = F
        return raw("bot")

    def find_target(self, label):
        for t in reversed(self.targets):
            if t.frame is self.fr and t.label == label:
                return t
        raise Undecided("break target")

    def x_break(self, e, st):
        v = self.ev_(e["a"], st) if e.get("a") else UNIT
        if not st.dead():
            self.find_target(e["label"]).exits.append((st.live, st.copy(), v))
            st.live = F
        return raw("bot")

    def x_continue(self, e, st):
        t = self.find_target(e["label"])
        t.conts.append((st.live, st.copy(), UNIT))
        st.live = F
        return raw("bot")

    def x_tuple(self, e, st):
        return tup(*[self.ev_(x, st) for x in e["a"]])

    def x_array(self, e, st):
        return seq("vec", [one(TR, self.ev_(x, st)) for x in e["a"]])

    def x_repeat(self, e, st):
        v = self.ev_(e["a"], st)
        m = re.match(r"\d+", e["n"])
        n = c(int(m.group())) if m else raw("constn", e["n"])
        return seq("vec", [raw("rep", v, n)])

    def x_adt(self, e, st):
        base = self.ev_(e["base"], st) if e.get("base") else None
        fs = [(n, self.ev_(x, st)) for n, x in e["f"]]
        if base is not None:
            have = {n for n, _ in fs}
            for v, names in tm.ADTS.get(e["adt"], ()):
                for n in names:
                    if n not in have:
                        fs.append((n, fld(base, n)))
        if st.dead():
            return raw("bot")
        a = agg(e["adt"], e["v"], fs)
        self.ev(st, "construct", e, adt=e["adt"], value=a)
        return a

    def x_closure(self, e, st):
        caps = []
        for vid, byval in e["caps"]:
            cell = self.fr.env.get(vid)
            if cell is None:
                continue
            if byval and cell in st.store:
                # captured by value: snapshot
                cell = self.newcell(st, st.store[cell])
            caps.append((vid, cell))
        # variables of the defining body not listed (captured by place projections)
        env = dict(self.fr.env)
        env.update(dict(caps))
        k = len(self.closures)
        t = raw("clo", e["p"], k)
        self.closures[t] = (e["p"], env, self.fr)
        return t

    def x_lit(self, e, st):
        return self.lit(e["lit"])

    def x_zst(self, e, st):
        t = self.ty(e["t"])
        if t["k"] == "fndef":
            return self.fnval(t)
        if t["k"] == "tuple" and not t["a"]:
            return UNIT
        return raw("zst", self.tstr(e["t"]))

    def fnval(self, t):
        if "ctor" in t:
            if t.get("dk", "").find("Const") >= 0:
                return agg(t["ctor"]["adt"], t["ctor"]["v"], ())
            return raw("ctor", t["ctor"]["adt"], t["ctor"]["v"])
        self.fnrefs = getattr(self, "fnrefs", {})
        p = t["res"]["p"] if t.get("res") and t["res"].get("p") else t["p"]
        f = raw("fn", p)
        self.fnrefs[f] = (t, self.fr.crate)
        return f

    def x_const(self, e, st):
        if "LocalKey<" in self.tstr(e["t"]):
            return raw("static", norm_key(e["p"]))
        b = self.P.find(e["p"])
        if b is not None:
            return self.call_body(b, [], st)
        m = re.search(r"core::num::<impl (\w+)>::(\w+)$", e["p"])
        return raw("const", m[1] + "::" + m[2] if m else e["p"])

    x_constblock = x_const

    def x_static(self, e, st):
        return raw("static", e["p"])

    # ------------------------------------------------------------ match
    def x_match(self, e, st):
        src = e["src"]
        if src == "ForLoopDesugar":
            r = self.try_for(e, st)
            if r is not None:
                return r
        pl = self.scrutinee(e["a"], st)
        if st.dead():
            return raw("bot")
        return self.arms(e["arms"], 0, pl, st)

    def arms(self, arms, i, pl, st):
        if i >= len(arms):
            st.live = F
            return raw("bot")
        a = arms[i]
        cn, binds = self.match(a["pat"], pl, st)
        if i == len(arms) - 1 and a["guard"] is None:
            cn = TR
        if cn is F:
            return self.arms(arms, i + 1, pl, st)
        if a["guard"] is None:
            def fa(t):
                self.do_binds(binds, t)
                return self.ev_(a["body"], t)
            return self.branch(st, cn, fa, lambda t: self.arms(arms, i + 1, pl, t))
        # guarded arm: evaluate the guard under the pattern condition
        r = {}

        def fg(t):
            self.do_binds(binds, t)
            r["g"] = as_bool(self.ev_(a["guard"], t))
            return UNIT
        self.branch(st, cn, fg, lambda t: UNIT)
        cn2 = AND(cn, r.get("g", F))

        def fa(t):
            self.do_binds(binds, t)
            return self.ev_(a["body"], t)
        return self.branch(st, cn2, fa, lambda t: self.arms(arms, i + 1, pl, t))

    # ------------------------------------------------------------ loops
    def try_for(self, e, st):
        """match into_iter(x) { mut iter => loop { match next(&mut iter) { None => break, Some(pat) => body } } }"""
        arm = e["arms"][0]
        loop = arm["body"]
        if loop["e"] != "loop":
            return None
        inner = loop["body"]
        while inner["e"] == "block":
            if inner["expr"] is not None and not inner["stmts"]:
                inner = inner["expr"]
            elif len(inner["stmts"]) == 1 and inner["stmts"][0]["s"] == "expr":
                inner = inner["stmts"][0]["e"]
            else:
                return None
        if inner["e"] != "match":
            return None
        it = self.ev_(e["a"], st)
        if st.dead():
            return raw("bot")
        some_arm = next(a for a in inner["arms"] if a["pat"].get("v") == "Some")
        pat = some_arm["pat"]["subs"][0][1]

        def body(t, v):
            cell = self.newcell(t, v)
            self.bind_irrefutable(pat, (cell, ()), t)
            self.ev_(some_arm["body"], t)
        self.drive(st, it, body, e, label=loop.get("label"))
        return UNIT

    def x_loop(self, e, st):
        return self.while_loop(e, st)

    from loops import (run_loop, while_loop, leaf_diffs, classify_loop, recognise_fixpoint, mk_target, rd_opt,  # noqa
                       exit_state, first_is, as_iterator_loop)
    from drive import drive, drive_it, into_iter, seq_of, drive_collect, drive_exit, mk_iter   # noqa

    # ------------------------------------------------------------ calls
    def x_call(self, e, st):
        ft = self.ty(e["fty"])
        if ft["k"] == "fndef":
            return self.call_fndef(ft, e, st)
        f = self.ev_(e["fun"], st)
        args = [self.ev_(a, st) for a in e["args"]]
        if st.dead():
            return raw("bot")
        return self.call_value(f, args, st, e)

    def call_value(self, f, args, st, e):
        f = self.deref_val(st, f)
        if f.op == "clo":
            key, env, fr = self.closures[f]
            body = self.P.bodies.get(key)
            if body is None:
                raise Undecided("closure body " + key)
            if self.callstack.count(key) > 1:
                raise Undecided("recursive closure")
            # parameter 0 is the closure itself
            ps = body["params"]
            n = len(ps) - 1
            if n != len(args):
                if n == 1:
                    args = [tup(*args)]
                else:
                    raise Undecided("closure arity")
            return self.call_body(body, [UNIT] + list(args), st, env=env, parent=fr)
        if f.op == "ctor":
            adt, v = f.args
            names = dict(tm.ADTS.get(adt, ())).get(v) or [str(i) for i in range(len(args))]
            a = agg(adt, v, zip(names, [self.deref_val(st, x) if False else x for x in args]))
            self.ev(st, "construct", e, adt=adt, value=a)
            return a
        if f.op == "fn":
            t, crate = self.fnrefs[f]
            return self.invoke(t, args, st, e, crate)
        if f.op == "gate":
            lv = list(f.args[0])

            def go(i, t):
                if i == len(lv) - 1:
                    return self.call_value(lv[i][1], args, t, e)
                return self.branch(t, lv[i][0], lambda t2: self.call_value(lv[i][1], args, t2, e), lambda t2: go(i + 1, t2))
            return go(0, st)
        vals = [self.deref_val(st, a) for a in args]
        self.ev(st, "callval", e, fn=f, args=tuple(vals))
        if self.world and f.op == "param":
            # an output function given by the caller
            self.emit(st, "sink", tup(f, *vals) if len(vals) != 1 else vals[0])
            return UNIT if "e" in e and self.tstr(e["t"]) == "()" else app("call", f, *vals)
        r = app("call", f, *vals)
        for i, a in enumerate(args):
            if a.op == "ref":
                self.write_ref(st, a, app(f"call!{i}", f, *vals))
        return r

    def call_fndef(self, ft, e, st):
        args = []
        for a in e["args"]:
            args.append(self.ev_(a, st))
            if st.dead():
                return raw("bot")
        return self.invoke(ft, args, st, e, self.fr.crate)

    def invoke(self, ft, args, st, e, crate):
        if "ctor" in ft:
            return self.call_value(raw("ctor", ft["ctor"]["adt"], ft["ctor"]["v"]), args, st, e)
        p = ft["p"]
        res = ft.get("res")
        rp = res["p"] if res and res.get("p") else p
        name = norm_name(rp if (res and res.get("local")) else p)
        # methods whose meaning is fixed whatever the receiver
        body = None
        cands = (rp, p)
        if p.endswith(("ops::Fn::call", "ops::FnMut::call_mut", "ops::FnOnce::call_once")):
            cands = ()      # a closure value: it must be entered with its environment
        for cand in cands:
            body = self.P.find(cand)
            if body is not None:
                break
        if name.startswith("Drawer::") and rp == p and p.startswith("dandy_draw::"):
            return drawn(self, name, args, st)      # whatever implements it
        if body is not None and self.is_derived(body):
            body = None
            name = norm_name(p)
        if body is not None:
            return self.call_local(body, args, st, e, ft)
        name = norm_name(p)
        h = MODELS.get(name)
        if h is not None:
            return h(self, args, st, e, ft, crate)
        return self.external(name, args, st, e, ft)

    def is_derived(self, body):
        return self.P.derived.get(body["key"], False)

    def call_local(self, body, args, st, e, ft):
        key = body["key"]
        self.visited.add(key)
        if self.is_opaque(key):
            return self.opaque_call("op:" + norm_key(key), args, st, e, key)
        if self.callstack.count(key) >= 1:
            self.ev(st, "recurse", e, key=key, args=tuple(self.deref_val(st, a) for a in args))
            return self.opaque_call("rec:" + norm_key(key), args, st, e, key)
        if len(self.callstack) >= self.MAXDEPTH:
            self.unknown.add("depth:" + key)
            return self.opaque_call("deep:" + norm_key(key), args, st, e, key)
        self.ev(st, "call", e, key=key, args=tuple(self.deref_val(st, a) for a in args))
        return self.call_body(body, args, st)

    def is_opaque(self, key):
        k = norm_key(key)
        return key in self.opaque or k in self.opaque or (self.opaque_pred is not None and self.opaque_pred(k))

    def opaque_call(self, name, args, st, e, key=None):
        r, vals = self.uninterpreted(name, args, st, e, key)
        self.ev(st, "call", e, key=key or name, args=tuple(vals), opaque=True)
        return r

    def adt_of(self, body, i):
        """type of a parameter below references"""
        types = body["crate"].types
        t = types[body["params"][i]["t"]]
        while t["k"] == "ref":
            t = types[t["t"]]
        return t["p"]

    def uninterpreted(self, name, args, st, e, key=None):
        """a call that stays a function symbol: its result and everything it can write are functions of what it can read"""
        vals, cells = [], []
        feet = self.footprint(key) if key is not None and self.footprint is not None else {}
        grown = {i: k for i, k in self.grows(key).items() if self.seq_like(self.deref_val(st, args[i]), k)} if key is not None else {}
        for i, a in enumerate(args):
            v = self.deref_val(st, a)
            if v.op == "clo":
                v, cs = self.signature(v, st, e)
                cells += [c_ for c_ in cs if c_ not in cells]
            if i in feet:
                v = raw("tup", tuple(tup(c(f), fld(v, f)) for f in sorted(feet[i][0])))
            if i in grown:
                v = seq(grown[i], ())       # only added to, never looked at
            vals.append(v)
        cells = [c_ for c_ in cells if c_ not in self.world.values()]
        vals += [st.store[c_] for c_ in cells]
        if self.world and name.startswith(("op:dandy_", "rec:dandy_", "deep:dandy_")):
            # it may write anywhere, but only after what is there already
            for n in self.world:
                self.append(st, n, app(f"{name}!{n}", *vals))
        for i, a in enumerate(args):
            if a.op == "ref" and self.deref_val(st, a).op == "clo":
                continue
            if a.op in ("ref", "gate") and (a.op == "ref" or any(x.op == "ref" for _, x in a.args[0])):
                new = app(f"{name}!{i}", *vals)
                if i in grown:
                    sg = segs_of if grown[i] == "vec" else tm.str_segs
                    old, new = self.deref_val(st, a), sg(new)
                    new = tm.mapgate(old, lambda y: seq(grown[i], sg(y) + new))
                if i in feet:
                    t = self.adt_of(self.P.find(key), i)
                    new = agg(t, tm.ADTS[t][0][0], [(f, fld(new, f) if f in feet[i][1] else fld(self.deref_val(st, a), f)) for f in tm.ADTS[t][0][1]])
                self.write_ref(st, a, new)
        for i, c_ in enumerate(cells):
            st.store[c_] = app(f"{name}!clo{i}", *vals)
        return app(name, *vals), vals

    def seq_like(self, v, kind):
        return all(x.op not in ("clo", "ref") and (x.op != "seq" or x.args[0] == kind) for _, x in tm.leaves(v))

    def grows(self, key):
        """parameters that a function only ever appends to (through `&mut String` or `&mut Vec`), without reading them"""
        memo = self.P.__dict__.setdefault("grown", {})
        if key not in memo:
            body = self.P.find(key)
            memo[key] = {}
            if body is None:
                return {}
            types = body["crate"].types
            for i, p in enumerate(body["params"]):
                t = types[p["t"]]
                if t["k"] != "ref" or not t["m"] or not p["pat"] or p["pat"]["p"] != "bind" or "sub" in p["pat"]:
                    continue
                t = ty_str(types, t["t"])
                if t == "std::string::String" or t.startswith("std::vec::Vec<"):
                    memo[key][i] = "str" if t == "std::string::String" else "vec"
            # greatest fixpoint over this function alone: other functions are asked in turn
            while True:
                out = {i: k for i, k in memo[key].items() if only_appended(self, body, body["params"][i]["pat"]["var"], body["crate"])}
                if out == memo[key]:
                    break
                memo[key] = out
        return memo[key]

    def signature(self, clo, st, e):
        """a closure handed to code that is not expanded: what one call returns and writes as a function of its
        parameters and of the captured variables it can change"""
        key, env, fr = self.closures[clo]
        body = self.P.bodies.get(key)
        if body is None:
            return clo, []
        cells = []
        for vid in mutated_vars(body["body"], P=self.P):
            cell = env.get(vid)
            while cell is not None and cell in st.store and st.store[cell].op == "ref" and not st.store[cell].args[1]:
                cell = st.store[cell].args[0]
            if cell is not None and cell in st.store and cell not in cells:
                if st.store[cell].op == "ref":
                    raise Undecided("closure writes through a stored reference")
                if st.store[cell].op != "clo":
                    cells.append(cell)
        b = tm.fresh(UNIT)
        x = raw("el", b)
        s2 = st.copy()
        s2.live = TR
        for n, w in self.world.items():
            s2.store[w] = fld(x, "$" + n)
        for i, c_ in enumerate(cells):
            v = st.store[c_]
            s2.store[c_] = fld(x, f"c{i}") if v.op != "agg" else agg(v.args[0], v.args[1], [(f, fld(x, f"c{i}.{f}")) for f, _ in v.args[2]])
        n = len(body["params"]) - 1
        r = self.deref_val(s2, self.call_value(clo, [fld(x, str(i)) for i in range(n)], s2, e))
        wr = [s2.store[w] for n, w in self.world.items() if s2.store[w] is not fld(x, "$" + n)]
        cells += [w for n, w in self.world.items() if s2.store[w] is not fld(x, "$" + n)]
        return tm.close("lam", b, UNIT, tup(r, *[s2.store[c_] for c_ in cells[:len(cells) - len(wr)]], *wr)), cells

    def external(self, name, args, st, e, ft):
        if name not in PURE and not name.startswith(PURE_PREFIX):
            self.unknown.add(name)
        r, vals = self.uninterpreted(name, args, st, e)
        self.ev(st, "ext", e, name=name, args=tuple(vals), path=ft["p"])
        return r

    # type-directed conversions -----------------------------------------------------------
    def convert(self, v, frm, to, crate, st, e, trait="std::convert::From"):
        """U::from(v: T)"""
        types = crate.types
        fs, ts = ty_str(types, frm), ty_str(types, to)
        if fs == ts:
            return v
        body = self.P.find_impl(trait, [ts, fs])
        if body is not None:
            return self.call_local(body, [v], st, e, None)
        if STRINGY.match(fs) and STRINGY.match(ts):
            return self.deref_val(st, v)
        if ts.startswith(("std::rc::Rc<", "std::boxed::Box<", "std::vec::Vec<", "std::cell::RefCell<", "std::path::PathBuf")):
            return self.deref_val(st, v)
        if ts.startswith("std::collections::VecDeque<"):
            return seq("vec", segs_of(v))
        if ts.startswith(("std::collections::BTreeSet<", "std::collections::HashSet<")):
            return seq("set", segs_of(v))
        if ts.startswith(("std::collections::BTreeMap<", "std::collections::HashMap<")):
            return seq("map", segs_of(v))
        if re.match(r"^[iu](size|8|16|32|64|128)$", fs) and re.match(r"^[iu](size|8|16|32|64|128)$", ts):
            return v
        if fs == "bool" and re.match(r"^[iu](size|8|16|32|64|128)$", ts):
            return ite(tm.as_bool(self.deref_val(st, v)), c(1), c(0))
        return app("conv:" + ts, v)


def mutated_vars(e, acc=None, P=None):
    """variable ids that are assigned or mutably borrowed in a closure body (syntactic over-approximation), in order"""
    if acc is None:
        acc = {}

    def root(x):
        while x["e"] in ("field", "deref", "index", "borrow", "coerce"):
            x = x["a"]
        if x["e"] in ("var", "upvar"):
            acc[x["id"]] = True

    def walk(x):
        if isinstance(x, dict):
            if x.get("e") == "closure" and P is not None and x["p"] in P.bodies:
                mutated_vars(P.bodies[x["p"]]["body"], acc, P)
            if x.get("e") == "borrow" and x.get("m"):
                root(x["a"])
            if x.get("e") in ("assign", "assignop"):
                root(x["l"])
            for k, v in x.items():
                if isinstance(v, (dict, list)) and k != "crate":
                    walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)
    walk(e)
    return acc


def drawn(I, name, args, st):
    """drawing on a given surface: one more entry of what it was told"""
    old = I.deref_val(st, args[0])
    more = one(TR, tup(c(name), *[I.deref_val(st, a) for a in args[1:]]))
    I.write_ref(st, args[0], tm.mapgate(old, lambda y: seq("vec", segs_of(y) + [more])))
    return UNIT


APPENDS = {"std::string::String::push": 0, "std::string::String::push_str": 0, "std::vec::Vec::push": 0,
           "std::vec::Vec::extend_from_slice": 0, "std::iter::Extend::extend": 0, "std::fmt::Write::write_str": 0,
           "std::fmt::Write::write_char": 0, "std::fmt::Write::write_fmt": 0, "std::ops::AddAssign::add_assign": 0}


def only_appended(I, body, var, crate):
    """is every mention of a variable the target of an append"""
    def core(x):
        while x["e"] in ("deref", "borrow", "coerce") or x["e"] == "block" and not x["stmts"] and x["expr"]:
            x = x["expr"] if x["e"] == "block" else x["a"]
        return x

    def ok(x):
        if isinstance(x, list):
            return all(ok(y) for y in x)
        if not isinstance(x, dict):
            return True
        k = x.get("e")
        if k in ("var", "upvar") and x["id"] == var:
            return False
        if k == "closure":
            b = I.P.bodies.get(x["p"])
            return b is not None and ok(b["body"])
        if k == "assignop" and core(x["l"]).get("id") == var:
            return x["op"].lower().startswith("add") and ok(x["r"])
        if k == "call":
            ft = crate.types[x["fty"]]
            if ft["k"] == "fndef":
                n = norm_key(ft["p"])
                grown = {APPENDS[n]} if n in APPENDS else I.grows(ft["p"]) if I.P.find(ft["p"]) is not None else ()
                rest = [a for i, a in enumerate(x["args"]) if not (i in grown and core(a).get("id") == var)]
                return ok(rest) and all(ok(v) for f, v in x.items() if f not in ("args", "crate") and isinstance(v, (dict, list)))
        return all(ok(v) for f, v in x.items() if f not in ("crate", "pat") and isinstance(v, (dict, list)))
    return ok(body["body"])


def norm_key(k):
    return re.sub(r"::<[^<>]*>", "", k)


from models import MODELS, PURE, PURE_PREFIX  # noqa
