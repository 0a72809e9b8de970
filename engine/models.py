"""Meaning of the external functions the repository uses, as transformers on summaries."""
import re
from terms import *
import terms as tm
from thir import ty_str
from drive import stg, mk_it, with_stage, opt_seq, is_range_agg, skip_

MODELS = {}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def V(I, st, a):
    return I.deref_val(st, a)


def is_refish(a):
    return a.op == "ref" or (a.op == "gate" and any(x.op == "ref" for _, x in a.args[0]))


def upd(I, st, r, f):
    """rewrite the value behind a reference; returns the old value"""
    old = V(I, st, r)
    if not is_refish(r):
        return old
    I.write_ref(st, r, f(old))
    return old


def opt_map(I, st, o, f, none=None, adt=OPT, good="Some"):
    """branch on an option/result: f(st, payload) / none(st)"""
    g = is_variant(o, adt, good)
    return I.branch(st, g, lambda t: f(t, pay(o, good, "0")), lambda t: (none(t) if none else (NONE if adt == OPT else o)))


def panics(I, st, cond, e, what, **kw):
    if AND(cond, st.live) is not F:
        saved = st.live
        st.live = AND(saved, cond)
        I.ev(st, "panic", e, what=what, **kw)
        st.live = saved


# ---------------------------------------------------------------- identity-like
@model("Deref::deref", "DerefMut::deref_mut", "AsRef::as_ref", "AsMut::as_mut", "Borrow::borrow", "Vec::as_slice", "Vec::as_mut_slice", "String::as_str", "slice::into_vec",
       "hint::must_use", "boxed::box_assume_init_into_vec_unsafe", "Rc::as_ref", "Vec::into_boxed_slice", "String::into_boxed_str",
       "IntoFuture::into_future", "convert::identity", "ManuallyDrop::new", "str::as_str", "Vec::leak", "RefCell::new", "Cell::new")
def m_id(I, args, st, e, ft, crate):
    return args[0]


@model("Box::new", "Rc::new", "Arc::new", "Mutex::new", "Some", "Wrapping", "Pin::new", "Rc::clone", "Arc::clone", "Path::to_path_buf", "PathBuf::as_path", "Path::to_owned",
       "Clone::clone", "ToOwned::to_owned", "slice::to_vec", "str::to_owned", "Option::cloned", "Option::copied", "Option::as_ref", "Option::as_deref",
       "Result::as_ref", "Result::cloned", "Result::copied", "Result::as_deref", "String::into_string", "str::into_string", "str::into_boxed_str", "Path::new", "Rc::unwrap_or_clone",
       "ToString::to_string@str", "RefCell::into_inner", "borrow::ToOwned")
def m_val(I, args, st, e, ft, crate):
    return V(I, st, args[0])


@model("intrinsics::write_box_via_move")
def m_wbox(I, args, st, e, ft, crate):
    return args[1]


@model("Box::new_uninit")
def m_uninit(I, args, st, e, ft, crate):
    return raw("uninit")


@model("mem::drop", "mem::forget", "mem::needs_drop")
def m_drop(I, args, st, e, ft, crate):
    return UNIT


def empty_for(I, ty):
    k = I.coll_kind(ty)
    if k in ("vec", "set", "map", "str"):
        return empty(k) if k != "str" else c("")
    if k == "opt":
        return NONE
    if I.is_bool(ty):
        return c(False)
    if I.is_intty(ty):
        return c(0)
    return None


def default_for(I, ty, st, e, depth=0):
    r = empty_for(I, ty)
    if r is not None:
        return r
    t = I.strip_ty(ty)
    if t["k"] == "tuple" and depth < 6:
        return tup(*[default_for(I, x, st, e, depth + 1) for x in t["a"]])
    if t["k"] == "adt" and depth < 6:
        name = I.tstr(ty)
        ms = [(k, a) for (k, a) in I.P.implmap.items() if k[0] == "std::default::Default" and I.P.bodies.get(a) is not None and k[1] and k[1][0].split("<")[0] == t["p"]]
        if len(ms) == 1:
            body = I.P.bodies[ms[0][1]]
            if not I.is_derived(body):
                return I.call_local(body, [], st, e, None)
            info = I.P.adts.get(t["p"])
            if info and info["kind"] == "struct" and not t["a"]:
                saved = I.fr
                from interp import Frame
                I.fr = Frame(saved.key, body["crate"], saved.env)
                try:
                    return agg(t["p"], info["variants"][0]["v"], [(f[0], default_for(I, f[1], st, e, depth + 1)) for f in info["variants"][0]["f"]])
                finally:
                    I.fr = saved
    if I.tstr(ty) == "char":
        return raw("c", "char", "\0")
    return app("default:" + I.tstr(ty))


@model("Vec::new", "Vec::with_capacity", "HashSet::new", "HashMap::new", "HashSet::with_capacity", "HashMap::with_capacity", "String::new",
       "String::with_capacity", "VecDeque::new", "VecDeque::with_capacity", "BTreeMap::new", "BTreeSet::new", "Default::default")
def m_new(I, args, st, e, ft, crate):
    return default_for(I, e["t"], st, e)


@model("vec::from_elem")
def m_from_elem(I, args, st, e, ft, crate):
    return seq("vec", [raw("rep", V(I, st, args[0]), args[1])]) if not (is_int(args[1]) and args[1].args[1] == 0) else empty("vec")


@model("From::from")
def m_from(I, args, st, e, ft, crate):
    v = args[0]
    ts, fs = ft["a"][0], ft["a"][1]
    k = I.coll_kind(ts)
    if k in ("set", "map") and v.op != "clo":
        return seq(k, segs_of(V(I, st, v)))
    return I.convert(v, fs, ts, crate, st, e)


@model("Into::into")
def m_into(I, args, st, e, ft, crate):
    return I.convert(args[0], ft["a"][0], ft["a"][1], crate, st, e)


@model("TryInto::try_into")
def m_tryinto(I, args, st, e, ft, crate):
    return tryconv(I, args[0], ft["a"][0], ft["a"][1], crate, st, e)


@model("TryFrom::try_from")
def m_tryfrom(I, args, st, e, ft, crate):
    return tryconv(I, args[0], ft["a"][1], ft["a"][0], crate, st, e)


def tryconv(I, v, frm, to, crate, st, e):
    from thir import ty_str
    types = crate.types
    body = I.P.find_impl("std::convert::TryFrom", [ty_str(types, to), ty_str(types, frm)])
    if body is not None:
        return I.call_local(body, [v], st, e, None)
    return app("tryconv:" + ty_str(types, to), V(I, st, v))


# ---------------------------------------------------------------- comparison
@model("PartialEq::eq")
def m_eq(I, args, st, e, ft, crate):
    return B(eq(V(I, st, args[0]), V(I, st, args[1])))


@model("PartialEq::ne")
def m_ne(I, args, st, e, ft, crate):
    return B(NOT(eq(V(I, st, args[0]), V(I, st, args[1]))))


def cmp_op(op):
    def f(I, args, st, e, ft, crate):
        a, b = V(I, st, args[0]), V(I, st, args[1])
        return I.binop(op, a, b, ft["a"][0], e, st)
    return f


for _n, _o in (("lt", "Lt"), ("le", "Le"), ("gt", "Gt"), ("ge", "Ge")):
    MODELS["PartialOrd::" + _n] = cmp_op(_o)


@model("Ord::cmp")
def m_cmp(I, args, st, e, ft, crate):
    a, b = V(I, st, args[0]), V(I, st, args[1])
    if not I.is_intty(ft["a"][0]):
        r = app("Ord::cmp", a, b)
    else:
        o = [agg("std::cmp::Ordering", v, ()) for v in ("Less", "Equal", "Greater")]
        r = ite(eq(a, b), o[1], ite(ge0(sub(b, a)), o[0], o[2]))
    I.compared[r] = (a, b, I.is_intty(ft["a"][0]))
    return r


@model("Ord::max", "cmp::max")
def m_max(I, args, st, e, ft, crate):
    return app("max", *sorted((V(I, st, a) for a in args), key=sk))


@model("Ord::min", "cmp::min")
def m_min(I, args, st, e, ft, crate):
    return app("min", *sorted((V(I, st, a) for a in args), key=sk))


@model("Not::not")
def m_not(I, args, st, e, ft, crate):
    return B(NOT(as_bool(V(I, st, args[0]))))


# ---------------------------------------------------------------- indexing
def do_index(I, args, st, e, mut):
    r, i = args[0], V(I, st, args[1])
    v = V(I, st, r)
    if is_range_agg(i):
        n = i.args[0].split("::")[-1]
        if n == "RangeFull":
            return r if mut else v
        lo = agg_get(i, "start")
        hi = agg_get(i, "end")
        I.ev(st, "slice", e, base=v, lo=lo if lo is not None else c(0), hi=hi if hi is not None else raw("end"), ty=n)
        if n == "RangeFrom" and v.op != "c":
            return skip_(v, lo)
        return raw("slice", v, lo if lo is not None else c(0), hi if hi is not None else raw("end"))
    kind = I.coll_kind(e["args"][0]["t"]) if "args" in e else None
    if kind == "map":
        I.ev(st, "panic", e, what="map index", base=v, key=i)
        return at(v, i)
    I.ev(st, "index", e, base=v, idx=i, ty=kind or I.tstr(e["args"][0]["t"]))
    if mut and r.op == "ref":
        return I.mkref((r.args[0], r.args[1] + (("i", i),)))
    return idx(v, i)


@model("str::split_at", "slice::split_at")
def m_split_at(I, args, st, e, ft, crate):
    v, i = V(I, st, args[0]), V(I, st, args[1])
    I.ev(st, "slice", e, base=v, lo=i, hi=raw("end"), ty="RangeFrom")
    return tup(raw("slice", v, c(0), i), skip_(v, i))


@model("Index::index")
def m_index(I, args, st, e, ft, crate):
    return do_index(I, args, st, e, False)


@model("IndexMut::index_mut")
def m_index_mut(I, args, st, e, ft, crate):
    return do_index(I, args, st, e, True)


# ---------------------------------------------------------------- sizes
@model("Vec::len", "slice::len", "str::len", "String::len", "HashSet::len", "HashMap::len", "VecDeque::len", "ExactSizeIterator::len")
def m_len(I, args, st, e, ft, crate):
    v = V(I, st, args[0])
    if v.op == "it":
        return m_count(I, [v], st, e, ft, crate)
    return length(v)


@model("Vec::is_empty", "slice::is_empty", "str::is_empty", "String::is_empty", "HashSet::is_empty", "HashMap::is_empty", "VecDeque::is_empty")
def m_is_empty(I, args, st, e, ft, crate):
    return B(is_empty(V(I, st, args[0])))


@model("Vec::capacity", "Vec::reserve", "Vec::shrink_to_fit", "String::reserve", "HashMap::reserve", "HashSet::reserve")
def m_noop(I, args, st, e, ft, crate):
    return UNIT


# ---------------------------------------------------------------- vectors
@model("Vec::push", "VecDeque::push_back")
def m_push(I, args, st, e, ft, crate):
    x = args[1]
    upd(I, st, args[0], lambda v: seq("vec", segs_of(v) + [one(TR, x)]))
    return UNIT


def split_last(v):
    """(last element, rest) of an explicitly built list, or None"""
    if v.op == "seq" and v.args[1] and v.args[1][-1].op == "one" and v.args[1][-1].args[0] is TR:
        return v.args[1][-1].args[1], seq(v.args[0], v.args[1][:-1])
    return None


def pop_of(v):
    if v.op == "gate":
        return mapgate(v, pop_of)
    s = split_last(v)
    if s:
        return some(s[0])
    if v.op == "seq" and not v.args[1]:
        return NONE
    return raw("popped", v)


def butlast(v):
    if v.op == "gate":
        return mapgate(v, butlast)
    s = split_last(v)
    if s:
        return s[1]
    if v.op == "seq" and not v.args[1]:
        return v
    return raw("butlast", v)


@model("Vec::pop", "VecDeque::pop_back")
def m_pop(I, args, st, e, ft, crate):
    old = upd(I, st, args[0], butlast)
    I.backs.add(old)
    return pop_of(old)


@model("VecDeque::pop_front")
def m_pop_front(I, args, st, e, ft, crate):
    def rest(v):
        if v.op == "gate":
            return mapgate(v, rest)
        if v.op == "seq" and not v.args[1]:
            return v
        if v.op == "seq" and v.args[1][0].op == "one" and v.args[1][0].args[0] is TR:
            return seq("vec", v.args[1][1:])
        return raw("butlast", v)

    def first(v):
        if v.op == "gate":
            return mapgate(v, first)
        if v.op == "seq" and not v.args[1]:
            return NONE
        if v.op == "seq" and v.args[1][0].op == "one" and v.args[1][0].args[0] is TR:
            return some(v.args[1][0].args[1])
        return raw("popped", v)
    old = upd(I, st, args[0], rest)
    I.fronts.add(old)
    return first(old)


@model("slice::last", "Vec::last")
def m_last(I, args, st, e, ft, crate):
    return pop_of(V(I, st, args[0]))


@model("slice::last_mut", "Vec::last_mut")
def m_last_mut(I, args, st, e, ft, crate):
    r = args[0]
    v = V(I, st, r)
    if r.op != "ref":
        raise Undecided("last_mut")
    s = split_last(v)
    i = sub(length(v), c(1))
    ref = I.mkref((r.args[0], r.args[1] + (("i", i),)))
    return ite(NOT(is_empty(v)), some(ref), NONE)


@model("slice::first", "Vec::first")
def m_first(I, args, st, e, ft, crate):
    return nth(V(I, st, args[0]), c(0))


def nth(v, i):
    if v.op == "gate":
        return mapgate(v, lambda x: nth(x, i))
    if v.op == "seq":
        sg = v.args[1]
        if is_int(i):
            k = i.args[1]
            if len(sg) > k and all(s.op == "one" and s.args[0] is TR for s in sg[:k + 1]):
                return some(sg[k].args[1])
            if len(sg) <= k and all(s.op == "one" and s.args[0] is TR for s in sg):
                return NONE
    if v.op == "skip":
        return nth(v.args[0], add(v.args[1], i))
    if v.op == "range":
        return ite(ge0(sub(sub(v.args[1], add(v.args[0], i)), c(1))), some(add(v.args[0], i)), NONE)
    return raw("nth", v, i)


@model("slice::get", "Vec::get", "HashMap::get", "BTreeMap::get", "HashSet::get")
def m_get(I, args, st, e, ft, crate):
    v, k = V(I, st, args[0]), V(I, st, args[1])
    if I.coll_kind(e["args"][0]["t"]) == "map" if "args" in e and e["args"] else False:
        return map_get(v, k)
    if I.coll_kind_of_fn(ft, crate) == "map":
        return map_get(v, k)
    if I.coll_kind_of_fn(ft, crate) in ("set", "bset"):
        return ite(member(v, k), some(k), NONE)
    if is_range_agg(k):
        return app("get_range", v, k)
    return nth(v, k)


def map_get(m, k):
    if m.op == "gate":
        return mapgate(m, lambda x: map_get(x, k))
    if m.op == "seq":
        if not m.args[1]:
            return NONE
        g = member(m, k)
        if g is F:
            return NONE
        if g is TR:
            return some(at(m, k))
    return raw("get", m, k)


@model("slice::get_mut", "Vec::get_mut")
def m_vget_mut(I, args, st, e, ft, crate):
    r, k = args[0], V(I, st, args[1])
    if r.op != "ref":
        raise Undecided("get_mut")
    v = V(I, st, r)
    return ite(ge0(sub(sub(length(v), k), c(1))), some(I.mkref((r.args[0], r.args[1] + (("i", k),)))), NONE)


@model("HashMap::get_mut", "BTreeMap::get_mut")
def m_hget_mut(I, args, st, e, ft, crate):
    r, k = args[0], V(I, st, args[1])
    if r.op != "ref":
        raise Undecided("get_mut")
    v = V(I, st, r)
    return ite(member(v, k), some(I.mkref((r.args[0], r.args[1] + (("k", k),)))), NONE)


@model("Vec::append")
def m_append(I, args, st, e, ft, crate):
    o = V(I, st, args[1])
    upd(I, st, args[0], lambda v: seq("vec", segs_of(v) + segs_of(o)))
    upd(I, st, args[1], lambda v: empty("vec"))
    return UNIT


@model("Vec::extend_from_slice")
def m_extend_slice(I, args, st, e, ft, crate):
    o = V(I, st, args[1])
    upd(I, st, args[0], lambda v: seq("vec", segs_of(v) + segs_of(o)))
    return UNIT


@model("Extend::extend")
def m_extend(I, args, st, e, ft, crate):
    kind = I.coll_kind(e["args"][0]["t"])
    it = I.mk_iter(args[1], st, e["args"][1]["t"])
    r = args[0]
    if kind is None:
        raise Undecided("extend")

    def body(t, v):
        v = V(I, t, v)
        cur = V(I, t, r)
        I.write_ref(t, r, seq(kind, (str_segs(cur) if kind == "str" else segs_of(cur)) + [one(TR, v)]))
    if it.op == "it" and not it.args[1] and it.args[0].op not in ("mutiter", "chain", "byref", "iota", "rept", "range", "gate"):
        o = it.args[0]
        upd(I, st, r, lambda v: seq(kind, (str_segs(v) + str_segs(seq("str", segs_of(o)))) if kind == "str" else segs_of(v) + segs_of(o)))
        return UNIT
    I.drive(st, it, body, e)
    return UNIT


@model("Vec::clear", "HashSet::clear", "HashMap::clear", "String::clear", "VecDeque::clear")
def m_clear(I, args, st, e, ft, crate):
    k = I.coll_kind(e["args"][0]["t"])
    upd(I, st, args[0], lambda v: empty(k) if k != "str" else c(""))
    return UNIT


@model("Vec::truncate")
def m_truncate(I, args, st, e, ft, crate):
    upd(I, st, args[0], lambda v: empty("vec") if is_int(args[1]) and args[1].args[1] == 0 else raw("truncate", v, args[1]))
    return UNIT


@model("Vec::resize")
def m_resize(I, args, st, e, ft, crate):
    n, x = args[1], V(I, st, args[2])
    upd(I, st, args[0], lambda v: seq("vec", [raw("rep", x, n)]) if v.op == "seq" and not v.args[1] else raw("resize", v, n, x))
    return UNIT


@model("Vec::remove", "Vec::swap_remove")
def m_vremove(I, args, st, e, ft, crate):
    op = "removeat" if ft["p"].endswith("::remove") else "swapremove"
    i = args[1]
    I.ev(st, "index", e, base=V(I, st, args[0]), idx=i, ty="vec")

    def f(v):
        if v.op == "seq" and is_int(i):
            sg = list(v.args[1])
            if len(sg) > i.args[1] and all(s.op == "one" and s.args[0] is TR for s in sg[: i.args[1] + 1]) and op == "removeat":
                del sg[i.args[1]]
                return seq("vec", sg)
        return raw(op, v, i)
    old = upd(I, st, args[0], f)
    return idx(old, i)


@model("Vec::insert")
def m_vinsert(I, args, st, e, ft, crate):
    def f(v):
        if is_int(args[1]) and args[1].args[1] == 0:
            return seq("vec", [one(TR, args[2])] + segs_of(v))
        return raw("insertat", v, args[1], args[2])
    upd(I, st, args[0], f)
    return UNIT


@model("Vec::drain", "HashSet::drain", "HashMap::drain", "String::drain", "VecDeque::drain")
def m_drain(I, args, st, e, ft, crate):
    k = I.coll_kind(e["args"][0]["t"])
    if len(args) > 1:
        r = V(I, st, args[1])
        if not (r.op in ("agg", "zst") and "RangeFull" in str(r.args[0])):
            old = upd(I, st, args[0], lambda v: raw("drained", v, r))
            return mk_it(raw("slice_r", old, r))
    old = upd(I, st, args[0], lambda v: empty(k) if k != "str" else c(""))
    return mk_it(old)


@model("Vec::retain", "HashSet::retain", "Vec::retain_mut")
def m_retain(I, args, st, e, ft, crate):
    k = I.coll_kind(e["args"][0]["t"])
    old = V(I, st, args[0])
    f = args[1]
    cell = I.newcell(st, empty(k))

    def body(t, v):
        g = as_bool(I.call_value(f, [v], t, e))
        if t.dead():
            return
        t.store[cell] = seq(k, segs_of(t.store[cell]) + [one(g, v)])
    I.drive(st, mk_it(old), body, e)
    I.write_ref(st, args[0], st.store[cell])
    return UNIT


def lam(I, f, st, e, n=1):
    """a closure as a first-class summary: lam(b, unit, body)"""
    b = fresh(UNIT)
    s2 = st.copy()
    s2.live = TR
    n0 = len(I.events)
    arg = raw("el", b)
    r = I.call_value(f, [arg] if n == 1 else [fld(arg, str(i)) for i in range(n)], s2, e)
    r = V(I, s2, r)
    return close("lam", b, UNIT, r)


tm.ABS.add("lam")


@model("slice::sort", "slice::sort_unstable", "Vec::sort")
def m_sort(I, args, st, e, ft, crate):
    upd(I, st, args[0], lambda v: tm.sorted_(v))
    return UNIT


@model("slice::sort_by_key", "slice::sort_unstable_by_key", "slice::sort_by_cached_key")
def m_sort_by_key(I, args, st, e, ft, crate):
    k = lam(I, args[1], st, e)
    upd(I, st, args[0], lambda v: tm.sortedby(v, k))
    return UNIT


@model("slice::sort_by", "slice::sort_unstable_by")
def m_sort_by(I, args, st, e, ft, crate):
    b = fresh(UNIT)
    s2 = st.copy()
    s2.live = TR
    xs = [raw("fld", el(b), str(i)) for i in (0, 1)]
    r = V(I, s2, I.call_value(I.deref_val(st, args[1]), xs, s2, e))
    # a comparison of the same key of both
    p = I.compared.get(r)
    if p is not None:
        for sgn, (x, y), (mine, other) in ((1, p[:2], xs), (-1, p[:2], xs[::-1])):
            if not tm._uses(x, other) and tm.replace(x, {mine: other}) is y and (sgn == 1 or p[2]):
                k = tm.replace(x, {mine: el(b)})
                k = close("lam", b, UNIT, k if sgn == 1 else mul(c(-1), k))
                upd(I, st, args[0], lambda v: tm.sortedby(v, k))
                return UNIT
    k = lam(I, args[1], st, e, 2)
    upd(I, st, args[0], lambda v: raw("sortedcmp", v, k))
    return UNIT


@model("slice::reverse")
def m_reverse(I, args, st, e, ft, crate):
    from drive import rev_
    upd(I, st, args[0], rev_)
    return UNIT


@model("Vec::dedup")
def m_dedup(I, args, st, e, ft, crate):
    upd(I, st, args[0], lambda v: raw("dedup", v))
    return UNIT


@model("slice::contains", "HashSet::contains", "HashMap::contains_key", "BTreeSet::contains", "BTreeMap::contains_key", "Vec::contains", "VecDeque::contains")
def m_contains(I, args, st, e, ft, crate):
    return B(member(V(I, st, args[0]), V(I, st, args[1])))


@model("slice::binary_search")
def m_binsearch(I, args, st, e, ft, crate):
    v, x = V(I, st, args[0]), V(I, st, args[1])
    I.ev(st, "binary_search", e, base=v, x=x)
    return ite(member(v, x), ok(tm.posof_(v, x)), err(tm.rank_insert(v, x)))


@model("slice::windows")
def m_windows(I, args, st, e, ft, crate):
    return mk_it(raw("windows", V(I, st, args[0]), args[1]))


@model("slice::chunks")
def m_chunks(I, args, st, e, ft, crate):
    return mk_it(raw("chunks", V(I, st, args[0]), args[1]))


@model("slice::join", "Join::join")
def m_join(I, args, st, e, ft, crate):
    return app("join", V(I, st, args[0]), V(I, st, args[1]))


@model("slice::concat")
def m_concat(I, args, st, e, ft, crate):
    return app("join", V(I, st, args[0]), c(""))


@model("slice::swap")
def m_swap(I, args, st, e, ft, crate):
    i, j = args[1], args[2]
    upd(I, st, args[0], lambda v: store(store(v, i, idx(v, j)), j, idx(v, i)))
    return UNIT


# ---------------------------------------------------------------- sets
@model("HashSet::insert", "BTreeSet::insert")
def m_sinsert(I, args, st, e, ft, crate):
    x = args[1]
    x = V(I, st, x)
    old = upd(I, st, args[0], lambda v: seq("set", segs_of(v) + [one(TR, x)]))
    return B(NOT(member(old, x)))


@model("HashSet::remove", "HashSet::take", "BTreeSet::remove")
def m_sremove(I, args, st, e, ft, crate):
    x = V(I, st, args[1])

    def f(v):
        b = fresh(v)
        r = for_(b, v, [one(NOT(eq(el(b), x)), el(b))])
        return seq("set", r if isinstance(r, list) else [] if r is None else [r])
    old = upd(I, st, args[0], f)
    return B(member(old, x))


def set_filter(a, g):
    b = fresh(a)
    r = for_(b, a, [one(g(el(b)), el(b))])
    return r if isinstance(r, list) else [] if r is None else [r]


@model("HashSet::intersection")
def m_inter(I, args, st, e, ft, crate):
    a, b = V(I, st, args[0]), V(I, st, args[1])
    return mk_it(seq("set", set_filter(a, lambda x: member(b, x))))


@model("HashSet::difference")
def m_diff(I, args, st, e, ft, crate):
    a, b = V(I, st, args[0]), V(I, st, args[1])
    return mk_it(seq("set", set_filter(a, lambda x: NOT(member(b, x)))))


@model("HashSet::union")
def m_union(I, args, st, e, ft, crate):
    a, b = V(I, st, args[0]), V(I, st, args[1])
    return mk_it(seq("set", segs_of(a) + segs_of(b)))


@model("HashSet::symmetric_difference")
def m_symdiff(I, args, st, e, ft, crate):
    a, b = V(I, st, args[0]), V(I, st, args[1])
    return mk_it(seq("set", set_filter(a, lambda x: NOT(member(b, x))) + set_filter(b, lambda x: NOT(member(a, x)))))


@model("HashSet::is_subset", "HashSet::is_superset")
def m_subset(I, args, st, e, ft, crate):
    a, b = V(I, st, args[0]), V(I, st, args[1])
    if ft["p"].endswith("superset"):
        a, b = b, a
    x = fresh(a)
    return B(NOT(any_(x, a, NOT(member(b, el(x))))))


@model("HashSet::is_disjoint")
def m_disjoint(I, args, st, e, ft, crate):
    a, b = V(I, st, args[0]), V(I, st, args[1])
    x = fresh(a)
    return B(NOT(any_(x, a, member(b, el(x)))))


# ---------------------------------------------------------------- maps
@model("HashMap::insert", "BTreeMap::insert")
def m_minsert(I, args, st, e, ft, crate):
    k, x = V(I, st, args[1]), args[2]
    old = upd(I, st, args[0], lambda v: seq("map", segs_of(v) + [one(TR, tup(k, x))]))
    return map_get(old, k)


@model("HashMap::remove", "BTreeMap::remove")
def m_mremove(I, args, st, e, ft, crate):
    k = V(I, st, args[1])
    old = upd(I, st, args[0], lambda v: raw("mapdel", v, k))
    return map_get(old, k)


@model("HashMap::entry", "BTreeMap::entry")
def m_entry(I, args, st, e, ft, crate):
    if args[0].op != "ref":
        raise Undecided("entry")
    return raw("entry", args[0].args[0], args[0].args[1], V(I, st, args[1]))


def entry_or(I, ent, st, mk):
    if ent.op != "entry":
        raise Undecided("entry")
    cell, path, k = ent.args
    m = I.rd(st, (cell, path))

    def fa(t):
        v = mk(t)
        I.wr(t, (cell, path), seq("map", segs_of(I.rd(t, (cell, path))) + [one(TR, tup(k, v))]))
        return UNIT
    I.branch(st, NOT(member(m, k)), fa, lambda t: UNIT)
    return I.mkref((cell, path + (("k", k),)))


@model("Entry::or_insert_with")
def m_oiw(I, args, st, e, ft, crate):
    return entry_or(I, args[0], st, lambda t: I.call_value(args[1], [], t, e))


@model("Entry::or_insert")
def m_oi(I, args, st, e, ft, crate):
    return entry_or(I, args[0], st, lambda t: args[1])


@model("Entry::or_default")
def m_od(I, args, st, e, ft, crate):
    d = default_for(I, e["t"], st, e)
    return entry_or(I, args[0], st, lambda t: d)


def mapside(f):
    def h(I, args, st, e, ft, crate):
        m = V(I, st, args[0])
        b = fresh(m)
        r = for_(b, m, [one(TR, fld(el(b), f))])
        return mk_it(seq("vec", r if isinstance(r, list) else [r]))
    return h


for _n in ("keys", "into_keys"):
    MODELS["HashMap::" + _n] = mapside("0")
for _n in ("values", "into_values"):
    MODELS["HashMap::" + _n] = mapside("1")


# ---------------------------------------------------------------- Option / Result
@model("Option::is_some")
def m_is_some(I, args, st, e, ft, crate):
    return B(is_variant(V(I, st, args[0]), OPT, "Some"))


@model("Option::is_none")
def m_is_none(I, args, st, e, ft, crate):
    return B(is_variant(V(I, st, args[0]), OPT, "None"))


@model("Result::is_ok")
def m_is_ok(I, args, st, e, ft, crate):
    return B(is_variant(V(I, st, args[0]), RES, "Ok"))


@model("Result::is_err")
def m_is_err(I, args, st, e, ft, crate):
    return B(is_variant(V(I, st, args[0]), RES, "Err"))


@model("Option::unwrap", "Option::expect", "Option::unwrap_unchecked")
def m_unwrap(I, args, st, e, ft, crate):
    v = V(I, st, args[0])
    I.ev(st, "unsafe" if ft["p"].endswith("unchecked") else "panic", e, what=ft["p"].split("::")[-1], cond=NOT(is_variant(v, OPT, "Some")), arg=v)
    return pay(v, "Some", "0")


@model("Result::unwrap", "Result::expect")
def m_runwrap(I, args, st, e, ft, crate):
    v = V(I, st, args[0])
    I.ev(st, "panic", e, what=ft["p"].split("::")[-1], cond=NOT(is_variant(v, RES, "Ok")), arg=v)
    return pay(v, "Ok", "0")


@model("Result::unwrap_err", "Result::expect_err")
def m_runwrap_err(I, args, st, e, ft, crate):
    v = V(I, st, args[0])
    I.ev(st, "panic", e, what=ft["p"].split("::")[-1], cond=is_variant(v, RES, "Ok"), arg=v)
    return pay(v, "Err", "0")


@model("Option::map")
def m_omap(I, args, st, e, ft, crate):
    return opt_map(I, st, V(I, st, args[0]), lambda t, p: some(I.call_value(args[1], [p], t, e)))


@model("Option::inspect")
def m_oinspect(I, args, st, e, ft, crate):
    v = V(I, st, args[0])
    opt_map(I, st, v, lambda t, p: I.call_value(args[1], [p], t, e), lambda t: UNIT)
    return v


@model("Option::and_then")
def m_oand(I, args, st, e, ft, crate):
    return opt_map(I, st, V(I, st, args[0]), lambda t, p: I.call_value(args[1], [p], t, e))


@model("Option::map_or")
def m_omapor(I, args, st, e, ft, crate):
    return opt_map(I, st, V(I, st, args[0]), lambda t, p: I.call_value(args[2], [p], t, e), lambda t: args[1])


@model("Option::map_or_else")
def m_omaporelse(I, args, st, e, ft, crate):
    return opt_map(I, st, V(I, st, args[0]), lambda t, p: I.call_value(args[2], [p], t, e), lambda t: I.call_value(args[1], [], t, e))


@model("Option::is_some_and")
def m_issomeand(I, args, st, e, ft, crate):
    return opt_map(I, st, V(I, st, args[0]), lambda t, p: I.call_value(args[1], [p], t, e), lambda t: c(False))


@model("Option::is_none_or")
def m_isnoneor(I, args, st, e, ft, crate):
    return opt_map(I, st, V(I, st, args[0]), lambda t, p: I.call_value(args[1], [p], t, e), lambda t: c(True))


@model("Option::unwrap_or")
def m_uor(I, args, st, e, ft, crate):
    return opt_map(I, st, V(I, st, args[0]), lambda t, p: p, lambda t: args[1])


@model("Option::unwrap_or_else")
def m_uore(I, args, st, e, ft, crate):
    return opt_map(I, st, V(I, st, args[0]), lambda t, p: p, lambda t: I.call_value(args[1], [], t, e))


@model("Option::unwrap_or_default")
def m_uord(I, args, st, e, ft, crate):
    d = default_for(I, e["t"], st, e)
    return opt_map(I, st, V(I, st, args[0]), lambda t, p: p, lambda t: d)


@model("Option::ok_or")
def m_okor(I, args, st, e, ft, crate):
    return opt_map(I, st, V(I, st, args[0]), lambda t, p: ok(p), lambda t: err(args[1]))


@model("Option::ok_or_else")
def m_okore(I, args, st, e, ft, crate):
    return opt_map(I, st, V(I, st, args[0]), lambda t, p: ok(p), lambda t: err(I.call_value(args[1], [], t, e)))


@model("Option::or")
def m_oor(I, args, st, e, ft, crate):
    v = V(I, st, args[0])
    return opt_map(I, st, v, lambda t, p: v, lambda t: args[1])


@model("Option::or_else")
def m_oorelse(I, args, st, e, ft, crate):
    v = V(I, st, args[0])
    return opt_map(I, st, v, lambda t, p: some(p), lambda t: I.call_value(args[1], [], t, e))


@model("Option::and")
def m_oand2(I, args, st, e, ft, crate):
    return opt_map(I, st, V(I, st, args[0]), lambda t, p: args[1])


@model("Option::filter")
def m_ofilter(I, args, st, e, ft, crate):
    v = V(I, st, args[0])

    def f(t, p):
        g = as_bool(I.call_value(args[1], [p], t, e))
        return ite(g, some(p), NONE)
    return opt_map(I, st, v, f)


@model("Option::zip")
def m_ozip(I, args, st, e, ft, crate):
    a, b = V(I, st, args[0]), V(I, st, args[1])
    return ite(AND(is_variant(a, OPT, "Some"), is_variant(b, OPT, "Some")), some(tup(pay(a, "Some", "0"), pay(b, "Some", "0"))), NONE)


@model("Option::flatten")
def m_oflat(I, args, st, e, ft, crate):
    return opt_map(I, st, V(I, st, args[0]), lambda t, p: p)


@model("Option::as_mut", "Option::as_deref_mut")
def m_oasmut(I, args, st, e, ft, crate):
    r = args[0]
    if r.op != "ref":
        return V(I, st, r)
    v = V(I, st, r)
    return ite(is_variant(v, OPT, "Some"), some(I.mkref((r.args[0], r.args[1] + (("v", "Some", "0", OPT),)))), NONE)


@model("Option::take")
def m_otake(I, args, st, e, ft, crate):
    return upd(I, st, args[0], lambda v: NONE)


@model("Option::replace", "Option::insert")
def m_oreplace(I, args, st, e, ft, crate):
    return upd(I, st, args[0], lambda v: some(args[1]))


@model("Result::map")
def m_rmap(I, args, st, e, ft, crate):
    v = V(I, st, args[0])
    return opt_map(I, st, v, lambda t, p: ok(I.call_value(args[1], [p], t, e)), lambda t: err(pay(v, "Err", "0")), RES, "Ok")


@model("Result::map_err")
def m_rmaperr(I, args, st, e, ft, crate):
    v = V(I, st, args[0])
    return opt_map(I, st, v, lambda t, p: ok(p), lambda t: err(I.call_value(args[1], [pay(v, "Err", "0")], t, e)), RES, "Ok")


@model("Result::and_then")
def m_rand(I, args, st, e, ft, crate):
    v = V(I, st, args[0])
    return opt_map(I, st, v, lambda t, p: I.call_value(args[1], [p], t, e), lambda t: err(pay(v, "Err", "0")), RES, "Ok")


@model("Result::or_else")
def m_rore(I, args, st, e, ft, crate):
    v = V(I, st, args[0])
    return opt_map(I, st, v, lambda t, p: ok(p), lambda t: I.call_value(args[1], [pay(v, "Err", "0")], t, e), RES, "Ok")


@model("Result::ok")
def m_rok(I, args, st, e, ft, crate):
    v = V(I, st, args[0])
    return opt_map(I, st, v, lambda t, p: some(p), lambda t: NONE, RES, "Ok")


@model("Result::err")
def m_rerr(I, args, st, e, ft, crate):
    v = V(I, st, args[0])
    return opt_map(I, st, v, lambda t, p: NONE, lambda t: some(pay(v, "Err", "0")), RES, "Ok")


@model("Result::unwrap_or")
def m_ruor(I, args, st, e, ft, crate):
    return opt_map(I, st, V(I, st, args[0]), lambda t, p: p, lambda t: args[1], RES, "Ok")


@model("Result::unwrap_or_else")
def m_ruore(I, args, st, e, ft, crate):
    v = V(I, st, args[0])
    return opt_map(I, st, v, lambda t, p: p, lambda t: I.call_value(args[1], [pay(v, "Err", "0")], t, e), RES, "Ok")


@model("Result::map_or")
def m_rmapor(I, args, st, e, ft, crate):
    return opt_map(I, st, V(I, st, args[0]), lambda t, p: I.call_value(args[2], [p], t, e), lambda t: args[1], RES, "Ok")


@model("Result::map_or_else")
def m_rmaporelse(I, args, st, e, ft, crate):
    v = V(I, st, args[0])
    return opt_map(I, st, v, lambda t, p: I.call_value(args[2], [p], t, e), lambda t: I.call_value(args[1], [pay(v, "Err", "0")], t, e), RES, "Ok")


@model("Result::unwrap_or_default")
def m_ruord(I, args, st, e, ft, crate):
    d = default_for(I, e["t"], st, e)
    return opt_map(I, st, V(I, st, args[0]), lambda t, p: p, lambda t: d, RES, "Ok")


@model("Try::branch")
def m_trybranch(I, args, st, e, ft, crate):
    v = V(I, st, args[0])
    k = I.coll_kind(ft["a"][0])
    if k == "opt":
        return ite(is_variant(v, OPT, "Some"), agg(tm.CF, "Continue", (("0", pay(v, "Some", "0")),)), agg(tm.CF, "Break", (("0", NONE),)))
    if k == "res":
        return ite(is_variant(v, RES, "Ok"), agg(tm.CF, "Continue", (("0", pay(v, "Ok", "0")),)), agg(tm.CF, "Break", (("0", err(pay(v, "Err", "0"))),)))
    raise Undecided("? on an unknown type")


@model("FromResidual::from_residual")
def m_fromres(I, args, st, e, ft, crate):
    v = args[0]
    k = I.coll_kind(ft["a"][0])
    if k == "opt":
        return NONE
    if k == "res":
        types = crate.types
        to = strip(types, ft["a"][0])["a"][1]
        frm = strip(types, ft["a"][1])["a"][1]
        return err(I.convert(pay(v, "Err", "0"), frm, to, crate, st, e))
    raise Undecided("? on an unknown type")


def strip(types, i):
    t = types[i]
    while t["k"] in ("ref", "ptr"):
        t = types[t["t"]]
    return t


@model("bool::then_some")
def m_then_some(I, args, st, e, ft, crate):
    return ite(as_bool(V(I, st, args[0])), some(args[1]), NONE)


@model("bool::then")
def m_then(I, args, st, e, ft, crate):
    return I.branch(st, as_bool(V(I, st, args[0])), lambda t: some(I.call_value(args[1], [], t, e)), lambda t: NONE)


# ---------------------------------------------------------------- memory
@model("mem::take")
def m_take(I, args, st, e, ft, crate):
    d = default_for(I, e["t"], st, e)
    return upd(I, st, args[0], lambda v: d)


@model("mem::replace")
def m_replace(I, args, st, e, ft, crate):
    return upd(I, st, args[0], lambda v: args[1])


@model("mem::swap")
def m_memswap(I, args, st, e, ft, crate):
    a, b = V(I, st, args[0]), V(I, st, args[1])
    I.write_ref(st, args[0], b)
    I.write_ref(st, args[1], a)
    return UNIT


# ---------------------------------------------------------------- strings
@model("String::push", "String::push_str")
def m_pushstr(I, args, st, e, ft, crate):
    x = V(I, st, args[1])
    if x.op == "c" and x.args[0] == "char":
        x = c(x.args[1])
    upd(I, st, args[0], lambda v: seq("str", str_segs(v) + str_segs(x)))
    return UNIT


@model("ToString::to_string", "SpecToString::spec_to_string")
def m_to_string(I, args, st, e, ft, crate):
    v = V(I, st, args[0])
    if I.is_str_ty_c(ft["a"][0], crate) or v.op == "c":
        if v.op == "c" and v.args[0] != "str":
            return c(str(v.args[1]))
        return v
    b = I.P.find_impl("std::fmt::Display", [ty_str(crate.types, ft["a"][0]).lstrip("&")])
    if b is not None and not I.is_derived(b) and len(b["params"]) == 2:
        cell = I.newcell(st, seq("str", []))
        I.call_local(b, [v, I.mkref((cell, ()))], st, e, None)
        return st.store[cell]
    return app("to_string", v)


@model("Argument::new_display")
def m_new_display(I, args, st, e, ft, crate):
    return m_to_string(I, args, st, e, ft, crate)


@model("Argument::new_debug", "Argument::new_lower_hex", "Argument::new_upper_hex")
def m_new_debug(I, args, st, e, ft, crate):
    return app("debug", V(I, st, args[0]))


@model("Arguments::from_str", "Arguments::from_str_nonconst", "Arguments::new_const")
def m_args_str(I, args, st, e, ft, crate):
    return V(I, st, args[0])


@model("Arguments::new")
def m_args_new(I, args, st, e, ft, crate):
    t, a = V(I, st, args[0]), V(I, st, args[1])
    bs = None
    if t.op == "c" and t.args[0] == "bytes":
        bs = list(t.args[1])
    elif t.op == "seq":
        bs = [s.args[1].args[1] if s.op == "one" and s.args[1].op == "c" else None for s in t.args[1]]
    if bs is None or None in bs:
        return app("fmt", t, a)
    els = a.args[1] if a.op == "seq" else None
    if els is None or not all(s.op == "one" for s in els):
        return app("fmt", t, a)
    els = [s.args[1] for s in els]
    i, k = 0, 0
    out = []
    while i < len(bs):
        n = bs[i]
        if n == 0:
            break
        if n <= 127:
            out.append(one(TR, c(bytes(bs[i + 1:i + 1 + n]).decode("utf8", "replace"))))
            i += 1 + n
        elif n == 0x80:      # long literal: two length bytes
            ln = bs[i + 1] | (bs[i + 2] << 8)
            out.append(one(TR, c(bytes(bs[i + 3:i + 3 + ln]).decode("utf8", "replace"))))
            i += 3 + ln
        elif n == 0xC0:
            out += str_segs(els[k])
            k += 1
            i += 1
        else:
            return app("fmt", t, a)
    return seq("str", out)


@model("fmt::format", "alloc::format")
def m_format(I, args, st, e, ft, crate):
    return V(I, st, args[0])


@model("Formatter::write_str", "Write::write_str", "Formatter::write_fmt", "Write::write_fmt")
def m_write_fmt(I, args, st, e, ft, crate):
    x = V(I, st, args[1])
    I.ev(st, "ext", e, name="write_fmt", args=(V(I, st, args[0]), x), path=ft["p"])
    if I.world:
        to = I.tstr(e["args"][0]["t"])
        if "io::" in to or "fs::File" in to:
            where = "out" if "Stdout" in to else "err" if "Stderr" in to else "file"
            I.emit(st, where, x if where != "file" else tup(V(I, st, args[0]), x))
            return ok(UNIT)
    if args[0].op == "ref":
        v = V(I, st, args[0])
        if v.op in ("param", "mu") or (v.op == "seq" and v.args[0] == "str") or v.op == "c" or v.op == "app":
            if I.coll_kind(e["args"][0]["t"]) == "str" or "Formatter" in I.tstr(e["args"][0]["t"]):
                I.write_ref(st, args[0], seq("str", str_segs(v) + str_segs(x)))
    return ok(UNIT)


@model("io::_print", "io::_eprint")
def m_print(I, args, st, e, ft, crate):
    I.emit(st, "out" if ft["p"].endswith("_print") else "err", V(I, st, args[0]))
    return UNIT


@model("File::create", "File::create_new", "fs::write")
def m_create(I, args, st, e, ft, crate):
    vs = [V(I, st, a) for a in args]
    I.emit(st, "file", tup(c(ft["p"].split("::")[-1]), *vs))
    return app("::".join(ft["p"].split("::")[-2:]), *vs)


@model("OpenOptions::new", "File::options")
def m_oonew(I, args, st, e, ft, crate):
    return app("OpenOptions")


@model("OpenOptions::write", "OpenOptions::create", "OpenOptions::truncate", "OpenOptions::append", "OpenOptions::read", "OpenOptions::create_new")
def m_ooset(I, args, st, e, ft, crate):
    v = V(I, st, args[0])
    on = V(I, st, args[1])
    if v.op != "app" or v.args[0] != "OpenOptions" or not (on.op == "c" and on.args[0] == "bool"):
        raise Undecided("open options")
    fl = {x.args[1] for x in v.args[1]}
    n = ft["p"].split("::")[-1]
    fl = fl | {n} if on.args[1] else fl - {n}
    new = app("OpenOptions", *[c(x) for x in sorted(fl)])
    if is_refish(args[0]):
        I.write_ref(st, args[0], new)
        return args[0]
    return new


@model("OpenOptions::open")
def m_ooopen(I, args, st, e, ft, crate):
    v, p = V(I, st, args[0]), V(I, st, args[1])
    if v.op != "app" or v.args[0] != "OpenOptions":
        raise Undecided("open options")
    fl = {x.args[1] for x in v.args[1]}
    if fl == {"write", "create", "truncate"}:
        I.emit(st, "file", tup(c("create"), p))
        return app("File::create", p)
    I.emit(st, "file", tup(c("open_with"), *v.args[1], p))
    return app("File::open_with", *v.args[1], p)


@model("str::chars", "str::lines", "str::bytes", "str::char_indices", "str::split_whitespace")
def m_chars(I, args, st, e, ft, crate):
    v = V(I, st, args[0])
    if ft["p"].endswith("::chars"):
        return mk_it(chars_of(v))
    return mk_it(app("str::" + ft["p"].split("::")[-1], v))


def chars_of(v):
    if v.op == "c" and isinstance(v.args[1], str):
        return seq("vec", [one(TR, raw("c", "char", x)) for x in v.args[1]])
    return app("str::chars", v)


@model("str::repeat")
def m_str_repeat(I, args, st, e, ft, crate):
    return repeat_str(V(I, st, args[0]), V(I, st, args[1]))


def repeat_str(x, n):
    if n.op == "gate":
        return mapgate(n, lambda y: repeat_str(x, y))
    if n is c(0):
        return c("")
    return x if n is c(1) else app("str::repeat", x, n)


@model("num::saturating_sub", "usize::saturating_sub", "u32::saturating_sub", "u64::saturating_sub")
def m_saturating_sub(I, args, st, e, ft, crate):
    a, b = V(I, st, args[0]), V(I, st, args[1])
    if I.tstr(e["t"]) not in ("usize", "u8", "u16", "u32", "u64", "u128"):
        return app("num::saturating_sub", a, b)
    d = sub(a, b)
    return ite(ge0(sub(d, c(1))), d, c(0))


@model("str::starts_with", "str::ends_with", "str::contains")
def m_str_pattern(I, args, st, e, ft, crate):
    """a pattern of characters is a condition on one character; any other pattern stays as it is"""
    n = ft["p"].split("::")[-1]
    v, pat = V(I, st, args[0]), V(I, st, args[1])
    t = I.strip_ty(e["args"][1]["t"]) if "args" in e and len(e["args"]) > 1 else {"k": "?"}
    pred = None
    if t["k"] == "o" and t.get("s") == "char":
        pred = lambda t2, x: eq(x, pat)
    elif t["k"] in ("slice", "array") and I.strip_ty(t.get("t", 0)).get("s") == "char" and pat.op == "seq" and all(y.op == "one" and y.args[0] is TR for y in pat.args[1]):
        pred = lambda t2, x: OR(*[eq(x, y.args[1]) for y in pat.args[1]])
    elif t["k"] in ("closure", "fndef", "fn"):
        pred = lambda t2, x: as_bool(I.call_value(args[1], [x], t2, e))
    if pred is None:
        return app("str::" + n, v, pat)
    cs = chars_of(v)
    if n == "contains":
        return I.drive_exit(st, mk_it(cs), lambda t2, x: (pred(t2, x), c(True)), c(False), e)
    some_ = NOT(eq0(length(cs)))
    x = idx(cs, c(0)) if n == "starts_with" else pay(raw("popped", cs), "Some", "0")
    return B(AND(some_, pred(st, x)))


@model("UnicodeSegmentation::graphemes")
def m_graphemes(I, args, st, e, ft, crate):
    I.ev(st, "graphemes", e, s=V(I, st, args[0]), ext=args[1])
    return mk_it(app("graphemes", V(I, st, args[0]), args[1]))


# ---------------------------------------------------------------- iterators
@model("IntoIterator::into_iter", "slice::iter", "Vec::iter", "HashSet::iter", "HashMap::iter", "BTreeMap::iter", "BTreeSet::iter", "VecDeque::iter", "Option::iter", "Path::iter")
def m_intoiter(I, args, st, e, ft, crate):
    if ft["p"].endswith("::iter"):
        v = V(I, st, args[0])
        if v.op == "it":
            return v
        if "Option" in ft["p"]:
            return mk_it(opt_seq(v))
        return I.into_iter(v, st)
    a = args[0]
    ty = ft["a"][0]
    t = crate.types[ty]
    if a.op == "ref" and not (t["k"] == "ref" and t["m"]):
        inner = V(I, st, a)
        if inner.op != "it":
            a = inner
    if a.op in ("it",):
        return a
    k = I.kind_c(ty, crate)
    if k == "opt":
        return mk_it(opt_seq(V(I, st, a)))
    if k == "res":
        v = V(I, st, a)
        return mk_it(seq("vec", [one(is_variant(v, RES, "Ok"), pay(v, "Ok", "0"))]))
    if a.op == "gate" and is_refish(a):
        a = V(I, st, a)
    return I.into_iter(a, st)


@model("slice::iter_mut", "Vec::iter_mut", "HashMap::iter_mut", "HashMap::values_mut", "Option::iter_mut", "VecDeque::iter_mut")
def m_itermut(I, args, st, e, ft, crate):
    if "HashMap" in ft["p"] or "Option" in ft["p"]:
        raise Undecided("iter_mut over " + ft["p"])
    r = args[0]
    if r.op != "ref":
        raise Undecided("iter_mut")
    return mk_it(raw("mutiter", r.args[0], r.args[1]))


@model("iter::once")
def m_once(I, args, st, e, ft, crate):
    return mk_it(seq("vec", [one(TR, args[0])]))


@model("iter::empty")
def m_itempty(I, args, st, e, ft, crate):
    return mk_it(empty("vec"))


@model("iter::repeat")
def m_repeat(I, args, st, e, ft, crate):
    return mk_it(raw("rept", args[0]))


@model("iter::repeat_n")
def m_repeat_n(I, args, st, e, ft, crate):
    return mk_it(seq("vec", [raw("rep", args[0], args[1])]))


@model("iter::zip")
def m_itzip(I, args, st, e, ft, crate):
    a, b = I.mk_iter(args[0], st, e["args"][0]["t"]), I.mk_iter(args[1], st, e["args"][1]["t"])
    return with_stage(a, stg("zip", b))


def it_of(I, a, st):
    """receiver of an iterator adaptor (by value)"""
    if a.op == "ref":
        return I.into_iter(a, st)
    return I.into_iter(a, st)


def stage(name, nargs):
    def h(I, args, st, e, ft, crate):
        it = it_of(I, args[0], st)
        return with_stage(it, stg(name, *args[1:1 + nargs]))
    return h


for _n in ("map", "filter", "filter_map", "take_while", "map_while", "inspect"):
    MODELS["Iterator::" + _n] = stage(_n, 1)
for _n in ("enumerate", "copied", "peekable", "fuse", "by_ref"):
    MODELS["Iterator::" + _n] = stage(_n, 0)
MODELS["Iterator::cloned"] = lambda I, args, st, e, ft, crate: with_stage(it_of(I, args[0], st), stg("copied"))


@model("Iterator::by_ref")
def m_byref(I, args, st, e, ft, crate):
    return args[0]


@model("Iterator::take", "Iterator::skip")
def m_itake(I, args, st, e, ft, crate):
    return with_stage(it_of(I, args[0], st), stg(ft["p"].split("::")[-1], args[1]))


@model("Iterator::rev")
def m_irev(I, args, st, e, ft, crate):
    it = it_of(I, args[0], st)
    if it.op != "it":
        raise Undecided("rev of a gated iterator")
    base, stages = it.args
    # element-wise stages commute with reversal
    out = []
    for s in stages:
        if s.args[0] in ("map", "filter", "filter_map", "copied", "inspect"):
            out.append(s)
        elif s.args[0] == "enumerate" and not any(x.args[0] in ("filter", "filter_map") for x in stages[:stages.index(s)]) and base.op not in ("chain", "mutiter", "byref"):
            # keep the original positions: pair every element with its index first
            b = fresh(base)
            if any(x.args[0] != "copied" for x in out):
                raise Undecided("rev after enumerate")
            r = for_(b, base, [one(TR, tup(ix(b), el(b)))])
            base = seq("vec", r if isinstance(r, list) else [r])
            out = []
        else:
            raise Undecided("rev after " + s.args[0])
    return raw("it", base, (stg("rev"),) + tuple(out))


@model("Iterator::zip")
def m_izip(I, args, st, e, ft, crate):
    b = I.mk_iter(args[1], st, e["args"][1]["t"])
    return with_stage(it_of(I, args[0], st), stg("zip", b))


@model("Iterator::chain")
def m_ichain(I, args, st, e, ft, crate):
    a = it_of(I, args[0], st)
    b = I.mk_iter(args[1], st, e["args"][1]["t"])
    return mk_it(raw("chain", a, b))


def item_kind(I, ft, crate, e, which):
    return None


@model("Iterator::flat_map")
def m_flat_map(I, args, st, e, ft, crate):
    it = it_of(I, args[0], st)
    # generic args: Self, U, F
    k = I.kind_c(ft["a"][1], crate) if len(ft["a"]) > 1 else None
    s = stg("flat_map", args[1], k) if k in ("opt", "res") else stg("flat_map", args[1])
    return with_stage(it, s)


@model("Iterator::flatten")
def m_flatten(I, args, st, e, ft, crate):
    it = it_of(I, args[0], st)
    k = None
    m = re.search(r"", "")
    ts = I.tstr_c(ft["a"][0], crate)
    # an iterator over options flattens like filter_map
    if re.search(r"(<|,|&)std::option::Option<", ts) and not re.search(r"std::vec::Vec<|HashSet<", ts.split("std::option::Option<")[0]):
        k = "opt"
    if re.search(r"^std::option::IntoIter|^std::option::Iter", ts):
        k = None
    return with_stage(it, stg("flatten", k) if k else stg("flatten"))


@model("Iterator::collect", "FromIterator::from_iter")
def m_collect(I, args, st, e, ft, crate):
    it = I.into_iter(args[0], st) if args[0].op != "seq" else mk_it(args[0])
    return I.drive_collect(st, it, e["t"], e)


@model("Iterator::for_each")
def m_for_each(I, args, st, e, ft, crate):
    I.drive(st, it_of(I, args[0], st), lambda t, v: I.call_value(args[1], [v], t, e), e)
    return UNIT


@model("Iterator::any")
def m_any(I, args, st, e, ft, crate):
    return I.drive_exit(st, it_of(I, args[0], st), lambda t, v: (as_bool(I.call_value(args[1], [v], t, e)), c(True)), c(False), e)


@model("Iterator::all")
def m_all(I, args, st, e, ft, crate):
    return I.drive_exit(st, it_of(I, args[0], st), lambda t, v: (NOT(as_bool(I.call_value(args[1], [v], t, e))), c(False)), c(True), e)


@model("Iterator::find")
def m_find(I, args, st, e, ft, crate):
    return I.drive_exit(st, it_of(I, args[0], st), lambda t, v: (as_bool(I.call_value(args[1], [v], t, e)), some(v)), NONE, e)


@model("Iterator::find_map")
def m_find_map(I, args, st, e, ft, crate):
    def test(t, v):
        r = I.call_value(args[1], [v], t, e)
        return is_variant(r, OPT, "Some"), some(pay(r, "Some", "0"))
    return I.drive_exit(st, it_of(I, args[0], st), test, NONE, e)


@model("Iterator::position")
def m_position(I, args, st, e, ft, crate):
    it = with_stage(it_of(I, args[0], st), stg("enumerate"))
    return I.drive_exit(st, it, lambda t, v: (as_bool(I.call_value(args[1], [fld(v, "1")], t, e)), some(fld(v, "0"))), NONE, e)


@model("Iterator::try_for_each")
def m_try_for_each(I, args, st, e, ft, crate):
    k = I.coll_kind(e["t"])

    def test(t, v):
        r = I.call_value(args[1], [v], t, e)
        if k == "opt":
            return NOT(is_variant(r, OPT, "Some")), NONE
        if k == "res":
            return NOT(is_variant(r, RES, "Ok")), err(pay(r, "Err", "0"))
        raise Undecided("try_for_each")
    return I.drive_exit(st, it_of(I, args[0], st), test, some(UNIT) if k == "opt" else ok(UNIT), e)


@model("Iterator::fold")
def m_fold(I, args, st, e, ft, crate):
    cell = I.newcell(st, args[1])

    def body(t, v):
        t.store[cell] = I.call_value(args[2], [t.store[cell], v], t, e)
    I.drive(st, it_of(I, args[0], st), body, e)
    return st.store[cell]


@model("Iterator::try_fold")
def m_try_fold(I, args, st, e, ft, crate):
    k = I.coll_kind(e["t"])
    cell = I.newcell(st, args[1])

    def test(t, v):
        r = I.call_value(args[2], [t.store[cell], v], t, e)
        if k == "opt":
            t.store[cell] = pay(r, "Some", "0")
            return NOT(is_variant(r, OPT, "Some")), NONE
        t.store[cell] = pay(r, "Ok", "0")
        return NOT(is_variant(r, RES, "Ok")), err(pay(r, "Err", "0"))
    return I.drive_exit(st, it_of(I, args[0], st), test, lambda t: some(t.store[cell]) if k == "opt" else ok(t.store[cell]), e)


@model("Iterator::count")
def m_count(I, args, st, e, ft, crate):
    it = it_of(I, args[0], st)
    if it.op == "it" and all(s.args[0] in ("copied", "rev", "enumerate") for s in it.args[1]) and it.args[0].op not in ("mutiter", "chain", "byref", "iota", "rept"):
        return length(it.args[0])
    cell = I.newcell(st, c(0))

    def body(t, v):
        t.store[cell] = add(t.store[cell], c(1))
    I.drive(st, it, body, e)
    return st.store[cell]


@model("Iterator::sum")
def m_sum(I, args, st, e, ft, crate):
    cell = I.newcell(st, c(0))

    def body(t, v):
        t.store[cell] = add(t.store[cell], V(I, t, v))
    I.drive(st, it_of(I, args[0], st), body, e)
    return st.store[cell]


@model("Iterator::max", "Iterator::min", "Iterator::last")
def m_itmax(I, args, st, e, ft, crate):
    v = I.seq_of(st, it_of(I, args[0], st), "vec", e)
    n = ft["p"].split("::")[-1]
    if n == "last":
        return pop_of(v.args[1][0].args[0] if v.op == "seq" and len(v.args[1]) == 1 and v.args[1][0].op == "all" else v)
    return app("Iterator::" + n, v)


@model("Iterator::max_by_key", "Iterator::min_by_key", "Iterator::max_by", "Iterator::min_by")
def m_itmaxby(I, args, st, e, ft, crate):
    v = I.seq_of(st, it_of(I, args[0], st), "vec", e)
    return app("Iterator::" + ft["p"].split("::")[-1], v, lam(I, args[1], st, e, 2 if "by_key" not in ft["p"] else 1))


@model("Iterator::partition")
def m_partition(I, args, st, e, ft, crate):
    k = I.coll_kind(I.ty(e["t"])["a"][0]) if I.ty(e["t"])["k"] == "tuple" else "vec"
    a, b = I.newcell(st, empty(k)), I.newcell(st, empty(k))

    def body(t, v):
        g = as_bool(I.call_value(args[1], [v], t, e))
        if t.dead():
            return
        t.store[a] = seq(k, segs_of(t.store[a]) + [one(g, v)])
        t.store[b] = seq(k, segs_of(t.store[b]) + [one(NOT(g), v)])
    I.drive(st, it_of(I, args[0], st), body, e)
    return tup(st.store[a], st.store[b])


@model("Iterator::unzip")
def m_unzip(I, args, st, e, ft, crate):
    ts = I.ty(e["t"])["a"]
    ka, kb = I.coll_kind(ts[0]), I.coll_kind(ts[1])
    a, b = I.newcell(st, empty(ka)), I.newcell(st, empty(kb))

    def body(t, v):
        t.store[a] = seq(ka, segs_of(t.store[a]) + [one(TR, fld(v, "0"))])
        t.store[b] = seq(kb, segs_of(t.store[b]) + [one(TR, fld(v, "1"))])
    I.drive(st, it_of(I, args[0], st), body, e)
    return tup(st.store[a], st.store[b])


@model("Iterator::next")
def m_next(I, args, st, e, ft, crate):
    if args[0].op == "ref" and "RangeFrom<" in I.tstr_c(ft["self"], crate) if ft.get("self") is not None else False:
        cur = V(I, st, args[0])
        v = fld(cur, "start")
        I.write_ref(st, args[0], agg("std::ops::RangeFrom", "RangeFrom", [("start", add(v, c(1)))]))
        return some(v)
    return it_next(I, args[0], st, e, c(0))


@model("Iterator::nth")
def m_nth(I, args, st, e, ft, crate):
    return it_next(I, args[0], st, e, args[1])


def it_next(I, r, st, e, n):
    if r.op == "ref":
        it = I.into_iter(V(I, st, r), st)
    else:
        it = I.into_iter(r, st)
    if it.op == "gate":
        raise Undecided("next on a gated iterator")
    base, stages = it.args
    if base.op == "byref":
        raise Undecided("next by reference")
    if base.op == "iota" and not stages:
        v = add(base.args[0], n)
        if r.op == "ref":
            cur = V(I, st, r)
            if cur.op == "agg":
                I.write_ref(st, r, agg(cur.args[0], cur.args[1], [("start", add(v, c(1)))]))
            else:
                I.write_ref(st, r, mk_it(raw("iota", add(v, c(1)))))
        return some(v)
    if base.op not in ("mutiter", "chain", "iota", "rept") and all(s.args[0] in ("map", "copied", "peekable") for s in stages):
        o = nth(base, n)
        if r.op == "ref":
            I.write_ref(st, r, raw("it", skip_(base, add(n, c(1))), stages))

        def f(t, p):
            for s in stages:
                p = I.call_value(s.args[1], [p], t, e) if s.args[0] == "map" else V(I, t, p)
            return some(p)
        return opt_map(I, st, o, f)
    # general pipeline: the first element that gets through
    if not (is_int(n) and n.args[1] == 0):
        raise Undecided("nth on a filtered iterator")
    v = I.drive_exit(st, it, lambda t, x: (TR, some(x)), NONE, e)
    if r.op == "ref":
        I.write_ref(st, r, mk_it(app("rest", raw("itv", base, stages))))
    return v


@model("Iterator::size_hint")
def m_sh(I, args, st, e, ft, crate):
    return app("size_hint", V(I, st, args[0]))


# ---------------------------------------------------------------- calls
@model("Fn::call", "FnMut::call_mut", "FnOnce::call_once")
def m_call(I, args, st, e, ft, crate):
    f, a = args[0], args[1]
    if a.op == "tup":
        xs = list(a.args[0])
    else:
        t = crate.types[ft["a"][1]]
        xs = [fld(a, str(i)) for i in range(len(t["a"]))]
    return I.call_value(f, xs, st, e)


@model("LocalKey::with_borrow", "LocalKey::with_borrow_mut", "LocalKey::with", "LocalKey::take", "LocalKey::set", "LocalKey::replace", "LocalKey::get")
def m_with(I, args, st, e, ft, crate):
    k = V(I, st, args[0])
    kind = ft["p"].split("::")[-1]
    I.ev(st, "borrow", e, key=k, mode=kind, held=tuple(I.borrows))
    cell = I.static_cell(st, k)
    if kind == "take":
        v = st.store[cell]
        st.store[cell] = app("default")
        return v
    if kind in ("set", "replace"):
        old = st.store[cell]
        st.store[cell] = args[1]
        return UNIT if kind == "set" else old
    if kind == "get":
        return st.store[cell]
    I.borrows.append((k, kind))
    try:
        a = I.mkref((cell, ())) if kind == "with_borrow_mut" else (st.store[cell] if kind == "with_borrow" else I.mkref((cell, ())))
        return I.call_value(args[1], [a], st, e)
    finally:
        I.borrows.pop()


@model("RefCell::borrow", "RefCell::borrow_mut", "RefCell::get_mut", "Cell::get_mut")
def m_rcborrow(I, args, st, e, ft, crate):
    if not ft["p"].endswith("::borrow") and not is_refish(args[0]):
        raise Undecided("a cell that is written through a value")
    return args[0]


@model("RefCell::replace", "Cell::replace", "Cell::set", "RefCell::take", "Cell::take")
def m_cellset(I, args, st, e, ft, crate):
    if not is_refish(args[0]):
        raise Undecided("a cell that is written through a value")
    if ft["p"].endswith("take"):
        new = default_for(I, e["t"], st, e)
        if new is None:
            raise Undecided("default value")
    else:
        new = args[1]
    old = upd(I, st, args[0], lambda v: new)
    return UNIT if ft["p"].endswith("set") else old


@model("Cell::get")
def m_cellget(I, args, st, e, ft, crate):
    return V(I, st, args[0])


# ---------------------------------------------------------------- divergence
@model("panicking::panic", "panicking::panic_fmt", "panicking::panic_str", "panicking::unreachable_display", "panicking::assert_failed", "panicking::panic_explicit",
       "rt::begin_panic", "panicking::panic_display", "rt::panic_fmt", "rt::panic_display", "rt::unreachable_display", "rt::panic",
       "rt::assert_failed", "panicking::assert_failed_inner", "panicking::unreachable_default_msg", "rt::unreachable_default_msg", "panicking::panic_str_2015", "panicking::panic_nounwind")
def m_panic(I, args, st, e, ft, crate):
    I.ev(st, "panic", e, what="panic", cond=TR, arg=V(I, st, args[0]) if args else UNIT)
    st.live = F
    return raw("bot")


@model("hint::unreachable_unchecked", "intrinsics::unreachable")
def m_unreach(I, args, st, e, ft, crate):
    I.ev(st, "unsafe", e, what="unreachable_unchecked", cond=TR, arg=UNIT)
    st.live = F
    return raw("bot")


@model("process::exit", "process::abort")
def m_exit(I, args, st, e, ft, crate):
    I.ev(st, "ext", e, name="process::exit", args=tuple(args), path=ft["p"])
    st.live = F
    return raw("bot")


@model("RangeInclusive::new")
def m_ri(I, args, st, e, ft, crate):
    return agg("std::ops::RangeInclusive", "RangeInclusive", (("start", args[0]), ("end", args[1])))


@model("RangeInclusive::contains", "Range::contains", "RangeFrom::contains", "RangeTo::contains")
def m_rcontains(I, args, st, e, ft, crate):
    r, x = V(I, st, args[0]), V(I, st, args[1])
    n = r.args[0].split("::")[-1]
    lo, hi = agg_get(r, "start"), agg_get(r, "end")
    g = TR
    if lo is not None:
        g = AND(g, ge0(sub(x, lo)))
    if hi is not None:
        d = sub(hi, x)
        g = AND(g, ge0(d if n == "RangeInclusive" else sub(d, c(1))))
    return B(g)


# nom: combinators become grammar terms, closures become lam terms
def nomc(name):
    def h(I, args, st, e, ft, crate):
        out = []
        for a in args:
            out.append(gram(I, a, st, e))
        return app("nom:" + name, *out)
    return h


def gram(I, a, st, e):
    a = V(I, st, a)
    if a.op == "tup":
        return raw("tup", tuple(gram(I, x, st, e) for x in a.args[0]))
    if a.op == "clo":
        key, env, fr = I.closures[a]
        body = I.P.bodies.get(key)
        n = len(body["params"]) - 1
        return lam(I, a, st, e, n)
    if a.op == "gate":
        return mapgate(a, lambda x: gram(I, x, st, e))
    return a


for _m, _ns in {"branch": ("alt",), "complete": ("tag", "take_till1", "take_till", "take_while", "take_while1", "char", "line_ending", "not_line_ending", "one_of", "none_of", "satisfy", "newline", "tab", "crlf", "alphanumeric1", "alphanumeric0", "take_until", "tag_no_case",
                                                 "space0", "space1", "multispace0", "multispace1", "anychar", "is_not", "is_a", "take", "digit1", "alpha1"),
                "combinator": ("all_consuming", "eof", "fail", "map", "opt", "recognize", "value", "verify", "map_res", "map_opt", "not", "peek", "success", "cut", "cond", "complete", "into", "rest", "map_parser", "flat_map"),
                "multi": ("many0", "many1", "separated_list0", "separated_list1", "fold_many0", "fold_many1", "many_till", "many0_count", "many1_count", "count"),
                "sequence": ("delimited", "pair", "preceded", "terminated", "tuple", "separated_pair"),
                "Parser": ("and", "or", "and_then", "map", "flat_map", "into")}.items():
    for _n in _ns:
        MODELS[_m + "::" + _n] = nomc(_n)


def _arith(name, fn):
    def m(I, args, st, e, ft, crate):
        a, b = V(I, st, args[0]), V(I, st, args[1])
        if I.tstr(e["t"]) in ("usize", "u8", "u16", "u32", "u64", "i32", "i64", "isize", "u128", "i128"):
            return fn(a, b)
        return app(name, a, b)
    MODELS[name] = m


_arith("Add::add", add)
_arith("Sub::sub", sub)
_arith("Mul::mul", mul)

PURE = {
    "Path::components", "Path::display", "Finish::finish", "fs::read_to_string", "io::stdout", "io::stderr", "Stdout::lock", "Stderr::lock", "io::stdio::stdout",
    "str::trim", "str::repeat", "str::contains", "str::starts_with", "str::ends_with", "str::as_bytes", "char::is_whitespace", "SystemTime::now", "SystemTime::duration_since",
    "Duration::as_millis", "Parser::parse", "str::trim_end", "str::trim_start", "str::split", "PartialOrd::partial_cmp", "Hash::hash", "str::trim_end_matches",
    "construction::from_fn", "Matrix::from_fn", "str::is_char_boundary", "char::len_utf8", "str::char_indices", "str::strip_prefix", "str::strip_suffix",
}
PURE_PREFIX = ("nom::", "str::", "char::", "Path::", "PathBuf::", "f32::", "f64::", "usize::", "CanvasRenderingContext2d::", "Painter::", "Color32::", "Stroke::", "Ui::")
