"""Difference of two canonical summaries, and what a difference means.

`diff(a, b)` lists the smallest differing pairs of subterms.  A pair is *definite* when the actual
side uses only constructs the rules interpret completely; when it contains something the summary
could not resolve (an unmodelled call, an unrecognised loop, ..) the pair proves nothing."""
import terms as tm
from terms import T, N, TR, F, ABS, show, open_
from canon import seg_guard


def support(n):
    return sorted(tm.atoms_of(n), key=lambda a: a.id)


def swap_atom(n, x, y):
    return tm.ite_n(tm.var(y), tm.cof(n, x, True), tm.cof(n, x, False))


def diff(a, b, path=()):
    """[(path, a', b')]"""
    out = []
    _diff(a, b, path, out, set())
    return out


def _diff(a, b, path, out, seen):
    if a is b or (not isinstance(a, (T, N, tuple)) and a == b):
        return
    k = (id(a), id(b))
    if k in seen:
        return
    seen.add(k)
    if isinstance(a, N) and isinstance(b, N):
        sa, sb = support(a), support(b)
        da = [x for x in sa if x not in sb]
        db = [x for x in sb if x not in sa]
        if len(da) == 1 and len(db) == 1 and da[0].op == db[0].op:
            # one atom replaced by another
            sub = []
            _diff(da[0], db[0], path + ("cond",), sub, seen)
            if sub and swap_atom(a, da[0], db[0]) is b:
                out.extend(sub)
                return
        out.append((path, a, b))
        return
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            out.append((path, a, b))
            return
        for i, (x, y) in enumerate(zip(a, b)):
            _diff(x, y, path + (i,), out, seen)
        return
    if isinstance(a, T) and isinstance(b, T) and a.op == b.op == "gate":
        la, lb = list(a.args[0]), list(b.args[0])
        pairs = []
        for x in list(la):
            y = next((y for y in lb if y[1] is x[1] or y[0] is x[0]), None)
            if y is None:
                y = next((y for y in lb if y[1].op == x[1].op and y[1].args[:2] == x[1].args[:2]), None)
            if y is not None:
                pairs.append((x, y))
                la.remove(x)
                lb.remove(y)
        if len(la) == len(lb) and len(la) <= 1:
            pairs += list(zip(la, lb))
            for x, y in pairs:
                if x[0] is not y[0] and len(pairs) == 2 and x is not pairs[0][0]:
                    pass
                else:
                    _diff(x[0], y[0], path + ("when",), out, seen)
                _diff(x[1], y[1], path, out, seen)
            return
        out.append((path, a, b))
        return
    if isinstance(a, T) and isinstance(b, T) and a.op == b.op and len(a.args) == len(b.args):
        if a.op == "seq" and a.args[0] == b.args[0] == "vec":
            # parts under conditions that exclude each other have no order
            ra = [x for x in a.args[1] if x not in b.args[1]]
            rb = [x for x in b.args[1] if x not in a.args[1]]
            if (ra or rb) and any(seg_guard(x) is not TR for x in ra + rb):
                ga, gb = [seg_guard(x) for x in ra], [seg_guard(x) for x in rb]
                both = [g for g in ga if ga.count(g) == gb.count(g) == 1]
                for g in both:
                    _diff(ra[ga.index(g)], rb[gb.index(g)], path + (a.op, a.args[1].index(ra[ga.index(g)])), out, seen)
                ra = [x for x, g in zip(ra, ga) if g not in both]
                rb = [x for x, g in zip(rb, gb) if g not in both]
                if ra or rb:
                    out.append((path + (a.op,), tuple(ra), tuple(rb)))
                return
        ia = 2 if a.op in ("lfp", "for") else 1 if a.op == "seq" and a.args[0] in ("set", "map") else None
        if a.op == "for" and a.args[1] is not b.args[1]:
            ia = None
        if ia is not None and a.args[0] == b.args[0] and len(a.args[ia]) == len(b.args[ia]):
            ra = [x for x in a.args[ia] if x not in b.args[ia]]
            rb = [x for x in b.args[ia] if x not in a.args[ia]]
            for i, (x, y) in enumerate(zip(a.args, b.args)):
                if i != ia:
                    _diff(x, y, path + (a.op,), out, seen)
            for i, (x, y) in enumerate(zip(ra, rb)):
                _diff(x, y, path + (a.op, i), out, seen)
            if not ra and a.args[ia] != b.args[ia] and a.op == "for":
                out.append((path + ("order",), a, b))
            return
        if a.op == "const":
            out.append((path, a, b))
            return
        if a.op in ABS:
            if a.args[0] != b.args[0]:
                out.append((path, a, b))
                return
        n = len(out)
        for i, (x, y) in enumerate(zip(a.args, b.args)):
            if i == 2 and a.op in ABS and a.op != "lfp" and a.args[1] is not b.args[1]:
                # what is done with elements of different collections does not compare
                inner = []
                for u, v in zip(a.args[2:], b.args[2:]):
                    if isinstance(u, (T, N, tuple)):
                        _diff(u, v, path + (a.op,), inner, seen)
                out += [d for d in inner if not (uses_binder(d[1], a.args[0]) or uses_binder(d[2], a.args[0]))]
                return
            if isinstance(x, (T, N, tuple)) or isinstance(y, (T, N, tuple)):
                if type(x) is not type(y):
                    out.append((path + (a.op,), a, b))
                    return
                lab = a.op
                if a.op == "agg" and i == 2:
                    fa, fb = dict(x), dict(y)
                    if set(fa) == set(fb):
                        for f in fa:
                            _diff(fa[f], fb[f], path + (f,), out, seen)
                        continue
                    out.append((path, a, b))
                    continue
                if a.op == "fld":
                    lab = "." + str(a.args[1])
                _diff(x, y, path + (lab,), out, seen)
            elif x != y:
                del out[n:]
                out.append((path, a, b))
                return
        return
    out.append((path, a, b))


def uses_binder(x, b):
    if isinstance(x, tuple):
        return any(uses_binder(y, b) for y in x)
    return isinstance(x, (T, N)) and b in x.fv


def label(path):
    return "/".join(str(p) for p in path)


def brief(x, n=300):
    if isinstance(x, (T, N)):
        s = show(x) if isinstance(x, T) else tm.show_node(x)
    elif isinstance(x, tuple):
        s = "(" + ", ".join(brief(y, n) for y in x) + ")"
    else:
        s = str(x)
    return s if len(s) <= n else s[:n] + "…"


# ---------------------------------------------------------------- what a difference proves
BASE = {"c", "const", "b", "fld", "param", "el", "ix", "idx", "at", "in", "eq", "ge0", "lin", "len", "seq", "for", "one",
        "all", "rep", "any", "first", "agg", "tup", "is", "pay", "lfp", "gate", "range", "before", "masked", "lam"}


def vocab(x, out=None, seen=None):
    """operators used in a term (applications by name, fields and constructors with their names)"""
    out = set() if out is None else out
    seen = set() if seen is None else seen
    if isinstance(x, tuple):
        for y in x:
            vocab(y, out, seen)
        return out
    if isinstance(x, N):
        if x in seen:
            return out
        seen.add(x)
        for a in tm.atoms_of(x):
            vocab(a, out, seen)
        return out
    if not isinstance(x, T) or x in seen:
        return out
    seen.add(x)
    if x.op == "app":
        out.add("app:" + str(x.args[0]))
    elif x.op == "fld":
        out.add("field:" + str(x.args[1]))
    elif x.op == "agg":
        out.add("agg:" + x.args[0] + ":" + ",".join(n for n, _ in x.args[2]))
        for _, v in x.args[2]:
            vocab(v, out, seen)
        return out
    elif x.op == "lfp":
        m = x.args[3].args[1] if x.args[3].op == "c" else "?"
        out.add("lfp" if m == "ok" else "lfp!" + str(m))
        for y in x.args[1:3]:
            vocab(y, out, seen)
        return out
    else:
        out.add(x.op)
    for y in x.args:
        vocab(y, out, seen)
    return out


SHARED = set()     # constructors the reference defines too
SURE = {"preset", "unchecked", "unrecorded", "recorded differently", "coarse key"}


class Verdict:
    def __init__(self, status, detail="", diffs=()):
        self.status, self.detail, self.diffs = status, detail, list(diffs)


# operations that are meaningful in themselves: one that the reference does not have changes the result
MEANINGFUL = {"eq0", "popped", "visitedat", "app:str::trim", "app:str::trim_end", "app:str::trim_start", "app:str::to_lowercase", "app:str::to_uppercase",
              "app:str::to_ascii_lowercase", "app:str::to_ascii_uppercase", "skip", "take", "butlast", "windows", "mapdel",
              "tst", "cmp", "app:min", "app:max", "app:f32::min", "app:f32::max", "app:f32::abs", "app:str::contains", "app:str::starts_with", "app:str::ends_with", "app:str::replace", "app:str::replacen",
              "app:str::split", "app:str::split_terminator", "app:str::split_inclusive", "app:str::split_whitespace", "app:str::lines",
              "app:str::trim_start_matches", "app:str::trim_end_matches", "app:str::trim_matches", "app:str::repeat", "app:File::open_with",
              "app:File::create", "app:File::create_new", "app:classsize", "app:str::chars", "app:bitand", "app:rem", "app:div", "app:shr", "app:cast8", "app:cast16", "app:cast32",
              "app:num::saturating_sub"}


def undefined(x, seen=None):
    """an element of an empty collection occurs"""
    seen = set() if seen is None else seen
    if isinstance(x, tuple):
        return any(undefined(y, seen) for y in x)
    if isinstance(x, N):
        return any(undefined(a, seen) for a in tm.atoms_of(x)) if x not in seen and not seen.add(x) else False
    if not isinstance(x, T) or x in seen:
        return False
    seen.add(x)
    if x.op == "at" and x.args[0].op == "seq" and not x.args[0].args[1]:
        return True
    return any(undefined(y, seen) for y in x.args)


def all_atoms(x, out=None, seen=None):
    """every atom that occurs anywhere in a term"""
    out = {} if out is None else out
    seen = set() if seen is None else seen
    if isinstance(x, tuple):
        for y in x:
            all_atoms(y, out, seen)
    elif isinstance(x, N):
        if x not in seen:
            seen.add(x)
            for a in tm.atoms_of(x):
                out[a] = None
                all_atoms(a, out, seen)
    elif isinstance(x, T) and x not in seen:
        seen.add(x)
        for y in x.args:
            all_atoms(y, out, seen)
    return out


def owners(x):
    """what an alphabet is taken from"""
    out, seen = set(), set()
    todo = [x]
    while todo:
        y = todo.pop()
        if isinstance(y, tuple):
            todo.extend(y)
        elif isinstance(y, (T, N)) and y not in seen:
            seen.add(y)
            if isinstance(y, N):
                todo.extend(tm.atoms_of(y))
            else:
                if y.op == "fld" and y.args[1] == "alphabet":
                    out.add(y.args[0])
                todo.extend(z for z in y.args if isinstance(z, (T, N, tuple)))
    return frozenset(out)


def unifier(a):
    """what the truth of an atom lets us replace"""
    if a.op == "eq0":
        x = a.args[0]
        if x.op == "len" and x.args[0].op in ("fld", "param", "at", "pay"):
            return {x.args[0]: tm.empty("vec")}
        d, k = tm.lin_parts(x)
        for y, n in d.items():
            if n in (1, -1) and y.op in ("fld", "param", "at", "pay"):
                return {y: tm.mul(tm.c(-n), tm.sub(x, tm.mul(tm.c(n), y)))}
    if a.op == "eq":
        for x, y in ((a.args[0], a.args[1]), (a.args[1], a.args[0])):
            if x.op in ("fld", "param"):
                return {x: y}
    if a.op == "any":
        return {a: TR}
    return None


def judge(actual, expected, extra=(), depth=0):
    """ok / violation / undecided"""
    if actual is expected:
        return Verdict("ok")
    if depth == 0:
        # every row of transitions has one entry for each symbol of the alphabet
        X = owners(actual) | owners(expected)
        joins = "app:join" in vocab(actual) | vocab(expected)
        if X or joins:
            import canon as cn
            try:
                x, y = cn.canon(actual, None, X, joins), cn.canon(expected, None, X, joins)
            except (tm.Undecided, KeyError, AttributeError, TypeError, IndexError, ValueError, AssertionError):
                x = y = None
            if x is not None and x is y:
                return Verdict("ok")
    if depth < 3:
        ea = all_atoms(expected)
        split = [a for a in all_atoms(actual) if a not in ea and not a.fv and unifier(a)]
        split.sort(key=tm.sk)
        if split:
            return by_cases(actual, expected, extra, split[0], depth)
    return judge1(actual, expected, extra)


def by_cases(actual, expected, extra, a, depth):
    import canon as cn
    out = []
    known = BASE | MEANINGFUL | SHARED | vocab(expected) | set(extra)
    strange = [o for o in vocab(a) if o == "while" and o not in known]      # a loop that was not recognised
    for val, m in ((True, unifier(a)), (False, {a: F})):
        try:
            f = {a: val} if a.op == "any" else None
            x, y = cn.canon(tm.replace(actual, m), f), cn.canon(tm.replace(expected, m) if val and not f else expected, f)
        except (tm.Undecided, KeyError, AttributeError, TypeError, IndexError, ValueError, AssertionError) as e:
            return judge1(actual, expected, extra)
        if val and undefined(y):
            continue
        v = judge(x, y, extra, depth + 1)
        v.detail = f"when {'' if val else 'not '}{brief(a, 80)}: " + v.detail
        if strange and v.status == "violation":
            v.status, v.detail = "undecided", f"depends on {strange[:3]}: " + v.detail
        out.append(v)
    for s in ("violation", "undecided"):
        for v in out:
            if v.status == s:
                return v
    return Verdict("ok")


def first_found(y):
    """position of the seed of a work list among what is found"""
    if y.op not in ("at", "idx", "pay") or not isinstance(y.args[0], T) or y.args[0].op != "seq" or len(y.args[0].args[1]) != 1:
        return False
    f = y.args[0].args[1][0]
    return f.op == "for" and f.args[1].op == "lfp" and f.args[1].args[1] is tm.seq("set", [tm.one(TR, y.args[1])])


def memories(x, out=None, seen=None):
    """how many variables the closures in a term keep"""
    out = set() if out is None else out
    seen = set() if seen is None else seen
    if isinstance(x, tuple):
        for y in x:
            memories(y, out, seen)
    elif isinstance(x, (T, N)) and x not in seen:
        seen.add(x)
        if isinstance(x, N):
            memories(tuple(tm.atoms_of(x)), out, seen)
        else:
            if x.op == "lam":
                out.add(len({z.args[1] for z in subterms(x.args[2:]) if z.op == "fld" and z.args[0].op == "el" and str(z.args[1]).startswith("c")}))
            memories(x.args, out, seen)
    return out


def subterms(x):
    todo, seen = [x], set()
    while todo:
        y = todo.pop()
        if isinstance(y, tuple):
            todo.extend(y)
        elif isinstance(y, N):
            todo.extend(tm.atoms_of(y))
        elif isinstance(y, T) and y not in seen:
            seen.add(y)
            yield y
            todo.extend(y.args)


def judge1(actual, expected, extra=()):
    known = BASE | MEANINGFUL | SHARED | vocab(expected) | set(extra)
    ds = diff(actual, expected)
    unk = []
    for p, x, y in ds:
        v = vocab(x)
        bad = [o for o in v if not (o in known or o.startswith('lfp!') and set(o[4:].split(',')) <= SURE or o.startswith("field:") and o[6:].isdigit())]
        if bad == ["rev"] and "fold" not in p and p and p[-1] == "for" and x.op == "rev" and x.args[0] is y:
            bad = []        # the same elements the other way round
        if not bad and x is tm.c(0) and isinstance(y, T) and first_found(y):
            bad = ["order of discovery"]
        if not bad:
            if any(z.op == "last" for z in subterms(y)) and any(z.op == "idx" and z.args[1].op == "first" for z in subterms(x)):
                bad = ["uniqueness"]
            mx, my = memories(x), memories(y)
            if mx and my and mx != my:
                bad = ["what a closure remembers"]
        if not bad:
            return Verdict("violation", f"at {label(p)}: expected {brief(y)}; found {brief(x)}", ds)
        unk.append((p, sorted(bad)[:4]))
    return Verdict("undecided", "; ".join(f"at {label(p)}: not understood {b}" for p, b in unk[:3]), ds)
