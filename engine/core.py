"""Obligations, their verdicts, and the report of one check."""
import json, os, re, signal, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import terms as tm
from terms import *
import canon as cn
import compare as cmp
import thir
from thir import Program
from interp import Interp, St
import prepare

V = prepare.V
EVIDENCE = os.environ.get("VERIF_EVIDENCE", os.path.join(V, "evidence"))
MASKS = {
    "dfa_names": {("dandy::dfa::DfaState", "name")},
    "nfa_names": {("dandy::nfa::NfaState", "name")},
}
MASKS["only_names"] = {(t + "State", f) for t in ("dandy::dfa::Dfa", "dandy::nfa::Nfa") for f in ("initial", "accepting", "transitions", "epsilon_transitions")} \
    | {(t, f) for t in ("dandy::dfa::Dfa", "dandy::nfa::Nfa") for f in ("alphabet", "initial_state")}
MASKS["names"] = MASKS["dfa_names"] | MASKS["nfa_names"]


class Timeout(Exception):
    pass


def _alarm(*_):
    raise Timeout("time limit")


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.repo_dir, self.spec_dir = prepare.prepare()
        self.P = Program(self.repo_dir)
        self.S = Program(self.spec_dir)
        cmp.SHARED |= {"agg:" + a["p"] + ":" + ",".join(sorted(f[0] for f in v["f"])) for a in self.S.adts.values() for v in a["variants"]
                       if a["p"].startswith("dandy")}
        self.P.align(self.S)
        self.wholes = {}
        self.feet = {}
        self.results = []
        self.cache = {}
        self.funcs = set()
        self.extra = set()
        for a in self.S.adts.values():
            for v in a["variants"]:
                for f in v["f"]:
                    self.extra.add("field:" + f[0])
        signal.signal(signal.SIGALRM, _alarm)

    # -------------------------------------------------------------- summaries
    def where(self, key):
        b = self.P.find(key)
        return f"{b['name'] if b else key} ({b['sp'] if b else '?'})"

    def summary(self, P, key, mask=(), limit=120, opaque=(), events=False):
        k = (id(P), key, frozenset(mask), frozenset(opaque))
        if k in self.cache:
            r = self.cache[k]
            if isinstance(r, Exception):
                raise r
            return r
        old = set(tm.MASK)
        tm.MASK.clear()
        for m in mask:
            tm.MASK.update(MASKS[m])
        signal.alarm(limit)
        try:
            I = Interp(P)
            I.footprint = self.footprint
            for o in opaque:
                I.opaque.add(o)
            body = P.find(key)
            st = St({}, TR)
            if not key.lstrip("<").startswith(("dandy::", "dandy_draw::")):
                I.open_world(st)
            args = []
            for i, p in enumerate(body["params"]):
                n = "self" if (p["pat"] and p["pat"].get("name") == "self") else f"a{i}"
                args.append(I.sym_param(body, p, raw("param", n), st))
            v, st, args = I.run(key, args, st)
            out = {"ret": v}
            for i, a in enumerate(args):
                if a.op == "ref":
                    out[f"arg{i}"] = I.rd(st, (a.args[0], a.args[1]))
            for n, w in I.world.items():
                out[n] = st.store[w]
            for k_, w in I.statics.items():
                out["static:" + str(k_.args[0] if k_.op == "static" else k_)] = st.store.get(w, I.lazy[w])
            out = {s: cn.canon(x) for s, x in out.items()}
            out["unknown"] = set(I.unknown)
            out["events"] = I.events
            if P is self.P:
                self.funcs |= set(getattr(I, "visited", ())) | {body["key"]}
            r = out
        except (Undecided, Timeout, RecursionError, KeyError, AttributeError, TypeError, IndexError, ValueError, AssertionError) as e:
            r = Undecided(f"{type(e).__name__}: {str(e)[:150]}")
        finally:
            signal.alarm(0)
            tm.MASK.clear()
            tm.MASK.update(old)
        self.cache[k] = r
        if isinstance(r, Exception):
            raise r
        return r

    def footprint(self, key):
        """for every parameter of a function that is never expanded: the fields it reads and the fields it leaves alone"""
        if key not in self.wholes:
            return {}
        if key not in self.feet:
            self.feet[key] = {}
            mask, whole = self.wholes[key]
            try:
                sums = [self.summary(P, key, mask, 120, whole) for P in (self.P, self.S)]
                self.feet[key] = join_feet([feet(s) for s in sums])
            except Undecided:
                pass
        return self.feet[key]

    # -------------------------------------------------------------- verdicts
    def add(self, ob, status, where, rule, detail=""):
        self.results.append({"obligation": ob, "status": status, "where": where, "rule": rule, "detail": detail})

    def ok(self, ob, where, rule):
        self.add(ob, "ok", where, rule)

    def bad(self, ob, where, rule, detail):
        self.add(ob, "violation", where, rule, detail)

    def unknown(self, ob, where, rule, detail):
        self.add(ob, "undecided", where, rule, detail)

    def check(self, ob, cond, where, rule, detail=""):
        (self.ok(ob, where, rule) if cond else self.bad(ob, where, rule, detail))

    # -------------------------------------------------------------- obligations
    def same(self, key, slots=("ret",), mask=(), proj=None, spec=None, alts=(), opaque=(), ob=None, limit=120, whole=()):
        """the summary of a repository function is that of its reference function.
        opaque: helpers that have an obligation of their own; when the summary cannot be decided with them
        expanded, it is compared once more with calls to them left as they are.
        whole: such helpers that are never expanded"""
        skey = spec or key
        name = ob or re.sub(r"^dandy(_\w+)?::", "", key)
        rule = "value-flow summary equals the reference summary"
        assert self.S.find(skey) is not None, skey
        for k, sk_ in [(key, skey)] + [(w, w) for w in whole]:
            if self.P.find(k) is None:
                self.unknown(name, k, rule, f"there is no function {k}")
                return
            if self.shape(self.P, k) != self.shape(self.S, sk_):
                self.unknown(name, k, rule, f"{k} takes {self.shape(self.P, k)}, its reference {self.shape(self.S, sk_)}")
                return
        self.wholes[key] = (mask, whole)
        sps = [skey] + [skey.rsplit("::", 1)[0] + "::" + x if "::" not in x else x for x in alts]
        first = self.compare(key, sps, slots, mask, proj, whole, limit)
        if opaque and any(v.status == "undecided" for v in first.values()):
            again = self.compare(key, sps, slots, mask, proj, tuple(whole) + tuple(opaque), limit)
            for s in slots:
                if first[s].status == "undecided" and (again[s].status == "ok" or again[s].status == "violation" and again[s].calls):
                    first[s] = again[s]
        if all(v.status == "ok" for v in first.values()) and any(getattr(v, "which", skey) != skey for v in first.values()) and not mask and proj is None:
            self.settled(key, skey)
        for s in slots:
            o, v = name if s == "ret" else f"{name} effect on {s}", first[s]
            if v.status == "ok":
                self.ok(o, self.where(key), rule)
            elif v.status == "undecided":
                self.unknown(o, self.where(key), rule, v.detail)
            else:
                self.bad(o, self.where(key), rule, v.detail)

    def settled(self, key, skey):
        """a function shown to agree with an alternative reference is read as the reference from here on"""
        if key != skey:
            return
        mine, ref = self.P.find(key), self.S.find(skey)
        for k in [k for k, b in self.P.bodies.items() if b is mine]:
            self.P.bodies[k] = ref
        for k, b in self.S.bodies.items():
            if k.startswith(skey + "::{closure"):
                self.P.bodies[k] = b
        self.cache.clear()

    def shape(self, P, key):
        """types of the parameters, without lifetimes and without what names a generic parameter"""
        b = P.find(key)
        out = []
        for p in b["params"]:
            t = thir.ty_str(b["crate"].types, p["t"])
            out.append(re.sub(r"'\w+ ?|impl .*|<>", "", t))
        return out

    def compare(self, key, sps, slots, mask, proj, opaque, limit):
        """slot -> verdict"""
        try:
            a = self.summary(self.P, key, mask, limit, opaque)
            bs = [self.summary(self.S, s, mask, 600, opaque) for s in sps]
        except Undecided as e:
            return {s: cmp.Verdict("undecided", str(e)) for s in slots}
        out = {}
        for s in slots:
            x = a.get(s)
            vs = []
            for b in bs:
                y = b.get(s)
                xx, yy = x, y
                if proj is not None:
                    try:
                        xx, yy = proj(x), proj(y)
                    except Undecided as e:
                        vs.append(cmp.Verdict("undecided", str(e)))
                        continue
                if isinstance(xx, dict):
                    vs.append(self.judge_dict(xx, yy))
                else:
                    vs.append(cmp.judge(xx, yy, self.extra))
            for v, k in zip(vs, sps):
                v.which = k
            v = next((v for v in vs if v.status == "ok"), None) or next((v for v in vs if v.status == "undecided"), None) or min(vs, key=lambda v: len(v.diffs))
            if opaque:
                voc = cmp.vocab(tuple(x.values()) if isinstance(x, dict) else x)
                v.calls = any(o.startswith("app:op:") for o in voc)
            out[s] = v
        return out

    def judge_dict(self, xs, ys):
        out = []
        for k in ys:
            if k not in xs:
                return cmp.Verdict("undecided", f"part {k} missing")
            out.append((k, cmp.judge(xs[k], ys[k], self.extra)))
        for k, v in out:
            if v.status == "violation":
                return cmp.Verdict("violation", f"[{k}] {v.detail}", v.diffs)
        for k, v in out:
            if v.status == "undecided":
                return cmp.Verdict("undecided", f"[{k}] {v.detail}", v.diffs)
        return cmp.Verdict("ok")


# ---------------------------------------------------------------- footprints
def param_uses(x, p, out, seen):
    """fields of the parameter that occur; None for the parameter as a whole"""
    if isinstance(x, tuple):
        for y in x:
            param_uses(y, p, out, seen)
    elif isinstance(x, N):
        if x not in seen:
            seen.add(x)
            for a in tm.atoms_of(x):
                param_uses(a, p, out, seen)
    elif isinstance(x, T) and x not in seen:
        seen.add(x)
        if x is p:
            out.add(None)
        elif x.op == "fld" and x.args[0] is p:
            out.add(x.args[1])
        else:
            for y in x.args:
                param_uses(y, p, out, seen)


def feet(s):
    """parameter number -> (fields read, fields written)"""
    out = {}
    for k, v in s.items():
        if not k.startswith("arg") or v.op != "agg" or len(tm.ADTS.get(v.args[0], ())) != 1:
            continue
        i = int(k[3:])
        for p in (raw("param", "self") if i == 0 else None, raw("param", f"a{i}")):
            if p is None:
                continue
            same_ = {f for f, x in v.args[2] if x is fld(p, f)}
            if not same_:
                continue
            reads = set()
            for k2, v2 in s.items():
                if k2 in ("unknown", "events"):
                    continue
                if k2 == k:
                    v2 = tuple(x for f, x in v.args[2] if f not in same_)
                param_uses(v2, p, reads, set())
            if None not in reads:
                out[i] = (reads, {f for f, _ in v.args[2]} - same_)
    return out


def join_feet(fs):
    return {i: (set.union(*[f[i][0] for f in fs]), set.union(*[f[i][1] for f in fs])) for i in fs[0] if all(i in f for f in fs)}


# ---------------------------------------------------------------- projections
def ok_part(variant):
    def f(t):
        g, v = tm.F, None
        for h, x in tm.leaves(t):
            if x.op != "agg":
                raise Undecided("result is not a plain choice of variants")
            if x.args[1] == variant:
                g = tm.OR(g, h)
                v = x if v is None else v
                if v is not x:
                    raise Undecided("several payloads")
        if v is None:
            raise Undecided(f"never {variant}")
        return {"when": tm.B(g), "payload": v}
    return f


def fields(*names):
    """only these components of a structure (below Some/Ok)"""
    def f(t):
        out = {}
        for n in names:
            x = t
            for p in n.split("."):
                if p.startswith("!"):
                    x = tm.pay(x, *_variant(p[1:]))
                else:
                    x = tm.fld(x, p)
            out[n] = x
        return out
    return f


def _variant(v):
    return {"Some": (tm.OPT, "Some"), "Ok": (tm.RES, "Ok"), "Err": (tm.RES, "Err")}[v]


# ---------------------------------------------------------------- run
def known_findings():
    p = os.path.join(V, "known-findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"known": [], "fixed": []}


def finish(ctx, tier, t0, explanation, technique):
    prop = ctx.prop
    bad = [r for r in ctx.results if r["status"] == "violation"]
    und = [r for r in ctx.results if r["status"] == "undecided"]
    good = [r for r in ctx.results if r["status"] == "ok"]
    known = [k for k in known_findings()["known"] if k["property"] == prop]
    hit, new = [], []
    for r in bad:
        k = next((k for k in known if k["obligation"] == r["obligation"] and k.get("detail", "") in r["detail"]), None)
        (hit if k else new).append((r, k))
    os.makedirs(EVIDENCE, exist_ok=True)
    rep = os.path.join(EVIDENCE, f"{prop}.report.txt")
    with open(rep, "w") as f:
        f.write(f"property {prop}: {explanation}\n\n")
        for r in ctx.results:
            f.write(f"[{r['status']}] {r['obligation']}\n    at   {r['where']}\n    rule {r['rule']}\n" + (f"    {r['detail']}\n" if r["detail"] else ""))
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": {
            "explanation": explanation,
            "technique": technique,
            "obligations": len(ctx.results),
            "discharged": len(good),
            "undecided": len(und),
            "known_findings": len(hit),
            "functions_analysed": sorted(ctx.funcs),
            "rules": sorted({r["rule"] for r in ctx.results}),
            "samples": [f"{r['obligation']} @ {r['where']}: {r['status']}" for r in ctx.results[:400]],
        },
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    with open(os.path.join(EVIDENCE, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    for r, k in hit:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for r in und:
        print(f"note: not decided: {r['obligation']} at {r['where']}: {r['detail'][:300]}")
    for r, _ in new:
        print(f"{prop} broken: {r['obligation']} at {r['where']}\n   rule: {r['rule']}\n   {r['detail'][:1500]}")
    print(f"{prop}: {len(good)} of {len(ctx.results)} obligations hold, {len(und)} undecided, {len(hit)} known, {len(new)} violated")
    if new:
        print(f"VIOLATION property={prop} replay={rep}")
        return 1
    if not ctx.results:
        print(f"{prop}: no obligation was generated")
        return 2
    return 0
