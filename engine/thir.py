"""Loading of the THIR dumps and a small pretty printer (for reports and debugging)."""
import json, os, re, sys


def norm(k):
    return re.sub(r"::<[^<>]*>", "", k)


class Crate:
    def __init__(self, d):
        self.name = d["crate"]
        self.types = d["types"]
        self.bodies = {b["key"]: b for b in d["bodies"]}
        self.adts = {a["p"]: a for a in d["adts"]}
        self.impls = d["impls"]
        for b in d["bodies"]:
            b["crate"] = self


class Program:
    """All analysed crates."""

    def __init__(self, dump_dir):
        self.crates = {}
        self.bodies = {}
        self.adts = {}
        for f in sorted(os.listdir(dump_dir)):
            if f.endswith(".json"):
                with open(os.path.join(dump_dir, f)) as fh:
                    c = Crate(json.load(fh))
                self.crates[c.name] = c
                self.bodies.update(c.bodies)
                self.adts.update(c.adts)
        self.keymap = {}
        self.derived = {}
        self.implmap = {}
        for c in self.crates.values():
            for k in c.bodies:
                self.keymap.setdefault(norm(k), k)
            for i in c.impls:
                args = tuple(ty_str(c.types, a) for a in i["args"])
                for _, k in i["items"]:
                    self.derived[k] = i["derived"]
                    self.implmap.setdefault((i["trait"], args), k)

    def align(self, S):
        """private fields have no meaning of their own: a field whose name the reference does not know takes the name
        of the one field of its type that the reference has beyond the fields here"""
        ren = {}
        for p, a in self.adts.items():
            s = S.adts.get(p)
            if s is None or a["kind"] != "struct" or len(a["variants"]) != 1 or len(s["variants"]) != 1:
                continue
            mine = {f[0]: ty_str(self.crate_of(p).types, f[1]) for f in a["variants"][0]["f"]}
            ref = {f[0]: ty_str(S.crate_of(p).types, f[1]) for f in s["variants"][0]["f"]}
            new = {n: t for n, t in mine.items() if n not in ref}
            gone = {n: t for n, t in ref.items() if n not in mine}
            for n, t in new.items():
                to = [m for m, u in gone.items() if u == t]
                if len(to) == 1 and sum(u == t for u in new.values()) == 1:
                    ren[(p, n)] = to[0]
        if not ren:
            return
        for p, a in self.adts.items():
            for v in a["variants"]:
                for f in v["f"]:
                    f[0] = ren.get((p, f[0]), f[0])

        def walk(x, types):
            if isinstance(x, dict):
                k = x.get("e")
                if k == "field":
                    t = types[x["a"]["t"]]
                    while t["k"] == "ref":
                        t = types[t["t"]]
                    x["f"] = ren.get((t.get("p"), x["f"]), x["f"])
                elif k == "adt":
                    for f in x["f"]:
                        f[0] = ren.get((x["adt"], f[0]), f[0])
                elif x.get("p") == "leaf" and "subs" in x and "t" in x:
                    t = types[x["t"]]
                    for f in x["subs"]:
                        f[0] = ren.get((t.get("p"), f[0]), f[0])
                for n, y in x.items():
                    if n != "crate" and isinstance(y, (dict, list)):
                        walk(y, types)
            elif isinstance(x, list):
                for y in x:
                    if isinstance(y, (dict, list)):
                        walk(y, types)
        for b in self.bodies.values():
            walk(b, b["crate"].types)

    def crate_of(self, p):
        return next(c for c in self.crates.values() if p in c.adts)

    def find(self, key):
        b = self.bodies.get(key)
        if b is None:
            k = self.keymap.get(norm(key))
            b = self.bodies.get(k) if k else None
        return b

    def find_impl(self, trait, args):
        k = self.implmap.get((trait, tuple(args)))
        return self.bodies.get(k) if k else None

    def ty_str(self, crate, i, depth=0):
        return ty_str(crate.types, i)


def ty_str(types, i):
    t = types[i]
    k = t["k"]
    if k == "adt":
        a = ",".join(ty_str(types, x) for x in t["a"])
        return t["p"] + (f"<{a}>" if a else "")
    if k in ("ref", "ptr"):
        return ("&mut " if t["m"] else "&") + ty_str(types, t["t"])
    if k == "slice":
        return "[" + ty_str(types, t["t"]) + "]"
    if k == "array":
        return "[" + ty_str(types, t["t"]) + ";N]"
    if k == "tuple":
        return "(" + ",".join(ty_str(types, x) for x in t["a"]) + ")"
    if k == "param":
        return t["n"]
    if k == "closure":
        return "closure:" + t["p"]
    if k == "fndef":
        return "fn:" + t["p"]
    return t.get("s", "?")


def show_pat(p):
    k = p["p"]
    if k == "bind":
        s = p["name"] + "#" + p["var"]
        return s + ("@" + show_pat(p["sub"]) if "sub" in p else "")
    if k in ("variant", "leaf"):
        return p.get("v", "") + "{" + ", ".join(f"{n}: {show_pat(x)}" for n, x in p["subs"]) + "}"
    if k == "deref":
        return "&" + show_pat(p["sub"])
    if k == "const":
        return repr(p["val"].get("v", p["val"]))
    if k == "or":
        return " | ".join(map(show_pat, p["pats"]))
    if k == "slice":
        return "[" + ", ".join(map(show_pat, p["pre"])) + (", ..%s" % show_pat(p["mid"]) if "mid" in p else "") + "]"
    return "_" if k == "wild" else k


def show(e, types, ind=0):
    pad = "  " * ind
    if e is None:
        return "∅"
    k = e["e"]
    sh = lambda x: show(x, types, ind)
    if k == "block":
        out = "{\n"
        for s in e["stmts"]:
            if s["s"] == "let":
                out += pad + "  let " + show_pat(s["pat"]) + " = " + (show(s["init"], types, ind + 1) if s["init"] else "_")
                if "els" in s:
                    out += " else " + show(s["els"], types, ind + 1)
                out += ";\n"
            else:
                out += pad + "  " + show(s["e"], types, ind + 1) + ";\n"
        if e["expr"]:
            out += pad + "  " + show(e["expr"], types, ind + 1) + "\n"
        return out + pad + "}" + (":" + e["label"] if "label" in e else "")
    if k == "if":
        return f"if {sh(e['cond'])} {sh(e['then'])}" + (f" else {sh(e['els'])}" if e["els"] else "")
    if k == "call":
        ft = types[e["fty"]]
        f = ft["p"] if ft["k"] == "fndef" else "(" + sh(e["fun"]) + ")"
        return f + "(" + ", ".join(map(sh, e["args"])) + ")"
    if k == "deref":
        return "*" + sh(e["a"])
    if k in ("bin", "logic"):
        return f"({sh(e['l'])} {e['op']} {sh(e['r'])})"
    if k == "un":
        return f"{e['op']}({sh(e['a'])})"
    if k in ("cast", "coerce"):
        return sh(e["a"]) + f" as<{ty_str(types, e['t'])}>"
    if k == "loop":
        return "loop:" + e.get("label", "") + " " + sh(e["body"])
    if k == "let":
        return f"(let {show_pat(e['pat'])} = {sh(e['a'])})"
    if k == "match":
        out = f"match[{e['src']}] {sh(e['a'])} {{\n"
        for a in e["arms"]:
            out += pad + "  " + show_pat(a["pat"]) + (" if " + show(a["guard"], types, ind + 1) if a["guard"] else "") + " => " + show(a["body"], types, ind + 1) + "\n"
        return out + pad + "}"
    if k == "assign":
        return f"{sh(e['l'])} = {sh(e['r'])}"
    if k == "assignop":
        return f"{sh(e['l'])} {e['op']}= {sh(e['r'])}"
    if k == "field":
        return sh(e["a"]) + "." + e["f"]
    if k == "index":
        return f"{sh(e['a'])}[{sh(e['i'])}]"
    if k == "var":
        return "v" + e["id"]
    if k == "upvar":
        return "up" + e["id"]
    if k == "borrow":
        return ("&mut " if e["m"] else "&") + sh(e["a"])
    if k in ("break", "return", "continue"):
        return k + " " + e.get("label", "") + " " + (sh(e["a"]) if e.get("a") else "")
    if k in ("array", "tuple"):
        return ("[" if k == "array" else "(") + ", ".join(map(sh, e["a"])) + ")"
    if k == "adt":
        return e["adt"] + "::" + e["v"] + "{" + ", ".join(f"{n}: {sh(x)}" for n, x in e["f"]) + "}"
    if k == "closure":
        return "closure " + e["p"] + str(e["caps"])
    if k == "lit":
        return repr(e["lit"]["v"])
    if k == "zst":
        return ty_str(types, e["t"])
    if k in ("const", "static"):
        return k + " " + e["p"]
    if k == "repeat":
        return f"[{sh(e['a'])}; {e['n']}]"
    return "<" + k + ">" + e.get("s", "")


def show_body(b):
    c = b["crate"]
    return b["key"] + "(" + ", ".join((show_pat(p["pat"]) if p["pat"] else "_") + ": " + ty_str(c.types, p["t"]) for p in b["params"]) + ") " + show(b["body"], c.types)


if __name__ == "__main__":
    P = Program(sys.argv[1])
    if len(sys.argv) == 2:
        for k in P.bodies:
            print(k)
    for pat in sys.argv[2:]:
        for k, b in P.bodies.items():
            if pat in k:
                print(show_body(b))
                print()
