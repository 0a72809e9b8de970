#!/usr/bin/env python3
"""Development tool: apply each edit of edits*.py to a scratch copy of /repo, run the given checks there.
R* edits keep the behaviour (checks must stay quiet), B* edits break something (should be reported).
run.py [name prefixes] [ids] [-v]"""
import fcntl, os, re, subprocess, sys
from multiprocessing import Pool
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/w/stress" + V.replace("/", "_")


def slot():
    """a scratch folder of this process"""
    global LOCK
    if LOCK is None:
        for n in range(1, 40):
            f = open(f"{W}/{n}.lock", "w")
            try:
                fcntl.flock(f, fcntl.LOCK_EX | fcntl.LOCK_NB)
            except OSError:
                continue
            LOCK = n, f
            break
    return f"{W}/{LOCK[0]}"


LOCK = None


def one(job):
    name, checks, file, pairs, ids, verbose = job
    W2 = slot()
    REPO = W2 + "/repo"
    subprocess.check_call(f"rm -rf {REPO} && mkdir -p {REPO} && cd /repo && tar c --exclude=./target --exclude=.git . | tar x -C {REPO}", shell=True)
    out = []
    todo = file if isinstance(file, list) else [(file, pairs)]
    for fl, ps in todo:
        p = f"{REPO}/{fl}"
        s = open(p).read()
        for a, b in ps:
            if a not in s:
                out.append(f"{name} EDIT DOES NOT APPLY: {a[:60]}")
            s = s.replace(a, b, 1)
        open(p, "w").write(s)
    for c in (ids or checks.split()):
        e = dict(os.environ, VERIF_REPO=REPO, VERIF_CACHE=W2 + "/cache", VERIF_EVIDENCE=W2 + "/evidence")
        e.pop("VERIF_STACK", None)
        r = subprocess.run([sys.executable, V + "/check.py", c], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        lines = [x for x in r.stdout.split("\n") if x.strip()]
        want = 1 if name.startswith("B") else 0
        notes = [x for x in lines if x.startswith("note:")]
        out.append(("good " if r.returncode == want else "BAD  ") + f"{name} {c} rc={r.returncode}" + (" (undecided)" if notes and r.returncode != 1 else ""))
        if r.returncode != want or verbose:
            out += ["      " + x[:500] for x in lines[-8:]]
        elif notes and r.returncode == 0:
            out.append("      " + notes[0][:220])
    return "\n".join(out)


def main():
    a = [x for x in sys.argv[1:] if x != "-v"]
    sel = a[0].split(",") if a else [""]
    ids = a[1].split(",") if len(a) > 1 else None
    g = {}
    for f in sorted(os.listdir(V + "/stress")):
        if f.startswith("edits"):
            exec(open(V + "/stress/" + f).read(), g)
    os.makedirs(W, exist_ok=True)
    jobs = [(n, c, f, p, ids, "-v" in sys.argv) for n, c, f, p in g["EDITS"] if any(n.startswith(s) for s in sel)]
    with Pool(4) as pool:
        for r in pool.imap(one, jobs):
            print(r, flush=True)


if __name__ == "__main__":
    main()
