"""Reduces a flow program (replay file) while a predicate on the compiled result holds.
usage: reduce.py REPLAY.json LEVEL TEXT    (keeps 'compile output contains TEXT')"""
import json, os, subprocess, sys, tempfile, copy
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from vf import flow
C3 = os.environ.get("C3C", "/repo/_build/c3c")


def bad(p, level, text):
    d = tempfile.mkdtemp()
    try:
        open(d + "/t.c3", "w").write(flow.source([(0, p)]))
    except Exception:
        return False
    r = subprocess.run([C3, "compile", "t.c3", "-o", "x", "--threads", "1", "--ansi=no", level, "--stdlib", "/repo/lib"], cwd=d, capture_output=True, text=True)
    out = f"exit {r.returncode} " + r.stdout + r.stderr
    if text.startswith("RUN ") and r.returncode == 0:       # "RUN exit -11": the program ends that way
        try:
            q = subprocess.run([d + "/x"], capture_output=True, text=True, timeout=5)
            out = f"RUN exit {q.returncode} "
        except Exception:
            out = ""
    subprocess.run(["rm", "-rf", d])
    return text in out


def lists(p):
    yield p["main"]
    yield from p["fn"]
    for s in p["st"]:
        for q in ("b", "b2"):
            if isinstance(s.get(q), list):
                yield s[q]
        for cs in s.get("cs", []):
            yield cs["b"]


f, level, text = sys.argv[1:4]
p = json.load(open(f))["replay"]["program"]
assert bad(p, level, text)
ch = True
while ch:
    ch = False
    n = len(list(lists(p)))
    for i in range(n):
        j = 0
        while True:
            l = list(lists(p))[i]
            if j >= len(l):
                break
            q = copy.deepcopy(p)
            ll = list(lists(q))[i]
            sid = ll.pop(j)
            if bad(q, level, text):
                p = q; ch = True; continue
            # hoist children
            s = p["st"][sid - 1]
            done = False
            for kids in [s.get("b"), s.get("b2")] + [c["b"] for c in s.get("cs", [])]:
                if kids and s["k"] in ("blk", "if", "ifcatch", "switch", "bswitch", "loop", "call"):
                    q = copy.deepcopy(p)
                    ll = list(lists(q))[i]
                    ll[j:j + 1] = list(kids)
                    if bad(q, level, text):
                        p = q; ch = True; done = True; break
            if not done:
                j += 1
src = flow.source([(0, p)])
print(src[len(flow.PRELUDE):])
