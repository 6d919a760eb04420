"""C22: parameter files and queries generated from Para.tla, run against the real reader, validated by ParaTrace.tla."""
import random, subprocess
from vlib import *

KEY = {"n": "Number of things:", "d": "Element height:", "w": "Output name:", "f": "Use flag:", "t": "Title size:",
       "v": "Add vector:", "u": "Define shape:"}
MAT = {"m": ("Define item edges:", "End item edges"), "r": ("Define table:", "End table")}
COMMENTS = ["", "", "", "", "# note", "# a, 5, 6, 7", "# Number of things: 77 Element height: 7 Add vector: 7, 7, 7", "#End mesh, End table, Define mesh:"]

def token(p, t):
    if t == 9998: return ""
    if t == 9999: return "" if p == "w" else "abc"
    if p in ("n", "f", "m"): return str(t)
    if p == "w": return "w%d" % t
    return "%g" % (t/4)

def text(l):
    k, p, s = l["k"], l["p"], l["s"]
    ind = ["", "  ", "\t", "    "][s]
    com = COMMENTS[l["c"]]
    if k == "blank": return ["", "   ", "\t", " \t "][s]
    if k == "comment": return ind + (com or "# " + list(KEY.values())[l["c"]] + " 55") 
    tail = (" " if com else "") + com
    if k == "bs": return ind + "Define mesh:" + tail
    if k == "be": return ind + "End mesh" + tail
    if k == "ms": return ind + MAT[p][0] + tail
    if k == "me": return ind + MAT[p][1] + (":" if s == 1 else "") + tail
    tok = [token(p, t) for t in l["v"]]
    sep = [",", ", ", "  , ", ",   "][s]
    body = sep.join(tok)
    if len(tok) > 1 and s == 3: body = "(" + body + ")"
    if len(tok) > 1 and s == 2 and k == "row": body = "[" + body + "]"
    if k == "row": return ind + body + ("," if s == 1 and l["v"][-1] != 9998 else "") + tail
    return ind + KEY[p] + ("" if s == 0 else " ") + body + tail

def render(f, crlf): return ("\r\n" if crlf else "\n").join(text(l) for l in f) + ("" if crlf else "\n")

def para_check(rep, prop, n, seed0=0):
    work = Work()
    try:
        exe = build("para_h")
        seed = rep.seed*1000+seed0
        rng = random.Random(f"para/{seed}")
        H = []
        for cfg in ("ParaGen.cfg", "ParaBad.cfg"):
            out, st = tlc("Para", cfg, None, ("-simulate", "num=%d" % n, "-depth", "40", "-seed", str(seed), "-workers", "1"), workdir=work.d)
            h = printed(out, "HIST")
            if len(h) < n//2: raise Infra("history generation failed\n" + out[-2000:])
            rep.add(st); H += h
        S = {}
        for i, h in enumerate(H):
            path = work.path(f"p{i}.para")
            open(path, "w", newline="").write(render(h["f"], rng.random() < .1))
            S[f"g{i}"] = (["F g%d %s" % (i, path)] + [" ".join(o) for o in h["o"]], h)
        def one(a):
            k, ids = a
            src, dst = work.path(f"h{k}.txt"), work.path(f"h{k}.ndjson")
            open(src, "w").write("\n".join("\n".join(S[i][0]) for i in ids) + "\n")
            p = subprocess.run([exe, src, dst], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if p.returncode: raise Infra("para_h failed")
            t = re.sub(r"@(g\d+)@", lambda m: json.dumps(S[m.group(1)][1]["f"]), open(dst).read()); open(dst, "w").write(t)
            out, st = tlc("ParaTrace", None, {"TRACE": dst}, ("-workers", "1", "-continue"), workdir=work.d)
            F = failures(out, dst, prop, ["call"])
            return F, st, len(ids), t.count('"o":')
        for F, st, nt, ne in pmap(one, list(enumerate(p for p in [list(S)[i::NCPU] for i in range(NCPU)] if p))):
            rep.add(st); rep.traces += nt; rep.samples += ne
            for x in {x["id"]: x for x in F}.values():
                txt = "history %s, call %d (%s): %s" % (x["id"], x["at"], " ".join(x["e"]), ", ".join(x["tags"]))
                L, h = S[x["id"]]
                f = save_replay(prop, "p%s.txt" % x["id"], "# %s\n# parameter file:\n%s\n# calls: %s\n" % (txt, render(h["f"], False), "; ".join(L[1:])))
                rep.violation("%s|%s|%s" % (" ".join(x["e"]), "+".join(x["tags"]), x["id"]), txt, f)
        rep.cases += [{"file": render(h["f"], False).splitlines(), "calls": h["o"]} for h in H[:1]]
    finally:
        work.done()
