"""Checks that drive meshing sessions: Session.tla behaviours -> real library
-> recorded traces -> MeshTrace.tla."""
import json, os, random, subprocess
from vlib import *
import concretise

def abstract_sessions(focus, n, seed, workdir):
    out, st = tlc("Session", "SessionGen.cfg", {"FOCUS": focus}, ("-simulate", "num=%d" % n, "-depth", "20", "-seed", str(seed), "-workers", "1"), workdir=workdir)
    S = printed(out, "SESSION")
    if len(S) < n//2: raise Infra("session generation failed:\n" + out[-2000:])
    return S, st

def run_sessions(exe, scripts, work, tag, timeout=30):
    """scripts: list of (id, lines) -> list of {id, ev}"""
    def one(a):
        k, part = a
        src, dst, od = work.path(f"{tag}{k}.txt"), work.path(f"{tag}{k}.out"), work.path(f"{tag}{k}.d")
        os.makedirs(od, exist_ok=True)
        with open(src, "w") as f:
            for i, ls in part: f.write(f"session {i}\n" + "\n".join(ls).replace("@OUT@", od) + "\n")
        p = subprocess.run([exe, src, dst, str(timeout)], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
        if p.returncode: raise Infra("harness failed: " + p.stderr[-500:])
        res = []
        for l in open(dst):
            r = json.loads(l)
            if r["e"] == "Session": res.append({"id": r["id"], "ev": []})
            else: res[-1]["ev"].append(r)
        os.remove(dst)
        return res
    # interleave for balance
    parts = [scripts[i::NCPU*2] for i in range(NCPU*2)]
    r = [x for p in pmap(one, list(enumerate([p for p in parts if p]))) for x in p]
    return r

def validate(traces, prop, work, tag, module="MeshTrace"):
    """returns {session id: [(event index, call, tags)]}, stats"""
    def one(a):
        k, part = a
        f = work.path(f"{tag}{k}.ndjson")
        with open(f, "w") as o:
            for t in part: o.write(json.dumps(t, separators=(",", ":")) + "\n")
        out, st = tlc(module, None, {"TRACE": f, "PROP": prop}, ("-workers", "1", "-continue"), heap="3g", workdir=work.d)
        fails = failures(out, f, prop)
        os.remove(f)
        if st["distinct"] < len(part) and not fails: raise Infra("trace validation incomplete:\n" + out[-3000:])
        return fails, st
    traces = sorted(traces, key=lambda t: -sum(len(s.get("el", [])) for e in t["ev"] for s in e.get("S", [])))
    parts = [traces[i::NCPU] for i in range(NCPU)]
    F, tot = {}, {"states": 0, "distinct": 0}
    for fails, st in pmap(one, list(enumerate([p for p in parts if p]))):
        tot["states"] += st["states"]; tot["distinct"] += st["distinct"]
        for x in fails:
            F.setdefault(x["id"], [])
            y = (x["at"], x["e"], tuple(sorted(x["tags"])))
            if y not in F[x["id"]]: F[x["id"]].append(y)
    return F, tot

def mesh_check(rep, prop, n, focus=None, scripts=None, exe=None, seed0=0):
    """generate n sessions, replay, validate; add to the report"""
    work = Work()
    try:
        exe = exe or build("mesh_h")
        seed = rep.seed*1000 + seed0
        if scripts is None:
            S, st = abstract_sessions(focus or prop, n, seed, work.d)
            rep.add(st)
            scripts = [(str(i), concretise.Session(h, f"{seed}/{i}", focus or prop).lines) for i, h in enumerate(S)]
        T = run_sessions(exe, scripts, work, "s")
        F, st = validate(T, prop, work, "v")
        rep.add(st); rep.traces += len(T); rep.samples += sum(len(t["ev"]) for t in T)
        src = dict(scripts)
        rep.cases += [{"session": i, "script": src[i], "calls": [e["e"] for e in t["ev"]]} for t in T[:3] for i in [t["id"]]]
        byid = {t["id"]: t for t in T}
        if F:   # confirm by running the rejected sessions again
            F = dict(sorted(F.items())[:24])
            again = run_sessions(exe, [(i, src[i]) for i in F], work, "r")
            F2, _ = validate(again, prop, work, "w")
            for i in list(F):
                if i not in {t["id"] for t in again}: continue      # not repeated: the library hangs in others
                if i not in F2: log("  note: session %s was rejected only once, ignored" % i)
                else: report_session(rep, prop, i, src[i], F2[i], next(t for t in again if t["id"] == i))
        return T, src
    finally:
        work.done()

def report_session(rep, prop, i, lines, fails, trace):
    at, e, tags = fails[0]
    ev = trace["ev"][at-1]
    why = ""
    if ev["e"] == "Abort": why = " [%s in: %s]" % (ev.get("why", ""), ev.get("op", "")[:120])
    txt = "session %s, call %d (%s)%s: %s" % (i, at, e, why, ", ".join(tags))
    f = save_replay(prop, "s%s.txt" % i, "# %s\n# replay: build/mesh_h <this file> OUT.json, then spec/MeshTrace.tla (PROP=%s)\nsession %s\n%s\n" % (txt, prop, i, "\n".join(lines)))
    rep.violation("%s|%s|%s" % (e, "+".join(tags), i), txt, f)

# ---------------------------------------------------------------- C19: solo run against interleaved run
MESHOPS = ("mesh", "ql", "tri", "triex", "tri2quad", "refine", "smooth", "merge", "check", "write")
def twin_check(rep, n, seed0=0):
    work = Work()
    try:
        exe = build("mesh_h")
        seed = rep.seed*1000 + 500 + seed0
        S, st = abstract_sessions("C19", 2*n, seed, work.d); rep.add(st)
        n = min(n, len(S)//2)
        scripts, both = [], {}
        for k in range(n):
            rng = random.Random(f"twin/{seed}/{k}")
            A = concretise.Session(S[2*k], f"{seed}/{2*k}", "C19").lines
            B = concretise.Session(S[2*k+1], f"{seed}/{2*k+1}", "C19", off=50, shift=(-36, -34)).lines
            if rng.random() < .5:    # same kind of client: the interleaved calls hit the same algorithms
                B = concretise.Session(S[2*k], f"{seed}/{2*k}", "C19", off=50, shift=(-36, -34)).lines
            mode = rng.randrange(4)
            two = mode == 3          # second generator
            mix, a, b = [], list(A), list(B)
            if mode == 0: mix = [("B", x) for x in b] + [("A", x) for x in a]
            else:
                alt = rng.random() < .4
                while a or b:
                    if a and (not b or (len(mix) % 2 == 0 if alt else rng.random() < .5)): mix.append(("A", a.pop(0)))
                    else: mix.append(("B", b.pop(0)))
            out, cur = [], 0
            for w, x in mix:
                g = 1 if two and w == "B" else 0
                if g != cur and x.startswith("mesh"): out.append(f"gen {g}"); cur = g
                out.append(x)
            scripts += [(f"{k}s", A), (f"{k}b", out)]
            both[str(k)] = (A, out)
        T = {t["id"]: t["ev"] for t in run_sessions(exe, scripts, work, "t")}
        both = {i: v for i, v in both.items() if i+"s" in T and i+"b" in T}     # runs after a hanging one are left out
        def slim(e):
            own = e["m"] < 50
            if e["e"] == "Abort":
                w = e.get("op", "").split()
                own = len(w) < 2 or not w[1].lstrip("-").isdigit() or int(w[1]) < 50
            return {"e": e["e"], "m": e["m"], "arg": e["arg"], "ret": e["ret"], "a": 1 if own else 0,
                    "st": [[s["m"], s["dig"]] for s in e["S"] if s["m"] < 50]}
        def one(a):
            k, part = a
            f = work.path(f"tw{k}.ndjson")
            with open(f, "w") as o:
                for i in part:
                    o.write(json.dumps({"id": i, "solo": [slim(e) for e in T[i+"s"] if e["e"] != "End"], "both": [slim(e) for e in T[i+"b"] if e["e"] != "End"]}) + "\n")
            out, st = tlc("TwinTrace", None, {"TRACE": f}, ("-workers", "1", "-continue"), workdir=work.d)
            fails = printed(out, "FAIL")
            if not (tlc_ok(out) or fails): raise Infra("twin validation failed:\n" + out[-3000:])
            return fails, st
        ids = sorted(both)
        F = {}
        for fails, st in pmap(one, list(enumerate(p for p in [ids[i::NCPU] for i in range(NCPU)] if p))):
            rep.add(st)
            for x in fails: F.setdefault(x["id"], x)
        rep.traces += 2*n; rep.samples += sum(len(T[i+c]) for i in both for c in "sb")
        for i, x in sorted(F.items()):
            A, out = both[i]
            txt = "pair %s, call %d of the interleaved run (%s): %s" % (i, x["at"], x["e"], ", ".join(sorted(x["tags"])))
            f = save_replay(rep.prop, "pair%s.txt" % i, "# %s\nsession %ss\n%s\nsession %sb\n%s\n" % (txt, i, "\n".join(A), i, "\n".join(out)))
            rep.violation("Twin|%s|%s" % ("+".join(sorted(x["tags"])), i), txt, f)
    finally:
        work.done()
