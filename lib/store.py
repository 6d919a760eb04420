"""C11: histories of Store.tla replayed into the real container, validated by StoreTrace.tla."""
import json, random, re, subprocess
from vlib import *

def histories(cfg, args, env, workdir):
    out, st = tlc("Store", cfg, env, args, workdir=workdir)
    return printed(out, "HIST"), st, out

def script(i, h, rng, exhaustive=False):
    """one history with interleaved queries"""
    unit = rng.choice([1, 1, 1, .125, 37.5])
    scale = 16*unit
    items, depth = (1, rng.choice([2, 6])) if exhaustive else (rng.choice([1, 1, 2, 3, 5]), rng.choice([1, 2, 4, 8]))
    out = [f"h {i} {scale!r} {items} {depth} {unit!r}"]
    V = list(range(17))
    def queries(n):
        for _ in range(n):
            k = rng.randrange(3)
            f = "f" if rng.random() < .2 else ""
            if k == 0: out.append(f"circ{f} {rng.choice(V)} {rng.choice(V)} {rng.choice([1, 2, 3, 4, 5, 8, 12, 30])}")
            elif k == 1:
                a, c = sorted((rng.choice(V), rng.choice(V))); b, d = sorted((rng.choice(V), rng.choice(V)))
                out.append(f"rect{f} {a} {b} {c} {d}")
            else: out.append(f"near {rng.choice(V)} {rng.choice(V)}")
    for o in h:
        out.append(" ".join(str(x) for x in o))
        if not exhaustive:
            queries(2)
            if rng.random() < .3: out.append("all")
    out += ["all"] + [f"near {x} {y}" for x, y in ((0, 0), (8, 8), (16, 3), (5, 12))] + ["circ 8 8 40", "rect 0 0 16 16"]
    queries(6)
    return out

def store_check(rep, n, seed0=0, exhaustive=True):
    work = Work()
    try:
        exe = build("cont_h")
        seed = rep.seed*1000+seed0
        rng = random.Random(f"store/{seed}")
        S = []
        if exhaustive:
            rep.add(model_check("Store", "StoreMC.cfg", "Store (spatial container)"))
            H, st, out = histories("StoreAll.cfg", ("-workers", "1"), {}, work.d)
            if len(H) < 1000: raise Infra("history enumeration failed\n" + out[-2000:])
            rep.add(st); rep.extra["exhaustive_histories"] = len(H)
            S += [script(f"e{i}", h, rng, True) for i, h in enumerate(H)]
        H, st, out = histories("StoreGen.cfg", ("-simulate", "num=%d" % n, "-depth", "40", "-seed", str(seed), "-workers", "1"), {}, work.d)
        if len(H) < n//2: raise Infra("history generation failed\n" + out[-2000:])
        rep.add(st)
        S += [script(f"g{i}", h, rng) for i, h in enumerate(H)]
        run_store(rep, exe, S, work)
    finally:
        work.done()

def run_store(rep, exe, S, work):
    def one(a):
        k, part = a
        src, dst = work.path(f"c{k}.txt"), work.path(f"c{k}.ndjson")
        open(src, "w").write("\n".join("\n".join(s) for s in part) + "\n")
        p = subprocess.run([exe, src, dst], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
        if p.returncode: raise Infra("cont_h failed " + p.stderr[-300:])
        t = open(dst).read().replace("[,", "["); open(dst, "w").write(t)
        out, st = tlc("StoreTrace", None, {"TRACE": dst}, ("-workers", "1", "-continue"), heap="3g", workdir=work.d)
        F = failures(out, dst, rep.prop, "call")
        return F, st, t.count("\n"), t.count('["')
    by = {s[0].split()[1]: s for s in S}
    for F, st, n, ne in pmap(one, list(enumerate(p for p in [S[i::NCPU] for i in range(NCPU)] if p))):
        rep.add(st); rep.traces += n; rep.samples += ne
        seen = set()
        for x in F:
            if x["id"] in seen: continue
            seen.add(x["id"])
            txt = "history %s, operation %s: %s" % (x["id"], x["e"], ", ".join(x["tags"]))
            f = save_replay(rep.prop, "h%s.txt" % x["id"], "# %s\n# replay: build/cont_h <this file> OUT.ndjson\n%s\n" % (txt, "\n".join(by[x["id"]])))
            rep.violation("%s|%s" % ("+".join(x["tags"]), x["id"]), txt, f)
    rep.cases += [{"history": s} for s in S[-2:]]
