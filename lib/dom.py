"""C12, C18, C21: domain definitions generated from Dom.tla, replayed into the library, validated by DomTrace.tla."""
import random, subprocess
from vlib import *

def line(o):
    op = o[0]
    if op in ("shape", "csv", "edges", "open", "rect", "square", "circle"):
        return f"{op} {o[1]} {len(o[2])} " + " ".join(str(v) for p in o[2] for v in p) + ("" if len(o) < 4 else " " + " ".join(map(str, o[3:])))
    r = [op]
    for v in o[1:]:
        if isinstance(v, list): r += [str(x) for x in v]
        else: r.append(str(v))
    return " ".join(r)

def placement(rng):
    u = rng.choice([1/16, 1/16, 1/64, 1.0])
    ox, oy = rng.choice([(0, 0), (-3, -3), (7.5, -11), (200, 100), (-40, 25)])
    return u, ox, oy

def history(i, h, rng, mesh=True):
    u, ox, oy = placement(rng)
    out = [f"d {i} {u!r} {ox!r} {oy!r}"]
    pts = [(o[2][k][0], o[2][k][1]) for o in h if o[0] in ("shape", "csv", "edges", "open", "rect", "square", "circle") for k in range(len(o[2]))]
    def ins(n):
        for _ in range(n):
            k = rng.random()
            if k < .2 and pts: x, y = rng.choice(pts)
            elif k < .35 and len(pts) > 1:
                a, b = rng.sample(pts, 2); x, y = (a[0]+b[0])//2, (a[1]+b[1])//2
            else: x, y = 8*rng.randrange(-1, 14), 8*rng.randrange(-1, 14)
            out.append(f"in {x} {y}")
    for o in h:
        out.append(line(o))
        if rng.random() < .4: ins(2)
    ins(12)
    if mesh: out.append("mesh %d" % (rng.random() < .5))
    return out

def size_history(i, h, rng):
    if rng.random() < .4:      # no declared sizes: the user's function decides alone
        h = [[o[0], o[1], [[*p[:3], 0, 0] for p in o[2]], *o[3:]] if o[0] in ("shape", "csv", "edges", "rect", "square", "circle") else o[:3] + [0, 0] if o[0] == "fix" else o for o in h]
    L = history(i, h, rng, False)
    L = [x for x in L if not x.startswith("in ")]
    pts = [(o[2][k][0], o[2][k][1]) for o in h if o[0] in ("shape", "csv", "edges", "rect", "square") for k in range(len(o[2]))]
    fix = [(o[1], o[2]) for o in h if o[0] == "fix"]
    def probe():
        k = rng.random()
        near = lambda p: (p[0]+rng.randrange(-6, 7), p[1]+rng.randrange(-6, 7))
        if k < .25 and pts: return rng.choice(pts)
        if k < .40 and pts: return near(rng.choice(pts))
        if k < .50 and fix: return rng.choice(fix)
        if k < .65 and fix: return near(rng.choice(fix))
        return (8*rng.randrange(-1, 14), 8*rng.randrange(-1, 14))
    pr = [probe() for _ in range(12)]
    ox, oy = rng.choice([(0, 0), (-50, 25), (300, -200)])
    L[0] = f"d {i} 1.0 {ox} {oy} {rng.choice([5, 8, 13, 30])} {rng.choice([0, 0, .02, .1])}"
    L.insert(1, "probe %d %s" % (len(pr), " ".join("%d %d" % p for p in pr)))
    return L + ["sub"]

def dom_check(rep, prop, n, seed0=0, exhaustive=True):
    work = Work()
    try:
        exe = build("dom_h")
        seed = rep.seed*1000+seed0
        rng = random.Random(f"dom/{seed}")
        S = []
        if exhaustive and prop != "C13":
            rep.add(model_check("Dom", "DomMC.cfg", "Dom (all quadrilaterals on a 3x3 lattice)"))
            out, st = tlc("Dom", "DomAll.cfg", None, ("-workers", "1"), workdir=work.d); rep.add(st)
            A = printed(out, "POLY")
            if len(A) < 5000: raise Infra("polygon enumeration failed\n" + out[-2000:])
            rep.extra["exhaustive_polygons"] = len(A)
            for i, a in enumerate(A):
                sh = " ".join(f"{16*e[0][0]} {16*e[0][1]} {e[2]} 0 0" for e in a["s"])
                u, ox, oy = placement(rng)
                S.append([f"d e{i} {u!r} {ox!r} {oy!r}", "bdry %d" % a["t"], "%s 1 4 %s" % ({"C12": "edges", "C18": "csv"}.get(prop, "shape"), sh)]
                         + (["in %d %d" % (16*x, 16*y) for x in range(3) for y in range(3)] if prop == "C21" and i % 3 == 0 else []))
        out, st = tlc("Dom", "DomSize.cfg" if prop == "C13" else "DomGen.cfg", None, ("-simulate", "num=%d" % n, "-depth", "12", "-seed", str(seed), "-workers", "1"), workdir=work.d)
        H = printed(out, "HIST")
        if len(H) < n//2: raise Infra("history generation failed\n" + out[-2000:])
        rep.add(st)
        S += [size_history(f"g{i}", h, rng) if prop == "C13" else history(f"g{i}", h, rng, prop == "C12") for i, h in enumerate(H)]
        def one(a):
            k, part = a
            src, dst, sc = work.path(f"d{k}.txt"), work.path(f"d{k}.ndjson"), work.path(f"sc{k}"); os.makedirs(sc)
            open(src, "w").write("\n".join("\n".join(s) for s in part) + "\n")
            p = subprocess.run([exe, src, dst, sc], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if p.returncode: raise Infra("dom_h failed")
            t = open(dst).read().replace("[,{", "[{"); open(dst, "w").write(t)
            out, st = tlc("DomTrace", None, {"TRACE": dst, "PROP": prop}, ("-workers", "1", "-continue"), heap="3g", workdir=work.d)
            F = failures(out, dst, prop, "call")
            return F, st, t.count("\n"), t.count('"e":')
        by = {s[0].split()[1]: s for s in S}
        for F, st, nt, ne in pmap(one, list(enumerate(p for p in [S[i::NCPU] for i in range(NCPU)] if p))):
            rep.add(st); rep.traces += nt; rep.samples += ne
            for x in {x["id"]: x for x in F}.values():
                txt = "history %s, call %d (%s): %s" % (x["id"], x["at"], x["e"], ", ".join(x["tags"]))
                f = save_replay(prop, "h%s.txt" % x["id"], "# %s\n# replay: build/dom_h <this file> OUT.ndjson SCRATCH\n%s\n" % (txt, "\n".join(by[x["id"]])))
                rep.violation("%s|%s|%s" % (x["e"], "+".join(x["tags"]), x["id"]), txt, f)
        rep.cases += [{"history": s} for s in S[-2:]]
    finally:
        work.done()
