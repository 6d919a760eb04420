"""C15: parameter files generated from App.tla, run through the real application and, as the library calls that the
specification demands, through the library itself; the runs are validated by AppTrace.tla."""
import random, subprocess, threading
from vlib import *

def num(v): return "%g" % v
def sixteenth(v): return repr(v/16)

def build_app():
    """the application from /repo's sources; its expression library takes long to compile, so both parts run in parallel"""
    inc = os.path.join(BUILD, "inc"); config_header(inc)
    out = os.path.join(BUILD, "app")
    base = ["g++", "-std=c++17", "-w", "-DNDEBUG", "-DTQMESH_USE_EXPRTK", "-I", inc, *[x for d in ("utils", "algorithm", "extern_libs", "app") for x in ("-I", f"{REPO}/src/{d}")]]
    src = sorted(glob.glob(f"{REPO}/src/app/*.cpp"))
    objs = [os.path.join(BUILD, "app_%s.%d.o" % (os.path.basename(s)[:-4], os.getpid())) for s in src]
    def comp(a):
        s, o = a
        p = subprocess.run(base + ["-O0" if "exprtk" in open(s).read() else "-O1", "-c", s, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode: raise Infra("application does not build:\n" + p.stdout[-3000:])
    pmap(comp, list(zip(src, objs)))
    objs.sort(key=lambda o: "main" not in o)
    p = subprocess.run(["g++", *objs, "-o", out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    for o in objs: os.remove(o)
    if p.returncode: raise Infra("application does not link:\n" + p.stdout[-3000:])
    return out

# ---------------------------------------------------------------- rendering of abstract definitions to text
def shape_values(b):
    v = [b["m"], *b["c"], b["w"]] + ([b["h"]] if b["kind"] == "rect" else []) + ([b["n"]] if b["kind"] == "circ" else [])
    return [num(x) for x in v + (b["pr"] if any(b["pr"]) else [])]

def corner_row(c, rng):
    r = [num(c[0]), num(c[1]), str(c[2])]
    if any(c[3:]): r += [num(c[3]), num(c[4])]
    return rng.choice([", ", ",", " ,  "]).join(r)

def csv_file(path, b):
    open(path, "w").write("\n".join(",".join([repr(float(c[0])), repr(float(c[1])), str(c[2]), num(c[3]), num(c[4])]) for c in b["p"]) + "\n")

NAME = {"rect": "rectangular", "circ": "circular", "square": "squared", "tri": "triangular"}

def definition(i, h, d, rng, files):
    """text of one mesh definition; files: csv files to create"""
    f = d["fault"]
    ind = rng.choice(["  ", "", "\t"])
    items = []
    if f != "noprefix": items.append(["Output file prefix: %sm%d" % ("nodir/" if f == "badpath" else "./", i)])
    if f != "noformat": items.append(["Output file format: " + d["fmt"]])
    a, b, c = [sixteenth(v) for v in d["size"]]
    ex = a if d["size"][1] == d["size"][2] == 0 else rng.choice(["%s+%s*x+%s*y", "%s + %s * x + %s * y", "(%s) + (%s*x) + %s*y"]) % (a, b, c)
    if f == "badexpr": ex = "2.0 + * x"
    if f != "nosize": items.append(["Element size: " + ex])
    if d["color"] >= 0 or f == "color": items.append(["Element color: " + ("red" if f == "color" else str(d["color"]))])
    if d["alg"] or f == "alg": items.append(["Meshing algorithm: " + ("Paving" if f == "alg" else d["alg"])])
    if d["ref"] >= 0: items.append(["Number of quad refinements: %d" % d["ref"]])
    if d["smo"] >= 0: items.append(["Number of smoothing iterations: %d" % d["smo"]])
    if d["lay"] >= 0: items.append(["Smooth quad layers: %d" % d["lay"]])
    if h["verts"][i]:
        items.append(["Define boundary vertices:"] + [ind + ", ".join([num(v[0]), num(v[1])] + ([num(v[3]), num(v[4])] if any(v[3:]) else [])) + rng.choice(["", "  # Vertex %d" % k, "  # vertex, no. %d" % k]) for k, v in enumerate(h["verts"][i])] + ["End boundary vertices"])
    fixed = [s["b"] for s in d["slots"] if s["what"] == "fixed"]
    if fixed: items.append(["Define fixed vertices:"] + [ind + ", ".join([num(v[0]), num(v[1])] + ([num(v[2]), num(v[3])] if any(v[2:]) else [])) for v in fixed] + ["End fixed vertices"])
    if d["fe"]: items.append(["Define fixed edges:", ind + "%d, %d" % (h["fe"][i][0], h["fe"][i][1] + (50 if f == "feindex" else 0)), "End fixed edges"])
    for l in d["layers"]:
        v = [num(x) for x in l[:4]] + ["%d" % l[4], sixteenth(l[5]), sixteenth(l[6])]
        items.append(["Add quad layers: " + ", ".join(v[:6] if f == "shortlayer" else v)])
    tail = []
    idx = list(h["idx"][i])
    def bdry(b, where, k, faulty=""):
        if b["kind"] == "edges":
            e = [list(x) for x in idx.pop(0)]
            if faulty == "index": e[1][1] = len(h["verts"][i]) + len(fixed) + rng.choice([0, 0, 1, 40])   # first index that does not exist
            if faulty == "negindex": e[1][0] = -1
            return ["Define %s boundary edges:" % where] + [ind + "%d, %d, %d" % tuple(x) for x in e] + ["End %s boundary edges" % where]
        if b["kind"] == "coords":
            p = [list(x) for x in b["p"]]
            if faulty == "negmarker": p[1][2] = -1
            return ["Define %s boundary:" % where] + [ind + corner_row(c, rng) + rng.choice(["", "", " # corner, on the %s side" % where]) for c in p] + ([] if faulty == "noendbdry" else ["End %s boundary" % where])
        if b["kind"] == "csv":
            name = "b%d_%s%d.csv" % (i, where, k)
            if faulty != "nofile": files.append((name, b))
            return ["Define %s boundary from CSV file: %s" % (where, name)]
        return ["Define %s %s boundary: " % (where, NAME[b["kind"]]) + ", ".join(shape_values(b))]
    items.append(bdry(d["ext"], "exterior", 0, f))
    holes = [bdry(s["b"], "interior", k) for k, s in enumerate(d["slots"]) if s["what"] == "hole"]
    rng.shuffle(items)                      # the order of different parameters does not matter
    if f == "noendbdry": holes = []
    pos = sorted(rng.randrange(len(items)+1) for _ in holes)
    for q, x in reversed(list(zip(pos, holes))): items.insert(q, x)
    L = ["Define mesh:"]
    for it in items:
        if rng.random() < .2: L.append(rng.choice(["", "  # Element color: 9", "   "]))
        for j, t in enumerate(it):
            if 0 < j < len(it)-1 and rng.random() < .1: L.append(rng.choice(["", "# Element size: 0.1", "    # a, b"]))
            L.append(ind + t + rng.choice(["", "", "", "", " # comment", "  # was, before: 3, 4"]))
    if f != "noend": L.append(rng.choice(["End mesh", "End mesh:"]))
    return L

def script(calls):
    r = []
    nb = {"k": 0}
    for c in calls:
        op, a = c[0], c[1] if len(c) > 1 else []
        if op == "domain": r.append("domain " + " ".join(sixteenth(v) for v in a))
        elif op == "v": r.append("v " + " ".join(num(x) for x in ([a[0], a[1]] + (a[3:] if any(a[3:]) else []))))
        elif op == "fv": r.append("fv " + " ".join(num(x) for x in (a[:2] + (a[2:] if any(a[2:]) else []))))
        elif op in ("indexed", "coords"): r.append(op + " " + " ".join(num(x) for e in a for x in e))
        elif op == "csv": r.append(("csv", a))
        elif op in NAME and a: r.append({"tri": "tria"}.get(op, op) + " " + " ".join(shape_values(a)))
        elif op == "layer": r.append("layer %s %d %s %s" % (" ".join(num(x) for x in a[:4]), a[4], sixteenth(a[5]), sixteenth(a[6])))
        elif op == "write": r.append("write %s %d" % (a[0], a[1]))
        else: r.append(op + "".join(" " + num(x) for x in a))
    return r

# ---------------------------------------------------------------- reading what was written
def sections(text, fmt):
    if not text: return {}
    S, cur = {}, None
    if fmt.lower() == "vtu":
        for l in text.splitlines():
            m = re.match(r"\s*<DataArray[^>]*Name=\"([^\"]*)\"", l)
            if m: cur = m.group(1)
            elif re.match(r"\s*<(\w+)", l) and "DataArray" not in l: cur = re.match(r"\s*<(\w+)", l).group(1)
            S.setdefault(cur or "head", []).append(l)
    else:
        for l in text.splitlines():
            m = re.match(r"([A-Z]+) -?\d+", l)
            if m: cur = m.group(1)
            S.setdefault(cur or "head", []).append(l)
    return {k: hashlib.sha1("\n".join(v).encode()).hexdigest()[:16] for k, v in S.items()}

def contents(text, fmt):
    """element colours, boundary markers, number of triangles of a TXT export (VTU: only triangles)"""
    col, mar, ntri = set(), set(), 0
    if fmt.lower() == "vtu":
        m = re.search(r'Name="types".*?>(.*?)</DataArray>', text, re.S)
        return [], [], 0 if not m else m.group(1).split().count("5")
    cur = ""
    for l in text.splitlines():
        m = re.match(r"([A-Z]+) (-?\d+)", l)
        if m: cur = m.group(1); ntri = int(m.group(2)) if cur == "TRIANGLES" else ntri; continue
        try: v = [int(x) for x in l.split(",")]
        except ValueError: continue
        if cur in ("QUADS", "TRIANGLES"): col.add(v[-1])
        if cur == "BOUNDARYEDGES": mar.add(v[-1])
    return sorted(col), sorted(mar), ntri

def cout_meshes(out):
    r, cur = [], None
    for l in re.sub(r"\x1b\[[0-9;]*m", "", out).splitlines():
        if re.match(r"MESH -?\d+$", l): cur = []; r.append(cur)
        if cur is not None: cur.append(l)
    return r

LATE = {"n": 0}
def run_one(a):
    exe, twin, d, i, h, rng = a
    files = []
    da, dt = os.path.join(d, "a%d" % i), os.path.join(d, "t%d" % i)
    os.makedirs(da); os.makedirs(dt)
    L = []
    for k, x in enumerate(h["defs"]):
        if rng.random() < .3: L.append(rng.choice(["# ------", "", "# End mesh"]))
        L += definition(k, h, x, rng, files)
    for name, b in files: csv_file(os.path.join(da, name), b); csv_file(os.path.join(dt, name), b)
    open(os.path.join(da, "in.para"), "w").write("\n".join(L) + "\n")
    S = script(h["calls"])
    mi, seen = -1, {}
    out = []
    # csv names: exterior first, then the slots in order
    names = []
    for k, x in enumerate(h["defs"]):
        if x["fault"]: break
        if x["ext"]["kind"] == "csv": names.append("b%d_exterior0.csv" % k)
        names += ["b%d_interior%d.csv" % (k, j) for j, s in enumerate(x["slots"]) if s["what"] == "hole" and s["b"]["kind"] == "csv"]
    for s in S: out.append(s if isinstance(s, str) else "csv " + names.pop(0))
    open(os.path.join(dt, "in.txt"), "w").write("\n".join(out) + "\n")
    def go(cmd, cwd, to=40):
        try:
            p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=to)
            return p.returncode, p.stdout.decode("latin1")
        except subprocess.TimeoutExpired: return -99, ""
    if LATE["n"] > 8: return None           # no need to wait for more of it
    rt, ot = go([twin, "in.txt"], dt)
    rc, oa = go([exe, "in.para"], da)
    if -99 in (rt, rc): LATE["n"] += 1
    if rt:                                  # the library calls do not finish either
        if rc not in (0, 1): return {"id": "f%d" % i, "fault": h["defs"][-1]["fault"], "rc": -1, "extra": 0, "m": []}, L
        return None
    ok = [l.endswith("1") for l in ot.splitlines() if l.startswith("check")]
    sound = [x for x in h["defs"] if not x["fault"]]
    printed_ = cout_meshes(oa)
    M, expect = [], {"in.para"} | {n for n, _ in files}
    for k, x in enumerate(sound):
        fmt = x["fmt"]
        if fmt == "COUT":
            t = open(os.path.join(dt, "m%d.cout" % k)).read()
            n = len(t.splitlines())
            g = "\n".join(printed_.pop(0)[:n]) + "\n" if printed_ else ""
        else:
            fn = "m%d.%s" % (k, fmt.lower()); expect.add(fn)
            t = open(os.path.join(dt, fn)).read()
            p = os.path.join(da, fn)
            g = open(p).read() if os.path.exists(p) else ""
        col, mar, ntri = contents(g, fmt)
        M.append({"app": sections(g, fmt), "twin": sections(t, fmt), "ok": ok[k], "want": h["demand"][k], "colors": col, "markers": mar, "tris": ntri if g else 0})
    fault = h["defs"][-1]["fault"]
    extra = len(printed_) + len([f for f in os.listdir(da) if f not in expect])
    shutil.rmtree(da); shutil.rmtree(dt)
    for m in M:
        ks = sorted(set(m["app"]) | set(m["twin"]))
        m["app"] = [[k, m["app"].get(k, "")] for k in ks] if m["app"] else []
        m["twin"] = [[k, m["twin"].get(k, "")] for k in ks]
    return {"id": "f%d" % i, "fault": fault, "rc": rc if rc in (0, 1) else -1, "extra": extra, "m": M}, L

def app_check(rep, prop, n, seed0=0):
    work = Work()
    try:
        seed = rep.seed*1000+seed0
        gen = {}
        def prep(w):
            if w == "app": gen["app"] = build_app()
            elif w == "twin": gen["twin"] = build("app_h")
            else:
                cfg, cnt = w
                out, st = tlc("App", cfg, None, ("-simulate", "num=%d" % cnt, "-depth", "20", "-seed", str(seed), "-workers", "1"), workdir=work.d)
                h = {json.dumps(x, sort_keys=True): x for x in printed(out, "HIST")}
                if len(h) < cnt//2: raise Infra("generation of parameter files failed\n" + out[-2000:])
                gen[cfg] = (list(h.values()), st)
        pmap(prep, ["app", "twin", ("AppGen.cfg", n), ("AppBad.cfg", n//2)])
        H = []
        for c in ("AppGen.cfg", "AppBad.cfg"): H += gen[c][0]; rep.add(gen[c][1])
        R = pmap(run_one, [(gen["app"], gen["twin"], work.d, i, h, random.Random(f"app/{seed}/{i}")) for i, h in enumerate(H)])
        T = {r[0]["id"]: r for r in R if r}
        if len(T) < len(H)*.8 and not any(r[0]["rc"] == -1 for r in T.values()): raise Infra("the library calls of %d of %d parameter files did not finish" % (len(H)-len(T), len(H)))
        rep.extra["files_with_mistakes"] = sum(1 for r in T.values() if r[0]["fault"])
        rep.extra["library_calls_not_finished"] = len(H)-len(T)
        rep.extra["meshes_filling_their_domain"] = sum(m["ok"] for r in T.values() for m in r[0]["m"])
        rep.extra["meshes_compared"] = sum(len(r[0]["m"]) for r in T.values())
        dst = work.path("app.ndjson")
        open(dst, "w").write("".join(json.dumps(r[0]) + "\n" for r in T.values()))
        out, st = tlc("AppTrace", None, {"TRACE": dst}, ("-workers", "1", "-continue"), workdir=work.d)
        F = failures(out, dst, prop, "step")
        rep.add(st); rep.traces += len(T); rep.samples += sum(len(r[0]["m"])+1 for r in T.values())
        for x in {x["id"]: x for x in F}.values():
            t, L = T[x["id"]]
            txt = "parameter file %s, step %d (%s): %s" % (x["id"], x["at"], x["e"], ", ".join(x["tags"]))
            if "C15.as-the-library-calls" in x["tags"]:
                m = t["m"][x["at"]-1]; txt += "; differs in " + ", ".join(a[0] for a, b in zip(m["app"], m["twin"]) if a != b)
            f = save_replay(prop, "%s.para" % x["id"], "# %s\n%s\n" % (txt, "\n".join(L)))
            rep.violation("%s|%s|%s" % (x["e"], "+".join(x["tags"]), x["id"]), txt, f)
        rep.cases += [{"file": r[1]} for r in list(T.values())[:1]]
    finally:
        work.done()
