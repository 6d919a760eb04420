"""C17: predicates of the library tabulated over lattice points, validated by GeoTrace.tla."""
import subprocess
from vlib import *

# class, lattice, samples
QUICK = [("t3", 5, 0), ("t4", 4, 0), ("t5", 3, 0), ("ev", 4, 0), ("ee", 3, 0), ("es", 6, 12000), ("es", 12, 12000), ("s3", 80, 6000), ("s4", 60, 12000), ("s5", 40, 9000)]
DEEP = [("t3", 6, 0), ("t4", 5, 0), ("ev", 5, 0), ("ee", 4, 0), ("es", 6, 200000), ("es", 30, 100000), ("s3", 90, 100000), ("s4", 90, 200000), ("s5", 60, 150000)]

def geo_check(rep, deep=False):
    work = Work()
    try:
        exe = build("geo_h")
        rep.add(model_check("Geo", "GeoMC.cfg", "Geo (laws of the predicates, all 4-tuples on a 3x3 lattice)"))
        jobs = []
        for k, (c, n, cnt) in enumerate(DEEP if deep else QUICK):
            f = work.path(f"g{k}")
            p = subprocess.run([exe, c, str(n), str(rep.seed), str(cnt), f], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, timeout=600)
            if p.returncode:      # the predicates themselves crashed
                rep.violation("crash|%s" % c, "tabulating predicates of class %s ended with status %d" % (c, p.returncode), save_replay(rep.prop, "crash_%s.txt" % c, f"# build/geo_h {c} {n} {rep.seed} {cnt} OUT\n"))
                continue
            L = open(f).read().splitlines()
            w = sum(map(len, L)); parts = max(1, min(len(L), w // 400000 + (1 if c not in ("t5", "ee", "es") else 2)))
            for j in range(parts):
                part = work.path(f"g{k}.{j}"); open(part, "w").write("\n".join(L[j::parts]) + "\n")
                jobs.append((c, n, cnt, part))
        def one(a):
            c, n, cnt, part = a
            out, st = tlc("GeoTrace", None, {"TRACE": part}, ("-workers", "1"), heap="3g", workdir=work.d, timeout=3000 if deep else 800)
            F = printed(out, "FAIL")
            if not (tlc_ok(out) or F): raise Infra("trace validation failed:\n" + out[-3000:])
            t = open(part).read()
            m = t.count("],[") if c in ("t3", "t4") else t.count("]]") if c != "t5" else t.count(",")
            return a, F, st, t.count("\n"), m
        for a, F, st, nt, m in pmap(one, jobs):
            rep.add(st); rep.traces += nt; rep.samples += m
            for x in F[:20]:
                txt = "%s: %s" % (", ".join(x["tags"]), json.dumps(x["what"]))
                f = save_replay(rep.prop, "geo_%s.txt" % "_".join(sorted(x["tags"])), "# %s\n# replay: build/geo_h %s %d %d %d OUT.ndjson\n" % (txt, a[0], a[1], rep.seed, a[2]))
                rep.violation("%s|%s" % (a[0], "+".join(x["tags"])), txt, f)
        rep.cases += [{"class": j[0], "lattice": j[1]} for j in jobs[:3]]
    finally:
        work.done()
