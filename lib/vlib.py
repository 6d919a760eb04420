"""Common driver of the checks: building harnesses from /repo, running TLC,
running harness sessions in parallel, reporting."""
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("TQ_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
BUILD = os.environ.get("TQ_BUILD", os.path.join(VERIF, "build"))
NCPU = min(8, os.cpu_count() or 1)
JAR = "/opt/veriftools/tla/tla2tools.jar"

class Infra(Exception):
    pass

def log(*a): print(*a, flush=True)

# ------------------------------------------------------------------ building
def config_header(d):
    os.makedirs(d, exist_ok=True)
    src = open(os.path.join(REPO, "auxiliary", "TQMeshConfig.h.in")).read()
    src = src.replace("@CMAKE_SOURCE_DIR@", REPO).replace("@TQMESH_SOURCE_DIR@", REPO)
    src = re.sub(r"@[A-Za-z_]*VERSION_M[A-Z]*@", "0", src)
    src = re.sub(r"@[A-Za-z_]+@", REPO, src)
    p = os.path.join(d, "TQMeshConfig.h")
    open(p, "w").write(src)

def build(name, flags=("-O1", "-DNDEBUG"), suffix=""):
    """compile harness/<name>.cpp against /repo's current sources"""
    inc = os.path.join(BUILD, "inc")
    config_header(inc)
    out = os.path.join(BUILD, name + suffix)
    tmp = out + ".%d" % os.getpid()
    cmd = ["g++", "-std=c++17", "-w", *flags, "-I", inc, "-I", f"{REPO}/src/utils", "-I", f"{REPO}/src/algorithm",
           "-I", f"{REPO}/src/app", "-I", os.path.join(VERIF, "harness"), os.path.join(VERIF, "harness", name + ".cpp"), "-o", tmp]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise Infra("harness %s does not build:\n%s" % (name, p.stdout[-3000:]))
    os.replace(tmp, out)
    return out

# ------------------------------------------------------------------ TLC
def tlc(module, cfg=None, env=None, args=(), timeout=800, heap="2g", workdir=None):
    """run TLC; returns (stdout, stats)"""
    e = dict(os.environ); e.update(env or {})
    md = tempfile.mkdtemp(prefix="tlc", dir=workdir)
    cp = ":".join([JAR] + sorted(glob.glob("/opt/veriftools/tla/*.jar")))
    cmd = ["java", "-Djava.io.tmpdir=" + md, "-Xss16m", "-Xmx" + heap, "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=4", "-cp", cp, "tlc2.TLC", "-metadir", md, "-noGenerateSpecTE",
           "-config", cfg or module + ".cfg", *args, module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Infra("TLC timed out on " + module)
    finally:
        shutil.rmtree(md, ignore_errors=True)
    st = {"states": 0, "distinct": 0}
    m = re.findall(r"(\d+) states generated, (\d+) distinct", p.stdout)
    if m: st = {"states": int(m[-1][0]), "distinct": int(m[-1][1])}
    m = re.findall(r"The number of states generated: (\d+)", p.stdout)
    if m: st["states"] = int(m[-1]); st["distinct"] = st["distinct"] or int(m[-1])
    st["rc"] = p.returncode
    return p.stdout, st

def printed(out, tag):
    """values of PrintT(<<tag, ToJson(..)>>)"""
    r = []
    for m in re.finditer(r'<<"%s", "((?:[^"\\]|\\.)*)">>' % tag, out):
        r.append(json.loads(json.loads('"' + m.group(1) + '"')))
    return r

def tlc_ok(out): return "Model checking completed. No error has been found" in out

def failures(out, path, prop, e="call"):
    """rejected traces of a validation run.  A value that the specification cannot even interpret (TLC stops
    evaluating, e.g. a point outside every range of the model) is no behaviour of it either."""
    F = printed(out, "FAIL")
    if F or tlc_ok(out): return F
    s, l = re.findall(r"^/\\ sid = (\d+)", out, re.M), re.findall(r"^/\\ [lkj] = (\d+)", out, re.M)
    if s and l and ("TLC was evaluating" in out or "Overflow when computing" in out or "Attempted to" in out):
        rec = json.loads(open(path).read().splitlines()[int(s[-1])-1])
        log("  note: TLC could not evaluate trace %s" % rec["id"])
        return [{"id": rec["id"], "at": int(l[-1]), "e": e, "tags": [prop + ".outside-the-specification"]}]
    raise Infra("trace validation failed:\n" + out[-3000:])

def model_check(module, cfg, what, env=None, args=(), timeout=800, heap="6g"):
    """exhaustive check of a model; a violation here means the specification itself is wrong"""
    out, st = tlc(module, cfg, env, ("-workers", str(NCPU)) + tuple(args), timeout, heap)
    if not tlc_ok(out):
        raise Infra("model %s/%s does not satisfy its own properties:\n%s" % (module, cfg, out[-4000:]))
    log("  model %s: %d states generated, %d distinct: ok" % (what, st["states"], st["distinct"]))
    return st

# ------------------------------------------------------------------ parallel helpers
def pmap(f, xs, n=NCPU):
    with cf.ThreadPoolExecutor(n) as ex:
        return list(ex.map(f, xs))

def chunks(xs, n):
    k = max(1, (len(xs)+n-1)//n)
    return [xs[i:i+k] for i in range(0, len(xs), k)]

class Work:
    """scratch directory of one check run"""
    def __init__(self):
        base = os.path.join(VERIF, "out"); os.makedirs(base, exist_ok=True)
        self.d = tempfile.mkdtemp(prefix="w", dir=base)
    def path(self, n): return os.path.join(self.d, n)
    def done(self): shutil.rmtree(self.d, ignore_errors=True)

# ------------------------------------------------------------------ reporting
class Report:
    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.states = 0; self.trans = 0; self.traces = 0; self.samples = 0
        self.viol = []      # list of dicts
        self.known = []
        self.assume = []
        self.extra = {}
        self.cases = []     # a few actual cases of this run
    def add(self, st):
        self.states += st.get("distinct", 0); self.trans += st.get("states", 0)
    def violation(self, key, text, replay):
        self.viol.append({"key": key, "text": text, "replay": replay})

def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.txt")
    r = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                k = json.loads(l)
                if k.get("property") == prop and k.get("status") == "known": r.append(k)
    return r

def finish(rep):
    known = known_findings(rep.prop)
    fresh, seen = [], {}
    for v in rep.viol:
        k = next((k for k in known if re.fullmatch(k["match"], v["key"])), None)
        if k is None: fresh.append(v)
        else: seen[k["id"]] = k
    for k in known:
        log("KNOWN-FINDING: property=%s %s%s" % (rep.prop, k["what"], "" if k["id"] in seen else " (not exercised by this run)"))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    mc = {"states": rep.states, "transitions": rep.trans, "traces_validated_against_impl": rep.traces, "events": rep.samples, "samples": rep.cases[:3]}
    mc.update(rep.extra)
    ev = {"property": rep.prop, "tier": rep.tier, "seed": rep.seed, "level": rep.level,
          "coverage": mc,
          "assumptions": rep.assume, "wall_s": round(time.time()-rep.t0, 1), "violations": len(fresh)}
    json.dump(ev, open(os.path.join(VERIF, "evidence", rep.prop + ".json"), "w"), indent=1)
    log("%s %s: %d model states, %d traces of the real code validated (%d events), %d violation(s), %.1f s" %
        (rep.prop, rep.tier, rep.states, rep.traces, rep.samples, len(fresh), time.time()-rep.t0))
    for v in fresh[:10]: log("  " + v["text"])
    for v in fresh[:3]: log("VIOLATION property=%s replay=%s" % (rep.prop, v["replay"]))
    return 1 if fresh else 0

def save_replay(prop, name, text):
    d = os.path.join(VERIF, "out", "replay", prop); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, name); open(p, "w").write(text)
    return p
