"""Turns abstract sessions (behaviours of spec/Session.tla) into concrete
harness scripts: every abstract layout gets concrete polygons, sizes, markers;
every abstract call gets concrete arguments."""
import math, random

def area(p):
    return sum(p[i][0]*p[(i+1) % len(p)][1]-p[(i+1) % len(p)][0]*p[i][1] for i in range(len(p)))/2

def star(rng, cx, cy, rmin, rmax, n):
    a0 = rng.random()*6.28
    out = []
    for i in range(n):
        r = rng.uniform(rmin, rmax)
        out.append((round(cx+r*math.cos(a0+2*math.pi*i/n), 3), round(cy+r*math.sin(a0+2*math.pi*i/n), 3)))
    return out

def single_shape(rng):
    k = rng.randrange(12)
    if k == 0:
        w, h = rng.choice([2, 3, 4]), rng.choice([2, 3, 4]); return [(0, 0), (w, 0), (w, h), (0, h)]
    if k == 1: return [(0, 0), (4, 0), (4, 2), (2, 2), (2, 4), (0, 4)]
    if k == 2: return [(0, 0), (5, 0), (5, 4), (4, 4), (4, 1), (1, 1), (1, 4), (0, 4)]
    if k == 3: return star(rng, 2.5, 2.5, 1.5, 2.5, rng.randrange(5, 10))
    if k == 4: return [(0, 0), (3, 0), (round(rng.uniform(0.5, 2.5), 2), 2.5)]
    if k == 5:
        x = round(rng.uniform(-2, 2), 2); return [(x, 0), (x+3, 0.5), (x+3.5, 3), (x+0.5, 2.5)]
    if k == 6: return [(0, 0), (2, 0), (2, 1), (4, 1), (4, 3), (2, 3), (2, 4), (0, 4)]
    if k == 7: return [(0, 0), (6, 0), (6, 1), (0, 1)]                      # thin channel
    if k == 8: return [(0, 0), (1, 0), (2, 0), (3, 0), (4, 0), (4, 3), (2, 3), (0, 3)]   # collinear corners
    if k == 9: return [(0, 0), (4, 0), (4, 4), (2, 1.2), (0, 4)]            # notch
    if k == 10: return star(rng, 2, 2, 1.9, 2.1, rng.randrange(10, 18))     # round
    return [(0, 0), (5, 0), (5, 1), (3.5, 1), (3.5, 2), (5, 2), (5, 3), (0, 3)]

def inside(p, poly):
    c = False
    n = len(poly)
    for i in range(n):
        a, b = poly[i], poly[(i+1) % n]
        if (a[1] > p[1]) != (b[1] > p[1]):
            if p[0] < (b[0]-a[0])*(p[1]-a[1])/(b[1]-a[1])+a[0]: c = not c
    return c

def dist(p, poly):
    d = 1e9
    n = len(poly)
    for i in range(n):
        a, b = poly[i], poly[(i+1) % n]
        vx, vy = b[0]-a[0], b[1]-a[1]
        t = max(0, min(1, ((p[0]-a[0])*vx+(p[1]-a[1])*vy)/(vx*vx+vy*vy)))
        d = min(d, math.hypot(p[0]-a[0]-t*vx, p[1]-a[1]-t*vy))
    return d

def interior_points(rng, rings, n, margin):
    xs = [x for x, _ in rings[0]]; ys = [y for _, y in rings[0]]
    out = []
    for _ in range(200):
        if len(out) == n: break
        p = (round(rng.uniform(min(xs), max(xs)), 2), round(rng.uniform(min(ys), max(ys)), 2))
        if not inside(p, rings[0]) or dist(p, rings[0]) < margin: continue
        if any(inside(p, r) or dist(p, r) < margin for r in rings[1:]): continue
        if any(math.hypot(p[0]-q[0], p[1]-q[1]) < margin for q in out): continue
        out.append(p)
    return out

def layout_rings(kind, rng, opts):
    """domain -> list of rings (first the exterior, then the holes)"""
    if kind == "single":
        R = [single_shape(rng)]
        if opts["holes"] and len(R[0]) == 4 and rng.random() < .6:
            c = (sum(x for x, y in R[0])/4, sum(y for x, y in R[0])/4)
            r = dist(c, R[0])
            R.append(star(rng, c[0], c[1], r*.25, r*.5, rng.randrange(3, 7)))
        return {1: R}
    if kind == "pair":
        k = rng.randrange(5)
        if k == 0: return {1: [[(0, 0), (3, 0), (3, 3), (0, 3)]], 2: [[(3, 0), (6, 0), (6, 3), (3, 3)]]}
        if k == 1: return {1: [[(0, 0), (3, 0), (3, 1), (3, 2), (3, 3), (0, 3)]], 2: [[(3, 1), (5, 1), (5, 2), (3, 2)]]}
        if k == 2: return {1: [[(0, 0), (3, 0), (1.3, 2.7)]], 2: [[(3, 0), (4.5, 2.5), (1.3, 2.7)]]}
        if k == 3: return {1: [[(0, 0), (4, 0), (4, 2), (2, 2), (2, 4), (0, 4)]], 2: [[(2, 2), (4, 2), (4, 4), (2, 4)]]}
        return {1: [[(0, 0), (2, 0), (2, 2), (0, 2)]], 2: [[(0, 2), (2, 2), (2.5, 4), (-.5, 4)]]}
    if kind == "hole":
        q = rng.choice([[(1, 1), (1, 2), (2, 2), (2, 1)], [(1, 1), (1.2, 2.2), (2.1, 1.4)],
                        [(.8, 1), (1, 2), (1.6, 2.3), (2.2, 2), (2.1, .9)]])
        return {1: [[(0, 0), (3, 0), (3, 3), (0, 3)], q], 2: [q[::-1]]}
    if kind == "row":
        return {1: [[(0, 0), (2, 0), (2, 2), (0, 2)]], 2: [[(2, 0), (4, 0), (4, 2), (2, 2)]],
                3: [[(4, 0), (6, .5), (6, 2), (4, 2)]]}
    if kind == "fan":
        return {1: [[(0, 0), (3, 0), (1.3, 2.7)]], 2: [[(3, 0), (4.5, 2.5), (1.3, 2.7)]],
                3: [[(3, 0), (5, 0), (4.5, 2.5)]]}
    if kind == "step":
        k = rng.randrange(4)
        if k == 0: return {1: [[(0, 0), (3, 0), (3, 3), (0, 3)]], 2: [[(3, -1), (5, -1), (5, 4), (3, 4)]]}
        if k == 1: return {1: [[(0, 0), (3, 0), (3, 2), (0, 2)]], 2: [[(3, 0), (6, 0), (6, 4), (3, 4)]]}
        if k == 2: return {1: [[(0, 0), (2, 0), (3, 2), (-1, 2)]], 2: [[(-2, 2), (4, 2), (4, 4), (0, 5)]]}
        return {1: [[(1, 0), (2, 0), (2, 1), (1, 1)]], 2: [[(0, 1), (4, 1), (4, 3), (0, 3)]]}
    if kind == "tee":
        k = rng.randrange(3)
        if k == 0: return {1: [[(0, 0), (2, 0), (2, 2), (0, 2)]], 2: [[(0, 2), (2, 2), (2, 4), (0, 4)]], 3: [[(2, 0), (4, 0), (4, 4), (2, 4)]]}
        if k == 1: return {1: [[(0, 0), (2, 0), (2, 2), (0, 2)]], 2: [[(0, 3), (2, 3), (2, 5), (0, 5)]], 3: [[(2, -1), (4, -1), (4, 6), (2, 6)]]}
        return {1: [[(0, 0), (2, 0), (2, 2), (0, 2)]], 2: [[(4, 3), (6, 3), (6, 5), (4, 5)]], 3: [[(2, -1), (4, 0), (4, 6), (2, 4)]]}
    if kind == "stagger":
        a, b = sorted(round(rng.uniform(-1, 4), 2) for _ in range(2))
        if b-a < 1.2: b = a+1.2
        return {1: [[(0, 0), (3, 0), (3, 3), (0, 3)]], 2: [[(3, a), (5, a), (5, b), (3, b)]]}
    if kind == "grid":
        def sq(x, y): return [(x, y), (x+2, y), (x+2, y+2), (x, y+2)]
        return {1: [sq(0, 0)], 2: [sq(2, 0)], 3: [sq(0, 2)], 4: [sq(2, 2)]}
    raise ValueError(kind)

class Session:
    def __init__(self, hist, seed, focus, off=0, shift=(0, 0)):
        self.off, self.shift = off, shift
        self.rng = random.Random(f"{seed}/{focus}")
        self.focus = focus
        self.lines = []
        self.nw = 0
        lay = hist[0]
        rng = self.rng
        self.thin = lay["r"] >= 16      # Thin(r) of the specification
        opts = {"holes": not self.thin and (focus not in ("C03",) or rng.random() < .3)}
        R = layout_rings(lay["k"], rng, opts)
        # placement: most sessions near the origin, some shifted, rotated, scaled
        t = rng.randrange(10)
        if shift != (0, 0): t = 0
        if lay["k"] in ("step", "tee", "stagger") and t in (7, 9): t = 6    # corners on a neighbour's side: exact coordinates
        sc, th, tx, ty, qs = 1.0, 0.0, 0.0, 0.0, None
        if t == 6: tx, ty = rng.choice([(-20, 13), (30, -25), (-7.5, -7.25)])
        if t == 7: th = rng.uniform(0, 6.28)
        if t == 8: sc = rng.choice([.25, 8.0]); 
        if t == 9:
            sc, th, tx, ty = rng.choice([.5, 2.0]), rng.uniform(0, 6.28), rng.uniform(-10, 10), rng.uniform(-10, 10)
        if rng.random() < .25: qs = (rng.choice([100, 150]), rng.choice([3, 10, 50]), rng.choice([8, 12]))
        tx += shift[0]; ty += shift[1]
        c, s = math.cos(th), math.sin(th)
        def T(p):
            if th == 0.0: return (p[0]*sc+tx, p[1]*sc+ty)
            return ((p[0]*c-p[1]*s)*sc+tx, (p[0]*s+p[1]*c)*sc+ty)
        self.sc = sc
        self.R = {d: [[T(p) for p in ring] for ring in rings] for d, rings in R.items()}
        self.R0 = R
        self.T = T
        self.qs = qs
        self.kind = lay["k"]
        self.idkind = rng.randrange(10)      # mesh identifiers are the caller's choice: distinct, all equal, reversed
        for d in sorted(R): self.domain(d)
        self.decl = {}
        for h in hist[1:]: self.cmd(h)

    def emit(self, op, m, *a):
        if op == "merge": a = (a[0]+self.off,)
        if op == "mesh": a = (a[0]+self.off,) + a[1:]
        self.lines.append(" ".join(str(x) for x in (op, m+self.off) + a))

    def domain(self, d):
        rng, sc = self.rng, self.sc
        h = rng.choice([.2, .25, .3, .4] if self.thin else [.35, .4, .5, .6, .8, 1.0, 1.5])*sc
        rings = self.R[d]
        k = rng.randrange(5)
        builtin = self.kind == "single" and rng.random() < .08
        if builtin: k = 0
        q = (" %g %d %d" % self.qs) if self.qs else ""
        cx, cy = rings[0][0]
        if k < 3 or self.kind != "single": self.emit("dom", d, "const", repr(h) + q)
        elif k == 3:
            self.emit("dom", d, "gauss", repr(h), repr(h*rng.choice([.4, .6])), repr(cx+sc*rng.uniform(0, 3)), repr(cy+sc*rng.uniform(0, 3)), repr(sc*rng.uniform(.5, 1.5)) + q)
        else:
            b, cc = rng.uniform(0, .08), rng.uniform(0, .08)
            x0 = min(x for x, y in rings[0]); y0 = min(y for x, y in rings[0])
            self.emit("dom", d, "lin", repr(h-b*x0-cc*y0), repr(b), repr(cc) + q)
        for i, ring in enumerate(rings):
            sized = rng.random() < .15
            ring = ring[::-1] if rng.random() < .35 else ring
            j = rng.randrange(len(ring)) if rng.random() < .3 else 0
            ring = ring[j:]+ring[:j]
            base = 10*d+3*i
            pr = lambda: (f"{rng.choice([.2,.3])*sc} {rng.choice([.3,.6])*sc}" if sized and rng.random() < .4 else "-1 -1")
            if builtin and i == 0:
                # built-in shapes
                z = rng.randrange(4); self.R0[d] = None
                if z == 0: self.emit("circ", d, "ext", base, 1.5+self.shift[0], 0.5+self.shift[1], 2.0*sc, rng.choice([8, 12, 20])); 
                if z == 1: self.emit("rect", d, "ext", base, 1.5+self.shift[0], 0.5+self.shift[1], 3*sc, 2*sc)
                if z == 2: self.emit("square", d, "ext", base, -1.5+self.shift[0], 0.25+self.shift[1], 3*sc)
                if z == 3: self.emit("triangle", d, "ext", base, -1.5+self.shift[0], 0.25+self.shift[1], 4*sc)
                self.builtin = True
                return
            self.emit("ext" if i == 0 else "int", d, len(ring), *[f"{x!r} {y!r} {rng.randrange(base, base+3)} {pr()}" for x, y in ring])
        # fixed vertices / edges
        pf = {"C04": .8, "C05": .35, "C07": .35, "C03": .1}.get(self.focus, .2)
        if rng.random() < pf and not self.thin:
            pts = [self.T(p) for p in interior_points(rng, self.R0[d], rng.choice([1, 1, 2, 3]), .45)]
            for (x, y) in pts:
                self.emit("fixv", d, repr(x), repr(y), *(("-1", "-1") if rng.random() < .6 else (.25*sc, .5*sc)))
            if self.focus in ("C04", "mix") and len(pts) >= 2 and rng.random() < .4:
                self.emit("fixe", d, repr(pts[0][0]), repr(pts[0][1]), repr(pts[1][0]), repr(pts[1][1]))

    def cmd(self, h):
        rng, c, m, r = self.rng, h["c"], h.get("m"), h["r"]
        if c == "new": self.emit("mesh", m, m, m if self.idkind < 6 else 7 if self.idkind < 8 else 10-m, rng.choice([0, 1, m, 5]))
        elif c == "ql":
            ring = rng.choice(self.R[m]) if rng.random() < .3 else self.R[m][0]
            i = rng.randrange(len(ring)); j = rng.choice([i, i, (i+1) % len(ring), (i+2) % len(ring), rng.randrange(len(ring))])
            a, b = ring[i], ring[j]
            if self.thin and rng.random() < .8:      # thin layers, measured away from the corners
                self.emit("ql", m, rng.choice([1, 2, 3]), rng.choice([.01, .02, .03, .04])*self.sc, rng.choice([1, 1.2, 1.5, .8]),
                          repr(a[0]), repr(a[1]), repr(b[0]), repr(b[1]))
                return
            self.emit("ql", m, rng.choice([1, 1, 2, 3, 4]), rng.choice([.03, .05, .1, .2, .3])*self.sc, rng.choice([1, 1, 1.2, 1.5, 2]),
                      repr(a[0]), repr(a[1]), repr(b[0]), repr(b[1]))
        elif c == "trik": self.emit("tri" if r < 15 else "triex", m, 1+r if r < 13 else rng.randrange(1, 60))
        elif c == "tri": self.emit("tri" if r < 15 else "triex", m, 0)
        elif c == "smooth":
            self.emit("smooth", m, rng.choice(["laplace", "torsion", "mixed"]), rng.choice([0, 1, 2, 3, 5]) if r > 1 else rng.choice([1, 10]), r % 2)
        elif c == "write":
            self.nw += 1
            t = "txt" if r % 3 else "vtu"
            self.emit("write", m, t, rng.choice([f"@OUT@/w{self.off}_{self.nw}"]*8 + [f"@OUT@/w{self.off}_{self.nw}.{t}"]*2 + [f"@OUT@/w{self.off}_{self.nw}.dat", f"@OUT@/no/w{self.nw}"]))
        elif c == "merge": self.emit("merge", m, h["b"])
        else: self.emit(c, m)
