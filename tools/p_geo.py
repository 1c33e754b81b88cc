"""Geometry of the particles (spec Geo)."""
import itertools, json, re
from props import prop, chunks, Cases
from engine import Broken

ONE = ["the observation program and TLC report what they saw", "values compared are integers (scaled), so rounding of the code below 1e-7 relative is not seen"]
HG = ("h_geo", "TraceGeo")


def proper(D, n):
    r = []
    for lo in itertools.product(range(n + 1), repeat=D):
        for hi in itertools.product(range(n + 1), repeat=D):
            if all(a <= b for a, b in zip(lo, hi)):
                r.append(list(lo) + list(hi))
    return r


def go(e, lines, n):
    e.run_jobs([HG + (p, 1) for p in chunks(lines, n)])


@prop("C03", "pairs of boxes (all pairs of a 3x3 window in the plane in the thorough check, random larger ones, integer and half-integer coordinates, 2D and 3D), every operation and every point of a window around them",
      ONE)
def c03(e):
    e.model("MCGeo", "MCGeo.cfg" if e.quick else "MCGeo_full.cfg")
    c = Cases()
    r = e.rng
    lines = []

    def add(D, a, b, shift=0):
        t, u = r.choice([("int", 1), ("double", 2), ("double", 1), ("int", 1)])
        s = [r.randint(-shift, shift) for _ in range(D)] * 2
        a, b = [x + y for x, y in zip(a, s)], [x + y for x, y in zip(b, s)]
        w = max(abs(x) for x in a + b) + 1
        lines.append(c.line("box", D=D, t=t, unit=u, win=min(w, 6 if D == 2 else 4), a=a, b=b))
    B2, B3 = proper(2, 2), proper(3, 1)
    for D, B, k in ((2, B2, 250 if e.quick else None), (3, B3, 120 if e.quick else None)):
        pairs = [(a, b) for a in B for b in B]
        for a, b in (pairs if k is None else r.sample(pairs, k)):
            add(D, a, b, 2)
    for _ in range(200 if e.quick else 1500):
        D = r.choice([2, 2, 3])

        def bx():
            lo = [r.randint(-4, 3) for _ in range(D)]
            return lo + [x + r.choice([0, 1, 1, 2, 3]) for x in lo]
        add(D, bx(), bx())
    go(e, lines, 7 if e.quick else 14)


@prop("C22", "random integer operands (zero, negative, equal), every operator and assignment of positions, vectors, velocities and forces, int and double, 2D and 3D, operands looked at afterwards; all cross products",
      ONE)
def c22(e):
    e.model("MCGeo", "MCGeo.cfg" if e.quick else "MCGeo_full.cfg")
    c = Cases()
    r = e.rng
    lines = []
    for k in range(120 if e.quick else 1500):
        D = 2 + k % 2
        m = r.choice([1, 3, 20, 200])
        x, y = ([r.randint(-m, m) for _ in range(D)] for _ in "xy")
        if r.random() < .1:
            y = list(x)
        z = [r.choice([-1, 1]) * r.randint(1, 12) for _ in range(D)]
        lines.append(c.line("alg", D=D, x=x, y=y, z=z, s=r.choice([-1, 1]) * r.randint(1, 9)))
    go(e, lines, 6)


def rot_scripts(e, num, length):
    rc, txt, st = e.tlc("RotGen", "RotGen.cfg", extra=("-simulate", "num=%d" % num, "-depth", str(length + 2), "-seed", str(e.seed)), timeout=300)
    r = [json.loads(m.group(1).replace("\n", "").replace('\\"', '"')) for m in re.finditer(r'<<"SCRIPT", "(\{.*?\})">>', txt, re.S)]
    if len(r) < num:
        raise Broken("only %d of %d behaviours from TLC:\n%s" % (len(r), num, txt[-2000:]))
    e.states += num * (length + 1)
    return r


@prop("C23", "histories of seven rotations and inverses simulated by TLC (axes and angles with rational matrix, angles with full turns added), replayed on points whose images are integers; random axes of any length for what is kept",
      ONE)
def c23(e):
    e.model("MCGeo", "MCGeo.cfg" if e.quick else "MCGeo_full.cfg")
    c = Cases()
    r = e.rng
    lines = []
    for s in rot_scripts(e, 60 if e.quick else 600, 7):
        gens = []
        for g in s["gens"]:
            gens += g["n"] + [g["m"], g["c"], g["s"], g["q"], r.choice([0, 0, 1, -1, 2])]
        pts = [2025 * r.randint(-3, 3) for _ in range(2 * s["D"])]
        lines.append(c.line("rot", D=s["D"], pts=pts, gens=gens, steps=s["steps"]))
    for _ in range(60 if e.quick else 600):
        n = [r.randint(-4, 4) for _ in range(3)]
        if not any(n):
            continue
        lines.append(c.line("axis", n=n, angle=round(r.uniform(-7, 7), 3), pts=[r.randint(-40, 40) for _ in range(9)]))
    go(e, lines, 6)


AX3 = [[0, 0, 1, 1], [1, 0, 0, 1], [0, -1, 0, 1], [0, 3, 4, 5], [2, -1, 2, 3]]


@prop("C24", "random discs, spheres, rotated super-ellipses and super-ellipsoids with axes in quarters: inside test on the whole lattice of quarters, bounding boxes, sampled and parametric surface points, measures; equally spaced parameters",
      ONE + ["lattice points exactly on the boundary may fall either way"])
def c24(e):
    e.model("MCGeo", "MCGeo.cfg" if e.quick else "MCGeo_full.cfg")
    c = Cases()
    r = e.rng
    lines = []
    kinds = ["circle", "se2", "se2", "se2", "sphere", "se3"] * (4 if e.quick else 40)
    for kind in kinds:
        D = 2 if kind in ("circle", "se2") else 3
        none = r.random() < .3
        if D == 2:
            g = [0, 0, 1, 1] + r.choice([[0, 1, 1], [3, 4, 5], [-4, 3, 5], [4, -3, 5], [-1, 0, 1]])
        else:
            g = r.choice(AX3[:3]) + r.choice([[0, 1, 1], [-1, 0, 1], [3, 4, 5]])
            if r.random() < .2:
                g = r.choice(AX3[3:4]) + r.choice([[-1, 0, 1], [1, 0, 1]])
        if none:
            g = [0, 0, 1, 0, 1, 0, 1]
        n = ee = 2
        if kind == "circle":
            R = [r.choice([2, 4, 8]) if r.random() < .5 else r.randint(2, 14)]
        elif kind == "sphere":
            R = [r.choice([2, 4]) if r.random() < .5 else r.randint(2, 5)]
        else:
            n = r.choice([1, 2, 2, 4, 4])
            lim = {2: 12, 3: 5}[D]
            same = not none and r.random() < .35     # all axes the same: what sticks out is the corners
            for _ in range(100):
                R = [r.randint(lim // 2, lim)] * D if same else [r.randint(2, lim) for _ in range(D)]
                L = R[0]
                for x in R[1:]:
                    a, b = L, x
                    while b:
                        a, b = b, a % b
                    L = L * x // a
                ee = n
                if D == 3:
                    n, ee = r.choice([(2, 2), (4, 2), (2, 4), (4, 4), (2, 1)])
                if same and r.random() < .8:
                    n, ee = 4, r.choice([2, 4])
                den = 1 if none else g[6] * g[3] ** 2
                # 32-bit integers in the specification
                if 2 * (L * den) ** max(n, ee) < 2 ** 31 and L * den * max(R) < 2 ** 20:
                    break
            else:
                continue
        if none or kind in ("circle", "sphere"):
            w = max(R) + 1
        else:       # the rotated axes (Reach in the specification)
            nn, m, co, si, q = g[:3], g[3], g[4], g[5], g[6]

            def turn(v):
                x = [nn[1] * v[2] - nn[2] * v[1], nn[2] * v[0] - nn[0] * v[2], nn[0] * v[1] - nn[1] * v[0]]
                d = sum(a * b for a, b in zip(nn, v))
                return [(co * m * m * v[i] + si * m * x[i] + (q - co) * d * nn[i]) / (q * m * m) for i in range(3)]
            w = int(max(sum(abs(turn([R[k] if j == k else 0 for j in range(3)])[d]) for k in range(D)) for d in range(D))) + 2
        h = [r.choice([1, 2, 2, 3, 4, 5]) for _ in range(D)]
        C = [r.randint(-20, 20) for _ in range(D)]
        lines.append(c.line("shape", D=D, kind=kind, c=C, r=R, n=n, e=ee, h=h, win=w,
                            k=r.choice([16, 32, 64, 100] if D == 2 else [64, 100]), g=g + [r.choice([0, 0, 1])]))
    for _ in range(12 if e.quick else 120):
        a, end = r.randint(-40, 40), r.randint(0, 1)
        lines.append(c.line("lin", D=2, a=a, b=a + r.choice([0, 1, 8, r.randint(1, 60)]), n=r.choice([2, 3, 4, r.randint(2, 60)] + [1] * (1 - end)), end=end, dflt=r.randint(0, 1)))
    go(e, lines, 7 if e.quick else 21)
