"""Lubrication between close particles (spec Sing): the field, what is assembled of it, its forces."""
import math
from props import prop, chunks, Cases
from p_operators import fit, flags, TRUST

STRUST = TRUST + ["the formulas are smooth functions evaluated in floating point: the specification computes them with 20 decimals and allows the code 1e-8 of the largest term (0.5 % for forces, which are sums over sampled circles and spheres)"]
RADII = [(6, 6, 3), (8, 8, 4), (16, 16, 8), (6, 3, 2), (12, 6, 4), (6, 12, 4), (12, 4, 3), (20, 5, 4), (5, 20, 4), (15, 10, 6), (24, 8, 6), (24, 12, 8), (40, 40, 20), (30, 60, 20)]


def direction(r, D):
    if D == 2:
        q, v = r.choice([(1, [1, 0]), (5, [3, 4]), (13, [5, 12]), (17, [8, 15]), (25, [7, 24])])
    else:
        q, v = r.choice([(1, [0, 0, 1]), (3, [1, 2, 2]), (7, [2, 3, 6]), (9, [1, 4, 8]), (5, [0, 3, 4]), (11, [2, 6, 9])])
    v = [x * r.choice([-1, 1]) for x in v]
    r.shuffle(v)
    return q, v


def chi_lines(r, c, num):
    out = []
    for _ in range(num):
        l = r.choice([1, 2, 9, 50, 400])
        e = r.choice([x for x in (l, l, max(1, l // 2), max(1, l // 7)) if x <= l])
        s = sorted({0, max(0, l - e - 1), l - e, l - e + 1, l, l + 1, l + e - 1, l + e, l + e + 1, 3 * l} | {r.randint(0, 2 * l) for _ in range(8)})
        out.append(c.line("chi", l=l, e=e, s=s, w=r.choice(["0.0001", "1", "0.25", "0.003"])))
    return out


def field_lines(r, c, num):
    out = []
    while len(out) < num:
        D = r.choice([2, 2, 3])
        R1, R2, k = r.choice(RADII)
        w, a = r.choice([("0.01", r.choice([1, 1, 2, 3, 5, 9, 20, 60, 99])), ("0.015625", r.choice([1, 2, 4, 17, 63])), ("0.001", r.choice([1, 2, 30])), ("0.01", 103), ("1", r.choice([2, 5]))])
        m = min(R1, R2)
        h = r.randint(1, max(1, int(m / math.sqrt(2))))
        if 2 * h * h > m * m:
            continue
        q, v = direction(r, D)
        v1 = [r.randint(-4, 4) for _ in range(D)]
        v2 = [r.randint(-4, 4) for _ in range(D)]
        t = r.random()
        if t < .2:              # along the axis only, as far as integers go
            v2 = [x + r.choice([-1, 1]) * y for x, y in zip(v1, v)]
        elif t < .3:            # across only
            o = [-v[1], v[0]] if D == 2 else r.choice([[0, -v[2], v[1]], [-v[1], v[0], 0]])
            v2 = [x + y for x, y in zip(v1, o)]
        elif t < .35:
            v2 = list(v1)
        cut = math.sqrt(max(min(32 * a * k, m * m), 2 * h * h))
        pts = []
        for _ in range(5):
            # the distance to the axis, in quarters
            rho = r.choice([0, r.uniform(0, .3), r.uniform(0, 1), r.uniform(.5, 1), r.uniform(.97, 1.2)]) * 4 * cut
            if D == 2:
                x = [int(round(rho)) * r.choice([-1, 1])]
            else:
                an = r.choice([r.uniform(0, 2 * math.pi), 0, math.pi / 2])
                x = [int(round(rho * math.cos(an))), int(round(rho * math.sin(an)))]
            s = sum(y * y for y in x) / 16
            lo, hi = -s / (2 * R1), a + s / (2 * R2)
            z = int(round(4 * r.choice([lo, hi, 0, a, lo + (hi - lo) * r.random(), lo - (hi - lo) * .2])))
            pts += [z] + x if D == 2 else x + [z]
        out.append(c.line("field", D=D, R=[R1, R2], k=k, a=a, h=h, w=w, dir=v, q=q, c=[r.randint(-20, 40) for _ in range(D)], v1=v1, v2=v2, pts=pts))
    return out


def tang_lines(r, c, num):
    out = []
    for _ in range(num):
        D = r.choice([2, 2, 3])
        R1, R2, k = r.choice(RADII)
        a = r.choice([1, 1, 2, 3, 5, 9, 20])
        cut = r.choice([min(32 * a * k, min(R1, R2) ** 2), r.randint(20, 300)])
        if D == 3:      # differences are taken: nothing too narrow
            cut = max(cut, 150)
        l, e = (cut // 2, cut // 2) if r.random() < .4 else (cut, r.randint(max(1, cut // 3), cut))
        lim = math.sqrt(l + e)
        U = r.choice([-3, -1, 1, 2, 5])
        pts = []
        while len(pts) < (16 if D == 2 else 25):
            rho = 4 * r.choice([0, r.uniform(0, .2), r.uniform(0, 1), r.uniform(0, 1), r.uniform(.4, 1), r.uniform(.97, 1.2)]) * lim
            if D == 2:
                q = [r.choice([-1, 1]) * int(round(rho))]
                s = q[0] ** 2 / 16
            else:
                x, y, z = r.choice([(3, 4, 5), (5, 12, 13), (8, 15, 17), (1, 0, 1), (1, 0, 1), (7, 24, 25)])
                x, y = r.choice([(x, y), (y, x)])
                m = int(round(rho / z))
                q = [x * r.choice([-1, 1]), y * r.choice([-1, 1]), z, m]
                s = (m * z) ** 2 / 16
            lo, hi = -s / (2 * R1), a + s / (2 * R2)
            z = int(round(4 * r.choice([lo, hi, 0, a, lo + (hi - lo) * r.random(), lo + (hi - lo) * r.random(), lo - (hi - lo) * .2])))
            # differences across an edge of the cut-off say nothing
            if D == 3 and any(abs(math.sqrt(s) - math.sqrt(y)) < .1 for y in (l + e, l - e)):
                continue
            # what 20 decimals are enough for
            if D == 2 and abs(z / 4 - lo) ** 3 * s * s * abs(U) > 3e9:
                continue
            pts += [z] + q if D == 2 else q + [z]
        out.append(c.line("tang", D=D, R=[R1, R2], k=k, a=a, l=l, e=e, w=r.choice(["0.01", "1", "0.25", "0.1"]), U=U, pts=pts))
    return out


def scene(r, D, np, cells, h, w, num, mingap=1.5, lo=None):
    """particles: odd twice-centres, gaps above mingap; distances that are not about 1 (as a length)"""
    ps = []
    far = round(1 / float(w))
    rmin = lo or int(math.ceil(h[0] * math.sqrt(2) + .01))
    for _ in range(300):
        if len(ps) == num:
            return ps
        R = r.randint(rmin, rmin + r.choice([0, 3, 8]))
        if ps and r.random() < .85:             # next to another
            o = r.choice(ps)
            g = R + o[D] + r.choice([mingap, 2, 3, 6, 10])
            u = [r.gauss(0, 1) for _ in range(D)]
            if r.random() < .3:
                u = [0] * D
                u[r.randrange(D)] = r.choice([-1, 1])
            nu = math.sqrt(sum(x * x for x in u)) or 1
            x = [int(round((a + 2 * g * b / nu - 1) / 2)) * 2 + 1 for a, b in zip(o, u)]
        else:
            x = [2 * r.randint(0, n * k) + 1 for n, k in zip(cells, h)]
        # the centre may lie a little outside
        if any(not -R < a < 2 * n * k + R for a, n, k in zip(x, cells, h)):
            continue
        ok = True
        for o in ps:
            d = math.sqrt(sum((a - b) ** 2 for a, b in zip(x, o))) / 2 - R - o[D]
            ok = ok and d >= mingap and abs(d - far) > .01
        if ok:
            ps.append(x + [R] + [r.randint(-4, 4) for _ in range(D)])
    return ps


def st_jobs(e, per_np, per_np3):
    r = e.rng
    c = Cases()
    jobs = []
    for np in [1, 2, 3, 4, 6]:
        lines, lines3 = [], []
        while len(lines) < per_np:
            n = [r.randint(5, 9) for _ in range(2)]
            if not fit(np, n, [0, 0]):
                continue
            h = r.choice([[10, 10], [10, 10], [10, 20], [20, 10]])
            w = r.choice(["0.01", "0.01", "0.04", "0.05"])
            ps = scene(r, 2, np, [2 * a - 2 for a in n], h, w, r.choice([1, 2, 2, 3, 3, 4]))
            if len(ps) > 1 or r.random() < .1:
                lines.append(c.line("st", D=2, n=n, h=h, w=w, seed=r.randint(1, 10**6), **{"p%d" % i: p for i, p in enumerate(ps)}))
        while len(lines3) < (per_np3 if np < 4 or not e.quick else min(per_np3, 1)):
            n = [r.randint(3, 5) for _ in range(3)]
            if not fit(np, n, [0, 0, 0]):
                continue
            h = [10, 10, 10]
            ps = scene(r, 3, np, [2 * a - 2 for a in n], h, "0.01", 2, lo=15)
            if len(ps) == 2:
                lines3.append(c.line("st", D=3, n=n, h=h, w="0.01", seed=r.randint(1, 10**6), **{"p%d" % i: p for i, p in enumerate(ps)}))
        for part in chunks(lines, 1 if e.quick else 3) + chunks(lines3, len(lines3) // 2 or 1):
            jobs.append(("h_sing", "TraceSing", part, np))
    return jobs


def life_jobs(e, per_np):
    r = e.rng
    c = Cases()
    jobs = []
    for np in [1, 2, 3, 4] if e.quick else [1, 2, 3, 4, 5, 6]:
        lines = []
        while len(lines) < per_np:
            n = [r.randint(6, 9) for _ in range(2)]
            if not fit(np, n, [0, 0]):
                continue
            h = r.choice([[10, 10], [10, 10], [10, 20]])
            ps = scene(r, 2, np, [2 * a - 2 for a in n], h, "0.01", r.choice([2, 2, 3]))
            if len(ps) < 2:
                continue
            ops = [r.choice(["setup", "setup", "solve:%d" % r.randint(0, 2), "solve:%d" % r.randint(0, 3), "change", "toggle"]) for _ in range(r.randint(3, 7))]
            if r.random() < .7:
                ops[0] = "setup"
            lines.append(c.line("life", n=n, h=h, w="0.01", bc=flags(r, 2, [0, 0]), seed=1, on=r.choice([1, 1, 0]), ops="/".join(ops + ["setup", "solve:1"]), **{"p%d" % i: p for i, p in enumerate(ps)}))
        for part in chunks(lines, 1 if e.quick else 3):
            jobs.append(("h_sing", "TraceSing", part, np))
    return jobs


def force_jobs(e, num):
    r = e.rng
    c = Cases()
    lines = []
    while len(lines) < num:
        D = r.choice([2, 2, 3])
        n = [r.randint(4, 7 if D == 2 else 5) for _ in range(D)]
        h = [10] * D
        w = r.choice(["0.01", "0.01", "0.05"])
        ps = scene(r, D, 1, [2 * a - 2 for a in n], h, w, r.choice([2, 2, 3]), mingap=3)
        if len(ps) > 1:
            lines.append(c.line("force", D=D, n=n, h=h, w=w, M=64, **{"p%d" % i: p for i, p in enumerate(ps)}))
    return [("h_sing", "TraceSing", part, 1) for part in chunks(lines, 6 if e.quick else 16)]


@prop("C28", "random pairs of circles and spheres (equal and unequal radii, gaps, directions, motions along, across and at rest), points on the axis, on both surfaces, between, behind, at and beyond the cut-off; the cut-off and its four derivatives",
      STRUST)
def c28(e):
    e.model("MCSing", "MCSing.cfg" if e.quick else "MCSing_full.cfg")
    c = Cases()
    num = 90 if e.quick else 2500
    lines = field_lines(e.rng, c, num) + chi_lines(e.rng, c, num // 5)
    e.run_jobs([("h_sing", "TraceSing", part, 1) for part in chunks(lines, 6 if e.quick else 24)])


@prop("C29", "random scenes of one to four circles (2D) and two spheres (3D) near and far, in, across and at the edges of the domain, 1 to 6 processes; every node's right-hand side and last solution compared with sums over the sampling points; histories of DtoN problems with the singularities turned on and off, compared problem by problem with the same histories without",
      STRUST + ["sampled values are rounded to five digits (2D), to one in 4000 of the largest (3D)"])
def c29(e):
    e.model("MCSing", "MCSing.cfg" if e.quick else "MCSing_full.cfg")
    e.run_jobs(st_jobs(e, 6, 1) + life_jobs(e, 3) if e.quick else st_jobs(e, 60, 6) + life_jobs(e, 40))


@prop("C30", "random scenes of two and three circles or spheres; forces on the particles, of a problem, and on top of those of the control, with 100 and with more sampling points",
      STRUST)
def c30(e):
    e.model("MCSing", "MCSing.cfg" if e.quick else "MCSing_full.cfg")
    e.run_jobs(force_jobs(e, 24 if e.quick else 400))


@prop("C32", "random pairs of circles and spheres of equal and unequal radii, gaps, cut-offs and speeds; points on the axis, on both surfaces, between, behind, inside, across and beyond the cut-off; in 2D all values against the specification, in 3D the pressure, and velocities, gradients, divergences and cylindrical components against each other",
      STRUST[:-1] + ["in 3D gradients across the axis are compared with fourth-order differences over 1/64 of the unit, to 1e-4 of the largest term"])
def c32(e):
    e.model("MCTang", "MCTang.cfg" if e.quick else "MCTang_full.cfg")
    num = 200 if e.quick else 4000
    e.run_jobs([("h_sing", "TraceSing", part, 1) for part in chunks(tang_lines(e.rng, Cases(), num), 10 if e.quick else 40)])
