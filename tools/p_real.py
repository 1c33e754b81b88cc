"""Particle problems with the real Stokes solver: answers as functions of the scene (spec Real)."""
from props import prop, Cases
from p_operators import fit, TRUST
from p_solve import coarsenable


def rigid_at(s, m, x, y):
    L = [2 * (s["n"][d] - 1) * s["h"][d] for d in (0, 1)]
    return [8 * m[0] - m[2] * (y - 4 * L[1]), 8 * m[1] + m[2] * (x - 4 * L[0])]


def spin(s, k, w):
    return k * w if s["kind"] == "dton" else w


def apply(t, g, s):
    """the same transformations as in the specification (which checks them)"""
    s = {**s, "parts": [list(p) for p in s["parts"]]}
    L = [2 * (s["n"][d] - 1) * s["h"][d] for d in (0, 1)]
    w, b, P = s["wall"], s["body"], s["parts"]
    if t == "mirx":
        s.update(wall=[-w[0], w[1], -w[2]], body=[-b[0], b[1]],
                 parts=[[8 * L[0] - p[0], p[1], p[2], -p[3], p[4], spin(s, -1, p[5])] for p in P])
    if t == "miry":
        s.update(wall=[w[0], -w[1], -w[2]], body=[b[0], -b[1]],
                 parts=[[p[0], 8 * L[1] - p[1], p[2], p[3], -p[4], spin(s, -1, p[5])] for p in P])
    if t == "swap":
        s.update(n=s["n"][::-1], per=s["per"][::-1], h=s["h"][::-1], wall=[w[1], w[0], -w[2]], body=b[::-1],
                 parts=[[p[1], p[0], p[2], p[4], p[3], spin(s, -1, p[5])] for p in P])
    if t == "scale":
        k = g[0]
        s.update(wall=[k * x for x in w], body=[k * x for x in b],
                 parts=[[p[0], p[1], p[2], k * p[3], k * p[4], spin(s, k, p[5])] for p in P])
    if t == "order":
        s["parts"] = [P[i - 1] for i in g]
    if t == "kind":
        s["kind"] = "sem" if s["kind"] == "dton" else "dton"
    if t == "plain":
        s["sing"] = 1 - s["sing"]
    if t == "boost":
        s["wall"] = [x + y for x, y in zip(w, g)]
        if s["kind"] == "dton":
            Q = []
            for p in P:
                u = rigid_at(s, g, p[0], p[1])
                Q.append(p[:3] + [p[3] + u[0], p[4] + u[1], p[5] + g[2]])
            s["parts"] = Q
    if t == "shift":
        s["parts"] = [[p[0] + 8 * s["h"][0] * g[0], p[1] + 8 * s["h"][1] * g[1]] + p[2:] for p in P]
    return s


def inside(s):
    for p in s["parts"]:
        for d in (0, 1):
            m = p[2] + 12 * s["h"][d]
            if not m <= p[d] <= 16 * (s["n"][d] - 1) * s["h"][d] - m:
                return False
    return True


def scene(r, kind, nmax, least=1):
    """a random scene; discs inside, apart from each other, with control points"""
    while True:
        per = r.choice([[0, 0]] * 3 + [[1, 0], [0, 1]])
        s = dict(kind=kind, op=r.choice(["lap", "strain"]), n=[r.randint(5, nmax) + p for p in per], per=per,
                 h=r.choice([[1, 1], [1, 1], [1, 2], [2, 1]]), dp=r.choice([4, 6, 8, 10]), sing=0)
        rot = 0 if any(per) else r.choice([0, 0, 1, -2])
        s["wall"] = r.choice([[0, 0, 0], [r.randint(-3, 3), r.randint(-3, 3), rot]])
        s["body"] = r.choice([[0, 0], [r.randint(-2, 2), r.randint(-2, 2)]])
        H = max(s["h"])
        P = []
        none = least == 0 or r.random() < .06
        most = r.choice([2, 3, 3, 5])
        for _ in range(0 if none else r.choice([1, 3, 5, 8, 16])):
            rad = r.randint(11 * H, r.choice([16, 26]) * H)
            c = []
            for d in (0, 1):
                m, L = rad + 12 * s["h"][d], 16 * (s["n"][d] - 1) * s["h"][d]
                c.append(r.randint(m, L - m) if L - m >= m else -1)
            if len(P) == most or -1 in c or any((c[0] - p[0]) ** 2 + (c[1] - p[1]) ** 2 < (rad + p[2] + 4) ** 2 for p in P):
                continue
            w = r.randint(-2, 2) if kind == "dton" else r.choice([1, 2, 3])
            P.append([c[0], c[1], rad, r.randint(-16, 16), r.randint(-16, 16), w])
        if not P and not none:
            continue
        s["parts"] = P
        if r.random() < .2:     # everything one rigid motion
            s["body"] = [0, 0]
            for p in P:
                p[3:5] = rigid_at(s, s["wall"], p[0], p[1]) if kind == "dton" else [0, 0]
                if kind == "dton":
                    p[5] = s["wall"][2]
        return s


def plain(s):
    return all((p[0] - q[0]) ** 2 + (p[1] - q[1]) ** 2 >= (p[2] + q[2] + 8) ** 2 or (p[0] - q[0]) * (p[3] - q[3]) + (p[1] - q[1]) * (p[4] - q[4]) == 0
               for i, p in enumerate(s["parts"]) for q in s["parts"][:i])


def scene_sing(r, nmax):
    """discs with the lubrication field. Odd centres and even radii: no sampling point (a multiple of h/10)
    is on a surface, or on the lines through the centres of a pair along the lattice"""
    if r.random() < .1:
        return {**scene(r, "dton", nmax, 0), "sing": 1}
    while True:
        s = scene(r, "dton", nmax)
        H = s["h"][0]
        if s["h"][0] != s["h"][1]:
            continue
        L = [16 * (s["n"][d] - 1) * H for d in (0, 1)]
        P = []
        for _ in range(60):
            k = 2 * r.randint(6 * H, 9 * H)
            if any(2 * (k + 12 * H) > x for x in L):
                continue
            c = [r.randrange(k + 12 * H | 1, x - k - 12 * H + 1, 2) for x in L]
            d2 = [((c[0] - p[0]) ** 2 + (c[1] - p[1]) ** 2, k + p[2]) for p in P]
            if any(d < (m + 2) ** 2 for d, m in d2) or (P and len(P) < 2 and not any(d < (m + 8) ** 2 for d, m in d2)):
                continue
            if any(c[0] != p[0] and c[1] != p[1] and int(d ** .5 + .5) ** 2 == d for (d, m), p in zip(d2, P)):
                continue
            P.append([c[0], c[1], k, r.randint(-16, 16), r.randint(-16, 16), r.randint(-2, 2)])
            if len(P) == 3:
                break
        if len(P) < 2:
            continue
        s.update(parts=P, sing=1)
        t = r.random()
        if t < .15:     # nothing approaches
            for p in P:
                p[3:5] = P[0][3:5]
        elif t < .3:
            s["body"] = [0, 0]
            for p in P:
                p[3:5] = rigid_at(s, s["wall"], p[0], p[1])
                p[5] = s["wall"][2]
        return s


def transformations(r, s):
    per = s["per"]
    if not s["sing"] or plain(s):
        yield "mirx", []
        yield "miry", []
    if s["kind"] == "dton" and plain(s):
        yield "plain", []
    if not s["parts"] and not s["sing"]:
        yield "kind", []
    yield "swap", []
    yield "scale", [r.choice([-1, 2, -3])]
    yield "boost", [r.randint(-3, 3), r.randint(-3, 3), 0 if any(per) else r.choice([0, 1, -1])]
    if len(s["parts"]) > 1 and (not s["sing"] or plain(s)):
        g = list(range(1, len(s["parts"]) + 1))
        while g == sorted(g):
            r.shuffle(g)
        yield "order", g
    if any(per):
        ks = []
        for k in range(-16, 17, 2):
            g = [k * per[0], k * per[1]]
            if k and inside(apply("shift", g, s)):
                ks.append(g)
        if ks:
            yield "shift", r.choice(ks)


def line(c, s, t, g, k, meth, asm, on, its, again=0):
    kv = dict(scene=k, t=t, meth=meth, asm=asm, sing=s["sing"], on=on, its=its, kind=s["kind"], op=s["op"], n=s["n"], per=s["per"], h=s["h"],
              dp=s["dp"], wall=s["wall"], body=s["body"], again=again, parts=sum(s["parts"], []))
    if g:
        kv["arg"] = g
    return c.line("real", **kv)


def lines(c, r, kind, k, nps, nmax, pmm=False):
    while True:
        s = scene_sing(r, nmax) if kind == "sing" else scene(r, kind, nmax)
        if all(fit(np, s["n"], s["per"]) and fit(np, s["n"][::-1], s["per"][::-1]) for np in nps):
            break
    its = r.choice([1, 2, 3, 4, 5])
    pmm = pmm and coarsenable(s["n"], s["per"]) and min(s["n"]) > 6 and s["h"][0] == s["h"][1] and not (s["op"] == "strain" and any(s["per"]))
    if pmm:
        its = 1     # its inner solves are long
    par = [x for x in nps if x > 1]
    out = [line(c, s, "same", [], k, "gmres", 0, [1] + par, its)]
    out.append(line(c, s, "same", [], k, "gmres" if par and r.random() < .5 else "lug", 1, [1], its))
    if pmm:
        out.append(line(c, s, "same", [], k, "pmm", 0, [r.choice(nps)], its))
    T = list(transformations(r, s))
    must = ("order", "plain", "kind")
    for t, g in [x for x in T if x[0] in must] + r.sample([x for x in T if x[0] not in must], 2 if kind == "sing" else 3):
        out.append(line(c, apply(t, g, s), t, g, k, "gmres", 0, [r.choice(nps)], its, r.choice([0, 0, 1, 2])))
    return out


@prop("C31", "random scenes (0-5 discs, prescribed motion or force, moving walls, body force, periodic directions, steps, both formulations), each solved on 1 to 6 processes, assembled and matrix-free, with GMRES, LU or multigrid inside, and after transformations; field, pressure, velocities, forces and torques compared",
      TRUST + ["answers compared to 2e-4 of their largest value (inner solves converge to 1e-12, the number of outer iterations is fixed)", "2D circles (the only shape and dimension the particle problems compile with)"])
def c31(e):
    e.model("MCReal", "MCReal.cfg" if e.quick else "MCReal_full.cfg")
    if not e.quick:
        e.model("MCReal", "MCReal_deep.cfg")
    jobs = []
    for i in range(7 if e.quick else 42):
        c = Cases()
        nps = (1,) + e.rng.choice([(2,), (3,), (4,), (2, 3)] + ([] if e.quick else [(5,), (6,)]))
        ls = []
        for kind in ("sem", "dton"):
            for _ in range(2):
                ls += lines(c, e.rng, kind, c.k + 1, nps, 8 if e.quick else 10, i % 7 == 0)
        jobs.append(("h_real", "TraceReal", ls, nps, 300))
    e.run_jobs(jobs, par=4)


@prop("C34", "random scenes of 2-3 discs of which two are closer than 1, with prescribed motions and the lubrication field, each solved on 1 to 6 processes, assembled and matrix-free, after transformations, again on the same object, and without the field when it is zero",
      TRUST + ["answers compared to 2e-4 of their largest value (inner solves converge to 1e-12, the number of outer iterations is fixed)", "scenes with no sampling point on a surface"])
def c34(e):
    e.model("MCReal", "MCReal.cfg" if e.quick else "MCReal_full.cfg")
    jobs = []
    for i in range(6 if e.quick else 40):
        c = Cases()
        nps = (1,) + e.rng.choice([(2,), (3,), (4,), (2, 3)] + ([] if e.quick else [(5,), (6,)]))
        ls = []
        for _ in range(3):
            ls += lines(c, e.rng, "sing", c.k + 1, nps, 9 if e.quick else 11)
        jobs.append(("h_real", "TraceReal", ls, nps, 300))
    e.run_jobs(jobs, par=4)
