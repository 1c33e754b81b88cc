"""Triangulations (spec Tri)."""
from props import prop, chunks, Cases
from p_operators import TRUST


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def det(m):
    if len(m) == 2:
        return m[0][0] * m[1][1] - m[0][1] * m[1][0]
    a, b, c = m
    return a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0])


def thick(P, D):
    """D + 1 of the points are not in one line or plane"""
    import itertools
    return any(det([sub(q, t[0]) for q in t[1:]]) for t in itertools.combinations(P[:12], D + 1))


def general(P, D):
    """no three points in a line nor four on a circle, or no four in a plane"""
    import itertools
    for t in itertools.combinations(P, D + 1):
        if det([sub(q, t[0]) for q in t[1:]]) == 0:
            return False
    if D == 2:
        for t in itertools.combinations(P, 4):
            m = [sub(q, t[0]) for q in t[1:]]
            if det([v + [v[0] ** 2 + v[1] ** 2] for v in m]) == 0:
                return False
    return True


def cloud(r, D, n, w, gen):
    """n different points of a window, added one at a time"""
    P = []
    tries = 0
    while len(P) < n and tries < 400:
        tries += 1
        q = [r.randint(-w, w) for _ in range(D)]
        if q not in P and (not gen or added(P, q, D)):
            P.append(q)
    return P if len(P) > D and thick(P, D) else cloud(r, D, n, w + 2, gen)


def added(P, q, D):
    import itertools
    for t in itertools.combinations(P, D):
        if det([sub(x, q) for x in t]) == 0:
            return False
    if D == 2:
        for t in itertools.combinations(P, 3):
            if det([v + [v[0] ** 2 + v[1] ** 2] for v in (sub(x, q) for x in t)]) == 0:
                return False
    return True


def lines(e, c, N):
    r = e.rng
    out = []
    def put(P, div=None):
        r.shuffle(P)
        out.append(c.line("tri", D=len(P[0]), mul=r.choice([1, 1, 1, 1000]), div=div or r.choice([1, 2, 16, 1 << 20]), p=[x for q in P for x in q]))
    for k in range(N):
        D = 2 + k % 2
        n = r.choice([D + 1, D + 2, D + 3, 7, 9, 12, 16] + ([] if e.quick else [20, 26]))
        put(cloud(r, D, n, r.choice([9, 20, 60] if n < 12 else [60, 90]), True))
    for k in range(N // 2):
        # points on lines, circles and planes
        D = 2 + k % 2
        kind = r.choice(["grid", "some", "some"])
        if kind == "grid":
            n = [r.randint(2, 4) for _ in range(D)] if D == 2 else [r.randint(2, 3) for _ in range(D)]
            P = [[]]
            for d in range(D):
                P = [q + [x * r.choice([1]) for x in [v]] for q in P for v in range(n[d])]
            s, o = r.randint(1, 3), [r.randint(-5, 5) for _ in range(D)]
            put([[s * x + y for x, y in zip(q, o)] for q in P])
        else:
            put(cloud(r, D, r.randint(D + 1, 14), r.choice([2, 3]), False))
    for k in range(N // 4):
        if k % 2:
            out.append(c.line("surf", kind="sphere", r=[r.randint(2, 9)], k=r.randint(5, 9), e=4, m=4))
        else:
            out.append(c.line("surf", kind="super_ellipsoid", r=[r.randint(3, 8) for _ in range(3)], k=r.randint(5, 8), e=r.choice([8, 10]), m=r.choice([8, 10])))
    return out


@prop("C35", "random sets of points with integer coordinates (scaled and shuffled), in the plane and in space, in general position and with points on common lines, circles and planes, and points sampled on spheres and superellipsoids",
      TRUST + ["qhull is used as bundled"])
def c35(e):
    e.model("MCTri", "MCTri.cfg" if e.quick else "MCTri_full.cfg")
    jobs = []
    for part in chunks(lines(e, Cases(), 60 if e.quick else 1200), 6 if e.quick else 24):
        jobs.append(("h_tri", "TraceTri", part, 1))
    e.run_jobs(jobs)
