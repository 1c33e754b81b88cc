"""Finite element operators, Dirichlet conditions, right-hand sides, diagonals (spec FE)."""
import itertools, math
from props import prop, chunks, Cases

TRUST = ["PETSc 3.19 and Open MPI behave as documented",
         "integer-valued inputs: every exact result is an integer after scaling, compared exactly"]


def grid(r, D, lo, hi, periodic=True):
    """pressure points, periodicity, integer velocity steps"""
    n, per, h = [], [], []
    for _ in range(D):
        p = 1 if periodic and r.random() < .3 else 0
        n.append(r.randint(max(lo, 3) + p, hi + p))
        per.append(p)
        h.append(r.choice([1, 1, 2, 3]))
    return n, per, h


def flags(r, D, per, full=False):
    """Dirichlet flags [side][component]"""
    f = []
    for s in range(2 * D):
        if full:
            f += [1] * D
        else:
            k = r.random()
            f += [1] * D if k < .5 else ([0] * D if k < .65 else [r.randint(0, 1) for _ in range(D)])
    return f


def nps(r, quick, D=2):
    return [1, 2, 3, 4, 6] if quick else [1, 2, 3, 4, 5, 6, 7, 8]


def process_grid(np, M):
    """the process grid PETSc chooses (only to avoid grids it refuses to cut)"""
    if len(M) == 2:
        m = max(1, int(.5 + (M[0] * np / M[1]) ** .5))
        while np % m:
            m -= 1
        n = np // m
        if M[0] > M[1] and m < n:
            m, n = n, m
        return m, n
    n = max(1, int(.5 + (M[1] * M[1] * np / (M[2] * M[0])) ** (1 / 3)))
    while np % n:
        n -= 1
    m = max(1, int(.5 + (M[0] * np / (M[2] * n)) ** .5))
    while np % (m * n):
        m -= 1
    p = np // (m * n)
    if M[0] > M[2] and m < p:
        m, p = p, m
    return m, n, p


def fit(np, n, per):
    """can PETSc cut the grid?"""
    M = [a - b for a, b in zip(n, per)]
    return all(a >= b for a, b in zip(M, process_grid(np, M)))


def spread(e, make, per_np, npl=None, harness="h_op", module="TraceFE", parts=1):
    """run `per_np` random cases for each process count"""
    jobs = []
    c = Cases()
    for np in npl or nps(e.rng, e.quick):
        lines = []
        while len(lines) < per_np:
            x = make(c, e.rng, np)
            if x:
                lines.append(x)
        for part in chunks(lines, parts):
            jobs.append((harness, module, part, np))
    return jobs


def cut(r, np, D):
    """a process grid to aim at: the prime factors of np, each in some direction"""
    t, p = [1] * D, 2
    while np > 1:
        if np % p:
            p += 1
        else:
            t[r.randrange(D)] *= p
            np //= p
    return t


def aimed(r, np, D, make, more):
    """random grids until one is cut as aimed at (or, failing that, one that can be cut)"""
    t = cut(r, np, D)
    for k in range(300):
        n, per, *rest = make()
        n = [a + (r.randint(0, more) if b > 1 else 0) for a, b in zip(n, t)]
        if fit(np, n, per) and (k > 150 or list(process_grid(np, [a - b for a, b in zip(n, per)])) == t):
            return (n, per, *rest)
    raise RuntimeError


def every_cut(r, plan, lo=2, hi=6):
    """for each process count and dimension of `plan`, a small mesh for every way to cut it in two or three per
    direction and every periodicity: (np, D, n, per)"""
    for D, np in plan:
        todo = set()
        for t in itertools.product((1, 2, 3), repeat=D):
            if math.prod(t) == np:
                todo |= {(t, per) for per in itertools.product((0, 1), repeat=D)}
        for _ in range(4000):
            if not todo:
                break
            per = [r.randint(0, 1) for _ in range(D)]
            n = [r.randint(max(lo, 3) if p else lo, hi + p) for p in per]
            if not fit(np, n, per) or math.prod(n) > (60 if D == 3 else 30):
                continue
            k = (tuple(process_grid(np, [a - b for a, b in zip(n, per)])), tuple(per))
            if k in todo:
                todo.remove(k)
                yield np, D, n, per


CUTS = [(2, 2), (2, 4), (2, 6), (3, 2), (3, 4), (3, 8)]


def cut_jobs(e, make, plan=CUTS, lo=3, parts=3):
    """one case for every way to cut"""
    c = Cases()
    by = {}
    for np, D, n, per in every_cut(e.rng, plan, lo):
        by.setdefault(np, []).append(make(c, np, D, n, per, [e.rng.choice([1, 1, 2, 3]) for _ in n], e.rng))
    return [("h_op", "TraceFE", part, np) for np, ls in by.items() for part in chunks(ls, parts)]


def g2(r, np, D, hi=None):
    hi = hi or (6 if D == 2 else 3)
    if np in (5, 7):
        hi = max(hi, np)
    return aimed(r, np, D, lambda: grid(r, D, 3, hi), 3 if D == 2 else 2)


@prop("C04", "random grids (2D/3D, anisotropic steps, periodic directions), random boundary flags, random integer fields; one case = one operator application on several fields",
      TRUST)
def c04(e):
    e.model("Dist", "Dist.cfg" if e.quick else "Dist_full.cfg")

    def mk(c, r, np):
        D = 3 if r.random() < (.25 if np <= 4 else .15) else 2
        n, per, h = g2(r, np, D)
        kv = dict(D=D, n=n, per=per, h=h, seed=r.randint(1, 10**6))
        if r.random() < .7:
            kv["bc"] = flags(r, D, per)
        k = r.random()
        op = r.choice(["lap", "strain"])
        if k < .35:
            return c.line("blk", op=op, fld=0, **kv)
        if k < .45:
            kv.pop("bc", None)
            return c.line("blk", op="mass", fld=r.randint(0, 1), **kv)
        if k < .52:
            kv.pop("bc", None)
            return c.line("massc", **kv)
        if k < .58:
            kv.pop("bc", None)
            return c.line("two", op=r.choice(["lap", "mass"]), **kv)
        return c.line("stk", op=op, **kv)
    def mc(c, np, D, n, per, h, r):
        return c.line("stk", op=r.choice(["lap", "strain"]), D=D, n=n, per=per, h=h, seed=r.randint(1, 10**6), bc=flags(r, D, per), reps=1)
    e.run_jobs(spread(e, mk, 10 if e.quick else 60, parts=1 if e.quick else 4) + cut_jobs(e, mc))


@prop("C05", "the Stokes problem class on random 2D grids, assembled and matrix-free on the same random fields; operator, preconditioner and grid events",
      TRUST + ["assembled operators are only claimed with every component imposed on every non-periodic side (documented in the code)"])
def c05(e):
    e.model("Dist", "Dist.cfg")

    def mk(c, r, np):
        n, per, h = g2(r, np, 2)
        s = r.randint(1, 10**6)
        return c.line("cls", op=r.choice(["lap", "strain"]), asm=1 if r.random() < .8 else 0, D=2, n=n, per=per, h=h,
                      seed=s, bc=flags(r, 2, per, True), f=[0, 0])
    def mc(c, np, D, n, per, h, r):
        return c.line("cls", op=r.choice(["lap", "strain"]), asm=1, D=2, n=n, per=per, h=h, seed=r.randint(1, 10**6), bc=flags(r, 2, per, True), f=[0, 0])
    e.run_jobs(spread(e, mk, 6 if e.quick else 40, parts=1 if e.quick else 4)
               + cut_jobs(e, mc, [x for x in CUTS if x[0] == 2], parts=1 if e.quick else 3))


@prop("C06", "random grids 2D/3D, random subsets of (side, component) imposed, random integer vectors; vectors, right-hand sides, operator rows, assembled rows",
      TRUST)
def c06(e):
    e.model("Dist", "Dist.cfg")

    def mk(c, r, np):
        D = 3 if r.random() < .4 else 2
        n, per, h = g2(r, np, D)
        kv = dict(D=D, n=n, per=per, h=h, seed=r.randint(1, 10**6))
        k = r.random()
        if k < .6 + .1 * (D == 3):
            return c.line("bcv", op=r.choice(["vec", "rhs", "null"]), bc=flags(r, D, per), **kv)
        if k < .7 + .05 * (D == 3):
            return c.line("stk", op=r.choice(["lap", "strain"]), bc=flags(r, D, per), **kv)
        if k < .8:
            return c.line("blk", op=r.choice(["lap", "strain"]), fld=0, bc=flags(r, D, per), **kv)
        n, per, h = g2(r, np, 2)
        kv = dict(D=2, n=n, per=per, h=h, seed=r.randint(1, 10**6))
        return c.line("cls", op=r.choice(["lap", "strain"]), asm=1, bc=flags(r, 2, per, True), f=[0, 0], **kv)
    def mc(c, np, D, n, per, h, r):
        return c.line("bcv", op=r.choice(["vec", "rhs", "null"]), bc=flags(r, D, per), D=D, n=n, per=per, h=h, seed=r.randint(1, 10**6))
    e.run_jobs(spread(e, mk, 20 if e.quick else 100, parts=1 if e.quick else 4) + cut_jobs(e, mc))


@prop("C07", "random grids 2D/3D, random subsets of force components, set_rhs alone (also on a non-zero vector) and the problem's right-hand side with boundary values",
      TRUST)
def c07(e):
    e.model("Dist", "Dist.cfg")

    def mk(c, r, np):
        D = 3 if r.random() < .3 else 2
        n, per, h = g2(r, np, D)
        kv = dict(D=D, n=n, per=per, h=h, seed=r.randint(1, 10**6))
        f = [1 if r.random() < .7 else 0 for _ in range(D)]
        if r.random() < .7:
            return c.line("rhs", f=f, acc=r.randint(0, 1), **kv)
        n, per, h = g2(r, np, 2, 4)
        kv = dict(D=2, n=n, per=per, h=h, seed=r.randint(1, 10**6))
        f = f[:2]
        return c.line("cls", op="lap", asm=r.randint(0, 1), bc=flags(r, 2, per, True), f=f, **kv)
    def mc(c, np, D, n, per, h, r):
        return c.line("rhs", f=[1 if r.random() < .8 else 0 for _ in n], acc=r.randint(0, 1), D=D, n=n, per=per, h=h, seed=r.randint(1, 10**6))
    e.run_jobs(spread(e, mk, 10 if e.quick else 80, parts=1 if e.quick else 4) + cut_jobs(e, mc))


@prop("C08", "random grids 2D/3D with anisotropic steps, diagonals of the Laplacian and mass blocks on each grid, and of the block diagonal operators on both at once",
      TRUST)
def c08(e):
    e.model("MCFE", "MCFE.cfg" if e.quick else "MCFE_full.cfg")

    def mk(c, r, np):
        D = 3 if r.random() < .35 else 2
        n, per, h = g2(r, np, D)
        kv = dict(D=D, n=n, per=per, h=h, seed=r.randint(1, 10**6))
        if r.random() < .3:
            return c.line("two", op=r.choice(["lap", "mass"]), **kv)
        return c.line("blk", op=r.choice(["lap", "mass"]), fld=r.randint(0, 1), reps=1, **kv)
    def mc(c, np, D, n, per, h, r):
        return c.line("two", op=r.choice(["lap", "mass"]), D=D, n=n, per=per, h=h, seed=r.randint(1, 10**6))
    e.run_jobs(spread(e, mk, 10 if e.quick else 80, parts=1 if e.quick else 4) + cut_jobs(e, mc))


@prop("C09", "random grids 2D/3D and process counts; pairs of random integer fields (also vanishing on imposed rows), constants, linear fields and rotations, pressures; the recorded products are combined in TLA+ without using the operators of the specification",
      TRUST)
def c09(e):
    e.model("MCFE", "MCFE.cfg" if e.quick else "MCFE_full.cfg")

    def mk(c, r, np):
        D = 3 if r.random() < .3 else 2
        n, per, h = g2(r, np, D, 5 if D == 2 else 3)
        if D == 3:
            h = [min(x, 2) for x in h]
        kv = dict(D=D, n=n, per=per, h=h, seed=r.randint(1, 10**6))
        k = r.random()
        op = r.choice(["lap", "strain"])
        if k < .25:
            if r.random() < .5:
                return c.line("pair", kind="sym", op=op, fld=0, bc=flags(r, D, per), **kv)
            return c.line("pair", kind="sym", op=op, fld=0, **kv)
        if k < .35:
            return c.line("pair", kind="sym", op="mass", fld=r.randint(0, 1), **kv)
        if k < .5:
            return c.line("pair", kind="const", op=r.choice(["lap", "strain", "mass"]), fld=0, a=[r.randint(-3, 3) for _ in range(D)], **kv)
        if k < .55:
            return c.line("pair", kind="const", op="mass", fld=1, a=[r.randint(1, 3)], **kv)
        if k < .8:
            a = [[r.randint(-2, 2) for _ in range(D)] for _ in range(D)]
            if r.random() < .5:
                op = "strain"
                for f in range(D):
                    a[f][f] = 0
                    for d in range(f):
                        a[f][d] = -a[d][f]
            for f in range(D):
                for d in range(D):
                    if per[d] or (op == "strain" and per[f]):
                        a[f][d] = 0
            return c.line("pair", kind="lin", op=op, fld=0, a=sum(a, []), **kv)
        return c.line("pair", kind=r.choice(["couple", "couple", "gradc"]), op=op, **kv)
    e.run_jobs(spread(e, mk, 14 if e.quick else 100, module="TraceStruct", parts=1 if e.quick else 4))
