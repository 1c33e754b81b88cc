"""Meshes and iteration (spec Mesh)."""
from props import prop, chunks, Cases
from p_operators import spread, aimed, every_cut, CUTS, TRUST


def msize(r, np, D, hi):
    def make():
        per = [1 if r.random() < .35 else 0 for _ in range(D)]
        return [r.randint(3 if p else 2, hi + p) for p in per], per
    return aimed(r, np, D, make, 3)


def cut_jobs(e, kind):
    c = Cases()
    by = {}
    for np, D, n, per in every_cut(e.rng, CUTS):
        by.setdefault(np, []).append(c.line(kind, D=D, n=n, per=per, lap=0))
    return [("h_mesh", "TraceMesh", part, np) for np, ls in by.items() for part in chunks(ls, 2)]


@prop("C01", "random point counts and periodicities, 2D and 3D, Stokes and Laplacian meshes, 1 to 8 processes; owned, ghosted and reported boxes of every process",
      TRUST)
def c01(e):
    e.model("MCMesh", "MCMesh.cfg" if e.quick else "MCMesh_full.cfg")

    def mk(c, r, np):
        D = 3 if r.random() < .4 else 2
        n, per = msize(r, np, D, max(9 if D == 2 else 4, np if np in (5, 7) else 0))
        if min(a - b for a, b in zip(n, per)) < 2:
            return None
        return c.line("mesh", D=D, n=n, per=per, lap=1 if r.random() < .25 else 0)
    e.run_jobs(spread(e, mk, 14 if e.quick else 150, harness="h_mesh", module="TraceMesh", npl=[1, 2, 3, 4, 5, 6, 8]) + cut_jobs(e, "mesh"))


@prop("C02", "iteration over the cells of random meshes (2D/3D, periodic or not, 1 to 8 processes) and over arbitrary boxes, empty ones included; element nodes, local indices; weights and gradients at all quarter points of random cells",
      TRUST)
def c02(e):
    e.model("MCMesh", "MCMesh.cfg" if e.quick else "MCMesh_full.cfg")

    def mk(c, r, np):
        k = r.random()
        if k < .6:
            D = 3 if r.random() < .5 else 2
            n, per = msize(r, np, D, max(7 if D == 2 else 3, np if np in (5, 7) else 0))
            return c.line("cells", D=D, n=n, per=per, lap=1 if r.random() < .2 else 0)
        if k < .75:
            n, per = msize(r, np, 2, 7)
            return c.line("indices", D=2, n=n, per=per, lap=0)
        D = r.choice([2, 3])
        lo = [r.randint(-4, 4) for _ in range(D)]
        hi = [a + r.randint(-1, 4) for a in lo]
        return c.line("box", D=D, lo=lo, hi=hi, cst=r.randint(0, 1))
    jobs = spread(e, mk, 14 if e.quick else 100, harness="h_mesh", module="TraceMesh", npl=[1, 2, 3, 4, 6, 8])
    c = Cases()
    lines = []
    for _ in range(12 if e.quick else 100):
        D = e.rng.choice([2, 3])
        h = [e.rng.randint(1, 3) for _ in range(D)]
        for _ in range(8):
            lines.append(c.line("weights", D=D, h=h, x=[e.rng.randint(0, 4 * a) for a in h],
                                at=[e.rng.randint(-2, 6) for _ in range(D)]))
    jobs.append(("h_mesh", "TraceMesh", lines, 1))
    e.run_jobs(jobs + cut_jobs(e, "cells"))
