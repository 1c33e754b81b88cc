"""What repeated operations leave behind (spec Res)."""
from props import prop, chunks, Cases
from p_operators import TRUST, fit
from p_solve import coarsenable

ANY = "mesh2 mesh3 hdf5 vtk vec refine st_mult rhs solve".split()
OPS = {"stokes": ANY + ["ksp"],
       "sem": ANY + "ksp mult save vel force".split(),
       "dton": ANY + "ksp mult save force".split()}


PARTS = "apply matrix mass load bounds vtk".split()


def some(r, c, np, ops):
    D = r.choice([2, 3])
    while True:
        n, per = [r.randint(3, 6) for _ in range(D)], [r.choice([0, 0, 1]) for _ in range(D)]
        if fit(np, n, per):
            break
    return c.line("res", kind="parts", D=D, ops=",".join(ops), n=n, per=per, strain=r.randint(0, 1) if D == 2 else 0, asm=0, pmm=0, lu=0, rounds=6)


def one(r, c, np, kind, ops):
    pmm = r.random() < .25
    while True:
        per = [0, 0] if pmm or r.random() < .7 else r.choice([[1, 0], [0, 1], [1, 1]])
        n = [9, 9] if pmm else [r.randint(4, 9), r.randint(4, 9)]
        if fit(np, n, per) and (not pmm or coarsenable(n, per)):
            break
    asm = 1 if pmm else r.randint(0, 1)
    if pmm and kind == "stokes":
        ops = [o for o in ops if o != "ksp"] or ["solve"]     # the levels of PMM keep their own data
    return c.line("res", kind=kind, ops=",".join(ops), n=n, per=per, ref=[r.randint(1, 3), r.randint(1, 3)], strain=r.randint(0, 1) if not any(per) else 0,
                  asm=asm, pmm=int(pmm), lu=int(asm and not pmm and np == 1 and r.random() < .5), k=r.choice([0, 1, 2, 2, 3]), sing=r.randint(0, 1), rounds=6)


@prop("C36", "each operation by itself, and random cycles of up to 5 operations, on Stokes problems and on problems with 0-3 discs (SEM, DtoN with and without lubrication field), and on operators, loads and output in 2D and 3D, grids, options and process counts; 6 rounds of each cycle",
      TRUST + ["the memory that PETSc and the C++ library report is what is held"])
def c36(e):
    e.model("MCRes", "MCRes.cfg" if e.quick else "MCRes_full.cfg")
    if not e.quick:
        e.model("MCRes", "MCRes_deep.cfg")
    r, c = e.rng, Cases()
    jobs = []
    for np in ([1, 2, r.choice([3, 4])] if e.quick else [1, 2, 3, 4, 6]):
        lines = []
        for kind, ops in OPS.items():
            for o in ops:
                if kind == "stokes" or o not in ANY or o in ("rhs", "solve"):
                    for _ in range(1 if e.quick else 6):
                        lines.append(one(r, c, np, kind, [o]))
            for _ in range(5 if e.quick else 60):
                lines.append(one(r, c, np, kind, [r.choice(ops) for _ in range(r.randint(2, 5))]))
        for o in PARTS:
            lines.append(some(r, c, np, [o]))
        for _ in range(4 if e.quick else 60):
            lines.append(some(r, c, np, [r.choice(PARTS) for _ in range(r.randint(2, 5))]))
        r.shuffle(lines)
        for part in chunks(lines, 3 if e.quick else 8):
            jobs.append(("h_res", "TraceRes", part, np, 300))
    e.run_jobs(jobs)
