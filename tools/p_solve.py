"""The Stokes problem class: solutions and multigrid hierarchy."""
from props import prop, chunks, Cases
from p_operators import grid, fit, flags, spread, g2, TRUST


def coarsenable(n, per):
    v = [2 * (a - 1) if p else 2 * a - 1 for a, p in zip(n, per)]
    i = min(v)
    while i > 8:
        i >>= 1
        for d in range(len(v)):
            if (v[d] - (0 if per[d] else 1)) % 2:
                return False
            v[d] = v[d] // 2 if per[d] else (v[d] - 1) // 2 + 1
    return True


def quad(r, per, h):
    a, b, s, cc, d, t, e, al, be = [r.randint(-3, 3) for _ in range(9)]
    a *= h[0]
    if per[0]:
        a = d = t = al = 0
    if per[1]:
        a = b = s = be = 0
    return [a, b, s, cc, d, t, e, al, be]


@prop("C12", "the problem class with random options (assembled/matrix-free, Laplacian/strain, LU/GMRES/PMM), sizes, steps, periodicity and process counts; known discrete solutions: random integer fields and exactly represented quadratic flows",
      TRUST + ["solutions rounded to integers within 2e-4 (0.01 for PMM, 0.05 for the direct solver, whose last pivot is rounding noise; Laplacian form only)", "PMM runs only on grids whose velocity grid halves exactly, with nearly isotropic steps"])
def c12(e):
    e.model("MCFE", "MCFE.cfg")

    def mk(c, r, np):
        meth = r.choice(["lu", "gmres", "pmm", "lug", "gmres"])
        if meth[:2] == "lu" and np > 1:
            meth = r.choice(["gmres", "pmm"])
        op = r.choice(["lap", "strain"]) if meth != "lu" else "lap"
        for _ in range(10000):
            n, per, h = grid(r, 2, 3, 9 if meth == "pmm" else 5)
            if meth == "pmm":
                h = [h[0]] * 2 if op == "strain" or r.random() < .5 else [1, r.randint(1, 2)]
                if not coarsenable(n, per) or max(n) < 6 or (op == "strain" and any(per)):
                    continue
            if not fit(np, n, per) or all(per):
                continue
            break
        asm = 1 if meth[:2] == "lu" else (0 if meth == "pmm" else r.randint(0, 1))
        return c.line("solve", op=op, meth=meth, asm=asm, D=2, n=n, per=per, h=h, q=quad(r, per, h),
                      seed=r.randint(1, 10**6), mode="rand" if r.random() < .5 else "lin",
                      rtol="1e-7" if meth == "pmm" else "1e-11")
    e.run_jobs(spread(e, mk, 10 if e.quick else 60, npl=[1, 1, 2, 3, 4] if e.quick else [1, 1, 2, 3, 4, 6], harness="h_solve", module="TraceSolve",
                      parts=2 if e.quick else 6))


@prop("C11", "PMM solver set up on random coarsenable grids (square or not, periodic or not), every level's operator and diagonal applied to random integer fields",
      TRUST + ["grids whose velocity grid halves exactly"])
def c11(e):
    e.model("MCFE", "MCFE.cfg")

    def mk(c, r, np):
        for _ in range(10000):
            n, per, h = grid(r, 2, 3, 13 if r.random() < .5 else 22)
            if n[0] * n[1] > 200 or not coarsenable(n, per) or max(n) < 6 or not fit(np, n, per):
                continue
            v = [2 * (a - 1) if p else 2 * a - 1 for a, p in zip(n, per)]
            # the coarsest level must still have a node per process
            lv = 0
            i = min(v)
            while i > 8:
                i >>= 1
                lv += 1
            if min((a - 1) / 2 ** lv for a in v) < 2 + (np > 2):
                continue
            break
        return c.line("mg", op=r.choice(["lap", "strain"]), meth="pmm", asm=0, D=2, n=n, per=per, h=h,
                      seed=r.randint(1, 10**6), bc=flags(r, 2, per, True))
    e.run_jobs(spread(e, mk, 4 if e.quick else 30, npl=[1, 2, 3, 4], harness="h_solve", module="TraceSolve",
                      parts=2 if e.quick else 6))
