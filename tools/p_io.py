"""Output files, refinement of a solution, run-time options (spec Out)."""
import json, re
from props import prop, chunks, Cases
from p_operators import fit, aimed, spread, TRUST
from engine import Broken


def grid(r, np, lo=3, hi=6):
    def make():
        per = [1 if r.random() < .3 else 0 for _ in range(2)]
        return [r.randint(lo + p, hi + p + (np if np in (5, 7) else 0)) for p in per], per
    return aimed(r, np, 2, make, 3)


@prop("C19", "random grids, periodicity, factors 1 to 5 in each direction and process counts; random integer velocity and pressure, every fine node compared",
      TRUST)
def c19(e):
    e.model("MCOut", "MCOut.cfg" if e.quick else "MCOut_full.cfg")

    def mk(c, r, np):
        n, per = grid(r, np, 2 if np == 1 else 3)
        f = [r.choice([1, 2, 2, 3, 4, 5]) for _ in range(2)]
        return c.line("interp", n=n, per=per, r=f, h=[r.randint(1, 3), r.randint(1, 3)], div=r.choice([1, 3, 8, 10]), seed=r.randint(1, 10**6))
    e.run_jobs(spread(e, mk, 8 if e.quick else 60, harness="h_io", module="TraceOut", parts=1 if e.quick else 4))


@prop("C20", "histories of saves (two grids, several names and directories, overwritten or not, solutions changed in between) by 1 to 8 processes; after each one everything on disk is read back through the description file",
      TRUST + ["HDF5 1.10 reads what it wrote"])
def c20(e):
    e.model("MCOut", "MCOut.cfg" if e.quick else "MCOut_full.cfg")

    def mk(c, r, np):
        while True:
            n, per = grid(r, np)
            n2 = [a + r.randint(-1, 2) for a in n]
            if all(a >= 3 + p for a, p in zip(n2, per)) and fit(np, n2, per):
                break
        ops = "/".join("%d:%s:%d:%d" % (r.randint(0, 1), r.choice(["a", "sol", "sol_1", "res.2", "a"]), r.randint(0, 1), r.randint(0, 1))
                       for _ in range(r.randint(2, 5 if e.quick else 8)))
        return c.line("save", n=n, n2=n2, per=per, h=[r.randint(1, 9), r.randint(1, 9)], div=r.choice([1, 2, 8, 10]), seed=r.randint(1, 10**6), ops=ops)
    e.run_jobs(spread(e, mk, 6 if e.quick else 40, harness="h_io", module="TraceOut", parts=1 if e.quick else 4))


def vtk_save(e, D):
    def mk(c, r, np):
        while True:
            def make():
                per = [1 if r.random() < .3 else 0 for _ in range(D)]
                return [r.randint(3, (6 if D == 2 else 4) + (np if np in (5, 7) and D == 2 else 0)) + p for p in per], per
            n, per = aimed(r, np, D, make, 3 if D == 2 else 2)
            n2 = [max(3 + p, a + r.randint(-1, 1)) for a, p in zip(n, per)]
            if fit(np, n, per) and fit(np, n2, per):
                break
        ops = "/".join("%d:%s:%d:%d" % (r.randint(0, 1), r.choice(["a", "sol", "sol_1", "res.2", "a"]), r.randint(0, 1), r.randint(0, 1))
                       for _ in range(r.randint(1, 4) if D == 2 else r.randint(1, 2)))
        return c.line("save", D=D, n=n, n2=n2, per=per, h=[r.randint(1, 9) for _ in range(D)], div=r.choice([1, 2, 8]), seed=r.randint(1, 10**6), ops=ops)
    return mk


def vtk_parts(c, r, np):
    D = r.choice([2, 3])
    k = r.randint(0, 5)
    w = r.randint(0, 1) if k else 0
    big = lambda m: [r.randint(-80, 80) for _ in range(m)]
    p = []
    for _ in range(k):
        p += big(D) + [r.randint(1, 40)]
    return c.line("parts", D=D, nm=r.choice(["a", "two_part", "x.1"]), p=p, f=big(D * k) if w else [], t=big((2 * D - 3) * k) if w else [], **{"with": w})


@prop("C33", "histories of saves in 2D and 3D (two grids, periodic or not, several names and directories, overwritten or not) by 1 to 8 processes, every piece read back through the description; random particles with and without forces and torques",
      TRUST + ["VTK is not installed: the code is compiled against a stand-in (harness/vtk) that keeps what it is given and writes it as VTK writes ascii files"])
def c33(e):
    e.model("MCOut", "MCOut.cfg" if e.quick else "MCOut_full.cfg")
    e.run_jobs(spread(e, vtk_save(e, 2), 4 if e.quick else 24, harness="h_vtk", module="TraceOut", parts=1 if e.quick else 4)
               + spread(e, vtk_save(e, 3), 2 if e.quick else 8, harness="h_vtk", module="TraceOut", parts=1 if e.quick else 4)
               + spread(e, vtk_parts, 5 if e.quick else 40, harness="h_vtk", module="TraceOut", parts=1 if e.quick else 2))


def spell(r, k, v):
    if k == "ksp":
        return ["gmres", "bcgs", "minres"][v - 1]
    if k[0] == "m":
        return str(v)
    if k[0] == "L":
        x = v / 1000
        return r.choice([repr(x), "%.3f" % x, "%de-3" % v, "%.4e" % x])
    return r.choice(["1", "true", "yes", "on", "-", "TRUE"] if v else ["0", "false", "no", "off"])


def opt_scripts(e, num):
    rc, txt, st = e.tlc("OptGen", "OptGen.cfg", extra=("-simulate", "num=%d" % num, "-depth", "18", "-seed", str(e.seed)), timeout=300)
    r = []
    for m in re.finditer(r'<<"SCRIPT", "(\[.*?\])">>', txt, re.S):
        ops = []
        for o in json.loads(m.group(1).replace("\n", "").replace('\\"', '"')):
            k = o["key"]
            t = [o["op"]]
            if k:
                t += ["stokes_ksp_type" if k == "ksp" else k, str(o["val"])]
            if o["op"] == "set":
                t.append(spell(e.rng, k, o["val"]))
            ops.append(":".join(t))
        r.append("/".join(ops))
    if len(r) < num:
        raise Broken("only %d of %d behaviours from TLC:\n%s" % (len(r), num, txt[-2000:]))
    e.states += sum(x.count("/") + 1 for x in r)
    return r


@prop("C26", "histories of options given, withdrawn and processed, simulated by TLC, replayed with PETSc's option table; the Stokes problem built from them compared (grid, periodicity, lengths, form, matrix, solver)",
      TRUST)
def c26(e):
    e.model("MCOut", "MCOut.cfg" if e.quick else "MCOut_full.cfg")
    npl = [1, 2, 4] if e.quick else [1, 2, 3, 4]
    per = 12 if e.quick else 80
    sc = opt_scripts(e, per * len(npl))
    c = Cases()
    jobs = []
    for np in npl:
        lines = [c.line("opts", ops=sc.pop()) for _ in range(per)]
        jobs += [("h_io", "TraceOut", part, np) for part in chunks(lines, 2 if e.quick else 6)]
    e.run_jobs(jobs)
