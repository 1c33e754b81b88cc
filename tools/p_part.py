"""Particles in the fluid (spec Part): points, interpolation, averages, forces, life cycle."""
import json, math, re
from props import prop, chunks, Cases
from p_operators import aimed, g2, flags, TRUST
from engine import Broken

PTRUST = TRUST + ["stand-in shapes whose inside test, surface points and factors are exact integers (the library's own shapes are C24's subject and are used for C13 and C14 too)"]


def box_of(D, n, per):
    return [2 * (a - 1) if p else 2 * a - 2 for a, p in zip(n, per)]     # cells per direction


def place(r, D, cells, h, scale, others, half=False, nmax=7, dp=1, small=False):
    """one particle not meeting the others, or None"""
    step = 4 // scale
    if half:
        step = max(step, 2)
    hm = max(h)
    for _ in range(60):
        rc = r.choice([.4, .7, 1.] if small else [.4, .7, 1., 1.3, 1.6, 2.2]) * hm
        r2 = max(1, round(16 * rc * rc) + r.choice([0, 0, 1]))
        kind = r.randint(0, 1) if D == 2 or rc < 1.5 * hm else 0
        R = math.sqrt(r2) / 4
        c = [r.randrange(0, 4 * m, step) for m in cells]
        if others and r.random() < .3:       # touching neighbours
            o = r.choice(others)
            c = [x for x in o["c"]]
            d = r.randrange(D)
            c[d] += (1 if r.random() < .5 else -1) * int(math.ceil((R + o["R"]) * 4 / h[d] / step)) * step
            if not 0 <= c[d] < 4 * cells[d]:
                continue
        ok = True
        for o in others:
            sep = any(abs(a - b) * k / 4 >= R + o["R"] for a, b, k in zip(c, o["c"], h))
            if not sep and kind == 0 and o["k"] == 0:
                sep = sum((abs(a - b) * k / 4) ** 2 for a, b, k in zip(c, o["c"], h)) >= (R + o["R"]) ** 2
            ok = ok and sep
        if not ok:
            continue
        pts = []
        for i in range(max(200, 3 * nmax)):
            q = []
            for d in range(D):
                w = int(math.floor(4 * R / h[d]))
                x = c[d] + r.randint(-w, w)
                if half:
                    x -= x % 2
                    if abs(x - c[d]) > w:
                        x += 2
                q.append(x)
            if any(abs(a - b) * k / 4 > R for a, b, k in zip(q, c, h)):
                continue
            inside = all(0 <= a < 4 * m for a, m in zip(q, cells))
            if q in pts or (not pts and not inside):
                continue
            pts.append(q)
            if len(pts) >= r.randint(2 if nmax < 20 else nmax // 2, nmax) * dp:
                break
        if not pts:
            continue
        w = [r.randint(-2, 2) for _ in range(1 if D == 2 else 3)]
        return dict(c=c, R=R, k=kind, s=pts, head=[kind, r2, r.randint(1, 3), r.randint(1, 5), r.randint(1, 3), r.randint(1, 3), r.randint(0, 3)],
                    v=[r.randint(-3, 3) for _ in range(D)], w=w, f=[r.randint(-3, 3) for _ in range(D)])
    return None


def particles(r, D, cells, h, scale, pre, num, **kw):
    ps = []
    for _ in range(num):
        p = place(r, D, cells, h, scale, ps, **kw)
        if p:
            ps.append(p)
    kv = {}
    for i, p in enumerate(ps):
        k = pre + str(i)
        kv[k] = p["head"]
        kv[k + "c"], kv[k + "v"], kv[k + "w"], kv[k + "f"] = p["c"], p["v"], p["w"], p["f"]
        kv[k + "s"] = [x for q in p["s"] for x in q]
    return kv, len(ps)


def part_jobs(e, per_np, ops, npl=None, p3=.3, nops=4, hi=None, first=None, move=.4):
    r = e.rng
    jobs = []
    c = Cases()
    for np in npl or ([1, 2, 3, 4, 6] if e.quick else [1, 2, 3, 4, 5, 6, 7, 8]):
        lines = []
        while len(lines) < per_np:
            D = 3 if r.random() < (p3 if np <= 4 else p3 / 2) else 2
            many = r.random() < .25
            n, per, h = g2(r, np, D, hi or (5 if D == 2 else 3) + many)
            cells = box_of(D, n, per)
            scale, dp = r.choice([1, 2, 4] if D == 2 else [1, 2, 2, 4]), r.choice([1, 1, 2, 3])
            num = (lambda: r.randint(5, 9)) if many else (lambda: r.randint(1, 4))
            dense = {} if many or r.random() < .9 else dict(nmax=120)
            kv, k = particles(r, D, cells, h, scale, "p", num(), dp=dp, small=many, **dense)
            if not k:
                continue
            o = [r.choice(ops) for _ in range(nops)]
            if first:
                o[0] = first
            if r.random() < move:
                kq, k2 = particles(r, D, cells, h, scale, "q", num(), dp=dp, small=many)
                if k2:
                    kv.update(kq)
                    o.insert(r.randint(0, len(o)), "move")
            lines.append(c.line("part", D=D, n=n, per=per, h=h, bc=flags(r, D, per), seed=r.randint(1, 10**6), scale=scale, dp=dp, ops="/".join(o), **kv))
        for part in chunks(lines, 1 if e.quick else 4):
            jobs.append(("h_part", "TracePart", part, np))
    return jobs


def real_jobs(e, per_np):
    r = e.rng
    c = Cases()
    jobs = []
    for np in [1, 2, 3, 4, 6, 8]:
        lines = []
        while len(lines) < per_np:
            D = 3 if r.random() < .35 else 2
            hi = 7 if D == 2 else 4

            def make():
                per = [1 if r.random() < .2 else 0 for _ in range(D)]
                return [r.randint(4 + p, hi + p) for p in per], per
            n, per = aimed(r, np, D, make, 3 if D == 2 else 1)
            h = [r.choice([5, 10, 10, 20]) for _ in range(D)]
            cells = box_of(D, n, per)
            ctr = [r.choice([x for x in range(0, k * a + 1, r.choice([5, 1, 10]))]) for k, a in zip(cells, h)]
            if D == 2:
                R = r.choice([10, 15, 20, 25, 29, 30, 37, 50])
                cut = max(int(2 * math.pi * R / r.randint(6, 24)), 3)
            else:       # the sampling of a sphere grows fast when it is refined
                R = r.choice([16, 20, 23, 24, 30, 40])
                cut = int(R * r.choice([1, 1.1, 1.3]))
            unit = r.choice([100, 100, 70])
            if r.random() < .35:        # nodes exactly on the boundary, no rounding
                unit, R = 64, r.choice([16, 32])
                h = [r.choice([8, 16]) for _ in range(D)]
                ctr = [a * r.randint(0, k) for k, a in zip(cells, h)]
            lines.append(c.line("real", D=D, n=n, per=per, h=h, c=ctr, r=R, cut=cut, unit=unit, seed=1))
        jobs.append(("h_part", "TracePart", lines, np))
    return jobs


@prop("C13", "random disjoint particles (balls and boxes, at, across and beyond process borders and walls) on random grids, 1 to 8 processes, set up and moved; real discs and spheres at positions where nodes lie on the boundary; unknown numbering probed entry by entry",
      PTRUST)
def c13(e):
    e.model("MCPart", "MCPart.cfg" if e.quick else "MCPart_full.cfg")
    e.run_jobs(part_jobs(e, 7 if e.quick else 60, ["take", "takey", "load"], nops=2, p3=.4, first="take")
               + real_jobs(e, 10 if e.quick else 60))


@prop("C14", "random surface points in and out of the domain and on cell borders, of random particles set up and moved several times, 1 to 8 processes; real discs and spheres",
      PTRUST)
def c14(e):
    e.model("MCPart", "MCPart.cfg" if e.quick else "MCPart_full.cfg")
    e.run_jobs(part_jobs(e, 9 if e.quick else 80, ["move"], nops=1, p3=.4, move=1) + real_jobs(e, 10 if e.quick else 60))


@prop("C16", "random integer fields, particles with random motions and surface points, Dirichlet flags, 1 to 8 processes; interpolation with and without rigid motion, spreading over an old right-hand side",
      PTRUST)
def c16(e):
    e.model("MCPart", "MCPart.cfg" if e.quick else "MCPart_full.cfg")
    e.run_jobs(part_jobs(e, 8 if e.quick else 60, ["interp", "rigid", "spread"], nops=4))


@prop("C17", "random surface data and fields, one to nine particles cut by process borders and walls, sub-sampling 1, 2 and 4, 1 to 8 processes; results compared on every process",
      PTRUST)
def c17(e):
    e.model("MCPart", "MCPart.cfg" if e.quick else "MCPart_full.cfg")
    e.run_jobs(part_jobs(e, 8 if e.quick else 60, ["layer", "proj", "takey"], nops=4))


@prop("C18", "random control fields and imposed forces on one to nine particles cut by process borders and walls, 1 to 8 processes; forces and torques on every process, whole right-hand sides",
      PTRUST)
def c18(e):
    e.model("MCPart", "MCPart.cfg" if e.quick else "MCPart_full.cfg")
    e.run_jobs(part_jobs(e, 8 if e.quick else 60, ["force", "loadf", "load", "init", "init0"], nops=4, first="force"))


def scripts(e, num):
    rc, txt, st = e.tlc("LifeGen", "LifeGen.cfg", extra=("-simulate", "num=%d" % num, "-depth", "9", "-seed", str(e.seed)), timeout=300)
    r = []
    for m in re.finditer(r'<<"SCRIPT", "(\[.*?\])">>', txt, re.S):
        s = m.group(1).replace("\n", "").replace('\\"', '"')
        r.append([o["op"] + (":%d" % o["k"] if o["op"] == "solve" else "") for o in json.loads(s)])
    if len(r) < num:
        raise Broken("only %d of %d histories from TLC:\n%s" % (len(r), num, txt[-2000:]))
    e.states += sum(len(x) for x in r)
    return r


@prop("C21", "histories of set-up, changes of motion and forces, moves, solves with 0 to 3 inner applications, reports, simulated by TLC and replayed on DtoN (2D) and SEM (2D, 3D) with 1 to 6 processes; every fluid problem's right-hand side, every returned vector compared",
      PTRUST + ["the fluid solver is a stand-in that records the right-hand side it is given and answers with a known field, the outer Krylov iteration one that applies the operator to known vectors"])
def c21(e):
    e.model("MCLife", "MCLife.cfg" if e.quick else "MCLife_full.cfg")
    r = e.rng
    npl = [1, 2, 3, 4] if e.quick else [1, 2, 3, 4, 5, 6]
    per_np = 14 if e.quick else 60
    sc = scripts(e, per_np * len(npl))
    jobs = []
    c = Cases()
    for np in npl:
        lines = []
        while len(lines) < per_np:
            sem = r.random() < .55
            D = 3 if sem and r.random() < .3 else 2
            n, per, h = g2(r, np, D, 4 if D == 2 else 3)
            h = [r.choice([1, 2]) for _ in h]
            cells = box_of(D, n, per)
            dp = r.choice([1, 1, 2])
            num = r.choice([1, 1, 2, 2, 2, 3, 5])
            nmax = 4 if sem else 5
            kv, k = particles(r, D, cells, h, 4, "p", num, dp=dp, half=True, nmax=nmax, small=num > 2)
            kq, k2 = particles(r, D, cells, h, 4, "q", num, dp=dp, half=True, nmax=nmax, small=num > 2)
            if k != num or k2 != num:
                continue
            kv.update(kq)
            ops = [o for o in sc.pop() if sem or o not in ("velo", "sforce")]
            lines.append(c.line("sem" if sem else "dton", D=D, n=n, per=per, h=h, bc=flags(r, D, per), seed=r.randint(1, 10**6), dp=dp, ops="/".join(ops), **kv))
        for part in chunks(lines, 2 if e.quick else 4):
            jobs.append(("h_part", "TracePart", part, np))
    e.run_jobs(jobs)
