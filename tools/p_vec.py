"""Distributed fields (spec PVec): behaviours simulated by TLC drive the code."""
import json, re
from props import prop, chunks, Cases
from p_operators import fit, process_grid, TRUST
from engine import Broken


def scripts(e, num):
    rc, txt, st = e.tlc("PVecGen", "PVecGen.cfg", extra=("-simulate", "num=%d" % num, "-depth", "16", "-seed", str(e.seed)), timeout=300)
    r = []
    for m in re.finditer(r'<<"SCRIPT", "(\[.*?\])">>', txt, re.S):
        s = m.group(1).replace("\n", "").replace('\\"', '"')
        r.append("/".join("%s:%d:%d:%d:%d:%d" % (o["op"], o["p"], o["r"], o["k"], o["f"], o["v"]) for o in json.loads(s)))
    if len(r) < num:
        raise Broken("only %d of %d behaviours from TLC:\n%s" % (len(r), num, txt[-2000:]))
    e.states += sum(x.count("/") + 1 for x in r)
    return r


@prop("C25", "behaviours of 14 calls simulated by TLC from the specification, replayed on random meshes (2D/3D, periodic, Stokes and scalar) with 1 to 8 processes; the whole state of every process compared after every call",
      TRUST)
def c25(e):
    e.model("MCPVec", "MCPVec.cfg" if e.quick else "MCPVec_full.cfg")
    npl = [1, 2, 3, 4, 6] if e.quick else [1, 2, 3, 4, 5, 6, 8]
    per = 7 if e.quick else 40
    sc = scripts(e, per * len(npl))
    c = Cases()
    r = e.rng
    jobs = []
    for np in npl:
        lines = []
        while len(lines) < per:
            D = 3 if r.random() < .25 and np != 5 else 2
            hi = 6 if np >= 5 else 4
            p = [1 if r.random() < .4 else 0 for _ in range(D)]
            n = [r.randint(2 + (a if np > 1 or r.random() < .5 else 1), (hi if D == 2 else 2) + a) if D == 2 else r.choice([2, 3]) + a for a in p]
            if not fit(np, n, p):
                continue
            ops = sc.pop()
            # PETSc has no insertion into a direction that is periodic and not cut
            if any(a and b == 1 for a, b in zip(p, process_grid(np, [a - b for a, b in zip(n, p)]))):
                ops = ops.replace("ins:", "g2l:")
            lines.append(c.line("vec", D=D, n=n, per=p, lap=1 if r.random() < .2 else 0, seed=r.randint(1, 10**6), ops=ops))
        for part in chunks(lines, 1 if e.quick else 4):
            jobs.append(("h_vec", "TracePVec", part, np))
    e.run_jobs(jobs)
