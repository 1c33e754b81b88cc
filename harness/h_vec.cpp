// Distributed fields: scripts of calls on petsc_vec, state of every process after each call.
#include "common.hpp"
#include <memory>
using namespace vh;
using namespace cafes;

static std::string jall(ivec const &mine)
{
    auto g = gather(mine);
    std::string s = "[";
    for (std::size_t i = 0; i < g.size(); ++i) s += (i ? "," : "") + jarr(g[i]);
    return s + "]";
}

struct Op
{
    std::string op;
    int p, r, k, f, v;
};

template<std::size_t D>
geometry::position<int, (int)D> pos(ivec const &q)
{
    geometry::position<int, (int)D> p;
    for (std::size_t d = 0; d < D; ++d) p[d] = q[d];
    return p;
}
template<std::size_t D>
std::array<int, D> arr(ivec const &q)
{
    std::array<int, D> p;
    for (std::size_t d = 0; d < D; ++d) p[d] = q[d];
    return p;
}

// box of a process, owned or with ghosts
struct Boxes
{
    ivec lo, hi, glo, ghi;
};
template<std::size_t D>
Boxes boxes(DM da)
{
    PetscInt x[3], w[3], gx[3], gw[3];
    DMDAGetCorners(da, &x[0], &x[1], &x[2], &w[0], &w[1], &w[2]);
    DMDAGetGhostCorners(da, &gx[0], &gx[1], &gx[2], &gw[0], &gw[1], &gw[2]);
    Boxes b;
    for (std::size_t d = 0; d < D; ++d)
    {
        b.lo.push_back(x[d]);
        b.hi.push_back(x[d] + w[d]);
        b.glo.push_back(gx[d]);
        b.ghi.push_back(gx[d] + gw[d]);
    }
    return b;
}
static int count(ivec const &lo, ivec const &hi)
{
    int n = 1;
    for (std::size_t d = 0; d < lo.size(); ++d) n *= hi[d] - lo[d];
    return n;
}
static ivec nth(ivec const &lo, ivec const &hi, int k)
{
    ivec q;
    for (std::size_t d = 0; d < lo.size(); ++d)
    {
        q.push_back(lo[d] + k % (hi[d] - lo[d]));
        k /= hi[d] - lo[d];
    }
    return q;
}

static int safe(double v) { return toint(v); }

template<std::size_t D>
void vec(Case const &c)
{
    using PV = petsc::petsc_vec<D>;
    std::array<int, D> np;
    std::array<PetscBool, D> pp;
    auto n = c.v("n"), per = c.v("per");
    for (std::size_t d = 0; d < D; ++d)
    {
        np[d] = n[d];
        pp[d] = per[d] ? PETSC_TRUE : PETSC_FALSE;
    }
    bool lap = c.i("lap");
    DM dm;
    std::vector<DM> da;
    if (lap)
    {
        fem::createLaplacianMesh<D>(dm, np, pp);
        da = {dm};
    }
    else
    {
        fem::createMesh<D>(dm, np, pp);
        DMSetUp(dm);
        da = {sub_dm(dm, 0), sub_dm(dm, 1)};
    }
    int P = da.size();
    Vec x;
    DMCreateGlobalVector(dm, &x);
    Rng rng(c.i("seed"));
    std::vector<dvec> init(P);
    for (int p = 0; p < P; ++p)
    {
        init[p] = rand_ints(da_size(da[p]), rng, -9, 9);
        if (lap) set_natural(dm, x, init[p]);
        else set_natural_c(dm, x, p, init[p]);
    }
    std::vector<Boxes> b;
    for (auto d : da) b.push_back(boxes<D>(d));
    std::vector<int> dof(P);
    for (int p = 0; p < P; ++p)
    {
        DMDALocalInfo I;
        DMDAGetLocalInfo(da[p], &I);
        dof[p] = I.dof;
    }
    int turn = 0;
    // the whole state, through the object's own access functions
    auto local = [&](PV &v, int p) {
        ivec r;
        int m = count(b[p].glo, b[p].ghi);
        PV const &cv = v;
        for (int k = 0; k < m; ++k)
        {
            auto q = nth(b[p].glo, b[p].ghi, k);
            ++turn;
            double const *a = turn % 4 == 0 ? v.at(arr<D>(q)) : turn % 4 == 1 ? v.at(pos<D>(q))
                            : turn % 4 == 2 ? cv.at(arr<D>(q)) : cv.at(pos<D>(q));
            for (int f = 0; f < dof[p]; ++f) r.push_back(safe(a[f]));
        }
        return r;
    };
    auto global = [&](PV &v, int p) {
        dvec l(da_size(da[p]), 0.), g(l.size());
        int m = count(b[p].lo, b[p].hi);
        PV const &cv = v;
        DMDALocalInfo I;
        DMDAGetLocalInfo(da[p], &I);
        for (int k = 0; k < m; ++k)
        {
            auto q = nth(b[p].lo, b[p].hi, k);
            ++turn;
            double const *a = turn % 2 ? v.at_g(pos<D>(q)) : cv.at_g(pos<D>(q));
            std::size_t at = q[0] + (std::size_t)I.mx * (q[1] + (D == 3 ? I.my * q[2] : 0));
            for (int f = 0; f < dof[p]; ++f) l[at * dof[p] + f] = a[f];
        }
        MPI_Allreduce(l.data(), g.data(), (int)l.size(), MPI_DOUBLE, MPI_SUM, PETSC_COMM_WORLD);
        return jarr(toint(g));
    };
    std::vector<std::unique_ptr<PV>> pv;
    auto open = [&](bool ro) {
        for (int p = 0; p < P; ++p) pv.emplace_back(ro ? new PV(dm, x, p) : new PV(dm, x, p, false));
    };
    auto state = [&](Ev &e) -> Ev & {
        std::string gs = "[", ls = "[";
        for (int p = 0; p < P; ++p)
        {
            gs += (p ? "," : "") + global(*pv[p], p);
            ls += (p ? "," : "") + jall(local(*pv[p], p));
        }
        return e.raw("glob", gs + "]").raw("loc", ls + "]");
    };
    auto head = [&](std::string const &ev) {
        Ev e(ev);
        e.num("id", c.i("id")).num("D", D).arr("n", n).arr("per", per).num("lap", lap).num("np", g_size);
        return e;
    };
    auto raw = [&]() {
        std::string s = "[";
        for (int p = 0; p < P; ++p)
            s += (p ? "," : "") + jarr(toint(lap ? get_natural(dm, x) : get_natural_c(dm, x, p)));
        return s + "]";
    };
    open(false);
    {
        auto e = head("open");
        std::string os = "[", gs = "[", ss = "[";
        for (int p = 0; p < P; ++p)
        {
            ivec o = b[p].lo, g = b[p].glo;
            o.insert(o.end(), b[p].hi.begin(), b[p].hi.end());
            g.insert(g.end(), b[p].ghi.begin(), b[p].ghi.end());
            os += (p ? "," : "") + jall(o);
            gs += (p ? "," : "") + jall(g);
            ss += (p ? "," : "") + jarr(toint(init[p]));
        }
        e.raw("own", os + "]").raw("gho", gs + "]").raw("set", ss + "]");
        state(e).emit();
    }
    std::stringstream ss(c.s("ops"));
    std::string tok;
    while (std::getline(ss, tok, '/'))
    {
        Op o;
        std::stringstream ts(tok);
        std::string t[6];
        for (auto &q : t) std::getline(ts, q, ':');
        o = {t[0], std::stoi(t[1]) % P, std::stoi(t[2]) % g_size, std::stoi(t[3]), std::stoi(t[4]), std::stoi(t[5])};
        auto &v = *pv[o.p];
        int f = o.f % dof[o.p];
        bool onglob = o.op == "setg" || o.op == "incg";
        // the owner of the box decides which node is meant
        ivec at(D);
        if (g_rank == o.r)
        {
            auto const &q = b[o.p];
            at = onglob ? nth(q.lo, q.hi, o.k % count(q.lo, q.hi)) : nth(q.glo, q.ghi, o.k % count(q.glo, q.ghi));
        }
        MPI_Bcast(at.data(), D, MPI_INT, o.r, PETSC_COMM_WORLD);
        if (g_rank == o.r)
        {
            if (o.op == "set") (o.k % 2 ? v.at(arr<D>(at)) : v.at(pos<D>(at)))[f] = o.v;
            if (o.op == "inc") (o.k % 2 ? v.at(arr<D>(at)) : v.at(pos<D>(at)))[f] += o.v;
            if (o.op == "setg") v.at_g(pos<D>(at))[f] = o.v;
            if (o.op == "incg") v.at_g(pos<D>(at))[f] += o.v;
        }
        if (o.op == "fill") v.fill(o.v);
        if (o.op == "fillg") v.fill_global(o.v);
        if (o.op == "add") v.local_to_global(ADD_VALUES);
        if (o.op == "ins") v.local_to_global(INSERT_VALUES);
        if (o.op == "g2l") v.global_to_local(INSERT_VALUES);
        auto e = head("call");
        e.str("op", o.op).num("p", o.p).num("r", o.r).arr("at", at).num("f", f).num("v", o.v);
        state(e).emit();
    }
    pv.clear();
    head("close").raw("glob", raw()).emit();
    // a reading view
    open(true);
    for (auto &v : pv) v->global_to_local(INSERT_VALUES);
    {
        auto e = head("read");
        state(e).emit();
    }
    pv.clear();
    head("close").raw("glob", raw()).emit();
    VecDestroy(&x);
    DMDestroy(&dm);
}

int main(int argc, char **argv)
{
    return run(argc, argv, [](Case const &c, int) {
        if (c.name == "vec") c.i("D") == 2 ? vec<2>(c) : vec<3>(c);
    });
}
