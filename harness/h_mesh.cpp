// Meshes (sizes, partition, ghosts, reported bounds), iteration over cells, element nodes, weights.
#include "common.hpp"
using namespace vh;
using namespace cafes;

template<std::size_t D>
struct Made
{
    DM dm = nullptr;
    std::vector<DM> ent;
    bool comp;
};

template<std::size_t D>
Made<D> make(Case const &c)
{
    Made<D> m;
    auto n = c.v("n"), per = c.v("per");
    std::array<int, D> np;
    std::array<PetscBool, D> pp;
    for (std::size_t d = 0; d < D; ++d)
    {
        np[d] = n[d];
        pp[d] = per[d] ? PETSC_TRUE : PETSC_FALSE;
    }
    m.comp = !c.i("lap");
    if (m.comp)
    {
        fem::createMesh<D>(m.dm, np, pp);
        DMSetUp(m.dm);
        m.ent = {sub_dm(m.dm, 0), sub_dm(m.dm, 1)};
    }
    else
    {
        fem::createLaplacianMesh<D>(m.dm, np, pp);
        m.ent = {m.dm};
    }
    return m;
}

static std::string jall(ivec const &mine)
{
    auto g = gather(mine);
    std::string s = "[";
    for (std::size_t i = 0; i < g.size(); ++i) s += (i ? "," : "") + jarr(g[i]);
    return s + "]";
}

template<typename B, std::size_t D>
static ivec corners(B const &b)
{
    ivec r;
    for (std::size_t d = 0; d < D; ++d) r.push_back(b.bottom_left[d]);
    for (std::size_t d = 0; d < D; ++d) r.push_back(b.upper_right[d]);
    return r;
}

template<std::size_t D>
void mesh(Case const &c)
{
    auto m = make<D>(c);
    Ev e("mesh");
    e.num("id", c.i("id")).num("D", D).arr("n", c.v("n")).arr("per", c.v("per")).num("np", g_size).num("lap", c.i("lap"));
    std::string s = "[";
    for (std::size_t k = 0; k < m.ent.size(); ++k)
    {
        DM da = m.ent[k];
        PetscInt M[3], dof, sw, x[3], w[3], gx[3], gw[3];
        DMBoundaryType bt[3];
        DMDAStencilType st;
        DMDAGetInfo(da, nullptr, &M[0], &M[1], &M[2], nullptr, nullptr, nullptr, &dof, &sw, &bt[0], &bt[1], &bt[2], &st);
        DMDAGetCorners(da, &x[0], &x[1], &x[2], &w[0], &w[1], &w[2]);
        DMDAGetGhostCorners(da, &gx[0], &gx[1], &gx[2], &gw[0], &gw[1], &gw[2]);
        ivec nn, pp, own, gho;
        for (std::size_t d = 0; d < D; ++d)
        {
            nn.push_back(M[d]);
            pp.push_back(bt[d] == DM_BOUNDARY_PERIODIC);
        }
        for (std::size_t d = 0; d < D; ++d) own.push_back(x[d]);
        for (std::size_t d = 0; d < D; ++d) own.push_back(x[d] + w[d]);
        for (std::size_t d = 0; d < D; ++d) gho.push_back(gx[d]);
        for (std::size_t d = 0; d < D; ++d) gho.push_back(gx[d] + gw[d]);
        auto cb = m.comp ? fem::get_DM_bounds<D>(m.dm, (int)k) : fem::get_DM_bounds<D>(da);
        auto ob = m.comp ? fem::get_DM_bounds<D>(m.dm, (int)k, false) : fem::get_DM_bounds<D>(da, false);
        auto gb = fem::get_global_bounds<D>(da);
        auto bty = fem::get_boundary_type<D>(da);
        ivec gbv(gb.begin(), gb.end()), btv;
        for (auto b : bty) btv.push_back(b == DM_BOUNDARY_PERIODIC);
        int loc = -1, tot = -1;
        fem::get_DM_sizes(da, loc, tot);
        s += (k ? ",{" : "{");
        s += "\"n\":" + jarr(nn) + ",\"per\":" + jarr(pp) + ",\"dof\":" + std::to_string(dof) +
             ",\"sw\":" + std::to_string(sw) + ",\"box\":" + std::to_string(st == DMDA_STENCIL_BOX) +
             ",\"gdof\":" + std::to_string(fem::get_dof(da)) +
             ",\"own\":" + jall(own) + ",\"gho\":" + jall(gho) + ",\"cb\":" + jall(corners<decltype(cb), D>(cb)) +
             ",\"ob\":" + jall(corners<decltype(ob), D>(ob)) + ",\"gb\":" + jall(gbv) + ",\"bt\":" + jall(btv) +
             ",\"loc\":" + jall({loc}) + ",\"tot\":" + jall({tot}) + "}";
    }
    e.raw("ents", s + "]");
    int loc = -1, tot = -1;
    fem::get_DM_sizes(m.dm, loc, tot);
    e.raw("loc", jall({loc})).raw("tot", jall({tot}));
    e.emit();
    DMDestroy(&m.dm);
}

static std::string idx2(DM da, geometry::position<int, 2> const &p, int which, int dof)
{
    DMDALocalInfo I;
    DMDAGetLocalInfo(da, &I);
    if (which == 0) return jarr(fem::get_indices(I, p, dof));
    if (which == 1) return jarr(fem::get_indices_tensor(I, p));
    return jarr(fem::get_indices_4Q1(I, p));
}

// what iterate visits on each rank, with the element nodes of each cell
template<std::size_t D>
void cells(Case const &c)
{
    auto m = make<D>(c);
    for (std::size_t k = 0; k < m.ent.size(); ++k)
    {
        ivec vis, nodes, sub;
        auto b = m.comp ? fem::get_DM_bounds<D>(m.dm, (int)k) : fem::get_DM_bounds<D>(m.ent[k]);
        algorithm::iterate(b, [&](auto const &p) {
            for (std::size_t d = 0; d < D; ++d) vis.push_back(p[d]);
            geometry::position<int, D> q;
            for (std::size_t d = 0; d < D; ++d) q[d] = p[d];
            for (auto const &e : fem::get_element(q))
                for (auto i : e) nodes.push_back(i);
            if (m.comp && k == 1)
                for (auto const &e : fem::get_element_4Q1(q))
                    for (auto i : e) sub.push_back(i);
        });
        Ev("cells").num("id", c.i("id")).num("D", D).arr("n", c.v("n")).arr("per", c.v("per")).num("np", g_size)
            .num("lap", c.i("lap")).num("ent", k).raw("vis", jall(vis)).raw("nodes", jall(nodes)).raw("sub", jall(sub)).emit();
    }
    DMDestroy(&m.dm);
}

// local indices of element nodes (2D)
void indices(Case const &c)
{
    auto m = make<2>(c);
    for (std::size_t k = 0; k < 2; ++k)
    {
        DMDALocalInfo I;
        DMDAGetLocalInfo(m.ent[k], &I);
        ivec gho = {I.gxs, I.gys, I.gxs + I.gxm, I.gys + I.gym}, el, ix, tx, sub, sx;
        auto b = fem::get_DM_bounds<2>(m.dm, (int)k);
        int dof = k == 0 ? c.i("id") % 2 : 0;
        algorithm::iterate(b, [&](auto const &p) {
            geometry::position<int, 2> q{p[0], p[1]};
            for (auto const &e : fem::get_element(q))
                for (auto i : e) el.push_back(i);
            for (auto i : fem::get_indices(I, q, dof)) ix.push_back(i);
            if (k == 0)
                for (auto i : fem::get_indices_tensor(I, q)) tx.push_back(i);
        });
        if (k == 0)
        {
            auto pb = fem::get_DM_bounds<2>(m.dm, 1);
            algorithm::iterate(pb, [&](auto const &p) {
                geometry::position<int, 2> q{p[0], p[1]};
                for (auto const &e : fem::get_element_4Q1(q))
                    for (auto i : e) sub.push_back(i);
                for (auto i : fem::get_indices_4Q1(I, q)) sx.push_back(i);
            });
        }
        Ev("indices").num("id", c.i("id")).num("ent", k).num("ndof", I.dof).num("dof", dof).raw("gho", jall(gho)).raw("el", jall(el))
            .raw("ix", jall(ix)).raw("tx", jall(tx)).raw("sub", jall(sub)).raw("sx", jall(sx)).emit();
    }
    DMDestroy(&m.dm);
}

// iterate over an arbitrary box
template<std::size_t D>
void boxit(Case const &c)
{
    auto lo = c.v("lo"), hi = c.v("hi");
    geometry::box<int, D> b;
    for (std::size_t d = 0; d < D; ++d)
    {
        b.bottom_left[d] = lo[d];
        b.upper_right[d] = hi[d];
    }
    ivec vis;
    auto f = [&](auto const &p) {
        for (std::size_t d = 0; d < D; ++d) vis.push_back(p[d]);
    };
    if (c.i("cst"))
    {
        auto const &cb = b;
        auto const &cf = f;
        algorithm::iterate(cb, cf);
    }
    else
        algorithm::iterate(b, f);
    Ev("box").num("id", c.i("id")).num("D", D).arr("lo", lo).arr("hi", hi).arr("vis", vis).emit();
}

// weights of a point of a cell; x = k/q with integer steps h; everything times q^D
template<std::size_t D>
void weights(Case const &c)
{
    auto x = c.v("x"), h = c.v("h"), at = c.v("at");
    geometry::position<double, D> p;
    std::array<double, D> hh;
    geometry::position<int, D> q;
    double s = 1;
    for (std::size_t d = 0; d < D; ++d)
    {
        p[d] = x[d] / 4.;
        hh[d] = h[d];
        q[d] = at[d];
        s *= 4 * h[d];
    }
    auto w = fem::P1_integration(p, hh);
    auto g = fem::P1_integration_grad(p, hh);
    auto el = fem::get_element(q);
    ivec wi, gi, ei;
    for (auto v : w) wi.push_back(toint(v, s));
    for (auto const &r : g)
        for (auto v : r) gi.push_back(toint(v, std::pow(4., D - 1)));
    for (auto const &e : el)
        for (auto i : e) ei.push_back(i);
    Ev("weights").num("id", c.i("id")).num("D", D).arr("x", x).arr("h", h).arr("at", at).arr("w", wi).arr("g", gi).arr("el", ei).emit();
}

int main(int argc, char **argv)
{
    return run(argc, argv, [](Case const &c, int) {
        bool d2 = c.i("D") == 2;
        if (c.name == "mesh") d2 ? mesh<2>(c) : mesh<3>(c);
        if (c.name == "cells") d2 ? cells<2>(c) : cells<3>(c);
        if (c.name == "indices") indices(c);
        if (c.name == "box") d2 ? boxit<2>(c) : boxit<3>(c);
        if (c.name == "weights") d2 ? weights<2>(c) : weights<3>(c);
    });
}
