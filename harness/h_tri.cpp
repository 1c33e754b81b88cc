// Triangulations of sets of points. One process.
#include "common.hpp"
#include <particle/geometry/triangulation.hpp>
using namespace vh;
using namespace cafes;

template<std::size_t D>
static std::vector<geometry::position<double, D>> points(ivec const &v, double mul, double div)
{
    std::vector<geometry::position<double, D>> p;
    for (std::size_t i = 0; i + D <= v.size(); i += D)
    {
        geometry::position<double, D> q;
        for (std::size_t d = 0; d < D; ++d) q[d] = v[i + d] * mul / div;
        p.push_back(q);
    }
    return p;
}
static ivec flat(std::vector<std::array<int, 3>> const &t)
{
    ivec o;
    for (auto &x : t) o.insert(o.end(), x.begin(), x.end());
    return o;
}
template<std::size_t D>
static void tri(Case const &c)
{
    auto v = c.v("p");
    auto p = points<D>(v, c.i("mul", 1), c.i("div", 1));
    auto t = flat(geometry::triangulation(p));
    ivec after;
    for (auto &q : p)
        for (std::size_t d = 0; d < D; ++d) after.push_back(std::lround(q[d] * c.i("div", 1) / c.i("mul", 1)));
    Ev("tri").num("D", D).num("exact", 1).num("num", p.size()).arr("p", v).arr("p1", after).arr("t", t).emit();
}
// the surface of a shape, as sampled by the library
static void shape(Case const &c)
{
    auto r = c.v("r");
    double s = c.i("k") / 16.;
    std::vector<geometry::position<double, 3>> p;
    if (c.s("kind") == "sphere") p = geometry::sphere<>{geometry::position<double, 3>{1., 2., 3.}, r[0] / 4.}.surface({{s, s}});
    else p = geometry::super_ellipsoid<double, 3>{geometry::position<double, 3>{1., -1., 2.}, std::array<double, 3>{{r[0] / 4., r[1] / 4., r[2] / 4.}}, c.i("e") / 4., c.i("m") / 4.}.surface({{s, s}});
    std::vector<geometry::position<double, 3>> q; // every point once
    for (auto &x : p)
    {
        bool seen = false;
        for (auto &y : q) seen = seen || (std::fabs(x[0] - y[0]) + std::fabs(x[1] - y[1]) + std::fabs(x[2] - y[2]) < 1e-9);
        if (!seen) q.push_back(x);
    }
    auto t = flat(geometry::triangulation(q));
    Ev("tri").num("D", 3).num("exact", 0).num("num", q.size()).arr("p", ivec{}).arr("p1", ivec{}).arr("t", t).emit();
}

int main(int argc, char **argv)
{
    return run(argc, argv, [](Case const &c, int) {
        if (c.name == "tri") c.i("D") == 2 ? tri<2>(c) : tri<3>(c);
        if (c.name == "surf") shape(c);
    });
}
