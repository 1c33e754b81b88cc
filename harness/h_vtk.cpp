// Output for ParaView, against the stand-in of VTK in vtk/.
#include "xml.hpp"
#include <particle/particle.hpp>
#include <fem/mesh.hpp>
#include <io/vtk.hpp>
using namespace vh;
using namespace cafes;

static std::string quoted(std::string const &s) { return "\"" + s + "\""; }
static void attrs(Node const &n, char const *parent, std::string &names)
{
    std::vector<Node const *> p, a;
    find(n, parent, p);
    for (auto q : p) find(*q, parent[0] == 'P' && parent[1] == 'P' ? "PDataArray" : "DataArray", a);
    names = "[";
    for (auto q : a)
        names += (names.size() > 1 ? "," : "") + ("{\"name\":" + quoted(q->a("Name"))) + ",\"type\":" + quoted(q->a("type")) + ",\"comp\":" + (q->a("NumberOfComponents") == "" ? "1" : q->a("NumberOfComponents")) + "}";
    names += "]";
}
// one file with points: everything in it, lengths times hs, values times vs
static std::string data(std::string const &file, double hs, double vs)
{
    Node root;
    std::size_t p = 0;
    std::string txt = slurp(file), o;
    bool ok = !txt.empty() && parse(txt, p, root);
    std::vector<Node const *> pieces, pts, da, grid;
    find(root, "Piece", pieces);
    find(root, "Points", pts);
    find(root, "PointData", da);
    find(root, "StructuredGrid", grid);
    o = "{\"ok\":" + std::to_string(ok && pieces.size() == 1 && pts.size() == 1 && da.size() == 1);
    o += ",\"ext\":" + jarr(pieces.size() == 1 ? nums(pieces[0]->a("Extent"), 1) : ivec{});
    o += ",\"whole\":" + jarr(grid.size() == 1 ? nums(grid[0]->a("WholeExtent"), 1) : ivec{});
    std::vector<Node const *> x, a;
    if (pts.size() == 1) find(*pts[0], "DataArray", x);
    if (da.size() == 1) find(*da[0], "DataArray", a);
    o += ",\"pts\":" + jarr(x.size() == 1 ? nums(x[0]->text, hs) : ivec{}) + ",\"arrays\":[";
    for (std::size_t i = 0; i < a.size(); ++i)
        o += (i ? "," : "") + ("{\"name\":" + quoted(a[i]->a("Name"))) + ",\"comp\":" + a[i]->a("NumberOfComponents") + ",\"val\":" + jarr(nums(a[i]->text, vs)) + "}";
    return o + "]}";
}
// a field: its description, and every piece it names
static std::string field(std::string const &dir, std::string const &name, double hs)
{
    Node root;
    std::size_t p = 0;
    std::string txt = slurp(dir + "/" + name), o, names;
    bool ok = !txt.empty() && parse(txt, p, root);
    std::vector<Node const *> g, pc, f;
    find(root, "VTKFile", f);
    find(root, "PStructuredGrid", g);
    find(root, "Piece", pc);
    attrs(root, "PPointData", names);
    o = "{\"ok\":" + std::to_string(ok && g.size() == 1 && f.size() == 1) + ",\"type\":" + quoted(f.size() == 1 ? f[0]->a("type") : "");
    o += ",\"whole\":" + jarr(g.size() == 1 ? nums(g[0]->a("WholeExtent"), 1) : ivec{}) + ",\"arrays\":" + names + ",\"pieces\":[";
    for (std::size_t i = 0; i < pc.size(); ++i)
        o += (i ? "," : "") + ("{\"ext\":" + jarr(nums(pc[i]->a("Extent"), 1))) + ",\"file\":" + data(dir + "/" + pc[i]->a("Source"), hs, 8) + "}";
    return o + "]}";
}

template<std::size_t D>
static void save(Case const &c)
{
    std::string root = "v" + c.s("id");
    if (g_rank == 0)
    {
        mkdir(root.c_str(), 0755);
        mkdir((root + "/d").c_str(), 0755);
    }
    MPI_Barrier(PETSC_COMM_WORLD);
    double hs = c.i("div", 1);
    auto per = c.v("per"), h = c.v("h");
    std::array<ivec, 2> n{{c.v("n"), c.v("n2")}};
    DM dm[2];
    Vec x[2];
    std::array<double, D> hh[2];
    Rng r(c.i("seed"));
    for (int k = 0; k < 2; ++k)
    {
        std::array<int, D> np;
        std::array<PetscBool, D> pp;
        for (std::size_t d = 0; d < D; ++d)
        {
            np[d] = n[k][d];
            pp[d] = per[d] ? PETSC_TRUE : PETSC_FALSE;
            hh[k][d] = (k + 1) * h[d] / hs;
        }
        fem::createMesh<D>(dm[k], np, pp);
        DMSetUp(dm[k]);
        DMCreateGlobalVector(dm[k], &x[k]);
    }
    auto fresh = [&](int k) {
        for (int e = 0; e < 2; ++e)
        {
            auto v = rand_ints(da_size(sub_dm(dm[k], e)), r, -999, 999);
            for (auto &w : v) w /= 8;
            set_natural_c(dm[k], x[k], e, v);
        }
    };
    fresh(0);
    fresh(1);
    std::vector<std::string> names;
    auto common = [&](char const *ev) {
        Ev e(ev);
        e.num("D", D).num("np", g_size).arr("n", n[0]).arr("n2", n[1]).arr("per", per).arr("h", h);
        return e;
    };
    common("vopen").emit();
    for (auto const &t : split(c.s("ops"), '/'))
    {   // g:name:dir:change
        auto q = split(t, ':');
        int k = std::stoi(q[0]);
        if (q[3] == "1") fresh(k);
        auto xv = toint(get_natural_c(dm[k], x[k], 0), 8), xp = toint(get_natural_c(dm[k], x[k], 1), 8);
        std::string dir = root + (q[2] == "1" ? "/d" : "");
        io::save_VTK(dir.c_str(), q[1].c_str(), x[k], dm[k], hh[k]);
        MPI_Barrier(PETSC_COMM_WORLD);
        std::string full = dir + "/" + q[1];
        if (std::find(names.begin(), names.end(), full) == names.end()) names.push_back(full);
        Ev e = common("vsave");
        e.num("g", k).str("name", full).arr("xv", xv).arr("xp", xp);
        e.arr("xv1", toint(get_natural_c(dm[k], x[k], 0), 8)).arr("xp1", toint(get_natural_c(dm[k], x[k], 1), 8));
        if (g_rank == 0)
        {
            std::string f = "[", l = "[";
            for (auto const &m : names)
            {
                auto s = m.rfind('/');
                f += (f == "[" ? "" : ",") + ("{\"name\":" + quoted(m)) + ",\"v\":" + field(m.substr(0, s), m.substr(s + 1) + "_velocity.pvts", hs) + ",\"p\":" + field(m.substr(0, s), m.substr(s + 1) + "_pressure.pvts", hs) + "}";
            }
            std::set<std::string> on;
            list(root, on);
            list(root + "/d", on);
            for (auto const &m : on) l += (l == "[" ? "" : ",") + quoted(m);
            e.raw("files", f + "]").raw("disk", l + "]");
        }
        e.emit();
        MPI_Barrier(PETSC_COMM_WORLD);
    }
    for (int k = 0; k < 2; ++k)
    {
        VecDestroy(&x[k]);
        DMDestroy(&dm[k]);
    }
}

// particles: places, radii, forces and torques in eighths
static std::vector<particle<geometry::circle<>>> mk(ivec const &v, std::integral_constant<std::size_t, 2>)
{
    std::vector<particle<geometry::circle<>>> p;
    for (std::size_t i = 0; i + 2 < v.size(); i += 3)
        p.push_back({geometry::circle<>{geometry::position<double, 2>{v[i] / 8., v[i + 1] / 8.}, v[i + 2] / 8.}, physics::velocity<2>{0., 0.}, 0.});
    return p;
}
static std::vector<particle<geometry::sphere<>>> mk(ivec const &v, std::integral_constant<std::size_t, 3>)
{
    std::vector<particle<geometry::sphere<>>> p;
    for (std::size_t i = 0; i + 3 < v.size(); i += 4)
        p.push_back({geometry::sphere<>{geometry::position<double, 3>{v[i] / 8., v[i + 1] / 8., v[i + 2] / 8.}, v[i + 3] / 8.}, physics::velocity<3>{0., 0., 0.}, geometry::vector<double, 3>{0., 0., 0.}});
    return p;
}
static double torque(ivec const &v, std::size_t i, std::integral_constant<std::size_t, 2>) { return v[i] / 8.; }
static geometry::vector<double, 3> torque(ivec const &v, std::size_t i, std::integral_constant<std::size_t, 3>)
{
    return {v[3 * i] / 8., v[3 * i + 1] / 8., v[3 * i + 2] / 8.};
}
template<std::size_t D>
static void parts(Case const &c)
{
    std::string root = "v" + c.s("id");
    if (g_rank == 0) mkdir(root.c_str(), 0755);
    MPI_Barrier(PETSC_COMM_WORLD);
    using Dim = std::integral_constant<std::size_t, D>;
    auto v = c.v("p"), fv = c.v("f"), tv = c.v("t");
    auto p = mk(v, Dim{});
    if (c.i("with"))
    {
        std::vector<geometry::vector<double, D>> f(p.size());
        std::vector<decltype(torque(tv, 0, Dim{}))> t;
        for (std::size_t i = 0; i < p.size(); ++i)
        {
            for (std::size_t d = 0; d < D; ++d) f[i][d] = fv[i * D + d] / 8.;
            t.push_back(torque(tv, i, Dim{}));
        }
        io::saveParticles(root.c_str(), c.s("nm").c_str(), p, f, t);
    }
    else io::saveParticles(root.c_str(), c.s("nm").c_str(), p);
    MPI_Barrier(PETSC_COMM_WORLD);
    Ev e("vparts");
    e.num("D", D).num("with", c.i("with")).str("name", c.s("nm")).arr("p", v).arr("f", fv).arr("t", tv);
    if (g_rank == 0)
    {
        std::set<std::string> on;
        list(root, on);
        std::string l = "[";
        for (auto const &m : on) l += (l == "[" ? "" : ",") + quoted(m.substr(root.size() + 1));
        e.raw("disk", l + "]").raw("file", data(root + "/" + c.s("nm") + "_particles.vtp", 8, 8));
    }
    e.emit();
    MPI_Barrier(PETSC_COMM_WORLD);
}

int main(int argc, char **argv)
{
    return run(argc, argv, [](Case const &c, int) {
        if (c.name == "save") c.i("D") == 2 ? save<2>(c) : save<3>(c);
        if (c.name == "parts") c.i("D") == 2 ? parts<2>(c) : parts<3>(c);
    });
}
