// Output files, refinement of a solution, run-time options.
#include "xml.hpp"
#include <io/hdf5.hpp>
#include <posttraitement/interpolation.hpp>
#include <hdf5.h>
using namespace vh;
using namespace cafes;

template<std::size_t D>
static DM make_mesh(ivec const &n, ivec const &per)
{
    std::array<int, D> np;
    std::array<PetscBool, D> pp;
    for (std::size_t d = 0; d < D; ++d)
    {
        np[d] = n[d];
        pp[d] = per[d] ? PETSC_TRUE : PETSC_FALSE;
    }
    DM dm;
    fem::createMesh<D>(dm, np, pp);
    DMSetUp(dm);
    return dm;
}

static Ev base(Case const &c, std::string const &ev)
{
    Ev e(ev);
    e.num("id", c.i("id")).num("np", g_size);
    for (auto k : {"n", "per", "h"}) e.arr(k, c.v(k));
    return e;
}

static ivec sizes(DM da)
{
    DMDALocalInfo I;
    DMDAGetLocalInfo(da, &I);
    return {I.mx, I.my};
}

// -- refinement ------------------------------------------------------------
static void interp(Case const &c)
{
    auto n = c.v("n"), per = c.v("per"), r = c.v("r"), h = c.v("h");
    DM dm = make_mesh<2>(n, per), fine;
    Vec x, y;
    DMCreateGlobalVector(dm, &x);
    Rng rng(c.i("seed"));
    auto xv = rand_ints(da_size(sub_dm(dm, 0)), rng, -99, 99), xp = rand_ints(da_size(sub_dm(dm, 1)), rng, -99, 99);
    set_natural_c(dm, x, 0, xv);
    set_natural_c(dm, x, 1, xp);
    std::array<int, 2> rr{{r[0], r[1]}};
    // steps are given in units of 1/div
    double div = c.i("div", 1);
    std::array<double, 2> hh{{h[0] / div, h[1] / div}};
    posttraitement::linear_interpolation<2>(dm, x, fine, y, rr, hh);
    double s = r[0] * r[1];
    base(c, "interp").arr("r", r).arr("xv", toint(xv)).arr("xp", toint(xp))
        .arr("xv1", toint(get_natural_c(dm, x, 0))).arr("xp1", toint(get_natural_c(dm, x, 1)))
        .arr("nv", sizes(sub_dm(fine, 0))).arr("npr", sizes(sub_dm(fine, 1)))
        .arr("yv", toint(get_natural_c(fine, y, 0), s)).arr("yp", toint(get_natural_c(fine, y, 1), s)).emit();
    VecDestroy(&x);
    VecDestroy(&y);
}

// -- files -----------------------------------------------------------------
struct Data
{
    ivec dims, val;
};
static Data h5(std::string const &file, std::string const &path)
{
    Data r;
    H5E_auto2_t old;
    void *oldd;
    H5Eget_auto2(H5E_DEFAULT, &old, &oldd);
    H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
    hid_t f = access(file.c_str(), R_OK) == 0 ? H5Fopen(file.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT) : -1;
    if (f >= 0)
    {
        hid_t d = H5Dopen2(f, path.c_str(), H5P_DEFAULT);
        if (d >= 0)
        {
            hid_t s = H5Dget_space(d);
            hsize_t dim[8];
            int nd = H5Sget_simple_extent_dims(s, dim, nullptr);
            std::size_t n = 1;
            for (int i = 0; i < nd; ++i)
            {
                r.dims.push_back((int)dim[i]);
                n *= dim[i];
            }
            dvec v(n);
            if (H5Dread(d, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data()) >= 0) r.val = toint(v, 8);
            H5Sclose(s);
            H5Dclose(d);
        }
        H5Fclose(f);
    }
    H5Eset_auto2(H5E_DEFAULT, old, oldd);
    return r;
}
// what a reader of dir/name.xdmf gets
static std::string read_back(std::string const &dir, std::string const &name, double hs)
{
    std::ostringstream o;
    Node root;
    std::size_t p = 0;
    std::string txt = slurp(dir + "/" + name + ".xdmf");
    bool ok = !txt.empty() && parse(txt, p, root);
    o << "{\"name\":\"" << dir << "/" << name << "\",\"ok\":" << ok << ",\"att\":[";
    std::vector<Node const *> grids;
    find(root, "Grid", grids);
    bool first = true;
    for (auto g : grids)
    {
        Node const *top = nullptr, *geo = nullptr;
        std::vector<Node const *> att;
        for (auto const &k : g->ch)
        {
            if (k.tag == "Topology") top = &k;
            if (k.tag == "Geometry") geo = &k;
            if (k.tag == "Attribute") att.push_back(&k);
        }
        for (auto a : att)
        {
            std::vector<Node const *> di, gd;
            find(*a, "DataItem", di);
            if (geo) find(*geo, "DataItem", gd);
            o << (first ? "" : ",") << "{\"name\":\"" << a->a("Name") << "\",\"kind\":\"" << a->a("AttributeType")
              << "\",\"center\":\"" << a->a("Center") << "\",\"topo\":\"" << (top ? top->a("TopologyType") : "")
              << "\",\"geo\":\"" << (geo ? geo->a("GeometryType") : "") << "\",\"gtype\":\"" << g->a("GridType") << "\"";
            first = false;
            o << ",\"nodes\":" << jarr(top ? nums(top->a("NumberOfElements"), 1) : ivec{});
            o << ",\"origin\":" << jarr(gd.size() == 2 ? nums(gd[0]->text, hs) : ivec{});
            o << ",\"step\":" << jarr(gd.size() == 2 ? nums(gd[1]->text, hs) : ivec{});
            o << ",\"dims\":" << jarr(di.size() == 1 ? nums(di[0]->a("Dimensions"), 1) : ivec{});
            o << ",\"format\":\"" << (di.size() == 1 ? di[0]->a("Format") : "") << "\"";
            std::string ref = di.size() == 1 ? trim(di[0]->text) : "";
            auto col = ref.find(':');
            Data d;
            if (col != std::string::npos) d = h5(dir + "/" + ref.substr(0, col), ref.substr(col + 1));
            o << ",\"fdims\":" << jarr(d.dims) << ",\"val\":" << jarr(d.val) << "}";
        }
    }
    o << "]}";
    return o.str();
}
// ops: name/seed pairs, grids numbered; the state after every save is everything on disk
static void save(Case const &c)
{
    std::string root = "s" + c.s("id");
    if (g_rank == 0)
    {
        mkdir(root.c_str(), 0755);
        mkdir((root + "/d").c_str(), 0755);
    }
    MPI_Barrier(PETSC_COMM_WORLD);
    double hs = c.i("div", 1);
    auto n = c.v("n"), per = c.v("per"), h = c.v("h"), n2 = c.v("n2");
    DM dm[2] = {make_mesh<2>(n, per), make_mesh<2>(n2, per)};
    Vec x[2];
    std::array<double, 2> hh[2] = {{{h[0] / hs, h[1] / hs}}, {{2 * h[0] / hs, 3 * h[1] / hs}}};
    Rng r(c.i("seed"));
    for (int k = 0; k < 2; ++k)
    {
        DMCreateGlobalVector(dm[k], &x[k]);
        for (int e = 0; e < 2; ++e) set_natural_c(dm[k], x[k], e, rand_ints(da_size(sub_dm(dm[k], e)), r, -999, 999));
        VecScale(x[k], .125);
    }
    std::vector<std::string> names;
    std::stringstream ss(c.s("ops"));
    std::string t;
    base(c, "open").arr("n2", n2).emit();
    while (std::getline(ss, t, '/'))
    {   // g:name:dir:change
        std::stringstream ts(t);
        std::string g, nm, dd, ch;
        std::getline(ts, g, ':');
        std::getline(ts, nm, ':');
        std::getline(ts, dd, ':');
        std::getline(ts, ch, ':');
        int k = std::stoi(g);
        if (ch == "1")
            for (int e = 0; e < 2; ++e)
            {
                auto v = rand_ints(da_size(sub_dm(dm[k], e)), r, -999, 999);
                for (auto &w : v) w /= 8;
                set_natural_c(dm[k], x[k], e, v);
            }
        auto xv = toint(get_natural_c(dm[k], x[k], 0), 8), xp = toint(get_natural_c(dm[k], x[k], 1), 8);
        std::string dir = root + (dd == "1" ? "/d" : "");
        io::save_hdf5<2>(dir.c_str(), nm.c_str(), x[k], dm[k], hh[k]);
        MPI_Barrier(PETSC_COMM_WORLD);
        std::string full = dir + "/" + nm;
        if (std::find(names.begin(), names.end(), full) == names.end()) names.push_back(full);
        auto xv1 = toint(get_natural_c(dm[k], x[k], 0), 8), xp1 = toint(get_natural_c(dm[k], x[k], 1), 8);
        Ev e = base(c, "save");
        e.arr("n2", n2).num("g", k).str("name", full).arr("xv", xv).arr("xp", xp).arr("xv1", xv1).arr("xp1", xp1);
        if (g_rank == 0)
        {
            std::string f = "[", l = "[";
            for (auto const &q : names)
            {
                auto s = q.rfind('/');
                f += (f == "[" ? "" : ",") + read_back(q.substr(0, s), q.substr(s + 1), hs);
            }
            std::set<std::string> on;
            list(root, on);
            list(root + "/d", on);
            for (auto const &q : on) l += (l == "[" ? "\"" : ",\"") + q + "\"";
            e.raw("files", f + "]").raw("disk", l + "]");
        }
        e.emit();
        MPI_Barrier(PETSC_COMM_WORLD);
    }
    for (int k = 0; k < 2; ++k) VecDestroy(&x[k]);
}

// -- options ---------------------------------------------------------------
static const char *KEYS[] = {"mx", "my", "mz", "Lx", "Ly", "Lz", "xperiod", "yperiod", "zperiod", "strain_tensor", "assembling", "PMM"};
template<std::size_t D>
static std::string config(problem::options<D> const &o)
{
    std::ostringstream s;
    s << "{";
    auto put = [&](std::string const &k, int v) { s << (s.str() == "{" ? "" : ",") << "\"" << k << "\":" << v; };
    for (std::size_t d = 0; d < D; ++d)
    {
        put(std::string("m") + "xyz"[d], (int)o.mx[d]);
        put(std::string("L") + "xyz"[d], toint(o.lx[d], 1000));
        put(std::string(1, "xyz"[d]) + "period", o.xperiod[d]);
    }
    put("strain_tensor", o.strain_tensor);
    put("assembling", o.assembling);
    put("PMM", o.pmm);
    return s.str() + "}";
}
// what the Stokes problem made of the current options is
static void derived(Case const &c, Ev &e)
{
    auto bc = bc2({1, 1, 1, 1, 1, 1, 1, 1});
    g_h[0] = g_h[1] = 1;
    auto st = make_stokes<2>(bc, make_rhs<2>({{nullptr, nullptr}}));
    DM mesh = st.ctx->dm, da = sub_dm(mesh, 0), dp = sub_dm(mesh, 1);
    auto nv = sizes(da), np = sizes(dp);
    DMBoundaryType bx, by;
    DMDAGetInfo(da, 0, 0, 0, 0, 0, 0, 0, 0, 0, &bx, &by, 0, 0);
    // lengths: steps times the number of velocity cells of the pressure grid given
    ivec len;
    auto per = ivec{bx == DM_BOUNDARY_PERIODIC, by == DM_BOUNDARY_PERIODIC};
    for (int d = 0; d < 2; ++d) len.push_back(toint(st.ctx->h[d] * (nv[d] - 1 + per[d]), 1000));
    // the form: (x y, 0) in lattice coordinates tells the strain form from the Laplacian
    dvec u(da_size(da), 0.);
    for (int j = 0; j < nv[1]; ++j)
        for (int i = 0; i < nv[0]; ++i) u[2 * (i + (std::size_t)nv[0] * j)] = i * j;
    Vec x, y;
    VecDuplicate(st.sol, &x);
    VecDuplicate(st.sol, &y);
    VecSet(x, 0.);
    set_natural_c(mesh, x, 0, u);
    MatMult(st.A, x, y);
    auto v = get_natural_c(mesh, y, 0);
    std::size_t mid = nv[0] / 2 + (std::size_t)nv[0] * (nv[1] / 2);
    bool strain = std::fabs(v[2 * mid + 1]) > 1e-6;
    st.setup_RHS();
    st.setup_KSP();
    MatType mt;
    KSPType kt;
    PCType pt;
    PC pc;
    MatGetType(st.A, &mt);
    KSPGetType(st.ksp, &kt);
    KSPGetPC(st.ksp, &pc);
    PCGetType(pc, &pt);
    e.arr("nv", nv).arr("npr", np).arr("per", per).arr("len", len).num("strain", strain)
        .num("shell", std::string(mt) == MATSHELL).str("ksp", kt ? kt : "").str("pc", pt ? pt : "");
    KSPDestroy(&st.ksp);
    MatDestroy(&st.A);
    MatDestroy(&st.P);
    VecDestroy(&st.sol);
    VecDestroy(&st.rhs);
    VecDestroy(&x);
    VecDestroy(&y);
}
// script: set:key:value:spelling / clear:key / new2 new3 / proc2 proc3 / make
static void options(Case const &c)
{
    for (auto k : KEYS) PetscOptionsClearValue(nullptr, (std::string("-") + k).c_str());
    for (auto k : {"-stokes_ksp_type", "-stokes_pc_type"}) PetscOptionsClearValue(nullptr, k);
    problem::options<2> o2;
    problem::options<3> o3;
    std::stringstream ss(c.s("ops"));
    std::string t;
    Ev("opt").num("id", c.i("id")).str("op", "start").raw("o2", config(o2)).raw("o3", config(o3)).emit();
    while (std::getline(ss, t, '/'))
    {
        std::stringstream ts(t);
        std::string op, k, v, sp;
        std::getline(ts, op, ':');
        std::getline(ts, k, ':');
        std::getline(ts, v, ':');
        std::getline(ts, sp, ':');
        if (op == "set")
        {
            if (sp == "-") PetscOptionsSetValue(nullptr, ("-" + k).c_str(), nullptr);
            else opt("-" + k, sp);
        }
        if (op == "clear") PetscOptionsClearValue(nullptr, ("-" + k).c_str());
        if (op == "new2") o2 = problem::options<2>{};
        if (op == "new3") o3 = problem::options<3>{};
        if (op == "proc2") o2.process_options();
        if (op == "proc3") o3.process_options();
        Ev e("opt");
        e.num("id", c.i("id")).str("op", op).str("key", k).num("val", v.empty() ? 0 : std::stoi(v));
        e.raw("o2", config(o2)).raw("o3", config(o3));
        if (op == "make") derived(c, e);
        e.emit();
    }
    for (auto k : KEYS) PetscOptionsClearValue(nullptr, (std::string("-") + k).c_str());
}

int main(int argc, char **argv)
{
    return run(argc, argv, [](Case const &c, int) {
        if (c.name == "interp") interp(c);
        if (c.name == "save") save(c);
        if (c.name == "opts") options(c);
    });
}
