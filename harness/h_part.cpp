// Particles in the fluid: control points, surface points, interpolation and spreading,
// averages, forces, and the life of the two particle problems.  The fluid problem and the
// shapes are stand-ins whose every quantity is a small integer multiple of a lattice unit.
#include "common.hpp"
#include <memory>
using namespace vh;
using namespace cafes;

// like toint, for large values made of few operations
static int big(double v)
{
    if (!(std::fabs(v) < 1.5e9)) return NONINT;
    double r = std::round(v);
    return std::fabs(v - r) > 2e-3 ? NONINT : (int)r;
}
static ivec big(dvec const &v, double s)
{
    ivec r(v.size());
    for (std::size_t i = 0; i < v.size(); ++i) r[i] = big(v[i] * s);
    return r;
}
template<std::size_t D>
using angular = typename std::conditional<D == 2, double, geometry::vector<double, 3>>::type;
template<std::size_t D>
using dpart_t = typename std::conditional<D == 2, double, std::array<double, 2>>::type;

static double dpart_of(std::integral_constant<std::size_t, 2>, int k) { return k; }
static std::array<double, 2> dpart_of(std::integral_constant<std::size_t, 3>, int k) { return {{(double)k, k + 1.}}; }
static int dpart_int(double d) { return (int)std::lround(d); }
static int dpart_int(std::array<double, 2> const &d) { return d[1] == d[0] + 1 ? (int)std::lround(d[0]) : 1000; }
static double ang(ivec const &w, double) { return w[0]; }
static geometry::vector<double, 3> ang(ivec const &w, geometry::vector<double, 3>) { return {w[0], w[1], w[2]}; }
static dvec comps(double w) { return {w}; }
static dvec comps(geometry::vector<double, 3> const &w) { return {w[0], w[1], w[2]}; }

// a particle as the case file describes it; lattice coordinates are quarters of a cell
struct Desc
{
    int kind, r2, area, vol, cd, ci, rho;
    ivec c, v, w, f;
    std::vector<ivec> s;
    std::string json() const
    {
        auto o = std::string("{\"k\":") + std::to_string(kind) + ",\"r2\":" + std::to_string(r2) + ",\"a\":" + std::to_string(area) +
                 ",\"vol\":" + std::to_string(vol) + ",\"cd\":" + std::to_string(cd) + ",\"ci\":" + std::to_string(ci) + ",\"rho\":" + std::to_string(rho) +
                 ",\"c\":" + jarr(c) + ",\"v\":" + jarr(v) + ",\"w\":" + jarr(w) + ",\"f\":" + jarr(f) + ",\"s\":[";
        for (std::size_t i = 0; i < s.size(); ++i) o += (i ? "," : "") + jarr(s[i]);
        return o + "]}";
    }
};

// shape with an exact inside test and a given list of surface points
template<std::size_t D>
struct Stub
{
    using dimension_type = std::integral_constant<std::size_t, D>;
    using position_type = geometry::position<double, D>;
    position_type center_;
    std::array<double, D> shape_factors_;
    int kind;
    double r2;              // sixteen times the square of the radius
    std::vector<position_type> pts;
    double area, vol, cd, ci;

    template<typename P>
    bool contains(P const &p) const
    {
        double s = 0, m = 0;
        for (std::size_t d = 0; d < D; ++d)
        {
            double e = 16 * (p[d] - center_[d]) * (p[d] - center_[d]);
            s += e;
            m = std::max(m, e);
        }
        return (kind == 0 ? s : m) < r2;
    }
    geometry::box<int, D> bounding_box(std::array<double, D> const &h) const
    {
        geometry::box<int, D> b;
        double r = std::sqrt(r2) / 4;
        for (std::size_t d = 0; d < D; ++d)
        {
            b.bottom_left[d] = (int)((center_[d] - r) / h[d] - 1.);
            b.upper_right[d] = (int)((center_[d] + r) / h[d] + 1.);
        }
        return b;
    }
    template<typename DP>
    std::vector<position_type> surface(DP const &dp) const
    {
        std::vector<position_type> q;
        int st = dpart_int(dp);
        for (std::size_t i = 0; i < pts.size(); i += st) q.push_back(pts[i]);
        return q;
    }
    double surface_area() const { return area; }
    double volume() const { return vol; }
    double Cd_R() const { return cd; }
    double Ci_R() const { return ci; }
};

struct Life; // who listens to the fluid problem
template<std::size_t D>
struct Fluid : public problem::Problem<D>
{
    problem::context<D> *ctx = nullptr;
    Vec sol = nullptr, rhs = nullptr;
    dvec F; // body force contribution, natural ordering
    std::shared_ptr<int> nsolve = std::make_shared<int>(0), ksp = std::make_shared<int>(0);
    std::shared_ptr<double> scale = std::make_shared<double>(1.);
    int seed = 1;
    PetscErrorCode setup_RHS() override
    {
        Vec t;
        VecDuplicate(rhs, &t);
        VecSet(t, 0.);
        set_natural_c(ctx->dm, t, 0, F);
        VecAXPY(rhs, 1., t);
        VecDestroy(&t);
        return 0;
    }
    PetscErrorCode setup_KSP() override
    {
        ++*ksp;
        return 0;
    }
    // answers with a field of its own, after logging what it was asked
    PetscErrorCode solve() override
    {
        ++*nsolve;
        Rng r(seed + 977 * *nsolve);
        auto u = rand_ints(F.size(), r, -3, 3);
        auto b = get_natural_c(ctx->dm, rhs, 0);
        auto q = get_natural_c(ctx->dm, rhs, 1);
        int z = 1;
        for (auto x : q) z = z && x == 0.;
        VecSet(sol, 7.);
        set_natural_c(ctx->dm, sol, 0, u);
        Ev("fsolve").arr("rm", big(b, std::pow(6., D))).arr("rs", big(b, *scale)).num("pz", z).arr("u", toint(u)).emit();
        return 0;
    }
};

template<std::size_t D>
struct World
{
    using Shape = Stub<D>;
    using Part = particle<Shape>;
    using Ctx = problem::particle_context<D, Shape, Fluid<D>>;
    using gvec = std::vector<std::vector<geometry::vector<double, D>>>;
    DM dm;
    std::array<double, D> h;
    std::array<int, D> n;
    problem::context<D> *pc;
    Fluid<D> fl;
    std::vector<Desc> ds;
    std::vector<Part> parts;
    std::vector<std::vector<std::pair<geometry::position<int, D>, geometry::position<double, D>>>> surf;
    std::vector<std::vector<geometry::vector<double, D>>> rad;
    std::vector<int> nb, num;
    int scale, dp;
    ivec map; // local control entry -> natural velocity entry (or -1)
    std::size_t size = 0;

    explicit World(Case const &c)
    {
        std::array<PetscBool, D> per;
        auto cn = c.v("n"), cp = c.v("per"), ch = c.v("h");
        for (std::size_t d = 0; d < D; ++d)
        {
            n[d] = cn[d];
            per[d] = cp[d] ? PETSC_TRUE : PETSC_FALSE;
            h[d] = ch[d];
            g_h[d] = ch[d];
        }
        fem::createMesh<D>(dm, n, per);
        DMSetUp(dm);
        pc = new problem::context<D>{dm, h, nullptr};
        if (c.has("bc")) pc->set_dirichlet_bc(mkbc(c.v("bc"), std::integral_constant<std::size_t, D>{}));
        fl.ctx = pc;
        DMCreateGlobalVector(dm, &fl.sol);
        VecDuplicate(fl.sol, &fl.rhs);
        VecSet(fl.sol, 0.);
        VecSet(fl.rhs, 0.);
        Rng r(c.i("seed") + 5);
        fl.F = rand_ints(da_size(sub_dm(dm, 0)), r, -4, 4);
        fl.seed = c.i("seed");
        scale = c.i("scale", 4);
        dp = c.i("dp", 1);
    }
    static fem::dirichlet_conditions<2> mkbc(ivec const &b, std::integral_constant<std::size_t, 2>) { return bc2(b); }
    static fem::dirichlet_conditions<3> mkbc(ivec const &b, std::integral_constant<std::size_t, 3>) { return bc3(b); }

    Part make(Desc const &d, bool force) const
    {
        Shape s;
        for (std::size_t i = 0; i < D; ++i)
        {
            s.center_[i] = d.c[i] * h[i] / 4;
            s.shape_factors_[i] = std::sqrt((double)d.r2) / 4;
        }
        s.kind = d.kind;
        s.r2 = d.r2;
        s.vol = d.vol;
        s.cd = d.cd;
        s.ci = d.ci;
        int kept = 0;
        DMDALocalInfo I;
        DMDAGetLocalInfo(sub_dm(dm, 0), &I);
        int M[3] = {I.mx, I.my, I.mz}, P[3] = {I.bx == DM_BOUNDARY_PERIODIC, I.by == DM_BOUNDARY_PERIODIC, I.bz == DM_BOUNDARY_PERIODIC};
        for (std::size_t k = 0; k < d.s.size(); ++k)
        {
            typename Shape::position_type p;
            bool in = k % dp == 0;
            for (std::size_t i = 0; i < D; ++i)
            {
                p[i] = d.s[k][i] * h[i] / 4;
                in = in && d.s[k][i] >= 0 && d.s[k][i] < 4 * (M[i] - 1 + P[i]);
            }
            kept += in;
            s.pts.push_back(p);
        }
        s.area = d.area * kept; // so that the weight of a point is an integer
        physics::force<D> f;
        physics::velocity<D> v;
        for (std::size_t i = 0; i < D; ++i)
        {
            f[i] = d.f[i];
            v[i] = d.v[i];
        }
        Part p(s, f, d.rho);
        p.velocity_ = v;
        p.angular_velocity_ = ang(d.w, angular<D>{});
        return p;
    }
    void read(Case const &c, std::string const &pre)
    {
        ds.clear();
        parts.clear();
        for (int k = 0; c.has(pre + std::to_string(k)); ++k)
        {
            auto key = pre + std::to_string(k);
            auto a = c.v(key);
            Desc d{a[0], a[1], a[2], a[3], a[4], a[5], a[6], c.v(key + "c"), c.v(key + "v"), c.v(key + "w"), c.v(key + "f"), {}};
            auto s = c.v(key + "s");
            for (std::size_t i = 0; i + D <= s.size(); i += D) d.s.push_back(ivec(s.begin() + i, s.begin() + i + D));
            ds.push_back(d);
            parts.push_back(make(d, true));
        }
    }
    Ctx context(bool rhs = false, bool rigid = false) { return Ctx{fl, parts, surf, rad, nb, num, (std::size_t)scale, rhs, rigid, false, nullptr}; }

    // which velocity entry does each entry of the unknown correspond to?
    template<typename C>
    void probe(C &ctx, std::size_t sz, ivec &m)
    {
        Vec x, f;
        VecCreateMPI(PETSC_COMM_WORLD, sz * D, PETSC_DECIDE, &x);
        DMGetGlobalVector(dm, &f);
        VecSet(f, -1.);
        PetscScalar *a;
        VecGetArray(x, &a);
        for (std::size_t i = 0; i < sz * D; ++i) a[i] = i;
        VecRestoreArray(x, &a);
        {
            auto pf = petsc::petsc_vec<D>(dm, f, 0, false);
            problem::set_rhs_problem_impl(ctx, x, pf, false);
        }
        m.assign(sz * D, -1);
        DM da[2];
        Vec sv[2];
        DMCompositeGetEntriesArray(dm, da);
        DMCompositeGetAccessArray(dm, f, 2, nullptr, sv);
        foreach_owned(da[0], sv[0], [&](std::size_t k, PetscScalar &v) {
            int i = (int)std::lround(v);
            if (i >= 0 && i < (int)m.size()) m[i] = m[i] == -1 ? (int)k : -2;
        });
        DMCompositeRestoreAccessArray(dm, f, 2, nullptr, sv);
        DMRestoreGlobalVector(dm, &f);
        VecDestroy(&x);
    }
    void to_control(Vec x, dvec const &field, ivec const &m)
    {
        PetscScalar *a;
        VecGetArray(x, &a);
        for (std::size_t i = 0; i < m.size(); ++i) a[i] = m[i] >= 0 ? field[m[i]] : 0.;
        VecRestoreArray(x, &a);
    }
    dvec from_control(Vec x, ivec const &m)
    {
        dvec l(fl.F.size(), 0.), g(fl.F.size(), 0.);
        PetscScalar const *a;
        PetscInt sz;
        VecGetLocalSize(x, &sz);
        VecGetArrayRead(x, &a);
        for (int i = 0; i < (int)m.size() && i < sz; ++i)
            if (m[i] >= 0) l[m[i]] += a[i];
        VecRestoreArrayRead(x, &a);
        MPI_Allreduce(l.data(), g.data(), (int)l.size(), MPI_DOUBLE, MPI_SUM, PETSC_COMM_WORLD);
        return g;
    }
    static std::string jall(ivec const &mine)
    {
        auto g = gather(mine);
        std::string s = "[";
        for (std::size_t i = 0; i < g.size(); ++i) s += (i ? "," : "") + jarr(g[i]);
        return s + "]";
    }
    // every rank's list of rows of equal width
    static std::string jrows(std::vector<ivec> const &rows, int w)
    {
        ivec f;
        for (auto const &r : rows) f.insert(f.end(), r.begin(), r.end());
        auto g = gather(f);
        std::string s = "[";
        for (std::size_t i = 0; i < g.size(); ++i)
        {
            s += i ? ",[" : "[";
            for (std::size_t k = 0; k + w <= g[i].size(); k += w)
                s += (k ? "," : "") + jarr(ivec(g[i].begin() + k, g[i].begin() + k + w));
            s += "]";
        }
        return s + "]";
    }
    template<typename S, typename R>
    std::string jsurf(S const &sf, R const &rd)
    {
        std::vector<ivec> rows;
        for (std::size_t p = 0; p < sf.size(); ++p)
        {
            if (sf[p].size() != rd[p].size()) rows.push_back(ivec(1 + 3 * D, NONINT));
            for (std::size_t i = 0; i < sf[p].size() && i < rd[p].size(); ++i)
            {
                ivec r{(int)p + 1};
                for (std::size_t d = 0; d < D; ++d) r.push_back(sf[p][i].first[d]);
                for (std::size_t d = 0; d < D; ++d) r.push_back(toint(sf[p][i].second[d], 4 / h[d]));
                for (std::size_t d = 0; d < D; ++d) r.push_back(toint(rd[p][i][d], 4 / h[d]));
                rows.push_back(r);
            }
        }
        return jrows(rows, 1 + 3 * D);
    }
    std::string jparts()
    {
        std::string s = "[";
        for (std::size_t i = 0; i < ds.size(); ++i) s += (i ? "," : "") + ds[i].json();
        return s + "]";
    }
    template<typename S, typename R>
    void setup_event(Case const &c, S const &sf, R const &rd, std::vector<int> const &nbv, std::vector<int> const &nv, std::size_t sz, ivec const &m)
    {
        Ev("setup").num("id", c.i("id")).num("D", D).arr("n", c.v("n")).arr("per", c.v("per")).arr("h", c.v("h"))
            .arr("bc", c.has("bc") ? c.v("bc") : ivec{}).num("np", g_size).num("scale", scale).num("dp", dp).raw("parts", jparts())
            .raw("surf", jsurf(sf, rd)).raw("nb", jall(nbv)).raw("num", jall(nv)).raw("size", jall({(int)sz})).raw("ent", jall(m))
            .arr("F", toint(fl.F)).emit();
    }
    void setup(Case const &c)
    {
        auto box = fem::get_DM_bounds<D>(dm, 0);
        size = set_materials(parts, surf, rad, nb, num, box, h, dpart_of(std::integral_constant<std::size_t, D>{}, dp), scale);
        auto x = context();
        probe(x, size, map);
        setup_event(c, surf, rad, nb, num, size, map);
    }
    // surface data of known integer value
    int gval(int p, ivec const &q, int d) const
    {
        int s = 7 * (p + 1) + 5 * (d + 1);
        for (std::size_t e = 0; e < D; ++e) s += (3 * e + 2) * q[e];
        return (s % 9 + 9) % 9 - 4;
    }
    ivec quarter(std::size_t p, std::size_t i) const
    {
        ivec q;
        for (std::size_t d = 0; d < D; ++d) q.push_back(4 * surf[p][i].first[d] + toint(surf[p][i].second[d], 4 / h[d]));
        return q;
    }
    gvec shape_g(double fill) const
    {
        gvec g(parts.size());
        for (std::size_t p = 0; p < parts.size(); ++p)
        {
            g[p].resize(surf[p].size());
            for (auto &v : g[p])
                for (std::size_t d = 0; d < D; ++d) v[d] = fill;
        }
        return g;
    }
    gvec known_g() const
    {
        auto g = shape_g(0.);
        for (std::size_t p = 0; p < parts.size(); ++p)
            for (std::size_t i = 0; i < surf[p].size(); ++i)
                for (std::size_t d = 0; d < D; ++d) g[p][i][d] = gval(p, quarter(p, i), d);
        return g;
    }
    // rows: particle, quarter coordinates, values
    std::string jg(gvec const &g, std::vector<double> const &s) const
    {
        std::vector<ivec> rows;
        for (std::size_t p = 0; p < parts.size(); ++p)
            for (std::size_t i = 0; i < surf[p].size(); ++i)
            {
                ivec r{(int)p + 1};
                for (auto q : quarter(p, i)) r.push_back(q);
                for (std::size_t d = 0; d < D; ++d) r.push_back(big(g[p][i][d] * s[p]));
                rows.push_back(r);
            }
        return jrows(rows, 1 + 2 * D);
    }
    dvec field(int seed, int lo, int hi) const
    {
        Rng r(seed);
        return rand_ints(fl.F.size(), r, lo, hi);
    }
    void destroy()
    {
        VecDestroy(&fl.sol);
        VecDestroy(&fl.rhs);
        DMDestroy(&dm);
        delete pc;
    }
};

template<typename A>
static ivec flatint(A const &v, std::vector<double> const &s, std::size_t D)
{
    ivec r;
    for (std::size_t i = 0; i < v.size(); ++i)
        for (auto x : comps(v[i])) r.push_back(big(x * s[i]));
    return r;
}
static dvec comps(geometry::vector<double, 2> const &w) { return {w[0], w[1]}; }
template<typename V>
static ivec vecint(std::vector<V> const &v, std::vector<double> const &s, std::size_t D)
{
    ivec r;
    for (std::size_t i = 0; i < v.size(); ++i)
        for (std::size_t d = 0; d < D; ++d) r.push_back(big(v[i][d] * s[i]));
    return r;
}

template<std::size_t D>
static void low(World<D> &w, std::string const &op, int seed)
{
    auto ctx = w.context();
    double q = std::pow(4., D);
    std::size_t np = w.parts.size();
    auto nat = w.field(seed, -4, 4);
    auto put = [&](Vec v, dvec const &a) {
        VecSet(v, 0.);
        set_natural_c(w.dm, v, 0, a);
    };
    if (op == "interp" || op == "rigid")
    {
        put(w.fl.sol, nat);
        auto g = w.shape_g(91.);
        problem::interp_fluid_to_surf(ctx, g, op == "rigid", false);
        Ev("interp").num("rigid", op == "rigid").arr("u", toint(nat)).arr("uo", toint(get_natural_c(w.dm, w.fl.sol, 0)))
            .raw("g", w.jg(g, dvec(np, q))).emit();
    }
    if (op == "spread")
    {
        auto old = w.field(seed + 1, 10, 20);
        VecSet(w.fl.rhs, 0.);
        put(w.fl.rhs, old);
        auto g = w.known_g();
        problem::SL_to_Rhs(ctx, g);
        double pz = 0;
        for (auto x : get_natural_c(w.dm, w.fl.rhs, 1)) pz += std::fabs(x);
        Ev("spread").arr("r", big(get_natural_c(w.dm, w.fl.rhs, 0), q)).num("pz", pz == 0.).emit();
    }
    if (op == "layer")
    {
        auto g = w.known_g();
        std::vector<geometry::vector<double, D>> mean(np);
        std::vector<angular<D>> cross(np);
        problem::simple_layer(ctx, g, mean, cross);
        dvec s1, s4, s16;
        for (auto n : w.nb)
        {
            s1.push_back(n);
            s4.push_back(4 * n);
            s16.push_back(16 * n);
        }
        Ev("layer").raw("mean", World<D>::jall(vecint(mean, s1, D))).raw("cross", World<D>::jall(flatint(cross, s4, D))).raw("g", w.jg(g, s16)).emit();
    }
    if (op == "proj")
    {
        put(w.fl.sol, nat);
        std::vector<geometry::vector<double, D>> mean(np);
        std::vector<angular<D>> cross(np);
        for (auto &m : mean) m = 55.;
        for (auto &m : cross) m = 55.;
        problem::projection<D>(ctx, mean, cross);
        dvec s1, s4;
        for (auto n : w.num)
        {
            s1.push_back(q * n);
            s4.push_back(4 * q * n);
        }
        Ev("proj").arr("u", toint(nat)).raw("mean", World<D>::jall(vecint(mean, s1, D))).raw("cross", World<D>::jall(flatint(cross, s4, D))).emit();
    }
    if (op == "takey" || op == "take")
    {
        put(w.fl.sol, nat);
        Vec y;
        VecCreateMPI(PETSC_COMM_WORLD, w.size * D, PETSC_DECIDE, &y);
        VecSet(y, 33.);
        std::vector<geometry::vector<double, D>> mean(np);
        std::vector<angular<D>> cross(np);
        Rng r(seed + 9);
        ivec m, x;
        for (std::size_t p = 0; p < np; ++p)
        {
            ivec a;
            for (std::size_t d = 0; d < D; ++d)
            {
                m.push_back(r.in(-5, 5));
                mean[p][d] = m.back();
            }
            for (std::size_t d = 0; d < (D == 2 ? 1 : 3); ++d)
            {
                a.push_back(r.in(-5, 5));
                x.push_back(a.back());
            }
            cross[p] = ang(a, angular<D>{});
        }
        if (op == "takey") problem::compute_y<D>(ctx, y, mean, cross);
        else problem::compute_y<D>(ctx, y);
        Ev("take").num("sub", op == "takey").arr("u", toint(nat)).arr("mean", m).arr("cross", x).arr("y", big(w.from_control(y, w.map), 4)).emit();
        VecDestroy(&y);
    }
    if (op == "load" || op == "loadf")
    {
        Vec x;
        VecCreateMPI(PETSC_COMM_WORLD, w.size * D, PETSC_DECIDE, &x);
        w.to_control(x, nat, w.map);
        auto old = w.field(seed + 1, -5, 5);
        put(w.fl.rhs, old);
        problem::set_rhs_problem<D>(ctx, x, op == "loadf");
        double pz = 0;
        for (auto v : get_natural_c(w.dm, w.fl.rhs, 1)) pz += std::fabs(v);
        Ev("load").num("f", op == "loadf").arr("x", toint(nat)).arr("xo", toint(w.from_control(x, w.map))).arr("old", toint(old))
            .arr("r", big(get_natural_c(w.dm, w.fl.rhs, 0), std::pow(6., D))).num("pz", pz == 0.).emit();
        VecDestroy(&x);
    }
    if (op == "init" || op == "init0")
    {
        auto c2 = w.context(op == "init", false);
        Vec x;
        VecCreateMPI(PETSC_COMM_WORLD, w.size * D, PETSC_DECIDE, &x);
        w.to_control(x, nat, w.map);
        auto old = w.field(seed + 1, -5, 5);
        put(w.fl.rhs, old);
        problem::init_problem<D>(c2, x, seed % 2);
        Ev("init").num("f", seed % 2).num("full", op == "init").arr("x", toint(nat)).arr("old", toint(old))
            .arr("r", big(get_natural_c(w.dm, w.fl.rhs, 0), std::pow(6., D))).emit();
        VecDestroy(&x);
    }
    if (op == "force")
    {
        Vec x;
        VecCreateMPI(PETSC_COMM_WORLD, w.size * D, PETSC_DECIDE, &x);
        w.to_control(x, nat, w.map);
        std::vector<geometry::vector<double, D>> f(np);
        std::vector<angular<D>> t(np);
        for (auto &a : f) a = 44.;
        for (auto &a : t) a = 44.;
        auto box = fem::get_DM_bounds<D>(w.dm, 0);
        forces_torques_with_control(w.parts, x, box, f, t, w.h, false);
        // scale: number of control points (known to the specification)
        std::vector<int> cnt(np, 0);
        for (std::size_t p = 0; p < np; ++p)
        {
            auto pb = w.parts[p].bounding_box(w.h);
            if (geometry::intersect(box, pb)) cnt[p] = find_fluid_points_insides(w.parts[p], geometry::box_inside(box, pb), w.h).size();
        }
        MPI_Allreduce(MPI_IN_PLACE, cnt.data(), np, MPI_INT, MPI_SUM, PETSC_COMM_WORLD);
        dvec s1, s4;
        for (auto n : cnt)
        {
            s1.push_back(n ? n : 1);
            s4.push_back(4 * (n ? n : 1));
        }
        Ev("force").arr("x", toint(nat)).arr("cnt", cnt).raw("f", World<D>::jall(vecint(f, s1, D))).raw("t", World<D>::jall(flatint(t, s4, D))).emit();
        VecDestroy(&x);
    }
}

template<std::size_t D>
static void part(Case const &c)
{
    World<D> w(c);
    w.read(c, "p");
    w.setup(c);
    int k = 0;
    for (auto const &op : split(c.s("ops"), '/'))
    {
        if (op == "move")
        {
            w.read(c, "q");
            w.setup(c);
        }
        else low(w, op, c.i("seed") + 31 * ++k);
    }
    w.destroy();
}

// ---- the particle problems -------------------------------------------------
template<std::size_t D>
struct Script
{
    World<D> *w;
    ivec *map;
    Mat *A;
    int inner, seed;
    dvec bscale; // per natural entry
};
static ivec scaled(dvec const &v, dvec const &s)
{
    ivec r(v.size());
    for (std::size_t i = 0; i < v.size(); ++i) r[i] = big(v[i] * s[i]);
    return r;
}
// in place of the outer iteration: look at the right-hand side, apply the operator to a few
// vectors, answer with one of our own
template<std::size_t D>
static PetscErrorCode iterate_outer(PC pc, Vec b, Vec x)
{
    void *p;
    PCShellGetContext(pc, &p);
    auto &s = *(Script<D> *)p;
    Ev("outer").arr("b", scaled(s.w->from_control(b, *s.map), s.bscale)).emit();
    Vec u, y;
    VecDuplicate(b, &u);
    VecDuplicate(b, &y);
    dvec last;
    for (int k = 0; k < s.inner; ++k)
    {
        auto a = k == 1 ? last : s.w->field(s.seed + 17 * k, -3, 3);
        last = a;
        s.w->to_control(u, a, *s.map);
        VecSet(y, 8.);
        Ev("apply").arr("x", toint(a)).emit();
        MatMult(*s.A, u, y);
        Ev("mult").arr("x", toint(a)).arr("xo", toint(s.w->from_control(u, *s.map))).arr("y", scaled(s.w->from_control(y, *s.map), s.bscale)).emit();
    }
    auto a = s.w->field(s.seed + 1000, -3, 3);
    s.w->to_control(x, a, *s.map);
    Ev("answer").arr("x", toint(a)).emit();
    VecDestroy(&u);
    VecDestroy(&y);
    return 0;
}

template<std::size_t D, typename P>
static void report(World<D> &w, P &pb, Case const &c) {}

template<std::size_t D>
static void report_sem(World<D> &w, problem::SEM<Stub<D>, D, Fluid<D>> &pb, std::string const &op)
{
    std::size_t np = w.ds.size();
    if (op == "velo")
    {
        for (auto &p : pb.parts_)
            for (std::size_t d = 0; d < D; ++d) p.velocity_[d] = 66.;
        pb.get_new_velocities();
        ivec v;
        for (std::size_t i = 0; i < np; ++i)
            for (std::size_t d = 0; d < D; ++d) v.push_back(big(pb.parts_[i].velocity_[d] * pb.nb_surf_points_[i] * std::pow(4., D)));
        Ev("velo").raw("v", World<D>::jall(v)).emit();
    }
    else
    {
        std::vector<geometry::vector<double, D>> f(np);
        std::vector<angular<D>> t(np);
        auto box = fem::get_DM_bounds<D>(w.dm, 0);
        pb.get_new_forces_torques(f, t);
        std::vector<int> cnt(np, 0);
        for (std::size_t p = 0; p < np; ++p)
        {
            auto b = pb.parts_[p].bounding_box(w.h);
            if (geometry::intersect(box, b)) cnt[p] = find_fluid_points_insides(pb.parts_[p], geometry::box_inside(box, b), w.h).size();
        }
        MPI_Allreduce(MPI_IN_PLACE, cnt.data(), np, MPI_INT, MPI_SUM, PETSC_COMM_WORLD);
        dvec s1, s4;
        for (auto n : cnt)
        {
            s1.push_back(n ? n : 1);
            s4.push_back(4 * (n ? n : 1));
        }
        Ev("sforce").raw("f", World<D>::jall(vecint(f, s1, D))).raw("t", World<D>::jall(flatint(t, s4, D))).emit();
    }
}
template<std::size_t D>
static void report_sem(World<D> &, problem::DtoN<Stub<D>, D, Fluid<D>> &, std::string const &) {}

template<std::size_t D, typename PB>
static void life(Case const &c, bool sem)
{
    World<D> w(c);
    w.read(c, "p");
    w.scale = 4;
    PB pb(w.parts, w.fl, dpart_of(std::integral_constant<std::size_t, D>{}, w.dp));
    ivec map;
    Script<D> sc{&w, &map, &pb.A, 0, c.i("seed"), {}};
    auto remake = [&]() {
        pb.create_Mat_and_Vec();
        w.probe(*pb.ctx, (std::size_t)[&] { PetscInt a; VecGetLocalSize(pb.sol, &a); return a / (PetscInt)D; }(), map);
        w.setup_event(c, pb.surf_points_, pb.radial_vec_, pb.nb_surf_points_, pb.num_, map.size() / D, map);
        // scale of the control entries, and of the spread ones
        double L = 1;
        if (sem)
            for (std::size_t p = 0; p < w.ds.size(); ++p) L *= pb.nb_surf_points_[p];
        *w.fl.scale = std::pow(16., D) * (sem ? 16 * L : 1);
        sc.bscale.assign(w.fl.F.size(), 1.);
        if (sem)
        {
            auto box = fem::get_DM_bounds<D>(w.dm, 0);
            dvec l(w.fl.F.size(), 0.);
            for (std::size_t p = 0; p < w.ds.size(); ++p)
            {
                auto b = pb.parts_[p].bounding_box(w.h);
                if (!geometry::intersect(box, b)) continue;
                DMDALocalInfo I;
                DMDAGetLocalInfo(sub_dm(w.dm, 0), &I);
                for (auto const &q : find_fluid_points_insides(pb.parts_[p], geometry::box_inside(box, b), w.h))
                {
                    std::size_t k = D == 2 ? q[1] * I.mx + q[0] : ((D == 3 ? q[D - 1] : 0) * I.my + q[1]) * I.mx + q[0];
                    for (std::size_t d = 0; d < D; ++d) l[k * D + d] = pb.num_[p] * std::pow(4., D + 2);
                }
            }
            MPI_Allreduce(l.data(), sc.bscale.data(), (int)l.size(), MPI_DOUBLE, MPI_SUM, PETSC_COMM_WORLD);
        }
        pb.setup_KSP();
        PC pc;
        KSPGetPC(pb.ksp, &pc);
        PCSetType(pc, PCSHELL);
        PCShellSetContext(pc, &sc);
        PCShellSetApply(pc, iterate_outer<D>);
    };
    remake();
    int k = 0;
    for (auto const &op : split(c.s("ops"), '/'))
    {
        ++k;
        sc.seed = c.i("seed") + 131 * k;
        Ev("begin").str("op", op.substr(0, op.find(':'))).num("sem", sem).emit();
        if (op == "setup")
        {
            pb.setup_RHS();
            Ev("setupdone").emit();
        }
        else if (op.substr(0, 5) == "solve")
        {
            sc.inner = std::stoi(op.substr(6));
            pb.solve();
            Ev("final").arr("u", toint(get_natural_c(w.dm, w.fl.sol, 0))).emit();
        }
        else if (op == "change") // new velocities and forces
        {
            Rng r(c.i("seed") + 7 * k);
            for (std::size_t p = 0; p < w.ds.size(); ++p)
            {
                auto &d = w.ds[p];
                for (auto &x : d.v) x = r.in(-2, 2);
                for (auto &x : d.w) x = r.in(-2, 2);
                for (auto &x : d.f) x = r.in(-2, 2);
                auto n = w.make(d, true);
                pb.parts_[p].velocity_ = n.velocity_;
                pb.parts_[p].angular_velocity_ = n.angular_velocity_;
                pb.parts_[p].force_ = n.force_;
            }
            Ev("changed").raw("parts", w.jparts()).emit();
        }
        else if (op == "move")
        {
            w.read(c, "q");
            for (std::size_t p = 0; p < w.ds.size(); ++p) pb.parts_[p] = w.parts[p];
            remake();
        }
        else report_sem(w, pb, op);
    }
    w.destroy();
}

// ---- real shapes -------------------------------------------------------------
template<typename F>
static void real_shape(F &f, Case const &c, double U, geometry::position<double, 2> const &p)
{
    f(make_circle(p, c.i("r") / U), c.i("cut") / U);
}
template<typename F>
static void real_shape(F &f, Case const &c, double U, geometry::position<double, 3> const &p)
{
    f(make_sphere(p, c.i("r") / U), std::array<double, 2>{{c.i("cut") / U, c.i("cut") / U}});
}
template<std::size_t D>
static void real(Case const &c)
{
    // lengths in units of 1/unit
    auto cn = c.v("n"), cp = c.v("per"), ch = c.v("h"), cc = c.v("c");
    double U = c.i("unit");
    std::array<int, D> n;
    std::array<PetscBool, D> per;
    std::array<double, D> h;
    geometry::position<double, D> ctr;
    for (std::size_t d = 0; d < D; ++d)
    {
        n[d] = cn[d];
        per[d] = cp[d] ? PETSC_TRUE : PETSC_FALSE;
        h[d] = ch[d] / U;
        ctr[d] = cc[d] / U;
    }
    DM dm;
    fem::createMesh<D>(dm, n, per);
    DMSetUp(dm);
    auto run = [&](auto shape, auto dp) {
        using S = decltype(shape);
        std::vector<particle<S>> parts{make_particle_with_force(shape, physics::force<D>(), 1.)};
        std::vector<std::vector<std::pair<geometry::position<int, D>, geometry::position<double, D>>>> surf;
        std::vector<std::vector<geometry::vector<double, D>>> rad;
        std::vector<int> nb, num;
        auto box = fem::get_DM_bounds<D>(dm, 0);
        auto size = set_materials(parts, surf, rad, nb, num, box, h, dp, (std::size_t)2);
        Fluid<D> fl;
        problem::context<D> pc{dm, h, nullptr};
        fl.ctx = &pc;
        using Ctx = problem::particle_context<D, S, Fluid<D>>;
        Ctx ctx{fl, parts, surf, rad, nb, num, 2, false, false, false, nullptr};
        Case k = c;
        k.kv["h"] = D == 2 ? "1,1" : "1,1,1";
        World<D> w(k);
        ivec map, all;
        w.probe(ctx, size, map);
        // the whole domain in one go
        DMDALocalInfo I;
        DMDAGetLocalInfo(sub_dm(dm, 0), &I);
        int M[3] = {I.mx, I.my, I.mz}, P[3] = {I.bx == DM_BOUNDARY_PERIODIC, I.by == DM_BOUNDARY_PERIODIC, I.bz == DM_BOUNDARY_PERIODIC};
        geometry::box<int, D> whole;
        for (std::size_t d = 0; d < D; ++d)
        {
            whole.bottom_left[d] = 0;
            whole.upper_right[d] = M[d] - 1 + P[d];
        }
        for (auto const &q : find_fluid_points_insides(parts[0], whole, h))
            all.push_back(D == 2 ? q[1] * I.mx + q[0] : ((D == 3 ? q[D - 1] : 0) * I.my + q[1]) * I.mx + q[0]);
        const double K = 65536;
        std::vector<ivec> rows, pts;
        for (std::size_t i = 0; i < surf[0].size() && i < rad[0].size(); ++i)
        {
            ivec r;
            for (std::size_t d = 0; d < D; ++d) r.push_back(surf[0][i].first[d]);
            for (std::size_t d = 0; d < D; ++d) r.push_back((int)std::lround(surf[0][i].second[d] / h[d] * K));
            for (std::size_t d = 0; d < D; ++d) r.push_back((int)std::lround(rad[0][i][d] / h[d] * K));
            rows.push_back(r);
        }
        auto sp = parts[0].surface(dp);
        std::string ps = "[";
        for (std::size_t i = 0; i < sp.size(); ++i)
        {
            ivec r;
            for (std::size_t d = 0; d < D; ++d) r.push_back((int)std::lround(sp[i][d] / h[d] * K));
            ps += (i ? "," : "") + jarr(r);
        }
        ivec ck;
        for (std::size_t d = 0; d < D; ++d) ck.push_back((int)std::lround(ctr[d] / h[d] * K));
        Ev("real").num("id", c.i("id")).num("D", D).arr("n", cn).arr("per", cp).arr("h", ch).num("np", g_size).arr("c", cc).num("r", c.i("r")).num("unit", c.i("unit"))
            .arr("ck", ck).raw("ent", World<D>::jall(map)).raw("size", World<D>::jall({(int)size})).raw("all", World<D>::jall(all))
            .raw("surf", World<D>::jrows(rows, 3 * D)).raw("pts", ps + "]").raw("nb", World<D>::jall(nb)).emit();
        w.destroy();
    };
    real_shape(run, c, U, ctr);
    DMDestroy(&dm);
}

int main(int argc, char **argv)
{
    int rc = run(argc, argv, [](Case const &c, int) {
        bool three = c.i("D") == 3;
        opt("-dton_ksp_type", "preonly");
        opt("-sem_ksp_type", "preonly");
        if (c.name == "part") three ? part<3>(c) : part<2>(c);
        if (c.name == "real") three ? real<3>(c) : real<2>(c);
        // in three dimensions DtoN does not compile (no addsingularity there)
        if (c.name == "dton") life<2, problem::DtoN<Stub<2>, 2, Fluid<2>>>(c, false);
        if (c.name == "sem") three ? life<3, problem::SEM<Stub<3>, 3, Fluid<3>>>(c, true) : life<2, problem::SEM<Stub<2>, 2, Fluid<2>>>(c, true);
    });
    return rc;
}
