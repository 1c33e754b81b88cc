// Lubrication singularities: fields, assembly, forces.
#include "common.hpp"
#include <particle/singularity/add_singularity.hpp>
#include <particle/forces_torques.hpp>
#include <cafes.hpp>
using namespace vh;
using namespace cafes;
namespace cs = cafes::singularity;

// a number as five limbs in base 10^4, the first two before the point; the first carries the sign
static std::string fix(double v)
{
    if (!(std::fabs(v) < 9e5)) return "[9999,0,0,0,0]";
    long long n = llroundl((long double)v * 1e12L);
    long long l[5];
    for (int i = 4; i > 0; --i)
    {
        long long r = ((n % 10000) + 10000) % 10000;
        l[i] = r;
        n = (n - r) / 10000;
    }
    l[0] = n;
    std::ostringstream o;
    o << "[" << l[0] << "," << l[1] << "," << l[2] << "," << l[3] << "," << l[4] << "]";
    return o.str();
}
template<typename V>
static std::string fixs(V const &v, std::size_t n, double scale = 1.)
{
    std::string s = "[";
    for (std::size_t i = 0; i < n; ++i) s += (i ? "," : "") + fix(v[i] * scale);
    return s + "]";
}

template<std::size_t D>
using shape_t = std::conditional_t<D == 2, geometry::circle<>, geometry::sphere<>>;
template<std::size_t D>
using part_t = particle<shape_t<D>>;
template<std::size_t D>
using pos_t = geometry::position<double, D>;

static auto mkpart(pos_t<2> c, double r, dvec const &v)
{
    return particle<geometry::circle<>>{geometry::circle<>{c, r}, physics::velocity<2>{v[0], v[1]}, 0.};
}
static auto mkpart(pos_t<3> c, double r, dvec const &v)
{
    return particle<geometry::sphere<>>{geometry::sphere<>{c, r}, physics::velocity<3>{v[0], v[1], v[2]}, geometry::vector<double, 3>{0., 0., 0.}};
}

struct Quiet // the singularity class writes to cout
{
    std::streambuf *old;
    std::ostringstream o;
    Quiet() : old(std::cout.rdbuf(o.rdbuf())) {}
    ~Quiet() { std::cout.rdbuf(old); }
};

// chi at sqrt(s), s, l and e in units
void chi(Case const &c)
{
    auto a = c.v("s");
    int l = c.i("l"), e = c.i("e");
    double w = c.dv("w")[0];
    Ev ev("chi");
    ev.num("l", l).num("e", e).arr("s", a);
    std::string o = "[";
    for (std::size_t i = 0; i < a.size(); ++i)
    {
        double x = (i % 2 ? -1 : 1) * std::sqrt(a[i] * w), L = l * w, E = e * w;
        dvec v{cs::chiTrunc(x, L, E), cs::dchiTrunc(x, L, E) * E, cs::d2chiTrunc(x, L, E) * E * E,
               cs::d3chiTrunc(x, L, E) * E * E * E, cs::d4chiTrunc(x, L, E) * E * E * E * E};
        o += (i ? "," : "") + fixs(v, 5);
    }
    ev.raw("v", o + "]").emit();
}

template<std::size_t D>
void field(Case const &c)
{
    double w = c.dv("w")[0];
    auto R = c.v("R"), dir = c.v("dir"), ctr = c.v("c"), pt = c.v("pts");
    int q = c.i("q"), a = c.i("a");
    auto v1 = c.dv("v1"), v2 = c.dv("v2");
    pos_t<D> c1, c2;
    for (std::size_t d = 0; d < D; ++d)
    {
        c1[d] = ctr[d] * w;
        c2[d] = c1[d] + (R[0] + R[1] + a) * w * dir[d] / q;
    }
    Quiet quiet;
    auto p1 = mkpart(c1, R[0] * w, v1), p2 = mkpart(c2, R[1] * w, v2);
    cs::singularity<shape_t<D>, D> sg(p1, p2, c.i("h") * w);
    std::string base = "[";
    for (std::size_t k = 0; k < D; ++k) base += (k ? "," : "") + fixs(sg.base_[k], D);
    Ev ev("field");
    ev.num("D", D).arr("R", R).num("k", c.i("k")).num("a", a).num("h", c.i("h")).arr("dir", dir).num("q", q).arr("ctr", ctr);
    ev.arr("v1", c.v("v1")).arr("v2", c.v("v2")).num("on", sg.is_singularity_).num("close", a * w < 1);
    ev.raw("cut2", fix(sg.cutoff_dist_ * sg.cutoff_dist_ / w / w)).raw("gap", fix(sg.contact_length_ / w));
    if (sg.is_singularity_)
    {
        std::size_t np = pt.size() / D;
        std::vector<ivec> xs;
        std::string f = "[", L = "[";
        for (std::size_t i = 0; i < np; ++i)
        {
            pos_t<D> x;
            ivec xi;
            for (std::size_t d = 0; d < D; ++d)
            {
                xi.push_back(pt[i * D + d]);
                x[d] = xi[d] * w / 4;
            }
            xs.push_back(xi);
            auto rec = [&](double p, auto const &u, auto const &G, pos_t<D> const &y) {
                std::string g = "[";
                for (std::size_t k = 0; k < D; ++k) g += (k ? "," : "") + fixs(G[k], D, w);
                return "{\"p\":" + fix(p * w) + ",\"u\":" + fixs(u, D) + ",\"G\":" + g + "],\"x\":" + fixs(y, D, 1 / w) + "}";
            };
            auto pos = sg.get_pos_from_part_ref(x);
            auto back = sg.get_pos_in_part_ref(pos);
            f += (i ? "," : "") + rec(sg.get_p_sing_ref(x), sg.get_u_sing_ref(x), sg.get_grad_u_sing_ref(x), back);
            L += (i ? "," : "") + rec(sg.get_p_sing(pos), sg.get_u_sing(pos), sg.get_grad_u_sing(pos), pos);
        }
        ev.raw("base", base + "]").raw("origin", fixs(sg.origin_, D, 1 / w)).raw("UN", fix(sg.UN_)).raw("UT", fix(sg.UT_));
        ev.arr2("pts", xs).raw("ref", f + "]").raw("lab", L + "]");
    }
    ev.emit();
}

// what add_singularity_* see of a problem
template<std::size_t D>
struct Flow
{
    problem::context<D> *ctx;
    Vec rhs = nullptr;
};
template<std::size_t D>
struct Scene
{
    Flow<D> problem;
    std::vector<part_t<D>> particles;
    DM dm;
    std::array<double, D> h;
    double w;
    explicit Scene(Case const &c) : w{c.dv("w")[0]}
    {
        std::array<PetscInt, D> n;
        std::array<PetscBool, D> per;
        auto cn = c.v("n"), ch = c.v("h");
        for (std::size_t d = 0; d < D; ++d)
        {
            n[d] = cn[d];
            per[d] = PETSC_FALSE;
            h[d] = ch[d] * w;
        }
        for (int i = 0; c.has("p" + std::to_string(i)); ++i)
        {
            auto q = c.v("p" + std::to_string(i)); // twice the centre, radius, velocity
            pos_t<D> x;
            dvec v;
            for (std::size_t d = 0; d < D; ++d)
            {
                x[d] = q[d] * w / 2;
                v.push_back(q[D + 1 + d]);
            }
            particles.push_back(mkpart(x, q[D] * w, v));
        }
        fem::createMesh<D>(dm, n, per);
        DMSetUp(dm);
        problem.ctx = new problem::context<D>{dm, h, nullptr};
        DMCreateGlobalVector(dm, &problem.rhs);
    }
    ~Scene()
    {
        VecDestroy(&problem.rhs);
        delete problem.ctx;
        DMDestroy(&dm);
    }
    std::string parts(Case const &c) const
    {
        std::string s = "[";
        for (std::size_t i = 0; i < particles.size(); ++i)
            s += (i ? "," : "") + jarr(c.v("p" + std::to_string(i)));
        return s + "]";
    }
};
template<std::size_t D>
static PetscErrorCode to_sol(Scene<D> &, Vec, std::integral_constant<std::size_t, 3>) { return 0; }
template<std::size_t D>
static PetscErrorCode to_sol(Scene<D> &s, Vec v, std::integral_constant<std::size_t, 2>)
{
    return cs::add_singularity_to_last_sol<2>(s, v);
}

template<std::size_t D>
void st(Case const &c)
{
    Quiet quiet;
    Scene<D> S(c);
    double w = S.w;
    auto const &ps = S.particles;
    std::array<int, D> cells, hi;
    auto ch = c.v("h");
    for (std::size_t d = 0; d < D; ++d)
    {
        cells[d] = 2 * c.v("n")[d] - 2;
        hi[d] = ch[d] / 10; // units between sample points
    }
    Ev ev("st");
    ev.num("D", D).arr("cells", cells).arr("h", ch).num("far", (int)std::lround(1 / w)).raw("parts", S.parts(c)).num("sol", D == 2);
    // the sample points of every pair, with a field that is never more than big
    double big = D == 2 ? 100000 : 4000, mx[2] = {0, 0};
    struct Pt
    {
        std::array<int, D> x;
        dvec f, u;
    };
    std::vector<std::vector<Pt>> all;
    std::vector<ivec> prs;
    for (std::size_t a = 0; a < ps.size(); ++a)
        for (std::size_t b = a + 1; b < ps.size(); ++b)
        {
            cs::singularity<shape_t<D>, D> sg(ps[a], ps[b], S.h[0]);
            prs.push_back({(int)a + 1, (int)b + 1, sg.is_singularity_});
            all.emplace_back();
            if (!sg.is_singularity_) continue;
            double r1 = ps[a].shape_factors_[0], r2 = ps[b].shape_factors_[0], dist = r1 + r2 + sg.contact_length_;
            double cut2 = sg.cutoff_dist_ * sg.cutoff_dist_;
            std::array<int, D> x{};
            for (;;)
            {
                pos_t<D> p;
                double t = 0, l = 0;
                for (std::size_t d = 0; d < D; ++d)
                {
                    p[d] = x[d] * hi[d] * w;
                    double e = p[d] - ps[a].center_[d], n = (ps[b].center_[d] - ps[a].center_[d]) / dist;
                    t += e * n;
                    l += e * e;
                }
                double q = l - t * t;
                // not inside either (with a margin: the decision is not made here)
                double m2 = q + (dist - t) * (dist - t);
                if (q <= cut2 * 1.0001 && t >= 0 && t <= dist && l > r1 * r1 * .98 && m2 > r2 * r2 * .98)
                {
                    Pt k;
                    k.x = x;
                    auto G = sg.get_grad_u_sing(p);
                    auto u = sg.get_u_sing(p);
                    k.f.push_back(sg.get_p_sing(p) * w);
                    for (std::size_t i = 0; i < D; ++i)
                        for (std::size_t j = 0; j < D; ++j) k.f.push_back(G[i][j] * w);
                    for (std::size_t i = 0; i < D; ++i) k.u.push_back(u[i]);
                    for (auto v : k.f) mx[0] = std::max(mx[0], std::fabs(v));
                    for (auto v : k.u) mx[1] = std::max(mx[1], std::fabs(v));
                    all.back().push_back(k);
                }
                std::size_t d = 0;
                while (d < D && ++x[d] >= 10 * cells[d]) x[d++] = 0;
                if (d == D) break;
            }
        }
    double sf = big / std::max(mx[0], 1e-3), su = big / std::max(mx[1], 1e-3);
    std::string P = "[";
    for (std::size_t k = 0; k < all.size(); ++k)
    {
        std::map<int, std::vector<ivec>> by; // per cell
        for (auto const &q : all[k])
        {
            int cell = 0;
            for (std::size_t d = D; d-- > 0;) cell = cell * cells[d] + q.x[d] / 10;
            ivec r;
            for (std::size_t d = 0; d < D; ++d) r.push_back(q.x[d] % 10);
            for (auto v : q.f) r.push_back((int)std::lround(v * sf));
            for (auto v : q.u) r.push_back((int)std::lround(v * su));
            by[cell].push_back(r);
        }
        P += (k ? "," : "") + ("{\"pair\":" + jarr(prs[k])) + ",\"cell\":[";
        bool f = true;
        for (auto const &e : by)
        {
            P += (f ? "" : ",") + ("{\"c\":" + std::to_string(e.first)) + ",\"pts\":[";
            f = false;
            for (std::size_t i = 0; i < e.second.size(); ++i) P += (i ? "," : "") + jarr(e.second[i]);
            P += "]}";
        }
        P += "]}";
    }
    ev.raw("pairs", P + "]");
    Rng r(c.i("seed") + 3);
    std::size_t nv = da_size(sub_dm(S.dm, 0)), npr = da_size(sub_dm(S.dm, 1));
    // on top of what is there
    auto old = rand_ints(nv, r, -3, 3), oldp = rand_ints(npr, r, -3, 3);
    double one = std::pow(w, (int)D - 2);
    auto scaled = [&](dvec const &a, double k) {
        ivec o;
        for (auto v : a) o.push_back(std::fabs(v * k) < 2e9 ? (int)std::lround(v * k) : NONINT);
        return o;
    };
    dvec t = old;
    for (auto &v : t) v *= one / sf;
    set_natural_c(S.dm, S.problem.rhs, 0, t);
    set_natural_c(S.dm, S.problem.rhs, 1, oldp);
    cs::add_singularity_in_fluid<D>(S);
    ev.arr("old", old).arr("rhs", scaled(get_natural_c(S.dm, S.problem.rhs, 0), sf / one));
    ev.arr("oldp", toint(oldp)).arr("rhsp", toint(get_natural_c(S.dm, S.problem.rhs, 1)));
    if (D == 2)
    {
        Vec v;
        VecDuplicate(S.problem.rhs, &v);
        for (std::size_t i = 0; i < t.size(); ++i) t[i] = old[i] / su;
        set_natural_c(S.dm, v, 0, t);
        set_natural_c(S.dm, v, 1, oldp);
        to_sol<D>(S, v, std::integral_constant<std::size_t, D>{});
        ev.arr("vel", scaled(get_natural_c(S.dm, v, 0), su)).arr("velp", toint(get_natural_c(S.dm, v, 1)));
        VecDestroy(&v);
    }
    ev.emit();
}

static PetscErrorCode with_control(Scene<2> &S, Vec x, std::vector<geometry::vector<double, 2>> &f, bool on)
{
    std::vector<double> t(S.particles.size());
    auto box = fem::get_DM_bounds<2>(S.dm, 0);
    return forces_torques_with_control<2>(S.particles, x, box, f, t, S.h, on);
}
static PetscErrorCode with_control(Scene<3> &S, Vec x, std::vector<geometry::vector<double, 3>> &f, bool on)
{
    std::vector<geometry::vector<double, 3>> t(S.particles.size());
    auto box = fem::get_DM_bounds<3>(S.dm, 0);
    return forces_torques_with_control<3>(S.particles, x, box, f, t, S.h, on);
}

template<std::size_t D>
void forces(Case const &c)
{
    Quiet quiet;
    Scene<D> S(c);
    double w = S.w, one = std::pow(w, (int)D - 2);
    auto &ps = S.particles;
    int M = c.i("M", 64);
    Ev ev("force");
    ev.num("D", D).num("far", (int)std::lround(1 / w)).raw("parts", S.parts(c)).num("M", M);
    std::string P = "[";
    for (std::size_t a = 0; a < ps.size(); ++a)
        for (std::size_t b = a + 1; b < ps.size(); ++b)
        {
            cs::singularity<shape_t<D>, D> sg(ps[a], ps[b], S.h[0]);
            P += (P.size() > 1 ? ",{\"pair\":" : "{\"pair\":") + jarr(ivec{(int)a + 1, (int)b + 1, sg.is_singularity_}) + ",\"base\":[";
            if (sg.is_singularity_)
                for (std::size_t k = 0; k < D; ++k) P += (k ? "," : "") + fixs(sg.base_[k], D);
            P += "],\"cap\":[";
            for (int s = 0; sg.is_singularity_ && s < 2; ++s)
            {
                // half-angle tangents: odd numbers over M
                double r = ps[s ? b : a].shape_factors_[0];
                P += s ? ",[" : "[";
                bool f = true;
                for (int i = 0; i < M; ++i)
                {
                    int m = 2 * i + 1 - (D == 2 ? M : 0);
                    double tt = m / (D == 2 ? (double)M : 2. * M), cosi = (1 - tt * tt) / (1 + tt * tt), sini = 2 * tt / (1 + tt * tt);
                    pos_t<D> p;
                    double z = s ? sg.contact_length_ + r * (1 - cosi) : -r * (1 - cosi);
                    p[D == 2 ? 0 : 2] = z;
                    if (D == 2) p[1] = r * sini;
                    else
                    {
                        p[0] = .6 * r * sini;
                        p[1] = .8 * r * sini;
                    }
                    auto G = sg.get_grad_u_sing_ref(p);
                    dvec v{sg.get_p_sing_ref(p) * w};
                    for (std::size_t k = 0; k < D; ++k)
                        for (std::size_t e = 0; e < D; ++e) v.push_back(G[k][e] * w);
                    P += (f ? "" : ",") + fixs(v, v.size());
                    f = false;
                }
                P += "]";
            }
            P += "]}";
        }
    ev.raw("pairs", P + "]");
    std::string F = "[";
    auto put = [&](char const *what, auto const &f) {
        F += (F.size() > 1 ? "," : "");
        F += std::string("{\"what\":\"") + what + "\",\"f\":[";
        for (std::size_t i = 0; i < ps.size(); ++i)
        {
            dvec v;
            for (std::size_t d = 0; d < D; ++d) v.push_back(f[i][d] / one);
            F += (i ? "," : "") + fixs(v, D);
        }
        F += "]}";
    };
    std::vector<physics::force<D>> f(ps.size());
    for (auto &x : f) x.fill(5.);
    cs::compute_singular_forces(ps, f, S.h);
    put("of particles", f);
    cs::compute_singular_forces(ps, f, S.h, 150);
    put("of particles, more points", f);
    for (auto &p : ps) p.force_.fill(3.);
    cs::compute_singular_forces<D>(S);
    for (std::size_t i = 0; i < ps.size(); ++i)
        for (std::size_t d = 0; d < D; ++d) f[i][d] = ps[i].force_[d];
    put("of a problem", f);
    // on top of the forces of the control
    int nloc = 0;
    auto box = fem::get_DM_bounds<D>(S.dm, 0);
    for (auto &p : ps)
    {
        auto pbox = p.bounding_box(S.h);
        if (geometry::intersect(box, pbox))
            nloc += D * find_fluid_points_insides(p, geometry::overlap_box(box, pbox), S.h).size();
    }
    Vec x;
    VecCreateMPI(PETSC_COMM_WORLD, nloc, PETSC_DETERMINE, &x);
    VecSet(x, 1. / (w * w));
    std::vector<geometry::vector<double, D>> f0(ps.size()), f1(ps.size());
    with_control(S, x, f0, false);
    with_control(S, x, f1, true);
    for (std::size_t i = 0; i < ps.size(); ++i)
        for (std::size_t d = 0; d < D; ++d) f1[i][d] -= f0[i][d];
    put("with those of the control", f1);
    VecDestroy(&x);
    ev.raw("forces", F + "]").emit();
}

// a problem of moving circles, with and without the lubrication field: what the fluid is asked
struct Tank : public problem::Problem<2>
{
    problem::context<2> *ctx = nullptr;
    Vec sol = nullptr, rhs = nullptr;
    std::shared_ptr<std::vector<dvec>> asked = std::make_shared<std::vector<dvec>>();
    std::shared_ptr<int> seed = std::make_shared<int>(1);
    std::size_t size = 0;
    PetscErrorCode setup_RHS() override
    {
        Rng r(11);
        Vec t;
        VecDuplicate(rhs, &t);
        VecSet(t, 0.);
        set_natural_c(ctx->dm, t, 0, rand_ints(size, r, -4, 4));
        VecAXPY(rhs, 1., t);
        VecDestroy(&t);
        return 0;
    }
    PetscErrorCode setup_KSP() override { return 0; }
    PetscErrorCode solve() override
    {
        asked->push_back(get_natural_c(ctx->dm, rhs, 0));
        Rng r(++*seed * 977);
        VecSet(sol, 0.);
        set_natural_c(ctx->dm, sol, 0, rand_ints(size, r, -3, 3));
        return 0;
    }
};
struct Outer
{
    Mat A;
    int inner, seed;
};
static PetscErrorCode outer(PC pc, Vec, Vec x)
{
    void *p;
    PCShellGetContext(pc, &p);
    auto &s = *(Outer *)p;
    Vec u, y;
    VecDuplicate(x, &u);
    VecDuplicate(x, &y);
    auto any = [&](Vec v, int k) {
        PetscScalar *a;
        PetscInt n;
        VecGetLocalSize(v, &n);
        VecGetArray(v, &a);
        for (int i = 0; i < n; ++i) a[i] = (i * 7 + k * 5 + s.seed) % 11 - 5;
        VecRestoreArray(v, &a);
    };
    for (int k = 0; k < s.inner; ++k)
    {
        any(u, k);
        MatMult(s.A, u, y);
    }
    any(x, 99);
    VecDestroy(&u);
    VecDestroy(&y);
    return 0;
}
static void life(Case const &c)
{
    Quiet quiet;
    struct Step
    {
        std::string op;
        int inner, on;
        std::vector<dvec> asked;
        dvec fin, S, V;
    };
    std::vector<Step> runs[2];
    ivec cells;
    for (int use = 0; use < 2; ++use)
    {
        Scene<2> S(c);
        if (c.has("bc")) S.problem.ctx->set_dirichlet_bc(bc2(c.v("bc")));
        Tank tank;
        tank.ctx = S.problem.ctx;
        DMCreateGlobalVector(S.dm, &tank.sol);
        VecDuplicate(tank.sol, &tank.rhs);
        VecSet(tank.sol, 0.);
        VecSet(tank.rhs, 0.);
        tank.size = da_size(sub_dm(S.dm, 0));
        problem::DtoN<geometry::circle<>, 2, Tank> pb(S.particles, tank, S.h[0]);
        pb.create_Mat_and_Vec();
        pb.setup_KSP();
        Outer o{pb.A, 0, 0};
        PC pc;
        KSPGetPC(pb.ksp, &pc);
        PCSetType(pc, PCSHELL);
        PCShellSetContext(pc, &o);
        PCShellSetApply(pc, outer);
        bool on = c.i("on") != 0;
        int k = 0;
        for (auto const &op : split(c.s("ops"), '/'))
        {
            ++k;
            Step t{op.substr(0, op.find(':')), 0, 0, {}, {}, {}, {}};
            if (op == "toggle")
            {
                on = !on;
                continue;
            }
            if (op == "change")
            {
                for (std::size_t p = 0; p < S.particles.size(); ++p)
                    for (int d = 0; d < 2; ++d)
                        S.particles[p].velocity_[d] = pb.parts_[p].velocity_[d] = (int)((p * 5 + d * 3 + k * 7) % 9) - 4;
                continue;
            }
            pb.use_sing = use && on;
            t.on = on;
            *tank.seed = k * 50;
            tank.asked->clear();
            if (op == "setup") pb.setup_RHS();
            else
            {
                o.inner = t.inner = std::stoi(op.substr(6));
                o.seed = k;
                pb.solve();
                t.fin = get_natural_c(S.dm, pb.problem_.sol, 0);
            }
            t.asked = *tank.asked;
            if (use)
            {
                VecSet(S.problem.rhs, 0.);
                cs::add_singularity_in_fluid<2>(S);
                t.S = get_natural_c(S.dm, S.problem.rhs, 0);
                VecSet(S.problem.rhs, 0.);
                cs::add_singularity_to_last_sol<2>(S, S.problem.rhs);
                t.V = get_natural_c(S.dm, S.problem.rhs, 0);
            }
            runs[use].push_back(t);
        }
    }
    Ev ev("life");
    cells = {2 * c.v("n")[0] - 2, 2 * c.v("n")[1] - 2};
    ev.num("D", 2).arr("cells", cells).arr("bc", c.v("bc"));
    std::string P = "[";
    for (std::size_t i = 0; i < runs[1].size(); ++i)
    {
        auto const &a = runs[0][i], &b = runs[1][i];
        auto top = [](dvec const &v) {
            double m = 1e-3;
            for (auto x : v) m = std::max(m, std::fabs(x));
            return 1e6 / m;
        };
        double sf = top(b.S), sv = top(b.V);
        auto diff = [](dvec const &x, dvec const &y, double k) {
            ivec o;
            for (std::size_t j = 0; j < y.size(); ++j)
            {
                double v = (y[j] - (j < x.size() ? x[j] : 0.)) * k;
                o.push_back(std::fabs(v) < 2e9 ? (int)std::lround(v) : NONINT);
            }
            return o;
        };
        P += std::string(i ? "," : "") + "{\"op\":\"" + b.op + "\",\"inner\":" + std::to_string(b.inner) + ",\"on\":" + std::to_string(b.on) + ",\"same\":" + std::to_string(a.asked.size() == b.asked.size());
        P += ",\"S\":" + jarr(diff({}, b.S, sf)) + ",\"V\":" + jarr(diff({}, b.V, sv)) + ",\"fin\":" + jarr(diff(a.fin, b.fin, sv)) + ",\"asked\":[";
        for (std::size_t j = 0; j < b.asked.size() && j < a.asked.size(); ++j) P += (j ? "," : "") + jarr(diff(a.asked[j], b.asked[j], sf));
        P += "]}";
    }
    ev.raw("steps", P + "]").emit();
}

// the fields of particles that slide past each other: plain functions of the place in the frame of
// the pair (2D: along the axis, across; 3D: across, across, along)
#define TANG(f) [&](auto const &x) { return (double)cs::f(x, H, M, a, U, l, e, nullptr); }
void tang2(Case const &c)
{
    double w = c.dv("w")[0];
    auto R = c.v("R"), pt = c.v("pts");
    double H = 1 / (R[0] * w), M = 1 / (R[1] * w), a = c.i("a") * w, l = c.i("l") * w * w, e = c.i("e") * w * w, U = c.i("U");
    std::vector<ivec> xs;
    std::string o = "[";
    for (std::size_t i = 0; i + 1 < pt.size(); i += 2)
    {
        pos_t<2> x;
        x[0] = pt[i] * w / 4;
        x[1] = pt[i + 1] * w / 4;
        xs.push_back({pt[i], pt[i + 1]});
        dvec u{TANG(ux_sing_tangMvt2D)(x), TANG(uz_sing_tangMvt2D)(x)};
        dvec g0{TANG(dxux_sing_tangMvt2D)(x), TANG(dzux_sing_tangMvt2D)(x)}, g1{TANG(dxuz_sing_tangMvt2D)(x), TANG(dzuz_sing_tangMvt2D)(x)};
        o += std::string(i ? "," : "") + "{\"p\":" + fix(TANG(p_sing_withT_tangMvt2D)(x) * w) + ",\"u\":" + fixs(u, 2) + ",\"G\":[" + fixs(g0, 2, w) + "," + fixs(g1, 2, w) + "],\"div\":" + fix(TANG(DIVCART_tangMvt2D)(x) * w) + "}";
    }
    Ev("tang").num("D", 2).arr("R", R).num("k", c.i("k")).num("a", c.i("a")).num("l", c.i("l")).num("e", c.i("e")).num("U", c.i("U")).arr2("pts", xs).raw("f", o + "]").emit();
}
void tang3(Case const &c)
{
    double w = c.dv("w")[0];
    auto R = c.v("R"), pt = c.v("pts"); // a triple of sides, its multiple and the height
    double H = 1 / (R[0] * w), M = 1 / (R[1] * w), a = c.i("a") * w, l = c.i("l") * w * w, e = c.i("e") * w * w, U = c.i("U");
    std::vector<ivec> xs;
    std::string o = "[";
    for (std::size_t i = 0; i + 4 < pt.size(); i += 5)
    {
        pos_t<3> x;
        x[0] = pt[i] * pt[i + 3] * w / 4;
        x[1] = pt[i + 1] * pt[i + 3] * w / 4;
        x[2] = pt[i + 4] * w / 4;
        xs.push_back({pt[i], pt[i + 1], pt[i + 2], pt[i + 3], pt[i + 4]});
        auto at = [&](pos_t<3> const &y) {
            return dvec{TANG(p_sing_withT_tangMvt3D)(y) * w, TANG(ux_sing_tangMvt3D)(y), TANG(uy_sing_tangMvt3D)(y), TANG(uz_sing_tangMvt3D)(y)};
        };
        std::string near = "[";
        for (int d = 0; d < 3; ++d)
        {
            near += d ? ",[" : "[";
            for (int k : {-2, -1, 1, 2})
            {
                pos_t<3> y = x;
                y[d] += k * w / (d == 2 ? 4 : 64);
                near += (k > -2 ? "," : "") + fixs(at(y), 4);
            }
            near += "]";
        }
        dvec g0{TANG(dxux_sing_tangMvt3D)(x), TANG(dyux_sing_tangMvt3D)(x), TANG(dzux_sing_tangMvt3D)(x)},
            g1{TANG(dxuy_sing_tangMvt3D)(x), TANG(dyuy_sing_tangMvt3D)(x), TANG(dzuy_sing_tangMvt3D)(x)},
            g2{TANG(dxuz_sing_tangMvt3D)(x), TANG(dyuz_sing_tangMvt3D)(x), TANG(dzuz_sing_tangMvt3D)(x)};
        dvec cyl{TANG(ur_sing_tangMvt3D)(x), TANG(ut_sing_tangMvt3D)(x)};
        dvec cd{TANG(drur_sing_tangMvt3D)(x) * w, TANG(dtur_sing_tangMvt3D)(x), TANG(dzur_sing_tangMvt3D)(x) * w,
                TANG(drut_sing_tangMvt3D)(x) * w, TANG(dtut_sing_tangMvt3D)(x), TANG(dzut_sing_tangMvt3D)(x) * w,
                TANG(druz_sing_tangMvt3D)(x) * w, TANG(dtuz_sing_tangMvt3D)(x), TANG(dzuz_sing_tangMvt3D)(x) * w};
        o += std::string(i ? "," : "") + "{\"at\":" + fixs(at(x), 4) + ",\"near\":" + near + "],\"G\":[" + fixs(g0, 3, w) + "," + fixs(g1, 3, w) + "," + fixs(g2, 3, w) + "],\"cyl\":" + fixs(cyl, 2) + ",\"cd\":" + fixs(cd, 9) + ",\"div\":" + fix(TANG(DIVCART_tangMvt3D)(x) * w) + ",\"cdiv\":" + fix(pt[i + 3] ? TANG(DIVCYLIND_tangMvt3D)(x) * w : 0.) + "}";
    }
    Ev("tang").num("D", 3).arr("R", R).num("k", c.i("k")).num("a", c.i("a")).num("l", c.i("l")).num("e", c.i("e")).num("U", c.i("U")).arr2("pts", xs).raw("f", o + "]").emit();
}

int main(int argc, char **argv)
{
    return run(argc, argv, [](Case const &c, int) {
        if (c.name == "chi") chi(c);
        if (c.name == "tang") c.i("D") == 2 ? tang2(c) : tang3(c);
        opt("-dton_ksp_type", "preonly");
        if (c.name == "life") life(c);
        if (c.name == "st") c.i("D") == 2 ? st<2>(c) : st<3>(c);
        if (c.name == "force") c.i("D") == 2 ? forces<2>(c) : forces<3>(c);
        if (c.name == "field") c.i("D") == 2 ? field<2>(c) : field<3>(c);
    });
}
