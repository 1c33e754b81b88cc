// Operators: matrix-free blocks (2D, 3D), Stokes operator (class, matrix-free and assembled),
// diagonals, mass, right-hand sides, Dirichlet conditions.
#include "common.hpp"
using namespace vh;
using namespace cafes;

template<std::size_t D>
struct Cfg
{
    std::array<int, D> n;
    std::array<PetscBool, D> per;
    std::array<double, D> h;
};
template<std::size_t D>
Cfg<D> cfg(Case const &c)
{
    Cfg<D> r;
    auto n = c.v("n"), per = c.v("per"), h = c.v("h");
    for (std::size_t i = 0; i < D; ++i)
    {
        r.n[i] = n[i];
        r.per[i] = per[i] ? PETSC_TRUE : PETSC_FALSE;
        r.h[i] = h[i];
        g_h[i] = h[i];
    }
    return r;
}
static fem::dirichlet_conditions<2> mkbc(ivec const &b, std::integral_constant<std::size_t, 2>) { return bc2(b); }
static fem::dirichlet_conditions<3> mkbc(ivec const &b, std::integral_constant<std::size_t, 3>) { return bc3(b); }

static Ev base(Case const &c, std::string const &ev)
{
    Ev e(ev);
    e.num("id", c.i("id")).num("D", c.i("D")).arr("n", c.v("n")).arr("per", c.v("per")).arr("h", c.v("h")).num("np", g_size);
    e.arr("bc", c.has("bc") ? c.v("bc") : ivec{}).str("op", c.s("op"));
    return e;
}
static double prod(ivec const &v)
{
    double p = 1;
    for (auto x : v) p *= x;
    return p;
}
// scales that make every exact value an integer (see spec/FE.tla)
static double sv(int D, ivec const &h) { return 2 * std::pow(6., D - 1) * prod(h); }
static double sp(int D) { return 2 * std::pow(6., D - 1) * std::pow(2., D); }
static double sm(int D, ivec const &h) { return std::pow(6., D) / prod(h); }
static double sd(int D, ivec const &h) { return std::pow(3., D) * prod(h); }

template<std::size_t D, typename C>
void set_apply(C &ctx, std::string const &op)
{
    if (op == "lap") { ctx.apply = fem::laplacian_mult; ctx.apply_diag = fem::diag_laplacian_mult; }
    if (op == "strain") ctx.apply = fem::strain_tensor_mult;
    if (op == "mass") { ctx.apply = fem::mass_mult; ctx.apply_diag = fem::diag_mass_mult; }
}

// one diagonal block: fld=0 velocity grid, fld=1 pressure grid
template<std::size_t D>
void blk(Case const &c)
{
    using C = problem::context<D>;
    auto g = cfg<D>(c);
    DM mesh;
    fem::createMesh<D>(mesh, g.n, g.per);
    int fld = c.i("fld");
    DM da = sub_dm(mesh, fld);
    C ctx{da, g.h, nullptr};
    std::string op = c.s("op");
    set_apply<D>(ctx, op);
    if (c.has("bc")) ctx.set_dirichlet_bc(mkbc(c.v("bc"), std::integral_constant<std::size_t, D>{}));
    Mat A = fem::make_matrix<C>(&ctx);
    Vec x, y;
    DMCreateGlobalVector(da, &x);
    VecDuplicate(x, &y);
    double S = op == "mass" ? sm(D, c.v("h")) : sv(D, c.v("h"));
    Rng r(c.i("seed"));
    int reps = c.i("reps", 1);
    for (int k = 0; k < reps; ++k)
    {
        auto xi = rand_ints(da_size(da), r, -9, 9);
        set_natural(da, x, xi);
        VecSet(y, 12345.); // the result may not depend on what y held
        MatMult(A, x, y);
        auto xo = get_natural(da, x);
        base(c, "blk").num("fld", fld).num("rep", k).arr("x", toint(xi)).arr("xo", toint(xo)).arr("y", toint(get_natural(da, y), S)).emit();
    }
    if (ctx.apply_diag)
    {
        VecSet(y, 777.);
        MatGetDiagonal(A, y);
        double T = op == "mass" ? std::pow(3., D) / prod(c.v("h")) : sd(D, c.v("h"));
        base(c, "diag").num("fld", fld).arr("y", toint(get_natural(da, y), T)).emit();
    }
    MatDestroy(&A);
    VecDestroy(&x);
    VecDestroy(&y);
    DMDestroy(&mesh);
}

// both grids at once: a block diagonal operator of the coupled space, and its diagonal
template<std::size_t D>
void two(Case const &c)
{
    using C = problem::context<D, 2>;
    auto g = cfg<D>(c);
    DM mesh;
    fem::createMesh<D>(mesh, g.n, g.per);
    auto h2 = g.h;
    for (auto &v : h2) v *= 2;
    C ctx{mesh, {{g.h, h2}}, nullptr};
    std::string op = c.s("op");
    set_apply<D>(ctx, op);
    Mat A = fem::make_matrix<C>(&ctx);
    Vec x, y;
    DMCreateGlobalVector(mesh, &x);
    VecDuplicate(x, &y);
    Rng r(c.i("seed"));
    auto xv = rand_ints(da_size(sub_dm(mesh, 0)), r, -9, 9);
    auto xp = rand_ints(da_size(sub_dm(mesh, 1)), r, -9, 9);
    set_natural_c(mesh, x, 0, xv);
    set_natural_c(mesh, x, 1, xp);
    bool mass = op == "mass";
    // the steps of the pressure grid are twice those the specification counts in
    double two = std::pow(2., mass ? D : D - 2.), S = mass ? sm(D, c.v("h")) : sv(D, c.v("h"));
    double T = mass ? std::pow(3., D) / prod(c.v("h")) : sd(D, c.v("h"));
    for (int k = 0; k < 2; ++k)
    {
        VecSet(y, 12345.);
        MatMult(A, x, y);
        base(c, "blk").num("fld", 0).num("rep", k).arr("x", toint(xv)).arr("xo", toint(get_natural_c(mesh, x, 0)))
            .arr("y", toint(get_natural_c(mesh, y, 0), S)).emit();
        base(c, "blk").num("fld", 1).num("rep", k).arr("x", toint(xp)).arr("xo", toint(get_natural_c(mesh, x, 1)))
            .arr("y", toint(get_natural_c(mesh, y, 1), S / two)).emit();
        VecSet(y, 777.);
        MatGetDiagonal(A, y);
        base(c, "diag").num("fld", 0).arr("y", toint(get_natural_c(mesh, y, 0), T)).emit();
        base(c, "diag").num("fld", 1).arr("y", toint(get_natural_c(mesh, y, 1), T / two)).emit();
    }
    MatDestroy(&A);
    VecDestroy(&x);
    VecDestroy(&y);
    DMDestroy(&mesh);
}

template<typename M>
void mult_events(Case const &c, DM mesh, M A, std::string const &ev, int D, bool masslike)
{
    Vec x, y;
    DMCreateGlobalVector(mesh, &x);
    VecDuplicate(x, &y);
    Rng r(c.i("seed"));
    int reps = c.i("reps", 1);
    for (int k = 0; k < reps; ++k)
    {
        auto xv = rand_ints(da_size(sub_dm(mesh, 0)), r, -9, 9);
        auto xp = rand_ints(da_size(sub_dm(mesh, 1)), r, -9, 9, masslike ? 1 : 1 << D);
        set_natural_c(mesh, x, 0, xv);
        set_natural_c(mesh, x, 1, xp);
        VecSet(y, 12345.);
        MatMult(A, x, y);
        double S0 = masslike ? sm(D, c.v("h")) : sv(D, c.v("h"));
        double S1 = masslike ? sm(D, c.v("h")) / std::pow(2., D) : sp(D);
        auto yv = get_natural_c(mesh, y, 0), yp = get_natural_c(mesh, y, 1);
        base(c, ev).num("rep", k).arr("x", toint(xv)).arr("p", toint(xp))
            .arr("xo", toint(get_natural_c(mesh, x, 0))).arr("po", toint(get_natural_c(mesh, x, 1)))
            .arr("y", toint(yv, S0)).arr("q", toint(yp, S1)).emit();
    }
    VecDestroy(&x);
    VecDestroy(&y);
}

// matrix-free Stokes operator through the context (2D, 3D)
template<std::size_t D>
void stk(Case const &c)
{
    using C = problem::context<D>;
    auto g = cfg<D>(c);
    DM mesh;
    fem::createMesh<D>(mesh, g.n, g.per);
    C ctx{mesh, g.h, nullptr};
    set_apply<D>(ctx, c.s("op"));
    ctx.apply_diag = nullptr;
    if (c.has("bc")) ctx.set_dirichlet_bc(mkbc(c.v("bc"), std::integral_constant<std::size_t, D>{}));
    Mat A = fem::make_matrix<C>(&ctx, fem::stokes_matrix<C>);
    mult_events(c, mesh, A, "stokes", D, false);
    MatDestroy(&A);
    DMDestroy(&mesh);
}

// apply_mass_matrix on the coupled space
template<std::size_t D>
void massc(Case const &c)
{
    auto g = cfg<D>(c);
    DM mesh;
    fem::createMesh<D>(mesh, g.n, g.per);
    Vec x, y;
    DMCreateGlobalVector(mesh, &x);
    VecDuplicate(x, &y);
    Rng r(c.i("seed"));
    auto xv = rand_ints(da_size(sub_dm(mesh, 0)), r, -9, 9);
    auto xp = rand_ints(da_size(sub_dm(mesh, 1)), r, -9, 9);
    set_natural_c(mesh, x, 0, xv);
    set_natural_c(mesh, x, 1, xp);
    VecSet(y, 12345.);
    fem::apply_mass_matrix<D>(mesh, x, y, g.h);
    double S = sm(D, c.v("h"));
    base(c, "massc").arr("x", toint(xv)).arr("p", toint(xp)).arr("y", toint(get_natural_c(mesh, y, 0), S))
        .arr("q", toint(get_natural_c(mesh, y, 1), S / std::pow(2., D))).emit();
    VecDestroy(&x);
    VecDestroy(&y);
    DMDestroy(&mesh);
}

static void fb0(const PetscReal x[], PetscScalar *u) { *u = 2 + 3 * (x[0] / g_h[0]) - (x[1] / g_h[1]); }
static void fb1(const PetscReal x[], PetscScalar *u) { *u = -1 + (x[0] / g_h[0]) * (x[1] / g_h[1]); }
static void fb2(const PetscReal x[], PetscScalar *u) { *u = 5 - (x[0] / g_h[0]) + 2 * (x[2] / g_h[2]); }

// boundary writers on vectors and body-force right-hand side (2D, 3D)
static fem::rhs_conditions<2> mkrhs(ivec const &f, std::integral_constant<std::size_t, 2>)
{
    return make_rhs<2>({{f[0] ? fb0 : nullptr, f[1] ? fb1 : nullptr}});
}
static fem::rhs_conditions<3> mkrhs(ivec const &f, std::integral_constant<std::size_t, 3>)
{
    return make_rhs<3>({{f[0] ? fb0 : nullptr, f[1] ? fb1 : nullptr, f[2] ? fb2 : nullptr}});
}
template<std::size_t D>
void bcv(Case const &c)
{
    auto g = cfg<D>(c);
    DM mesh;
    fem::createMesh<D>(mesh, g.n, g.per);
    auto bc = mkbc(c.v("bc"), std::integral_constant<std::size_t, D>{});
    Vec x, y;
    DMCreateGlobalVector(mesh, &x);
    VecDuplicate(x, &y);
    Rng r(c.i("seed"));
    auto xv = rand_ints(da_size(sub_dm(mesh, 0)), r, -9, 9);
    auto yv = rand_ints(da_size(sub_dm(mesh, 0)), r, 20, 40);
    auto yp = rand_ints(da_size(sub_dm(mesh, 1)), r, 20, 40);
    std::string k = c.s("op");
    VecSet(x, 0);
    set_natural_c(mesh, x, 0, xv);
    set_natural_c(mesh, y, 0, yv);
    set_natural_c(mesh, y, 1, yp);
    {
        auto px = petsc::petsc_vec<D>(mesh, x, 0);
        auto py = petsc::petsc_vec<D>(mesh, y, 0, false);
        if (k == "vec") fem::SetDirichletOnVec(px, py, bc);
        if (k == "rhs") fem::SetDirichletOnRHS(py, bc, g.h);
        if (k == "null") fem::SetNullDirichletOnRHS(py, bc);
    }
    base(c, "bcv").arr("x", toint(xv)).arr("y0", toint(yv)).arr("q0", toint(yp)).arr("y", toint(get_natural_c(mesh, y, 0)))
        .arr("q", toint(get_natural_c(mesh, y, 1))).emit();
    VecDestroy(&x);
    VecDestroy(&y);
    DMDestroy(&mesh);
}
// body force right-hand side, low level
template<std::size_t D>
void rhs(Case const &c)
{
    auto g = cfg<D>(c);
    DM mesh;
    fem::createMesh<D>(mesh, g.n, g.per);
    auto f = mkrhs(c.v("f"), std::integral_constant<std::size_t, D>{});
    Vec y;
    DMCreateGlobalVector(mesh, &y);
    Rng r(c.i("seed"));
    auto y0 = rand_ints(da_size(sub_dm(mesh, 0)), r, 0, c.i("acc") ? 5 : 0);
    auto q0 = rand_ints(da_size(sub_dm(mesh, 1)), r, 0, c.i("acc") ? 5 : 0);
    set_natural_c(mesh, y, 0, y0);
    set_natural_c(mesh, y, 1, q0);
    fem::set_rhs<D, 1>(mesh, y, f, g.h);
    auto yy = get_natural_c(mesh, y, 0);
    for (std::size_t i = 0; i < yy.size(); ++i) yy[i] -= y0[i];
    base(c, "rhs").arr("f", c.v("f")).arr("q0", toint(q0)).arr("y", toint(yy, sm(D, c.v("h")))).arr("q", toint(get_natural_c(mesh, y, 1))).emit();
    VecDestroy(&y);
    DMDestroy(&mesh);
}

// the Stokes problem class (2D): matrix, preconditioner blocks, right-hand side
static void cls(Case const &c)
{
    auto g = cfg<2>(c);
    opt("-mx", std::to_string(g.n[0]));
    opt("-my", std::to_string(g.n[1]));
    opt("-Lx", num(2 * g.h[0] * (g.n[0] - 1)));
    opt("-Ly", num(2 * g.h[1] * (g.n[1] - 1)));
    opt("-xperiod", g.per[0] ? "1" : "0");
    opt("-yperiod", g.per[1] ? "1" : "0");
    opt("-strain_tensor", c.s("op") == "strain" ? "1" : "0");
    opt("-assembling", c.i("asm") ? "1" : "0");
    opt("-PMM", "0");
    auto bc = bc2(c.v("bc"));
    auto f = c.v("f");
    auto st = make_stokes<2>(bc, mkrhs(f, std::integral_constant<std::size_t, 2>{}));
    DM mesh = st.ctx->dm;
    {
        Ev e = base(c, "grid");
        e.num("asm", c.i("asm")).arr("hh", ivec{toint(st.ctx->h[0]), toint(st.ctx->h[1])});
        DMDALocalInfo I, J;
        DMDAGetLocalInfo(sub_dm(mesh, 0), &I);
        DMDAGetLocalInfo(sub_dm(mesh, 1), &J);
        e.arr("nv", ivec{I.mx, I.my}).arr("npr", ivec{J.mx, J.my}).emit();
    }
    mult_events(c, mesh, st.A, c.i("asm") ? "stokesA" : "stokes", 2, false);
    // preconditioner: velocity block = the operator, pressure block = pressure mass matrix
    {
        Vec x, y;
        DMCreateGlobalVector(mesh, &x);
        VecDuplicate(x, &y);
        Rng r(c.i("seed") + 7);
        auto xv = rand_ints(da_size(sub_dm(mesh, 0)), r, -9, 9);
        auto xp = rand_ints(da_size(sub_dm(mesh, 1)), r, -9, 9);
        set_natural_c(mesh, x, 0, xv);
        set_natural_c(mesh, x, 1, xp);
        VecSet(y, 12345.);
        MatMult(st.P, x, y);
        base(c, c.i("asm") ? "precA" : "prec").arr("x", toint(xv)).arr("p", toint(xp)).arr("y", toint(get_natural_c(mesh, y, 0), sv(2, c.v("h"))))
            .arr("q", toint(get_natural_c(mesh, y, 1), sm(2, c.v("h")) / 4)).emit();
        VecDestroy(&x);
        VecDestroy(&y);
    }
    // right-hand side of the problem
    st.setup_RHS();
    base(c, "prhs").arr("f", f).arr("y", toint(get_natural_c(mesh, st.rhs, 0), sm(2, c.v("h")) )).arr("q", toint(get_natural_c(mesh, st.rhs, 1))).emit();
    MatDestroy(&st.A);
    MatDestroy(&st.P);
    VecDestroy(&st.sol);
    VecDestroy(&st.rhs);
}

// structure of the operators: pairs of fields and special fields, without boundary rows
template<std::size_t D>
void pair(Case const &c)
{
    using C = problem::context<D>;
    auto g = cfg<D>(c);
    DM mesh;
    fem::createMesh<D>(mesh, g.n, g.per);
    std::string kind = c.s("kind"), op = c.s("op");
    Rng r(c.i("seed"));
    auto a = c.v("a"), hh = c.v("h");
    int fld = c.i("fld");
    if (kind == "couple" || kind == "gradc")
    {
        C ctx{mesh, g.h, nullptr};
        set_apply<D>(ctx, op);
        ctx.apply_diag = nullptr;
        Mat A = fem::make_matrix<C>(&ctx, fem::stokes_matrix<C>);
        Vec x, y;
        DMCreateGlobalVector(mesh, &x);
        VecDuplicate(x, &y);
        auto v = rand_ints(da_size(sub_dm(mesh, 0)), r, -3, 3);
        auto p = kind == "couple" ? rand_ints(da_size(sub_dm(mesh, 1)), r, -3, 3, 1 << D)
                                  : dvec(da_size(sub_dm(mesh, 1)), double(1 << D));
        VecSet(x, 0.);
        set_natural_c(mesh, x, 1, p);
        MatMult(A, x, y);
        auto gp = get_natural_c(mesh, y, 0);
        auto pp = get_natural_c(mesh, y, 1);
        VecSet(x, 0.);
        set_natural_c(mesh, x, 0, v);
        MatMult(A, x, y);
        auto dv = get_natural_c(mesh, y, 1);
        base(c, "pair").str("kind", kind).num("fld", 0).arr("v", toint(v)).arr("p", toint(p))
            .arr("gp", toint(gp, sv(D, hh))).arr("pp", toint(pp)).arr("dv", toint(dv, sp(D))).emit();
        MatDestroy(&A);
        VecDestroy(&x);
        VecDestroy(&y);
        DMDestroy(&mesh);
        return;
    }
    DM da = sub_dm(mesh, fld);
    C ctx{da, g.h, nullptr};
    set_apply<D>(ctx, op);
    if (c.has("bc")) ctx.set_dirichlet_bc(mkbc(c.v("bc"), std::integral_constant<std::size_t, D>{}));
    Mat A = fem::make_matrix<C>(&ctx);
    Vec x, y;
    DMCreateGlobalVector(da, &x);
    VecDuplicate(x, &y);
    DMDALocalInfo I;
    DMDAGetLocalInfo(da, &I);
    int N[3] = {I.mx, I.my, I.mz}, F = I.dof;
    std::size_t nn = da_size(da);
    auto field = [&](std::string const &k) {
        dvec u(nn);
        auto bc = c.has("bc") ? c.v("bc") : ivec{};
        for (std::size_t i = 0; i < nn; ++i)
        {
            int f = i % F, q = i / F, p[3] = {q % N[0], (q / N[0]) % N[1], q / N[0] / N[1]};
            if (k == "rand")
            {
                u[i] = r.in(-3, 3);
                for (int s = 0; s < (int)bc.size() / (int)D; ++s)
                    if (bc[s * D + f] && !g.per[s / 2] && p[s / 2] == (s % 2 ? N[s / 2] - 1 : 0)) u[i] = 0;
            }
            else if (k == "const")
                u[i] = a[f];
            else // lin: u_f = sum_d a[f*D+d] x_d
            {
                u[i] = 0;
                for (std::size_t d = 0; d < D; ++d) u[i] += a[f * D + d] * hh[d] * p[d];
            }
        }
        return u;
    };
    double S = op == "mass" ? sm(D, hh) : sv(D, hh);
    auto app = [&](dvec const &u) {
        set_natural(da, x, u);
        VecSet(y, 4321.);
        MatMult(A, x, y);
        return toint(get_natural(da, y), S);
    };
    std::string k1 = kind == "sym" ? "rand" : kind;
    auto u = field(k1);
    auto v = kind == "sym" ? field("rand") : u;
    auto au = app(u), av = app(v);
    base(c, "pair").str("kind", kind).num("fld", fld).arr("a", a).arr("u", toint(u)).arr("v", toint(v)).arr("au", au).arr("av", av).emit();
    MatDestroy(&A);
    VecDestroy(&x);
    VecDestroy(&y);
    DMDestroy(&mesh);
}

int main(int argc, char **argv)
{
    return run(argc, argv, [](Case const &c, int) {
        int D = c.i("D");
        if (c.name == "blk") D == 2 ? blk<2>(c) : blk<3>(c);
        if (c.name == "two") D == 2 ? two<2>(c) : two<3>(c);
        if (c.name == "stk") D == 2 ? stk<2>(c) : stk<3>(c);
        if (c.name == "massc") D == 2 ? massc<2>(c) : massc<3>(c);
        if (c.name == "bcv") D == 2 ? bcv<2>(c) : bcv<3>(c);
        if (c.name == "rhs") D == 2 ? rhs<2>(c) : rhs<3>(c);
        if (c.name == "cls") cls(c);
        if (c.name == "pair") D == 2 ? pair<2>(c) : pair<3>(c);
    });
}
