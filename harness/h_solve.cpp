// The Stokes problem class end to end (2D): options, setup_RHS, setup_KSP, solve, multigrid levels.
#include "common.hpp"
using namespace vh;
using namespace cafes;

// quadratic solutions with integer values on the lattice (i, j):
//   u = (a i + b j + s j^2 + c, d i - a (h2/h1) j + t i^2 + e), p = al i + be j
static double qa, qb, qs, qc, qd, qt, qe, qf1, qf2, qay;
static double U1(double i, double j) { return qa * i + qb * j + qs * j * j + qc; }
static double U2(double i, double j) { return qd * i - qay * j + qt * i * i + qe; }
static void u1(const PetscReal x[], PetscScalar *u) { *u = U1(x[0] / g_h[0], x[1] / g_h[1]); }
static void u2(const PetscReal x[], PetscScalar *u) { *u = U2(x[0] / g_h[0], x[1] / g_h[1]); }
static void f1(const PetscReal *, PetscScalar *u) { *u = qf1; }
static void f2(const PetscReal *, PetscScalar *u) { *u = qf2; }

// solutions are rounded: the direct solver works on a (singular) system whose last pivot is
// rounding noise, so it is given more room
static ivec ints(dvec v, double eps, double shift = 0)
{
    for (auto &x : v)
    {
        x -= shift;
        double r = std::round(x);
        if (std::fabs(x - r) < eps) x = r;
    }
    return toint(v);
}

static void options_of(Case const &c)
{
    auto n = c.v("n"), per = c.v("per"), h = c.v("h");
    g_h[0] = h[0];
    g_h[1] = h[1];
    opt("-mx", std::to_string(n[0]));
    opt("-my", std::to_string(n[1]));
    opt("-Lx", num(2 * h[0] * (n[0] - 1)));
    opt("-Ly", num(2 * h[1] * (n[1] - 1)));
    opt("-xperiod", per[0] ? "1" : "0");
    opt("-yperiod", per[1] ? "1" : "0");
    opt("-strain_tensor", c.s("op") == "strain" ? "1" : "0");
    std::string m = c.s("meth");
    opt("-assembling", c.i("asm") ? "1" : "0");
    opt("-PMM", m == "pmm" ? "1" : "0");
    opt("-stokes_ksp_rtol", c.s("rtol", "1e-11"));
    opt("-stokes_ksp_atol", "1e-12");
    opt("-stokes_ksp_max_it", "4000");
    opt("-stokes_ksp_error_if_not_converged", "0");
    for (auto k : {"-stokes_ksp_type", "-stokes_pc_type", "-stokes_ksp_gmres_restart"}) PetscOptionsClearValue(nullptr, k);
    if (m == "lu")
    {
        opt("-stokes_ksp_type", "preonly");
        opt("-stokes_pc_type", "lu");
    }
    if (m == "lug")
    {   // assembled, the factorised preconditioner inside a Krylov method
        opt("-stokes_ksp_type", "gmres");
        opt("-stokes_pc_type", "lu");
        opt("-stokes_ksp_gmres_restart", "1000");
    }
    if (m == "gmres")
    {
        opt("-stokes_ksp_type", "gmres");
        opt("-stokes_pc_type", "none");
        opt("-stokes_ksp_gmres_restart", "1000");
    }
}
static Ev base(Case const &c, std::string const &ev)
{
    Ev e(ev);
    e.num("id", c.i("id")).num("D", 2).arr("n", c.v("n")).arr("per", c.v("per")).arr("h", c.v("h")).num("np", g_size);
    e.str("op", c.s("op")).str("meth", c.s("meth")).num("asm", c.i("asm"));
    return e;
}

static void solve(Case const &c)
{
    options_of(c);
    auto q = c.v("q"); // a b s c d t e al be
    auto h = c.v("h");
    qa = q[0]; qb = q[1]; qs = q[2]; qc = q[3]; qd = q[4]; qt = q[5]; qe = q[6];
    qay = qa * h[1] / h[0];
    // -lap(u) + grad p = f
    qf1 = q[7] / (double)h[0] - 2. * qs / (h[1] * h[1]);
    qf2 = q[8] / (double)h[1] - 2. * qt / (h[0] * h[0]);
    auto bc = make_bc<2>({{{u1, u2}}, {{u1, u2}}, {{u1, u2}}, {{u1, u2}}});
    auto st = make_stokes<2>(bc, make_rhs<2>({{f1, f2}}));
    DM mesh = st.ctx->dm;
    bool rnd = c.s("mode") == "rand";
    st.setup_RHS();
    dvec xv, xp;
    if (rnd)
    {   // right-hand side with a known integer solution
        Rng r(c.i("seed"));
        xv = rand_ints(da_size(sub_dm(mesh, 0)), r, -9, 9);
        xp = rand_ints(da_size(sub_dm(mesh, 1)), r, -9, 9);
        Vec x;
        VecDuplicate(st.sol, &x);
        set_natural_c(mesh, x, 0, xv);
        set_natural_c(mesh, x, 1, xp);
        MatMult(st.A, x, st.rhs);
        VecDestroy(&x);
    }
    st.setup_KSP();
    st.solve();
    KSPConvergedReason why;
    KSPGetConvergedReason(st.ksp, &why);
    // residual with the problem's own operator
    Vec res;
    PetscReal rn, bn;
    VecDuplicate(st.rhs, &res);
    MatMult(st.A, st.sol, res);
    VecAXPY(res, -1., st.rhs);
    VecNorm(res, NORM_2, &rn);
    VecNorm(st.rhs, NORM_2, &bn);
    VecDestroy(&res);
    auto v = get_natural_c(mesh, st.sol, 0), p = get_natural_c(mesh, st.sol, 1);
    double eps = c.s("meth") == "lu" ? .05 : c.s("meth") == "pmm" ? .01 : 2e-4;
    base(c, "solve").arr("q", q).str("mode", c.s("mode")).arr("x", toint(xv)).arr("p", toint(xp)).num("conv", why > 0)
        .num("small", rn <= (c.s("meth") == "lu" ? 1e-3 : 1e-6) * std::max(1., (double)bn)).arr("v", ints(v, eps)).arr("pr", ints(p, eps, p[0])).emit();
    KSPDestroy(&st.ksp);
    MatDestroy(&st.A);
    MatDestroy(&st.P);
    VecDestroy(&st.sol);
    VecDestroy(&st.rhs);
}

// operators of the multigrid hierarchy of the PMM solver
static void mg(Case const &c)
{
    options_of(c);
    auto bc = bc2(c.v("bc"));
    auto st = make_stokes<2>(bc, make_rhs<2>({{nullptr, nullptr}}));
    st.setup_RHS();
    st.setup_KSP();
    KSPSetUp(st.ksp);
    PC pc, pv;
    KSP *sub;
    int nsub;
    KSPGetPC(st.ksp, &pc);
    PCSetUp(pc);
    PCFieldSplitGetSubKSP(pc, &nsub, &sub);
    KSPSetUp(sub[0]);
    KSPGetPC(sub[0], &pv);
    int L;
    PCMGGetLevels(pv, &L);
    base(c, "mg").num("levels", L).emit();
    Rng r(c.i("seed"));
    for (int l = 0; l < L; ++l)
    {
        KSP sm;
        Mat A, B;
        DM da;
        PCMGGetSmoother(pv, l, &sm);
        KSPGetOperators(sm, &A, &B);
        MatGetDM(B, &da);
        if (!da) KSPGetDM(sm, &da);
        DMDALocalInfo I;
        DMDAGetLocalInfo(da, &I);
        Vec x, y;
        DMCreateGlobalVector(da, &x);
        VecDuplicate(x, &y);
        auto xi = rand_ints(da_size(da), r, -9, 9);
        set_natural(da, x, xi);
        VecSet(y, 12345.);
        MatMult(B, x, y);
        auto h = c.v("h");
        double S = 12. * h[0] * h[1] * std::pow(4., L - 1 - l);
        Ev e = base(c, "mglevel");
        e.num("depth", L - 1 - l).arr("bc", c.v("bc")).arr("nv", ivec{I.mx, I.my}).arr("x", toint(xi)).arr("y", toint(get_natural(da, y), S));
        VecSet(y, 777.);
        MatGetDiagonal(B, y);
        e.arr("d", toint(get_natural(da, y), 9. * h[0] * h[1] * std::pow(4., L - 1 - l))).emit();
        VecDestroy(&x);
        VecDestroy(&y);
    }
}

int main(int argc, char **argv)
{
    return run(argc, argv, [](Case const &c, int) {
        if (c.name == "solve") solve(c);
        if (c.name == "mg") mg(c);
    });
}
