// Particle problems with the Stokes problem class inside, end to end (2D): one scene solved in
// several ways (solver, operator form, number of processes, mirrored, turned, scaled, reordered).
#include "common.hpp"
using namespace vh;
using namespace cafes;
using Circle = geometry::circle<>;

static double q0, q1, q2, X0, Y0; // motion of the walls: a rigid one about the centre
static void wall0(const PetscReal x[], PetscScalar *u) { *u = q0 - q2 * (x[1] - Y0); }
static void wall1(const PetscReal x[], PetscScalar *u) { *u = q1 + q2 * (x[0] - X0); }
static int b0, b1;
static void body0(const PetscReal *, PetscScalar *u) { *u = b0; }
static void body1(const PetscReal *, PetscScalar *u) { *u = b1; }

static void options_of(Case const &c)
{
    auto n = c.v("n"), per = c.v("per"), h = c.v("h");
    opt("-mx", std::to_string(n[0]));
    opt("-my", std::to_string(n[1]));
    opt("-Lx", num(2 * h[0] * (n[0] - 1)));
    opt("-Ly", num(2 * h[1] * (n[1] - 1)));
    opt("-xperiod", per[0] ? "1" : "0");
    opt("-yperiod", per[1] ? "1" : "0");
    opt("-strain_tensor", c.s("op") == "strain" ? "1" : "0");
    std::string m = c.s("meth");
    opt("-assembling", c.i("asm") ? "1" : "0");
    opt("-PMM", m == "pmm" ? "1" : "0");
    opt("-stokes_ksp_rtol", m == "pmm" ? "1e-8" : "1e-12");
    opt("-stokes_ksp_atol", "1e-14");
    opt("-stokes_ksp_max_it", m == "pmm" ? "100" : "3000");
    opt("-stokes_ksp_gmres_restart", "1000");
    opt("-stokes_ksp_error_if_not_converged", "0");
    for (auto k : {"-stokes_ksp_type", "-stokes_pc_type"}) PetscOptionsClearValue(nullptr, k);
    if (m != "pmm")
    {
        opt("-stokes_ksp_type", "gmres");
        opt("-stokes_pc_type", m == "lug" ? "lu" : "none");
    }
    // a fixed number of outer iterations: the same Krylov space whatever the way
    for (std::string o : {"sem", "dton"})
    {
        opt("-" + o + "_ksp_type", "gmres");
        opt("-" + o + "_ksp_rtol", "1e-9");
        opt("-" + o + "_ksp_atol", "1e-9");
        opt("-" + o + "_ksp_max_it", c.s("its", "4"));
    }
}

static ivec micro(dvec const &v)
{
    ivec o;
    for (auto x : v) o.push_back(std::fabs(x) < 2e4 ? (int)std::lround(x * 1e5) : NONINT);
    return o;
}

static void real(Case const &c)
{
    auto on = c.v("on");
    if (std::find(on.begin(), on.end(), g_size) == on.end()) return;
    options_of(c);
    auto q = c.v("parts"); // cx cy r  a b w: velocity and angular velocity, or force and density
    int N = q.size() / 6;
    auto w = c.v("wall"), b = c.v("body");
    q0 = w[0]; q1 = w[1]; q2 = w[2];
    X0 = (c.v("n")[0] - 1) * c.v("h")[0];
    Y0 = (c.v("n")[1] - 1) * c.v("h")[1];
    b0 = b[0]; b1 = b[1];
    auto bc = make_bc<2>({{{wall0, wall1}}, {{wall0, wall1}}, {{wall0, wall1}}, {{wall0, wall1}}});
    auto st = make_stokes<2>(bc, make_rhs<2>({{body0, body1}}));
    DM mesh = st.ctx->dm;
    bool sem = c.s("kind") == "sem";
    std::vector<particle<Circle>> pt;
    for (int i = 0; i < N; ++i)
    {
        double a0 = q[6 * i + 3] / 8., a1 = q[6 * i + 4] / 8., a2 = q[6 * i + 5];
        Circle s{{q[6 * i] / 8., q[6 * i + 1] / 8.}, q[6 * i + 2] / 8.};
        if (sem) pt.emplace_back(s, physics::force<2>{a0, a1}, a2);
        else pt.emplace_back(s, physics::velocity<2>{a0, a1}, a2);
    }
    dvec vel(2 * N, 0.);
    std::vector<geometry::vector<double, 2>> F(N);
    std::vector<double> T(N, 0.);
    double dp = c.i("dp") / 8.;
    dvec field, press;
    int its = 0;
    if (sem)
    {
        auto s = make_SEM(pt, st, dp);
        s.create_Mat_and_Vec();
        s.setup_RHS();
        s.setup_KSP();
        s.solve();
        for (int k = 0; k < c.i("again"); ++k)
        {   // the same object, used again
            s.setup_RHS();
            s.solve();
        }
        KSPGetIterationNumber(s.ksp, &its);
        field = get_natural_c(mesh, s.problem_.sol, 0);
        press = get_natural_c(mesh, s.problem_.sol, 1);
        s.get_new_velocities();
        for (int i = 0; i < N; ++i)
            for (int d = 0; d < 2; ++d) vel[2 * i + d] = s.parts_[i].velocity_[d];
        s.get_new_forces_torques(F, T);
        KSPDestroy(&s.ksp);
        KSPDestroy(&s.problem_.ksp);
        MatDestroy(&s.A);
    }
    else
    {
        auto s = make_DtoN(pt, st, dp);
        s.use_sing = c.i("sing");
        s.create_Mat_and_Vec();
        s.setup_RHS();
        s.setup_KSP();
        s.solve();
        for (int k = 0; k < c.i("again"); ++k)
        {   // the same object, used again
            s.setup_RHS();
            s.solve();
        }
        KSPGetIterationNumber(s.ksp, &its);
        field = get_natural_c(mesh, s.problem_.sol, 0);
        press = get_natural_c(mesh, s.problem_.sol, 1);
        for (int i = 0; i < N; ++i)
            for (int d = 0; d < 2; ++d) vel[2 * i + d] = s.parts_[i].velocity_[d];
        auto box = fem::get_DM_bounds<2>(mesh, 0);
        forces_torques_with_control(s.parts_, s.sol, box, F, T, st.ctx->h, false);
        KSPDestroy(&s.ksp);
        KSPDestroy(&s.problem_.ksp);
        MatDestroy(&s.A);
    }
    dvec f;
    for (auto &x : F) f.insert(f.end(), {x[0], x[1]});
    double mean = 0;
    for (auto x : press) mean += x / press.size();
    for (auto &x : press) x -= mean;
    Ev e("real");
    e.num("id", c.i("id")).num("scene", c.i("scene")).str("t", c.s("t")).arr("arg", c.has("arg") ? c.v("arg") : ivec{});
    e.str("kind", c.s("kind")).str("op", c.s("op")).str("meth", c.s("meth")).num("asm", c.i("asm")).num("np", g_size).num("its", its).num("sing", c.i("sing"));
    e.arr("n", c.v("n")).arr("per", c.v("per")).arr("h", c.v("h")).num("dp", c.i("dp")).arr("parts", q).arr("wall", w).arr("body", b);
    e.arr("vel", micro(vel)).arr("frc", micro(f)).arr("trq", micro(dvec(T.begin(), T.end()))).arr("fld", micro(field)).arr("prs", micro(press)).emit();
    MatDestroy(&st.A);
    MatDestroy(&st.P);
    VecDestroy(&st.sol);
    VecDestroy(&st.rhs);
}

int main(int argc, char **argv)
{
    return run(argc, argv, [](Case const &c, int) {
        if (c.name == "real") real(c);
    });
}
