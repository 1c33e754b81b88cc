// What repeated operations leave behind: PETSc objects (creations less destructions, by class),
// memory got by PetscMalloc, and memory got by new, on every process.
#include "common.hpp"
#include <petsclog.h>
#include <io/hdf5.hpp>
#include <io/vtk.hpp>
#include <posttraitement/interpolation.hpp>
#include <sys/stat.h>
#include <new>
#include <functional>
#include <map>
static long long g_live = 0, g_blocks = 0;
static void *get_(std::size_t n)
{
    char *p = (char *)std::malloc(n + 16);
    if (!p) throw std::bad_alloc();
    *(std::size_t *)p = n;
    g_live += n;
    ++g_blocks;
    return p + 16;
}
static void put_(void *q)
{
    if (!q) return;
    char *p = (char *)q - 16;
    g_live -= *(std::size_t *)p;
    --g_blocks;
    std::free(p);
}
void *operator new(std::size_t n) { return get_(n); }
void *operator new[](std::size_t n) { return get_(n); }
void operator delete(void *p) noexcept { put_(p); }
void operator delete[](void *p) noexcept { put_(p); }
void operator delete(void *p, std::size_t) noexcept { put_(p); }
void operator delete[](void *p, std::size_t) noexcept { put_(p); }
using namespace vh;
using namespace cafes;
using Circle = geometry::circle<>;

static long long objects()
{
    long long n = 0;
    PetscStageLog log;
    PetscLogGetStageLog(&log);
    for (int s = 0; s < log->numStages; ++s)
        for (int k = 0; k < log->stageInfo[s].classLog->numClasses; ++k)
            n += log->stageInfo[s].classLog->classInfo[k].creations - log->stageInfo[s].classLog->classInfo[k].destructions;
    return n;
}
static void one(const PetscReal *, PetscScalar *u) { *u = 1; }
static void two(const PetscReal x[], PetscScalar *u) { *u = x[0] - x[1]; }

// a cycle of operations again and again; what is held after every operation
static void again(Case const &c, std::map<std::string, std::function<void()>> const &can)
{
    int R = c.i("rounds", 5);
    auto ops = c.vs("ops");
    std::vector<ivec> obj(R), mem(R), cpp(R);
    for (auto *p : {&obj, &mem, &cpp})
        for (auto &v : *p) v.resize(ops.size());
    std::vector<std::function<void()> const *> todo;
    for (auto const &o : ops) todo.push_back(&can.at(o));
    std::map<std::string, long long> first, last;
    long long z[3] = {0, 0, 0};
    for (int r = 0; r < R; ++r)
        for (std::size_t k = 0; k < ops.size(); ++k)
        {
            (*todo[k])();
            PetscLogDouble b;
            PetscMallocGetCurrentUsage(&b);
            long long q[3] = {objects(), (long long)b, g_live}, s[3];
            MPI_Allreduce(q, s, 3, MPI_LONG_LONG, MPI_SUM, PETSC_COMM_WORLD);
            if (r == 0 && k == 0) std::copy(s, s + 3, z);
            obj[r][k] = s[0] - z[0];
            mem[r][k] = s[1] - z[1];
            cpp[r][k] = s[2] - z[2];
        }
    for (int r = 0; r < R; ++r)
        Ev("res").num("id", c.i("id")).str("kind", c.s("kind")).num("np", g_size).num("round", r + 1).num("rounds", R).num("ops", ops.size()).arr("obj", obj[r]).arr("mem", mem[r]).arr("cpp", cpp[r]).emit();
}
static void options_of(Case const &c)
{
    auto n = c.v("n"), per = c.v("per");
    opt("-mx", std::to_string(n[0]));
    opt("-my", std::to_string(n[1]));
    opt("-xperiod", per[0] ? "1" : "0");
    opt("-yperiod", per[1] ? "1" : "0");
    opt("-strain_tensor", c.i("strain") ? "1" : "0");
    opt("-assembling", c.i("asm") ? "1" : "0");
    opt("-PMM", c.i("pmm") ? "1" : "0");
    opt("-stokes_ksp_max_it", "3");
    for (auto k : {"-stokes_ksp_type", "-stokes_pc_type"}) PetscOptionsClearValue(nullptr, k);
    if (!c.i("pmm"))
    {
        opt("-stokes_ksp_type", "gmres");
        opt("-stokes_pc_type", c.i("lu") ? "lu" : "none");
    }
    for (std::string o : {"sem", "dton"})
    {
        opt("-" + o + "_ksp_type", "gmres");
        opt("-" + o + "_ksp_max_it", "2");
    }
}
static std::vector<particle<Circle>> discs(bool sem, int k)
{
    std::vector<particle<Circle>> p;
    double x[3][3] = {{.3, .35, .15}, {.66, .4, .16}, {.5, .75, .14}};
    for (int i = 0; i < k; ++i)
    {
        Circle s{{x[i][0], x[i][1]}, x[i][2]};
        if (sem) p.emplace_back(s, physics::force<2>{1. + i, 2.}, 2.);
        else p.emplace_back(s, physics::velocity<2>{1. - i, .5 * i}, i - 1.);
    }
    return p;
}
template<std::size_t D>
static void parts(Case const &c)
{
    using C = problem::context<D>;
    options_of(c);
    auto nn = c.v("n"), pp = c.v("per");
    std::array<int, D> n;
    std::array<PetscBool, D> per;
    std::array<double, D> h;
    for (std::size_t d = 0; d < D; ++d)
    {
        n[d] = nn[d];
        per[d] = (PetscBool)pp[d];
        h[d] = .1 * (d + 1);
    }
    std::string dir = "out" + std::to_string(g_size);
    mkdir(dir.c_str(), 0777);
    DM dm;
    fem::createMesh<D>(dm, n, per);
    C ctx{dm, h, nullptr};
    if (c.i("strain")) ctx.apply = fem::strain_tensor_mult;
    else ctx.apply = fem::laplacian_mult;
    std::array<condition_fn, D> f;
    f.fill(one);
    fem::dirichlet_conditions<D> b({f});
    b.conditions_.fill(f);
    ctx.set_dirichlet_bc(b);
    Vec x, y;
    DMCreateGlobalVector(dm, &x);
    VecDuplicate(x, &y);
    VecSet(x, 1.);
    Mat A = fem::make_matrix<C>(&ctx, fem::stokes_matrix<C>);
    std::map<std::string, std::function<void()>> can;
    can["apply"] = [&] { MatMult(A, x, y); };
    can["matrix"] = [&] {
        Mat B = fem::make_matrix<C>(&ctx, fem::stokes_matrix<C>);
        MatMult(B, x, y);
        MatDestroy(&B);
    };
    can["mass"] = [&] { fem::apply_mass_matrix<D>(dm, x, y, h); };
    can["load"] = [&] { fem::set_rhs<D, 1>(dm, y, fem::rhs_conditions<D>{f}, h); };
    can["bounds"] = [&] {
        petsc::petsc_vec<D> v(dm, y, 0, false);
        fem::SetDirichletOnRHS(v, b, h);
    };
    can["vtk"] = [&] { io::save_VTK(dir.c_str(), "a", x, dm, h); };
    again(c, can);
}
static void res(Case const &c)
{
    options_of(c);
    std::string kind = c.s("kind");
    if (kind == "parts") return c.i("D") == 2 ? parts<2>(c) : parts<3>(c);
    auto n = c.v("n"), per = c.v("per"), ref = c.v("ref");
    auto bc = make_bc<2>({{{one, two}}, {{one, two}}, {{two, one}}, {{one, one}}});
    auto rhs = make_rhs<2>({{one, two}});
    std::string dir = "out" + std::to_string(g_size);
    mkdir(dir.c_str(), 0777);
    std::map<std::string, std::function<void()>> can;
    can["mesh2"] = [&] {
        DM dm;
        fem::createMesh<2>(dm, {{n[0], n[1]}}, {{(PetscBool)per[0], (PetscBool)per[1]}});
        DMSetUp(dm);
        DMDestroy(&dm);
    };
    can["mesh3"] = [&] {
        DM dm;
        fem::createMesh<3>(dm, {{n[0], n[1], n[0]}}, {{(PetscBool)per[0], (PetscBool)per[1], PETSC_FALSE}});
        DMSetUp(dm);
        DMDestroy(&dm);
    };
    auto st = make_stokes<2>(bc, rhs);
    can["hdf5"] = [&] { io::save_hdf5(dir.c_str(), "a", st.sol, st.ctx->dm, st.ctx->h); };
    can["vtk"] = [&] { io::save_VTK(dir.c_str(), "a", st.sol, st.ctx->dm, st.ctx->h); };
    can["vec"] = [&] {
        for (int e = 0; e < 2; ++e)
        {
            petsc::petsc_vec<2> v(st.ctx->dm, st.sol, e, false), w(st.ctx->dm, st.sol, e);
            w.global_to_local(INSERT_VALUES);
            w.local_to_global(ADD_VALUES);
        }
    };
    can["refine"] = [&] {
        DM fine;
        Vec y;
        posttraitement::linear_interpolation<2>(st.ctx->dm, st.sol, fine, y, {{ref[0], ref[1]}}, st.ctx->h);
        VecDestroy(&y);
        DMDestroy(&fine);
    };
    can["st_mult"] = [&] { MatMult(st.A, st.sol, st.rhs); };
    std::vector<geometry::vector<double, 2>> F(c.i("k"));
    std::vector<double> T(F.size(), 0.);
    double dp = .1;
    auto box = fem::get_DM_bounds<2>(st.ctx->dm, 0);
    // the problems with particles take on the Stokes problem
    if (kind == "stokes")
    {
        st.setup_RHS();
        st.setup_KSP();
        can["rhs"] = [&] { st.setup_RHS(); };
        can["solve"] = [&] { st.solve(); };
        can["ksp"] = [&] { KSPDestroy(&st.ksp); st.setup_KSP(); };
        return again(c, can);
    }
    auto pt = discs(kind == "sem", F.size());
    auto on = [&](auto &s) {
        s.create_Mat_and_Vec();
        s.setup_RHS();
        s.setup_KSP();
        can["rhs"] = [&] { s.setup_RHS(); };
        can["solve"] = [&] { s.solve(); };
        can["mult"] = [&] { MatMult(s.A, s.sol, s.rhs); };
        can["ksp"] = [&] { KSPDestroy(&s.ksp); s.setup_KSP(); };
        can["save"] = [&] { io::saveParticles(dir.c_str(), "p", s.parts_); };
    };
    if (kind == "sem")
    {
        auto s = make_SEM(pt, st, dp);
        on(s);
        can["vel"] = [&] { s.get_new_velocities(); };
        can["force"] = [&] { s.get_new_forces_torques(F, T); };
        return again(c, can);
    }
    auto s = make_DtoN(pt, st, dp);
    s.use_sing = c.i("sing");
    on(s);
    can["force"] = [&] { forces_torques_with_control(s.parts_, s.sol, box, F, T, st.ctx->h, c.i("sing")); };
    again(c, can);
}

int main(int argc, char **argv)
{
    PetscMallocSetDebug(PETSC_FALSE, PETSC_FALSE); // keeps count of the memory
    return run(argc, argv, [](Case const &c, int k) {
        if (k == 1) PetscLogDefaultBegin();
        res(c);
    });
}
