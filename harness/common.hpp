// Shared by all harness programs: case files in, ndjson events out.
// The harness observes through PETSc's own API (never through cafes code).
#pragma once
#include <cafes.hpp>
#include <petsc.h>
#include <cmath>
#include <cstdio>
#include <cstdint>
#include <fstream>
#include <malloc.h>
#include <map>
#include <sstream>
#include <string>
#include <vector>

namespace vh
{
    using ivec = std::vector<int>;
    using dvec = std::vector<double>;
    static const int NONINT = 70000001; // logged when a value is not an integer
    static int g_rank = 0, g_size = 1;
    static FILE *g_out = nullptr;

    struct Case
    {
        std::string name;
        std::map<std::string, std::string> kv;
        bool has(std::string const &k) const { return kv.count(k) > 0; }
        std::string s(std::string const &k, std::string d = "") const
        {
            auto i = kv.find(k);
            return i == kv.end() ? d : i->second;
        }
        int i(std::string const &k, int d = 0) const
        {
            auto it = kv.find(k);
            return it == kv.end() ? d : std::stoi(it->second);
        }
        std::vector<std::string> vs(std::string const &k) const
        {
            std::vector<std::string> o;
            std::stringstream t(s(k));
            for (std::string x; std::getline(t, x, ',');) o.push_back(x);
            return o;
        }
        ivec v(std::string const &k) const
        {
            ivec r;
            std::stringstream ss(s(k));
            std::string t;
            while (std::getline(ss, t, ','))
                if (!t.empty()) r.push_back(std::stoi(t));
            return r;
        }
        dvec dv(std::string const &k) const
        {
            dvec r;
            std::stringstream ss(s(k));
            std::string t;
            while (std::getline(ss, t, ','))
                if (!t.empty()) r.push_back(std::stod(t));
            return r;
        }
    };

    inline std::vector<Case> read_cases(const char *file)
    {
        std::vector<Case> r;
        std::ifstream f(file);
        std::string line;
        while (std::getline(f, line))
        {
            if (line.empty() || line[0] == '#') continue;
            std::stringstream ss(line);
            Case c;
            ss >> c.name;
            std::string t;
            while (ss >> t)
            {
                auto p = t.find('=');
                c.kv[t.substr(0, p)] = p == std::string::npos ? "" : t.substr(p + 1);
            }
            r.push_back(c);
        }
        return r;
    }

    // deterministic integers, same on every rank
    struct Rng
    {
        uint64_t s;
        explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
        uint32_t next()
        {
            s ^= s << 13;
            s ^= s >> 7;
            s ^= s << 17;
            return (uint32_t)(s >> 11);
        }
        int in(int lo, int hi) { return lo + (int)(next() % (uint32_t)(hi - lo + 1)); }
    };

    inline int toint(double v, double scale = 1.)
    {
        double w = v * scale;
        if (!(std::fabs(w) < 6e7)) return NONINT;
        double r = std::round(w);
        double tol = 1e-7 * std::max(1., std::fabs(w));
        if (tol > 1e-3) tol = 1e-3;
        if (std::fabs(w - r) > tol) return NONINT;
        return (int)r;
    }
    inline ivec toint(dvec const &v, double scale = 1.)
    {
        ivec r(v.size());
        for (std::size_t i = 0; i < v.size(); ++i) r[i] = toint(v[i], scale);
        return r;
    }

    // one ndjson event; only rank 0 writes
    struct Ev
    {
        std::ostringstream o;
        bool first = true;
        explicit Ev(std::string const &name) { o << "{"; str("ev", name); }
        void key(std::string const &k)
        {
            if (!first) o << ",";
            first = false;
            o << "\"" << k << "\":";
        }
        Ev &str(std::string const &k, std::string const &v)
        {
            key(k);
            o << "\"" << v << "\"";
            return *this;
        }
        Ev &num(std::string const &k, int v)
        {
            key(k);
            o << v;
            return *this;
        }
        Ev &raw(std::string const &k, std::string const &v)
        {
            key(k);
            o << v;
            return *this;
        }
        template<typename V>
        Ev &arr(std::string const &k, V const &v)
        {
            key(k);
            o << "[";
            bool f = true;
            for (auto x : v)
            {
                if (!f) o << ",";
                f = false;
                o << (int)x;
            }
            o << "]";
            return *this;
        }
        template<typename V>
        Ev &arr2(std::string const &k, V const &v)
        {
            key(k);
            o << "[";
            bool f = true;
            for (auto const &w : v)
            {
                if (!f) o << ",";
                f = false;
                o << "[";
                bool g = true;
                for (auto x : w)
                {
                    if (!g) o << ",";
                    g = false;
                    o << (int)x;
                }
                o << "]";
            }
            o << "]";
            return *this;
        }
        void emit()
        {
            if (g_rank == 0 && g_out)
            {
                std::string s = o.str() + "}\n";
                fwrite(s.data(), 1, s.size(), g_out);
                fflush(g_out);
            }
        }
    };

    template<typename A>
    std::string jarr(A const &v)
    {
        std::ostringstream o;
        o << "[";
        bool f = true;
        for (auto x : v)
        {
            if (!f) o << ",";
            f = false;
            o << (int)x;
        }
        o << "]";
        return o.str();
    }

    // gather a list of ints per rank on every rank
    inline std::vector<ivec> gather(ivec const &mine)
    {
        int n = mine.size();
        ivec cnt(g_size), dis(g_size, 0);
        MPI_Allgather(&n, 1, MPI_INT, cnt.data(), 1, MPI_INT, PETSC_COMM_WORLD);
        for (int i = 1; i < g_size; ++i) dis[i] = dis[i - 1] + cnt[i - 1];
        ivec all(dis[g_size - 1] + cnt[g_size - 1]);
        MPI_Allgatherv((void *)mine.data(), n, MPI_INT, all.data(), cnt.data(),
                       dis.data(), MPI_INT, PETSC_COMM_WORLD);
        std::vector<ivec> r(g_size);
        for (int i = 0; i < g_size; ++i)
            r[i].assign(all.begin() + dis[i], all.begin() + dis[i] + cnt[i]);
        return r;
    }

    // DMDA vector <-> natural ordering (x fastest, dof interleaved)
    template<typename F>
    void foreach_owned(DM da, Vec v, F &&f)
    {
        DMDALocalInfo I;
        DMDAGetLocalInfo(da, &I);
        PetscScalar *a;
        VecGetArray(v, &a);
        std::size_t k = 0;
        for (int z = I.zs; z < I.zs + I.zm; ++z)
            for (int y = I.ys; y < I.ys + I.ym; ++y)
                for (int x = I.xs; x < I.xs + I.xm; ++x)
                    for (int d = 0; d < I.dof; ++d, ++k)
                        f(((std::size_t)(z * I.my + y) * I.mx + x) * I.dof + d, a[k]);
        VecRestoreArray(v, &a);
    }
    inline std::size_t da_size(DM da)
    {
        DMDALocalInfo I;
        DMDAGetLocalInfo(da, &I);
        return (std::size_t)I.mx * I.my * I.mz * I.dof;
    }
    inline void set_natural(DM da, Vec v, dvec const &x)
    {
        foreach_owned(da, v, [&](std::size_t k, PetscScalar &a) { a = x[k]; });
    }
    inline dvec get_natural(DM da, Vec v)
    {
        dvec l(da_size(da), 0.), g(da_size(da), 0.);
        foreach_owned(da, v, [&](std::size_t k, PetscScalar &a) { l[k] = a; });
        MPI_Allreduce(l.data(), g.data(), (int)l.size(), MPI_DOUBLE, MPI_SUM, PETSC_COMM_WORLD);
        return g;
    }
    // entry e of a DMComposite (or the DMDA itself)
    inline void set_natural_c(DM dm, Vec v, int e, dvec const &x)
    {
        DM da[2];
        Vec s[2];
        DMCompositeGetEntriesArray(dm, da);
        DMCompositeGetAccessArray(dm, v, 2, nullptr, s);
        set_natural(da[e], s[e], x);
        DMCompositeRestoreAccessArray(dm, v, 2, nullptr, s);
    }
    inline dvec get_natural_c(DM dm, Vec v, int e)
    {
        DM da[2];
        Vec s[2];
        DMCompositeGetEntriesArray(dm, da);
        DMCompositeGetAccessArray(dm, v, 2, nullptr, s);
        auto r = get_natural(da[e], s[e]);
        DMCompositeRestoreAccessArray(dm, v, 2, nullptr, s);
        return r;
    }
    inline DM sub_dm(DM dm, int e)
    {
        DM da[2];
        DMCompositeGetEntriesArray(dm, da);
        return da[e];
    }
    inline dvec rand_ints(std::size_t n, Rng &r, int lo, int hi, int mul = 1)
    {
        dvec x(n);
        for (auto &e : x) e = mul * r.in(lo, hi);
        return x;
    }

    inline void opt(std::string const &k, std::string const &v)
    {
        PetscOptionsSetValue(nullptr, k.c_str(), v.c_str());
    }
    inline std::string num(double v)
    {
        char b[64];
        snprintf(b, 64, "%.17g", v);
        return b;
    }

    inline std::vector<std::string> split(std::string const &s, char c)
    {
        std::vector<std::string> r;
        std::stringstream ss(s);
        std::string t;
        while (std::getline(ss, t, c)) r.push_back(t);
        return r;
    }

    // program CASES OUT [petsc options]
    template<typename F>
    int run(int argc, char **argv, F &&f)
    {
        // memory starts as garbage (as the stack does, by a compiler flag): answers may not depend on it
        mallopt(M_PERTURB, 1);
        // MPI before PETSc, so that a failure anywhere ends the run
        PetscInitialize(&argc, &argv, nullptr, nullptr);
        MPI_Comm_rank(PETSC_COMM_WORLD, &g_rank);
        MPI_Comm_size(PETSC_COMM_WORLD, &g_size);
        PetscPushErrorHandler(PetscMPIAbortErrorHandler, nullptr);
        auto cases = read_cases(argv[1]);
        if (g_rank == 0) g_out = fopen(argv[2], "w");
        int k = 0;
        for (auto const &c : cases) f(c, ++k);
        Ev("end").num("cases", k).emit();
        if (g_rank == 0) fclose(g_out);
        PetscFinalize();
        return 0;
    }

    // condition functions of known integer value: a + b*i + c*j + d*k with (i,j,k) the
    // node's lattice coordinates recovered from the coordinates the code passed in.
    static double g_h[3] = {1, 1, 1};
    template<int S, int D>
    void side_fn(const PetscReal x[], PetscScalar *u)
    {
        *u = 100 * (S + 1) + 10 * (D + 1) + 3 * (x[0] / g_h[0]) + 7 * (x[1] / g_h[1]);
    }
    template<int S, int D>
    void side_fn3(const PetscReal x[], PetscScalar *u)
    {
        *u = 100 * (S + 1) + 10 * (D + 1) + 3 * (x[0] / g_h[0]) + 7 * (x[1] / g_h[1]) + 11 * (x[2] / g_h[2]);
    }
    inline cafes::condition_fn side2(int s, int d)
    {
        static const cafes::condition_fn t[4][2] = {
            {side_fn<0, 0>, side_fn<0, 1>}, {side_fn<1, 0>, side_fn<1, 1>},
            {side_fn<2, 0>, side_fn<2, 1>}, {side_fn<3, 0>, side_fn<3, 1>}};
        return t[s][d];
    }
    inline cafes::condition_fn side3(int s, int d)
    {
        static const cafes::condition_fn t[6][3] = {
            {side_fn3<0, 0>, side_fn3<0, 1>, side_fn3<0, 2>},
            {side_fn3<1, 0>, side_fn3<1, 1>, side_fn3<1, 2>},
            {side_fn3<2, 0>, side_fn3<2, 1>, side_fn3<2, 2>},
            {side_fn3<3, 0>, side_fn3<3, 1>, side_fn3<3, 2>},
            {side_fn3<4, 0>, side_fn3<4, 1>, side_fn3<4, 2>},
            {side_fn3<5, 0>, side_fn3<5, 1>, side_fn3<5, 2>}};
        return t[s][d];
    }
    // bc = flattened [side][dof] flags
    inline cafes::fem::dirichlet_conditions<2> bc2(ivec const &b)
    {
        auto bc = cafes::make_bc<2>({{{nullptr, nullptr}}, {{nullptr, nullptr}}, {{nullptr, nullptr}}, {{nullptr, nullptr}}});
        for (int s = 0; s < 4; ++s)
            for (int d = 0; d < 2; ++d) bc.conditions_[s][d] = b[s * 2 + d] ? side2(s, d) : nullptr;
        return bc;
    }
    inline cafes::fem::dirichlet_conditions<3> bc3(ivec const &b)
    {
        auto bc = cafes::make_bc<3>({{{nullptr, nullptr, nullptr}}, {{nullptr, nullptr, nullptr}}, {{nullptr, nullptr, nullptr}}, {{nullptr, nullptr, nullptr}}, {{nullptr, nullptr, nullptr}}, {{nullptr, nullptr, nullptr}}});
        for (int s = 0; s < 6; ++s)
            for (int d = 0; d < 3; ++d) bc.conditions_[s][d] = b[s * 3 + d] ? side3(s, d) : nullptr;
        return bc;
    }
} // namespace vh
