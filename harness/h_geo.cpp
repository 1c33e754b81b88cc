// Geometry: boxes, vector algebra, rotations, shapes. One process.
#include "common.hpp"
#include <particle/geometry/linspace.hpp>
#include <functional>
using namespace vh;
using namespace cafes;
namespace geo = cafes::geometry;
using cafes::physics::force;
using cafes::physics::velocity;

template<typename P, std::size_t D>
ivec out(P const &p, double scale = 1.)
{
    ivec r;
    for (std::size_t d = 0; d < D; ++d) r.push_back(toint(p[d], scale));
    return r;
}

// ---- boxes; coordinates come as integers, the code sees them divided by `unit`
template<typename T, std::size_t D>
void boxes(Case const &c)
{
    using P = geo::position<T, D>;
    using B = geo::box<T, D>;
    double u = c.i("unit", 1);
    auto mk = [&](ivec const &v) {
        B b;
        for (std::size_t d = 0; d < D; ++d)
        {
            b.bottom_left[d] = static_cast<T>(v[d] / u);
            b.upper_right[d] = static_cast<T>(v[D + d] / u);
        }
        return b;
    };
    auto bx = [&](B const &b) {
        auto r = out<P, D>(b.bottom_left, u), s = out<P, D>(b.upper_right, u);
        r.insert(r.end(), s.begin(), s.end());
        return r;
    };
    ivec va = c.v("a"), vb = c.v("b");
    B const a = mk(va), b = mk(vb);
    int w = c.i("win");
    std::vector<ivec> pts;
    ivec q(D, -w);
    for (;;)
    {
        pts.push_back(q);
        std::size_t d = 0;
        while (d < D && ++q[d] > w) q[d++] = -w;
        if (d == D) break;
    }
    auto in = [&](B const &x) {
        ivec r;
        for (auto const &p : pts)
        {
            P y;
            for (std::size_t d = 0; d < D; ++d) y[d] = static_cast<T>(p[d] / u);
            r.push_back(geo::point_inside(x, y));
        }
        return r;
    };
    auto over = geo::overlap_box(a, b), uni = geo::union_box(a, b), ins = geo::box_inside(a, b);
    ivec len, cor;
    for (std::size_t d = 0; d < D; ++d) len.push_back(toint(a.length(d), u));
    for (auto const &p : a.get_box_points())
        for (std::size_t d = 0; d < D; ++d) cor.push_back(toint(p[d], u));
    Ev("box").num("id", c.i("id")).num("D", D).num("win", w).arr("a", va).arr("b", vb)
        .num("meet", geo::intersect(a, b)).num("chk", geo::check_box_inside(a, b))
        .arr("over", bx(over)).arr("uni", bx(uni)).arr("ins", bx(ins))
        .arr("ina", in(a)).arr("inover", in(over)).arr("inuni", in(uni)).arr("inins", in(ins))
        .arr("len", len).num("vol", toint(a.length(), std::pow(u, D))).arr("corners", cor)
        .arr("a2", bx(a)).arr("b2", bx(b)).emit();
}

// ---- algebra
struct Res
{
    std::string f, form;
    ivec r, x, y; // result, operands afterwards
};
// floating operands are quarters, unless they meet integers
static double g_unit = 1;
template<typename P, typename T, std::size_t D>
P mkv(ivec const &v)
{
    P p;
    for (std::size_t d = 0; d < D; ++d) p[d] = static_cast<T>(v[d] / g_unit);
    return p;
}
static double scale(std::string const &f)
{
    if (f == "div" || f == "divs") return 1;
    if (f.compare(0, 3, "mul") == 0 || f == "sqr" || f.compare(0, 5, "cross") == 0) return g_unit * g_unit;
    return g_unit;
}
template<std::size_t D, typename X, typename Y, typename F>
Res bin(std::string f, std::string form, X const &x, Y const &y, F &&fn)
{
    X const cx(x);
    Y const cy(y);
    auto r = fn(cx, cy);
    return {f, form, out<decltype(r), D>(r, scale(f)), out<X, D>(cx, g_unit), out<Y, D>(cy, g_unit)};
}
// assignment form: x changed, y not; the returned reference is x itself
template<std::size_t D, typename X, typename Y, typename F>
Res asg(std::string f, std::string form, X x, Y const &y, F &&fn)
{
    Y const cy(y);
    ivec before = out<X, D>(x, g_unit);
    auto &ref = fn(x, cy);
    ivec r = out<X, D>(x, scale(f));
    if ((void *)&ref != (void *)&x) r.push_back(1);
    return {f, form, r, before, out<Y, D>(cy, g_unit)};
}
template<std::size_t D, typename X, typename F>
Res asgs(std::string f, std::string form, X x, F &&fn)
{
    ivec before = out<X, D>(x, g_unit);
    auto &ref = fn(x);
    ivec r = out<X, D>(x, scale(f));
    if ((void *)&ref != (void *)&x) r.push_back(1);
    return {f, form, r, before, {}};
}

template<typename T, std::size_t D>
void pos_ops(std::vector<Res> &R, std::string const &t, ivec const &vx, ivec const &vy, ivec const &vz, int s, ivec const &vq)
{
    using P = geo::position<T, D>;
    using A = std::array<T, D>;
    using W = velocity<D>;
    P x = mkv<P, T, D>(vx), y = mkv<P, T, D>(vy), n = mkv<P, T, D>(vq);
    A ay = mkv<A, T, D>(vy), az = mkv<A, T, D>(vz);
    W wy = mkv<W, double, D>(vy);
    T k = s / g_unit;
    R.push_back(asg<D>("add", t + "+=p", x, y, [](P &a, P const &b) -> P & { return a += b; }));
    R.push_back(asg<D>("sub", t + "-=p", x, y, [](P &a, P const &b) -> P & { return a -= b; }));
    R.push_back(asg<D>("mul", t + "*=p", x, y, [](P &a, P const &b) -> P & { return a *= b; }));
    R.push_back(asg<D>("mul", t + "*=array", x, ay, [](P &a, A const &b) -> P & { return a *= b; }));
    R.push_back(asg<D>("add", t + "+=velocity", x, wy, [](P &a, W const &b) -> P & { return a += b; }));
    R.push_back(asgs<D>("adds", t + "+=s", x, [&](P &a) -> P & { return a += k; }));
    R.push_back(asgs<D>("subs", t + "-=s", x, [&](P &a) -> P & { return a -= k; }));
    R.push_back(asgs<D>("divs", t + "/=s", n, [&](P &a) -> P & { return a /= k; }));
    R.push_back(asgs<D>("dbl", t + "+=itself", x, [](P &a) -> P & { return a += a; }));
    R.push_back(asgs<D>("zero", t + "-=itself", x, [](P &a) -> P & { return a -= a; }));
    R.push_back(asgs<D>("sqr", t + "*=itself", x, [](P &a) -> P & { return a *= a; }));
    R.push_back(bin<D>("add", t + "+p", x, y, [](P const &a, P const &b) { return a + b; }));
    R.push_back(bin<D>("sub", t + "-p", x, y, [](P const &a, P const &b) { return a - b; }));
    R.push_back(bin<D>("mul", t + "*p", x, y, [](P const &a, P const &b) { return a * b; }));
    R.push_back(bin<D>("add", t + "+velocity", x, wy, [](P const &a, W const &b) { return a + b; }));
    R.push_back(bin<D>("adds", t + "+s", x, x, [&](P const &a, P const &) { return a + k; }));
    R.push_back(bin<D>("subs", t + "-s", x, x, [&](P const &a, P const &) { return a - k; }));
    R.push_back(bin<D>("divs", t + "/s", n, n, [&](P const &a, P const &) { return a / k; }));
}
template<std::size_t D>
void posd_ops(std::vector<Res> &R, ivec const &vx, ivec const &vy, ivec const &vz, ivec const &vm)
{
    using P = geo::position<double, D>;
    using Q = geo::position<int, D>;
    using A = std::array<double, D>;
    P m = mkv<P, double, D>(vm), xq = mkv<P, double, D>(vx);
    A az = mkv<A, double, D>(vz), ay = mkv<A, double, D>(vy);
    R.push_back(asg<D>("div", "pd/=array", m, az, [](P &a, A const &b) -> P & { return a /= b; }));
    R.push_back(bin<D>("div", "pd/array", m, az, [](P const &a, A const &b) { return a / b; }));
    R.push_back(bin<D>("mul", "pd*array", xq, ay, [](P const &a, A const &b) { return a * b; }));
    // an integer position by a floating one
    Q iy;
    for (std::size_t d = 0; d < D; ++d) iy[d] = vy[d];
    auto pq = xq * iy, qp = iy * xq, qa = iy * static_cast<A const &>(mkv<A, double, D>(vx));
    for (auto const &r : {P(pq), P(qp), P(qa)})
        R.push_back({"mul", "integer and floating positions", out<P, D>(r, g_unit), out<P, D>(xq, g_unit), out<Q, D>(iy)});
    if (g_unit == 4)
    {
        auto cl = geo::ceil(xq), fl = geo::floor(xq);
        R.push_back({"ceil4", "ceil", out<Q, D>(cl), out<P, D>(xq, 4), {}});
        R.push_back({"floor4", "floor", out<Q, D>(fl), out<P, D>(xq, 4), {}});
        Q conv(xq);
        R.push_back({"trunc4", "int from double", out<Q, D>(conv), out<P, D>(xq, 4), {}});
    }
}
template<typename T, std::size_t D>
void vec_ops(std::vector<Res> &R, std::string const &t, ivec const &vx, ivec const &vy, int s, ivec const &vq)
{
    using V = geo::vector<T, D>;
    using W = velocity<D>;
    V x = mkv<V, T, D>(vx), y = mkv<V, T, D>(vy), n = mkv<V, T, D>(vq);
    W wy = mkv<W, double, D>(vy);
    T k = s / g_unit;
    int ki = s;
    R.push_back(asg<D>("mul", t + "*=v", x, y, [](V &a, V const &b) -> V & { return a *= b; }));
    R.push_back(asg<D>("add", t + "+=v", x, y, [](V &a, V const &b) -> V & { return a += b; }));
    R.push_back(asg<D>("sub", t + "-=v", x, y, [](V &a, V const &b) -> V & { return a -= b; }));
    R.push_back(asg<D>("add", t + "+=velocity", x, wy, [](V &a, W const &b) -> V & { return a += b; }));
    R.push_back(asgs<D>("muls", t + "*=s", x, [&](V &a) -> V & { return a *= k; }));
    R.push_back(asgs<D>("divs", t + "/=s", n, [&](V &a) -> V & { return a /= k; }));
    R.push_back(asgs<D>("dbl", t + "+=itself", x, [](V &a) -> V & { return a += a; }));
    R.push_back(asgs<D>("zero", t + "-=itself", x, [](V &a) -> V & { return a -= a; }));
    R.push_back(asgs<D>("sqr", t + "*=itself", x, [](V &a) -> V & { return a *= a; }));
    R.push_back(bin<D>("muls", t + "*s", x, x, [&](V const &a, V const &) { return a * k; }));
    R.push_back(bin<D>("muls", "s*" + t, x, x, [&](V const &a, V const &) { return k * a; }));
    R.push_back(bin<D>("add", t + "+v", x, y, [](V const &a, V const &b) { return a + b; }));
    R.push_back(bin<D>("neg", "-" + t, x, x, [](V const &a, V const &) { return -a; }));
    R.push_back(bin<D>("sub", t + "-velocity", x, wy, [](V const &a, W const &b) { return a - b; }));
    R.push_back(bin<D>("sub", "velocity-" + t, mkv<W, double, D>(vx), y, [](W const &a, V const &b) { return a - b; }));
}
template<std::size_t D>
void vecd_ops(std::vector<Res> &R, int s, ivec const &vx, ivec const &vq)
{
    using V = geo::vector<double, D>;
    V n = mkv<V, double, D>(vq);
    V nn;
    for (std::size_t d = 0; d < D; ++d) nn[d] = vq[d] / g_unit;
    R.push_back({"divs", "vd/int", out<V, D>(nn / s, g_unit), out<V, D>(nn, g_unit), {}});
    R.push_back(bin<D>("divs", "vd/double", n, n, [&](V const &a, V const &) { return a / (s / g_unit); }));
    R.push_back(bin<D>("copy", "vector of a position", mkv<geo::position<double, D>, double, D>(vx), n, [](geo::position<double, D> const &p, V const &) { return V(p); }));
    R.push_back(bin<D>("copy", "vector of a velocity", mkv<velocity<D>, double, D>(vx), n, [](velocity<D> const &p, V const &) { return V(p); }));
}
template<std::size_t D>
void phys_ops(std::vector<Res> &R, ivec const &vx, ivec const &vy, int s)
{
    using F = force<D>;
    using W = velocity<D>;
    F x = mkv<F, double, D>(vx), y = mkv<F, double, D>(vy);
    W a = mkv<W, double, D>(vx), b = mkv<W, double, D>(vy);
    double k = s / g_unit;
    R.push_back(asg<D>("add", "velocity+=", a, b, [](W &p, W const &q) -> W & { return p += q; }));
    R.push_back(bin<D>("add", "velocity+", a, b, [](W const &p, W const &q) { return p + q; }));
    R.push_back(asg<D>("add", "force+=", x, y, [](F &p, F const &q) -> F & { return p += q; }));
    R.push_back(asg<D>("sub", "force-=", x, y, [](F &p, F const &q) -> F & { return p -= q; }));
    R.push_back(asgs<D>("muls", "force*=s", x, [&](F &p) -> F & { return p *= k; }));
    R.push_back(asgs<D>("adds", "force+=s", x, [&](F &p) -> F & { return p += k; }));
    R.push_back(asgs<D>("dbl", "force+=itself", x, [](F &p) -> F & { return p += p; }));
    R.push_back(asgs<D>("zero", "force-=itself", x, [](F &p) -> F & { return p -= p; }));
    R.push_back(bin<D>("add", "force+", x, y, [](F const &p, F const &q) { return p + q; }));
    R.push_back(bin<D>("sub", "force-", x, y, [](F const &p, F const &q) { return p - q; }));
    R.push_back(bin<D>("muls", "force*s", x, x, [&](F const &p, F const &) { return p * k; }));
    R.push_back(bin<D>("muls", "s*force", x, x, [&](F const &p, F const &) { return k * p; }));
    R.push_back(bin<D>("adds", "force+s", x, x, [&](F const &p, F const &) { return p + k; }));
    R.push_back(bin<D>("adds", "s+force", x, x, [&](F const &p, F const &) { return k + p; }));
    F f = x;
    f.fill(k);
    R.push_back({"fill", "force fill", out<F, D>(f, g_unit), vx, {}});
}
template<typename V, typename P>
void cross2(std::vector<Res> &R, std::string const &t, ivec const &vx, ivec const &vy, int s)
{
    V x = mkv<V, double, 2>(vx), y = mkv<V, double, 2>(vy);
    P p = mkv<P, double, 2>(vy);
    V const cx(x), cy(y);
    R.push_back({"cross2", t, {toint(geo::cross_product(cx, cy), g_unit * g_unit)}, out<V, 2>(cx, g_unit), out<V, 2>(cy, g_unit)});
    R.push_back({"cross2", t + " mixed", {toint(geo::cross_product(cx, p), g_unit * g_unit)}, out<V, 2>(cx, g_unit), out<P, 2>(p, g_unit)});
    auto l = geo::cross_product(s / g_unit, cx);
    auto r = geo::cross_product(cx, s / g_unit);
    R.push_back({"crosszl", t, out<decltype(l), 2>(l, g_unit * g_unit), out<V, 2>(cx, g_unit), {}});
    R.push_back({"crosszr", t, out<decltype(r), 2>(r, g_unit * g_unit), out<V, 2>(cx, g_unit), {}});
}
template<typename V, typename V1>
void cross21(std::vector<Res> &R, std::string const &t, ivec const &vx, int s)
{
    V const cx(mkv<V, double, 2>(vx));
    V1 w;
    w[0] = s / g_unit;
    auto l = geo::cross_product(w, cx);
    auto r = geo::cross_product(cx, w);
    R.push_back({"crosszl", t + " 1-vector", out<decltype(l), 2>(l, g_unit * g_unit), out<V, 2>(cx, g_unit), {}});
    R.push_back({"crosszr", t + " 1-vector", out<decltype(r), 2>(r, g_unit * g_unit), out<V, 2>(cx, g_unit), {}});
}
template<typename V, typename T>
void cross3(std::vector<Res> &R, std::string const &t, ivec const &vx, ivec const &vy)
{
    V const x(mkv<V, T, 3>(vx)), y(mkv<V, T, 3>(vy));
    auto r = geo::cross_product(x, y);
    R.push_back({"cross3", t, out<decltype(r), 3>(r, g_unit * g_unit), out<V, 3>(x, g_unit), out<V, 3>(y, g_unit)});
    auto z = geo::cross_product(x, x);
    R.push_back({"zero", t + " with itself", out<decltype(z), 3>(z), out<V, 3>(x, g_unit), {}});
}

template<std::size_t D>
void algebra(Case const &c)
{
    auto x = c.v("x"), y = c.v("y"), z = c.v("z");
    int s = c.i("s");
    ivec m(D), n(D); // multiples: m divisible by z, n by s
    for (std::size_t d = 0; d < D; ++d)
    {
        m[d] = x[d] * z[d];
        n[d] = x[d] * s;
    }
    std::vector<Res> R;
    g_unit = 1;
    pos_ops<int, D>(R, "pi", x, y, z, s, n);
    vec_ops<int, D>(R, "vi", x, y, s, n);
    g_unit = 4;
    pos_ops<double, D>(R, "pd", x, y, z, s, n);
    posd_ops<D>(R, x, y, z, m);
    vec_ops<double, D>(R, "vd", x, y, s, n);
    vecd_ops<D>(R, s, x, n);
    phys_ops<D>(R, x, y, s);
    if (D == 2)
    {
        cross2<geo::vector<double, 2>, geo::position<double, 2>>(R, "vd", x, y, s);
        cross2<geo::position<double, 2>, geo::vector<double, 2>>(R, "pd", x, y, s);
        cross21<geo::vector<double, 2>, geo::vector<double, 1>>(R, "vd", x, s);
        cross21<geo::position<double, 2>, geo::position<double, 1>>(R, "pd", x, s);
    }
    else
    {
        cross3<geo::vector<double, 3>, double>(R, "vd", x, y);
        g_unit = 1;
        cross3<geo::vector<int, 3>, int>(R, "vi", x, y);
        g_unit = 4;
        cross3<geo::position<double, 3>, double>(R, "pd", x, y);
    }
    Ev e("alg");
    e.num("id", c.i("id")).num("D", D).arr("x", x).arr("y", y).arr("z", z).num("s", s).arr("m", m).arr("n", n);
    std::string o = "[";
    for (auto const &r : R)
        o += (o.size() > 1 ? "," : "") + ("{\"f\":\"" + r.f) + "\",\"form\":\"" + r.form + "\",\"r\":" + jarr(r.r) + ",\"x\":" + jarr(r.x) + ",\"y\":" + jarr(r.y) + "}";
    e.raw("ops", o + "]").emit();
}

// ---- rotations; n,m,c,s,q: axis n/m, angle atan2(s,c) + 2 pi turns
struct Rota
{
    ivec n;
    int m, c, s, q, turns;
};
static Rota rota(ivec const &v, std::size_t at = 0)
{
    return {{v[at], v[at + 1], v[at + 2]}, v[at + 3], v[at + 4], v[at + 5], v[at + 6], v[at + 7]};
}
static geo::quaternion quat(Rota const &g)
{
    double a = std::atan2((double)g.s, (double)g.c) + 2 * M_PI * g.turns;
    if (g.m == 0) return geo::quaternion{}; // none
    double m = g.m;
    if (g.n[0] == 0 && g.n[1] == 0 && g.n[2] == g.m && g.turns != 1) return geo::quaternion(a);
    return geo::quaternion(a, {g.n[0] / m, g.n[1] / m, g.n[2] / m});
}
static std::string jrota(Rota const &g)
{
    std::ostringstream o;
    o << "{\"n\":" << jarr(g.n) << ",\"m\":" << g.m << ",\"c\":" << g.c << ",\"s\":" << g.s << ",\"q\":" << g.q << "}";
    return o.str();
}
template<std::size_t D>
ivec turned(geo::quaternion const &q, ivec const &pts, double scale)
{
    ivec r;
    for (std::size_t k = 0; k + D <= pts.size(); k += D)
    {
        geo::position<double, D> p;
        for (std::size_t d = 0; d < D; ++d) p[d] = pts[k + d];
        auto x = q.rotate(p);
        for (std::size_t d = 0; d < D; ++d) r.push_back(toint(x[d], scale));
    }
    return r;
}
template<std::size_t D>
void rot(Case const &c)
{
    // a history: each step one rotation (or its conjugate) of all points
    ivec gens = c.v("gens"), pts = c.v("pts");
    std::string steps = "[";
    std::stringstream ss(c.s("steps"));
    std::string t;
    std::vector<geo::position<double, D>> P;
    for (std::size_t k = 0; k + D <= pts.size(); k += D)
    {
        P.emplace_back();
        for (std::size_t d = 0; d < D; ++d) P.back()[d] = pts[k + d];
    }
    bool f = true;
    while (std::getline(ss, t, ','))
    {
        int k = std::stoi(t);
        Rota g = rota(gens, 8 * (std::abs(k) - 1));
        auto const q = quat(g);
        auto const u = k > 0 ? q : q.conj();
        ivec r, len;
        for (auto &p : P)
        {
            p = u.rotate(p);
            double l = 0;
            for (std::size_t d = 0; d < D; ++d)
            {
                r.push_back(toint(p[d]));
                l += p[d] * p[d];
            }
            len.push_back(toint(l));
        }
        steps += (f ? "" : ",") + ("{\"g\":" + jrota(g)) + ",\"undo\":" + std::to_string(k < 0) + ",\"is\":" + std::to_string(u.is_rotate()) + ",\"r\":" + jarr(r) + "}";
        f = false;
    }
    geo::quaternion none{};
    Ev("rot").num("id", c.i("id")).num("D", D).arr("pts", pts).raw("steps", steps + "]")
        .num("noneis", none.is_rotate()).arr("none", turned<D>(none, pts, 1)).emit();
}
static void axis(Case const &c)
{
    // any axis length, any angle: what is kept
    ivec n = c.v("n"), pts = c.v("pts");
    double a = c.dv("angle")[0];
    geo::quaternion const q(a, {(double)n[0], (double)n[1], (double)n[2]});
    ivec len, dot, back, det;
    for (std::size_t k = 0; k + 3 <= pts.size(); k += 3)
    {
        geo::position<double, 3> p{pts[k], pts[k + 1], pts[k + 2]};
        auto x = q.rotate(p);
        len.push_back(toint(x[0] * x[0] + x[1] * x[1] + x[2] * x[2]));
        dot.push_back(toint(x[0] * n[0] + x[1] * n[1] + x[2] * n[2]));
        auto y = q.conj().rotate(x);
        for (int d = 0; d < 3; ++d) back.push_back(toint(y[d]));
    }
    Ev("axis").num("id", c.i("id")).arr("n", n).arr("pts", pts).arr("len", len).arr("dot", dot).arr("back", back).emit();
}

// ---- shapes; lengths in quarters
template<std::size_t D, typename S>
ivec boundary(S const &s, std::vector<geo::position<double, D>> const &pts)
{
    // 1 when the point just inside is inside and the point just outside is not
    ivec r;
    for (auto const &p : pts)
    {
        geo::position<double, D> a, b;
        for (std::size_t d = 0; d < D; ++d)
        {
            a[d] = s.center_[d] + (p[d] - s.center_[d]) * (1 - 1e-6);
            b[d] = s.center_[d] + (p[d] - s.center_[d]) * (1 + 1e-6);
        }
        r.push_back(s.contains(a) && !s.contains(b));
    }
    return r;
}
// sampled by spacing, and by parameters; the radial vectors are moved to the centre
template<std::size_t D>
struct sampler;
template<>
struct sampler<2>
{
    template<typename S>
    static std::vector<std::vector<geo::position<double, 2>>> all(Case const &c, S &s)
    {
        S const &cs = s;
        auto u = geo::linspace(0., 2 * M_PI, 24, false);
        auto r = cs.radial_vector(u);
        for (auto &p : r) p += cs.center_;
        return {cs.surface(c.i("k") / 256.), cs.surface(u), r};
    }
};
template<>
struct sampler<3>
{
    template<typename S>
    static std::vector<std::vector<geo::position<double, 3>>> all(Case const &c, S &s)
    {
        S const &cs = s;
        std::vector<double> u, v;
        for (double x : geo::linspace(0., 2 * M_PI, 12, false))
            for (double y : geo::linspace(-M_PI / 2, M_PI / 2, 7))
            {
                u.push_back(x);
                v.push_back(y);
            }
        auto r = cs.radial_vector(u, v);
        for (auto &p : r) p += cs.center_;
        double k = c.i("k") / 256.;
        return {s.surface(std::array<double, 2>{{k, k}}), cs.surface(u, v), r};
    }
};
template<std::size_t D, typename S>
void shape_event(Case const &c, S &s, Rota const &g)
{
    ivec C = c.v("c"), R = c.v("r"), h = c.v("h");
    std::array<double, D> hh;
    for (std::size_t d = 0; d < D; ++d) hh[d] = h[d] / 4.;
    Ev e("shape");
    e.num("id", c.i("id")).num("D", D).str("kind", c.s("kind")).arr("c", C).arr("r", R).num("n", c.i("n")).num("e", c.i("e")).arr("h", h).num("k", c.i("k")).raw("g", jrota(g));
    // the lattice of quarters around the shape
    int w = c.i("win");
    ivec lo, hi, ins, q(D, -w);
    for (std::size_t d = 0; d < D; ++d)
    {
        lo.push_back(C[d] - w);
        hi.push_back(C[d] + w + 1);
    }
    S const &cs = s;
    for (;;)
    {
        geo::position<double, D> p;
        for (std::size_t d = 0; d < D; ++d) p[d] = (C[d] + q[d]) / 4.;
        ins.push_back(cs.contains(p));
        std::size_t d = 0;
        while (d < D && ++q[d] > w) q[d++] = -w;
        if (d == D) break;
    }
    auto bb = cs.bounding_box();
    auto bi = cs.bounding_box(hh);
    // in 1/64 of a quarter
    ivec blo, bhi, ilo, ihi;
    for (std::size_t d = 0; d < D; ++d)
    {
        blo.push_back((int)std::floor(bb.bottom_left[d] * 256 + 1e-6));
        bhi.push_back((int)std::ceil(bb.upper_right[d] * 256 - 1e-6));
        ilo.push_back(bi.bottom_left[d]);
        ihi.push_back(bi.upper_right[d]);
    }
    e.arr("lo", lo).arr("hi", hi).arr("ins", ins).arr("blo", blo).arr("bhi", bhi).arr("ilo", ilo).arr("ihi", ihi);
    static const char *names[] = {"spl", "par", "rad"};
    auto P = sampler<D>::all(c, s);
    for (int k = 0; k < 3; ++k)
    {
        auto b = boundary<D>(cs, P[k]);
        ivec x;
        int bad = 0;
        for (int v : b) bad += v == 0;
        for (auto const &p : P[k])
            for (std::size_t d = 0; d < D; ++d) x.push_back((int)std::lround((p[d] - cs.center_[d]) * 256));
        e.num(std::string(names[k]) + "n", P[k].size()).num(std::string(names[k]) + "off", bad).arr(names[k], x);
    }
    e.emit();
}
template<std::size_t D>
geo::position<double, D> centre(Case const &c)
{
    auto v = c.v("c");
    geo::position<double, D> p;
    for (std::size_t d = 0; d < D; ++d) p[d] = v[d] / 4.;
    return p;
}
template<typename S>
void measures(Case const &c, S const &s, double area, double vol, double cd, double ci)
{
    Ev("measures").num("id", c.i("id")).str("kind", c.s("kind")).num("r", c.v("r")[0])
        .num("area", toint(s.surface_area(), area)).num("vol", toint(s.volume(), vol))
        .num("cd", toint(cd / s.Cd_R())).num("ci", toint(ci / s.Ci_R())).emit();
}
static void shape(Case const &c)
{
    Rota g = rota(c.v("g"));
    auto q = quat(g);
    auto R = c.v("r");
    auto k = c.s("kind");
    if (k == "circle")
    {
        auto s = make_circle(centre<2>(c), R[0] / 4., q);
        shape_event<2>(c, s, g);
        measures(c, s, 4 / M_PI, 16 / M_PI, 16, 32);
    }
    if (k == "sphere")
    {
        auto s = make_sphere(centre<3>(c), R[0] / 4., q);
        shape_event<3>(c, s, g);
        measures(c, s, 4 / M_PI, 48 / M_PI, 24, 40);
    }
    if (k == "se2")
    {
        auto s = make_ellipsoid<2>(centre<2>(c), {{R[0] / 4., R[1] / 4.}}, (double)c.i("n"), q);
        shape_event<2>(c, s, g);
    }
    if (k == "se3")
    {
        auto s = make_ellipsoid<3>(centre<3>(c), {{R[0] / 4., R[1] / 4., R[2] / 4.}}, (double)c.i("n"), (double)c.i("e"), q);
        shape_event<3>(c, s, g);
    }
}

int main(int argc, char **argv)
{
    return run(argc, argv, [](Case const &c, int) {
        int D = c.i("D");
        if (c.name == "box")
        {
            if (c.s("t") == "int") D == 2 ? boxes<int, 2>(c) : boxes<int, 3>(c);
            else D == 2 ? boxes<double, 2>(c) : boxes<double, 3>(c);
        }
        if (c.name == "alg") D == 2 ? algebra<2>(c) : algebra<3>(c);
        if (c.name == "rot") D == 2 ? rot<2>(c) : rot<3>(c);
        if (c.name == "axis") axis(c);
        if (c.name == "shape") shape(c);
        if (c.name == "lin")
        {
            int n = c.i("n"), end = c.i("end"), m = end ? n - 1 : n;
            auto v = end == 1 && c.i("dflt", 0) ? geo::linspace(c.i("a") / 8., c.i("b") / 8., n) : geo::linspace(c.i("a") / 8., c.i("b") / 8., n, end);
            ivec w;
            for (auto x : v) w.push_back(toint(x * m, 8.));
            Ev("lin").num("a", c.i("a")).num("b", c.i("b")).num("n", n).num("end", end).arr("v", w).emit();
        }
    });
}
