// C03: vector kernels compute their element-wise definition for every length, value and aliasing of result and operands.
#include "common.hpp"
#include <nikfemm.hpp>
using namespace nikfemm;
typedef std::vector<double> V;
static const double EPS = 2.3e-16;

static bool same(double got, long double want, long double scale) {
    if (std::isnan((double)want)) return std::isnan(got);
    double w = (double)want;
    if (std::isinf(w)) return got == w || !std::isfinite((double)scale);
    if (std::isinf(got)) return fabsl(want) > 1.79e308L || !std::isfinite((double)scale);
    return fabsl((long double)got - want) <= 4 * EPS * fabsl(scale) + 1e-320L;
}
static V vec(vf::Ctx& c, size_t n, int kind) { V v(n); v.shrink_to_fit(); for (auto& x : v) x = kind == 0 ? c.rng.uni(-5, 5) : kind == 1 ? (double)c.rng.range(-4, 4) : c.rng.weird(); if (kind == 3 && n) v[c.rng.range(0, n - 1)] = c.rng.chance(0.5) ? NAN : INFINITY; return v; }
static size_t len(vf::Ctx& c) { if (c.rng.chance(.002)) return c.rng.chance(.5) ? 65536 + c.rng.range(-2, 9) : c.rng.range(5000, 200000); return c.rng.chance(0.1) ? c.rng.range(60, 300) : c.idx < 70 ? c.idx : c.rng.range(0, 40); }

typedef std::function<void(V& r, const V& a, const V& b, double d)> Op;
typedef std::function<long double(long double a, long double b, long double d)> Ref;
struct Kernel { const char* name; int arity; Op op; Ref ref; Ref scale; };
static std::vector<Kernel>& kernels() {
    auto absmax = [](Ref r) { return r; };
    static std::vector<Kernel> k = {
        {"mult(scalar)", 1, [](V& r, const V& a, const V& b, double d) { mult(r, d, a); }, [](auto a, auto b, auto d) { return d * a; }, [](auto a, auto b, auto d) { return d * a; }},
        {"mult(elementwise)", 2, [](V& r, const V& a, const V& b, double d) { mult(r, a, b); }, [](auto a, auto b, auto d) { return a * b; }, [](auto a, auto b, auto d) { return a * b; }},
        {"add", 2, [](V& r, const V& a, const V& b, double d) { add(r, a, b); }, [](auto a, auto b, auto d) { return a + b; }, [](auto a, auto b, auto d) { return fabsl(a) + fabsl(b); }},
        {"sub", 2, [](V& r, const V& a, const V& b, double d) { sub(r, a, b); }, [](auto a, auto b, auto d) { return a - b; }, [](auto a, auto b, auto d) { return fabsl(a) + fabsl(b); }},
        {"div(scalar)", 1, [](V& r, const V& a, const V& b, double d) { div(r, a, d); }, [](auto a, auto b, auto d) { return a / d; }, [](auto a, auto b, auto d) { return a / d; }},
        {"div(elementwise)", 2, [](V& r, const V& a, const V& b, double d) { div(r, a, b); }, [](auto a, auto b, auto d) { return a / b; }, [](auto a, auto b, auto d) { return a / b; }},
        {"sub(scalar)", 1, [](V& r, const V& a, const V& b, double d) { sub(r, a, d); }, [](auto a, auto b, auto d) { return a - d; }, [](auto a, auto b, auto d) { return fabsl(a) + fabsl(d); }},
        {"add(scalar)", 1, [](V& r, const V& a, const V& b, double d) { add(r, a, d); }, [](auto a, auto b, auto d) { return a + d; }, [](auto a, auto b, auto d) { return fabsl(a) + fabsl(d); }},
        {"addScaled", 2, [](V& r, const V& a, const V& b, double d) { addScaled(r, a, d, b); }, [](auto a, auto b, auto d) { return a + d * b; }, [](auto a, auto b, auto d) { return fabsl(a) + fabsl(d * b); }},
        {"copy", 1, [](V& r, const V& a, const V& b, double d) { copy(r, a); }, [](auto a, auto b, auto d) { return a; }, [](auto a, auto b, auto d) { return (long double)0; }},
    };
    return k;
}

VF_SUITE(elementwise, 6000, 100000) {
    auto& k = kernels()[c.idx % kernels().size()];
    size_t n = c.idx / kernels().size() < 70 ? c.idx / kernels().size() : len(c);
    int kind = c.rng.range(0, 3), alias = c.rng.range(0, k.arity == 2 ? 4 : 1);  // 0: none 1: r=a 2: r=b 3: a=b 4: r=a=b
    V a = vec(c, n, kind), b = vec(c, n, kind == 3 ? 2 : kind), r(n, 12345.678);
    double d = kind >= 2 ? c.rng.weird() : c.rng.uni(-3, 3);
    if (c.rng.chance(0.1)) d = c.rng.chance(0.5) ? 1.0 : c.rng.chance(0.5) ? -1.0 : 0.0;
    V a0 = a, b0 = b;
    V *pr = &r, *pa = &a, *pb = &b; if (alias == 1) pr = &a; if (alias == 2) pr = &b; if (alias == 3) pb = &a, b0 = a0; if (alias == 4) pr = pb = &a, b0 = a0;
    c.sample("%s n=%zu alias=%d d=%.6g", k.name, n, alias, d);
    k.op(*pr, *pa, *pb, d);
    c.check(pr->size() == n, "resized", "%s n=%zu alias=%d: result has %zu elements", k.name, n, alias, pr->size());
    for (size_t i = 0; i < n; i++) c.check(same((*pr)[i], k.ref(a0[i], b0[i], d), k.scale(a0[i], b0[i], d)), vf::fmt("value %s", k.name).c_str(), "%s n=%zu alias=%d element %zu: got %.17g for a=%.17g b=%.17g d=%.17g", k.name, n, alias, i, (*pr)[i], a0[i], b0[i], d);
    auto eqbits = [](const V& x, const V& y) { return x.size() == y.size() && (x.empty() || memcmp(x.data(), y.data(), 8 * x.size()) == 0); };
    if (pr != &a) c.check(eqbits(a, a0), "operand-modified", "%s changed its first operand", k.name);
    if (pr != &b && pb == &b) c.check(eqbits(b, b0), "operand-modified", "%s changed its second operand", k.name);
    uint64_t h = vf::hashstr(k.name) + alias * 7 + n * 31; for (auto v : a0) h = vf::mixd(h, v); if (n > 1) c.nontrivial(h);
    c.eval(); c.note(vf::fmt("kernel %s", k.name).c_str());
}

VF_SUITE(reductions, 2500, 40000) {
    size_t n = c.idx < 80 ? c.idx : c.rng.chance(.004) ? 65536 + c.rng.range(-2, 90000) : c.rng.chance(0.1) ? c.rng.range(300, 5000) : c.rng.range(0, 60);
    int kind = c.rng.range(0, 1);
    V a = vec(c, n, kind), b = vec(c, n, kind);
    if (c.rng.chance(0.3)) { double s = c.rng.logu(1e-70, 1e70); for (auto& v : a) v *= s; }
    if (c.rng.chance(0.1)) b = a;
    V a0 = a, b0 = b;
    long double s = 0, sa = 0, q = 0; for (size_t i = 0; i < n; i++) { s += (long double)a[i] * b[i]; sa += fabsl((long double)a[i] * b[i]); q += (long double)a[i] * a[i]; }
    double tol = EPS * (n + 4);
    double gd = dot(a, b), gs = squareSum(a), gn = norm(a);
    c.check(fabsl(gd - s) <= tol * sa + 1e-300L, "dot", "n=%zu dot %.17g exact %.17Lg", n, gd, s);
    c.check(fabsl(gs - q) <= tol * q + 1e-300L, "squareSum", "n=%zu squareSum %.17g exact %.17Lg", n, gs, q);
    c.check(fabsl(gn - sqrtl(q)) <= tol * sqrtl(q) + 1e-150L, "norm", "n=%zu norm %.17g exact %.17Lg", n, gn, sqrtl(q));
    c.check(dot(b, a) == gd || fabsl(dot(b, a) - gd) <= tol * sa, "dot-symmetric", "dot(a,b) != dot(b,a)");
    c.check(a == a0 && b == b0, "operand-modified", "a reduction changed its operand");
    uint64_t h = n; for (auto v : a) h = vf::mixd(h, v); if (n > 1) c.nontrivial(h);
}

VF_SUITE(nan_detection, 800, 8000) {
    size_t n = c.rng.range(0, 40); V a = vec(c, n, c.rng.range(0, 2)); if (n && c.rng.chance(0.2)) a[c.rng.range(0, n - 1)] = INFINITY;
    c.check(!nikfemm::isnan(a), "isnan-false-alarm", "a vector without NaN is reported as NaN");
    if (n) { size_t p = c.rng.range(0, n - 1); a[p] = NAN; c.check(nikfemm::isnan(a), "isnan-missed", "NaN at %zu of %zu not reported", p, n); c.nontrivial(n * 64 + p); }
    c.check(nikfemm::isnan(NAN) && !nikfemm::isnan(1.0) && !nikfemm::isnan(INFINITY), "isnan-scalar", "scalar isnan wrong");
    // matrices: a NaN in any stored position
    uint32_t m = c.rng.range(1, 12); MatCOOSymmetric<double> coo(m); std::vector<std::pair<uint32_t, uint32_t>> pos;
    for (uint32_t i = 0; i < m; i++) for (uint32_t j = i; j < m; j++) if (i == j || c.rng.chance(0.4)) { coo(i, j) = c.rng.uni(-1, 1); pos.push_back({i, j}); }
    { MatCSRSymmetric S(coo); c.check(!nikfemm::isnan(S), "isnan-false-alarm", "a matrix without NaN is reported as NaN"); }
    auto p = c.rng.pick(pos); coo(p.first, p.second) = NAN; MatCSRSymmetric S(coo);
    c.check(nikfemm::isnan(S), "isnan-missed", "NaN at (%u,%u) of a %u matrix not reported", p.first, p.second, m);
}

VF_SUITE(vector_norms, 500, 5000) {
    size_t n = c.rng.range(0, 50); std::vector<Vector> v(n); for (auto& p : v) p = Vector(c.rng.uni(-9, 9), c.rng.uni(-9, 9));
    if (n && c.rng.chance(0.3)) v[0] = Vector(c.rng.chance(0.5) ? 0 : -3.0, c.rng.chance(0.5) ? 0 : 4.0);
    V r = element_wise_norm(v); c.check(r.size() == n, "size", "element_wise_norm size");
    uint64_t h = n; for (size_t i = 0; i < n; i++) { c.check(vf::close(r[i], hypot(v[i].x, v[i].y), 8 * EPS, 0), "element-norm", "|(%g,%g)| = %g", v[i].x, v[i].y, r[i]); h = vf::mixd(h, v[i].x); }
    if (n > 1) c.nontrivial(h);
}
// the scalar helpers behind interpolation and colours
VF_SUITE(map_limit, 200, 4000) {
    double a = c.rng.uni(-9, 9), b = a + c.rng.logu(1e-3, 1e3), o = c.rng.uni(-9, 9), p = o + (c.rng.chance(.5) ? 1 : -1) * c.rng.logu(1e-3, 1e3), x = c.rng.chance(.15) ? a : c.rng.chance(.15) ? b : c.rng.uni(a - (b - a), b + (b - a));
    double l = limit(x, a, b), want = x < a ? a : x > b ? b : x; c.check(l == want, "limit", "limit(%g, %g, %g) = %g", x, a, b, l);
    double m = map(x, a, b, o, p); long double wm = o + ((long double)x - a) * ((long double)p - o) / ((long double)b - a); c.check(vf::close(m, (double)wm, 1e-12, 1e-13 * (fabs(o) + fabs(p))), "map", "map(%g, %g, %g, %g, %g) = %.17g, not %.17Lg", x, a, b, o, p, m, wm);
    c.nontrivial(vf::mixd(vf::mixd(1, x), a)); c.sample("map %g from (%g,%g) to (%g,%g)", x, a, b, o, p);
}
VF_MAIN
