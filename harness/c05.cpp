// C05: prescribing node values on an assembled system is exact symmetric elimination.
#include "common.hpp"
#include "dense.hpp"
#include <nikfemm.hpp>
#include "../src/algebra/non_linear.hpp"
using namespace nikfemm;
using vf::ld;

struct Sys { uint32_t m; std::map<std::pair<uint32_t, uint32_t>, double> a; std::vector<double> b; };
static double at(const Sys& s, uint32_t i, uint32_t j) { if (i > j) std::swap(i, j); auto it = s.a.find({i, j}); return it == s.a.end() ? 0 : it->second; }

static Sys gen(vf::Ctx& c, uint32_t m) {
    Sys s; s.m = m; s.b.resize(m);
    int mode = c.rng.range(0, 3); double dens = c.rng.uni(0.05, 0.9);
    for (uint32_t i = 0; i < m; i++) {
        if (mode != 3 || c.rng.chance(0.6)) s.a[{i, i}] = c.rng.uni(0.5, 9);
        for (uint32_t j = i + 1; j < m; j++) if (mode == 1 ? j == i + 1 : c.rng.chance(dens)) s.a[{i, j}] = c.rng.chance(0.2) ? c.rng.range(-4, 4) : c.rng.uni(-2, 2);
        s.b[i] = c.rng.chance(0.2) ? 0.0 : c.rng.uni(-5, 5);
    }
    // conductances and sources of any magnitude
    if (c.rng.chance(.4)) { double k = c.rng.logu(1e-20, 1e20); for (auto& [q, v] : s.a) v *= k; } if (c.rng.chance(.2)) for (auto& [q, v] : s.a) v *= c.rng.logu(1e-9, 1e9);
    if (c.rng.chance(.3)) { double k = c.rng.logu(1e-20, 1e20); for (auto& v : s.b) v *= k; }
    return s;
}
struct Expect { std::map<std::pair<uint32_t, uint32_t>, double> a; std::vector<ld> b, mag; };
static Expect eliminate(const Sys& s, const std::map<uint32_t, double>& bc) {
    Expect e; e.b.assign(s.m, 0); e.mag.assign(s.m, 0);
    for (uint32_t i = 0; i < s.m; i++) {
        if (bc.count(i)) { e.b[i] = bc.at(i); continue; }
        e.b[i] = s.b[i]; e.mag[i] = fabsl(s.b[i]);
        for (auto& [d, v] : bc) { ld t = (ld)at(s, i, d) * v; e.b[i] -= t; e.mag[i] += fabsl(t); }
    }
    for (uint32_t i = 0; i < s.m; i++) for (uint32_t j = i; j < s.m; j++)
        e.a[{i, j}] = (bc.count(i) || bc.count(j)) ? (i == j ? 1.0 : 0.0) : at(s, i, j);
    return e;
}
static std::vector<std::pair<uint32_t, double>> conditions(vf::Ctx& c, uint32_t m, std::map<uint32_t, double>& bc, bool any_size = true) {
    std::vector<uint32_t> ids(m); std::iota(ids.begin(), ids.end(), 0); c.rng.shuffle(ids);
    double size = any_size && c.rng.chance(.4) ? c.rng.logu(1e-20, 1e20) : 1;
    uint32_t k = c.rng.chance(0.1) ? m : c.rng.range(1, m); if (c.rng.chance(0.5)) k = std::min<uint32_t>(k, 3);
    std::vector<std::pair<uint32_t, double>> o;
    for (uint32_t i = 0; i < k; i++) { double v = c.rng.chance(0.2) ? 0.0 : c.rng.chance(0.3) ? (double)c.rng.range(-9, 9) : c.rng.uni(-20, 20); v *= size; bc[ids[i]] = v; o.push_back({ids[i], v}); }
    for (int r = c.rng.range(0, 3); r > 0; r--) o.push_back(o[c.rng.range(0, k - 1)]);        // repeated prescriptions of the same value
    c.rng.shuffle(o);
    return o;
}
static bool okb(double got, ld exp, ld mag) { return fabsl(got - exp) <= 1e-14L * mag * 4 + 1e-300L; }

VF_SUITE(linear, 1500, 30000) {
    uint32_t m = c.rng.range(1, c.rng.chance(0.1) ? 60 : 14);
    Sys s = gen(c, m); std::map<uint32_t, double> bc; auto seq = conditions(c, m, bc);
    System<double> S(m);
    for (auto& [k, v] : s.a) S.A(k.first, k.second) = v;
    S.b = s.b;
    c.sample("m=%u entries=%zu conditions=%zu (%zu distinct)", m, s.a.size(), seq.size(), bc.size());
    for (auto& [i, v] : seq) S.addDirichletBoundaryCondition(i, v);
    Expect e = eliminate(s, bc);
    MatCSRSymmetric A(S.A);
    c.check(A.m == m && S.b.size() == m, "dimension", "dimension changed: %u rows, %zu right-hand sides, was %u", A.m, S.b.size(), m);
    for (uint32_t i = 0; i < m; i++) for (uint32_t j = 0; j < m; j++) {
        double x = e.a[{std::min(i, j), std::max(i, j)}];
        c.check(A(i, j) == x, bc.count(i) || bc.count(j) ? "eliminated-entry" : "free-entry", "m=%u entry (%u,%u) is %.17g, exact elimination gives %.17g", m, i, j, A(i, j), x);
    }
    for (uint32_t i = 0; i < m; i++) {
        if (bc.count(i)) c.check(S.b[i] == bc[i], "prescribed-value", "node %u right-hand side %.17g, prescribed %.17g", i, S.b[i], bc[i]);
        else c.check(okb(S.b[i], e.b[i], e.mag[i]), "rhs", "m=%u free node %u right-hand side %.17g, exact %.17Lg", m, i, S.b[i], e.b[i]);
    }
    // copying the system copies the eliminated system
    System<double> T(S); MatCSRSymmetric B(T.A);
    for (uint32_t q = 0; q < 20; q++) { uint32_t i = c.rng.range(0, m - 1), j = c.rng.range(0, m - 1); c.check(B(i, j) == A(i, j) && T.b[i] == S.b[i], "copy", "copied system differs at (%u,%u)", i, j); }
    uint64_t h = m; for (auto& [i, v] : seq) h = vf::mixd(vf::mix(h, i), v);
    if (s.a.size() > m) c.nontrivial(h);
    if (bc.size() > 1) c.note("systems with several prescribed nodes");
    if (seq.size() > bc.size()) c.note("systems with repeated prescriptions");
    for (auto& [i, v] : bc) for (auto& [j, w] : bc) if (i < j && s.a.count({i, j})) { c.note("coupled prescribed pairs"); }
}

// more nodes than 16 bits can count: a grid, and one node joined to many
VF_SUITE(huge, 4, 40) {
    uint32_t m = c.rng.range(65530, 120000), w = c.rng.range(2, 400), hub = c.rng.range(0, m - 1); System<double> S(m); std::map<std::pair<uint32_t, uint32_t>, double> a; std::vector<double> b(m);
    auto put = [&](uint32_t i, uint32_t j) { if (i > j) std::swap(i, j); double v = c.rng.uni(-1, 1); a[{i, j}] = v; S.A(i, j) = v; };
    for (uint32_t i = 0; i < m; i++) { put(i, i); if (i + 1 < m) put(i, i + 1); if (i + w < m) put(i, i + w); if (c.rng.chance(.01) && i != hub) put(i, hub); b[i] = S.b[i] = c.rng.uni(-1, 1); }
    std::map<uint32_t, double> bc; bc[hub] = c.rng.uni(-3, 3); for (int k = c.rng.range(1, 9); k > 0; k--) bc[c.rng.chance(.3) ? 65536 + c.rng.range(-6, 6) : c.rng.range(0, m - 1)] = c.rng.uni(-3, 3); for (auto it = bc.begin(); it != bc.end();) it->first < m ? ++it : bc.erase(it++);
    c.sample("m=%u entries=%zu conditions=%zu", m, a.size(), bc.size());
    for (auto& [i, v] : bc) S.addDirichletBoundaryCondition(i, v);
    std::vector<ld> eb(b.begin(), b.end()), mag(m, 1); MatCSRSymmetric A(S.A);
    for (auto& [k, v] : a) { auto [i, j] = k; bool p = bc.count(i), q = bc.count(j); double want = p || q ? i == j : v; double x = A(i, j); c.check(x == want, p || q ? "eliminated-entry" : "free-entry", "m=%u entry (%u,%u) is %.17g, exact elimination gives %.17g", m, i, j, x, want); if (i != j) { if (p) eb[j] -= (ld)v * bc[i], mag[j] += fabsl((ld)v * bc[i]); if (q) eb[i] -= (ld)v * bc[j], mag[i] += fabsl((ld)v * bc[j]); } }
    for (uint32_t i = 0; i < m; i++) if (bc.count(i)) c.check(S.b[i] == bc[i], "prescribed-value", "node %u right-hand side %.17g, prescribed %.17g", i, S.b[i], bc[i]); else c.check(okb(S.b[i], eb[i], mag[i]), "rhs", "m=%u free node %u right-hand side %.17g, exact %.17Lg", m, i, S.b[i], eb[i]);
    c.nontrivial(vf::mix(m, a.size()));
}

// solving the eliminated system: prescribed nodes take exactly their values, free equations of the original system hold
VF_SUITE(solved, 300, 5000) {
    uint32_t m = c.rng.range(3, 40); Sys s; s.m = m; s.b.resize(m);
    for (uint32_t i = 0; i < m; i++) { s.a[{i, i}] = c.rng.uni(0.01, 0.5); s.b[i] = c.rng.uni(-1, 1); }
    for (uint32_t i = 0; i < m; i++) for (uint32_t j = i + 1; j < m; j++) if (j == i + 1 || c.rng.chance(0.2)) { double w = c.rng.uni(0.1, 3); s.a[{i, j}] -= w; s.a[{i, i}] += w; s.a[{j, j}] += w; }
    std::map<uint32_t, double> bc; auto seq = conditions(c, m, bc, false);
    System<double> S(m); for (auto& [k, v] : s.a) S.A(k.first, k.second) = v; S.b = s.b;
    for (auto& [i, v] : seq) S.addDirichletBoundaryCondition(i, v);
    MatCSRSymmetric A(S.A); std::vector<double> x(m, 0.0);
    c.sample("m=%u prescribed=%zu", m, bc.size());
    preconditionedSSORConjugateGradientSolver(A, S.b, x, 1.0, 1e-13, 10 * m + 50);
    for (auto& [i, v] : bc) c.check(std::fabs(x[i] - v) <= 1e-9 * (1 + std::fabs(v)), "solution-prescribed", "node %u solved to %.17g, prescribed %.17g", i, x[i], v);
    for (uint32_t i = 0; i < m; i++) if (!bc.count(i)) {
        ld r = s.b[i], mag = fabsl(s.b[i]); for (uint32_t j = 0; j < m; j++) { ld t = (ld)at(s, i, j) * x[j]; r -= t; mag += fabsl(t); }
        c.check(fabsl(r) <= 1e-8L * (mag + 1), "free-equation", "m=%u equation %u of the original system has residual %Lg", m, i, r);
    }
    c.nontrivial(vf::mix(m, bc.size() * 131 + seq[0].first));
}

// the same elimination on a system whose entries are nonlinear expressions, judged after evaluation
VF_SUITE(nonlinear, 700, 15000) {
    uint32_t m = c.rng.range(1, 12), ne = c.rng.range(1, 6);
    std::map<std::pair<uint32_t, uint32_t>, std::pair<double, std::vector<double>>> ex;
    std::vector<std::pair<double, std::vector<double>>> eb(m);
    System<NonLinearExpression> S(m);
    auto fill = [&](NonLinearExpression& t, std::pair<double, std::vector<double>>& r) {
        r.first = 0; r.second.assign(ne, 0);
        for (int q = c.rng.range(1, 4); q > 0; q--) {
            if (c.rng.chance(0.4)) { double v = c.rng.range(-6, 6); t += v; r.first += v; }
            else { double v = c.rng.range(-6, 6); uint32_t k = c.rng.range(0, ne - 1); t += NonLinearTerm{v, k}; r.second[k] += v; }
        }
    };
    double dens = c.rng.uni(0.1, 1);
    for (uint32_t i = 0; i < m; i++) for (uint32_t j = i; j < m; j++) if (i == j || c.rng.chance(dens)) fill(S.A(i, j), ex[{i, j}]);
    for (uint32_t i = 0; i < m; i++) fill(S.b[i], eb[i]);
    std::map<uint32_t, double> bc; auto seq = conditions(c, m, bc);
    c.sample("m=%u nonlinear coefficients=%u prescribed=%zu", m, ne, bc.size());
    for (auto& [i, v] : seq) S.addDirichletBoundaryCondition(i, v);
    NonLinearMatCSRSymmetric M(S.A);
    for (int rep = 0; rep < 3; rep++) {
        std::vector<double> mu(ne); for (auto& v : mu) v = c.rng.logu(0.1, 10);
        auto val = [&](const std::pair<double, std::vector<double>>& r, ld* mag) { ld x = r.first, g = fabsl(r.first); for (uint32_t k = 0; k < ne; k++) { x += (ld)r.second[k] / mu[k]; g += fabsl((ld)r.second[k] / mu[k]); } if (mag) *mag = g + 30 * 60.0L; return x; };
        M.evaluate(mu);
        for (uint32_t i = 0; i < m; i++) for (uint32_t j = 0; j < m; j++) {
            auto k = std::make_pair(std::min(i, j), std::max(i, j)); ld x = 0, mag = 0;
            if (bc.count(i) || bc.count(j)) x = i == j; else if (ex.count(k)) x = val(ex[k], &mag);
            c.check(fabsl(M(i, j) - x) <= 1e-13L * mag, bc.count(i) || bc.count(j) ? "eliminated-entry" : "free-entry", "m=%u entry (%u,%u) evaluates to %.17g, exact elimination gives %.17Lg", m, i, j, M(i, j), x);
        }
        for (uint32_t i = 0; i < m; i++) {
            double got = S.b[i].evaluate(mu); ld x, mag = 0;
            if (bc.count(i)) x = bc[i];
            else { x = val(eb[i], &mag); for (auto& [d, v] : bc) { auto k = std::make_pair(std::min(i, d), std::max(i, d)); if (ex.count(k)) { ld g; x -= val(ex[k], &g) * v; mag += g * fabs(v); } } }
            c.check(fabsl(got - x) <= 1e-13L * mag, bc.count(i) ? "prescribed-value" : "rhs", "m=%u right-hand side %u evaluates to %.17g, exact elimination gives %.17Lg", m, i, got, x);
        }
    }
    uint64_t h = vf::mix(m, ne); for (auto& [i, v] : seq) h = vf::mixd(vf::mix(h, i), v);
    if (m > 1) c.nontrivial(h);
}
VF_MAIN
