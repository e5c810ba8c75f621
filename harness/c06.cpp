// C06: nonlinear matrix entries are exactly the linear functional that was assembled into them.
#include "common.hpp"
#include "dense.hpp"
#include <nikfemm.hpp>
#include "../src/algebra/non_linear.hpp"
using namespace nikfemm;
using vf::ld;

struct Shadow { ld k = 0; std::map<uint32_t, ld> t; ld mag = 0; bool touched = false;
    ld eval(const std::vector<double>& mu) const { ld x = k; for (auto& [i, v] : t) x += v / mu[i]; return x; }
    bool depends() const { for (auto& [i, v] : t) if (v != 0) return true; return false; } };

// random programs over a pool of expressions; the shadow is the exact linear functional
VF_SUITE(expression_programs, 3000, 60000) {
    uint32_t ne = c.rng.range(1, 8), np = c.rng.range(1, 4), steps = c.rng.range(1, 30);
    // coefficients of any magnitude: devices are metres or micrometres across
    double sc = c.rng.chance(.5) ? 1 : std::ldexp(1., c.rng.range(-150, 150)), mus = c.rng.chance(.5) ? 1 : std::ldexp(1., c.rng.range(-60, 60));
    std::vector<NonLinearExpression> e(np); std::vector<Shadow> s(np);
    uint64_t h = ne; size_t total = 0; int alias = 0;
    for (uint32_t q = 0; q < steps; q++) {
        uint32_t i = c.rng.range(0, np - 1), j = c.rng.range(0, np - 1); int op = c.rng.range(0, 9);
        double f = c.rng.range(-8, 8), v = f * sc; uint32_t k = c.rng.range(0, ne - 1);
        h = vf::mix(h, op * 7919 + i * 31 + j * 17 + k); h = vf::mixd(h, v);
        auto addin = [&](Shadow& d, const Shadow& o, ld f) { Shadow oc = o; d.k += f * oc.k; for (auto& [a, b] : oc.t) d.t[a] += f * b; d.mag += fabsl(f) * oc.mag; d.touched |= oc.touched; };
        if (s[i].mag > 1e6 * sc || s[j].mag > 1e6 * sc || total > 3000) op = 0;
        switch (op) {
            case 0: e[i] = v; s[i] = Shadow(); s[i].k = v; s[i].mag = std::fabs(v); if (total > 3000) total = 0; break;
            case 1: e[i] = e[j]; s[i] = s[j]; if (i == j) c.note("self assignments"); break;
            case 2: e[i] += v; s[i].k += v; s[i].mag += std::fabs(v); break;
            case 3: e[i] -= v; s[i].k -= v; s[i].mag += std::fabs(v); break;
            case 4: case 8: e[i] += NonLinearTerm{v, k}; s[i].t[k] += v; s[i].mag += std::fabs(v); s[i].touched = true; total++; break;
            case 5: e[i] -= NonLinearTerm{v, k}; s[i].t[k] -= v; s[i].mag += std::fabs(v); s[i].touched = true; total++; break;
            case 6: e[i] += e[j]; addin(s[i], s[j], 1); total += 8; if (i == j) alias++; break;
            case 7: e[i] -= e[j]; addin(s[i], s[j], -1); total += 8; if (i == j) alias++; break;
            case 9: { NonLinearExpression r = e[j] * f; e[i] = r; Shadow d; addin(d, s[j], f); s[i] = d; break; }
        }
        if (q % 4 == 3 || q + 1 == steps) {
            std::vector<double> mu(ne); for (auto& x : mu) x = c.rng.logu(0.2, 5) * mus;
            std::vector<double> mu0 = mu;
            for (uint32_t a = 0; a < np; a++) {
                double g = e[a].evaluate(mu); ld x = s[a].eval(mu);
                c.check(fabsl(g - x) <= 1e-12L * s[a].mag * 5 * std::max(1., 1 / mus), "value", "expression %u after %u operations evaluates to %.17g, exact %.17Lg", a, q + 1, g, x);
                if (s[a].depends()) c.check(!e[a].isLinear(), "is-linear", "expression %u depends on the nonlinear coefficients but reports being linear", a);
                if (!s[a].touched) c.check(e[a].isLinear(), "is-linear", "expression %u is a plain constant but does not report being linear", a);
            }
            c.check(mu == mu0, "argument-modified", "evaluate changed the coefficients");
        }
    }
    c.sample("pool=%u coefficients=%u operations=%u self-aliased=%d", np, ne, steps, alias);
    if (alias) c.note("self-aliased accumulations", alias);
    if (steps > 3) c.nontrivial(h);
}

// the nonlinear matrix is the matrix of expressions, for every coefficient vector, in any order and repeatedly
VF_SUITE(matrix, 600, 12000) {
    uint32_t m = c.rng.range(1, 20), ne = c.rng.range(1, 10); double dens = c.rng.uni(0, 0.8); int dm = c.rng.range(0, 2);
    MatCOOSymmetric<NonLinearExpression> coo(m); std::map<std::pair<uint32_t, uint32_t>, Shadow> s;
    std::vector<std::pair<uint32_t, uint32_t>> adds; double sc = c.rng.chance(.5) ? 1 : std::ldexp(1., c.rng.range(-150, 150));
    for (uint32_t i = 0; i < m; i++) for (uint32_t j = i; j < m; j++) if (i == j ? dm == 0 || (dm == 1 && c.rng.chance(0.6)) : c.rng.chance(dens)) for (int q = c.rng.range(1, 3); q > 0; q--) adds.push_back({i, j});
    c.rng.shuffle(adds);
    for (auto& p : adds) {
        double v = c.rng.range(-9, 9) * sc; uint32_t k = c.rng.range(0, ne - 1); auto& d = s[p]; d.mag += std::fabs(v);
        if (c.rng.chance(0.3)) { coo(p.first, p.second) += v; d.k += v; } else { coo(p.first, p.second) += NonLinearTerm{v, k}; d.t[k] += v; }
    }
    c.sample("m=%u coefficients=%u entries=%zu diagonal=%s", m, ne, s.size(), dm == 0 ? "all" : dm == 1 ? "some" : "none");
    NonLinearMatCSRSymmetric M(coo);
    c.check(M.m == m, "dimension", "%u rows, assembled %u", M.m, m);
    std::vector<double> first; std::vector<double> mu1(ne), mu;
    for (auto& x : mu1) x = c.rng.logu(0.1, 10);
    for (int rep = 0; rep < 4; rep++) {
        mu.resize(ne); for (auto& x : mu) x = c.rng.logu(1e-3, 1e3);
        if (rep == 0 || rep == 3) mu = mu1;
        M.evaluate(mu);
        std::vector<double> all;
        for (uint32_t i = 0; i < m; i++) for (uint32_t j = 0; j < m; j++) {
            auto it = s.find({std::min(i, j), std::max(i, j)}); ld x = 0, mag = 0;
            if (it != s.end()) { x = it->second.eval(mu); mag = fabsl(it->second.k); for (auto& [k, v] : it->second.t) mag += fabsl(v / mu[k]); mag += it->second.mag * 1e3; }
            double g = M(i, j); all.push_back(g);
            c.check(fabsl(g - x) <= 1e-13L * mag, i == j ? "diagonal" : "off-diagonal", "m=%u entry (%u,%u) evaluates to %.17g, exact %.17Lg", m, i, j, g, x);
        }
        if (rep == 0) first = all;
        if (rep == 3) c.check(all == first, "re-evaluation", "evaluating again with the first coefficients does not give the first matrix");
        // products use the evaluated entries
        std::vector<double> x(m), y(m, 3); for (auto& v : x) v = c.rng.range(-5, 5);
        mult(y, M, x);
        for (uint32_t i = 0; i < m; i++) { ld t = 0, g = 0; for (uint32_t j = 0; j < m; j++) { t += (ld)all[i * m + j] * x[j]; g += fabsl((ld)all[i * m + j] * x[j]); }
            c.check(fabsl(y[i] - t) <= 1e-14L * (m + 4) * g, "product", "m=%u row %u of the product is %.17g, exact %.17Lg", m, i, y[i], t); }
    }
    if (s.size() > m) c.nontrivial(vf::mix(vf::mix(m, s.size()), vf::mixd(1, mu1[0])));
}
// more rows and more elements than 16 bits can count
VF_SUITE(huge, 3, 30) {
    uint32_t m = c.rng.range(65530, 110000), ne = c.rng.range(65530, 150000), far = c.rng.range(2, m / 2); MatCOOSymmetric<NonLinearExpression> coo(m); std::map<std::pair<uint32_t, uint32_t>, std::pair<double, std::vector<std::pair<double, uint32_t>>>> s;
    for (uint32_t i = 0; i < m; i++) for (uint32_t j : {i, i + 1, i + far}) if (j < m && c.rng.chance(.8)) { auto& d = s[{i, j}]; double k = c.rng.range(-9, 9); coo(i, j) += k; d.first = k; for (int q = c.rng.range(0, 3); q > 0; q--) { double v = c.rng.range(-9, 9); uint32_t e = c.rng.range(0, ne - 1); coo(i, j) += NonLinearTerm{v, e}; d.second.push_back({v, e}); } }
    c.sample("m=%u coefficients=%u entries=%zu", m, ne, s.size()); NonLinearMatCSRSymmetric M(coo);
    for (int rep = 0; rep < 2; rep++) {
        std::vector<double> mu(ne), x(m), y(m); for (auto& v : mu) v = c.rng.logu(1e-3, 1e3); for (auto& v : x) v = c.rng.uni(-1, 1); M.evaluate(mu); std::vector<ld> z(m, 0), g(m, 0);
        for (auto& [k, d] : s) { ld v = d.first, mag = fabsl(v); for (auto& [a, e] : d.second) v += (ld)a / mu[e], mag += fabsl(a / mu[e]); auto [i, j] = k; double got = M(i, j); c.check(fabsl(got - v) <= 1e-14L * mag, i == j ? "diagonal" : "off-diagonal", "m=%u entry (%u,%u) evaluates to %.17g, exact %.17Lg", m, i, j, got, v); z[i] += v * x[j]; g[i] += mag; if (i != j) z[j] += v * x[i], g[j] += mag; }
        mult(y, M, x); for (uint32_t i = 0; i < m; i++) c.check(fabsl(y[i] - z[i]) <= 1e-13L * g[i], "product", "m=%u row %u of the product is %.17g, exact %.17Lg", m, i, y[i], z[i]);
    }
    c.nontrivial(vf::mix(m, s.size()));
}
VF_MAIN
