// C02: the compressed sparse matrix is the symmetric matrix that was assembled.
#include "common.hpp"
#include "dense.hpp"
#include <nikfemm.hpp>
using namespace nikfemm;
using vf::Dense; using vf::ld;

struct Gen { uint32_t m; std::map<std::pair<uint32_t, uint32_t>, double> e; bool full_diag; };

// a random upper-triangular assembly: entries are accumulated in random order and in several pieces
static Gen assemble(vf::Ctx& c, MatCOOSymmetric<double>& coo, uint32_t m, double density, int diag_mode, bool ints, bool zeros) {
    Gen g; g.m = m; g.full_diag = diag_mode == 0;
    std::vector<std::pair<uint32_t, uint32_t>> pos;
    for (uint32_t i = 0; i < m; i++) for (uint32_t j = i; j < m; j++) {
        if (i == j ? (diag_mode == 0 || (diag_mode == 1 && c.rng.chance(0.5))) : c.rng.chance(density)) pos.push_back({i, j});
    }
    c.rng.shuffle(pos);
    std::vector<std::pair<std::pair<uint32_t, uint32_t>, double>> adds;
    for (auto& p : pos) {
        int k = c.rng.range(1, 4);
        for (int q = 0; q < k; q++) adds.push_back({p, zeros && c.rng.chance(0.3) ? 0.0 : ints ? (double)c.rng.range(-50, 50) : c.rng.uni(-1, 1) * c.rng.logu(1e-3, 1e3)});
    }
    c.rng.shuffle(adds);
    for (auto& a : adds) { coo(a.first.first, a.first.second) += a.second; g.e[a.first] += a.second; }
    return g;
}
static double at(const Gen& g, uint32_t i, uint32_t j) { if (i > j) std::swap(i, j); auto it = g.e.find({i, j}); return it == g.e.end() ? 0.0 : it->second; }

static void verify(vf::Ctx& c, const Gen& g, MatCOOSymmetric<double>& coo, bool access_all) {
    MatCSRSymmetric S(coo); MatCSRLowerTri L(coo); MatCSRUpperTri U(coo);
    c.check(S.m == g.m, "dimension", "matrix of %u rows reports %u", g.m, S.m);
    auto cmp_all = [&](const BaseCSR& M, const char* key) {
        for (uint32_t i = 0; i < g.m; i++) for (uint32_t j = 0; j < g.m; j++) {
            double v = M(i, j);
            c.check(v == at(g, i, j), key, "m=%u entry (%u,%u) is %.17g, assembled %.17g", g.m, i, j, v, at(g, i, j));
        }
    };
    if (access_all) {
        cmp_all(S, "access");
        MatCSRSymmetric S2(S); cmp_all(S2, "copy");
        MatCSRUpperTri U2(S); cmp_all(U2, "copy-convert");
        MatCSRSymmetric S3; S3 = S; cmp_all(S3, "assign");
    } else for (int q = 0; q < 3000; q++) {
        uint32_t i = c.rng.range(0, g.m - 1), j = c.rng.range(0, g.m - 1);
        if (q & 1) { auto it = g.e.begin(); std::advance(it, c.rng.range(0, std::min<long>(g.e.size() - 1, 2000))); i = it->first.second; j = it->first.first; }
        c.check(S(i, j) == at(g, i, j), "access", "m=%u entry (%u,%u) is %.17g, assembled %.17g", g.m, i, j, S(i, j), at(g, i, j));
    }
    // products, against long double accumulation over the assembled map
    for (int rep = 0; rep < 3; rep++) {
        std::vector<double> x(g.m), y(g.m, 7.5);
        for (auto& v : x) v = rep == 0 ? (double)c.rng.range(-9, 9) : c.rng.uni(-1, 1);
        std::vector<double> x0 = x;
        std::vector<ld> s(g.m, 0), l(g.m, 0), u(g.m, 0), sa(g.m, 0);
        for (auto& [k, v] : g.e) {
            auto [i, j] = k; ld lv = v;
            if (i == j) { s[i] += lv * x[i]; l[i] += lv * x[i]; u[i] += lv * x[i]; sa[i] += fabsl(lv * x[i]); }
            else { s[i] += lv * x[j]; s[j] += lv * x[i]; u[i] += lv * x[j]; l[j] += lv * x[i]; sa[i] += fabsl(lv * x[j]); sa[j] += fabsl(lv * x[i]); }
        }
        const double eps = 2.3e-16;
        auto cmp = [&](const std::vector<double>& y, const std::vector<ld>& r, const char* key) {
            c.check(y.size() == g.m, "product-size", "result resized to %zu for m=%u", y.size(), g.m);
            for (uint32_t i = 0; i < g.m; i++)
                c.check(std::fabs((double)(y[i] - r[i])) <= (double)(sa[i] * eps * (g.m + 4)), key, "m=%u row %u: product %.17g, exact %.17Lg", g.m, i, y[i], r[i]);
        };
        mult(y, S, x); cmp(y, s, "mult-symmetric");
        std::fill(y.begin(), y.end(), -3.25);
        mult(y, L, x); cmp(y, l, "mult-lower");
        std::fill(y.begin(), y.end(), 1e300);
        mult(y, U, x); cmp(y, u, "mult-upper");
        c.check(x == x0, "operand-modified", "the vector operand was changed");
    }
    // building the compressed form leaves the assembled form alone
    c.check(coo.m == g.m, "source-modified", "source dimension changed");
    for (auto& [k, v] : g.e) { auto it = coo.elems.find((uint64_t)k.first << 32 | k.second); c.check(it != coo.elems.end() && it->second == v, "source-modified", "assembled entry (%u,%u) changed", k.first, k.second); }
}

VF_SUITE(small, 1500, 30000) {
    uint32_t m = c.rng.range(1, 24); int dm = c.rng.range(0, 3); if (dm == 3) dm = 0; bool ints = c.rng.chance(0.7);
    double dens = c.rng.chance(0.2) ? 1.0 : c.rng.chance(0.2) ? 0.0 : c.rng.uni(0, 0.6);
    MatCOOSymmetric<double> coo(m); Gen g = assemble(c, coo, m, dens, dm, ints, c.rng.chance(0.3));
    c.sample("m=%u density=%.2f diagonal=%s entries=%zu", m, dens, dm == 0 ? "all" : dm == 1 ? "some" : "none", g.e.size());
    verify(c, g, coo, true);
    uint64_t h = m; for (auto& [k, v] : g.e) h = vf::mixd(vf::mix(h, k.first * 1000003ull + k.second), v);
    if (g.e.size() > m) c.nontrivial(h); 
    c.note(dm == 0 ? "matrices with full diagonal" : "matrices with missing diagonal entries");
}

VF_SUITE(large, 12, 200) {
    uint32_t m = c.rng.range(500, 9000);
    MatCOOSymmetric<double> coo(m); Gen g; g.m = m;
    int deg = c.rng.range(1, 8); double pd = c.rng.chance(0.5) ? 1.0 : 0.9;
    for (uint32_t i = 0; i < m; i++) {
        if (c.rng.chance(pd)) { double v = c.rng.uni(-1, 1); coo(i, i) += v; g.e[{i, i}] += v; }
        for (int k = 0; k < deg; k++) { uint32_t j = c.rng.range(0, m - 1); if (j == i) continue; double v = c.rng.uni(-1, 1); coo(std::min(i, j), std::max(i, j)) += v; g.e[{std::min(i, j), std::max(i, j)}] += v; }
    }
    c.sample("m=%u entries=%zu", m, g.e.size());
    verify(c, g, coo, false); c.nontrivial(vf::mix(m, g.e.size()));
}

// more rows than 16 bits can count, more entries than 18 can
VF_SUITE(huge, 3, 24) {
    uint32_t m = c.rng.range(65530, 140000); MatCOOSymmetric<double> coo(m); Gen g; g.m = m; uint32_t far = c.rng.range(2, m / 2);
    for (uint32_t i = 0; i < m; i++) for (uint32_t j : {i, i + 1, i + far}) if (j < m && (i == j || c.rng.chance(.8))) { double v = c.rng.uni(-1, 1); coo(i, j) += v; g.e[{i, j}] += v; }
    c.sample("m=%u entries=%zu", m, g.e.size()); verify(c, g, coo, false); c.nontrivial(vf::mix(m, g.e.size()));
}

// element access of the assembled form: upper triangle only, and rejection leaves it unchanged
VF_SUITE(lower_rejected, 300, 3000) {
    uint32_t m = c.rng.range(2, 20); MatCOOSymmetric<double> coo(m); Gen g = assemble(c, coo, m, 0.5, 0, true, false);
    uint32_t i = c.rng.range(1, m - 1), j = c.rng.range(0, i - 1);
    c.check(vf::throws_std([&] { coo(i, j) = 99; }), "lower-accepted", "writing entry (%u,%u) below the diagonal was accepted", i, j);
    verify(c, g, coo, true); c.nontrivial(vf::mix(i, j * 64 + m));
}

// reading an unset entry of the assembled form yields zero and does not change the matrix's values
VF_SUITE(unset_reads_zero, 200, 2000) {
    uint32_t m = c.rng.range(2, 20); MatCOOSymmetric<double> coo(m); Gen g = assemble(c, coo, m, 0.2, c.rng.range(0, 2), true, false);
    for (int q = 0; q < 10; q++) { uint32_t i = c.rng.range(0, m - 1), j = c.rng.range(i, m - 1); double v = coo(i, j); c.check(v == at(g, i, j), "coo-access", "(%u,%u) reads %g, assembled %g", i, j, v, at(g, i, j)); g.e[{i, j}] += 0; }
    verify(c, g, coo, true); c.nontrivial(vf::mix(m, g.e.size()));
}

VF_SUITE(write_file, 60, 600) {
    uint32_t m = c.rng.range(1, 16); MatCOOSymmetric<double> coo(m); Gen g = assemble(c, coo, m, 0.5, c.rng.range(0, 2), false, true);
    MatCSRSymmetric S(coo); std::string f = vf::fmt("mat_%ld.txt", c.idx);
    S.write_to_file(f.c_str());
    FILE* fp = fopen(f.c_str(), "r"); c.check(fp != nullptr, "file-missing", "no file written");
    std::vector<std::vector<double>> rows; char* line = nullptr; size_t cap = 0;
    while (getline(&line, &cap, fp) > 0) { std::vector<double> r; char* p = line; char* e; for (;;) { double v = strtod(p, &e); if (e == p) break; r.push_back(v); p = e; } rows.push_back(r); }
    free(line); fclose(fp); unlink(f.c_str());
    c.check(rows.size() == m, "file-rows", "%zu rows written for m=%u", rows.size(), m);
    for (uint32_t i = 0; i < m; i++) { c.check(rows[i].size() == m, "file-cols", "row %u has %zu columns of %u", i, rows[i].size(), m); for (uint32_t j = 0; j < m; j++) c.check(rows[i][j] == at(g, i, j), "file-value", "(%u,%u) written as %.17g, assembled %.17g", i, j, rows[i][j], at(g, i, j)); }
    c.check(vf::throws_std([&] { S.write_to_file("/nonexistent-dir/x/y"); }), "unwritable-file", "an unwritable path was silently accepted");
    c.nontrivial(vf::mix(m, g.e.size() + 1000 * c.idx));
}
VF_MAIN
