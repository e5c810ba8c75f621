// C04: every conjugate-gradient variant reaches the requested residual from any starting vector, and agrees with a direct solve.
#include "common.hpp"
#include "dense.hpp"
#include <nikfemm.hpp>
using namespace nikfemm;
using vf::Dense; using vf::ld;
typedef std::vector<double> V;

struct Sys { int n; Dense A; MatCOOSymmetric<double> coo; V b, xs; double lmin, lmax; const char* kind; bool mmatrix; Sys(int n) : n(n), A(n), coo(n) {} };

static void put(Sys& s, int i, int j, double v) { if (i > j) std::swap(i, j); s.coo(i, j) += v; s.A(i, j) += v; if (i != j) s.A(j, i) += v; }

// symmetric positive definite systems with a certified lower bound on the spectrum (Gershgorin, or by construction)
static Sys make(vf::Ctx& c, int nmax, bool need_m) {
    int kind = c.rng.range(0, need_m ? 3 : 4); int n = c.rng.chance(0.15) ? c.rng.range(1, 3) : c.rng.range(1, nmax);
    if (kind == 2) { int k = std::max(1, (int)std::sqrt((double)n)); n = k * k; }
    Sys s(n); s.mmatrix = kind != 4;
    switch (kind) {
        case 0: { s.kind = "random graph Laplacian + mass"; double mass = c.rng.logu(1e-3, 10); for (int i = 0; i < n; i++) put(s, i, i, mass); int e = c.rng.range(0, 4 * n);
            for (int q = 0; q < e; q++) { int i = c.rng.range(0, n - 1), j = c.rng.range(0, n - 1); if (i == j) continue; double w = c.rng.logu(0.1, 10); put(s, i, i, w); put(s, j, j, w); put(s, i, j, -w); } break; }
        case 1: { s.kind = "tridiagonal"; for (int i = 0; i < n; i++) { put(s, i, i, 2 + c.rng.logu(1e-3, 1)); if (i) put(s, i, i - 1, -1); } break; }
        case 2: { s.kind = "2d grid Laplacian with eliminated corner"; int k = (int)std::lround(std::sqrt((double)n)); for (int y = 0; y < k; y++) for (int x = 0; x < k; x++) { int i = y * k + x; put(s, i, i, 0.05); if (x) { put(s, i, i, 1); put(s, i - 1, i - 1, 1); put(s, i, i - 1, -1); } if (y) { put(s, i, i, 1); put(s, i - k, i - k, 1); put(s, i, i - k, -1); } } break; }
        case 3: { s.kind = "diagonal"; for (int i = 0; i < n; i++) put(s, i, i, c.rng.logu(0.05, 50)); break; }
        default: { s.kind = "dense B'B + I"; std::vector<double> B((size_t)n * n); for (auto& v : B) v = c.rng.uni(-1, 1); for (int i = 0; i < n; i++) for (int j = i; j < n; j++) { double v = i == j ? 0.5 : 0; for (int k = 0; k < n; k++) v += B[k * n + i] * B[k * n + j]; put(s, i, j, v); } }
    }
    // eliminated (Dirichlet) rows, as the simulations produce them
    if (c.rng.chance(0.3) && n > 3) { int id = c.rng.range(0, n - 1); for (int j = 0; j < n; j++) if (j != id) { if (s.A(id, j) != 0) { int a = std::min(id, j), b = std::max(id, j); s.coo(a, b) = 0; s.A(id, j) = s.A(j, id) = 0; } } s.coo(id, id) = 1; s.A(id, id) = 1; }
    double scale = c.rng.chance(0.5) ? 1 : c.rng.logu(1e-6, 1e7);
    if (scale != 1) { for (auto& [k, v] : s.coo.elems) v *= scale; for (int i = 0; i < n; i++) for (int j = i; j < n; j++) { auto it = s.coo.elems.find((uint64_t)i << 32 | (uint64_t)j); s.A(i, j) = s.A(j, i) = it == s.coo.elems.end() ? 0.0 : it->second; } }
    // extreme eigenvalues by inverse/power iteration on the dense copy
    std::vector<ld> v(n), w; for (auto& x : v) x = c.rng.uni(-1, 1) + 1e-3; s.lmax = 0; for (int i = 0; i < n; i++) { ld r = 0; for (int j = 0; j < n; j++) r += fabsl(s.A(i, j)); s.lmax = std::max(s.lmax, (double)r); }
    s.lmin = 1e300; for (int q = 0; q < 12; q++) { if (!vf::gauss(s.A, v, w)) c.skip(); ld nv = vf::nrm(v), nw = vf::nrm(w); s.lmin = (double)(nv / nw); v = w; ld k = vf::nrm(v); for (auto& x : v) x /= k; if (n > 40 && q > 3) break; }
    s.b.resize(n); s.xs.resize(n); for (int i = 0; i < n; i++) s.xs[i] = c.rng.chance(0.1) ? 0 : c.rng.uni(-1, 1);
    auto bb = vf::mul(s.A, vf::tol(s.xs)); for (int i = 0; i < n; i++) s.b[i] = (double)bb[i];
    if (c.rng.chance(0.1)) std::fill(s.b.begin(), s.b.end(), 0.0), std::fill(s.xs.begin(), s.xs.end(), 0.0);
    return s;
}
static const char* NAMES[] = {"cg", "jacobi", "ssor", "ichol"};
static void run(int which, const MatCSRSymmetric& A, const V& b, V& x, double tol, uint32_t it, double omega) {
    if (which == 0) conjugateGradientSolver(A, b, x, tol, it);
    else if (which == 1) preconditionedJacobiConjugateGradientSolver(A, b, x, tol, it);
    else if (which == 2) preconditionedSSORConjugateGradientSolver(A, b, x, omega, tol, it);
    else preconditionedIncompleteCholeskyConjugateGradientSolver(A, b, x, tol, it);
}
static ld resid(const Sys& s, const V& x) { auto r = vf::mul(s.A, vf::tol(x)); for (int i = 0; i < s.n; i++) r[i] = s.b[i] - r[i]; return vf::nrm(r); }
static ld anorm_err(const Sys& s, const V& x) { std::vector<ld> e(s.n); for (int i = 0; i < s.n; i++) e[i] = (ld)x[i] - s.xs[i]; auto Ae = vf::mul(s.A, e); ld q = 0; for (int i = 0; i < s.n; i++) q += e[i] * Ae[i]; return q > 0 ? sqrtl(q) : 0; }
static V start(vf::Ctx& c, const Sys& s, int& k) { V x(s.n, 0.0); k = c.rng.range(0, 3); if (k == 1) for (auto& v : x) v = c.rng.uni(-2, 2); if (k == 2) x = s.xs; if (k == 3) for (auto& v : x) v = c.rng.uni(-100, 100); return x; }

static void converge(vf::Ctx& c, int which, int nmax) {
    Sys s = make(c, nmax, which == 3); int k; V x = start(c, s, k); V x0 = x;
    double omega = c.rng.chance(0.5) ? 1.5 : c.rng.uni(0.3, 1.8);
    ld scale = (ld)s.lmax * std::max((ld)vf::nrm(vf::tol(s.xs)), vf::nrm(vf::tol(x0))) + vf::nrm(vf::tol(s.b));
    if (scale == 0) scale = s.lmax;
    double tol = (double)scale * c.rng.logu(1e-11, 1e-4);
    c.sample("%s on %s n=%d cond~%.1e start=%d tol=%.2e omega=%.2f", NAMES[which], s.kind, s.n, s.lmax / s.lmin, k, tol, omega);
    MatCSRSymmetric A(s.coo); MatCSRSymmetric A0(A); V b0 = s.b;
    run(which, A, s.b, x, tol, 60 * s.n + 500, omega);
    c.check(x.size() == (size_t)s.n, "size", "solution resized");
    for (int i = 0; i < s.n; i++) c.check(std::isfinite(x[i]), "not-finite", "%s n=%d (%s) start=%d: x[%d]=%g", NAMES[which], s.n, s.kind, k, i, x[i]);
    ld r = resid(s, x); ld slack = scale * 1e-13L * (s.n + 20);
    c.worst("residual/tolerance", (double)(r / tol));
    c.check(r <= tol * 1.0001L + slack, "residual", "%s n=%d (%s) start=%d: residual %.3Lg, requested %.3g (scale %.3Lg)", NAMES[which], s.n, s.kind, k, r, tol, scale);
    std::vector<ld> e(s.n); for (int i = 0; i < s.n; i++) e[i] = (ld)x[i] - s.xs[i];
    c.check(vf::nrm(e) <= (tol * 1.01L + slack) / s.lmin * 1.5L, "direct-solve", "%s n=%d (%s): differs from the direct solution by %.3Lg", NAMES[which], s.n, s.kind, vf::nrm(e));
    c.check(A.val == A0.val && A.diag == A0.diag && A.col_ind == A0.col_ind && A.row_ptr == A0.row_ptr && s.b == b0, "inputs-modified", "%s changed the matrix or the right-hand side", NAMES[which]);
    // a solution that already meets the tolerance stays within it
    V y = x; run(which, A, s.b, y, std::max(tol * 2, (double)slack * 4), 60 * s.n + 500, omega);
    bool fin = true; for (auto v : y) fin = fin && std::isfinite(v);
    c.check(fin && resid(s, y) <= std::max(tol * 2, (double)slack * 4) * 1.01L + slack, "warm-start", "%s n=%d (%s): restarting from a converged solution gives residual %.3Lg", NAMES[which], s.n, s.kind, resid(s, y));
    if (s.n > 2) c.nontrivial(vf::mixd(vf::mix(which, s.n), s.b[0] + x0[0]));
    c.note(vf::fmt("solver %s", NAMES[which]).c_str());
}
VF_SUITE(cg, 250, 5000) { converge(c, 0, 60); }
VF_SUITE(jacobi, 250, 5000) { converge(c, 1, 60); }
VF_SUITE(ssor, 300, 6000) { converge(c, 2, 60); }
VF_SUITE(ichol, 200, 3000) { converge(c, 3, 26); }

// conjugate gradients terminate: on well conditioned systems n steps suffice (a few more in floating point),
// and the energy-norm error never grows with the number of permitted iterations
VF_SUITE(termination, 250, 4000) {
    int which = c.rng.range(0, 3); Sys s = make(c, 14, which == 3); int k; V x0 = start(c, s, k); double omega = c.rng.uni(0.6, 1.7);
    if (s.lmax / s.lmin > 1e5) c.skip();
    MatCSRSymmetric A(s.coo); ld prev = -1; ld scale = (ld)s.lmax * (vf::nrm(vf::tol(s.xs)) + vf::nrm(vf::tol(x0))) + vf::nrm(vf::tol(s.b)); if (scale == 0) c.skip();
    double tol = (double)scale * 1e-9; ld floorE = scale * 1e-11L / sqrtl(s.lmin);
    c.sample("%s n=%d (%s) start=%d", NAMES[which], s.n, s.kind, k);
    for (int it = 0; it <= 2 * s.n + 6; it++) {
        V x = x0; run(which, A, s.b, x, tol, it, omega); ld e = anorm_err(s, x);
        if (it == 0) c.check(x == x0, "zero-iterations", "%s moved with zero iterations allowed", NAMES[which]);
        c.check(std::isfinite((double)e), "not-finite", "%s not finite after %d iterations", NAMES[which], it);
        if (prev >= 0) c.check(e <= prev * (1 + 1e-9L) + floorE, "energy-error-grows", "%s n=%d (%s) start=%d: energy error grows from %.6Lg to %.6Lg at iteration %d", NAMES[which], s.n, s.kind, k, prev, e, it);
        prev = e; c.note("iterations observed");
        if (it == 2 * s.n + 6) c.check(resid(s, x) <= tol * 2 + scale * 1e-11L, "finite-termination", "%s n=%d (%s): after %d iterations the residual is %.3Lg of %.3g", NAMES[which], s.n, s.kind, it, resid(s, x), tol);
    }
    if (s.n > 2) c.nontrivial(vf::mixd(vf::mix(which, s.n), s.b[0] + x0[0]));
}

// the SSOR preconditioner is the inverse of (D+wL)D^-1(D+wU)/(w(2-w))
VF_SUITE(ssor_operator, 250, 4000) {
    Sys s = make(c, 24, false); double w = c.rng.uni(0.1, 1.9); MatCSRSymmetric A(s.coo);
    V r(s.n), z(s.n, 3.0); for (auto& v : r) v = c.rng.uni(-1, 1); V r0 = r;
    multSSORPreconditioner(A, z, r, w);
    c.check(r == r0, "operand-modified", "the preconditioner changed its operand");
    Dense L(s.n), U(s.n); for (int i = 0; i < s.n; i++) for (int j = 0; j < s.n; j++) { L(i, j) = i == j ? s.A(i, i) : j < i ? w * s.A(i, j) : 0; U(i, j) = i == j ? s.A(i, i) : j > i ? w * s.A(i, j) : 0; }
    auto t = vf::mul(U, vf::tol(z)); for (int i = 0; i < s.n; i++) t[i] /= s.A(i, i); t = vf::mul(L, t); ld nz = vf::nrm(vf::tol(z)), err = 0;
    for (int i = 0; i < s.n; i++) { ld d = t[i] / (w * (2 - w)) - r[i]; err += d * d; }
    c.check(sqrtl(err) <= 1e-10L * (vf::nrm(vf::tol(r)) + s.lmax * nz / (w * (2 - w))), "ssor-operator", "n=%d w=%.3f (%s): M z differs from r by %.3Lg", s.n, w, s.kind, sqrtl(err));
    if (s.n > 2) c.nontrivial(vf::mixd(s.n, r[0]));
}
// on a full pattern the incomplete factorisation is complete: the returned inverse factor reproduces A^-1
VF_SUITE(ichol_operator, 150, 2000) {
    int n = c.rng.range(1, 12); Sys s(n); std::vector<double> B((size_t)n * n); for (auto& v : B) v = c.rng.uni(-1, 1);
    for (int i = 0; i < n; i++) for (int j = i; j < n; j++) { double v = i == j ? 1.0 : 0; for (int k = 0; k < n; k++) v += B[k * n + i] * B[k * n + j]; put(s, i, j, v); }
    MatCSRSymmetric A(s.coo); MatCSRSymmetric A0(A); MatCSRLowerTri L = incompleteCholeskyDecomposition(A);
    c.check(A.val == A0.val && A.diag == A0.diag, "inputs-modified", "the factorisation changed the matrix");
    V r(n), t(n), z(n); for (auto& v : r) v = c.rng.uni(-1, 1); mult(t, L, r); mult(z, (MatCSRUpperTri)L, t);
    std::vector<ld> x; vf::gauss(s.A, vf::tol(r), x); ld e = 0; for (int i = 0; i < n; i++) e = std::max(e, fabsl(x[i] - z[i]));
    c.check(e <= 1e-9L * (1 + vf::nrm(x)), "ichol-operator", "n=%d: the complete factorisation reproduces A^-1 r only to %.3Lg", n, e);
    if (n > 2) c.nontrivial(vf::mixd(n, r[0]));
}
// larger finite-difference systems, the size the simulations produce
VF_SUITE(large, 8, 80) {
    int which = c.idx % 3; int k = c.rng.range(25, 60), n = k * k; MatCOOSymmetric<double> coo(n); double sc = c.rng.logu(1e-3, 1e7); V xs(n), b(n), x(n, 0.0);
    for (int y = 0; y < k; y++) for (int x = 0; x < k; x++) { int i = y * k + x; coo(i, i) += 0.01 * sc; if (x) { coo(i, i) += sc; coo(i - 1, i - 1) += sc; coo(i - 1, i) -= sc; } if (y) { coo(i, i) += sc; coo(i - k, i - k) += sc; coo(i - k, i) -= sc; } }
    for (auto& v : xs) v = c.rng.uni(-1, 1); std::vector<ld> bb(n, 0); for (auto& [key, v] : coo.elems) { uint32_t i = key >> 32, j = (uint32_t)key; bb[i] += (ld)v * xs[j]; if (i != j) bb[j] += (ld)v * xs[i]; }
    for (int i = 0; i < n; i++) b[i] = (double)bb[i]; double tol = sc * 1e-8; MatCSRSymmetric A(coo);
    c.sample("%s n=%d scale=%.1e", NAMES[which], n, sc); run(which, A, b, x, tol, 20000, 1.5);
    double worst = 0; for (int i = 0; i < n; i++) worst = std::max(worst, std::fabs(x[i] - xs[i])); c.worst("large system error", worst);
    c.check(worst <= 1e-6, "direct-solve", "%s n=%d: error %.3g", NAMES[which], n, worst); c.nontrivial(vf::mixd(n, sc));
}
// more unknowns than 16 bits can count
VF_SUITE(huge, 3, 30) {
    int which = c.idx % 3; int k = c.rng.range(257, 330), n = k * k; MatCOOSymmetric<double> coo(n); double sc = c.rng.logu(1e-3, 1e7); V xs(n), b(n), x(n, 0.0);
    for (int y = 0; y < k; y++) for (int x = 0; x < k; x++) { int i = y * k + x; coo(i, i) += 0.1 * sc; if (x) { coo(i, i) += sc; coo(i - 1, i - 1) += sc; coo(i - 1, i) -= sc; } if (y) { coo(i, i) += sc; coo(i - k, i - k) += sc; coo(i - k, i) -= sc; } }
    for (auto& v : xs) v = c.rng.uni(-1, 1); std::vector<ld> bb(n, 0); for (auto& [key, v] : coo.elems) { uint32_t i = key >> 32, j = (uint32_t)key; bb[i] += (ld)v * xs[j]; if (i != j) bb[j] += (ld)v * xs[i]; }
    for (int i = 0; i < n; i++) b[i] = (double)bb[i]; double tol = sc * 1e-8; MatCSRSymmetric A(coo);
    c.sample("%s n=%d scale=%.1e", NAMES[which], n, sc); run(which, A, b, x, tol, 20000, 1.5);
    double worst = 0; for (int i = 0; i < n; i++) worst = std::max(worst, std::fabs(x[i] - xs[i])); c.worst("large system error", worst);
    c.check(worst <= 1e-6, "direct-solve", "%s n=%d: error %.3g", NAMES[which], n, worst); c.nontrivial(vf::mixd(n, sc));
}
// a component without any source (floating conductor) stays finite and untouched: singular but consistent systems
VF_SUITE(floating_block, 100, 1000) {
    int which = c.rng.range(0, 2); int n1 = c.rng.range(2, 20), n2 = c.rng.range(2, 20), n = n1 + n2; MatCOOSymmetric<double> coo(n); V b(n, 0.0), x(n, 0.0);
    for (int i = 0; i < n; i++) coo(i, i) = 0;
    auto edge = [&](int i, int j, double w) { coo(i, i) += w; coo(j, j) += w; coo(std::min(i, j), std::max(i, j)) -= w; };
    for (int i = 1; i < n1; i++) edge(i, c.rng.range(0, i - 1), c.rng.uni(0.5, 2)); for (int i = n1 + 1; i < n; i++) edge(i, c.rng.range(n1, i - 1), c.rng.uni(0.5, 2));
    System<double> sy(coo, b); sy.addDirichletBoundaryCondition(0, c.rng.uni(1, 5)); MatCSRSymmetric A(sy.A); run(which, A, sy.b, x, 1e-10, 5000, 1.5);
    for (int i = 0; i < n; i++) { c.check(std::isfinite(x[i]), "not-finite", "%s: x[%d] = %g", NAMES[which], i, x[i]); if (i >= n1) c.check(std::fabs(x[i]) < 1e-9, "floating-block-moved", "%s: floating node %d has %g", NAMES[which], i, x[i]); else c.check(std::fabs(x[i] - sy.b[0]) < 1e-6, "equipotential", "%s: node %d has %g instead of %g", NAMES[which], i, x[i], sy.b[0]); }
    c.nontrivial(vf::mix(n1, n2) + c.idx);
}
VF_MAIN
