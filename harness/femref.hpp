// Independent reference assemblies in long double.
#pragma once
#include "meshmon.hpp"
namespace vf {
typedef long double ld;
struct SymRef { std::map<std::pair<int, int>, ld> a; std::vector<ld> mag;   // upper entries; magnitude of each row's pieces
    explicit SymRef(int n = 0) : mag(n, 0) {}
    void add(int i, int j, ld v) { a[{std::min(i, j), std::max(i, j)}] += v; }
    std::vector<ld> mult(const std::vector<double>& x) const { std::vector<ld> y(mag.size(), 0); for (auto& [k, v] : a) { y[k.first] += v * x[k.second]; if (k.first != k.second) y[k.second] += v * x[k.first]; } return y; } };
// stiffness of one linear triangle with unit coefficient: K[a][b] = integral grad(phi_a).grad(phi_b)
inline void tri_stiffness(Vector p0, Vector p1, Vector p2, ld K[3][3]) {
    ld x[3] = {p0.x, p1.x, p2.x}, y[3] = {p0.y, p1.y, p2.y}, A2 = (x[1] - x[0]) * (y[2] - y[0]) - (y[1] - y[0]) * (x[2] - x[0]), aa = fabsl(A2);
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { int i1 = (i + 1) % 3, i2 = (i + 2) % 3, j1 = (j + 1) % 3, j2 = (j + 2) % 3; K[i][j] = ((y[i1] - y[i2]) * (y[j1] - y[j2]) + (x[i2] - x[i1]) * (x[j2] - x[j1])) / (2 * aa); }
}
template <class MD, class F> SymRef stiffness_ref(const MD& m, F coef) {
    SymRef R(m.numberofpoints);
    for (int t = 0; t < m.numberoftriangles; t++) { auto& v = m.trianglelist[t].verts; ld K[3][3]; tri_stiffness(m.pointlist[v[0]], m.pointlist[v[1]], m.pointlist[v[2]], K); ld k = coef(t); ld h = 0; for (int i = 0; i < 3; i++) h += K[i][i]; h = 1 + 1e-6L * h;   /* slivers: the rounding of their area */ for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { if (j >= i) R.add(v[i], v[j], k * K[i][j]); R.mag[v[i]] += fabsl(k * K[i][j]) * h; } }
    return R;
}
// materials from the generator's faces, not from the mesh's own attributes
template <class MD, class F> SymRef conduction_ref(Ctx& c, const Scene& s, const MD& m, double depth, F sigma) {
    return stiffness_ref(m, [&](int t) -> ld { int f = face_of_tri(s, m, t); if (f < 0) c.fail("triangle-outside", "triangle %d lies outside the drawing", t); return (ld)sigma(f) * depth; });
}
template <class MAT> void compare_matrix(Ctx& c, const MAT& M, const SymRef& R, int n, const char* what, double rtol = 1e-9) {
    for (auto& [k, v] : R.a) {
        double x = M(k.first, k.second), y = M(k.second, k.first), tol = rtol * (double)std::max(R.mag[k.first], R.mag[k.second]);
        if (!(std::fabs(x - (double)v) <= tol)) c.fail("matrix-entry", "%s matrix entry (%d,%d) is %.15g, the assembly gives %.15Lg (tolerance %.3g)", what, k.first, k.second, x, v, tol);
        if (x != y) c.fail("matrix-symmetry", "%s matrix entries (%d,%d) and (%d,%d) differ: %.17g, %.17g", what, k.first, k.second, k.second, k.first, x, y);
        c.worst("matrix entry error relative to row", std::fabs(x - (double)v) / (double)std::max(R.mag[k.first], R.mag[k.second]));
    }
    for (int rep = 0; rep < 2; rep++) {   // entries that should not be there show up in products
        std::vector<double> x(n), y(n); for (auto& e : x) e = c.rng.uni(-1, 1); nikfemm::mult(y, M, x); auto z = R.mult(x); for (int i = 0; i < n; i++) if (!(std::fabs(y[i] - (double)z[i]) <= rtol * 10 * (double)R.mag[i])) c.fail("matrix-product", "%s matrix: row %d times a random vector gives %.15g, the assembly gives %.15Lg", what, i, y[i], z[i]);
    }
    c.eval(R.a.size() * 2 + 2 * n);
}
}
