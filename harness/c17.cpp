// C17: gradient and curl are exact for linear potentials.
#include "meshmon.hpp"
using namespace nikfemm;
using namespace vf;
typedef long double ld;

// the field of the plane through the three vertices, in long double, and its attainable accuracy
static void plane(const MeshData& m, int t, const std::vector<double>& z, ld& gx, ld& gy, double& tol) {
    auto& v = m.trianglelist[t].verts; Vector a = m.pointlist[v[0]], b = m.pointlist[v[1]], d = m.pointlist[v[2]];
    ld x1 = (ld)b.x - a.x, y1 = (ld)b.y - a.y, x2 = (ld)d.x - a.x, y2 = (ld)d.y - a.y, z1 = (ld)z[v[1]] - z[v[0]], z2 = (ld)z[v[2]] - z[v[0]], A = x1 * y2 - x2 * y1;
    gx = (z1 * y2 - z2 * y1) / A; gy = (x1 * z2 - x2 * z1) / A;
    // any reasonable formula works with differences (or products) of coordinates and values: bound it by either
    ld h = std::max({hypotl(x1, y1), hypotl(x2, y2), hypotl(x1 - x2, y1 - y2)}), zm = std::max({fabsl(z[v[0]]), fabsl(z[v[1]]), fabsl(z[v[2]])}), pm = std::max({fabsl(a.x), fabsl(a.y), fabsl(b.x), fabsl(b.y), fabsl(d.x), fabsl(d.y)});
    ld g = hypotl(gx, gy), aA = fabsl(A);
    tol = (double)(64 * 1.2e-16L * ((zm * h) / aA + g * h * (h + 0.02L * pm) / aA)) + 1e-300;
}
static void judge(Ctx& c, Mesh<MagnetostaticProp>& m, const std::vector<double>& z0, const char* what, bool affine, double GX, double GY, const std::vector<double>* affslack = nullptr) {
    auto z = z0; auto G = m.computeGrad(z), C = m.computeCurl(z); int n = m.data.numberoftriangles;
    if (z != z0) c.fail("input-changed", "%s: the potential was modified", what);
    c.check((int)G.size() == n && (int)C.size() == n, "size", "%s: %zu gradients, %zu curls for %d triangles", what, G.size(), C.size(), n);
    for (int t = 0; t < n; t++) {
        ld gx, gy; double tol; plane(m.data, t, z, gx, gy, tol);
        double eg = std::hypot(G[t].x - (double)gx, G[t].y - (double)gy), ec = std::hypot(C[t].x - (double)gy, C[t].y + (double)gx);
        c.worst("gradient error / tolerance", eg / tol); c.worst("curl error / tolerance", ec / tol);
        if (!(eg <= tol)) c.fail("gradient", "%s, triangle %d: gradient (%.12g,%.12g), the potential's is (%.12Lg,%.12Lg), tolerance %.3g", what, t, G[t].x, G[t].y, gx, gy, tol);
        if (!(ec <= tol)) c.fail("curl", "%s, triangle %d: curl (%.12g,%.12g), the potential's is (%.12Lg,%.12Lg), tolerance %.3g", what, t, C[t].x, C[t].y, gy, -gx, tol);
        if (affine) {   // rounding of the sampled potential itself: zmax*eps over the smallest height
            auto& v = m.data.trianglelist[t].verts; Vector a = m.data.pointlist[v[0]], b = m.data.pointlist[v[1]], d = m.data.pointlist[v[2]];
            double h = std::max({std::hypot(a.x - b.x, a.y - b.y), std::hypot(a.x - d.x, a.y - d.y), std::hypot(d.x - b.x, d.y - b.y)}), A = std::fabs(tri2(m.data, t)), s = std::max({(*affslack)[v[0]], (*affslack)[v[1]], (*affslack)[v[2]]}) * 4e-16 * h / A + tol;
            double e = std::hypot(G[t].x - GX, G[t].y - GY), f = std::hypot(C[t].x - GY, C[t].y + GX);
            if (!(e <= 8 * s) || !(f <= 8 * s)) c.fail("affine", "%s, triangle %d: gradient (%.12g,%.12g) and curl (%.12g,%.12g) of a potential whose gradient is (%.12g,%.12g)", what, t, G[t].x, G[t].y, C[t].x, C[t].y, GX, GY);
        }
    }
    c.eval(2 * n);
}
static void all_potentials(Ctx& c, Mesh<MagnetostaticProp>& m, const char* what) {
    int n = m.data.numberofpoints, nt = m.data.numberoftriangles; auto& P = m.data.pointlist;
    for (int rep = 0; rep < 3; rep++) {
        double sc = c.rng.chance(.5) ? 1 : c.rng.logu(1e-12, 1e12), gx = sc * c.rng.uni(-1, 1), gy = sc * c.rng.uni(-1, 1), k = c.rng.chance(.4) ? 0 : sc * c.rng.uni(-10, 10);
        if (rep == 1) (c.rng.chance(.5) ? gx : gy) = 0;
        if (rep == 2 && c.rng.chance(.3)) gx = gy = 0;
        std::vector<double> z(n), sl(n); for (int i = 0; i < n; i++) { z[i] = k + gx * P[i].x + gy * P[i].y; sl[i] = std::fabs(k) + std::fabs(gx * P[i].x) + std::fabs(gy * P[i].y); }
        judge(c, m, z, what, true, gx, gy, &sl);
    }
    // linearity on arbitrary potentials
    std::vector<double> u(n), v(n), w(n); double su = c.rng.logu(1e-6, 1e6), a = c.rng.uni(-3, 3), b = c.rng.uni(-3, 3);
    for (int i = 0; i < n; i++) { u[i] = su * c.rng.uni(-1, 1); v[i] = su * c.rng.uni(-1, 1); w[i] = a * u[i] + b * v[i]; }
    judge(c, m, u, what, false, 0, 0); judge(c, m, w, what, false, 0, 0);
    auto Gu = m.computeGrad(u), Gv = m.computeGrad(v), Gw = m.computeGrad(w), Cu = m.computeCurl(u), Cv = m.computeCurl(v), Cw = m.computeCurl(w);
    for (int t = 0; t < nt; t++) {
        double h = 0, A = std::fabs(tri2(m.data, t)); auto& e = m.data.trianglelist[t].verts; double pm = 0; for (int q = 0; q < 3; q++) { Vector p = P[e[q]], r = P[e[(q + 1) % 3]]; h = std::max(h, std::hypot(p.x - r.x, p.y - r.y)); pm = std::max({pm, std::fabs(p.x), std::fabs(p.y)}); }
        double tol = 1e-13 * su * h / A * (1 + h * (h + .02 * pm) / A);
        if (!(std::hypot(Gw[t].x - a * Gu[t].x - b * Gv[t].x, Gw[t].y - a * Gu[t].y - b * Gv[t].y) <= tol) || !(std::hypot(Cw[t].x - a * Cu[t].x - b * Cv[t].x, Cw[t].y - a * Cu[t].y - b * Cv[t].y) <= tol)) c.fail("linearity", "%s, triangle %d: the derivative of a combination is not the combination of the derivatives", what, t);
    }
    c.eval(2 * nt);
}
static void scramble(Ctx& c, MeshData& m) {   // orientation and starting vertex of a triangle must not matter
    for (int t = 0; t < m.numberoftriangles; t++) { auto& v = m.trianglelist[t].verts; if (c.rng.chance(.5)) std::swap(v[1], v[2]); int r = c.rng.range(0, 2); std::rotate(v, v + r, v + 3); }
}
VF_SUITE(soup, 3000, 40000) {   // triangles of every size, shape, position and orientation
    MagnetostaticMesh m; int nt = c.rng.range(1, 60); m.data.numberoftriangles = nt; m.data.numberofpoints = 3 * nt;
    m.data.pointlist = (Vector*)malloc(3 * nt * sizeof(Vector)); m.data.trianglelist = (Elem*)calloc(nt, sizeof(Elem));
    uint64_t h = nt; double far = c.rng.chance(.4) ? c.rng.logu(1, 1e4) : 0;
    for (int t = 0; t < nt; t++) {
        double s = c.rng.chance(.7) ? c.rng.logu(1e-6, 1e6) : c.rng.logu(1e-70, 1e70), asp = c.rng.chance(.5) ? c.rng.uni(.3, 2) : c.rng.logu(1e-5, 1), ph = c.rng.uni(0, 6.3), x0 = s * far * c.rng.uni(-1, 1), y0 = s * far * c.rng.uni(-1, 1), sh = c.rng.uni(-1, 2);
        double X[3] = {0, 1, sh}, Y[3] = {0, 0, asp * c.rng.sgn()}; if (c.rng.chance(.2)) ph = (int)(ph) * 1.5707963267948966;
        for (int q = 0; q < 3; q++) { Vector p(x0 + s * (X[q] * cos(ph) - Y[q] * sin(ph)), y0 + s * (X[q] * sin(ph) + Y[q] * cos(ph))); m.data.pointlist[3 * t + q] = p; m.data.trianglelist[t].verts[q] = 3 * t + q; h = mixd(h, p.x); }
    }
    for (int t = 0; t < nt; t++) if (std::fabs(tri2(m.data, t)) < 1e-12) { auto& v = m.data.trianglelist[t].verts; Vector a = m.data.pointlist[v[0]], b = m.data.pointlist[v[1]]; double L = std::hypot(a.x - b.x, a.y - b.y), r = std::hypot(a.x, a.y); if (std::fabs(tri2(m.data, t)) < 1e-9 * L * (L + r)) c.skip(); }
    c.sample("%d separate triangles, offset up to %.3g sizes", nt, far); all_potentials(c, m, "soup"); c.nontrivial(h);
}
static void mesh(Ctx& c, bool big) {
    SceneOpt o; Scene s = random_scene(c.rng, o); MagnetostaticMesh m; draw_scene(c.rng, m.drawing, s, [](int f) { return MagnetostaticProp{(double)f, {0, 0}, 1e-6, {}}; });
    m.mesh(s.tri_area(tris(c.rng, 4, big ? -95000 : 400)), std::min(33, (int)(s.minang * .4))); bool scr = c.rng.chance(.5); if (scr) scramble(c, m.data);
    c.sample("%s, %d triangles", s.text.c_str(), m.data.numberoftriangles); all_potentials(c, m, "mesh"); c.nontrivial(scene_hash(s)); c.note("triangles of real meshes", m.data.numberoftriangles);
}
VF_SUITE(conduction_mesh, 600, 6000) { mesh(c, false); }
VF_SUITE(big, 5, 12) { mesh(c, true); }   // more vertices than 16 bits can count
VF_SUITE(shell_mesh, 300, 3000) {   // with the exterior shell
    SceneOpt o; o.max_shapes = 3; Scene s = random_scene(c.rng, o); MagnetostaticSimulation sim; draw_scene(c.rng, sim.mesh.drawing, s, [](int f) { return MagnetostaticProp{(double)f, {0, 0}, 1.3e-6, {}}; });
    double r2 = 0; for (auto& f : s.faces) for (auto& p : f.loop) for (auto& g : s.faces) for (auto& q : g.loop) r2 = std::max(r2, std::hypot(p.x - q.x, p.y - q.y));
    sim.generateSystem(c.rng.chance(.3), r2 * r2 / c.rng.logu(20, 1000), 28); if (c.rng.chance(.5)) scramble(c, sim.mesh.data);
    c.sample("%s, with shell, %d triangles", s.text.c_str(), sim.mesh.data.numberoftriangles); all_potentials(c, sim.mesh, "shell"); c.nontrivial(scene_hash(s)); c.note("triangles of shell meshes", sim.mesh.data.numberoftriangles);
}
VF_MAIN
