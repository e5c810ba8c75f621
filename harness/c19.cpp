// C19: mass properties are those of the drawn body.
#include "meshmon.hpp"
using namespace nikfemm;
using namespace vf;
typedef long double ld;

struct Mom { ld A = 0, cx = 0, cy = 0, I0 = 0; };   // area, centroid, polar second moment about the centroid
static Mom moments(const std::vector<Vector>& P) {
    Mom m; Vector o = P[0]; size_t n = P.size(); ld sx = 0, sy = 0, sj = 0;
    for (size_t i = 0; i < n; i++) { ld x0 = (ld)P[i].x - o.x, y0 = (ld)P[i].y - o.y, x1 = (ld)P[(i + 1) % n].x - o.x, y1 = (ld)P[(i + 1) % n].y - o.y, k = x0 * y1 - x1 * y0; m.A += k / 2; sx += (x0 + x1) * k / 6; sy += (y0 + y1) * k / 6; sj += k * (x0 * x0 + x0 * x1 + x1 * x1 + y0 * y0 + y0 * y1 + y1 * y1) / 12; }
    ld gx = sx / m.A, gy = sy / m.A; m.I0 = fabsl(sj - m.A * (gx * gx + gy * gy)); m.A = fabsl(m.A); m.cx = gx + o.x; m.cy = gy + o.y; return m;
}
template <class MESH> void judge(Ctx& c, MESH& mesh, const Scene& s, bool shell, double depth) {
    double sc = 0; for (auto& f : s.faces) for (auto& p : f.loop) sc = std::max({sc, std::fabs(p.x), std::fabs(p.y)});
    for (size_t i = 0; i < s.faces.size(); i++) {
        auto& f = s.faces[i]; Mom m = moments(f.loop); double L = std::sqrt((double)m.A), eps = 1e-9 + 1e-13 * sc / L;
        double x0 = 1e300, x1 = -1e300, y0 = 1e300, y1 = -1e300; for (auto& p : f.loop) x0 = std::min(x0, p.x), x1 = std::max(x1, p.x), y0 = std::min(y0, p.y), y1 = std::max(y1, p.y);
        std::vector<Vector> q{f.marker}; for (int t = 0; t < 40 && q.size() < 3; t++) { Vector p(c.rng.uni(x0, x1), c.rng.uni(y0, y1)); if (face_of(s, p) == (int)i) q.push_back(p); }
        for (auto& p : q) {
            double a = mesh.computeAreaIntegral(p), rho = c.rng.logu(1e-2, 1e5), w = mesh.computeMass(p, rho); Vector g = mesh.computeBarycenter(p);
            c.worst("area error", std::fabs(a / (double)m.A - 1)); c.check(std::fabs(a - (double)m.A) <= eps * (double)m.A, "area", "the area of body %zu is %.12g, computed %.12g", i, (double)m.A, a);
            c.check(close(w, (double)m.A * depth * rho, eps, 0), "mass", "the mass of body %zu is %.12g, computed %.12g", i, (double)m.A * depth * rho, w);
            double ge = std::hypot(g.x - (double)m.cx, g.y - (double)m.cy) / L; c.worst("barycentre error / size", ge); c.check(ge <= eps * 10, "barycentre", "the barycentre of body %zu is (%.12g,%.12g), computed (%.12g,%.12g)", i, (double)m.cx, (double)m.cy, g.x, g.y);
            for (int k = 0; k < 3; k++) {
                Vector o = k == 0 ? Vector((double)m.cx, (double)m.cy) : k == 1 ? Vector(0, 0) : Vector(c.rng.uni(x0 - L, x1 + L), c.rng.uni(y0 - L, y1 + L)); ld d2 = (m.cx - o.x) * (m.cx - o.x) + (m.cy - o.y) * (m.cy - o.y); double I = (double)((m.I0 + m.A * d2) * depth * rho), v = mesh.computeInertiaMoment(p, o, rho);
                c.worst("inertia error", std::fabs(v / I - 1)); c.check(close(v, I, 1e-8 + 1e-12 * sc / L, 0), "inertia", "the moment of inertia of body %zu about (%.6g,%.6g) is %.12g, computed %.12g", i, o.x, o.y, I, v);
            }
        }
    }
    c.note("bodies", s.faces.size()); c.nontrivial(mix(scene_hash(s), shell));
}
static MagnetostaticProp mat(int f) { return {(double)(f + 1), {0, 0}, 1.3e-6, {}}; }
static void plain(Ctx& c, bool big) {
    SceneOpt o; o.scale_lo = 1e-6; o.scale_hi = 1e4; Scene s = random_scene(c.rng, o); CurrentDensityMesh m; m.depth = c.rng.chance(.3) ? 1 : c.rng.logu(1e-4, 1e2);
    draw_scene(c.rng, m.drawing, s, [](int f) { return CurrentDensityProp{(double)f + 1}; });
    if (c.rng.chance(.15)) { auto L = s.faces[c.rng.range(0, s.faces.size() - 1)].loop; if (c.rng.chance(.5)) std::reverse(L.begin(), L.end()); std::rotate(L.begin(), L.begin() + c.rng.range(0, L.size() - 1), L.end()); m.drawing.drawPolygon(L); c.note("bodies drawn twice"); }
    bool ref = c.rng.chance(.15); if (ref) m.drawing.addRefiningPoints();
    m.mesh(s.tri_area(tris(c.rng, 2, big ? -95000 : 300)), ref ? 15 : std::min(33, (int)(s.minang * .4))); if (c.rng.chance(.5)) m.computeEpsilon(); c.sample("%s, %d triangles", s.text.c_str(), m.data.numberoftriangles); judge(c, m, s, false, m.depth);
}
VF_SUITE(plain_mesh, 500, 8000) { plain(c, false); }
VF_SUITE(big, 5, 12) { plain(c, true); }   // more vertices than 16 bits can count
VF_SUITE(open_mesh, 250, 4000) {   // simulations translate the drawing and add an exterior
    SceneOpt o; o.scale_lo = 1e-6; o.scale_hi = 1e3; Scene s = random_scene(c.rng, o); MagnetostaticSimulation sim; sim.mesh.depth = c.rng.chance(.3) ? 1 : c.rng.logu(1e-4, 1e2); draw_scene(c.rng, sim.mesh.drawing, s, mat);
    double d = 0; for (auto& f : s.faces) for (auto& p : f.loop) for (auto& g : s.faces) for (auto& q : g.loop) d = std::max(d, std::hypot(p.x - q.x, p.y - q.y));
    bool ref = c.rng.chance(.3); sim.generateSystem(ref, d * d / c.rng.logu(3, 1000), ref ? 15 : std::min(30, (int)(s.minang * .4))); c.sample("%s, %d triangles with exterior", s.text.c_str(), sim.mesh.data.numberoftriangles); judge(c, sim.mesh, s, true, sim.mesh.depth);
}
VF_SUITE(circles, 60, 800) {   // round bodies, one inside another
    double r = c.rng.logu(1e-3, 1e3), x = r * c.rng.uni(-9, 9), y = r * c.rng.uni(-9, 9); MagnetostaticSimulation sim; int n = c.rng.range(8, 90), k = c.rng.range(8, 40); Scene s;
    auto add = [&](Vector o, double q, int n) { Face f; for (int i = 0; i < n; i++) f.loop.push_back(Vector(o.x + q * cos(2 * PI * (i + 1) / n), o.y + q * sin(2 * PI * (i + 1) / n))); f.area = std::fabs((double)area2d(f.loop)) / 2; sim.mesh.drawing.drawCircle(o, q, n); s.faces.push_back(f); };
    add(Vector(x, y), r, n); add(Vector(x + .1 * r, y - .2 * r), r * c.rng.uni(.3, .6), k); s.faces[0].marker = Vector(x - .85 * r, y + .03 * r); s.faces[1].marker = Vector(x + .13 * r, y - .17 * r); for (int i = 0; i < 2; i++) sim.mesh.drawing.drawRegion(s.faces[i].marker, mat(i));
    sim.generateSystem(c.rng.chance(.3), r * r / c.rng.logu(2, 200), 25); c.sample("circles of %d and %d sides, radius %.3g at (%.3g,%.3g)", n, k, r, x, y); judge(c, sim.mesh, s, true, 1);
}
VF_MAIN
