// C11: the open boundary closes the domain without gaps.
#include "shell.hpp"
using namespace nikfemm;
using namespace vf;

static MagnetostaticProp mat(int f) { return MagnetostaticProp{(double)(f % 3 - 1) * (f + 1), {f % 4 == 1 ? f * 1. : 0., f % 4 == 2 ? f * -1. : 0.}, 1.3e-6 * (1 + f % 4), {}}; }
static void run(Ctx& c, MagnetostaticSimulation& sim, const Scene& s, bool refine, double amax, int q, bool refmag) {
    std::vector<Vector> before = sim.mesh.drawing.points;
    auto sys = sim.generateSystem(refine, amax, q, refmag); audit_epsilon(c, sim.mesh); auto& m = sim.mesh.data; double R = sim.mesh.radius; Vector o = sim.mesh.center;
    auto info = audit_shell(c, sim.mesh, [&](int t) { return is_air(sim.mesh.drawing.getRegionPtrFromId(m.triangleattributelist[t])); });
    // the boundary encloses the drawing with margin
    std::vector<Vector> rim; for (int i : info.rim) rim.push_back(m.pointlist[i]);
    double sc = std::hypot(o.x, o.y) + R;
    for (auto& p : before) { Vector w = p - o; double d = std::hypot(w.x, w.y); if (!(d <= R * .95) || !inside(rim, w) || loopdist(w, rim) < R * .01) c.fail("margin", "drawn point (%g,%g) is %g radii from the centre of the boundary", p.x, p.y, d / R); }
    double far = 0; for (auto& p : before) for (auto& r : before) far = std::max(far, std::hypot(p.x - r.x, p.y - r.y)); if (before.size()) c.check(R <= 4 * far, "radius", "boundary radius %g around a drawing of diameter %g", R, far);
    // every drawn vertex is a mesh vertex, moved by the centre; every inner triangle has the material of its face
    for (auto& f : s.faces) for (auto& p : f.loop) { bool hit = false; for (int i = 0; i < m.numberofpoints && !hit; i++) hit = std::hypot(m.pointlist[i].x + o.x - p.x, m.pointlist[i].y + o.y - p.y) <= 1e-12 * sc; if (!hit) c.fail("drawn-vertex", "drawn vertex (%g,%g) is not in the mesh", p.x, p.y); }
    double big = 0;
    for (int t = 0; t < m.numberoftriangles; t++) if (!info.outer_tri[t]) {
        Vector b = triB(m, t); b = Vector(b.x + o.x, b.y + o.y); int f = face_of_tri(s, m, t, o); auto* p = sim.mesh.drawing.getRegionPtrFromId(m.triangleattributelist[t]); big = std::max(big, std::fabs(tri2(m, t)) / 2);
        if (f < 0 ? !is_air(p) : !(p->J == mat(s.faces[f].mat).J && p->mu == mat(s.faces[f].mat).mu)) c.fail("inner-material", "inner triangle %d at (%g,%g) has J=%g mu=%g, face %d", t, b.x, b.y, p->J, p->mu, f);
    }
    c.worst("largest inner triangle / bound", big / amax);
    if (!(big <= amax * (1 + 1e-9))) c.fail("inner-area-bound", "an inner triangle has area %g, requested at most %g", big, amax);
    // the far-field reference
    NonLinearMatCSRSymmetric M(sys.A); std::vector<double> mu(m.numberoftriangles); for (auto& v : mu) v = c.rng.uni(.5, 2); M.evaluate(mu); int n = m.numberofpoints;
    c.check((int)sys.b.size() == n, "size", "%zu equations for %d vertices", sys.b.size(), n);
    std::vector<std::pair<double, int>> ds; for (int i = 0; i < n; i++) ds.push_back({-std::hypot(m.pointlist[i].x, m.pointlist[i].y), i}); std::sort(ds.begin(), ds.end());
    std::vector<double> x(n), y(n), y2(n); for (auto& v : x) v = c.rng.uni(1, 2); mult(y, M, x); auto x2 = x; for (auto& v : x2) v = c.rng.uni(1, 2);
    int fixed = 0; double last = -1;
    for (int r = 0; r < n; r++) { int i = ds[r].second; if (M(i, i) == 1 && std::fabs(y[i] - x[i]) <= 1e-12 && sys.b[i].evaluate(mu) == 0) { auto x3 = x2; x3[i] = x[i]; fixed++; last = -ds[r].first; } }
    c.check(fixed >= 1 && fixed <= 3, "reference", "%d potentials are fixed to zero", fixed);
    int further = 0; for (auto& [d, i] : ds) if (-d > last * (1 + 1e-9)) further++;
    c.check(further < 3 && last > R, "reference-far", "a fixed vertex is %g radii away, %d vertices are farther", last / R, further);
}
static void scene(Ctx& c, bool big) {
    SceneOpt o; o.max_shapes = 5; o.scale_lo = 1e-6; o.scale_hi = 1e3; Scene s = random_scene(c.rng, o); MagnetostaticSimulation sim; draw_scene(c.rng, sim.mesh.drawing, s, [](int f) { return mat(f); });
    // draw_scene passes the face index: give the face's own material
    double d = 0; for (auto& f : s.faces) for (auto& p : f.loop) for (auto& g : s.faces) for (auto& q : g.loop) d = std::max(d, std::hypot(p.x - q.x, p.y - q.y));
    for (size_t i = 0; i < s.faces.size(); i++) s.faces[i].mat = i;
    double amax = big ? d * d / 25000 : c.rng.chance(.15) ? d * d * c.rng.logu(.3, 1e3) : d * d / c.rng.logu(3, c.thorough ? 5000 : 1200); int q = std::min(33, (int)(s.minang * .4)); if (c.rng.chance(.4)) q = c.rng.range(0, q); bool ref = c.rng.chance(.3), rm = c.rng.chance(.3) && few_refining_points(s, amax); if (ref) q = std::min(q, 20);
    c.sample("%s, area bound %.3g of the diameter squared, angle %d, refine %d", s.text.c_str(), amax / d / d, q, ref);
    if (rm) c.note("refined around magnets"); run(c, sim, s, ref, amax, q, rm); c.nontrivial(scene_hash(s));
}
VF_SUITE(scenes, 2000, 20000) { scene(c, false); }
VF_SUITE(big, 5, 12) { scene(c, true); }   // more vertices than 16 bits can count
VF_SUITE(round, 500, 5000) {   // highly symmetric drawings: the exterior has a vertex at or near the mirrored infinity
    Scene s; MagnetostaticSimulation sim; int n = c.rng.range(3, 40); double r = c.rng.chance(.5) ? 1 : c.rng.logu(1e-6, 1e3), x = c.rng.chance(.5) ? 0 : r * c.rng.uni(-5, 5), y = c.rng.chance(.5) ? 0 : r * c.rng.uni(-5, 5); int k = c.rng.range(0, 2);
    Face f; if (k == 0) { for (int i = 0; i < n; i++) f.loop.push_back(Vector(x + r * cos(2 * PI * (i + 1) / n), y + r * sin(2 * PI * (i + 1) / n))); f.loop[n - 1] = Vector(x + r, y); sim.mesh.drawing.drawCircle(Vector(x, y), r, n); }
    else { double h = k == 1 ? r : r * c.rng.uni(.2, 1); f.loop = {Vector(x - r, y - h), Vector(x + r, y - h), Vector(x + r, y + h), Vector(x - r, y + h)}; sim.mesh.drawing.drawRectangle(f.loop[0], f.loop[2]); }
    f.area = std::fabs((double)area2d(f.loop)) / 2; f.mat = 0; s.faces.push_back(f); sim.mesh.drawing.drawRegion(Vector(x + .01 * r, y + .02 * r), mat(0));
    double amax = r * r / c.rng.logu(.05, 500); if (c.rng.chance(.3)) amax = r * r * c.rng.pick(std::vector<double>{1, .1, .01, 10, 100});
    c.sample("%s of %d sides, radius %.3g, area bound %.3g", k ? "rectangle" : "circle", k ? 4 : n, r, amax); run(c, sim, s, false, amax, n == 3 && k == 0 ? 20 : c.rng.range(5, 30), false); c.nontrivial(mixd(mixd(mixd(n, r), x), amax));
}
VF_SUITE(empty, 10, 40) {   // nothing but points, or nothing at all
    MagnetostaticSimulation sim; int n = c.rng.range(0, 3); if (c.idx == 0) n = 0; for (int i = 0; i < n; i++) sim.mesh.drawing.drawPoint(Vector(c.rng.uni(-2, 2), c.rng.uni(-2, 2))); if (n == 1) n = 0, sim.mesh.drawing.points.clear();
    Scene s; double amax = c.rng.logu(.01, 10); c.sample("%d points, area bound %.3g", n, amax); run(c, sim, s, false, amax, 25, false); c.nontrivial(mixd(n, amax));
}
VF_MAIN
