// C12: the conduction system is the exact linear-triangle assembly.
#include "meshmon.hpp"
#include "femref.hpp"
using namespace nikfemm;
using namespace vf;

static void run(Ctx& c, SceneOpt o, double ntri, bool pie) {
    Scene s; if (!pie) s = random_scene(c.rng, o); else {
        int n = c.rng.range(12, 60); double R = c.rng.logu(.01, 100); Vector ctr(c.rng.uni(-3, 3) * R, 0); std::vector<Vector> rim; for (int i = 0; i < n; i++) rim.push_back(Vector(ctr.x + R * cos(6.283185307179586 * i / n), ctr.y + R * sin(6.283185307179586 * i / n)));
        for (int i = 0; i < n; i++) { Face f; f.loop = {ctr, rim[i], rim[(i + 1) % n]}; f.area = f.own = std::fabs((double)area2d(f.loop) / 2); f.marker = Vector((f.loop[0].x + f.loop[1].x + f.loop[2].x) / 3, (f.loop[0].y + f.loop[1].y + f.loop[2].y) / 3); f.mat = c.rng.range(0, 3); s.total += f.area; s.faces.push_back(f); s.order.push_back(i); }
        s.minang = 1; s.text = fmt("pie of %d", n);
    }
    double depth = c.rng.chance(.3) ? 1 : c.rng.logu(1e-6, 10), amax = s.total / tris(c.rng, 3, ntri); int q = pie ? c.rng.range(0, 8) : (int)std::min(25.0, s.minang * .5); bool refine = !pie && c.rng.chance(.2); if (refine) q = std::min(q, 20);
    std::vector<CurrentDensityProp> props; double s0 = c.rng.chance(.2) ? c.rng.logu(1e-14, 1e-3) : c.rng.logu(1e-3, 1e8); for (int i = 0; i < o.palette; i++) props.push_back({s0 * c.rng.logu(1e-2, 1e2)});
    if (c.rng.chance(.2)) props[1].sigma = props[0].sigma;
    if (c.rng.chance(.2)) props[2].sigma = props[0].sigma * (1 + c.rng.logu(1e-7, 1e-2));
    c.sample("%s, max area %.3g, min angle %d, depth %.3g, refine %d", s.text.c_str(), amax, q, depth, refine);
    CurrentDensitySimulation sim(depth); draw_scene(c.rng, sim.mesh.drawing, s, [&](int i) { return props[s.faces[i].mat]; });
    auto sys = sim.generateSystem(refine, amax, q);
    auto& m = sim.mesh.data; int n = m.numberofpoints; c.note("triangles", m.numberoftriangles);
    c.check((int)sys.b.size() == n, "size", "right-hand side has %zu entries for %d nodes", sys.b.size(), n);
    SymRef R = conduction_ref(c, s, m, depth, [&](int f) { return props[s.faces[f].mat].sigma; });
    MatCSRSymmetric M(sys.A); compare_matrix(c, M, R, n, "conduction");
    for (int i = 0; i < n; i++) if (sys.b[i] != 0) c.fail("rhs", "right-hand side of node %d is %g, there is no source", i, sys.b[i]);
    // energy and row sums, observed on the library's own matrix
    std::vector<double> one(n, 1.0), y(n); mult(y, M, one); for (int i = 0; i < n; i++) if (std::fabs(y[i]) > 1e-9 * R.mag[i]) c.fail("row-sum", "row %d of the conduction matrix sums to %g (scale %g)", i, y[i], (double)R.mag[i]);
    std::vector<double> v(n); for (auto& x : v) x = c.rng.uni(-1, 1); mult(y, M, v); long double e = 0; for (int i = 0; i < n; i++) e += (long double)y[i] * v[i]; c.check(e > 0, "energy", "a non-constant potential has energy %Lg", e);
    c.eval(2 * n); c.nontrivial(scene_hash(s)); if (s.faces.size() > 1) c.note("several materials");
    // proportional to conductivity and thickness: a second simulation of the same drawing
    if (c.rng.chance(.3)) {
        double k = c.rng.logu(.01, 100), kd = c.rng.logu(.01, 100); CurrentDensitySimulation s2(depth * kd); Rng r2(5); draw_scene(r2, s2.mesh.drawing, s, [&](int i) { return CurrentDensityProp{props[s.faces[i].mat].sigma * k}; });
        auto sy2 = s2.generateSystem(refine, amax, q); SymRef R2 = conduction_ref(c, s, s2.mesh.data, depth * kd, [&](int f) { return props[s.faces[f].mat].sigma * k; }); MatCSRSymmetric M2(sy2.A); compare_matrix(c, M2, R2, s2.mesh.data.numberofpoints, "scaled conduction");
    }
}
VF_SUITE(scenes, 700, 12000) { SceneOpt o; run(c, o, c.thorough ? 4000 : 600, false); }
VF_SUITE(pies, 100, 2000) { SceneOpt o; run(c, o, 200, true); }
VF_SUITE(big, 5, 12) { SceneOpt o; o.max_shapes = 3; run(c, o, -95000, false); }   // more vertices than 16 bits can count
VF_SUITE(soup, 2000, 20000) {   // triangles of every size, shape and place
    double depth = c.rng.chance(.3) ? 1 : c.rng.logu(1e-6, 10), s0 = c.rng.logu(1e-14, 1e8); CurrentDensitySimulation sim(depth); std::vector<double> sg; for (int i = 0; i < 4; i++) { sg.push_back(s0 * c.rng.logu(1e-2, 1e2)); sim.mesh.drawing.drawRegion(Vector(i, 0), {sg[i]}); }
    uint64_t h = soup_mesh(c, sim.mesh, 4, false); auto& m = sim.mesh.data; auto sys = sim.mesh.getFemSystem();
    c.check((int)sys.b.size() == m.numberofpoints, "size", "right-hand side has %zu entries for %d nodes", sys.b.size(), m.numberofpoints);
    SymRef R = stiffness_ref(m, [&](int t) -> ld { return (ld)sg[(int)m.triangleattributelist[t]] * depth; }); MatCSRSymmetric M(sys.A); compare_matrix(c, M, R, m.numberofpoints, "conduction");
    for (int i = 0; i < m.numberofpoints; i++) if (sys.b[i] != 0) c.fail("rhs", "right-hand side of node %d is %g, there is no source", i, sys.b[i]);
    c.sample("%d triangles in fans of all sizes, depth %.3g", m.numberoftriangles, depth); c.nontrivial(h);
}
VF_MAIN
