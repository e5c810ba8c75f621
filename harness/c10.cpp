// C10: meshes are valid, conforming and respect the drawing.
#include "meshmon.hpp"
using namespace nikfemm;
using namespace vf;

static void audit(Ctx& c, CurrentDensityMesh& mesh, const Scene& s, const std::vector<CurrentDensityProp>& props, double amax, int q, bool quality, bool refine) {
    auto& m = mesh.data; double size = 0; for (auto& f : s.faces) for (auto& p : f.loop) size = std::max({size, std::fabs(p.x), std::fabs(p.y)});
    EdgeMap E = audit_topology(c, m, true);
    c.note("triangles", m.numberoftriangles);
    std::set<std::pair<double, double>> P; for (int i = 0; i < m.numberofpoints; i++) if (!P.insert({m.pointlist[i].x, m.pointlist[i].y}).second) c.fail("vertex-duplicate", "two mesh vertices at (%.17g,%.17g)", m.pointlist[i].x, m.pointlist[i].y);
    for (auto& f : s.faces) for (auto& p : f.loop) c.check(P.count({p.x, p.y}), "drawn-point-lost", "drawn point (%.17g,%.17g) is not a mesh vertex", p.x, p.y);
    for (auto& p : mesh.drawing.points) c.check(P.count({p.x, p.y}), "drawn-point-lost", "drawing point (%.17g,%.17g) is not a mesh vertex", p.x, p.y);
    for (auto& f : s.faces) for (size_t i = 0; i < f.loop.size(); i++) audit_segment(c, m, E, f.loop[i], f.loop[(i + 1) % f.loop.size()], size);
    std::vector<long double> area(s.faces.size(), 0); double shortest = 1e300; int below = 0;
    // the refinement algorithm guarantees requests up to 20.7 degrees; beyond that its rule against endless splitting may leave single triangles below 20, too
    const int Q = q <= 20 ? q : 14;
    for (int t = 0; t < m.numberoftriangles; t++) {
        double a = tri2(m, t) / 2; int f = face_of_tri(s, m, t); Vector b = triB(m, t);
        if (f < 0) c.fail("triangle-outside", "triangle %d at (%g,%g) lies outside the drawing", t, b.x, b.y);
        area[f] += a; c.worst("max triangle area / requested", a / amax);
        if (!(a <= amax * (1 + 1e-9))) c.fail("area-bound", "triangle %d has area %.17g, requested at most %.17g", t, a, amax);
        double at = m.triangleattributelist[t]; if (at != std::floor(at) || at < 0 || at >= mesh.drawing.region_map.size()) c.fail("attribute-invalid", "triangle %d has region attribute %g of %zu", t, at, mesh.drawing.region_map.size());
        if (!(mesh.drawing.getRegionPtrFromId((uint32_t)at)->sigma == props[s.faces[f].mat].sigma)) c.fail("attribute", "triangle %d at (%g,%g) in face %d carries sigma %g instead of %g", t, b.x, b.y, f, mesh.drawing.getRegionPtrFromId((uint32_t)at)->sigma, props[s.faces[f].mat].sigma);
        if (quality) { double ang = min_angle_deg(m, t); c.worst("requested (to 20) minus smallest angle (deg)", Q - ang); below += ang < q - 1e-6; if (!(ang >= Q - 1e-6)) c.fail("min-angle", "triangle %d has an angle of %.6f degrees, requested %d", t, ang, q); }
        double gb = mesh.data.getArea(t); if (!close(gb, a, 1e-9, 1e-13 * size * size)) c.fail("get-area", "getArea(%d) = %.17g, area is %.17g", t, gb, a);
        Vector bb = mesh.data.getElemBarycenter(t); if (std::hypot(bb.x - b.x, bb.y - b.y) > 1e-12 * size) c.fail("get-barycenter", "getElemBarycenter(%d) = (%g,%g), not (%g,%g)", t, bb.x, bb.y, b.x, b.y);
        if (min_angle_deg(m, t) > 0.01 && !mesh.data.pointInElem(t, b)) c.fail("point-in-elem", "triangle %d does not contain its own barycentre (%g,%g)", t, b.x, b.y);
    }
    c.eval(m.numberoftriangles * 6);
    if (quality) { c.worst("share of triangles below a best-effort angle bound", (double)below / m.numberoftriangles); if (below) c.note("triangles below a best-effort angle bound", below); c.check(below <= 4 + m.numberoftriangles / 20, "min-angle-share", "%d of %d triangles have an angle below the requested %d degrees", below, m.numberoftriangles, q); }
    for (size_t f = 0; f < s.faces.size(); f++) c.check(close((double)area[f], s.faces[f].own, 1e-9, 1e-13 * size * size), "face-area", "the triangles of face %zu add up to %.17g, the drawn face has %.17g", f, (double)area[f], s.faces[f].own);
    for (auto& [k, e] : E) shortest = std::min(shortest, (double)std::hypot(m.pointlist[k.first].x - m.pointlist[k.second].x, m.pointlist[k.first].y - m.pointlist[k.second].y));
    std::vector<char> outer(m.numberofpoints, 0); for (auto& [k, e] : E) if (e.n == 1) outer[k.first] = outer[k.second] = 1;
    for (int i = 0; i < m.numberofpoints; i++) { bool mk = m.pointmarkerlist[i] != 0; c.check(mk == (bool)outer[i], "boundary-mark", "vertex %d (%g,%g) is %son the outer boundary but marked %d", i, m.pointlist[i].x, m.pointlist[i].y, outer[i] ? "" : "not ", m.pointmarkerlist[i]); }
    mesh.computeEpsilon();
    c.check(close(mesh.epsilon, shortest / 2, 1e-9, 0), "epsilon", "mesh tolerance %.17g, half the shortest edge is %.17g", mesh.epsilon, shortest / 2);
    c.worst("faces", s.faces.size()); (void)refine;
}

static void run(Ctx& c, SceneOpt o, int ntri, bool allow_refine) {
    Scene s = random_scene(c.rng, o);
    int q; if (s.minang >= 59.9) q = c.rng.range(0, 33); else q = c.rng.range(0, (int)std::min(25.0, s.minang * 0.5));
    if (c.rng.chance(.3)) q = s.minang >= 59.9 ? 33 : 20;
    bool refine = allow_refine && c.rng.chance(.25), direct = !refine && c.rng.chance(.3); if (refine) q = std::min(q, 25);
    double amax = s.total / tris(c.rng, 3, ntri); if (ntri > 0 && c.rng.chance(.1)) amax = s.total * c.rng.uni(1, 50);
    c.sample("%s, max area %.3g (total %.3g), min angle %d, refine %d", s.text.c_str(), amax, s.total, q, refine);
    std::vector<CurrentDensityProp> props; for (int i = 0; i < o.palette; i++) props.push_back({1.0 + i});
    CurrentDensitySimulation sim; draw_scene(c.rng, sim.mesh.drawing, s, [&](int i) { return props[s.faces[i].mat]; });
    if (direct) sim.mesh.mesh(amax, q); else { sim.generateSystem(refine, amax, q); audit_epsilon(c, sim.mesh); }
    audit(c, sim.mesh, s, props, amax, q, !refine && s.minang >= 59.9 && q > 0, refine);
    c.nontrivial(mix(scene_hash(s), (uint64_t)q)); c.note(s.tiling ? "tilings" : "shape scenes"); if (refine) c.note("refined scenes"); if (s.ncomp > 1) c.note("disconnected scenes");
}
VF_SUITE(general, 2000, 20000) { SceneOpt o; run(c, o, c.thorough ? 8000 : 1500, true); }
VF_SUITE(right_angled, 1200, 12000) { SceneOpt o; o.only_right = true; o.minang = 80; o.max_shapes = 8; run(c, o, c.thorough ? 8000 : 1500, false); }
// the same drawing at any order of magnitude
VF_SUITE(magnitudes, 600, 6000) { SceneOpt o; o.scale_lo = 1e-5; o.scale_hi = 1e12; o.only_right = true; o.minang = 80; run(c, o, 300, false); }
// many faces around one vertex
VF_SUITE(pies, 300, 4000) {
    int n = c.rng.range(3, 48); double R = c.rng.logu(.01, 100), ph = c.rng.uni(0, 6.28); Vector o(c.rng.uni(-3, 3) * R, c.rng.uni(-3, 3) * R); bool full = c.rng.chance(.7); if (n < 5) full = false;
    Scene s; std::vector<Vector> rim; int m = full ? n : n + 1; for (int i = 0; i < m; i++) { double t = ph + (full ? 6.283185307179586 : 4.5) * i / n; rim.push_back(Vector(o.x + R * cos(t), o.y + R * sin(t))); }
    for (int i = 0; i < n; i++) { Face f; f.loop = {o, rim[i], rim[(i + 1) % m]}; if (c.rng.chance(.5)) std::reverse(f.loop.begin(), f.loop.end()); f.area = f.own = std::fabs((double)area2d(f.loop) / 2); f.marker = Vector((f.loop[0].x + f.loop[1].x + f.loop[2].x) / 3, (f.loop[0].y + f.loop[1].y + f.loop[2].y) / 3); f.mat = c.rng.range(0, 3); s.total += f.area; s.faces.push_back(f); s.order.push_back(i); }
    c.rng.shuffle(s.order); s.minang = 1; double amax = s.total / c.rng.logu(3, 300); int q = c.rng.range(0, 10);
    c.sample("pie of %d slices radius %g, max area %g, min angle %d", n, R, amax, q);
    std::vector<CurrentDensityProp> props; for (int i = 0; i < 4; i++) props.push_back({1.0 + i});
    CurrentDensitySimulation sim; draw_scene(c.rng, sim.mesh.drawing, s, [&](int i) { return props[s.faces[i].mat]; });
    sim.mesh.mesh(amax, q);
    audit(c, sim.mesh, s, props, amax, q, false, false); c.nontrivial(scene_hash(s));
}
// more vertices than 16 bits can count
VF_SUITE(big, 5, 16) { SceneOpt o; o.max_shapes = 3; run(c, o, -95000, false); }
VF_MAIN
