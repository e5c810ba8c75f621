// Monitors of a triangulation: topology, geometry, faces, boundary marks.
#pragma once
#include "scenes.hpp"
namespace vf {
struct EdgeInfo { int n = 0; int dir[2] = {0, 0}; int tri[2] = {-1, -1}; };
typedef std::map<std::pair<int, int>, EdgeInfo> EdgeMap;
template <class MD> double tri2(const MD& m, int t) { auto& e = m.trianglelist[t]; auto a = m.pointlist[e.verts[0]], b = m.pointlist[e.verts[1]], c = m.pointlist[e.verts[2]]; return (double)(((long double)b.x - a.x) * ((long double)c.y - a.y) - ((long double)b.y - a.y) * ((long double)c.x - a.x)); }
template <class MD> Vector triB(const MD& m, int t) { auto& e = m.trianglelist[t]; auto a = m.pointlist[e.verts[0]], b = m.pointlist[e.verts[1]], c = m.pointlist[e.verts[2]]; return Vector((a.x + b.x + c.x) / 3, (a.y + b.y + c.y) / 3); }
// valid ids, conforming edges, every vertex used; returns the edges
template <class MD> EdgeMap audit_topology(Ctx& c, const MD& m, bool oriented, bool all_used = true) {
    c.check(m.numberofpoints > 2 && m.numberoftriangles > 0, "mesh-empty", "mesh has %d points and %d triangles", m.numberofpoints, m.numberoftriangles);
    EdgeMap E; std::vector<char> used(m.numberofpoints, 0);
    for (int i = 0; i < m.numberofpoints; i++) if (!std::isfinite(m.pointlist[i].x) || !std::isfinite(m.pointlist[i].y)) c.fail("point-nonfinite", "point %d is (%g,%g)", i, m.pointlist[i].x, m.pointlist[i].y);
    for (int t = 0; t < m.numberoftriangles; t++) {
        auto& v = m.trianglelist[t].verts;
        for (int k = 0; k < 3; k++) { if (v[k] < 0 || v[k] >= m.numberofpoints) c.fail("vertex-id", "triangle %d has vertex id %d of %d", t, v[k], m.numberofpoints); used[v[k]] = 1; }
        if (v[0] == v[1] || v[1] == v[2] || v[0] == v[2]) c.fail("triangle-degenerate", "triangle %d has vertices %d %d %d", t, v[0], v[1], v[2]);
        double a = tri2(m, t); if (!(oriented ? a > 0 : a != 0)) c.fail("triangle-area", "triangle %d has doubled area %g", t, a);
        for (int k = 0; k < 3; k++) { int p = v[k], q = v[(k + 1) % 3]; auto& e = E[{std::min(p, q), std::max(p, q)}]; if (e.n == 2) c.fail("edge-shared", "edge %d-%d belongs to more than two triangles", p, q); e.dir[e.n] = p < q ? 1 : -1; e.tri[e.n++] = t; }
    }
    if (oriented) for (auto& [k, e] : E) if (e.n == 2 && e.dir[0] == e.dir[1]) c.fail("edge-orientation", "edge %d-%d has two triangles on the same side", k.first, k.second);
    if (all_used) for (int i = 0; i < m.numberofpoints; i++) if (!used[i]) c.fail("vertex-unused", "vertex %d (%.17g,%.17g) belongs to no triangle", i, m.pointlist[i].x, m.pointlist[i].y);
    c.eval(m.numberoftriangles + E.size());
    return E;
}
template <class MD> double min_angle_deg(const MD& m, int t) { double r = 180; for (int k = 0; k < 3; k++) { auto a = m.pointlist[m.trianglelist[t].verts[k]], b = m.pointlist[m.trianglelist[t].verts[(k + 1) % 3]], d = m.pointlist[m.trianglelist[t].verts[(k + 2) % 3]]; Vector u(b.x - a.x, b.y - a.y), v(d.x - a.x, d.y - a.y); r = std::min(r, std::fabs(std::atan2(cross(u, v), u.x * v.x + u.y * v.y)) * 57.29577951308232); } return r; }
// the face a triangle belongs to (o moves the mesh onto the drawing). A drawn edge is a chain of rounded points: a triangle
// as flat as that rounding lies on the edge itself, so neither face is wrong. Such meshes are not judged.
template <class MD> int face_of_tri(const Scene& s, const MD& m, int t, Vector o = Vector(0, 0)) {
    double h = 0, mag = std::max(std::fabs(o.x), std::fabs(o.y)); for (int k = 0; k < 3; k++) { auto a = m.pointlist[m.trianglelist[t].verts[k]], b = m.pointlist[m.trianglelist[t].verts[(k + 1) % 3]]; h = std::max(h, std::hypot(a.x - b.x, a.y - b.y)); mag = std::max({mag, std::fabs(a.x), std::fabs(a.y)}); }
    if (std::fabs(tri2(m, t)) <= 32 * 2.3e-16 * mag * h) throw CaseSkip();
    auto b = triB(m, t); return face_of(s, Vector(b.x + o.x, b.y + o.y));
}
// the drawn edge a-b is a chain of mesh edges
template <class MD> void audit_segment(Ctx& c, const MD& m, const EdgeMap& E, Vector a, Vector b, double size) {
    double L = std::hypot(b.x - a.x, b.y - a.y); std::vector<std::pair<double, int>> on;
    for (int i = 0; i < m.numberofpoints; i++) { Vector p = m.pointlist[i]; double t = ((p.x - a.x) * (b.x - a.x) + (p.y - a.y) * (b.y - a.y)) / (L * L); if (t < -1e-9 || t > 1 + 1e-9) continue; if (std::fabs(cross(b - a, p - a)) / L <= 1e-12 * size + 1e-9 * 1e-3 * L) on.push_back({t, i}); }
    std::sort(on.begin(), on.end());
    for (size_t k = 0; k + 1 < on.size(); k++) { int p = on[k].second, q = on[k + 1].second; c.check(E.count({std::min(p, q), std::max(p, q)}), "drawn-edge-lost", "the drawn edge (%g,%g)-(%g,%g) is not a chain of mesh edges between t=%g and t=%g", a.x, a.y, b.x, b.y, on[k].first, on[k + 1].first); }
    c.check(on.size() >= 2, "drawn-edge-lost", "the ends of the drawn edge (%g,%g)-(%g,%g) are not in the mesh", a.x, a.y, b.x, b.y);
}
// the tolerance a generated mesh carries
template <class M> void audit_epsilon(Ctx& c, const M& mesh) {
    double sh = 1e300; auto& m = mesh.data; for (int t = 0; t < m.numberoftriangles; t++) for (int k = 0; k < 3; k++) { auto a = m.pointlist[m.trianglelist[t].verts[k]], b = m.pointlist[m.trianglelist[t].verts[(k + 1) % 3]]; sh = std::min(sh, (double)std::hypot(a.x - b.x, a.y - b.y)); }
    c.check(close(mesh.epsilon, sh / 2, 1e-9, 0), "epsilon", "the generated mesh has the tolerance %.17g, half its shortest edge is %.17g", mesh.epsilon, sh / 2);
}
// a mesh without a drawing behind it: fans of triangles of any size, shape, place; materials 0..nmat-1
template <class M> uint64_t soup_mesh(Ctx& c, M& mesh, int nmat, bool any_orientation) {
    std::vector<nikfemm::Vector> P; std::vector<std::array<int, 4>> T; uint64_t h = nmat; int fans = c.rng.range(1, 12); double far = c.rng.chance(.4) ? c.rng.logu(1, 1e3) : 0;
    for (int f = 0; f < fans; f++) {
        double s = c.rng.chance(.5) ? c.rng.logu(1e-6, 1e6) : c.rng.logu(1e-60, 1e60), ph = c.rng.uni(0, 6.3), asp = c.rng.chance(.6) ? 1 : c.rng.logu(1e-4, 1), x0 = s * far * c.rng.uni(-1, 1), y0 = s * far * c.rng.uni(-1, 1); int k = c.rng.range(1, 9), b = P.size();
        auto add = [&](double u, double v) { v *= asp; nikfemm::Vector p(x0 + s * (u * cos(ph) - v * sin(ph)), y0 + s * (u * sin(ph) + v * cos(ph))); P.push_back(p); h = mixd(h, p.x); };
        add(0, 0); double a = 0; add(1, 0); for (int i = 0; i < k; i++) { a += c.rng.uni(.2, .68); double r = c.rng.uni(.5, 1.5); add(r * cos(a), r * sin(a)); std::array<int, 4> t{b, b + 1 + i, b + 2 + i, (int)c.rng.range(0, nmat - 1)}; std::rotate(t.begin(), t.begin() + c.rng.range(0, 2), t.begin() + 3); if (any_orientation && c.rng.chance(.5)) std::swap(t[0], t[1]); T.push_back(t); }
    }
    if (far) for (auto& t : T) { auto &a = P[t[0]], &b = P[t[1]], &d = P[t[2]]; double A = std::fabs((b.x - a.x) * (d.y - a.y) - (d.x - a.x) * (b.y - a.y)), L = std::max(std::hypot(a.x - b.x, a.y - b.y), std::hypot(a.x - d.x, a.y - d.y)), r = std::hypot(a.x, a.y); if (!(A > 1e-5 * L * (L + r * 1e-3))) throw CaseSkip(); }
    auto& m = mesh.data; m.numberofpoints = P.size(); m.numberoftriangles = T.size(); m.numberoftriangleattributes = 1; m.numberofcorners = 3;
    m.pointlist = (nikfemm::Vector*)malloc(P.size() * sizeof(P[0])); m.pointmarkerlist = (int*)calloc(P.size(), sizeof(int)); m.trianglelist = (nikfemm::Elem*)calloc(T.size(), sizeof(nikfemm::Elem)); m.triangleattributelist = (double*)malloc(T.size() * sizeof(double));
    for (size_t i = 0; i < P.size(); i++) m.pointlist[i] = P[i], m.pointmarkerlist[i] = 1;
    for (size_t t = 0; t < T.size(); t++) { for (int q = 0; q < 3; q++) m.trianglelist[t].verts[q] = T[t][q]; m.triangleattributelist[t] = T[t][3]; }
    return h;
}
}
