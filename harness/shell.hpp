// Monitor of the merged magnetostatic mesh: inner disc + mirrored exterior shell.
#pragma once
#include "meshmon.hpp"
namespace vf {
struct ShellInfo { std::vector<int> kind; std::vector<char> outer_tri; std::vector<int> rim; int clamped = 0; double R = 0; double inner_area = 0; };   // kind: -1 inside, 0 rim, 1 outside
// mat(t) -> pointer to the material of triangle t
template <class MESH, class ISDEF> ShellInfo audit_shell(Ctx& c, MESH& mesh, ISDEF is_default) {
    auto& m = mesh.data; ShellInfo I; double R = I.R = mesh.radius;
    c.check(std::isfinite(R) && R > 0 && std::isfinite(mesh.center.x) && std::isfinite(mesh.center.y), "boundary-circle", "boundary radius %g, centre (%g,%g)", R, mesh.center.x, mesh.center.y);
    EdgeMap E = audit_topology(c, m, false, true);
    for (auto& [k, e] : E) if (e.n != 2) c.fail("open-edge", "edge %d-%d, (%g,%g)-(%g,%g), belongs to one triangle only", k.first, k.second, m.pointlist[k.first].x, m.pointlist[k.first].y, m.pointlist[k.second].x, m.pointlist[k.second].y);
    c.check((long)m.numberofpoints - (long)E.size() + m.numberoftriangles == 2, "euler", "V - E + F = %ld", (long)m.numberofpoints - (long)E.size() + m.numberoftriangles);
    std::set<std::pair<double, double>> seen; for (int i = 0; i < m.numberofpoints; i++) if (!seen.insert({m.pointlist[i].x, m.pointlist[i].y}).second) c.fail("duplicate-vertex", "two vertices at (%.17g,%.17g)", m.pointlist[i].x, m.pointlist[i].y);
    // outside: beyond the boundary circle; rim: where triangles with and without an outside vertex meet (the mesher may have split the boundary's chords)
    I.kind.assign(m.numberofpoints, -1); std::vector<std::pair<double, int>> rim; std::vector<char> t_in(m.numberofpoints, 0), t_out(m.numberofpoints, 0);
    for (int i = 0; i < m.numberofpoints; i++) { double d = std::hypot(m.pointlist[i].x, m.pointlist[i].y); if (d > R * (1 + 1e-9)) I.kind[i] = 1; if (d > R * 100 * (1 + 1e-9)) c.fail("too-far", "vertex %d is %g radii away", i, d / R); }
    for (int t = 0; t < m.numberoftriangles; t++) { auto& v = m.trianglelist[t].verts; bool out = I.kind[v[0]] > 0 || I.kind[v[1]] > 0 || I.kind[v[2]] > 0; for (int k : v) (out ? t_out : t_in)[k] = 1; }
    for (int i = 0; i < m.numberofpoints; i++) if (I.kind[i] < 0 && t_in[i] && t_out[i]) { I.kind[i] = 0; rim.push_back({std::atan2(m.pointlist[i].y, m.pointlist[i].x), i}); }
    std::sort(rim.begin(), rim.end()); int nb = rim.size(); std::map<int, int> pos; std::vector<Vector> poly; for (int i = 0; i < nb; i++) pos[rim[i].second] = i, I.rim.push_back(rim[i].second), poly.push_back(m.pointlist[rim[i].second]);
    c.check(nb >= 3, "rim", "the boundary circle has %d vertices", nb);
    int onc = 0; for (auto& p : poly) { double d = std::hypot(p.x, p.y); onc += d >= R * (1 - 1e-9); if (d < R * .7) c.fail("rim", "a vertex of the seam is %g radii from the centre", d / R); } c.check(onc >= 3, "rim", "only %d vertices of the seam are on the boundary circle", onc);
    I.outer_tri.resize(m.numberoftriangles);
    for (int t = 0; t < m.numberoftriangles; t++) { int in = 0, out = 0; for (int k = 0; k < 3; k++) { int q = I.kind[m.trianglelist[t].verts[k]]; in += q < 0; out += q > 0; } if (in && out) c.fail("straddling-triangle", "triangle %d has vertices inside and outside the boundary circle", t); I.outer_tri[t] = out > 0; if (!out) I.inner_area += std::fabs(tri2(m, t)) / 2; }
    // the rim: every boundary edge joins one inner and one outer triangle
    std::vector<int> rimedge(nb, 0);
    for (auto& [k, e] : E) if (I.outer_tri[e.tri[0]] != I.outer_tri[e.tri[1]]) { if (I.kind[k.first] || I.kind[k.second]) c.fail("rim-edge", "edge %d-%d separates inside from outside but is not on the boundary", k.first, k.second); int a = pos[k.first], b = pos[k.second]; if ((a + 1) % nb == b) rimedge[a]++; else if ((b + 1) % nb == a) rimedge[b]++; else c.fail("rim-edge", "rim edge %d-%d skips boundary vertices", k.first, k.second); }
    for (int i = 0; i < nb; i++) if (rimedge[i] != 1) c.fail("rim-unmatched", "boundary edge %d-%d is not the seam of inside and outside", rim[i].second, rim[(i + 1) % nb].second);
    double pa = std::fabs((double)(area2d(poly) / 2)); c.check(std::fabs(I.inner_area - pa) <= 1e-9 * pa, "inner-area", "the inner triangles cover %.15g, the disc is %.15g", I.inner_area, pa);
    // the exterior is the mirror image of a triangulation of the disc
    auto back = [&](int i) { Vector p = m.pointlist[i]; if (!I.kind[i]) return p; double s = R * R / (p.x * p.x + p.y * p.y); return Vector(p.x * s, p.y * s); };
    double sum = 0; int sg = 0, cl = 0; for (int i = 0; i < m.numberofpoints; i++) if (I.kind[i] > 0 && std::hypot(m.pointlist[i].x, m.pointlist[i].y) > R * 100 * (1 - 1e-9)) cl++;
    I.clamped = cl;
    for (int t = 0; t < m.numberoftriangles; t++) if (I.outer_tri[t]) {
        auto& v = m.trianglelist[t].verts; bool skip = false; Vector p[3]; for (int k = 0; k < 3; k++) { Vector q = m.pointlist[v[k]]; if (I.kind[v[k]] > 0 && std::hypot(q.x, q.y) > R * 100 * (1 - 1e-9)) skip = true; p[k] = back(v[k]); }
        if (!is_default(t)) c.fail("exterior-material", "exterior triangle %d is not of the default material", t);
        if (skip) continue;
        double a = cross(p[1] - p[0], p[2] - p[0]); if (sg == 0) sg = a > 0 ? 1 : -1; if (!(a * sg > 0)) c.fail("mirror-orientation", "exterior triangle %d is not the mirror image of a disc triangle (doubled area %g)", t, a); sum += std::fabs(a) / 2;
    }
    if (!cl) c.check(std::fabs(sum - pa) <= 1e-9 * pa, "mirror-area", "the mirrored exterior covers %.15g of the disc's %.15g", sum, pa); else c.check(sum <= pa * (1 + 1e-9), "mirror-area", "the mirrored exterior covers %.15g of the disc's %.15g", sum, pa);
    c.note("rim vertices", nb); c.note(cl ? "shells with clamped far vertices" : "shells fully mirrored"); c.eval(E.size() + m.numberofpoints);
    return I;
}
inline bool is_air(const nikfemm::MagnetostaticProp* p) { return p && p->J == 0 && p->M.x == 0 && p->M.y == 0 && p->mu == nikfemm::magnetostatic_materials::air && p->bh_curve.empty(); }
}
