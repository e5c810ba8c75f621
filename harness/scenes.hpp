// Random planar scenes with exactly known faces: nested / disjoint shapes with clearance, and grid tilings.
#pragma once
#include "geo.hpp"
#include <nikfemm.hpp>
namespace vf {
using nikfemm::Vector;
struct Face {
    std::vector<IP> iloop; std::vector<Vector> loop;   // outer boundary: integer model and drawn coordinates
    std::vector<int> kids; int parent = -1; Vector marker; int mat = 0; double area = 0, own = 0;   // own: area minus the kids'
    bool axis_rect = false; bool circle = false; double cr = 0; Vector cc; int cn = 0;
};
struct Scene {
    std::vector<Face> faces; double scale = 1, rot = 0; Vector off; double total = 0; double minang = 180; std::string text; int ncomp = 1; double clear = 0; bool tiling = false;
    std::vector<int> order;   // drawing order
    double tri_area(double n) const { return total / n; }
};
// ---- double geometry
inline double cross(Vector a, Vector b) { return a.x * b.y - a.y * b.x; }
inline long double area2d(const std::vector<Vector>& P) { long double s = 0; Vector o = P[0]; for (size_t i = 0; i < P.size(); i++) { Vector a = P[i], b = P[(i + 1) % P.size()]; s += ((long double)a.x - o.x) * ((long double)b.y - o.y) - ((long double)a.y - o.y) * ((long double)b.x - o.x); } return s; }
inline bool inside(const std::vector<Vector>& P, Vector p) { bool in = false; for (size_t i = 0, j = P.size() - 1; i < P.size(); j = i++) if ((P[i].y > p.y) != (P[j].y > p.y) && p.x < (P[j].x - P[i].x) * (p.y - P[i].y) / (P[j].y - P[i].y) + P[i].x) in = !in; return in; }
inline double segdist(Vector p, Vector a, Vector b) { double dx = b.x - a.x, dy = b.y - a.y, L = dx * dx + dy * dy, t = L > 0 ? ((p.x - a.x) * dx + (p.y - a.y) * dy) / L : 0; t = std::min(1.0, std::max(0.0, t)); return std::hypot(p.x - a.x - t * dx, p.y - a.y - t * dy); }
inline double loopdist(Vector p, const std::vector<Vector>& P) { double d = 1e300; for (size_t i = 0; i < P.size(); i++) d = std::min(d, segdist(p, P[i], P[(i + 1) % P.size()])); return d; }
inline double segsegdist(Vector a, Vector b, Vector c, Vector d) { return std::min(std::min(segdist(a, c, d), segdist(b, c, d)), std::min(segdist(c, a, b), segdist(d, a, b))); }
inline double loop_loop_dist(const std::vector<Vector>& P, const std::vector<Vector>& Q) { double m = 1e300; for (size_t i = 0; i < P.size(); i++) for (size_t j = 0; j < Q.size(); j++) m = std::min(m, segsegdist(P[i], P[(i + 1) % P.size()], Q[j], Q[(j + 1) % Q.size()])); return m; }
inline double loop_min_angle(const std::vector<Vector>& P) { double m = 180; size_t n = P.size(); for (size_t i = 0; i < n; i++) { Vector a = P[(i + n - 1) % n], b = P[i], c = P[(i + 1) % n]; Vector u = a - b, v = c - b; m = std::min(m, std::fabs(std::atan2(cross(u, v), u.x * v.x + u.y * v.y)) * 57.29577951308232); } return m; }
inline double loop_feature(const std::vector<Vector>& P) {   // smallest distance between non-adjacent edges and edge length
    double m = 1e300; size_t n = P.size();
    for (size_t i = 0; i < n; i++) { m = std::min(m, std::hypot(P[i].x - P[(i + 1) % n].x, P[i].y - P[(i + 1) % n].y)); for (size_t j = i + 2; j < n; j++) if (!(i == 0 && j == n - 1)) m = std::min(m, segsegdist(P[i], P[(i + 1) % n], P[j], P[(j + 1) % n])); }
    return m;
}
inline int face_of(const Scene& s, Vector p) {   // innermost face containing p, -1 outside
    int best = -1; double ba = 1e300;
    for (size_t i = 0; i < s.faces.size(); i++) if (s.faces[i].area < ba && inside(s.faces[i].loop, p)) { best = i; ba = s.faces[i].area; }
    return best;
}
// how many triangles to ask for: a random number up to hi, or exactly -hi
inline double tris(Rng& r, double lo, double hi) { return hi < 0 ? -hi : r.logu(lo, hi); }
struct SceneOpt {
    int min_shapes = 1, max_shapes = 6; bool nested = true, disjoint = true, tiling = true, circles = false; double minang = 45; bool rotate = true; bool scaleoff = true; int palette = 4; bool only_right = false; double scale_lo = 1e-6, scale_hi = 1e3;
    double far = 1e6;   // up to how many sizes away from the origin (sometimes)
};
inline std::vector<IP> shape_pts(Rng& r, int kind, i64 R) {   // around the origin, within radius ~R
    std::vector<IP> P; auto f = [&](double a, double b) { return (i64)std::llround(r.uni(a, b) * R); };
    switch (kind) {
        case 0: { i64 a = f(.3, .7), b = f(.3, .7); P = {{-a, -b}, {a, -b}, {a, b}, {-a, b}}; break; }
        case 1: { i64 a = f(.4, .7), b = f(.4, .7), c = f(-.1, .15), d = f(-.1, .15); P = {{-a, -b}, {a, -b}, {a, d}, {c, d}, {c, b}, {-a, b}}; break; }            // L
        case 2: { i64 a = f(.5, .7), b = f(.5, .7), c = f(.15, .25), d = f(-.25, .1); P = {{-a, -b}, {a, -b}, {a, b}, {c, b}, {c, d}, {-c, d}, {-c, b}, {-a, b}}; break; } // U
        case 3: { i64 a = f(.5, .7), c = f(.15, .3); P = {{-c, -a}, {c, -a}, {c, -c}, {a, -c}, {a, c}, {c, c}, {c, a}, {-c, a}, {-c, c}, {-a, c}, {-a, -c}, {-c, -c}}; break; } // plus
        case 4: { int n = r.range(5, 12); double ph = r.uni(0, 6.28); for (int i = 0; i < n; i++) { double q = r.uni(.75, .95) * R, t = ph + 6.283185307179586 * (i + r.uni(-.15, .15)) / n; P.push_back({(i64)std::llround(q * cos(t)), (i64)std::llround(q * sin(t))}); } break; }
        case 5: { double ph = r.uni(0, 6.28); for (int i = 0; i < 3; i++) { double t = ph + 2.0943951 * i + r.uni(-.15, .15); P.push_back({(i64)std::llround(.9 * R * cos(t)), (i64)std::llround(.9 * R * sin(t))}); } break; }
        case 6: { int n = r.range(5, 9); double ph = r.uni(0, 6.28); for (int i = 0; i < 2 * n; i++) { double q = (i & 1 ? r.uni(.5, .6) : r.uni(.85, .95)) * R, t = ph + 6.283185307179586 * i / (2 * n); P.push_back({(i64)std::llround(q * cos(t)), (i64)std::llround(q * sin(t))}); } break; } // star
        default: { double a = r.uni(0, 1.57); i64 u = f(.3, .6), v = f(.3, .6); for (auto [x, y] : {std::pair<int, int>{-1, -1}, {1, -1}, {1, 1}, {-1, 1}}) P.push_back({(i64)std::llround(x * u * cos(a) - y * v * sin(a)), (i64)std::llround(x * u * sin(a) + y * v * cos(a))}); break; }
    }
    return P;
}
inline void finish_scene(Rng& r, Scene& s, const SceneOpt& o) {
    // coordinates
    s.rot = (o.rotate && r.chance(0.4)) ? r.uni(0, 6.283) : 0; s.scale = 1.0 / 1024;
    if (o.scaleoff) { if (r.chance(0.6)) s.scale *= r.logu(o.scale_lo, o.scale_hi); if (r.chance(0.6)) s.off = Vector(r.uni(-30, 30) * s.scale * 1024, r.uni(-30, 30) * s.scale * 1024); if (o.far > 0 && r.chance(.15)) { double d = s.scale * 1024 * r.logu(30, o.far), a = r.uni(0, 6.3); s.off = Vector(d * cos(a), d * sin(a)); } }
    double cr = cos(s.rot), sr = sin(s.rot);
    auto map = [&](IP p) { double x = p.x * s.scale, y = p.y * s.scale; if (s.rot != 0) { double t = x * cr - y * sr; y = x * sr + y * cr; x = t; } return Vector(x + s.off.x, y + s.off.y); };
    for (auto& f : s.faces) { f.loop.clear(); for (auto& p : f.iloop) f.loop.push_back(map(p)); f.area = std::fabs((double)(area2d(f.loop) / 2)); f.axis_rect = s.rot == 0 && f.iloop.size() == 4 && (f.iloop[0].x == f.iloop[1].x || f.iloop[0].y == f.iloop[1].y) && (f.iloop[1].x == f.iloop[2].x || f.iloop[1].y == f.iloop[2].y) && (f.iloop[2].x == f.iloop[3].x || f.iloop[2].y == f.iloop[3].y); }
    s.total = 0; s.ncomp = 0; s.minang = 180;
    for (auto& f : s.faces) { f.own = f.area; for (int k : f.kids) f.own -= s.faces[k].area; if (f.parent < 0) s.total += f.area, s.ncomp++; s.minang = std::min(s.minang, loop_min_angle(f.loop)); f.mat = r.range(0, o.palette - 1); }
    for (size_t i = 0; i < s.faces.size(); i++) {   // a marker with clearance
        auto& f = s.faces[i]; double x0 = 1e300, x1 = -1e300, y0 = 1e300, y1 = -1e300; for (auto& p : f.loop) x0 = std::min(x0, p.x), x1 = std::max(x1, p.x), y0 = std::min(y0, p.y), y1 = std::max(y1, p.y);
        double best = -1; for (int t = 0; t < 4000 && !(t > 60 && best > 0); t++) { Vector p(r.uni(x0, x1), r.uni(y0, y1)); if (!inside(f.loop, p)) continue; double d = loopdist(p, f.loop); bool ok = true; for (int k : f.kids) { if (inside(s.faces[k].loop, p)) { ok = false; break; } d = std::min(d, loopdist(p, s.faces[k].loop)); } if (ok && d > best) best = d, f.marker = p; }
        if (best <= 0) throw CaseSkip();
        // do not let the marker be special
    }
    s.order.resize(s.faces.size()); std::iota(s.order.begin(), s.order.end(), 0); r.shuffle(s.order);
}
inline Scene random_scene(Rng& r, const SceneOpt& o = {}) {
    for (int attempt = 0;; attempt++) {
        Scene s; if (attempt > 200) throw CaseSkip();
        if (o.tiling && r.chance(0.3)) {   // rectangles sharing whole edges
            s.tiling = true; int m = r.range(1, 4), n = r.range(1, 4); std::vector<i64> xs{0}, ys{0}; for (int i = 0; i < m; i++) xs.push_back(xs.back() + r.range(150, 700)); for (int i = 0; i < n; i++) ys.push_back(ys.back() + r.range(150, 700));
            std::vector<std::vector<int>> keep(m, std::vector<int>(n, 1));
            if (m > 1 && n > 1 && r.chance(0.5)) for (int t = 0; t < 3; t++) { int i = r.range(0, m - 1), j = r.chance(.5) ? 0 : n - 1; keep[i][j] = 0; }   // notches on the rim only
            for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) if (keep[i][j]) { Face f; f.iloop = {{xs[i], ys[j]}, {xs[i + 1], ys[j]}, {xs[i + 1], ys[j + 1]}, {xs[i], ys[j + 1]}}; std::rotate(f.iloop.begin(), f.iloop.begin() + r.range(0, 3), f.iloop.end()); if (r.chance(.3)) std::reverse(f.iloop.begin(), f.iloop.end()); s.faces.push_back(f); }
            if (s.faces.empty()) continue;
            s.clear = 150; finish_scene(r, s, o); s.text = fmt("tiling %dx%d (%zu cells) rot %.2f scale %.3g off (%.3g,%.3g)", m, n, s.faces.size(), s.rot, s.scale * 1024, s.off.x, s.off.y); return s;
        }
        int want = r.range(o.min_shapes, o.max_shapes), tries = 0; i64 W = 1000;
        std::vector<std::vector<Vector>> loops; double clear = 1e300;
        while ((int)s.faces.size() < want && tries++ < 120) {
            double big = s.faces.empty() ? 1.0 : r.uni(0.08, 0.5); i64 R = (i64)(big * W); IP c{s.faces.empty() ? 0 : r.range(-1600, 1600), s.faces.empty() ? 0 : r.range(-1600, 1600)};
            if (!s.faces.empty() && o.nested && r.chance(.7)) c = {r.range(-600, 600), r.range(-600, 600)};
            Face f; f.iloop = shape_pts(r, o.only_right ? r.range(0, 3) : r.range(0, 7), R); for (auto& p : f.iloop) p.x += c.x, p.y += c.y;
            if (!simple(f.iloop)) continue; std::vector<Vector> L; for (auto& p : f.iloop) L.push_back(Vector(p.x, p.y));
            if (loop_min_angle(L) < o.minang || loop_feature(L) < R * 0.08 || R < 60) continue;
            double d = 1e300; for (auto& q : loops) d = std::min(d, loop_loop_dist(L, q)); if (d < std::max(25.0, 0.12 * R)) continue;
            int par = -1; bool bad = false; for (auto& g : s.faces) for (size_t i = 0; i < g.iloop.size() && !bad; i++) for (size_t j = 0; j < f.iloop.size(); j++) if (seg_touch(g.iloop[i], g.iloop[(i + 1) % g.iloop.size()], f.iloop[j], f.iloop[(j + 1) % f.iloop.size()])) { bad = true; break; }
            for (size_t k = 0; k < s.faces.size(); k++) { if (locate(s.faces[k].iloop, f.iloop[0]) > 0) { if (par < 0 || std::fabs((double)area2(s.faces[k].iloop)) < std::fabs((double)area2(s.faces[par].iloop))) par = k; } if (locate(f.iloop, s.faces[k].iloop[0]) > 0) bad = true; }
            if (bad || (par >= 0 && !o.nested) || (par < 0 && !s.faces.empty() && !o.disjoint)) continue;
            f.parent = par; if (par >= 0) s.faces[par].kids.push_back(s.faces.size());
            if (r.chance(.5)) std::reverse(f.iloop.begin(), f.iloop.end()); std::rotate(f.iloop.begin(), f.iloop.begin() + r.range(0, f.iloop.size() - 1), f.iloop.end());
            clear = std::min(clear, d); s.faces.push_back(f); loops.push_back(L);
        }
        if ((int)s.faces.size() < o.min_shapes) continue;
        s.clear = clear; finish_scene(r, s, o);
        s.text = fmt("%zu shapes (%d apart) rot %.2f scale %.3g off (%.3g,%.3g) minangle %.0f", s.faces.size(), s.ncomp, s.rot, s.scale * 1024, s.off.x, s.off.y, s.minang); return s;
    }
}
// draws the scene in its own (shuffled) order; prop(i) is the material of face i
template <class D, class F> void draw_scene(Rng& r, D& d, const Scene& s, F prop) {
    bool early = r.chance(.5); std::vector<int> ord = s.order;
    for (int i : ord) { auto& f = s.faces[i]; if (f.axis_rect && r.chance(.5)) { Vector a = f.loop[0], b = f.loop[2]; d.drawRectangle(a, b); } else if (r.chance(.5)) d.drawPolygon(f.loop); else { auto L = f.loop; d.drawPolygon(L.data(), L.size()); } if (early) d.drawRegion(f.marker, prop(i)); }
    if (!early) { r.shuffle(ord); for (int i : ord) d.drawRegion(s.faces[i].marker, prop(i)); }
}
inline uint64_t scene_hash(const Scene& s) { uint64_t h = s.faces.size(); for (auto& f : s.faces) for (auto& p : f.loop) h = mixd(mixd(h, p.x), p.y); return h; }
// the refinement around magnets is quadratic in the number of points it adds: some 20 times the perimeter over the smallest gap
inline bool few_refining_points(const Scene& s, double area) {
    double per = 0, d = std::sqrt(area) * .5; for (auto& f : s.faces) for (size_t i = 0; i < f.loop.size(); i++) per += (f.loop[(i + 1) % f.loop.size()] - f.loop[i]).norm();
    for (auto& f : s.faces) for (auto& p : f.loop) for (auto& g : s.faces) for (size_t i = 0; i < g.loop.size(); i++) { Vector a = g.loop[i], u = g.loop[(i + 1) % g.loop.size()] - a; double t = ((p - a) * u) / (u * u), e = (p - (a + u * std::min(1., std::max(0., t)))).norm(); if (e > 1e-7 * per) d = std::min(d, e); }
    return per / d < 60;
}
}
