// C23: plots are finite, complete and leave the data alone.
// Every rendered image is judged pixel by pixel: triangles, cells, segments and entries where they belong, colours decoded back to values.
#include "scenario.hpp"
#include <opencv2/opencv.hpp>
#include <unistd.h>
using namespace nikfemm;
using namespace vf;
static const cv::Scalar BG(17, 34, 51);
typedef cv::Vec3b Px;
// position on the colour map (blue 0, cyan .25, green .5, yellow .75, red 1); -1: not a colour of the map
static double decode(Px p, int tol = 2) {
    int b = p[0], g = p[1], r = p[2]; auto hi = [&](int v) { return v >= 255 - tol; }; auto lo = [&](int v) { return v <= tol; };
    if (hi(b) && lo(r)) return g / 255. * .25; if (lo(r) && hi(g)) return .25 + (255 - b) / 255. * .25; if (hi(g) && lo(b)) return .5 + r / 255. * .25; if (hi(r) && lo(b)) return .75 + (255 - g) / 255. * .25; return -1;
}
static bool is_bg(Px p) { return p[0] == 17 && p[1] == 34 && p[2] == 51; }
struct Seen { double v, t; std::string at; };
// the colours are a map of the values: monotone, affine between its ends, the ends reached
static void judge_colours(Ctx& c, std::vector<Seen>& s, const std::vector<double>& field, const char* what) {
    double lo = 1e300, hi = -1e300; for (double v : field) { lo = std::min(lo, v); hi = std::max(hi, v); }
    std::sort(s.begin(), s.end(), [](const Seen& a, const Seen& b) { return a.v < b.v; }); double top = 0, best = -1;
    for (auto& x : s) { c.check(x.t >= 0, "not-a-colour", "%s: the value %g has a colour outside the colour map (%s)", what, x.v, x.at.c_str()); if (x.v > lo + 1e-9 * (hi - lo)) c.check(x.t >= best - .006, "monotone", "%s: the value %g is %.3f of the way from blue to red, a smaller one %.3f (%s)", what, x.v, x.t, best, x.at.c_str()); best = std::max(best, x.t); }
    std::vector<Seen> in; for (auto& x : s) if (x.t > .01 && x.t < .99) in.push_back(x);
    if (in.size() >= 4 && in.back().v - in[0].v > 1e-6 * (hi - lo)) {
        double b = (in.back().t - in[0].t) / (in.back().v - in[0].v), a = in[0].t - b * in[0].v; int n = 0;
        for (auto& x : s) { double want = std::min(1., std::max(0., a + b * x.v)), tol = .008 + .008 / std::max(.02, in.back().t - in[0].t); c.check(std::fabs(x.t - want) < tol, "affine", "%s: the value %g is %.3f of the way from blue to red, between its neighbours it should be %.3f", what, x.v, x.t, want); n++; }
        c.note("colours fitted", n);
    }
    if (field.size() > 20 && hi > lo) { std::vector<double> f = field; std::sort(f.begin(), f.end()); double q1 = f[f.size() / 20], q9 = f[f.size() - 1 - f.size() / 20]; bool all = true; for (size_t i = 1; i < f.size(); i++) if (f[i] == f[i - 1]) all = false;
        if (all) for (auto& x : s) { if (x.v <= q1) c.check(x.t < .35, "blue-end", "%s: %g is among the smallest values but %.3f of the way to red", what, x.v, x.t); if (x.v >= q9) c.check(x.t > .65, "red-end", "%s: %g is among the largest values but only %.3f of the way to red", what, x.v, x.t); } }
    c.note("colours decoded", s.size()); (void)top;
}
template <class M> std::vector<double> make_field(Ctx& c, M& m, bool nodes, std::string& what) {
    auto& d = m.data; int n = nodes ? d.numberofpoints : d.numberoftriangles; std::vector<double> f(n); double a = c.rng.uni(-1, 1), b = c.rng.uni(-1, 1), s = c.rng.logu(1e-12, 1e12), o = c.rng.chance(.4) ? c.rng.uni(-3, 3) * s : 0; int k = c.rng.range(0, 7); double far = 0; for (int i = 0; i < d.numberofpoints; i++) far = std::max(far, d.pointlist[i].norm());
    what = std::vector<std::string>{"linear", "constant", "zero", "noise", "two values", "one outlier", "negative", "increasing"}[k];
    for (int i = 0; i < n; i++) { Vector p = nodes ? d.pointlist[i] : (d.pointlist[d.trianglelist[i][0]] + d.pointlist[d.trianglelist[i][1]] + d.pointlist[d.trianglelist[i][2]]) / 3; double l = (a * p.x + b * p.y) / far;
        f[i] = k == 0 ? l * s + o : k == 1 ? s : k == 2 ? 0 : k == 3 ? c.rng.uni(-s, s) + o : k == 4 ? (l > 0 ? s : o) : k == 5 ? (i == n / 2 ? s : o) : k == 6 ? -c.rng.uni(1, 2) * s : s * i; }
    return f;
}
template <class M> uint64_t all_bits(M& m, const std::vector<double>& f) { uint64_t h = mix(mesh_bits(m.data), drawing_bits(m.drawing)); for (double v : f) h = mixd(h, v); return mixd(mixd(mixd(mixd(h, m.radius), m.center.x), m.center.y), m.epsilon); }
struct Map { double xs, ys, xo, yo; Vector at(Vector p) const { return Vector(xs * p.x + xo, ys * p.y + yo); } };
struct Look { int w, h; bool mesh, regions, clip; };
static Look look(Ctx& c) { Look l; l.w = c.rng.chance(.1) ? c.rng.range(1, 20) : c.rng.range(60, c.thorough ? 900 : 500); l.h = c.rng.chance(.5) ? l.w : c.rng.chance(.1) ? c.rng.range(1, 20) : c.rng.range(60, c.thorough ? 900 : 500); l.mesh = c.rng.chance(.3); l.regions = c.rng.chance(.3); l.clip = c.rng.chance(.5); return l; }
template <class M> Map judge_map(Ctx& c, M& m, const Look& l) {   // the shown part lies in the image and fills a good part of it
    Map k; bool clip = l.clip && m.radius > 0; m.getMeshScaleOffset(l.w, l.h, k.xs, k.ys, k.xo, k.yo, clip); c.check(std::isfinite(k.xs * k.ys * k.xo * k.yo) && k.xs > 0 && k.ys > 0, "map", "the scale is %g %g, the offset %g %g", k.xs, k.ys, k.xo, k.yo); double x0 = 1e300, x1 = -1e300, y0 = 1e300, y1 = -1e300;
    for (int i = 0; i < m.data.numberofpoints; i++) { Vector p = m.data.pointlist[i]; if (clip && p.norm() > m.radius * (1 + 1e-9)) continue; Vector q = k.at(p); x0 = std::min(x0, q.x); x1 = std::max(x1, q.x); y0 = std::min(y0, q.y); y1 = std::max(y1, q.y); }
    c.check(x0 >= -1 && y0 >= -1 && x1 <= l.w + 1 && y1 <= l.h + 1, "outside-image", "the mesh covers pixels %g..%g by %g..%g of an image of %d by %d", x0, x1, y0, y1, l.w, l.h);
    c.check(std::max((x1 - x0) / l.w, (y1 - y0) / l.h) > .25, "tiny", "the mesh covers only %g by %g pixels of an image of %d by %d", x1 - x0, y1 - y0, l.w, l.h); return k;
}
static double tri_margin(Vector p, const Vector* t) { double m = 1e300, o = cross(t[1] - t[0], t[2] - t[0]); for (int k = 0; k < 3; k++) { Vector a = t[k], b = t[(k + 1) % 3]; double L = (b - a).norm(); if (L == 0) return -1e300; m = std::min(m, cross(b - a, p - a) / L * (o < 0 ? -1 : 1)); } return m; }
// far from the device a mesh mapped to infinity may fold over itself: such pixels belong to nobody
static bool only_in(const std::vector<std::array<Vector, 3>>& T, Vector p, const std::vector<int>& mine) { for (int t = 0; t < (int)T.size(); t++) { auto& q = T[t]; if (std::max({q[0].x, q[1].x, q[2].x}) < p.x - 3 || std::min({q[0].x, q[1].x, q[2].x}) > p.x + 3 || std::max({q[0].y, q[1].y, q[2].y}) < p.y - 3 || std::min({q[0].y, q[1].y, q[2].y}) > p.y + 3) continue; if (tri_margin(p, q.data()) > -2 && std::find(mine.begin(), mine.end(), t) == mine.end()) return false; } return true; }
template <class M> bool near_region(M& m, const Map& k, Vector p, double d) { for (auto& r : m.drawing.regions) if ((k.at(r.first) - p).norm() < d) return true; return false; }
template <class M> void judge_elem(Ctx& c, M& m, const std::string& text) {
    Look l = look(c); std::string what; auto f = make_field(c, m, false, what); Map k = judge_map(c, m, l); cv::Mat img(l.h, l.w, CV_8UC3, BG); uint64_t before = all_bits(m, f); m.ElemScalarPlotRend(&img, l.w, l.h, f, l.mesh, l.regions, l.clip);
    c.check(before == all_bits(m, f), "changed", "plotting changed the mesh, the field or the drawing"); bool clip = l.clip && m.radius > 0; auto& d = m.data; std::vector<Seen> seen; long holes = 0, inner = 0; std::vector<std::array<Vector, 3>> T(d.numberoftriangles);
    for (int i = 0; i < d.numberoftriangles; i++) for (int j = 0; j < 3; j++) T[i][j] = k.at(d.pointlist[d.trianglelist[i][j]]);
    for (int i = 0; i < d.numberoftriangles; i++) {
        bool in = true; for (int j = 0; j < 3; j++) { Vector p = d.pointlist[d.trianglelist[i][j]]; if (clip && p.norm() > m.radius * (1 + 1e-9)) in = false; } if (!in) continue;
        for (int s = 0; s < 3; s++) { double a = s ? c.rng.uni(0, 1) : 1 / 3., b = s ? c.rng.uni(0, 1) * (1 - a) : 1 / 3.; Vector p = T[i][0] * a + T[i][1] * b + T[i][2] * (1 - a - b); int x = (int)std::floor(p.x), y = (int)std::floor(p.y); if (x < 0 || y < 0 || x >= l.w || y >= l.h) continue; Px px = img.at<Px>(y, x);
            inner++; if (is_bg(px) && tri_margin(Vector(x + .5, y + .5), T[i].data()) > 1.5) holes++;
            if (tri_margin(Vector(x + .5, y + .5), T[i].data()) < 3 || (l.regions && near_region(m, k, p, 9)) || !only_in(T, Vector(x + .5, y + .5), {i})) continue; seen.push_back({f[i], decode(px), fmt("pixel %d %d of %dx%d: %d %d %d, triangle %d (%.0f %.0f) (%.0f %.0f) (%.0f %.0f)%s%s%s", x, y, l.w, l.h, px[0], px[1], px[2], i, T[i][0].x, T[i][0].y, T[i][1].x, T[i][1].y, T[i][2].x, T[i][2].y, clip ? " clip" : "", l.mesh ? " edges" : "", l.regions ? " regions" : "")}); }
    }
    c.check(holes == 0, "hole", "%ld of %ld pixels inside triangles were not painted", holes, inner); judge_colours(c, seen, f, ("triangles, " + what).c_str()); long out = 0;
    for (int s = 0; s < 60 && !clip; s++) { int x = c.rng.range(0, l.w - 1), y = c.rng.range(0, l.h - 1); Vector p(x + .5, y + .5); double best = 1e300; for (auto& t : T) { if (tri_margin(p, t.data()) > -3) { best = 0; break; } for (int j = 0; j < 3 && best > 3; j++) best = std::min(best, segdist(p, t[j], t[(j + 1) % 3])); } if (best <= 4 || (l.regions && near_region(m, k, p, 9))) continue; out++; c.check(is_bg(img.at<Px>(y, x)), "painted-outside", "the pixel %d %d outside the mesh was painted", x, y); }
    c.note("pixels inside triangles", inner); c.note("pixels outside the mesh", out); c.sample("%s, %s, %dx%d%s%s%s, %zu colours", text.c_str(), what.c_str(), l.w, l.h, l.mesh ? " edges" : "", l.regions ? " regions" : "", clip ? " clipped" : "", seen.size()); c.nontrivial(mix(before, l.w * 1000 + l.h));
}
template <class M> void judge_node(Ctx& c, M& m, const std::string& text) {
    Look l = look(c); std::string what; auto f = make_field(c, m, true, what); Map k = judge_map(c, m, l); cv::Mat img(l.h, l.w, CV_8UC3, BG); uint64_t before = all_bits(m, f); m.NodeScalarPlotRend(&img, l.w, l.h, f, l.mesh, l.regions, l.clip);
    c.check(before == all_bits(m, f), "changed", "plotting changed the mesh, the field or the drawing"); bool clip = l.clip && m.radius > 0; auto& d = m.data; std::vector<std::vector<int>> adj(d.numberofpoints); std::vector<std::array<Vector, 3>> T(d.numberoftriangles); for (int i = 0; i < d.numberoftriangles; i++) for (int j = 0; j < 3; j++) T[i][j] = k.at(d.pointlist[d.trianglelist[i][j]]);
    for (int i = 0; i < d.numberoftriangles; i++) for (int j = 0; j < 3; j++) adj[d.trianglelist[i][j]].push_back(i); std::vector<Seen> seen;
    for (int i = 0; i < d.numberofpoints; i++) {
        if (clip && d.pointlist[i].norm() > m.radius * .999) continue; Vector p = k.at(d.pointlist[i]); std::vector<Vector> B; for (int t : adj[i]) { auto e = d.trianglelist[t]; B.push_back(k.at((d.pointlist[e[0]] + d.pointlist[e[1]] + d.pointlist[e[2]]) / 3)); }
        Vector ctr = p; std::sort(B.begin(), B.end(), [&](Vector a, Vector b) { return atan2(a.y - ctr.y, a.x - ctr.x) < atan2(b.y - ctr.y, b.x - ctr.x); }); if (B.size() < 3) continue;
        double margin = 1e300; for (size_t j = 0; j < B.size(); j++) { Vector a = B[j], b = B[(j + 1) % B.size()]; double L = (b - a).norm(); margin = std::min(margin, L > 0 ? cross(b - a, ctr - a) / L : -1.); }   // star-shaped, seen from its vertex
        if (margin < 4 || (l.regions && near_region(m, k, ctr, 12))) continue; int x = (int)ctr.x, y = (int)ctr.y; if (x < 0 || y < 0 || x >= l.w || y >= l.h) continue; if (l.mesh) { double e = 1e300; for (int t : adj[i]) for (int j = 0; j < 3; j++) e = std::min(e, segdist(ctr, k.at(d.pointlist[d.trianglelist[t][j]]), k.at(d.pointlist[d.trianglelist[t][(j + 1) % 3]]))); if (e < 4) continue; }
        if (!only_in(T, ctr, adj[i])) continue;
        Px px = img.at<Px>(y, x); std::string cell; for (auto& b : B) cell += fmt(" (%.0f %.0f)", b.x, b.y); seen.push_back({f[i], decode(px), fmt("pixel %d %d of %dx%d: %d %d %d, vertex %d at %.0f %.0f, cell%s, margin %.1f%s%s%s", x, y, l.w, l.h, px[0], px[1], px[2], i, p.x, p.y, cell.c_str(), margin, clip ? " clip" : "", l.mesh ? " edges" : "", l.regions ? " regions" : "")});
    }
    judge_colours(c, seen, f, ("vertices, " + what).c_str()); long strange = 0; for (int s = 0; s < 300; s++) { Px p = img.at<Px>(c.rng.range(0, l.h - 1), c.rng.range(0, l.w - 1)); if (!is_bg(p) && decode(p) < 0 && !(p[0] == 0 && p[1] == 0 && p[2] == 0)) strange++; } c.check(strange == 0, "not-a-colour", "%ld sampled pixels have colours outside the colour map", strange);
    c.sample("%s, %s, %dx%d%s%s%s, %zu colours", text.c_str(), what.c_str(), l.w, l.h, l.mesh ? " edges" : "", l.regions ? " regions" : "", clip ? " clipped" : "", seen.size()); c.nontrivial(mix(before, l.w * 1000 + l.h));
}
template <class F> void with_mesh(Ctx& c, double nt, F go) {
    SceneOpt so; so.max_shapes = 4; so.circles = c.rng.chance(.3); Scene s = random_scene(c.rng, so); double rr = 0; for (auto& f : s.faces) for (auto& v : f.loop) rr = std::max(rr, (v - s.faces[0].loop[0]).norm()); double area = std::max(s.total, c.rng.chance(.5) ? rr * rr : 0.) / c.rng.logu(3, nt); int q = std::min(25, (int)(s.minang * .4));
    if (c.rng.chance(.5)) { MagnetostaticSimulation sim; draw_scene(c.rng, sim.mesh.drawing, s, [&](int f) { return MagnetostaticProp{1. + s.faces[f].mat, {0, 0}, magnetostatic_materials::air, {}}; }); sim.generateSystem(false, std::max(area, 7 * rr * rr / (4 * nt)), q); if (sim.mesh.data.numberoftriangles > 12 * nt) throw CaseSkip(); go(sim.mesh, s); }
    else { CurrentDensitySimulation sim; draw_scene(c.rng, sim.mesh.drawing, s, [&](int f) { return CurrentDensityProp{1. + s.faces[f].mat}; }); sim.generateSystem(false, area, q); if (sim.mesh.data.numberoftriangles > 12 * nt) throw CaseSkip(); go(sim.mesh, s); }
}
static double NT(Ctx& c) { return c.thorough ? 500 : 150; }
VF_SUITE(triangles, 600, 5000) { with_mesh(c, NT(c), [&](auto& m, Scene& s) { judge_elem(c, m, s.text); }); }
VF_SUITE(vertices, 300, 3000) { with_mesh(c, NT(c), [&](auto& m, Scene& s) { judge_node(c, m, s.text); }); }
VF_SUITE(colours, 3000, 60000) {   // the colour map itself
    double s = c.rng.logu(1e-150, 1e150), lo = c.rng.uni(-2, 2) * s, hi = lo + c.rng.pick(std::vector<double>{0, 1, 1, 1, 1e-6, 1e-12}) * s * c.rng.uni(0, 3); double last = -1; if (hi < lo) hi = lo;
    std::vector<double> v{lo, hi, lo - s, hi + s, -1e300, 1e300, lo + (hi - lo) / 4, lo + (hi - lo) / 2, lo + (hi - lo) * .75}; for (int i = 0; i < 40; i++) v.push_back(lo + (hi - lo) * c.rng.uni(-.2, 1.2)); std::sort(v.begin(), v.end());
    double slack = .01 + (hi > lo ? 1e-12 * std::fabs(s) / (hi - lo) > .2 ? 1e9 : 1e-12 * std::fabs(s) / (hi - lo) : 0);   // rounding
    for (double x : v) { cv::Scalar k = val2jet(x, lo, hi); for (int i = 0; i < 3; i++) c.check(k[i] >= -slack && k[i] <= 255 + slack, "range", "the colour of %g in %g..%g is %g %g %g", x, lo, hi, k[0], k[1], k[2]); double t = decode(Px(cvRound(k[0]), cvRound(k[1]), cvRound(k[2]))); c.check(t >= 0, "not-a-colour", "%g in %g..%g is not on the colour map", x, lo, hi); c.check(t >= last - .003 - slack, "monotone", "%g in %g..%g is bluer than a smaller value", x, lo, hi); last = std::max(last, t);
        if (hi - lo > 1e-9 * std::fabs(s)) { double w = std::min(1., std::max(0., (x - lo) / (hi - lo))); c.check(std::fabs(t - w) < .01, "affine", "%g in %g..%g is %.3f of the way to red, not %.3f", x, lo, hi, t, w); } }
    c.note("colours decoded", v.size()); c.nontrivial(mixd(mixd(1, lo), hi));
}
VF_SUITE(drawings, 600, 6000) {   // every segment, point and marker is shown, nothing else
    SceneOpt so; so.max_shapes = 5; so.circles = true; Scene s = random_scene(c.rng, so); Drawing<CurrentDensityProp> d; int kind = c.rng.range(0, 9);
    if (kind == 0) { if (c.rng.chance(.7)) d.drawPoint(Vector(c.rng.uni(-5, 5), c.rng.uni(-5, 5))); if (c.rng.chance(.5)) d.drawRegion(Vector(c.rng.uni(-1, 1), 0), {1}); }
    else if (kind == 1) d.drawPolygon(std::vector<Vector>{Vector(c.rng.uni(-5, 5), 3), Vector(c.rng.uni(-5, 5), c.rng.chance(.5) ? 3. : 4.)});
    else draw_scene(c.rng, d, s, [&](int f) { return CurrentDensityProp{1. + s.faces[f].mat}; });
    Look l = look(c); cv::Mat img(l.h, l.w, CV_8UC3, BG); uint64_t before = drawing_bits(d); d.plotRend(&img, l.w, l.h); c.check(before == drawing_bits(d), "changed", "plotting changed the drawing");
    if (d.segments.empty()) { c.sample("%zu points, %dx%d", d.points.size(), l.w, l.h); c.nontrivial(mix(kind, l.w)); return; }
    double x0 = 1e300, x1 = -1e300, y0 = 1e300, y1 = -1e300; for (auto& p : d.points) { x0 = std::min(x0, p.x); x1 = std::max(x1, p.x); y0 = std::min(y0, p.y); y1 = std::max(y1, p.y); }
    // find the scale by the painted area, then judge every segment
    long px0 = 1 << 30, px1 = -1, py0 = 1 << 30, py1 = -1, painted = 0; for (int y = 0; y < l.h; y++) for (int x = 0; x < l.w; x++) if (!is_bg(img.at<Px>(y, x))) { painted++; px0 = std::min<long>(px0, x); px1 = std::max<long>(px1, x); py0 = std::min<long>(py0, y); py1 = std::max<long>(py1, y); }
    c.check(painted > 0, "empty", "nothing was painted"); if (l.w < 60 || l.h < 60 || kind < 2) { c.sample("%zu segments, %dx%d", d.segments.size(), l.w, l.h); c.nontrivial(mix(before, l.w)); return; }
    double e = std::max(x1 - x0, y1 - y0); if (std::min(l.w, l.h) >= 150) c.check(px0 > 0 && py0 > 0 && px1 < l.w - 1 && py1 < l.h - 1, "outside-image", "the drawing reaches the border of the image (%ld..%ld by %ld..%ld of %dx%d)", px0, px1, py0, py1, l.w, l.h);
    c.check(std::max((px1 - px0) / (double)l.w, (py1 - py0) / (double)l.h) > .5, "tiny", "the drawing covers %ld by %ld pixels of %dx%d", px1 - px0, py1 - py0, l.w, l.h);
    // markers may stick out of the drawing by at most their own size: the middle and the scale follow from the outline
    double xs = (px1 - px0 + 1) / (x1 - x0 + 1e-300), ys = (py1 - py0 + 1) / (y1 - y0 + 1e-300), sx = x1 - x0 >= y1 - y0 ? xs : 0, sy = sx ? 0 : ys; if (sx) sx = (px1 - px0 - 4) / (x1 - x0); else sy = (py1 - py0 - 4) / (y1 - y0); if (!sy) sy = sx * l.h / l.w; if (!sx) sx = sy * l.w / l.h; double cx = (px0 + px1) / 2., cy = (py0 + py1) / 2.; (void)e;
    bool wide = false; for (auto& r : d.regions) { double rx = std::min(r.first.x - x0, x1 - r.first.x) * sx, ry = std::min(r.first.y - y0, y1 - r.first.y) * sy; if (rx < 8 || ry < 8) wide = true; } if (wide) { cx = l.w / 2.; cy = l.h / 2.; sx = .9 * l.w / e; sy = .9 * l.h / e; }
    auto at = [&](Vector p) { return Vector(cx + (p.x - (x0 + x1) / 2) * sx, cy + (p.y - (y0 + y1) / 2) * sy); }; long on = 0, off = 0;
    auto lit = [&](Vector q, int r) { for (int y = (int)q.y - r; y <= (int)q.y + r; y++) for (int x = (int)q.x - r; x <= (int)q.x + r; x++) if (x >= 0 && y >= 0 && x < l.w && y < l.h && !is_bg(img.at<Px>(y, x))) return true; return false; };
    for (auto& g : d.segments) for (int i = 0; i <= 6; i++) { Vector q = at(d.points[g.p1] + (d.points[g.p2] - d.points[g.p1]) * (i / 6.)); on++; c.check(lit(q, 3), "segment-missing", "a segment is not shown near pixel %.0f %.0f", q.x, q.y); }
    for (auto& r : d.regions) { on++; c.check(lit(at(r.first), 3), "marker-missing", "a region marker is not shown"); }
    for (int i = 0; i < 200; i++) { int x = c.rng.range(0, l.w - 1), y = c.rng.range(0, l.h - 1); Vector p(x, y); bool near = false; for (auto& g : d.segments) if (segdist(p, at(d.points[g.p1]), at(d.points[g.p2])) < 8) { near = true; break; } for (auto& r : d.regions) if ((at(r.first) - p).norm() < 12) near = true; for (auto& q : d.points) if ((at(q) - p).norm() < 9) near = true; if (near) continue; off++; c.check(is_bg(img.at<Px>(y, x)), "painted-outside", "the pixel %d %d is far from everything drawn but painted", x, y); }
    c.note("places of the drawing found", on); c.note("empty places", off); c.sample("%s, %dx%d", s.text.c_str(), l.w, l.h); c.nontrivial(mix(before, l.w * 1000 + l.h));
}
struct Scratch { char t[64] = "/tmp/vf-c23-XXXXXX"; Scratch() { if (!mkdtemp(t)) abort(); } ~Scratch() { for (const char* f : {"/a.png", "/b.png"}) unlink((std::string(t) + f).c_str()); rmdir(t); } std::string f(const char* n) { return std::string(t) + n; } };
VF_SUITE(matrices, 300, 3000) {
    Scratch t; int n = c.rng.range(1, 50); MatCOOSymmetric<double> A(n); int sign = c.rng.range(-1, 1); double s = c.rng.logu(1e-9, 1e9); for (int i = 0; i < n; i++) { if (c.rng.chance(.9)) A(i, i) = s * (sign ? sign * c.rng.uni(.1, 1) : c.rng.uni(-1, 1)); for (int k = 0; k < 3; k++) { int j = c.rng.range(i, n - 1); if (j > i) A(i, j) = s * (sign ? sign * c.rng.uni(.1, 1) : c.rng.uni(-1, 1)); } }
    if (c.rng.chance(.1)) for (auto& e : A.elems) e.second = s; MatCSRSymmetric M(A); auto v = M.val, g = M.diag; M.plot(t.f("/a.png")); c.check(v == M.val && g == M.diag, "changed", "plotting changed the matrix"); cv::Mat img = cv::imread(t.f("/a.png")); c.check(img.rows == n && img.cols == n, "size", "the image of a matrix of %d rows is %dx%d", n, img.cols, img.rows); std::vector<Seen> seen; std::vector<double> all;
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double x = M(i, j); Px p = img.at<Px>(i, j); if (x == 0) c.check(p == Px(0, 0, 0), "empty-entry", "the empty entry %d %d is painted", i, j); else { seen.push_back({x, decode(p, 3)}); all.push_back(x); } }
    if (all.size()) judge_colours(c, seen, all, "matrix"); double lo = 1e300, hi = -1e300; for (double x : all) { lo = std::min(lo, x); hi = std::max(hi, x); } bool zero = false; for (double x : M.diag) if (x == 0) zero = true;   // an empty diagonal entry counts as zero
    if (zero) { lo = std::min(lo, 0.); hi = std::max(hi, 0.); } if (hi > lo) for (auto& x : seen) c.check(std::fabs(x.t - (x.v - lo) / (hi - lo)) < .02, "affine", "the entry %g in %g..%g is %.3f of the way to red", x.v, lo, hi, x.t); c.nontrivial(mixd(n, s));
}
VF_SUITE(files, 80, 800) {   // files show what is rendered, upside up; vectors are shown by their length
    Scratch t; with_mesh(c, 60, [&](auto& m, Scene& s) {
        Look l = look(c); std::string what; bool nodes = c.rng.chance(.4), vec = c.rng.chance(.4); auto f = make_field(c, m, nodes, what); std::vector<Vector> F; if (vec) { for (auto& x : f) { double a = c.rng.uni(0, 6.28); F.push_back(Vector(cos(a), sin(a)) * x); } for (size_t i = 0; i < f.size(); i++) f[i] = std::sqrt(F[i].x * F[i].x + F[i].y * F[i].y); }
        cv::Mat a(l.h, l.w, CV_8UC3, nodes ? cv::Scalar(255, 255, 255) : cv::Scalar(0, 0, 0)); if (nodes) { m.NodeScalarPlotRend(&a, l.w, l.h, f, l.mesh, l.regions, l.clip); vec ? m.NodeScalarPlotToFile(l.w, l.h, F, t.f("/a.png"), l.mesh, l.regions, l.clip) : m.NodeScalarPlotToFile(l.w, l.h, f, t.f("/a.png"), l.mesh, l.regions, l.clip); }
        else { m.ElemScalarPlotRend(&a, l.w, l.h, f, l.mesh, l.regions, l.clip); vec ? m.ElemScalarPlotToFile(l.w, l.h, F, t.f("/a.png"), l.mesh, l.regions, l.clip) : m.ElemScalarPlotToFile(l.w, l.h, f, t.f("/a.png"), l.mesh, l.regions, l.clip); }
        auto same = [&](const cv::Mat& a, const char* file, const char* w) { cv::Mat b = cv::imread(t.f(file)), z; c.check(b.rows == l.h && b.cols == l.w, "size", "the file of a %dx%d %s is %dx%d", l.w, l.h, w, b.cols, b.rows); cv::Mat b0 = b.clone(); cv::flip(b, b, 0); long d = 0, d0 = 0; for (int y = 0; y < l.h; y++) for (int x = 0; x < l.w; x++) { Px p = a.at<Px>(y, x), q = b.at<Px>(y, x); for (int k = 0; k < 3; k++) if (std::abs(p[k] - q[k]) > 12) { d++; break; } q = b0.at<Px>(y, x); for (int k = 0; k < 3; k++) if (std::abs(p[k] - q[k]) > 12) { d0++; break; } } if (w[0] == 'd') d = std::min(d, d0);   /* the orientation of drawings is not specified */ c.check(d * 200 <= l.w * l.h, "file", "the file of a %s differs from what is rendered in %ld of %d pixels", w, d, l.w * l.h); c.note("pixels compared with files", l.w * l.h); };
        same(a, "/a.png", nodes ? "node plot" : "triangle plot"); cv::Mat b = cv::Mat::zeros(l.h, l.w, CV_8UC3); m.drawing.plotRend(&b, l.w, l.h); m.drawing.plotToFile(l.w, l.h, t.f("/b.png")); same(b, "/b.png", "drawing"); c.sample("%s, %s, %dx%d", s.text.c_str(), what.c_str(), l.w, l.h); c.nontrivial(mix(scene_hash(s), l.w));
    });
}
VF_SUITE(hostile, 300, 2000) {   // fields of another size are refused; fans of many triangles, extreme values and tiny images do not break anything
    int kind = c.rng.range(0, 3);
    if (kind == 0) { with_mesh(c, 30, [&](auto& m, Scene& s) { cv::Mat img(40, 40, CV_8UC3, BG); size_t n = m.data.numberoftriangles, p = m.data.numberofpoints; std::vector<double> a(c.rng.pick(std::vector<size_t>{0, 1, n - 1, n + 1, n * 2}), 1.), b(c.rng.pick(std::vector<size_t>{0, 1, p - 1, p + 1, p * 2}), 1.);
        if (a.size() != n) c.check(!caught([&] { m.ElemScalarPlotRend(&img, 40, 40, a, false, false, false); }).empty(), "accepted", "a field of %zu values on %zu triangles was accepted", a.size(), n); if (b.size() != p) c.check(!caught([&] { m.NodeScalarPlotRend(&img, 40, 40, b, false, false, false); }).empty(), "accepted", "a field of %zu values on %zu vertices was accepted", b.size(), p); c.nontrivial(scene_hash(s)); }); }
    else if (kind == 1) { CurrentDensitySimulation sim; int n = c.rng.range(200, 330); sim.mesh.drawing.drawCircle(Vector(0, 0), 1, n); sim.mesh.drawing.drawPoint(Vector(0, 0)); sim.mesh.drawing.drawRegion(Vector(.1, .05), {1}); sim.generateSystem(false, 10, 0); judge_node(c, sim.mesh, "fan"); }
    else if (kind == 2) { with_mesh(c, 40, [&](auto& m, Scene& s) { int w = c.rng.range(1, 4), h = c.rng.range(1, 4); cv::Mat img(h, w, CV_8UC3, BG); std::vector<double> a(m.data.numberoftriangles), b(m.data.numberofpoints); for (auto* v : {&a, &b}) for (auto& x : *v) x = c.rng.pick(std::vector<double>{0, -0., 1e150, -1e150, 1e-310, 1, 1e-160}); m.ElemScalarPlotRend(&img, w, h, a, true, true, true); m.NodeScalarPlotRend(&img, w, h, b, true, true, true); m.drawing.plotRend(&img, w, h); c.nontrivial(scene_hash(s)); }); }
    else { CurrentDensitySimulation sim; Vector o(c.rng.uni(-1, 1) * c.rng.logu(1, 1e6), c.rng.uni(-1, 1) * 1e3); sim.mesh.drawing.drawRectangle(o, o + Vector(c.rng.logu(.05, 20), c.rng.logu(.05, 20))); sim.mesh.drawing.drawRegion(o + Vector(.01, .01), {1}); sim.generateSystem(false, c.rng.logu(.01, 10), 20); if (sim.mesh.data.numberoftriangles > 3000) throw CaseSkip(); c.rng.chance(.5) ? judge_elem(c, sim.mesh, "bar") : judge_node(c, sim.mesh, "bar"); }
}
VF_MAIN
