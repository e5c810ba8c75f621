// C09: a drawing is always a consistent planar description of the shapes drawn into it.
#include "geo.hpp"
#include <nikfemm.hpp>
using namespace nikfemm;
using namespace vf;
typedef Drawing<CurrentDensityProp> D;
typedef long double ld;

struct Shape { std::vector<IP> v; int kind; };   // vertices in grid units
static Shape gen_shape(Ctx& c, i64 R) {
    Shape s; s.kind = c.rng.range(0, 2); i64 x = c.rng.range(-R, R), y = c.rng.range(-R, R);
    if (s.kind == 0) { i64 w = c.rng.range(1, R), h = c.rng.range(1, R); s.v = {{x, y}, {x + w, y}, {x + w, y + h}, {x, y + h}}; }
    else { s.v = random_simple(c.rng, c.rng.range(3, 8), std::max<i64>(2, R / 2)); for (auto& p : s.v) { p.x += x; p.y += y; } s.kind = 1; }
    return s;
}
static std::vector<std::pair<IP, IP>> edges(const Shape& s) { std::vector<std::pair<IP, IP>> e; for (size_t i = 0; i < s.v.size(); i++) e.push_back({s.v[i], s.v[(i + 1) % s.v.size()]}); return e; }

// structural monitor, evaluated after every operation
static void audit(Ctx& c, const D& d, const char* when) {
    for (size_t i = 0; i < d.segments.size(); i++) {
        auto& s = d.segments[i];
        c.check(s.p1 < d.points.size() && s.p2 < d.points.size(), "segment-id", "after %s: segment %zu refers to point %u/%u of %zu", when, i, s.p1, s.p2, d.points.size());
        c.check(s.p1 != s.p2, "segment-degenerate", "after %s: segment %zu joins point %u to itself", when, i, s.p1);
    }
    std::set<std::pair<uint32_t, uint32_t>> seen;
    for (auto& s : d.segments) c.check(seen.insert({std::min(s.p1, s.p2), std::max(s.p1, s.p2)}).second, "segment-twice", "after %s: segment %u-%u is stored twice", when, s.p1, s.p2);
    for (size_t i = 0; i < d.points.size(); i++) for (size_t j = i + 1; j < d.points.size(); j++)
        c.check(Vector::distance(d.points[i], d.points[j]) >= 1e-9, "point-twice", "after %s: points %zu and %zu coincide at (%.17g,%.17g)", when, i, j, d.points[i].x, d.points[i].y);
    for (auto& r : d.regions) c.check(r.second < d.region_map.size(), "region-id", "after %s: region refers to property %u of %zu", when, r.second, d.region_map.size());
    for (size_t i = 0; i < d.region_map.size(); i++) for (size_t j = i + 1; j < d.region_map.size(); j++) c.check(d.region_map[i] != d.region_map[j], "property-twice", "after %s: equal properties have ids %zu and %zu", when, i, j);
}
static bool covers(const D& d, Vector a, Vector b) {
    auto near = [](Vector p, Vector q) { return Vector::distance(p, q) < 2e-9; };
    for (auto& s : d.segments) if ((near(d.points[s.p1], a) && near(d.points[s.p2], b)) || (near(d.points[s.p1], b) && near(d.points[s.p2], a))) return true;
    return false;
}

template <class D> static std::vector<double> state(const D& d) {
    std::vector<double> o{(double)d.points.size(), (double)d.segments.size(), (double)d.polygons.size(), (double)d.regions.size()};
    for (auto& p : d.points) o.insert(o.end(), {p.x, p.y}); for (auto& e : d.segments) o.insert(o.end(), {(double)e.p1, (double)e.p2}); for (auto& g : d.polygons) for (auto& p : g.points) o.insert(o.end(), {p.x, p.y});
    return o;
}
// random shapes on a grid; the oracle decides from exact geometry what has to be accepted and what has to be rejected
VF_SUITE(shapes, 1500, 30000) {
    i64 R = c.rng.pick(std::vector<i64>({4, 10, 40}) = {4, 10, 40}); double sc = std::ldexp(1.0, c.rng.range(-8, 6)), ox = c.rng.chance(0.5) ? 0 : c.rng.range(-64, 64) * sc * 4;
    D d; std::vector<std::pair<IP, IP>> have; std::vector<Shape> drawn; int nrej = 0, nacc = 0, nshare = 0;
    auto V = [&](IP p) { return Vector(p.x * sc + ox, p.y * sc); };
    int n = c.rng.range(1, 9);
    c.sample("up to %d shapes on a grid of %ld, scale %g", n, (long)R, sc);
    for (int k = 0; k < n; k++) {
        Shape s = gen_shape(c, R);
        if (c.rng.chance(0.25) && !drawn.empty()) {   // a neighbour that shares a full side or only a corner with an earlier rectangle
            auto& o = drawn[c.rng.range(0, drawn.size() - 1)]; s.kind = 0;
            if (o.kind == 0) { i64 w = o.v[2].x - o.v[0].x, h = o.v[2].y - o.v[0].y, q = c.rng.range(0, 2), wi = c.rng.range(1, R); IP a = q == 0 ? IP{o.v[2].x, o.v[0].y} : q == 1 ? IP{o.v[0].x, o.v[2].y} : o.v[2]; i64 ww = q == 1 ? w : wi, hh = q == 0 ? h : q == 1 ? wi : c.rng.range(1, R); s.v = {a, {a.x + ww, a.y}, {a.x + ww, a.y + hh}, {a.x, a.y + hh}}; }
            else s = o;
        }
        bool proper = false, touch = false, into = false;
        for (auto& e : edges(s)) for (auto& h : have) {
            if (seg_proper(e.first, e.second, h.first, h.second)) proper = true;
            else if (seg_touch(e.first, e.second, h.first, h.second)) {
                bool share = e.first == h.first || e.first == h.second || e.second == h.first || e.second == h.second;
                // sharing exactly an end point, or being the same segment, is a clean contact; everything else is not judged
                bool same = (e.first == h.first && e.second == h.second) || (e.first == h.second && e.second == h.first);
                IP far = e.first == h.first || e.first == h.second ? e.second : e.first, hfar = h.first == e.first || h.first == e.second ? h.second : h.first;
                if (same || (share && !onseg(h.first, h.second, far) && !onseg(e.first, e.second, hfar))) nshare++; else if (share) touch = true; else into = true;   // ends on, or runs along, a segment it shares no point with
            }
        }
        size_t np = d.polygons.size();
        std::vector<Vector> vv; for (auto& p : s.v) vv.push_back(V(p));
        int how = c.rng.range(0, 2);
        if (touch && !proper && !into) { c.note("touching shapes (not judged, not drawn)"); continue; }
        auto before = state(d);
        std::string ex = caught([&] {
            if (s.kind == 0 && how == 0) d.drawRectangle(vv[0], vv[2]);
            else if (s.kind == 0 && how == 1) d.drawRectangle(vv[0], vv[2].x - vv[0].x, vv[2].y - vv[0].y);
            else if (how == 2) d.drawPolygon(Polygon(vv)); else d.drawPolygon(vv);
        });
        std::string w; for (auto& p : s.v) w += fmt("(%ld,%ld)", p.x, p.y);
        if (into && !proper) { nrej++; c.note("shapes running into others rejected"); c.check(!ex.empty(), "contact-accepted", "shape %s runs into an earlier one between its end points and was accepted", w.c_str()); audit(c, d, "a rejected shape"); c.check(ex.empty() || state(d) == before, "rejected-left-traces", "a part of shape %s, which was rejected, is in the drawing", w.c_str()); if (ex.empty()) break; continue; }
        if (proper) { nrej++; c.check(!ex.empty(), "crossing-accepted", "shape %s crosses an earlier one and was accepted", w.c_str()); audit(c, d, "a rejected shape"); c.check(ex.empty() || state(d) == before, "rejected-left-traces", "a part of shape %s, which was rejected, is in the drawing", w.c_str()); if (ex.empty()) break; continue; }
        c.check(ex.empty(), "clean-shape-rejected", "shape %s does not cross anything and was rejected: %s", w.c_str(), ex.c_str());
        nacc++;
        audit(c, d, "a shape");
        c.check(d.polygons.size() == np + 1 && d.polygons.back().points.size() == vv.size(), "polygon-recorded", "%zu polygons after drawing one more than %zu", d.polygons.size(), np);
        for (size_t i = 0; i < vv.size(); i++) {
            c.check(covers(d, vv[i], vv[(i + 1) % vv.size()]), "edge-missing", "edge %zu of shape %s is not in the drawing", i, w.c_str());
            bool f = false; for (auto& p : d.polygons.back().points) f |= Vector::distance(p, vv[i]) < 1e-9; c.check(f, "polygon-vertex", "vertex %zu of shape %s is not in the recorded polygon", i, w.c_str());
        }
        for (auto& e : edges(s)) have.push_back(e);
        drawn.push_back(s);
        // nothing drawn earlier is lost
        for (int q = 0; q < 5; q++) { auto& e = have[c.rng.range(0, have.size() - 1)]; c.check(covers(d, V(e.first), V(e.second)), "edge-lost", "an edge drawn earlier is gone"); }
        std::set<std::pair<IP, IP>> uniq; for (auto& e : have) uniq.insert(e.first < e.second ? e : std::make_pair(e.second, e.first));
        c.check(d.segments.size() == uniq.size(), "segment-count", "%zu segments, %zu distinct edges were drawn", d.segments.size(), uniq.size());
        if (c.rng.chance(0.3)) { Vector p = c.rng.chance(0.5) ? V(s.v[0]) : V({c.rng.range(-R, R), c.rng.range(-R, R)}); d.drawPoint(p); bool f = false; for (auto& q : d.points) f |= Vector::distance(p, q) < 1e-9; c.check(f, "point-missing", "a drawn point is not in the drawing"); audit(c, d, "a point"); }
    }
    c.note("shapes accepted", nacc); c.note("crossing shapes rejected", nrej); c.note("clean contacts", nshare);
    uint64_t h = R; for (auto& e : have) h = mix(h, e.first.x * 31 + e.first.y * 131 + e.second.x * 1031 + e.second.y); if (nacc > 1 || nrej) c.nontrivial(h);
}

// translation moves everything rigidly
VF_SUITE(translate, 300, 5000) {
    D d; double s = c.rng.logu(0.01, 100); d.drawRectangle(Vector(0, 0), s, s * 0.7); d.drawCircle(Vector(3 * s, 0), s * 0.6, c.rng.range(3, 30)); d.drawRegion(Vector(s / 2, s / 3), {1}); d.drawRegion(Vector(3 * s, 0), {2}); d.drawPoint(Vector(-s, -s));
    D e = d; Vector v(c.rng.uni(-9, 9) * s, c.rng.uni(-9, 9) * s); int m = c.rng.range(1, 3); for (int i = 0; i < m; i++) e.translate(v);
    auto same = [&](Vector a, Vector b, const char* k) { c.check(Vector::distance(a + v * m, b) < 1e-12 * s * 100, k, "(%.17g,%.17g) moved by (%g,%g) %d times is (%.17g,%.17g)", a.x, a.y, v.x, v.y, m, b.x, b.y); };
    c.check(d.points.size() == e.points.size() && d.segments.size() == e.segments.size() && d.regions.size() == e.regions.size() && d.polygons.size() == e.polygons.size(), "translate-count", "moving changed the number of elements");
    for (size_t i = 0; i < d.points.size(); i++) same(d.points[i], e.points[i], "translate-points");
    for (size_t i = 0; i < d.regions.size(); i++) { same(d.regions[i].first, e.regions[i].first, "translate-regions"); c.check(d.regions[i].second == e.regions[i].second, "translate-regions", "property id changed"); }
    for (size_t i = 0; i < d.polygons.size(); i++) for (size_t j = 0; j < d.polygons[i].points.size(); j++) same(d.polygons[i].points[j], e.polygons[i].points[j], "translate-polygons");
    c.check(d.segments == e.segments, "translate-segments", "moving changed the segments");
    c.sample("extent %g moved by (%g,%g)", s, v.x, v.y); c.nontrivial(mixd(mixd(1, s), v.x));
}

// circles become closed regular polygons at every radius, position and segment count
VF_SUITE(circle, 600, 10000) {
    D d; uint32_t n = c.rng.chance(0.1) ? c.rng.range(100, 600) : c.rng.range(3, 60); double r = c.rng.logu(1e-4, 1e5); Vector o(c.rng.chance(0.3) ? 0 : c.rng.uni(-3, 3) * r, c.rng.uni(-3, 3) * r);
    if (2 * r * sin(M_PI / n) < 1e-7) c.skip();
    if (c.rng.chance(0.5)) d.drawCircle(o, r, n); else d.drawCircle(Circle(o, r), n);
    c.sample("radius %g, %u segments, centre (%g,%g)", r, n, o.x, o.y);
    audit(c, d, "a circle");
    c.check(d.points.size() == n && d.segments.size() == n, "circle-closed", "circle of %u segments has %zu points and %zu segments", n, d.points.size(), d.segments.size());
    std::vector<int> deg(n, 0); for (auto& s : d.segments) { deg[s.p1]++; deg[s.p2]++; double l = Vector::distance(d.points[s.p1], d.points[s.p2]); c.check(fabs(l - 2 * r * sin(M_PI / n)) < 1e-9 * (r + fabs(o.x) + fabs(o.y)), "circle-regular", "segment of length %.17g, regular polygon has %.17g", l, 2 * r * sin(M_PI / n)); }
    for (int k : deg) c.check(k == 2, "circle-closed", "a vertex of the circle has %d segments", k);
    for (auto& p : d.points) c.check(fabs(Vector::distance(p, o) - r) < 1e-10 * (r + fabs(o.x) + fabs(o.y)), "circle-radius", "vertex at distance %.17g from the centre of a circle of radius %.17g", Vector::distance(p, o), r);
    c.check(d.polygons.size() == 1 && d.polygons[0].points.size() == n, "circle-polygon", "polygon of the circle has the wrong size");
    c.check(d.polygons[0].contains(o), "circle-polygon", "the circle does not contain its centre");
    c.nontrivial(mixd(n, r));
}

// property registration: equal properties share an id, ids give back the property
VF_SUITE(regions, 500, 8000) {
    D d; std::vector<double> vals; int n = c.rng.range(1, 30);
    for (int i = 0; i < n; i++) { double v = c.rng.chance(0.5) && !vals.empty() ? vals[c.rng.range(0, vals.size() - 1)] : c.rng.logu(1e-9, 1e9); vals.push_back(v); Vector p(i, -i); d.drawRegion(p, {v});
        c.check(d.regions.size() == (size_t)i + 1 && d.regions.back().first == p, "region-recorded", "region %d not recorded where it was drawn", i); }
    audit(c, d, "regions");
    for (int i = 0; i < n; i++) { const CurrentDensityProp* p = d.getRegionPtrFromId(d.regions[i].second); c.check(p && p->sigma == vals[i], "region-property", "region %d has conductivity %g, drawn with %g", i, p->sigma, vals[i]); c.check(d.getRegionId({vals[i]}) == d.regions[i].second, "region-id-stable", "id of a registered property changed"); }
    c.check(throws_std([&] { d.getRegionPtrFromId(d.region_map.size() + c.rng.range(0, 1000)); }), "unknown-region-accepted", "an unknown region id was accepted");
    c.sample("%d regions, %zu properties", n, d.region_map.size()); c.nontrivial(mix(n, d.region_map.size()));
}

// materials that differ in any one field are different materials
VF_SUITE(materials, 500, 8000) {
    Drawing<MagnetostaticProp> d; std::vector<MagnetostaticProp> pool, drawn; MagnetostaticProp base{c.rng.chance(.5) ? 0 : c.rng.logu(1e-3, 1e9), Vector(c.rng.chance(.5) ? 0 : c.rng.uni(-1e6, 1e6), c.rng.uni(-1e6, 1e6)), c.rng.logu(1e-7, 1e-1), {}};
    int k = c.rng.chance(.3) ? 0 : c.rng.range(2, 6); double B = 0, H = 0; for (int i = 0; i < k; i++) base.bh_curve.insert({B += c.rng.uni(.1, 1), H += c.rng.logu(10, 1e5)});
    pool.push_back(base);
    for (int t = 0; t < 10; t++) {
        MagnetostaticProp p = pool[c.rng.range(0, pool.size() - 1)]; double f = c.rng.chance(.5) ? 2 : 1 + 1e-15;
        switch (c.rng.range(0, 7)) {
            case 0: p.J = p.J == 0 ? 1 : p.J * f; break; case 1: p.J = -p.J; break; case 2: p.M.x = p.M.x == 0 ? 1 : p.M.x * f; break; case 3: p.M.y *= f; break; case 4: std::swap(p.M.x, p.M.y); break; case 5: p.mu *= f; break;
            case 6: if (k) { auto v = std::vector<BH_Point>(p.bh_curve.begin(), p.bh_curve.end()); int q = c.rng.range(0, v.size() - 1); (c.rng.chance(.5) ? v[q].H : v[q].B) *= 1 + 1e-3; p.bh_curve = BH_Curve(v.begin(), v.end()); } break;
            default: if (k) { double b = p.bh_curve.rbegin()->B, h = p.bh_curve.rbegin()->H; if (c.rng.chance(.3) && p.bh_curve.size() > 2) p.bh_curve.erase(std::prev(p.bh_curve.end())); else p.bh_curve.insert({b + 1, h * 2}); } else p.bh_curve = {{1, 1000}, {2, 3000}}; }
        pool.push_back(p);
    }
    auto same = [](const MagnetostaticProp& a, const MagnetostaticProp& b) {
        if (a.J != b.J || a.M.x != b.M.x || a.M.y != b.M.y || a.mu != b.mu || a.bh_curve.size() != b.bh_curve.size()) return false;
        for (auto i = a.bh_curve.begin(), j = b.bh_curve.begin(); i != a.bh_curve.end(); i++, j++) if (i->B != j->B || i->H != j->H) return false;
        return true; };
    // vectors closer than the library's tolerance count as equal
    auto near = [&](const MagnetostaticProp& a, const MagnetostaticProp& b) { MagnetostaticProp q = a; q.M = b.M; return same(q, b) && Vector::distance(a.M, b.M) < 1e-3; };
    int n = c.rng.range(2, 20); for (int i = 0; i < n; i++) { auto& p = pool[c.rng.range(0, pool.size() - 1)]; drawn.push_back(p); d.drawRegion(Vector(i, 2 * i), p); }
    c.sample("%d regions, %zu properties, curves of %d points", n, d.region_map.size(), k);
    for (int i = 0; i < n; i++) { const MagnetostaticProp* p = d.getRegionPtrFromId(d.regions[i].second); c.check(p && (same(*p, drawn[i]) || near(*p, drawn[i])), "material", "region %d of %d has another material (mu %.17g J %.17g M (%.17g,%.17g) %zu points) than it was drawn with (mu %.17g J %.17g M (%.17g,%.17g) %zu points)", i, n, p->mu, p->J, p->M.x, p->M.y, p->bh_curve.size(), drawn[i].mu, drawn[i].J, drawn[i].M.x, drawn[i].M.y, drawn[i].bh_curve.size());
        for (int j = 0; j < i; j++) if (same(drawn[i], drawn[j])) c.check(d.regions[i].second == d.regions[j].second, "material-twice", "equal materials got the numbers %u and %u", d.regions[j].second, d.regions[i].second); }
    for (auto& a : pool) for (auto& b : pool) if (!near(a, b)) c.check(!(a == b) && a != b && same(a, b) == false, "material-equal", "materials of mu %.17g and %.17g, J %.17g and %.17g, %zu and %zu points compare equal", a.mu, b.mu, a.J, b.J, a.bh_curve.size(), b.bh_curve.size()); else if (same(a, b)) c.check(a == b && !(a != b), "material-different", "equal materials compare different");
    uint64_t h = n; for (auto& p : drawn) h = mixd(mixd(mixd(h, p.J), p.M.x), p.bh_curve.size()); c.nontrivial(h);
}

// nested shapes: each polygon's property is that of its own region marker, wherever the markers were drawn
VF_SUITE(polygon_property, 500, 8000) {
    D d; int n = c.rng.range(1, 6); double s = c.rng.logu(0.05, 20); std::vector<int> parent(n, -1); struct B { double x, y, w, h; }; std::vector<B> b(n);
    b[0] = {-8 * s, -8 * s, 16 * s, 16 * s};
    std::vector<Vector> mark(n); std::vector<int> depthn(n, 0);
    // every rectangle is split in a 3x1 strip: left cell carries the marker, the right cells may hold children
    std::vector<std::pair<int, int>> slots = {{0, 0}, {0, 1}}; int m = 1;
    while (m < n && !slots.empty()) { size_t k = c.rng.range(0, slots.size() - 1); auto [p, q] = slots[k]; slots.erase(slots.begin() + k);
        double w = b[p].w / 3; b[m] = {b[p].x + w * (1 + q) + w * 0.1, b[p].y + b[p].h * 0.15, w * 0.8, b[p].h * 0.7}; parent[m] = p; slots.push_back({m, 0}); slots.push_back({m, 1}); m++; }
    n = m; std::vector<int> ord(n); std::iota(ord.begin(), ord.end(), 0); c.rng.shuffle(ord); std::vector<Polygon> polys(n);
    for (int i : ord) { std::vector<Vector> v = {{b[i].x, b[i].y}, {b[i].x + b[i].w, b[i].y}, {b[i].x + b[i].w, b[i].y + b[i].h}, {b[i].x, b[i].y + b[i].h}}; if (c.rng.chance(0.5)) std::reverse(v.begin(), v.end()); polys[i] = Polygon(v); d.drawPolygon(polys[i]); }
    c.rng.shuffle(ord); for (int i : ord) d.drawRegion(Vector(b[i].x + b[i].w * c.rng.uni(0.05, 0.3), b[i].y + b[i].h * c.rng.uni(0.2, 0.8)), {(double)(i + 1)});
    for (int i = 0; i < n; i++) { CurrentDensityProp p = d.getPolygonProp(polys[i]); c.check(p.sigma == i + 1, "polygon-property", "polygon %d of %d has property %g", i, n, p.sigma); }
    c.check(throws_std([&] { d.getPolygonProp(Polygon({{100 * s, 0}, {101 * s, 0}, {100 * s, s}})); }), "unknown-polygon-accepted", "a polygon that is not part of the drawing was accepted");
    c.sample("%d nested rectangles, scale %g", n, s); uint64_t h = mixd(n, s); for (int i = 0; i < n; i++) h = mix(h, parent[i] + 2); if (n > 1) c.nontrivial(h);
}

// refinement adds points only: inside a polygon, clear of segments, and never moves or drops anything
VF_SUITE(refine, 250, 4000) {
    D d; double s = c.rng.logu(0.02, 50); int nsh = c.rng.range(1, 3);
    for (int i = 0; i < nsh; i++) { auto P = random_simple(c.rng, c.rng.range(3, 9), 30); std::vector<Vector> v; for (auto& p : P) v.push_back(Vector((p.x + 70 * i) * s / 30, p.y * s / 30)); d.drawPolygon(v); }
    ld me = 1e300L; for (size_t i = 0; i < d.points.size(); i++) for (auto& g : d.segments) if (g.p1 != i && g.p2 != i) { Vector a = d.points[g.p1], b = d.points[g.p2], p = d.points[i]; ld dx = (ld)b.x - a.x, dy = (ld)b.y - a.y, t = (((ld)p.x - a.x) * dx + ((ld)p.y - a.y) * dy) / (dx * dx + dy * dy); t = t < 0 ? 0 : t > 1 ? 1 : t; me = std::min(me, hypotl(p.x - a.x - t * dx, p.y - a.y - t * dy)); }
    double ge = d.getCurrentEpsilon(); c.check(fabsl(ge - me) <= 1e-9L * me + 1e-13L * s, "feature-size", "smallest feature %.17g, exact %.17Lg", ge, me);
    D e = d; d.addRefiningPoints();
    c.check(d.points.size() >= e.points.size() && d.segments == e.segments && d.polygons == e.polygons && d.regions.size() == e.regions.size(), "refine-preserves", "refining changed the shapes");
    for (size_t i = 0; i < e.points.size(); i++) c.check(d.points[i].x == e.points[i].x && d.points[i].y == e.points[i].y, "refine-preserves", "refining moved point %zu", i);
    for (size_t i = e.points.size(); i < d.points.size(); i++) { Vector p = d.points[i]; bool in = false; for (auto& q : d.polygons) in |= q.contains(p); c.check(in, "refine-outside", "a refining point lies outside of every shape");
        double mn = 1e300; for (auto& g : d.segments) mn = std::min(mn, Segment::pointSegmentDistance(p, d.points[g.p1], d.points[g.p2])); c.check(mn > 0.2 * (ge / 100), "refine-too-close", "a refining point is %g away from a segment, feature size %g", mn, ge); }
    // every convex corner sharper than 90 degrees gets refined
    for (size_t i = 0; i < e.points.size(); i++) { std::vector<Vector> nb; for (auto& g : e.segments) { if (g.p1 == i) nb.push_back(e.points[g.p2]); if (g.p2 == i) nb.push_back(e.points[g.p1]); }
        if (nb.size() != 2) continue; double a = Vector::absoluteAngle(nb[0], e.points[i], nb[1]); int near = 0; for (size_t k = e.points.size(); k < d.points.size(); k++) near += Vector::distance(d.points[k], e.points[i]) < ge / 50;
        if (a > 2.2) c.check(near == 0, "refine-obtuse", "a corner of %g rad was refined", a);
        if (a > 1.5 && a < 2.0) c.check(near > 0, "refine-missed", "a corner of %g rad was not refined", a); }
    c.note("refining points", d.points.size() - e.points.size()); c.sample("%d shapes, feature size %g, %zu points added", nsh, ge, d.points.size() - e.points.size()); c.nontrivial(mixd(mix(d.points.size(), nsh), ge));
}
VF_MAIN
