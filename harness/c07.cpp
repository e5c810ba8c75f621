// C07: geometric predicates agree with exact geometry.
#include "geo.hpp"
#include <nikfemm.hpp>
using namespace nikfemm;
using namespace vf;
typedef long double ld;

static Polygon toPoly(const std::vector<IP>& P, double s) { std::vector<Vector> v; for (auto& p : P) v.push_back(Vector(p.x * s, p.y * s)); return Polygon(v); }
static std::string show(const Polygon& p) { std::string s; for (auto& v : p.points) s += fmt("(%.17g,%.17g)", v.x, v.y); return s; }
static IP probe(Rng& r, const std::vector<IP>& P, i64 R) {
    size_t n = P.size(); size_t i = r.range(0, n - 1); IP a = P[i], b = P[(i + 1) % n];
    switch (r.range(0, 6)) {
        case 0: return a;
        case 1: { i64 g = std::gcd(std::llabs(b.x - a.x), std::llabs(b.y - a.y)); i64 k = r.range(0, g); return {a.x + (b.x - a.x) / g * k, a.y + (b.y - a.y) / g * k}; }
        case 2: return {r.range(-R - 2, R + 2), a.y};        // level with a vertex
        case 3: return {a.x, r.range(-R - 2, R + 2)};
        case 4: return {a.x + r.range(-1, 1), a.y + r.range(-1, 1)};
        default: return {r.range(-R - 2, R + 2), r.range(-R - 2, R + 2)};
    }
}

VF_SUITE(polygon_contains, 3000, 60000) {
    i64 R = c.rng.chance(0.5) ? c.rng.range(2, 12) : c.rng.range(20, 100000); auto P = random_simple(c.rng, c.rng.range(3, 16), R);
    for (auto& p : P) R = std::max({R, (i64)std::llabs(p.x), (i64)std::llabs(p.y)});
    double sc = std::ldexp(1.0, c.rng.range(-30, 10)); Polygon poly = toPoly(P, sc);
    c.sample("%zu vertices, range %ld, scale %g", P.size(), (long)R, sc);
    int in = 0, on = 0, out = 0;
    for (int q = 0; q < 30; q++) {
        IP p = probe(c.rng, P, R); int w = locate(P, p); (w > 0 ? in : w == 0 ? on : out)++;
        bool g = poly.contains(Vector(p.x * sc, p.y * sc));
        c.check(g == (w >= 0), w > 0 ? "inside-missed" : w == 0 ? "boundary-missed" : "outside-reported-inside", "point (%.17g,%.17g) exact=%d reported=%d polygon %s", p.x * sc, p.y * sc, w, g, show(poly).c_str());
    }
    c.note("probes inside", in); c.note("probes on the boundary", on); c.note("probes outside", out);
    uint64_t h = P.size(); for (auto& p : P) h = mix(h, p.x * 1000003 + p.y); c.nontrivial(h);
}

static ld pdist(ld px, ld py, ld ax, ld ay, ld bx, ld by) {
    ld dx = bx - ax, dy = by - ay, l = dx * dx + dy * dy, t = l > 0 ? ((px - ax) * dx + (py - ay) * dy) / l : 0; t = t < 0 ? 0 : t > 1 ? 1 : t;
    return hypotl(px - (ax + t * dx), py - (ay + t * dy));
}

// translated and rotated polygons with arbitrary coordinates; points clear of the boundary
VF_SUITE(polygon_moved, 1500, 30000) {
    i64 R = 40; auto P = random_simple(c.rng, c.rng.range(3, 14), R); Polygon poly = toPoly(P, c.rng.uni(0.01, 1));
    Polygon orig = poly.copy(); double maxr = 0;
    Vector v(c.rng.uni(-100, 100), c.rng.uni(-100, 100)), ctr(c.rng.uni(-50, 50), c.rng.uni(-50, 50)); double ang = c.rng.uni(-10, 10);
    poly.translate(v); poly.rotate(ang, ctr);
    c.sample("%zu vertices, moved by (%g,%g), turned by %g about (%g,%g)", P.size(), v.x, v.y, ang, ctr.x, ctr.y);
    c.check(poly.points.size() == orig.points.size(), "vertex-count", "moving changed the number of vertices");
    ld cs = cosl((ld)ang), sn = sinl((ld)ang);
    auto mv = [&](ld x, ld y, ld& ox, ld& oy) { x += v.x; y += v.y; x -= ctr.x; y -= ctr.y; ox = x * cs - y * sn + ctr.x; oy = x * sn + y * cs + ctr.y; };
    for (size_t i = 0; i < orig.points.size(); i++) { ld ex, ey; mv(orig.points[i].x, orig.points[i].y, ex, ey); maxr = std::max(maxr, (double)hypotl(ex, ey));
        c.check(hypotl(poly.points[i].x - ex, poly.points[i].y - ey) < 1e-11, "vertex-moved", "vertex %zu moved to (%.17g,%.17g), exact (%.17Lg,%.17Lg)", i, poly.points[i].x, poly.points[i].y, ex, ey); }
    for (int q = 0; q < 25; q++) {
        size_t i = c.rng.range(0, P.size() - 1); Vector a = poly.points[i], b = poly.points[(i + 1) % P.size()];
        Vector p = c.rng.chance(0.5) ? Vector(a.x + c.rng.uni(-3, 3), a.y + c.rng.uni(-3, 3)) : Vector(a.x + (b.x - a.x) * c.rng.u() + c.rng.sgn() * c.rng.logu(1e-6, 1), a.y + (b.y - a.y) * c.rng.u());
        ld d = 1e300L; ld w = 0;
        for (size_t k = 0; k < poly.points.size(); k++) { Vector s = poly.points[k], t = poly.points[(k + 1) % poly.points.size()]; d = std::min(d, pdist(p.x, p.y, s.x, s.y, t.x, t.y));
            w += atan2l((ld)(s.x - p.x) * (t.y - p.y) - (ld)(s.y - p.y) * (t.x - p.x), (ld)(s.x - p.x) * (t.x - p.x) + (ld)(s.y - p.y) * (t.y - p.y)); }
        if (d < 1e-9L) continue;
        bool inside = fabsl(w) > 3;
        c.check(poly.contains(p) == inside, inside ? "inside-missed" : "outside-reported-inside", "point (%.17g,%.17g) at distance %Lg from the boundary: winding angle %Lg, polygon %s", p.x, p.y, d, w, show(poly).c_str());
        double eps = c.rng.chance(0.3) ? 0 : (double)d * c.rng.logu(1e-3, 1e3); 
        if (fabsl(d - eps) < 1e-9L * (1 + fabsl(d))) continue;
        c.check(poly.contains(p, true, eps) == (inside || d < eps), "contains-with-boundary", "point (%.17g,%.17g) d=%Lg eps=%g inside=%d", p.x, p.y, d, eps, inside);
        c.check(poly.contains(p, false, eps) == (inside && d > eps), "contains-without-boundary", "point (%.17g,%.17g) d=%Lg eps=%g inside=%d", p.x, p.y, d, eps, inside);
        c.note(d < eps ? "probes within the boundary tolerance" : "probes clear of the boundary tolerance");
    }
    // moving back gives the original polygon
    poly.rotate(-ang, ctr); poly.translate(-v);
    for (size_t i = 0; i < orig.points.size(); i++) c.check(Vector::distance(poly.points[i], orig.points[i]) < 1e-10, "move-inverse", "vertex %zu does not return to its place", i);
    c.nontrivial(mixd(mix(P.size(), 3), ang));
}

VF_SUITE(polygon_in_polygon, 3000, 40000) {
    i64 R = c.rng.range(4, 60); auto P = random_simple(c.rng, c.rng.range(3, 12), R), Q = random_simple(c.rng, c.rng.range(3, 7), std::max<i64>(2, R / c.rng.range(1, 8)));
    i64 dx = c.rng.range(-R, R), dy = c.rng.range(-R, R); for (auto& q : Q) { q.x += dx; q.y += dy; }
    if (c.rng.chance(.35)) {   // corners of the outer polygon: shapes that fill a notch or share edges
        std::vector<IP> T = P; if (c.rng.chance(.5)) std::reverse(T.begin(), T.end()); size_t k = c.rng.range(3, std::min<size_t>(T.size(), 6)); std::rotate(T.begin(), T.begin() + c.rng.range(0, T.size() - 1), T.end()); if (c.rng.chance(.6)) T.resize(k); else { std::vector<size_t> id(T.size()); for (size_t i = 0; i < id.size(); i++) id[i] = i; c.rng.shuffle(id); id.resize(k); std::sort(id.begin(), id.end()); std::vector<IP> W; for (size_t i : id) W.push_back(T[i]); T = W; }
        if (c.rng.chance(.3)) T[0].x += c.rng.range(-2, 2); if (simple(T)) Q = T;
    }
    for (auto* L : {&P, &Q}) for (auto& q : *L) q.x *= 2, q.y *= 2;
    // inside: its corners are, no edges cross, and its edges stay inside between corners; corners touching an edge are not judged
    bool all = true, cross = false, tie = false; for (auto& q : Q) all &= locate(P, q) >= 0;
    for (size_t i = 0; i < Q.size(); i++) { IP u = Q[i], v = Q[(i + 1) % Q.size()]; bool shared = false;
        for (size_t j = 0; j < P.size(); j++) { IP p = P[j], q = P[(j + 1) % P.size()]; cross |= seg_proper(u, v, p, q); shared |= (u == p && v == q) || (u == q && v == p);
            for (IP z : {u, v}) tie |= onseg(p, q, z) && !(z == p) && !(z == q); tie |= onseg(u, v, p) && !(p == u) && !(p == v); }
        if (!shared) all &= locate(P, {(u.x + v.x) / 2, (u.y + v.y) / 2}) >= 0; }
    all &= !cross; double sc = std::ldexp(1., c.rng.range(-34, 6)); Polygon a = toPoly(P, sc), b = toPoly(Q, sc);
    c.sample("outer %zu vertices, inner %zu", P.size(), Q.size());
    bool corners = true; for (auto& q : Q) corners &= locate(P, q) >= 0; if (corners && !all) c.note("every corner inside but not the polygon");
    if (cross || !tie) c.check(a.contains(b) == all, "polygon-in-polygon", "contained: %d, reported %d; %s in %s", all, !all, show(b).c_str(), show(a).c_str()); else c.note("corners touching edges (not judged)");
    c.check(a.contains(a.copy()), "polygon-in-itself", "a polygon does not contain itself");
    c.check(a == a.copy() && !(a != a.copy()), "polygon-equality", "a copy differs from the polygon");
    c.note(all ? "contained" : "not contained"); c.nontrivial(mix(mix(P.size(), Q.size()), dx * 1000 + dy + R));
}

VF_SUITE(segments_intersect, 8000, 200000) {
    i64 R = c.rng.pick(std::vector<i64>({2, 3, 6, 50, 20000}) = {2, 3, 6, 50, 20000}); double sc = std::ldexp(1.0, c.rng.range(-24, 6)); i64 ox = c.rng.chance(0.5) ? 0 : c.rng.range(-R, R) * 3, oy = c.rng.chance(0.5) ? 0 : c.rng.range(-R, R) * 3;
    auto pt = [&] { return IP{c.rng.range(-R, R) + ox, c.rng.range(-R, R) + oy}; };
    IP a = pt(), b = pt(), p = pt(), q = pt();
    if (c.rng.chance(0.15)) p = a; if (c.rng.chance(0.1)) q = b; if (c.rng.chance(0.1)) { q = {p.x + (b.x - a.x), p.y + (b.y - a.y)}; }
    if (c.rng.chance(0.15)) { p = {a.x + (b.x - a.x) * 2, a.y + (b.y - a.y) * 2}; }
    if (c.rng.chance(0.1)) { a.x *= 2; a.y *= 2; b.x *= 2; b.y *= 2; p = {(a.x + b.x) / 2, (a.y + b.y) / 2}; }
    if (a == b || p == q) c.skip();
    bool ex = seg_touch(a, b, p, q); auto V = [&](IP z) { return Vector(z.x * sc, z.y * sc); };
    bool proper = seg_proper(a, b, p, q);
    const char* k = proper ? "crossing-missed" : ex ? "touching-missed" : "disjoint-reported";
    c.sample("(%ld,%ld)-(%ld,%ld) and (%ld,%ld)-(%ld,%ld) scaled by %g", a.x, a.y, b.x, b.y, p.x, p.y, q.x, q.y, sc);
    IP o[8][4] = {{a, b, p, q}, {b, a, p, q}, {a, b, q, p}, {b, a, q, p}, {p, q, a, b}, {q, p, a, b}, {p, q, b, a}, {q, p, b, a}};
    for (auto& r : o) {
        c.check(Segment::segmentsIntersect(V(r[0]), V(r[1]), V(r[2]), V(r[3])) == ex, k, "(%ld,%ld)-(%ld,%ld) and (%ld,%ld)-(%ld,%ld) scaled by %g: share a point: %d", r[0].x, r[0].y, r[1].x, r[1].y, r[2].x, r[2].y, r[3].x, r[3].y, sc, ex);
        c.check(Segment::segmentsIntersect(Segment(V(r[0]), V(r[1])), Segment(V(r[2]), V(r[3]))) == ex, k, "segment overload: (%ld,%ld)-(%ld,%ld) and (%ld,%ld)-(%ld,%ld)", r[0].x, r[0].y, r[1].x, r[1].y, r[2].x, r[2].y, r[3].x, r[3].y);
    }
    c.note(proper ? "proper crossings" : ex ? "touching pairs" : "disjoint pairs");
    c.nontrivial(mix(mix(a.x * 131 + a.y, b.x * 137 + b.y), mix(p.x * 139 + p.y, q.x * 149 + q.y)));
}

VF_SUITE(point_segment_distance, 6000, 150000) {
    double s = c.rng.logu(1e-6, 1e4); auto pt = [&] { return Vector(c.rng.chance(0.3) ? (double)c.rng.range(-4, 4) * s : c.rng.uni(-4, 4) * s, c.rng.chance(0.3) ? (double)c.rng.range(-4, 4) * s : c.rng.uni(-4, 4) * s); };
    Vector a = pt(), b = pt(), p = pt();
    int m = c.rng.range(0, 7); if (m == 0) b = a; if (m == 1) p = a; if (m == 2) p = b; if (m == 3) p = Vector::lerp(a, b, c.rng.u()); if (m == 4) p = Vector::lerp(a, b, c.rng.uni(-2, 3));
    ld ex = pdist(p.x, p.y, a.x, a.y, b.x, b.y); ld tol = 1e-14L * (fabsl(p.x) + fabsl(p.y) + fabsl(a.x) + fabsl(a.y) + fabsl(b.x) + fabsl(b.y)) * 8;
    c.sample("(%.17g,%.17g) to (%.17g,%.17g)-(%.17g,%.17g)", p.x, p.y, a.x, a.y, b.x, b.y);
    for (int k = 0; k < 3; k++) {
        double g = k == 0 ? Segment::pointSegmentDistance(p, a, b) : k == 1 ? Segment::pointSegmentDistance(p, b, a) : Segment::pointSegmentDistance(p, Segment(a, b));
        c.check(fabsl(g - ex) <= tol, "distance", "point (%.17g,%.17g), segment (%.17g,%.17g)-(%.17g,%.17g): %.17g, exact %.17Lg", p.x, p.y, a.x, a.y, b.x, b.y, g, ex);
    }
    bool bb = p.x <= std::max(a.x, b.x) && p.x >= std::min(a.x, b.x) && p.y <= std::max(a.y, b.y) && p.y >= std::min(a.y, b.y);
    c.check(Segment::pointInSegmentBB(p, a, b) == bb && Segment::pointInSegmentBB(p, Segment(b, a)) == bb, "bounding-box", "point (%.17g,%.17g) in the bounding box of (%.17g,%.17g)-(%.17g,%.17g): %d", p.x, p.y, a.x, a.y, b.x, b.y, bb);
    c.check(fabsl(Segment(a, b).length() - hypotl((ld)a.x - b.x, (ld)a.y - b.y)) <= tol, "length", "segment length");
    c.check(Segment(a, b) == Segment(b, a), "segment-equality", "a segment differs from its reverse");
    if (m == 0) c.note("zero-length segments");
    c.nontrivial(mixd(mixd(mixd(m, p.x), a.x), b.y));
}

VF_SUITE(point_in_triangle, 4000, 80000) {
    i64 R = c.rng.pick(std::vector<i64>({2, 8, 1000}) = {2, 8, 1000}); double sc = std::ldexp(1.0, c.rng.range(-34, 10));
    auto pt = [&] { return IP{c.rng.range(-R, R), c.rng.range(-R, R)}; };
    IP a = pt(), b = pt(), d = pt(), p = pt(); if (orient(a, b, d) == 0) c.skip();
    int w = locate({a, b, d}, p); if (w == 0) { c.note("probes on an edge (not judged)"); c.skip(); }
    auto V = [&](IP z) { return Vector(z.x * sc, z.y * sc); };
    c.sample("(%ld,%ld) in (%ld,%ld)(%ld,%ld)(%ld,%ld) scaled by %g", p.x, p.y, a.x, a.y, b.x, b.y, d.x, d.y, sc);
    c.check(pointInTriangle(V(p), V(a), V(b), V(d)) == (w > 0) && pointInTriangle(V(p), V(b), V(a), V(d)) == (w > 0), w > 0 ? "triangle-inside" : "triangle-outside",
        "point (%ld,%ld) in triangle (%ld,%ld)(%ld,%ld)(%ld,%ld) scaled by %g: exact %d", p.x, p.y, a.x, a.y, b.x, b.y, d.x, d.y, sc, w);
    c.nontrivial(mix(mix(a.x * 131 + a.y, b.x * 137 + b.y), mix(p.x * 139 + p.y, d.x * 149 + d.y)));
}

VF_SUITE(vector_algebra, 3000, 50000) {
    double s = c.rng.logu(1e-5, 1e5); auto pt = [&] { return Vector(c.rng.uni(-1, 1) * s, c.rng.uni(-1, 1) * s); };
    Vector a = pt(), b = pt(), d = pt(); double ang = c.rng.uni(-7, 7); ld t = 1e-13L * s;
    auto near = [&](Vector g, ld x, ld y, const char* k) { c.check(fabsl(g.x - x) <= t && fabsl(g.y - y) <= t, k, "(%.17g,%.17g), exact (%.17Lg,%.17Lg)", g.x, g.y, x, y); };
    ld cs = cosl((ld)ang), sn = sinl((ld)ang), rx = (ld)a.x - d.x, ry = (ld)a.y - d.y;
    near(a.rotate(ang), a.x * cs - a.y * sn, a.x * sn + a.y * cs, "rotate"); near(a.rotate(ang, d), rx * cs - ry * sn + d.x, rx * sn + ry * cs + d.y, "rotate-about");
    near(a + b, (ld)a.x + b.x, (ld)a.y + b.y, "sum"); near(a - b, (ld)a.x - b.x, (ld)a.y - b.y, "difference"); near(-a, -a.x, -a.y, "negate");
    near(Vector::midPoint(a, b), ((ld)a.x + b.x) / 2, ((ld)a.y + b.y) / 2, "midpoint"); near(a.normal(), -a.y, a.x, "normal");
    double u = c.rng.u(); near(Vector::lerp(a, b, u), a.x + ((ld)b.x - a.x) * u, a.y + ((ld)b.y - a.y) * u, "lerp");
    c.check(fabsl(a * b - ((ld)a.x * b.x + (ld)a.y * b.y)) <= t * s, "dot", "dot product"); c.check(fabsl((a ^ b) - ((ld)a.x * b.y - (ld)a.y * b.x)) <= t * s, "cross", "cross product");
    c.check(fabsl(a.norm() - hypotl(a.x, a.y)) <= t && fabsl(Vector::distance(a, b) - hypotl((ld)a.x - b.x, (ld)a.y - b.y)) <= t, "norm", "norm / distance");
    c.check(fabsl(a.normSquared() - ((ld)a.x * a.x + (ld)a.y * a.y)) <= t * s * 2 && fabsl(Vector::distanceSquared(a, b) - (((ld)a.x - b.x) * ((ld)a.x - b.x) + ((ld)a.y - b.y) * ((ld)a.y - b.y))) <= t * s * 8, "squared", "squared norm / distance");
    ld ar = (((ld)b.x - a.x) * ((ld)d.y - a.y) - ((ld)b.y - a.y) * ((ld)d.x - a.x)) / 2;
    c.check(fabsl(Vector::orientedArea(a, b, d) - ar) <= t * s * 8 && fabsl(Vector::area(a, b, d) - fabsl(ar)) <= t * s * 8 && fabsl(Vector::doubleOrientedArea(a, b, d) - 2 * ar) <= t * s * 16, "area", "triangle area %.17g, exact %.17Lg", Vector::orientedArea(a, b, d), ar);
    {   // far from the origin the sides are still known exactly
        Vector o = Vector(c.rng.uni(-1, 1), c.rng.uni(-1, 1)) * (s * c.rng.logu(1, 1e9)), p = a + o, q = b + o, r = d + o; ld fx = (ld)q.x - p.x, fy = (ld)q.y - p.y, gx = (ld)r.x - p.x, gy = (ld)r.y - p.y, fa = (fx * gy - fy * gx) / 2;
        c.check(fabsl(Vector::orientedArea(p, q, r) - fa) <= 1e-14L * s * s, "area-far", "area of (%.17g,%.17g)(%.17g,%.17g)(%.17g,%.17g) is %.17g, exact %.17Lg", p.x, p.y, q.x, q.y, r.x, r.y, Vector::orientedArea(p, q, r), fa); }
    ld ax = (ld)a.x - b.x, ay = (ld)a.y - b.y, bx = (ld)d.x - b.x, by = (ld)d.y - b.y, th = atan2l(ax * by - ay * bx, ax * bx + ay * by);
    if (hypotl(ax, ay) > 1e-3 * s && hypotl(bx, by) > 1e-3 * s && fabsl(th) < 3.1415) {
        c.check(fabsl(Vector::orientedAngle(a, b, d) - th) < 1e-9, "angle", "oriented angle %.17g, exact %.17Lg", Vector::orientedAngle(a, b, d), th);
        c.check(fabsl(Vector::absoluteAngle(a, b, d) - fabsl(th)) < 1e-9, "angle", "absolute angle"); }
    Vector n = a; n.normalize(); c.check(fabsl(n.norm() - 1) < 1e-14 && fabsl((n ^ a) / s) < 1e-14, "normalize", "normalising (%.17g,%.17g) gives (%.17g,%.17g)", a.x, a.y, n.x, n.y);
    Vector z(0, 0); z.normalize(); c.check(z.x == 0 && z.y == 0, "normalize-zero", "normalising the zero vector gives (%g,%g)", z.x, z.y);
    Vector m = a; m += b; near(m, (ld)a.x + b.x, (ld)a.y + b.y, "add-assign"); m -= b; m *= 2; near(m, 2 * (ld)a.x, 2 * (ld)a.y, "mul-assign"); m /= 4; near(m, (ld)a.x / 2, (ld)a.y / 2, "div-assign");
    m = a; m.translate(b); near(m, (ld)a.x + b.x, (ld)a.y + b.y, "translate");
    c.sample("s=%g", s); c.nontrivial(mixd(mixd(1, a.x), b.y));
}
VF_MAIN
