// C08: enclosing circles enclose every point; the minimum one is minimal and unique.
#include "common.hpp"
#include <nikfemm.hpp>
using namespace nikfemm;
using vf::Rng; typedef long double ld;

// independent oracle: smallest circle by exhaustion over pairs and triples
static ld brute_radius(const std::vector<Vector>& P) {
    size_t n = P.size(); ld best = 1e300L; if (n == 0) return 0; if (n == 1) return 0;
    auto ok = [&](ld x, ld y, ld r) { for (auto& p : P) if (hypotl(p.x - x, p.y - y) > r * (1 + 1e-12L) + 1e-15L) return false; return true; };
    for (size_t i = 0; i < n; i++) for (size_t j = i + 1; j < n; j++) {
        ld x = ((ld)P[i].x + P[j].x) / 2, y = ((ld)P[i].y + P[j].y) / 2, r = hypotl((ld)P[i].x - P[j].x, (ld)P[i].y - P[j].y) / 2;
        if (r < best && ok(x, y, r)) best = r;
    }
    for (size_t i = 0; i < n; i++) for (size_t j = i + 1; j < n; j++) for (size_t k = j + 1; k < n; k++) {
        ld bx = (ld)P[j].x - P[i].x, by = (ld)P[j].y - P[i].y, cx = (ld)P[k].x - P[i].x, cy = (ld)P[k].y - P[i].y, D = 2 * (bx * cy - by * cx);
        ld B = bx * bx + by * by, C = cx * cx + cy * cy; if (fabsl(D) <= 1e-12L * sqrtl(B * C)) continue;
        ld ux = (cy * B - by * C) / D, uy = (bx * C - cx * B) / D, r = hypotl(ux, uy);
        if (r < best && ok(ux + P[i].x, uy + P[i].y, r)) best = r;
    }
    return best;
}
static std::vector<Vector> gen(vf::Ctx& c, int n, double& s) {
    std::vector<Vector> P; s = c.rng.chance(.6) ? c.rng.logu(1e-4, 1e4) : c.rng.logu(1e-7, 1e7); double ox = c.rng.chance(0.4) ? 0 : c.rng.uni(-20, 20) * s, oy = c.rng.chance(0.4) ? 0 : c.rng.uni(-20, 20) * s;
    int k = c.rng.range(0, 6); double a0 = c.rng.uni(0, 6), dx = c.rng.uni(-1, 1), dy = c.rng.uni(-1, 1);
    for (int i = 0; i < n; i++) {
        double x, y; switch (k) {
            case 0: x = c.rng.uni(-1, 1); y = c.rng.uni(-1, 1); break;
            case 1: { double t = a0 + 6.283185307179586 * i / n; x = cos(t); y = sin(t); break; }                      // cocircular
            case 2: { double t = c.rng.uni(-1, 1); x = t * dx; y = t * dy; break; }                                    // collinear
            case 3: x = c.rng.range(-3, 3); y = c.rng.range(-3, 3); break;                                             // grid, ties and duplicates
            case 4: x = c.rng.chance(0.9) ? -1 : 1; y = c.rng.uni(-0.05, 0.05); break;                                 // lopsided
            case 5: x = c.rng.normal(); y = c.rng.normal(); break;
            default: x = i % 2 ? 1 : -1; y = (i / 2) % 2 ? 0.5 : -0.5; break;                                          // rectangle corners, repeated
        }
        P.push_back(Vector(ox + s * x, oy + s * y));
    }
    if (c.rng.chance(0.3)) for (int q = 0; q < n / 3; q++) P.push_back(P[c.rng.range(0, P.size() - 1)]);
    c.rng.shuffle(P); return P;
}
static ld reach(const std::vector<Vector>& P, Vector ctr) { ld m = 0; for (auto& p : P) m = std::max(m, hypotl((ld)p.x - ctr.x, (ld)p.y - ctr.y)); return m; }

VF_SUITE(minimum_circle, 4000, 60000) {
    double s; auto P = gen(c, c.rng.range(1, 14), s); auto Q = P;
    srand(c.rng.range(1, 1 << 30));
    Circle k = Circle::getMinimumEnclosingCircle(P);
    c.sample("%zu points, extent %g", P.size(), s);
    ld far = reach(P, k.center), br = brute_radius(P), tol = 1e-9L * s * 3;
    ld mag = 0; for (auto& p : P) mag = std::max({mag, fabsl(p.x), fabsl(p.y)}); tol += 1e-12L * mag;
    std::string w; for (auto& p : Q) w += vf::fmt("(%.17g,%.17g)", p.x, p.y);
    c.check(std::isfinite(k.radius) && std::isfinite(k.center.x) && std::isfinite(k.center.y), "min-circle-finite", "circle (%g,%g) r=%g of %s", k.center.x, k.center.y, k.radius, w.c_str());
    c.check(far <= k.radius + tol, "min-circle-encloses", "circle (%.17g,%.17g) r=%.17g leaves a point at %.17Lg outside: %s", k.center.x, k.center.y, k.radius, far, w.c_str());
    c.check(k.radius <= br + tol, "min-circle-minimal", "radius %.17g, smallest enclosing circle has %.17Lg: %s", k.radius, br, w.c_str());
    if (P.size() <= 3) {   // the circle over at most three points
        Circle t = Circle::trivialCircleFromPoints(P);
        c.check(std::isfinite(t.radius) && reach(P, t.center) <= t.radius + tol && t.radius <= br + tol, "trivial-circle", "circle (%.17g,%.17g) r=%.17g over %s, the smallest one has %.17Lg", t.center.x, t.center.y, t.radius, w.c_str(), br);
    }
    c.check(k == k && !(k != k) && k != Circle(k.center, k.radius + s) && !(k == Circle(k.center + Vector(s, 0), k.radius)), "circle-equality", "comparison of circles");
    std::unordered_set<Vector> us; for (auto& p : P) us.insert(p);
    Circle u = Circle::getMinimumEnclosingCircle(us);
    c.check(fabsl(u.radius - br) <= tol && reach(P, u.center) <= u.radius + tol, "min-circle-set", "set overload: r=%.17g, exact %.17Lg", u.radius, br);
    uint64_t h = P.size(); for (auto& p : P) h = vf::mixd(vf::mixd(h, p.x), p.y); if (P.size() > 2) c.nontrivial(h);
}
VF_SUITE(minimum_circle_many, 40, 400) {
    double s; auto P = gen(c, c.rng.range(30, 250), s); srand(c.rng.range(1, 1 << 30));
    Circle k = Circle::getMinimumEnclosingCircle(P); ld tol = 1e-8L * s * 20;
    c.sample("%zu points", P.size());
    c.check(std::isfinite(k.radius) && reach(P, k.center) <= k.radius + tol, "min-circle-encloses", "%zu points: circle r=%.17g leaves a point at %.17Lg outside", P.size(), k.radius, reach(P, k.center));
    // minimal: the points on the circle are not contained in an open half circle
    std::vector<double> a; for (auto& p : P) if (Vector::distance(p, k.center) > k.radius - tol) a.push_back(atan2(p.y - k.center.y, p.x - k.center.x));
    std::sort(a.begin(), a.end()); double gap = a.empty() ? 7 : a[0] + 6.283185307179586 - a.back(); for (size_t i = 1; i < a.size(); i++) gap = std::max(gap, a[i] - a[i - 1]);
    if (k.radius > tol * 100) c.check(!a.empty() && gap <= 3.14159265358979 + 1e-3, "min-circle-minimal", "%zu points: the circle can shrink (its support leaves a gap of %g rad)", P.size(), gap);
    c.nontrivial(vf::mixd(P.size(), P[0].x));
}
VF_SUITE(enclosing_circle, 3000, 40000) {
    double s; auto P = gen(c, c.rng.range(1, 40), s); Circle k = Circle::getEnclosingCircle(P);
    c.sample("%zu points, extent %g", P.size(), s);
    ld far = reach(P, k.center), mag = 0; for (auto& p : P) mag = std::max({mag, fabsl(p.x), fabsl(p.y)});
    c.check(std::isfinite(k.radius) && far <= k.radius + 1e-12L * mag, "enclosing-circle-encloses", "circle (%g,%g) r=%.17g leaves a point at distance %.17Lg outside", k.center.x, k.center.y, k.radius, far);
    c.check(k.radius <= 2.0L * brute_radius(std::vector<Vector>(P.begin(), P.begin() + std::min<size_t>(P.size(), 12))) + 1e-12L * mag || P.size() > 12, "enclosing-circle-tight", "radius %.17g is more than twice the smallest possible", k.radius);
    // moving the points moves the circle
    Vector v(c.rng.uni(-30, 30) * s, c.rng.uni(-30, 30) * s); auto Q = P; for (auto& q : Q) q += v; Circle m = Circle::getEnclosingCircle(Q); ld t = 1e-11L * (mag + 60 * s);
    c.check(fabsl(m.center.x - k.center.x - v.x) <= t && fabsl(m.center.y - k.center.y - v.y) <= t && fabsl(m.radius - k.radius) <= t, "enclosing-circle-moves", "moved points: circle (%g,%g) r=%g, was (%g,%g) r=%g moved by (%g,%g)", m.center.x, m.center.y, m.radius, k.center.x, k.center.y, k.radius, v.x, v.y);
    uint64_t h = P.size(); for (auto& p : P) h = vf::mixd(vf::mixd(h, p.x), p.y); c.nontrivial(h);
}
VF_SUITE(empty, 1, 1) {
    Circle k = Circle::getMinimumEnclosingCircle(std::vector<Vector>()), e = Circle::getEnclosingCircle(std::vector<Vector>());
    c.check(k.radius == 0 && std::isfinite(k.center.x), "min-circle-empty", "no points: r=%g", k.radius);
    c.check(e.radius == 0 && std::isfinite(e.center.x) && std::isfinite(e.center.y), "enclosing-circle-empty", "no points: centre (%g,%g) r=%g", e.center.x, e.center.y, e.radius);
    c.nontrivial(1);
}
VF_SUITE(three_points, 2000, 20000) {
    double s = c.rng.chance(.5) ? 1 : c.rng.logu(1e-7, 1e7); auto pt = [&] { return Vector(s * c.rng.uni(-1, 1), s * c.rng.uni(-1, 1)); }; Vector a = pt(), b = pt(), d = pt();
    double ar = fabs(Vector::doubleOrientedArea(a, b, d)); if (ar < 1e-3 * s * s) c.skip();
    Circle k = Circle::getCircleFromPoints(a, b, d), l = Circle::getCircleFromPoints(a, b);
    for (auto p : {a, b, d}) c.check(fabs(Vector::distance(p, k.center) - k.radius) < 1e-9 * (s + k.radius), "circumcircle", "point not on the circle through it");
    c.check(fabs(l.radius - Vector::distance(a, b) / 2) < 1e-14 * s && Vector::distance(l.center, (a + b) / 2) < 1e-14 * s, "diameter-circle", "circle over two points");
    c.check(fabs(k.circumference() - 2 * M_PI * k.radius) < 1e-12 * k.radius, "circumference", "circumference");
    Vector q(k.center.x + k.radius * c.rng.uni(-2, 2), k.center.y + k.radius * c.rng.uni(-2, 2)); double dq = Vector::distance(q, k.center);
    if (fabs(dq - k.radius) > 1e-9 + 1e-9 * k.radius) c.check(k.contains(q) == (dq < k.radius), "circle-contains", "point at %g of a circle of radius %g", dq, k.radius);
    c.sample("(%g,%g)(%g,%g)(%g,%g)", a.x, a.y, b.x, b.y, d.x, d.y); c.nontrivial(vf::mixd(vf::mixd(1, a.x), b.x));
}
VF_MAIN
