// C16: nonlinear materials follow their magnetisation curve.
#include "magref.hpp"
using namespace nikfemm;
using namespace vf;

static BH_Curve curve(Ctx& c, int n, double bscale, double hscale, bool decreasing, std::vector<BH_Point>* pts = nullptr) {   // strictly increasing B and H
    std::vector<BH_Point> p; double B = c.rng.chance(.3) ? 0 : bscale * c.rng.uni(.1, 1), H = c.rng.chance(.5) ? 0 : hscale * c.rng.uni(0, .5), sl = bscale / hscale * c.rng.uni(5, 50);
    for (int i = 0; i < n; i++) { p.push_back({B, H}); double dB = bscale * c.rng.uni(.05, .6); sl = decreasing ? sl * c.rng.uni(.15, .8) : bscale / hscale * c.rng.logu(.05, 50); B += dB; H += dB / sl; }
    BH_Curve k; auto q = p; c.rng.shuffle(q); for (auto& x : q) k.insert(x); if (pts) *pts = p; return k;
}
// the slopes the curve allows at B (two at an interior table point)
static std::vector<ld> slopes(const std::vector<BH_Point>& p, double B) {
    auto sl = [&](size_t i) { return ((ld)p[i + 1].B - p[i].B) / ((ld)p[i + 1].H - p[i].H); }; size_t n = p.size(); std::vector<ld> r;
    for (size_t i = 0; i + 1 < n; i++) if ((B >= p[i].B || i == 0) && (B <= p[i + 1].B || i + 2 == n)) r.push_back(sl(i));
    return r;
}
VF_SUITE(lookup, 4000, 60000) {
    int n = c.rng.chance(.3) ? 2 : c.rng.range(2, 12); double bs = c.rng.chance(.6) ? 1 : c.rng.logu(1e-6, 1e3), hs = c.rng.chance(.6) ? 1e4 : c.rng.logu(1e-3, 1e8); std::vector<BH_Point> p; MagnetostaticProp m{0, {0, 0}, c.rng.logu(1e-7, 1e-2), curve(c, n, bs, hs, c.rng.chance(.5), &p)};
    c.sample("curve of %d points from (%.3g,%.3g) to (%.3g,%.3g)", n, p[0].B, p[0].H, p[n - 1].B, p[n - 1].H); double last = p[n - 1].B;
    c.check(!m.isLinear(), "kind", "a material with a curve of %d points is called linear", n);
    std::vector<double> Bs{0, last, std::nextafter(last, 1e300), std::nextafter(last, -1e300), last * 2, last * 1e6, 1e300, std::numeric_limits<double>::min(), std::numeric_limits<double>::infinity()};
    for (auto& q : p) { Bs.push_back(q.B); Bs.push_back(std::nextafter(q.B, 1e300)); if (q.B > 0) Bs.push_back(std::nextafter(q.B, 0)); }
    for (int i = 0; i + 1 < n; i++) { Bs.push_back((p[i].B + p[i + 1].B) / 2); Bs.push_back(p[i].B + (p[i + 1].B - p[i].B) * c.rng.u()); } for (int i = 0; i < 5; i++) Bs.push_back(last * c.rng.uni(0, 1.5));
    auto copy = m;   // a copy follows the same curve
    for (double B : Bs) {
        double v = m.getMu(B), w = copy.getMu(B); auto s = slopes(p, B); bool ok = false; for (ld x : s) ok |= std::fabs(v - (double)x) <= 1e-12 * (double)x;
        if (!std::isfinite(v) || v <= 0) c.fail("mu-range", "permeability at %g T is %g", B, v);
        if (!ok) c.fail("mu-segment", "permeability at %.17g T is %.12g, the segment there has slope %.12Lg (of %d points, first %g, last %g)", B, v, s[0], n, p[0].B, last);
        if (v != w) c.fail("mu-copy", "permeability at %g T is %g, in a copy of the material %g", B, v, w);
    }
    c.eval(3 * Bs.size()); c.nontrivial(mixd(mixd(n, p[0].B), last));
    MagnetostaticProp l{0, {0, 0}, c.rng.logu(1e-7, 1e-2), {}}; c.check(l.isLinear(), "kind", "a material without a curve is called nonlinear"); for (double B : Bs) if (l.getMu(B) != l.mu) c.fail("mu-linear", "permeability of a linear material at %g T is %g instead of %g", B, l.getMu(B), l.mu);
}
struct Prob { Scene s; std::vector<MagnetostaticProp> P; double amax; int q; uint64_t ds; };
static void draw(Prob& p, MagnetostaticSimulation& sim, const std::vector<MagnetostaticProp>& P) { Rng r(p.ds); draw_scene(r, sim.mesh.drawing, p.s, [&](int f) { return P[p.s.faces[f].mat]; }); }
static Prob problem(Ctx& c, double js) {
    Prob p; SceneOpt o; o.max_shapes = 4; o.min_shapes = 2; o.palette = 3; o.scale_lo = 1e-5; o.scale_hi = 10; p.s = random_scene(c.rng, o); double d = 0; for (auto& f : p.s.faces) for (auto& a : f.loop) for (auto& g : p.s.faces) for (auto& b : g.loop) d = std::max(d, std::hypot(a.x - b.x, a.y - b.y));
    p.amax = d * d / c.rng.logu(30, 400); p.q = std::min(30, (int)(p.s.minang * .4)); p.ds = c.rng.next();
    p.P = {{js, {0, 0}, magnetostatic_materials::air, {}}, {0, {0, 0}, magnetostatic_materials::air, {}}, {-js * .7, {0, 0}, magnetostatic_materials::air, {}}};
    if (p.s.faces.size() < 2) c.skip(); for (auto& f : p.s.faces) f.mat = c.rng.range(0, 2); p.s.faces[0].mat = 0; p.s.faces[1].mat = 1; return p;
}
// residual of the field equation with given permeabilities, relative to the sources; nodes fixed by the far-field reference are skipped
static double residual(Ctx& c, MagnetostaticSimulation& sim, Prob& p, const std::vector<MagnetostaticProp>& P, const std::vector<double>& A, const std::vector<double>& mu) {
    auto& m = sim.mesh.data; Vector ce = sim.mesh.center; auto R = mag_ref(m, mu, [&](int t) -> const MagnetostaticProp* { auto b = triB(m, t); if (std::hypot(b.x, b.y) > sim.mesh.radius) return nullptr; for (int v : m.trianglelist[t].verts) if (std::hypot(m.pointlist[v].x, m.pointlist[v].y) > sim.mesh.radius * (1 + 1e-9)) return nullptr; int f = face_of_tri(p.s, m, t, ce); return f < 0 ? nullptr : &P[p.s.faces[f].mat]; });
    auto y = R.K.mult(A); std::vector<std::pair<double, int>> far; for (int i = 0; i < m.numberofpoints; i++) far.push_back({-std::hypot(m.pointlist[i].x, m.pointlist[i].y), i}); std::sort(far.begin(), far.end()); double cut = -far[2].first * (1 - 1e-9);
    ld r = 0, b = 0; for (int i = 0; i < m.numberofpoints; i++) { b += R.b[i] * R.b[i]; if (std::hypot(m.pointlist[i].x, m.pointlist[i].y) < cut) r += (y[i] - R.b[i]) * (y[i] - R.b[i]); } return (double)sqrtl(r / b);
}
// fields that stay on the first or beyond the last segment: the nonlinear solution is that of a linear material with that slope
VF_SUITE(one_segment, 400, 4000) {
    double js = c.rng.logu(1e-2, 1e7); Prob p = problem(c, js); std::vector<BH_Point> pts; int n = c.rng.range(2, 8); bool low = c.rng.chance(.6);
    // size the curve to the field of the linear problem
    double slope = magnetostatic_materials::air * c.rng.logu(1.2, 500); auto L = p.P; L[1].mu = slope; MagnetostaticSimulation a; draw(p, a, L); auto sa = a.generateSystem(false, p.amax, p.q); auto A = a.solve(sa); auto B = a.mesh.computeCurl(A); double bmin = 1e300, bmax = 0; int cnt = 0; auto& m = a.mesh.data;
    for (int t = 0; t < m.numberoftriangles; t++) { auto* q = a.mesh.drawing.getRegionPtrFromId(m.triangleattributelist[t]); if (q->mu != slope || q->J != 0) continue; double b = std::hypot(B[t].x, B[t].y); bmin = std::min(bmin, b); bmax = std::max(bmax, b); cnt++; }
    if (!cnt || bmax == 0) c.skip(); if (!low && bmin < 1e-9 * bmax) low = true;
    double k = low ? bmax * c.rng.uni(1.5, 4) : bmin * c.rng.uni(.2, .6); pts.clear();   // the knot where the slope changes
    if (low) { pts.push_back({k * c.rng.uni(.05, .5), 0}); pts[0].H = pts[0].B / slope; pts.push_back({k, k / slope}); double sl = slope; for (int i = 2; i < n; i++) { sl *= c.rng.uni(.2, .9); double d = k * c.rng.uni(.1, 1); pts.push_back({pts.back().B + d, pts.back().H + d / sl}); } }
    else { double sl = slope; std::vector<double> ss; for (int i = 0; i < n - 1; i++) { ss.push_back(sl); sl *= c.rng.uni(1.1, 4); } std::reverse(ss.begin(), ss.end()); double Bv = k / n * .9, H = 0; for (int i = 0; i < n - 1; i++) { pts.push_back({Bv, H}); double d = (k - k / n * .9) / (n - 1); Bv += d; H += d / ss[i]; } pts.push_back({Bv, H}); double d = k * 0.0; (void)d; }
    auto N = p.P; N[1].mu = c.rng.chance(.5) ? 0 : 1; for (auto& q : pts) N[1].bh_curve.insert(q);
    double lastslope = (pts[pts.size() - 1].B - pts[pts.size() - 2].B) / (pts[pts.size() - 1].H - pts[pts.size() - 2].H); if (!low && std::fabs(lastslope / slope - 1) > 1e-9) c.fail("harness", "curve construction");
    c.sample("%s, curve of %zu points, fields %s", p.s.text.c_str(), pts.size(), low ? "below the knee" : "beyond the last point");
    MagnetostaticSimulation b; draw(p, b, N); auto sb = b.generateSystem(false, p.amax, p.q); auto X = b.solve(sb);
    if (X.size() != A.size()) c.skip(); double am = 0; for (double v : A) am = std::max(am, std::fabs(v)); double e = 0; for (size_t i = 0; i < A.size(); i++) { if (!std::isfinite(X[i])) c.fail("nonfinite", "the potential of vertex %zu is %g", i, X[i]); e = std::max(e, std::fabs(X[i] - A[i])); }
    c.worst("difference from the linear problem", e / am); c.check(e <= 1e-6 * am, "one-segment", "the field stays %s, where the curve is straight, but the potential differs from the linear material's by %.3g of its maximum", low ? "below the knee" : "beyond the last point", e / am);
    c.eval(A.size()); c.nontrivial(scene_hash(p.s)); c.note(low ? "solutions below the knee" : "solutions beyond the last point");
}
// fields that spread over the curve: the solution implies the permeabilities it was computed with
VF_SUITE(consistency, 400, 4000) {
    double js = c.rng.logu(1e3, 1e7); Prob p = problem(c, js); std::vector<BH_Point> pts; auto L = p.P; L[1].mu = magnetostatic_materials::air * 100; MagnetostaticSimulation a; draw(p, a, L); auto sa = a.generateSystem(false, p.amax, p.q); auto A = a.solve(sa); auto B = a.mesh.computeCurl(A); double bmax = 0; for (auto& b : B) bmax = std::max(bmax, std::hypot(b.x, b.y)); if (bmax == 0) c.skip();
    double bs = bmax * c.rng.uni(.1, 1.5); int n = c.rng.range(2, 4); auto N = p.P; N[1].bh_curve = curve(c, n, bs, bs / magnetostatic_materials::air / c.rng.uni(2, 200), true, &pts);
    MagnetostaticSimulation b; draw(p, b, N); auto sb = b.generateSystem(false, p.amax, p.q); auto X = b.solve(sb); auto& m = b.mesh.data; auto C = b.mesh.computeCurl(X); std::vector<double> mu; int segs[16] = {0};
    for (int t = 0; t < m.numberoftriangles; t++) { auto* q = b.mesh.drawing.getRegionPtrFromId(m.triangleattributelist[t]); double v = q->mu, bb = std::hypot(C[t].x, C[t].y); if (!q->bh_curve.empty()) { v = (double)slopes(pts, bb)[0]; int k = 0; while (k < n && pts[k].B < bb) k++; segs[k]++; } mu.push_back(v); }
    double r = residual(c, b, p, N, X, mu); int used = 0; for (int k : segs) used += k > 0; c.note(fmt("solutions with elements in %d curve intervals", used).c_str()); if (getenv("C16DBG")) fprintf(stderr, "%ld n=%d used=%d residual %g\n", c.idx, n, used, r);
    bool inconsistent = r > 1e-6;
    if (inconsistent) {   // a field at a corner of the curve has no consistent permeability: only a solution that exists away from corners must be found
        auto sr = b.mesh.getFemSystem(); b.mesh.addDirichletInfiniteBoundaryConditions(sr); NonLinearMatCSRSymmetric M(sr.A); std::vector<double> lm = mu, x(X.size()), rhs(X.size()); double rr = 1, gap = 0;
        for (int it = 0; it < 80 && rr > 1e-8; it++) {
            M.evaluate(lm); for (size_t i = 0; i < rhs.size(); i++) rhs[i] = sr.b[i].evaluate(lm); preconditionedSSORConjugateGradientSolver(M, rhs, x, 1.5, 1e-10 * norm(rhs), 2000); auto CC = b.mesh.computeCurl(x); gap = 1; std::vector<double> im;
            for (int t = 0; t < m.numberoftriangles; t++) { auto* q = b.mesh.drawing.getRegionPtrFromId(m.triangleattributelist[t]); double bb = CC[t].norm(); im.push_back(q->bh_curve.empty() ? q->mu : (double)slopes(pts, bb)[0]); if (!q->bh_curve.empty()) for (int k = 1; k + 1 < n; k++) gap = std::min(gap, std::fabs(bb / pts[k].B - 1)); }
            rr = residual(c, b, p, N, x, im); for (size_t t = 0; t < im.size(); t++) lm[t] = lm[t] * std::pow(im[t] / lm[t], .6);
        }
        c.note(rr <= 1e-7 ? "unfound solutions near corners of the curve" : "problems without a consistent solution"); if (getenv("C16DBG")) fprintf(stderr, "case %ld: library residual %g, reference %g gap %g\n", c.idx, r, rr, gap);
        if (rr <= 1e-7 && gap > .05) c.fail("inconsistent", "the returned field implies permeabilities with which its residual is %.3g of the sources; a consistent field exists, at least %.1f%% away from every corner of the curve", r, gap * 100);
    }
    c.note(!inconsistent ? "self-consistent solutions" : "oscillating solutions"); c.eval(m.numberoftriangles); c.nontrivial(scene_hash(p.s)); c.sample("%s, curve of %d points, residual %.3g", p.s.text.c_str(), n, r);
}
// the materials that come with the library
VF_SUITE(table, 1, 1) {
    namespace M = magnetostatic_materials; const double mu0 = 4e-7 * 3.14159265358979323846;
    c.check(close(M::vacuum, mu0, 1e-9, 0) && close(M::air, mu0, 1e-5, 0), "material", "vacuum %.17g, air %.17g", M::vacuum, M::air);
    c.check(close(M::copper, 1.256629e-6, 1e-6, 0), "material", "copper %.17g", M::copper); c.check(M::neodymium > mu0 && M::neodymium < 1.15 * mu0, "material", "neodymium %.17g", M::neodymium);
    c.check(M::iron_linear > 4000 * mu0 && M::iron_linear < 6000 * mu0, "material", "iron (99.8%%) %.17g", M::iron_linear);
    std::map<double, double> want{{1, 2000}, {1.42, 5000}, {1.7, 10000}, {2, 40000}}, got; for (auto& p : M::iron) got[p.B] = p.H; c.check(got == want, "material", "the curve of iron has %zu points", got.size());
    MagnetostaticProp p{0, Vector(0, 0), 0, M::iron}; for (double B : {0., .3, .99, 1.2, 1.6, 1.9, 2.5, 90.}) c.check(std::isfinite(p.getMu(B)) && p.getMu(B) >= mu0 && p.getMu(B) <= 6000 * mu0, "material", "iron at %g T has %.17g", B, p.getMu(B)); c.nontrivial(1); c.eval();
}
VF_MAIN
