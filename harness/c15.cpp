// C15: the magnetostatic system is the field equation of the drawing.
#include "magref.hpp"
using namespace nikfemm;
using namespace vf;

static std::vector<MagnetostaticProp> palette(Ctx& c, int n, double js, double ms, bool magnets) {
    std::vector<MagnetostaticProp> P; int kinds = c.rng.range(0, 3);
    for (int i = 0; i < n; i++) {
        MagnetostaticProp p{0, {0, 0}, magnetostatic_materials::air, {}}; int k = kinds == 3 ? c.rng.range(0, 3) : kinds;
        if (k == 0 || c.rng.chance(.3)) p.J = js * c.rng.uni(-1, 1);
        if (magnets && (k == 1 || c.rng.chance(.25))) p.M = c.rng.chance(.3) ? Vector(c.rng.chance(.5) ? ms : 0, 0) : Vector(ms * c.rng.uni(-1, 1), ms * c.rng.uni(-1, 1));
        if (k == 2 || c.rng.chance(.4)) p.mu = magnetostatic_materials::air * c.rng.logu(1, 5000);
        if (i && c.rng.chance(.2)) { p = P[i - 1]; if (c.rng.chance(.5)) p.J = -p.J - js; }   // materials differing in one value, or the same one twice
        P.push_back(p);
    }
    return P;
}
static void compare_rhs(Ctx& c, std::vector<NonLinearExpression>& b, const MagRef& R, std::vector<double>& mu, const std::set<int>& fixed) {
    for (size_t i = 0; i < b.size(); i++) { double v = b[i].evaluate(mu), w = fixed.count(i) ? 0 : (double)R.b[i], tol = 1e-9 * (double)R.bmag[i]; if (R.bmag[i] > 0) c.worst("right-hand side error relative to its pieces", std::fabs(v - w) / (double)R.bmag[i]); if (!(std::fabs(v - w) <= tol)) c.fail("rhs", "right-hand side of node %zu is %.12g, the drawn sources give %.12g (pieces %.3Lg)", i, v, w, R.bmag[i]); }
    c.eval(b.size());
}
// rows fixed to zero (far-field reference): identity row and column
static std::set<int> fixed_rows(Ctx& c, NonLinearMatCSRSymmetric& M, const MagRef& R, const MeshData& m, double rad) {
    std::set<int> s; for (int i = 0; i < m.numberofpoints; i++) if (std::hypot(m.pointlist[i].x, m.pointlist[i].y) > rad && M(i, i) == 1 && std::fabs((double)R.K.a.at({i, i}) - 1) > 1e-6) s.insert(i);
    return s;
}
static void eliminate(MagRef& R, const std::set<int>& fixed) { for (auto& [k, v] : R.K.a) if (fixed.count(k.first) || fixed.count(k.second)) v = k.first == k.second ? 1 : 0; for (int i : fixed) R.b[i] = 0, R.K.mag[i] = 1; }

// the raw system of a meshed drawing, without exterior
static void assembly(Ctx& c, bool big) {
    SceneOpt o; o.palette = c.rng.range(1, 5); o.scale_lo = 1e-6; o.scale_hi = 1e3; Scene s = random_scene(c.rng, o); MagnetostaticMesh mesh;
    auto P = palette(c, o.palette, c.rng.logu(1e-3, 1e8), c.rng.logu(1, 1e6), c.idx % 3 != 0);
    draw_scene(c.rng, mesh.drawing, s, [&](int f) { return P[s.faces[f].mat]; });
    if (c.rng.chance(.3)) { auto& f = s.faces[c.rng.range(0, s.faces.size() - 1)]; mesh.drawing.drawRegion(Vector(f.marker.x + 1e-4 * s.scale, f.marker.y), P[f.mat]); c.note("faces marked twice"); }
    mesh.mesh(s.tri_area(tris(c.rng, 3, big ? -95000 : 300)), std::min(33, (int)(s.minang * .4))); mesh.computeEpsilon();
    c.sample("%s, %d materials, %d triangles", s.text.c_str(), o.palette, mesh.data.numberoftriangles);
    auto sys = mesh.getFemSystem(); auto& m = mesh.data; std::vector<double> mu(m.numberoftriangles); for (auto& v : mu) v = c.rng.logu(1e-7, 1e-2);
    auto R = mag_ref(m, mu, [&](int t) { int f = face_of_tri(s, m, t); if (f < 0) c.fail("triangle-outside", "triangle %d lies outside the drawing", t); return &P[s.faces[f].mat]; });
    c.check((int)sys.b.size() == m.numberofpoints, "size", "%zu equations for %d vertices", sys.b.size(), m.numberofpoints);
    NonLinearMatCSRSymmetric M(sys.A); M.evaluate(mu); compare_matrix(c, M, R.K, m.numberofpoints, "stiffness"); compare_rhs(c, sys.b, R, mu, {});
    ld tot = 0, want = 0, mag = 0; for (auto& e : sys.b) tot += e.evaluate(mu); for (auto& f : s.faces) want += (ld)P[f.mat].J * f.own; for (auto& v : R.bmag) mag += v;
    c.check(fabsl(tot - want) <= 1e-9L * mag + 1e-10L * fabsl(want), "total-current", "the sources sum to %Lg A, the drawing carries %Lg A", tot, want);
    c.nontrivial(mix(scene_hash(s), o.palette)); for (auto& f : s.faces) if (P[f.mat].M != Vector(0, 0)) { c.note("magnetised faces"); if (f.kids.size()) c.note("magnetised faces around others"); }
}
VF_SUITE(assembly, 3000, 20000) { assembly(c, false); }
VF_SUITE(big, 5, 12) { assembly(c, true); }   // more vertices than 16 bits can count
VF_SUITE(soup, 3000, 30000) {   // triangles of every size, shape, place and orientation
    int np = c.rng.range(1, 5); auto P = palette(c, np, c.rng.logu(1e-3, 1e8), c.rng.logu(1, 1e6), c.idx % 3 != 0); MagnetostaticMesh mesh; std::vector<int> id; for (int i = 0; i < np; i++) mesh.drawing.drawRegion(Vector(i, 0), P[i]), id.push_back(mesh.drawing.regions.back().second);
    uint64_t h = soup_mesh(c, mesh, np, true); auto& m = mesh.data; std::vector<int> of(m.numberoftriangles); for (int t = 0; t < m.numberoftriangles; t++) of[t] = (int)m.triangleattributelist[t], m.triangleattributelist[t] = id[of[t]];
    auto sys = mesh.getFemSystem(); std::vector<double> mu(m.numberoftriangles); for (auto& v : mu) v = c.rng.logu(1e-7, 1e-2);
    auto R = mag_ref(m, mu, [&](int t) { return &P[of[t]]; });
    c.check((int)sys.b.size() == m.numberofpoints, "size", "%zu equations for %d vertices", sys.b.size(), m.numberofpoints);
    NonLinearMatCSRSymmetric M(sys.A); M.evaluate(mu); compare_matrix(c, M, R.K, m.numberofpoints, "stiffness"); compare_rhs(c, sys.b, R, mu, {});
    c.sample("%d triangles in fans of all sizes, %d materials", m.numberoftriangles, np); c.nontrivial(h);
}
// whole simulations: the system of the open problem, its solution, scaling and superposition
VF_SUITE(solution, 900, 6000) {
    SceneOpt o; o.palette = c.rng.range(1, 4); o.max_shapes = 4; o.scale_lo = 1e-6; o.scale_hi = 1e3; Scene s = random_scene(c.rng, o); double js = c.rng.logu(1e-4, 1e8), ms = c.rng.logu(1e-2, 1e6); auto P = palette(c, o.palette, js, ms, c.idx % 2);
    double d = 0; for (auto& f : s.faces) for (auto& p : f.loop) for (auto& g : s.faces) for (auto& q : g.loop) d = std::max(d, std::hypot(p.x - q.x, p.y - q.y));
    double amax = d * d / c.rng.logu(20, c.thorough ? 3000 : 500); int q = std::min(30, (int)(s.minang * .4)); bool rm = c.rng.chance(.3) && few_refining_points(s, amax); if (rm) c.note("refined around magnets"); uint64_t ds = c.rng.next(); double al = c.rng.logu(.01, 100) * c.rng.sgn();
    c.sample("%s, %d materials, J ~ %.3g, M ~ %.3g", s.text.c_str(), o.palette, js, ms);
    // four runs on the same mesh: the drawn sources, scaled sources, only part of the sources, the rest
    std::vector<std::vector<double>> A; std::vector<ld> scale; std::vector<double> mu; MagRef R0; std::set<int> fixed; int n = 0; std::vector<ld> bmax; bool same = true; std::vector<Vector> pts;
    for (int run = 0; run < 4; run++) {
        auto Q = P; for (size_t i = 0; i < Q.size(); i++) { if (run == 1) { Q[i].J *= al; Q[i].M = Q[i].M * al; } if (run == 2) { if (i % 2) Q[i].J = 0; else Q[i].M = Vector(0, 0); } if (run == 3) { if (i % 2 == 0) Q[i].J = 0; else Q[i].M = Vector(0, 0); } }
        MagnetostaticSimulation sim; Rng dr(ds); draw_scene(dr, sim.mesh.drawing, s, [&](int f) { return Q[s.faces[f].mat]; });
        auto sys = sim.generateSystem(false, amax, q, rm); auto& m = sim.mesh.data; Vector ce = sim.mesh.center;
        if (run == 0) {
            n = m.numberofpoints; auto info = audit_shell(c, sim.mesh, [&](int t) { return is_air(sim.mesh.drawing.getRegionPtrFromId(m.triangleattributelist[t])); });
            mu.resize(m.numberoftriangles); std::vector<int> fa(m.numberoftriangles, -1);
            for (int t = 0; t < m.numberoftriangles; t++) { if (!info.outer_tri[t]) fa[t] = face_of_tri(s, m, t, ce); mu[t] = fa[t] < 0 ? magnetostatic_materials::air : P[s.faces[fa[t]].mat].mu; }
            R0 = mag_ref(m, mu, [&](int t) -> const MagnetostaticProp* { return fa[t] < 0 ? nullptr : &P[s.faces[fa[t]].mat]; });
            NonLinearMatCSRSymmetric M(sys.A); M.evaluate(mu); fixed = fixed_rows(c, M, R0, m, sim.mesh.radius); c.check(fixed.size() >= 1 && fixed.size() <= 3, "reference", "%zu potentials are fixed", fixed.size());
            compare_rhs(c, sys.b, R0, mu, fixed); eliminate(R0, fixed); compare_matrix(c, M, R0.K, n, "open-boundary");
            pts.assign(m.pointlist, m.pointlist + n);
        } else { same = m.numberofpoints == n; for (int i = 0; same && i < n; i++) same = m.pointlist[i].x == pts[i].x && m.pointlist[i].y == pts[i].y; if (!same) break; }   // C22 judges repeatability
        NonLinearMatCSRSymmetric M0(sys.A); if (run == 0) M0.evaluate(mu);   // judged above against the reference
        A.push_back(sim.solve(sys)); c.check((int)A.back().size() == n, "size", "%zu potentials for %d vertices", A.back().size(), n);
        for (int i = 0; i < n; i++) if (!std::isfinite(A.back()[i])) c.fail("nonfinite", "the potential of vertex %d is %g", i, A.back()[i]);
        if (run == 0) {
            std::vector<double> y(n); mult(y, M0, A[0]); ld rr = 0, bb = 0, am = 0; for (int i = 0; i < n; i++) { rr += (y[i] - R0.b[i]) * (y[i] - R0.b[i]); bb += R0.b[i] * R0.b[i]; am = std::max(am, fabsl(A[0][i])); } ld fl = 0; for (int i = 0; i < n; i++) fl += R0.K.mag[i] * R0.K.mag[i];
            rr = sqrtl(rr); bb = sqrtl(bb); ld tol = 1e-7L * bb + 1e-14L * am * sqrtl(fl) + 1e-300L; c.worst("residual of the field equation, relative to the sources", bb > 0 ? (double)(rr / bb) : 0);
            c.check(rr <= tol, "residual", "the potential leaves a residual of %Lg A, the sources are %Lg A", rr, bb);
            for (int i : fixed) c.check(A[0][i] == 0 || std::fabs(A[0][i]) <= 1e-9 * (double)am, "reference-zero", "the fixed potential of vertex %d is %g (largest %Lg)", i, A[0][i], am);
        }
    }
    if (!same) { c.note("meshes differ between runs"); c.skip(); }
    double am = 0; for (double v : A[0]) am = std::max(am, std::fabs(v)); double pm = 0; for (double v : A[2]) pm = std::max(pm, std::fabs(v)); for (double v : A[3]) pm = std::max(pm, std::fabs(v));
    for (int i = 0; i < n; i++) { double e1 = std::fabs(A[1][i] - al * A[0][i]), e2 = std::fabs(A[2][i] + A[3][i] - A[0][i]); if (am > 0) c.worst("scaling error", e1 / am / std::fabs(al)); if (pm > 0) c.worst("superposition error", e2 / std::max(am, pm));
        if (!(e1 <= 1e-4 * am * std::fabs(al))) c.fail("scaling", "sources times %g: potential %g instead of %g", al, A[1][i], al * A[0][i]); if (!(e2 <= 1e-4 * std::max(am, pm))) c.fail("superposition", "the potentials of the parts sum to %g, the whole gives %g", A[2][i] + A[3][i], A[0][i]); }
    c.eval(2 * n); if (am > 0) c.nontrivial(scene_hash(s)); c.note("meshes of whole simulations");
}
// known fields
static void expect_field(Ctx& c, MagnetostaticSimulation& sim, const std::vector<Vector>& B, std::function<bool(Vector, Vector&)> ref, double tol, const char* what, double extra = 0) {
    auto& m = sim.mesh.data; double e = 0, s = 0, worst = 0; int k = 0;
    for (int t = 0; t < m.numberoftriangles; t++) { Vector p = triB(m, t) + sim.mesh.center, r; bool out = false; for (int v : m.trianglelist[t].verts) if (std::hypot(m.pointlist[v].x, m.pointlist[v].y) > sim.mesh.radius * .999) out = true; if (out || !ref(p, r)) continue; double a = std::fabs(tri2(m, t)); e += a * ((B[t].x - r.x) * (B[t].x - r.x) + (B[t].y - r.y) * (B[t].y - r.y)); s += a * (r.x * r.x + r.y * r.y); k++; }
    double rel = s > 0 ? std::sqrt(e / s) : 0; c.worst(what, rel); c.check(k > 10 && rel <= tol, "analytic-field", "%s: the field differs from the analytic one by %.2f%% (allowed %.2f%%, %d triangles)", what, 100 * rel, 100 * tol, k);
    c.eval(k); (void)worst; (void)extra;
}
VF_SUITE(analytic, 240, 1200) {
    int kind = c.rng.range(0, 4); double r = c.rng.chance(.4) ? 1 : c.rng.logu(1e-3, 1e2), x = r * c.rng.uni(-8, 8), y = r * c.rng.uni(-8, 8), mu0 = magnetostatic_materials::air; int n = 48; MagnetostaticSimulation sim; double am = r * r / 60; auto& D = sim.mesh.drawing;
    auto circ = [&](double q, int k) { D.drawCircle(Vector(x, y), q, k); }; double af = PI / (n / 2. * sin(2 * PI / n));   // the drawn polygons are smaller than the circles: correct the radius to equal area
    if (kind == 0) {   // coaxial cable: no field outside, known inside
        double a = r * .4, b = r * .7, e = r, J = c.rng.logu(1, 1e7) * c.rng.sgn(), I = J * a * a * PI, Jo = -I / (PI * (e * e - b * b)); circ(a * sqrt(af), n); circ(b * sqrt(af), n); circ(e * sqrt(af), n);
        D.drawRegion(Vector(x, y + .1 * r), {J, {0, 0}, mu0, {}}); D.drawRegion(Vector(x, y + .55 * r), {0, {0, 0}, mu0, {}}); D.drawRegion(Vector(x, y + .85 * r), {Jo, {0, 0}, mu0, {}});
        auto sys = sim.generateSystem(c.rng.chance(.3), am / 4, 30); auto A = sim.solve(sys); auto B = sim.mesh.computeCurl(A);
        expect_field(c, sim, B, [&](Vector p, Vector& w) { double q = std::hypot(p.x - x, p.y - y); double i = q < a ? I * q * q / a / a : q < b ? I : q < e ? I + Jo * PI * (q * q - b * b) : 0; double h = mu0 * i / (2 * PI * q); w = Vector(-h * (p.y - y) / q, h * (p.x - x) / q); return true; }, .12, "coaxial cable");
    } else if (kind == 1) {   // uniformly magnetised cylinder: half the magnetisation inside, a dipole outside
        double th = c.rng.uni(0, 6.28), Ms = c.rng.logu(1, 1e6); Vector Mv(Ms * cos(th), Ms * sin(th)); circ(r * sqrt(af), n); D.drawRegion(Vector(x, y + .1 * r), {0, Mv, mu0, {}});
        bool rm = c.rng.chance(.3); auto sys = sim.generateSystem(c.rng.chance(.3), am, 30, rm); auto A = sim.solve(sys); auto B = sim.mesh.computeCurl(A);
        expect_field(c, sim, B, [&](Vector p, Vector& w) { double dx = p.x - x, dy = p.y - y, q2 = dx * dx + dy * dy; if (q2 < r * r) { w = Mv * (mu0 / 2); return true; } double k = mu0 * r * r / (2 * q2), md = 2 * (Mv.x * dx + Mv.y * dy) / q2; w = Vector(k * (md * dx - Mv.x), k * (md * dy - Mv.y)); return true; }, .12, "magnetised cylinder");
    } else if (kind == 2) {   // a pair of opposite round wires
        double a = r * .25, J = c.rng.logu(1, 1e7), I = J * PI * a * a; Vector p1(x - .6 * r, y), p2(x + .6 * r, y); D.drawCircle(p1, a * sqrt(af), n); D.drawCircle(p2, a * sqrt(af), n); D.drawRegion(p1 + Vector(0, .1 * a), {J, {0, 0}, mu0, {}}); D.drawRegion(p2 + Vector(0, .1 * a), {-J, {0, 0}, mu0, {}});
        auto sys = sim.generateSystem(c.rng.chance(.3), am / 6, 30); auto A = sim.solve(sys); auto B = sim.mesh.computeCurl(A);
        expect_field(c, sim, B, [&](Vector p, Vector& w) { w = Vector(0, 0); for (int k = 0; k < 2; k++) { Vector u = p - (k ? p2 : p1); double q = std::hypot(u.x, u.y), i = (k ? -I : I) * std::min(1., q * q / a / a), h = mu0 * i / (2 * PI * q); w = w + Vector(-h * u.y / q, h * u.x / q); } return true; }, .15, "opposite wires");
    } else if (kind == 4) {   // a round wire on its own: its current returns through the far boundary
        double a = r * c.rng.uni(.4, 1), J = c.rng.logu(1, 1e7) * c.rng.sgn(), I = J * PI * a * a; circ(a * sqrt(af), n); if (c.rng.chance(.5)) circ(r * 1.1 * sqrt(af), n), D.drawRegion(Vector(x, y + 1.05 * r), {0, {0, 0}, mu0, {}}); D.drawRegion(Vector(x, y + .1 * a), {J, {0, 0}, mu0, {}});
        auto sys = sim.generateSystem(c.rng.chance(.3), am / 4, 30); auto A = sim.solve(sys); auto B = sim.mesh.computeCurl(A);
        expect_field(c, sim, B, [&](Vector p, Vector& w) { double dx = p.x - x, dy = p.y - y, q = std::hypot(dx, dy), h = mu0 * I * std::min(1., q * q / a / a) / (2 * PI * q); w = Vector(-h * dy / q, h * dx / q); return true; }, .25, "single wire");
    } else {   // permeable tube around a coaxial line: B = mu H in the tube, H unchanged
        double a = r * .3, b = r * .5, e = r * .7, f = r, mr = c.rng.logu(2, 2000), J = c.rng.logu(1, 1e7) * c.rng.sgn(), I = J * a * a * PI, g = r * 1.2, Jo = -I / (PI * (g * g - f * f)); for (double q : {a, b, e, f, g}) circ(q * sqrt(af), n);
        D.drawRegion(Vector(x, y + .1 * r), {J, {0, 0}, mu0, {}}); D.drawRegion(Vector(x, y + .4 * r), {0, {0, 0}, mu0, {}}); D.drawRegion(Vector(x, y + .6 * r), {0, {0, 0}, mu0 * mr, {}}); D.drawRegion(Vector(x, y + .85 * r), {0, {0, 0}, mu0, {}}); D.drawRegion(Vector(x, y + 1.1 * r), {Jo, {0, 0}, mu0, {}});
        auto sys = sim.generateSystem(c.rng.chance(.3), am / 4, 30); auto A = sim.solve(sys); auto B = sim.mesh.computeCurl(A);
        expect_field(c, sim, B, [&](Vector p, Vector& w) { double q = std::hypot(p.x - x, p.y - y); double i = q < a ? I * q * q / a / a : q < f ? I : q < g ? I + Jo * PI * (q * q - f * f) : 0; double h = (q > b && q < e ? mr : 1) * mu0 * i / (2 * PI * q); w = Vector(-h * (p.y - y) / q, h * (p.x - x) / q); return !(q > b * .97 && q < b * 1.03) && !(q > e * .97 && q < e * 1.03); }, .15, "permeable tube");
    }
    c.sample("%s of radius %.3g at (%.3g,%.3g)", kind == 0 ? "coaxial cable" : kind == 1 ? "magnetised cylinder" : kind == 2 ? "opposite wires" : kind == 4 ? "single wire" : "permeable tube", r, x, y); c.nontrivial(mixd(mixd(kind, r), x));
}
VF_MAIN
