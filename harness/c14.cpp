// C14: layered conductors equal the connected circuit.
#include "meshmon.hpp"
#include "femref.hpp"
using namespace nikfemm;
using namespace vf;

struct Layer { Scene s; double depth; std::vector<CurrentDensityProp> props; };
static Vector interior(Ctx& c, const Scene& s) {   // a point of the drawn area: a marker, a random point, or a corner
    int k = c.rng.range(0, 3); auto& f = s.faces[c.rng.range(0, s.faces.size() - 1)];
    if (k == 0) return f.loop[c.rng.range(0, f.loop.size() - 1)];
    if (k == 1) return f.marker;
    double x0 = 1e300, x1 = -1e300, y0 = 1e300, y1 = -1e300; for (auto& p : f.loop) x0 = std::min(x0, p.x), x1 = std::max(x1, p.x), y0 = std::min(y0, p.y), y1 = std::max(y1, p.y);
    for (int t = 0; t < 200; t++) { Vector p(c.rng.uni(x0, x1), c.rng.uni(y0, y1)); int g = face_of(s, p); if (g < 0) continue; double d = 1e300; for (auto& h : s.faces) d = std::min(d, loopdist(p, h.loop)); if (d > 0.02 * std::sqrt(s.total)) return p; }
    return f.marker;
}
static void circuit(Ctx& c, bool big) {
    int nl = big ? 2 : c.rng.range(1, 4); std::vector<Layer> L(nl); double s0 = c.rng.logu(1e-2, 1e8); SceneOpt o; o.max_shapes = 3; o.scale_lo = 1e-5; o.scale_hi = 100; if (big) o.scale_lo = 1, o.scale_hi = 1.5;
    for (auto& l : L) { l.s = random_scene(c.rng, o); l.depth = c.rng.logu(1e-5, 1); for (int i = 0; i < o.palette; i++) l.props.push_back({s0 * c.rng.logu(.1, 10)}); }
    std::vector<double> depths; for (auto& l : L) depths.push_back(l.depth);
    bool defdepth = c.rng.chance(.15); if (defdepth) for (auto& l : L) l.depth = 1;
    double amin = 1e300, tot = 0; for (auto& l : L) amin = std::min(amin, l.s.total), tot = std::max(tot, l.s.total);
    double amax = std::max(amin / c.rng.logu(4, c.thorough ? 500 : 80), tot / 400); if (big) { double sum = 0; for (auto& l : L) sum += l.s.total; amax = sum / 95000; } int q = 33; for (auto& l : L) q = std::min(q, (int)(l.s.minang * .4)); bool refine = c.rng.chance(.15); if (refine) q = std::min(q, 20);
    auto sim = defdepth ? MultiLayerCurrentDensitySimulation(nl) : MultiLayerCurrentDensitySimulation(nl, depths);
    for (int i = 0; i < nl; i++) draw_scene(c.rng, sim.meshes[i].drawing, L[i].s, [&](int f) { return L[i].props[L[i].s.faces[f].mat]; });
    struct IC { int a, b; Vector p, q; double R; }; std::vector<IC> ic; int ni = c.rng.range(0, 6); double R0 = 1 / (s0 * std::sqrt(L[0].depth * L[nl - 1].depth));
    for (int k = 0; k < ni; k++) {
        IC t;
        if (k && c.rng.chance(.25)) { t = ic[c.rng.range(0, k - 1)]; if (c.rng.chance(.5)) { std::swap(t.a, t.b); std::swap(t.p, t.q); } c.note("parallel interconnections"); }
        else { t.a = c.rng.range(0, nl - 1); t.b = c.rng.range(0, nl - 1); t.p = interior(c, L[t.a].s); t.q = interior(c, L[t.b].s); if (k && c.rng.chance(.2)) { t.a = ic[k - 1].a; t.p = ic[k - 1].p; } }
        t.R = R0 * c.rng.logu(.05, 20); if (t.a == t.b) c.note("interconnections within a layer");
        ic.push_back(t); sim.interconnections.push_back({t.p, t.q, (uint64_t)t.a, (uint64_t)t.b, t.R});
    }
    // end points that nearly coincide make degenerate refinements: outside the domain
    double tiny = 1e300;
    for (auto& a : ic) for (auto& b : ic) { auto f = [&](int l, Vector u, int m, Vector v) { if (l == m) { double d = std::hypot(u.x - v.x, u.y - v.y); if (d > 0) tiny = std::min(tiny, d / std::sqrt(L[l].s.total)); } }; f(a.a, a.p, b.a, b.p); f(a.a, a.p, b.b, b.q); f(a.b, a.q, b.b, b.q); }
    if (tiny < 0.02) c.skip();
    c.sample("%d layers, %zu interconnections, sigma ~%.3g, %s ...", nl, ic.size(), s0, L[0].s.text.c_str());
    auto sys = sim.generateSystem(refine, amax, q);
    // reference: the layers side by side, plus one resistor per interconnection
    std::vector<int> off{0}; for (auto& m : sim.meshes) off.push_back(off.back() + m.data.numberofpoints);
    int n = off.back();
    c.check((int)sys.b.size() == n, "size", "right-hand side has %zu entries for %d nodes", sys.b.size(), n);
    SymRef R(n);
    for (int i = 0; i < nl; i++) {
        audit_topology(c, sim.meshes[i].data, true); audit_epsilon(c, sim.meshes[i]);
        SymRef r = conduction_ref(c, L[i].s, sim.meshes[i].data, L[i].depth, [&](int f) { return L[i].props[L[i].s.faces[f].mat].sigma; });
        for (auto& [k, v] : r.a) R.add(k.first + off[i], k.second + off[i], v);
        for (size_t j = 0; j < r.mag.size(); j++) R.mag[off[i] + j] += r.mag[j];
    }
    auto node = [&](int l, Vector p) {
        auto& m = sim.meshes[l].data; int b = -1; double d1 = 1e300; for (int i = 0; i < m.numberofpoints; i++) { double d = std::hypot(m.pointlist[i].x - p.x, m.pointlist[i].y - p.y); if (d < d1) d1 = d, b = i; }
        double sc = 0; for (auto& f : L[l].s.faces) for (auto& v : f.loop) sc = std::max({sc, std::fabs(v.x), std::fabs(v.y)});
        if (d1 > 1e-9 + 1e-12 * sc) c.fail("interconnection-node", "layer %d has no node at the interconnection point (%.15g,%.15g), nearest at %g", l, p.x, p.y, d1);
        return off[l] + b; };
    std::vector<std::pair<int, int>> nd;
    for (auto& t : ic) { int a = node(t.a, t.p), b = node(t.b, t.q); nd.push_back({a, b}); if (a == b) continue; R.add(a, a, 1 / t.R); R.add(b, b, 1 / t.R); R.add(a, b, -1 / t.R); R.mag[a] += 2 / t.R; R.mag[b] += 2 / t.R; }
    MatCSRSymmetric M(sys.A); compare_matrix(c, M, R, n, "layered");
    for (int i = 0; i < n; i++) if (sys.b[i] != 0) c.fail("rhs", "right-hand side of node %d is %g without a source", i, sys.b[i]);
    // electrodes and solution
    std::map<int, double> fix; double vs = c.rng.logu(1e-2, 1e3); int ne = c.rng.range(1, 4);
    for (int k = 0; k < ne; k++) { int l = c.rng.range(0, nl - 1); auto& f = L[l].s.faces[c.rng.range(0, L[l].s.faces.size() - 1)]; Vector p = f.loop[c.rng.range(0, f.loop.size() - 1)]; int b = node(l, p); if (fix.count(b)) continue; double V = vs * c.rng.uni(-1, 1); fix[b] = V; sim.setVoltage(sys, p, V, l); }
    auto V = sim.solve(sys); c.check((int)V.size() == n, "size", "solution has %zu entries for %d nodes", V.size(), n);
    double vm = 0; for (auto& [k, v] : fix) vm = std::max(vm, std::fabs(v));
    for (int i = 0; i < n; i++) if (!std::isfinite(V[i])) c.fail("nonfinite", "solution at node %d is %g", i, V[i]);
    for (auto& [k, v] : fix) c.check(std::fabs(V[k] - v) <= 1e-7 * vm, "electrode", "node %d is at %.15g V, prescribed %.15g V", k, V[k], v);
    auto I = R.mult(V);
    for (int i = 0; i < n; i++) if (!fix.count(i)) { double tol = 1e-7 * (double)R.mag[i] * vm; c.worst("nodal current imbalance / tolerance", std::fabs((double)I[i]) / tol); if (!(std::fabs((double)I[i]) <= tol)) c.fail("kirchhoff", "node %d: the currents sum to %Lg A (scale %Lg A)", i, I[i], R.mag[i] * (ld)vm); }
    c.eval(n);
    // power density, element by element, and energy balance
    auto P = sim.computePowerDensity(V); size_t k = 0; ld joule = 0;
    for (int l = 0; l < nl; l++) {
        auto& m = sim.meshes[l].data;
        for (int t = 0; t < m.numberoftriangles; t++, k++) {
            auto& v = m.trianglelist[t].verts; ld A2 = tri2(m, t), ex = 0, ey = 0, h = 0;
            for (int a = 0; a < 3; a++) { Vector p1 = m.pointlist[v[(a + 1) % 3]], p2 = m.pointlist[v[(a + 2) % 3]]; ex += V[off[l] + v[a]] * ((ld)p1.y - p2.y) / A2; ey += V[off[l] + v[a]] * ((ld)p2.x - p1.x) / A2; h = std::max<ld>(h, hypotl(p1.x - p2.x, p1.y - p2.y)); }
            double sg = L[l].props[L[l].s.faces[face_of_tri(L[l].s, m, t)].mat].sigma, pw = (double)(sg * (ex * ex + ey * ey));
            if (k >= P.size() || !(std::fabs(P[k] - pw) <= 1e-6 * pw + 1e-14 * sg * vm * vm * (double)(h * h / A2 / A2) + 1e-290)) c.fail("power-density", "triangle %d of layer %d: power density %.12g instead of %.12g", t, l, k < P.size() ? P[k] : NAN, pw);
            joule += (ld)pw * A2 / 2 * L[l].depth;
        }
    }
    c.check(k == P.size(), "power-size", "%zu power densities for %zu triangles", P.size(), k); c.eval(k);
    ld src = 0; for (auto& [i, v] : fix) src += I[i] * v;
    for (size_t t = 0; t < ic.size(); t++) { ld d = V[nd[t].first] - V[nd[t].second]; joule += d * d / ic[t].R; }
    c.check(fabsl(src - joule) <= 1e-5L * (fabsl(src) + fabsl(joule)) + 1e-7L * vm * vm * *std::max_element(R.mag.begin(), R.mag.end()), "energy-balance", "the electrodes deliver %Lg W, %Lg W are dissipated", src, joule);
    uint64_t h = nl; for (auto& l : L) h = mix(h, scene_hash(l.s));
    c.nontrivial(mix(h, ic.size())); if (ic.size()) c.note("circuits with interconnections"); c.note("interconnections", ic.size());
}
VF_SUITE(circuits, 500, 8000) { circuit(c, false); }
VF_SUITE(big, 3, 20) { circuit(c, true); }   // more nodes than 16 bits can count
// bars in different layers, joined at their ends by resistors: a ladder with an exact conductance
VF_SUITE(bridged_bars, 200, 3000) {
    int nl = c.rng.range(2, 4); double g0 = c.rng.logu(1e-1, 1e6); std::vector<double> d, sg, len, wid;
    for (int i = 0; i < nl; i++) d.push_back(c.rng.logu(1e-4, 1)), sg.push_back(g0 / d[i] * c.rng.uni(.5, 2)), len.push_back(c.rng.uni(1, 3)), wid.push_back(c.rng.uni(.3, 1));
    MultiLayerCurrentDensitySimulation sim(nl, d);
    for (int i = 0; i < nl; i++) { sim.meshes[i].drawing.drawRectangle(Vector(0, 0), Vector(len[i], wid[i])); sim.meshes[i].drawing.drawRegion(Vector(len[i] / 2, wid[i] / 2), CurrentDensityProp{sg[i]}); }
    std::vector<double> Ra, Rb;
    for (int i = 0; i + 1 < nl; i++) { double r1 = c.rng.logu(.01, 100) / g0, r2 = c.rng.logu(.01, 100) / g0; Ra.push_back(r1); Rb.push_back(r2); sim.interconnections.push_back({Vector(0, 0), Vector(0, 0), (uint64_t)i, (uint64_t)i + 1, r1}); sim.interconnections.push_back({Vector(len[i + 1], wid[i + 1]), Vector(len[i], wid[i]), (uint64_t)i + 1, (uint64_t)i, r2}); }
    auto sys = sim.generateSystem(false, c.rng.logu(.01, .5), 30); auto sy0 = sys; double V1 = c.rng.uni(1, 5), V2 = c.rng.uni(-5, -1);
    sim.setVoltage(sys, Vector(0, 0), V1, 0); sim.setVoltage(sys, Vector(len[0], wid[0]), V2, 0);
    auto V = sim.solve(sys); std::vector<double> I(V.size()); MatCSRSymmetric M(sy0.A); mult(I, M, V);
    std::vector<ld> Gb; int n0 = -1; ld G = 0;   // two-terminal conductance of each bar between its corners, on its own
    for (int i = 0; i < nl; i++) {
        auto y = sim.meshes[i].getFemSystem(); auto y0 = y; int a = -1, b = -1; auto& m = sim.meshes[i].data;
        for (int j = 0; j < m.numberofpoints; j++) { if (m.pointlist[j].x == 0 && m.pointlist[j].y == 0) a = j; if (m.pointlist[j].x == len[i] && m.pointlist[j].y == wid[i]) b = j; }
        if (a < 0 || b < 0) c.fail("corner", "corner of bar %d is not a mesh vertex", i);
        if (i == 0) n0 = a;
        y.addDirichletBoundaryCondition(a, 1); y.addDirichletBoundaryCondition(b, 0); std::vector<double> x(y.b.size()), z(y.b.size()); MatCSRSymmetric A(y.A), A0(y0.A); preconditionedSSORConjugateGradientSolver(A, y.b, x, 1.5, 1e-12 * g0, 100000); mult(z, A0, x); Gb.push_back(z[a]);
    }
    for (int i = nl - 1; i >= 0; i--) { ld g = Gb[i]; if (i + 1 < nl) g += 1 / (Ra[i] + Rb[i] + 1 / G); G = g; }
    c.sample("%d bars in a ladder of resistors, conductance %Lg S", nl, G);
    ld Iexp = G * (V1 - V2); c.worst("ladder current relative error", std::fabs((double)(I[n0] / Iexp - 1)));
    c.check(std::fabs((double)(I[n0] - Iexp)) <= 1e-5 * (double)Iexp, "ladder", "the ladder draws %g A, its circuit %Lg A", I[n0], Iexp); c.nontrivial(mixd(mixd(nl, len[0]), g0));
}
VF_MAIN
