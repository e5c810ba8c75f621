// C13: conduction solutions obey the laws of resistive conduction.
#include "meshmon.hpp"
#include "femref.hpp"
using namespace nikfemm;
using namespace vf;

// dense long double Cholesky of the free part; returns false if not positive definite
static bool solve_ref(const SymRef& R, int n, const std::map<int, double>& fix, const std::vector<char>& live, std::vector<ld>& x) {
    std::vector<int> id(n, -1), fr; for (int i = 0; i < n; i++) if (!fix.count(i) && live[i]) { id[i] = fr.size(); fr.push_back(i); }
    int m = fr.size(); std::vector<ld> A((size_t)m * m, 0), b(m, 0); x.assign(n, 0); for (auto& [k, v] : fix) x[k] = v;
    for (auto& [k, v] : R.a) { int i = k.first, j = k.second; if (id[i] >= 0 && id[j] >= 0) { A[(size_t)id[i] * m + id[j]] += v; if (i != j) A[(size_t)id[j] * m + id[i]] += v; } else if (id[i] >= 0 && fix.count(j)) b[id[i]] -= v * fix.at(j); else if (id[j] >= 0 && fix.count(i)) b[id[j]] -= v * fix.at(i); }
    for (int k = 0; k < m; k++) { for (int j = 0; j < k; j++) { ld s = A[(size_t)k * m + j]; for (int p = 0; p < j; p++) s -= A[(size_t)k * m + p] * A[(size_t)j * m + p]; A[(size_t)k * m + j] = s / A[(size_t)j * m + j]; } ld s = A[(size_t)k * m + k]; for (int p = 0; p < k; p++) s -= A[(size_t)k * m + p] * A[(size_t)k * m + p]; if (!(s > 0)) return false; A[(size_t)k * m + k] = sqrtl(s); }
    for (int k = 0; k < m; k++) { ld s = b[k]; for (int p = 0; p < k; p++) s -= A[(size_t)k * m + p] * b[p]; b[k] = s / A[(size_t)k * m + k]; }
    for (int k = m - 1; k >= 0; k--) { ld s = b[k]; for (int p = k + 1; p < m; p++) s -= A[(size_t)p * m + k] * b[p]; b[k] = s / A[(size_t)k * m + k]; }
    for (int k = 0; k < m; k++) x[fr[k]] = b[k]; return true;
}
template <class MD> static std::vector<int> components(const MD& m) { std::vector<int> p(m.numberofpoints); std::iota(p.begin(), p.end(), 0); std::function<int(int)> f = [&](int i) { while (p[i] != i) i = p[i] = p[p[i]]; return i; }; for (int t = 0; t < m.numberoftriangles; t++) { auto& v = m.trianglelist[t].verts; p[f(v[0])] = f(v[1]); p[f(v[1])] = f(v[2]); } for (size_t i = 0; i < p.size(); i++) p[i] = f(i); return p; }

static void scene(Ctx& c, bool big) {
    SceneOpt o; if (c.rng.chance(.3)) o.max_shapes = 3; Scene s = random_scene(c.rng, o);
    double depth = c.rng.chance(.3) ? 1 : c.rng.logu(1e-5, 1), amax = s.total / tris(c.rng, 5, big ? -95000 : c.thorough ? 1500 : 250); int q = (int)std::min(25.0, s.minang * .5); bool refine = c.rng.chance(.15); if (refine) q = std::min(q, 20);
    double s0 = c.rng.chance(.2) ? c.rng.logu(1e-14, 1e-4) : c.rng.logu(1e-4, 1e8), spread = c.rng.chance(.5) ? 3 : 100; std::vector<CurrentDensityProp> props; for (int i = 0; i < o.palette; i++) props.push_back({s0 * c.rng.logu(1 / spread, spread)});
    CurrentDensitySimulation sim(depth); draw_scene(c.rng, sim.mesh.drawing, s, [&](int i) { return props[s.faces[i].mat]; });
    auto sys = sim.generateSystem(refine, amax, q); auto& m = sim.mesh.data; int n = m.numberofpoints;
    SymRef R = conduction_ref(c, s, m, depth, [&](int f) { return props[s.faces[f].mat].sigma; });
    auto comp = components(m);
    // electrodes: drawn corners, arbitrary points (nearest node), or all nodes of an edge
    std::map<int, double> fix; double vs = c.rng.chance(.5) ? 1 : c.rng.logu(1e-3, 1e4), voff = c.rng.chance(.3) ? c.rng.uni(-3, 3) * vs : 0; int ne = c.rng.range(1, 5); std::vector<std::pair<Vector, double>> el;
    for (int k = 0; k < ne; k++) {
        Vector p; if (c.rng.chance(.6)) { auto& f = s.faces[c.rng.range(0, s.faces.size() - 1)]; p = f.loop[c.rng.range(0, f.loop.size() - 1)]; } else { auto& f = s.faces[0]; double d = std::sqrt(s.total) * (c.rng.chance(.4) ? c.rng.logu(1, 1e7) : 1); p = Vector(f.loop[0].x + c.rng.uni(-1, 1) * d, f.loop[0].y + c.rng.uni(-1, 1) * d); }
        int b = -1; double d1 = 1e300, d2 = 1e300; for (int i = 0; i < n; i++) { double d = std::hypot(m.pointlist[i].x - p.x, m.pointlist[i].y - p.y); if (d < d1) { d2 = d1; d1 = d; b = i; } else if (d < d2) d2 = d; }
        if (d2 - d1 < 1e-12 * d2 || fix.count(b)) continue;
        double V = voff + vs * c.rng.uni(-1, 1); if (c.rng.chance(.15)) V = 0; fix[b] = V; el.push_back({p, V});
    }
    if (fix.empty()) c.skip();
    c.sample("%s, %d nodes, sigma ~%.3g, depth %.3g, %zu electrodes ~%.3g V", s.text.c_str(), n, s0, depth, fix.size(), vs);
    for (auto& [p, V] : el) sim.setVoltage(sys, p, V);
    auto V = sim.solve(sys);
    c.check((int)V.size() == n, "size", "solution has %zu entries for %d nodes", V.size(), n);
    double vm = 0, lo = 1e300, hi = -1e300; for (auto& [k, v] : fix) vm = std::max(vm, std::fabs(v)), lo = std::min(lo, v), hi = std::max(hi, v);
    for (int i = 0; i < n; i++) if (!std::isfinite(V[i])) c.fail("nonfinite", "solution at node %d is %g", i, V[i]);
    for (auto& [k, v] : fix) c.check(std::fabs(V[k] - v) <= 1e-9 * (vm + 1e-12), "electrode", "node %d is at %.15g V, prescribed %.15g V", k, V[k], v);
    std::vector<char> live(n, 0); std::set<int> lc; for (auto& [k, v] : fix) lc.insert(comp[k]); int dead = 0; for (int i = 0; i < n; i++) { live[i] = lc.count(comp[i]); dead += !live[i]; }
    if (dead) c.note("scenes with parts not connected to an electrode");
    auto I = R.mult(V); ld in = 0, inmag = 0; for (int i = 0; i < n; i++) { if (fix.count(i)) { in += I[i]; inmag += fabsl(I[i]); continue; } double tol = 1e-7 * (double)R.mag[i] * vm + 1e-300; c.worst("nodal current imbalance / tolerance", std::fabs((double)I[i]) / tol); if (!(std::fabs((double)I[i]) <= tol)) c.fail("kirchhoff", "node %d: the currents sum to %Lg (row scale %Lg, voltages up to %g)", i, I[i], R.mag[i] * (ld)vm, vm); }
    c.eval(n);
    if (fix.size() > 1) c.check(fabsl(in) <= 1e-6L * inmag + 1e-7L * vm * *std::max_element(R.mag.begin(), R.mag.end()), "current-balance", "currents in and out differ by %Lg of %Lg", in, inmag);
    bool Mm = true; for (auto& [k, v] : R.a) if (k.first != k.second && v > 0) Mm = false;
    if (Mm) { for (int i = 0; i < n; i++) if (live[i] && (V[i] < lo - 1e-7 * vm || V[i] > hi + 1e-7 * vm)) c.fail("maximum-principle", "node %d at %g V outside [%g,%g]", i, V[i], lo, hi); c.note("monotone systems checked for the maximum principle"); c.eval(n); }
    if (n < 450) { std::vector<ld> x; if (solve_ref(R, n, fix, live, x)) { double worst = 0; int wi = 0; for (int i = 0; i < n; i++) if (live[i]) { double e = std::fabs(V[i] - (double)x[i]); if (e > worst) worst = e, wi = i; } c.worst("potential error / largest voltage", worst / (vm + 1e-300)); c.check(worst <= 1e-6 * vm, "solution", "node %d is at %.12g V, the direct solution gives %.12Lg V", wi, V[wi], x[wi]); c.note("solutions compared with a direct solver"); } }
    // linear in the voltages
    if (c.rng.chance(.3)) { double k = c.rng.uni(-3, 3); CurrentDensitySimulation s2(depth); Rng r2(c.idx); draw_scene(r2, s2.mesh.drawing, s, [&](int i) { return props[s.faces[i].mat]; }); auto y2 = s2.generateSystem(refine, amax, q); auto I2 = y2; for (auto& [p, v] : el) { s2.setVoltage(y2, p, v * k + 1 * vs); s2.setVoltage(I2, p, v); }
        auto V2 = s2.solve(y2), V3 = s2.solve(I2); auto cc = components(s2.mesh.data); std::set<int> l2; for (auto& [p, v] : el) { int b = 0; double d1 = 1e300; for (int i = 0; i < s2.mesh.data.numberofpoints; i++) { double d = std::hypot(s2.mesh.data.pointlist[i].x - p.x, s2.mesh.data.pointlist[i].y - p.y); if (d < d1) d1 = d, b = i; } l2.insert(cc[b]); }
        for (size_t i = 0; i < V2.size(); i++) if (l2.count(cc[i]) && std::fabs(V2[i] - (k * V3[i] + vs)) > 1e-6 * (4 * vm + vs)) c.fail("linearity", "node %zu: %g V for transformed voltages instead of %g V", i, V2[i], k * V3[i] + vs); c.eval(V2.size()); c.note("superpositions"); }
    c.nontrivial(scene_hash(s));
}

VF_SUITE(scenes, 500, 8000) { scene(c, false); }
VF_SUITE(big, 3, 20) { scene(c, true); }   // more nodes than 16 bits can count
// bars: the exact resistance of series and parallel sections between two plates
static void bars(Ctx& c, bool strip) {
    bool series = strip || c.rng.chance(.5); int k = strip ? c.rng.range(1, 40) : c.rng.range(1, 6); double a = c.rng.logu(1e-3, 10), depth = c.rng.logu(1e-5, 1), s0 = c.rng.logu(1e-2, 1e8), rot = c.rng.chance(.5) ? 0 : c.rng.uni(0, 6.28); Vector off(c.rng.uni(-3, 3) * a, c.rng.uni(-3, 3) * a);
    std::vector<double> cut{0}, sg; for (int i = 0; i < k; i++) { cut.push_back(cut.back() + a * c.rng.uni(.3, 2)); sg.push_back(s0 * c.rng.logu(.05, 20)); }
    double L = series ? cut.back() : a * c.rng.uni(.5, 2), W = strip ? cut.back() / c.rng.logu(20, 150) : series ? a * c.rng.uni(.5, 2) : cut.back(), cr = cos(rot), sr = sin(rot);
    auto map = [&](double x, double y) { return Vector(off.x + x * cr - y * sr, off.y + x * sr + y * cr); };
    CurrentDensitySimulation sim(depth); std::vector<int> ord(k); std::iota(ord.begin(), ord.end(), 0); c.rng.shuffle(ord);
    for (int i : ord) { double x0 = series ? cut[i] : 0, x1 = series ? cut[i + 1] : L, y0 = series ? 0 : cut[i], y1 = series ? W : cut[i + 1]; sim.mesh.drawing.drawPolygon(std::vector<Vector>{map(x0, y0), map(x1, y0), map(x1, y1), map(x0, y1)}); sim.mesh.drawing.drawRegion(map((x0 + x1) / 2, (y0 + y1) / 2), CurrentDensityProp{sg[i]}); }
    double amax = strip ? std::max(W * W / c.rng.uni(15, 120), L * W / 25000) : L * W / c.rng.logu(5, 600); auto sys = sim.generateSystem(!strip && c.rng.chance(.3), amax, 25); auto sy0 = sys; auto& m = sim.mesh.data;
    double V1 = c.rng.uni(-10, 10), V2 = c.rng.uni(-10, 10), tol = 1e-9 * (L + W + std::hypot(off.x, off.y)); int n1 = 0, n2 = 0; std::vector<char> side(m.numberofpoints, 0);
    for (int i = 0; i < m.numberofpoints; i++) { Vector p = m.pointlist[i]; double x = (p.x - off.x) * cr + (p.y - off.y) * sr; if (std::fabs(x) < tol) { sim.setVoltage(sys, p, V1); n1++; side[i] = 1; } else if (std::fabs(x - L) < tol) { sim.setVoltage(sys, p, V2); n2++; side[i] = 2; } }
    c.sample("%s of %d bars, length %g width %g sigma ~%g depth %g rot %g, %d nodes", series ? "series" : "parallel", k, L, W, s0, depth, rot, m.numberofpoints);
    if (n1 < 2 || n2 < 2) c.skip();
    auto V = sim.solve(sys); MatCSRSymmetric M(sy0.A); std::vector<double> I(V.size()); mult(I, M, V);
    long double i1 = 0, i2 = 0; for (size_t i = 0; i < V.size(); i++) { if (side[i] == 1) i1 += I[i]; if (side[i] == 2) i2 += I[i]; }
    long double Rexp = 0; if (series) for (int i = 0; i < k; i++) Rexp += (cut[i + 1] - cut[i]) / (sg[i] * W * depth); else { long double G = 0; for (int i = 0; i < k; i++) G += sg[i] * (cut[i + 1] - cut[i]) * depth / L; Rexp = 1 / G; }
    long double Iexp = (V1 - V2) / Rexp; c.worst("bar current relative error", std::fabs((double)((i1 - Iexp) / Iexp)));
    c.check(std::fabs((double)(i1 - Iexp)) <= 1e-6 * std::fabs((double)((std::fabs(V1) + std::fabs(V2)) / Rexp)), "resistance", "the bar carries %Lg A, its resistance of %Lg Ohm implies %Lg A", i1, Rexp, Iexp);
    c.check(std::fabs((double)(i1 + i2)) <= 1e-6 * std::fabs((double)((std::fabs(V1) + std::fabs(V2)) / Rexp)), "current-balance", "%Lg A in, %Lg A out", i1, -i2);
    for (int i = 0; i < m.numberofpoints; i++) { Vector p = m.pointlist[i]; double x = (p.x - off.x) * cr + (p.y - off.y) * sr; long double e; if (series) { long double r = 0; for (int j = 0; j < k; j++) { double x1 = std::min(x, cut[j + 1]); if (x1 > cut[j]) r += (x1 - cut[j]) / (sg[j] * W * depth); } e = V1 + (V2 - V1) * r / Rexp; } else e = V1 + (V2 - V1) * (long double)x / L; if (std::fabs(V[i] - (double)e) > 1e-6 * (std::fabs(V1) + std::fabs(V2))) c.fail("bar-potential", "node at %g of %g is at %g V instead of %Lg V", x, L, V[i], e); }
    c.eval(m.numberofpoints); c.nontrivial(mixd(mixd(7, L), W));
}
VF_SUITE(bars, 300, 5000) { bars(c, false); }
// long strips: meshes that need thousands of steps of the solver
VF_SUITE(strips, 24, 300) { bars(c, true); }
VF_MAIN
