// C01: no undefined behaviour or memory error in any valid use.
// Random programs over pools of simulations; AddressSanitizer, UBSan, valgrind and a heap balance watch.
#include "meshmon.hpp"
#include <memory>
using namespace nikfemm;
using namespace vf;
#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static size_t heap() { return __sanitizer_get_current_allocated_bytes(); }
#else
static size_t heap() { return 0; }   // only AddressSanitizer counts exactly
#endif
static const BH_Curve curve = {{0, 0}, {.5, 60}, {1.0, 200}, {1.4, 900}, {1.7, 5000}, {2.1, 60000}};
static MagnetostaticProp mprop(Rng& r, const Scene& s, bool curves) { double a = r.uni(0, 6.28); switch (r.range(0, curves ? 4 : 3)) { case 0: return {0, {0, 0}, 1.25663706e-6f, {}}; case 1: return {r.uni(-5, 5) / s.total, {0, 0}, 1.25663706e-6f, {}}; case 2: return {0, {cos(a) / std::sqrt(s.total), sin(a) / std::sqrt(s.total)}, 1.3e-6f, {}}; case 3: return {0, {0, 0}, 1e-3f, {}}; default: return {0, {0, 0}, 0, curve}; } }
static Scene pie(Rng& r) {   // many slices share the centre
    Scene s; int n = r.range(3, 64); double R = r.logu(1e-2, 1e2); Vector o(r.uni(-9, 9) * R, r.uni(-9, 9) * R); std::vector<Vector> P; for (int i = 0; i < n; i++) P.push_back(o + Vector(R * cos(2 * PI * i / n), R * sin(2 * PI * i / n)));
    for (int i = 0; i < n; i++) { Face f; f.loop = {o, P[i], P[(i + 1) % n]}; f.area = f.own = std::fabs((double)area2d(f.loop)) / 2; f.marker = (f.loop[0] + f.loop[1] + f.loop[2]) / 3; f.mat = r.range(0, 3); s.faces.push_back(f); s.order.push_back(i); s.total += f.area; }
    s.minang = std::min(30.0, 360.0 / n); s.text = fmt("pie of %d", n); return s;
}
static Scene scene(Rng& r) { if (r.chance(.15)) return pie(r); SceneOpt o; o.max_shapes = 4; return random_scene(r, o); }
static int angle(const Scene& s) { return std::min(30, (int)(s.minang * .4)); }
static uint64_t g_sig;   // of the meshes generated by this program
template <class M> static uint64_t mesh_hash(const M& m) { uint64_t h = mix(m.numberofpoints, m.numberoftriangles); for (int i = 0; i < m.numberofpoints; i++) h = mixd(mixd(h, m.pointlist[i].x), m.pointlist[i].y); for (int i = 0; i < m.numberoftriangles; i++) for (int k = 0; k < 3; k++) h = mix(h, m.trianglelist[i].verts[k]); return h; }
static uint64_t vec_hash(const std::vector<double>& v) { uint64_t h = v.size(); for (double x : v) h = mixd(h, x); return h; }

struct MagItem { Scene s; std::unique_ptr<MagnetostaticSimulation> sim; std::unique_ptr<System<NonLinearExpression>> sys; std::vector<double> A; };
static void magnetostatic_program(Ctx& c, Rng& r, int steps, double nt) {
    std::vector<MagItem> pool; auto& ops = c;
    for (int st = 0; st < steps; st++) {
        if (pool.empty() || (pool.size() < 3 && r.chance(.2))) {
            MagItem it; it.s = scene(r); it.sim = std::make_unique<MagnetostaticSimulation>(); std::vector<MagnetostaticProp> mats; bool curves = r.chance(.2); for (size_t i = 0; i < 4; i++) mats.push_back(mprop(r, it.s, curves)); auto& s = it.s; draw_scene(r, it.sim->mesh.drawing, s, [&](int f) { return mats[s.faces[f].mat]; }); pool.push_back(std::move(it)); ops.note("op draw"); continue;
        }
        int k = r.range(0, (int)pool.size() - 1); MagItem& it = pool[k]; auto& sim = *it.sim; bool meshed = sim.mesh.data.numberoftriangles > 0;
        switch (r.range(0, 11)) {
            case 0: case 1: case 2: if (meshed) break; it.sys = nullptr; { double ta = it.s.tri_area(r.logu(2, nt)); bool rm = r.chance(.5) && few_refining_points(it.s, ta); if (rm) ops.note("op refine around magnets"); it.sys = std::make_unique<System<NonLinearExpression>>(sim.generateSystem(r.chance(.2), ta, angle(it.s), rm)); ops.note("op generate"); g_sig = mix(g_sig, mesh_hash(sim.mesh.data)); } break;
            case 3: case 4: if (!it.sys) break; it.A = sim.solve(*it.sys); ops.note("op solve"); break;
            case 5: if (it.A.empty()) break; { auto B = sim.mesh.computeCurl(it.A); Vector p = it.s.faces[r.range(0, it.s.faces.size() - 1)].marker; sim.computeStressIntegral(B, p, Vector(r.uni(-1, 1), r.uni(-1, 1))); ops.note("op stress"); } break;
            case 6: if (!meshed) break; { Vector p = it.s.faces[r.range(0, it.s.faces.size() - 1)].marker; sim.mesh.computeAreaIntegral(p); sim.mesh.computeMass(p, 2); sim.mesh.computeBarycenter(p); sim.mesh.computeInertiaMoment(p, p, 2); ops.note("op mass"); } break;
            case 7: if (it.A.empty()) break; { sim.mesh.computeGrad(it.A); for (int q = 0; q < 5; q++) sim.mesh.data.pointInElem(r.range(0, sim.mesh.data.numberoftriangles - 1), Vector(r.uni(-1, 1), r.uni(-1, 1))); ops.note("op gradient"); } break;
            case 8: if (pool.size() < 4) { MagItem cp; cp.s = it.s; cp.sim = std::make_unique<MagnetostaticSimulation>(sim); if (it.sys) cp.sys = std::make_unique<System<NonLinearExpression>>(*it.sys); cp.A = it.A; c.check(mesh_hash(cp.sim->mesh.data) == mesh_hash(sim.mesh.data), "copy", "a copied simulation has another mesh"); if (meshed) c.check(cp.sim->mesh.data.pointlist != sim.mesh.data.pointlist, "shared-copy", "a copied simulation shares the original's vertices"); ops.note(meshed ? "op copy meshed" : "op copy"); pool.push_back(std::move(cp)); } break;
            case 9: { int j = r.range(0, (int)pool.size() - 1); auto h = mesh_hash(pool[j].sim->mesh.data); auto& src = *pool[j].sim; sim = src; it.s = Scene(pool[j].s); if (j != k) { it.sys.reset(); if (pool[j].sys) it.sys = std::make_unique<System<NonLinearExpression>>(*pool[j].sys); it.A = pool[j].A; } c.check(mesh_hash(sim.mesh.data) == h, "assign", "an assigned simulation has another mesh"); ops.note(j == k ? "op self-assign" : "op assign"); break; }
            case 10: { MagItem mv; mv.s = it.s; mv.sim = std::make_unique<MagnetostaticSimulation>(std::move(sim)); mv.sys = std::move(it.sys); mv.A = it.A; pool[k] = std::move(mv); ops.note("op move"); break; }
            default: if (r.chance(.5)) { pool.erase(pool.begin() + k); ops.note("op destroy"); }
        }
    }
}
struct LayItem { std::vector<Scene> s; std::unique_ptr<MultiLayerCurrentDensitySimulation> sim; std::unique_ptr<System<double>> sys; std::vector<double> V; bool volt = false; };
static void layered_program(Ctx& c, Rng& r, int steps, double nt) {
    std::vector<LayItem> pool;
    for (int st = 0; st < steps; st++) {
        if (pool.empty() || (pool.size() < 3 && r.chance(.15))) {
            LayItem it; int n = r.range(1, 3); for (int i = 0; i < n; i++) it.s.push_back(scene(r)); it.sim = r.chance(.5) ? std::make_unique<MultiLayerCurrentDensitySimulation>(n) : std::make_unique<MultiLayerCurrentDensitySimulation>(n, std::vector<double>(n, r.logu(1e-3, 1)));
            for (int i = 0; i < n; i++) draw_scene(r, it.sim->meshes[i].drawing, it.s[i], [&](int f) { return CurrentDensityProp{it.s[i].faces[f].mat + 1.0}; });
            for (int k = r.range(0, 3); k--;) { int a = r.range(0, n - 1), b = r.range(0, n - 1); it.sim->interconnections.push_back({it.s[a].faces[0].marker, it.s[b].faces.back().marker, (uint64_t)a, (uint64_t)b, r.logu(.1, 10)}); }
            pool.push_back(std::move(it)); c.note("op draw"); continue;
        }
        int k = r.range(0, (int)pool.size() - 1); auto& it = pool[k]; auto& sim = *it.sim; auto& P = it.s;
        switch (r.range(0, 10)) {
            case 0: case 1: case 2: { double a = 1e300; int q = 30; for (auto& s : P) a = std::min(a, s.total), q = std::min(q, angle(s)); double m = 0; for (auto& s : P) m = std::max(m, s.total); if (it.sys) c.note("op generate again"); it.sys = std::make_unique<System<double>>(sim.generateSystem(r.chance(.1) && q >= 15, std::max(a / r.logu(2, nt), m / 300), q)); it.V.clear(); it.volt = false; c.note("op generate"); for (auto& m : sim.meshes) g_sig = mix(g_sig, mesh_hash(m.data)); break; }
            case 3: case 4: if (!it.sys) break; { int l = r.range(0, P.size() - 1); auto& L = P[l].faces[0].loop; sim.setVoltage(*it.sys, L[r.range(0, L.size() - 1)], r.uni(-3, 3), l); it.volt = true; c.note("op voltage"); } break;
            case 5: case 6: if (!it.volt) break; it.V = sim.solve(*it.sys); c.note("op solve"); break;
            case 7: if (it.V.empty()) break; sim.computePowerDensity(it.V); c.note("op power"); break;
            case 8: if (pool.size() < 4) { LayItem cp; cp.s = P; cp.sim = std::make_unique<MultiLayerCurrentDensitySimulation>(sim); if (it.sys) cp.sys = std::make_unique<System<double>>(*it.sys); cp.V = it.V; cp.volt = it.volt; for (size_t l = 0; l < P.size(); l++) c.check(mesh_hash(cp.sim->meshes[l].data) == mesh_hash(sim.meshes[l].data), "copy", "a copied simulation has another mesh"); pool.push_back(std::move(cp)); c.note("op copy"); } break;
            case 9: { MultiLayerCurrentDensitySimulation other(sim); sim = other; c.note("op assign"); break; }
            default: if (r.chance(.5)) { pool.erase(pool.begin() + k); c.note("op destroy"); }
        }
    }
}
struct SheetItem { Scene s; CurrentDensitySimulation sim; };
static void sheet_program(Ctx& c, Rng& r, int steps, double nt) {
    std::vector<SheetItem> pool; std::vector<System<double>> sys;
    for (int st = 0; st < steps; st++) {
        SheetItem it; it.s = scene(r); draw_scene(r, it.sim.mesh.drawing, it.s, [&](int f) { return CurrentDensityProp{it.s.faces[f].mat + 1.0}; }); if (r.chance(.3)) it.sim.mesh.depth = 2;
        if (r.chance(.7)) { auto S = it.sim.generateSystem(r.chance(.2) && angle(it.s) > 12, it.s.tri_area(r.logu(2, nt)), angle(it.s)); if (r.chance(.8)) { auto& L = it.s.faces[0].loop; it.sim.setVoltage(S, L[0], 1); it.sim.setVoltage(S, L[2 % L.size()], 0); auto V = it.sim.solve(S); it.sim.mesh.computeGrad(V); it.sim.mesh.computeCurl(V); } sys.push_back(S); }
        if (r.chance(.5)) pool.push_back(it); else pool.push_back(std::move(it));   // the vector grows: simulations are copied or moved
        if (it.sim.mesh.data.numberoftriangles > 0 && r.chance(.1)) { it.sim.mesh.getFemSystemCotangentWeights(); c.note("op cotangent weights"); } c.note("op sheet"); g_sig = mix(g_sig, mesh_hash(it.sim.mesh.data)); if (r.chance(.3) && pool.size() > 1) { std::swap(pool[0], pool.back()); c.note("op swap"); } if (r.chance(.2)) pool.pop_back();
    }
    if (r.chance(.5)) std::reverse(pool.begin(), pool.end());
}
static void program(Ctx& c, int kind, int steps, double nt, bool thrice) {
    Rng start = c.rng; g_sig = 0; size_t h[3] = {0, 0, 0};
    for (int i = 0; i < (thrice ? 3 : 1); i++) { size_t h0 = heap(); Rng r = start; (kind == 0 ? magnetostatic_program : kind == 1 ? layered_program : sheet_program)(c, r, steps, nt); c.rng = r; h[i] = heap() - h0; }
    if (thrice) { c.worst("bytes left behind by a repeated program", (double)(long)h[2]); c.check((long)h[1] <= 256 || (long)h[2] <= 256, "leak", "running the same program again left %ld and %ld bytes of the heap allocated", (long)h[1], (long)h[2]); }
    c.eval(); c.sample("kind %d, %d steps", kind, steps); if (g_sig) c.nontrivial(mix(kind, g_sig));
}
VF_SUITE(magnetostatic, 250, 4000) { program(c, 0, c.rng.range(4, 25), 60, c.rng.chance(.3)); }
VF_SUITE(layered, 350, 5000) { program(c, 1, c.rng.range(4, 25), 60, c.rng.chance(.3)); }
VF_SUITE(sheets, 250, 4000) { program(c, 2, c.rng.range(1, 5), 60, c.rng.chance(.3)); }
VF_SUITE(small, 24, 300) { program(c, c.rng.range(0, 2), c.rng.range(4, 10), 8, false); }   // for memcheck
VF_MAIN
