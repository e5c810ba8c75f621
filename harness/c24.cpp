// C24: invalid input raises an exception and nothing else breaks.
// Malformed input at every stage, under sanitizers, between reference simulations whose results are compared bit by bit.
#include "scenario.hpp"
using namespace nikfemm;
using namespace vf;
enum Want { REFUSED, SAFE };   // REFUSED: has to throw; SAFE: may be accepted, must not crash
struct Bad { std::string what; Want want; std::function<void()> f; };
static bool r0(double u) { return std::fmod(u * 1e4, 2) < 1; }
static const double INF = INFINITY, NOT = NAN;
static double strange(Rng& r) { return r.pick(std::vector<double>{0, -0., 1, -1, 1e-300, 1e300, -1e300, 1e-9, 1e9, INF, -INF, NOT}); }
typedef Drawing<CurrentDensityProp> Dr;
static void square(Dr& d, double s = 1, double x = 0, double y = 0) { d.drawRectangle(Vector(x, y), Vector(x + s, y + s)); d.drawRegion(Vector(x + s / 2, y + s / 2), {1}); }
static const int KINDS = 53;
static Bad make(Rng& r, int kind) {
    auto sheet = std::make_shared<CurrentDensitySimulation>(); auto mag = std::make_shared<MagnetostaticSimulation>(); double u = r.uni(.1, 3), v = r.uni(.1, 3); int n = r.range(1, 4), k = kind;
    auto magsq = [=] { mag->mesh.drawing.drawRectangle(Vector(0, 0), Vector(u, v)); mag->mesh.drawing.drawRegion(Vector(u / 2, v / 2), {1, {0, 0}, magnetostatic_materials::air, {}}); };
    auto two = [=] { auto s = std::make_shared<MultiLayerCurrentDensitySimulation>(2); for (auto& m : s->meshes) square(m.drawing, u); return s; };
    uint64_t far = r.pick(std::vector<uint64_t>{2, 3, 7, 1000, 0xffffffffull, ~0ull}); Vector out(r.uni(5, 50), r.uni(-50, 50)); double st = strange(r);
    switch (k) {
        // drawing
        case 0: return {"a crossing segment", REFUSED, [=] { square(sheet->mesh.drawing); sheet->mesh.drawing.drawPolygon(std::vector<Vector>{Vector(-.5, .5), Vector(1.5, .4)}); }};
        case 1: return {"a crossing polygon", REFUSED, [=] { square(sheet->mesh.drawing); sheet->mesh.drawing.drawRectangle(Vector(.5, .5), Vector(1.5, 1.5)); }};
        case 2: return {"a self-crossing polygon", REFUSED, [=] { sheet->mesh.drawing.drawPolygon(std::vector<Vector>{{0, 0}, {1, 1}, {1, 0}, {0, 1}}); }};
        case 3: return {"the property of a polygon that is not in the drawing", REFUSED, [=] { square(sheet->mesh.drawing); sheet->mesh.drawing.getPolygonProp(Polygon(std::vector<Vector>{{0, 0}, {2, 0}, {0, 2}})); }};
        case 4: return {"the property of a polygon without region", REFUSED, [=] { Dr d; d.drawRectangle(Vector(0, 0), Vector(1, 1)); d.getPolygonProp(d.polygons[0]); }};
        case 5: return {"a region id that does not exist", REFUSED, [=] { square(sheet->mesh.drawing); sheet->mesh.drawing.getRegionPtrFromId((uint32_t)std::max<uint64_t>(far, 2)); }};
        case 6: return {"a polygon of too few points", SAFE, [=] { std::vector<Vector> p(n - 1, Vector(u, v)); if (p.size()) p[0] = Vector(0, 0); sheet->mesh.drawing.drawPolygon(p); square(sheet->mesh.drawing, 1, 10, 10); sheet->generateSystem(false, .1, 20); }};
        case 7: return {"a circle of too few sides", SAFE, [=] { sheet->mesh.drawing.drawCircle(Vector(0, 0), 1, n - 1); square(sheet->mesh.drawing, 1, 10, 10); sheet->generateSystem(false, .1, 20); }};
        case 8: return {fmt("a circle of radius %g", st), SAFE, [=] { sheet->mesh.drawing.drawCircle(Vector(0, 0), st, 8); }};
        case 9: return {fmt("a rectangle with a side of %g", st), SAFE, [=] { sheet->mesh.drawing.drawRectangle(Vector(0, 0), st, 1); }};
        case 10: return {fmt("a point at %g", st), SAFE, [=] { sheet->mesh.drawing.drawPoint(Vector(st, 0)); sheet->mesh.drawing.drawPolygon(std::vector<Vector>{Vector(st, 0), Vector(0, 1)}); }};
        // meshing
        case 11: return {"an empty sheet", REFUSED, [=] { sheet->generateSystem(false, .1, 20); }};
        case 12: return {"a sheet of one or two points", REFUSED, [=] { for (int i = 0; i < std::min(n, 2); i++) sheet->mesh.drawing.drawPoint(Vector(i, i * u)); sheet->generateSystem(false, .1, 20); }};
        case 13: return {"a sheet of aligned points", REFUSED, [=] { for (int i = 0; i < n + 2; i++) sheet->mesh.drawing.drawPoint(Vector(i, i * 2)); sheet->generateSystem(false, .1, 20); }};
        case 14: return {"a sheet that is not closed", SAFE, [=] { sheet->mesh.drawing.drawPolygon(std::vector<Vector>{Vector(0, 0), Vector(1, 0)}); sheet->mesh.drawing.drawPolygon(std::vector<Vector>{Vector(1, 0), Vector(u, v)}); if (n > 2) sheet->mesh.drawing.drawPolygon(std::vector<Vector>{Vector(u, v), Vector(-2, 3)}); sheet->mesh.drawing.drawRegion(Vector(.5, .1), {1}); sheet->generateSystem(false, .1, 20); }};
        case 15: return {"a sheet without any material", REFUSED, [=] { sheet->mesh.drawing.drawRectangle(Vector(0, 0), Vector(u, v)); sheet->generateSystem(false, .1, 20); }};
        case 16: return {"a material outside the drawing", SAFE, [=] { square(sheet->mesh.drawing, u); sheet->mesh.drawing.drawRegion(out, {2}); sheet->generateSystem(false, .1, 20); }};
        case 17: return {"only points and a material", SAFE, [=] { for (int i = 0; i < 5; i++) sheet->mesh.drawing.drawPoint(Vector(i, i * i * u)); sheet->mesh.drawing.drawRegion(Vector(1, u * 1.5), {2}); sheet->generateSystem(false, .1, 20); }};
        case 18: return {fmt("an area bound of %g", -u), SAFE, [=] { square(sheet->mesh.drawing); sheet->generateSystem(false, -u, 20); }};
        case 19: return {fmt("an area bound of %g", n % 2 ? 0. : NOT), SAFE, [=] { square(sheet->mesh.drawing); sheet->generateSystem(false, n % 2 ? 0. : NOT, 20); }};
        case 20: return {fmt("an area bound of %g", INF), SAFE, [=] { square(sheet->mesh.drawing); sheet->generateSystem(false, INF, 20); }};
        case 21: return {fmt("an angle bound of %d", -n), SAFE, [=] { square(sheet->mesh.drawing); sheet->generateSystem(false, .1, -n); }};
        case 22: return {"regions of a drawing that changed", SAFE, [=] { square(sheet->mesh.drawing); sheet->generateSystem(false, .1, 20); sheet->mesh.drawing.regions.clear(); sheet->generateSystem(false, .1, 20); }};
        // electrodes
        case 23: return {"the voltage of a sheet that was not meshed", REFUSED, [=] { square(sheet->mesh.drawing); System<double> s(n); sheet->setVoltage(s, Vector(0, 0), 1); }};
        case 24: return {"the voltage of a layer that does not exist", REFUSED, [=] { auto s = two(); auto S = s->generateSystem(false, .1, 20); s->setVoltage(S, Vector(0, 0), 1, far); }};
        case 25: return {"an interconnection of a layer that does not exist", REFUSED, [=] { auto s = two(); s->interconnections.push_back({Vector(0, 0), Vector(0, 0), n % 2 ? far : 0, n % 2 ? 0 : far, 1}); s->generateSystem(false, .1, 20); }};
        case 26: return {fmt("an interconnection of resistance %g", st), SAFE, [=] { auto s = two(); s->interconnections.push_back({Vector(0, 0), Vector(0, 0), 0, 1, st}); auto S = s->generateSystem(false, .3, 20); s->setVoltage(S, Vector(0, 0), 1, 0); if (st > 0 && std::isfinite(st)) s->solve(S); }};
        case 27: return {"layers and thicknesses of different numbers", REFUSED, [=] { MultiLayerCurrentDensitySimulation s(n, std::vector<double>(n + (r0(u) ? 1 : -1), 1)); }};
        case 28: return {"no layers at all", SAFE, [=] { MultiLayerCurrentDensitySimulation s(0); auto S = s.generateSystem(false, .1, 20); auto V = s.solve(S); s.computePowerDensity(V); }};
        case 29: return {"the voltage of layers that were not meshed", REFUSED, [=] { auto s = two(); System<double> S(n); s->setVoltage(S, Vector(0, 0), 1, 1); }};
        // solving with what belongs to another simulation
        case 30: return {"the system of another sheet", REFUSED, [=] { square(sheet->mesh.drawing, u); auto S = sheet->generateSystem(false, .01 * u * u, 20); CurrentDensitySimulation o; square(o.mesh.drawing, u); o.generateSystem(false, .2 * u * u, 20); o.solve(S); }};
        case 31: return {"the system of other layers", REFUSED, [=] { auto s = two(), o = two(); auto S = s->generateSystem(false, .01 * u * u, 20); o->generateSystem(false, .2 * u * u, 20); auto V = n % 2 ? o->solve(S) : std::vector<double>(3, 1.); o->computePowerDensity(V); }};
        case 32: return {"the system of another magnetostatic simulation", REFUSED, [=] { magsq(); auto S = mag->generateSystem(false, .05 * u * v, 20); MagnetostaticSimulation o; o.mesh.drawing.drawRectangle(Vector(0, 0), Vector(1, 1)); o.mesh.drawing.drawRegion(Vector(.5, .5), {1, {0, 0}, magnetostatic_materials::air, {}}); o.generateSystem(false, .2, 20); o.solve(S); }};
        case 33: return {"the curl or gradient of a field of another mesh", REFUSED, [=] { square(sheet->mesh.drawing, u); sheet->generateSystem(false, .05, 20); std::vector<double> V(r0(u) ? n - 1 : sheet->mesh.data.numberofpoints + n); if (n % 2) sheet->mesh.computeCurl(V); else sheet->mesh.computeGrad(V); }};
        case 34: return {"the force of a field of another mesh", REFUSED, [=] { magsq(); mag->generateSystem(false, .05 * u * v, 20); mag->computeForceIntegrals(std::vector<Vector>(n - 1), Vector(u / 2, v / 2)); }};
        case 35: return {"the torque of a field of another mesh", REFUSED, [=] { magsq(); mag->generateSystem(false, .05 * u * v, 20); mag->computeTorqueIntegral(std::vector<Vector>(mag->mesh.data.numberoftriangles + n), Vector(u / 2, v / 2), Vector(0, 0)); }};
        case 36: return {"the force on nothing", REFUSED, [=] { magsq(); auto S = mag->generateSystem(false, .05 * u * v, 20); auto A = mag->solve(S); auto B = mag->mesh.computeCurl(A); mag->computeForceIntegrals(B, out * 100); }};
        case 37: return {"the area or mass of nothing", REFUSED, [=] { magsq(); mag->generateSystem(false, .05 * u * v, 20); Vector p = out * 100; n == 1 ? (void)mag->mesh.computeAreaIntegral(p) : n == 2 ? (void)mag->mesh.computeMass(p, 1) : n == 3 ? (void)mag->mesh.computeBarycenter(p) : (void)mag->mesh.computeInertiaMoment(p, p, 1); }};
        case 38: return {"a magnetostatic material with a curve of one point", REFUSED, [=] { mag->mesh.drawing.drawRectangle(Vector(0, 0), Vector(u, v)); mag->mesh.drawing.drawRegion(Vector(u / 2, v / 2), {1, {0, 0}, 1e-3, {{u, v}}}); auto S = mag->generateSystem(false, .1 * u * v, 20); mag->solve(S); }};
        case 39: return {"a permeability at a strange field", SAFE, [=] { MagnetostaticProp p{0, {0, 0}, 1e-3, {{0, 0}, {1, 100}, {2, 1000}}}; p.getMu(st);  }};
        // algebra
        case 40: return {"a matrix entry below the diagonal", REFUSED, [=] { MatCOOSymmetric<double> A(5); A(3, n > 2 ? 2 : n) = 1; }};
        case 41: return {"a matrix entry outside the matrix", REFUSED, [=] { MatCOOSymmetric<double> A(5); A(r0(u) ? 1 : 5, 5 + n) = 1; MatCSRSymmetric M(A); }};
        case 42: return {"a right hand side of another size", REFUSED, [=] { MatCOOSymmetric<double> A(5); for (int i = 0; i < 5; i++) A(i, i) = 2; MatCSRSymmetric M(A); std::vector<double> b(5 + (r0(u) ? n : -n), 1.), x(5); switch (n) { case 1: conjugateGradientSolver(M, b, x, 1e-9, 50); break; case 2: preconditionedJacobiConjugateGradientSolver(M, b, x, 1e-9, 50); break; case 3: preconditionedSSORConjugateGradientSolver(M, b, x, 1.2, 1e-9, 50); break; default: preconditionedIncompleteCholeskyConjugateGradientSolver(M, b, x, 1e-9, 50); } }};
        case 43: return {"a start vector of another size", REFUSED, [=] { MatCOOSymmetric<double> A(5); for (int i = 0; i < 5; i++) A(i, i) = 2; MatCSRSymmetric M(A); std::vector<double> b(5, 1.), x(5 + (r0(u) ? n : -n)); switch (n) { case 1: conjugateGradientSolver(M, b, x, 1e-9, 50); break; case 2: preconditionedJacobiConjugateGradientSolver(M, b, x, 1e-9, 50); break; case 3: preconditionedSSORConjugateGradientSolver(M, b, x, 1.2, 1e-9, 50); break; default: preconditionedIncompleteCholeskyConjugateGradientSolver(M, b, x, 1e-9, 50); } }};
        case 44: return {"a prescribed value outside the system", REFUSED, [=] { System<double> S(5); for (int i = 0; i < 5; i++) S.A(i, i) = 1; S.addDirichletBoundaryCondition(5 + n, 1); }};
        case 45: return {"a matrix or file that cannot be written", REFUSED, [=] { MatCOOSymmetric<double> A(2); A(0, 0) = A(1, 1) = 1; MatCSRSymmetric M(A); M.write_to_file("/nonexistent-directory/x.txt"); }};
        case 46: return {"a magnetostatic simulation of coincident or aligned points", SAFE, [=] { for (int i = 0; i < n; i++) mag->mesh.drawing.drawPoint(Vector(i * u, i * u)); mag->generateSystem(false, .5, 20); }};
        case 47: return {"circles around nothing", SAFE, [=] { Circle::getMinimumEnclosingCircle(std::vector<Vector>(n - 1, Vector(1, 1))); Circle::getEnclosingCircle(std::vector<Vector>(n - 1)); }};
        case 48: return {"an electrode at a strange place", std::abs(st) < 1e100 ? SAFE : REFUSED, [=] { square(sheet->mesh.drawing, u); auto S = sheet->generateSystem(false, .1 * u * u, 20); sheet->setVoltage(S, Vector(st, 1), 1); }};
        case 50: { double b = r.pick(std::vector<double>{INF, -INF, NOT}); Vector p = n % 2 ? Vector(b, u) : Vector(u, b); int h = r.range(0, 4); return {fmt("a coordinate of %g", b), REFUSED, [=] { auto& d = sheet->mesh.drawing; switch (h) { case 0: d.drawRectangle(p, Vector(5, 7)); break; case 1: d.drawPolygon(std::vector<Vector>{Vector(0, 0), Vector(1, 0), p}); break; case 2: d.drawCircle(p, 1, 5); break; case 3: d.drawPoint(p); break; default: d.drawRegion(p, {1}); } d.drawRegion(Vector(.1, .1), {1}); sheet->generateSystem(false, 1, 20); }}; }
        case 51: { std::vector<Vector> p, q; for (int i = 0; i < n + 2; i++) { double a = r.uni(0, .9) + i; p.push_back(Vector(cos(a * 6.28 / (n + 2)), sin(a * 6.28 / (n + 2)))); } for (int i = 0; i < 3; i++) q.push_back(Vector(r.uni(-1.1, 1.1), r.uni(-1.1, 1.1))); return {"materials around the corners of a polygon", SAFE, [=] { sheet->mesh.drawing.drawPolygon(p); for (auto& x : q) sheet->mesh.drawing.drawRegion(x, {x.x}); sheet->generateSystem(u < 1, .1, 20); }}; }
        case 52: { std::vector<std::vector<Vector>> p(r.range(1, 8)); for (auto& x : p) for (int i = r.range(1, 6); i--;) x.push_back(Vector(r.uni(-3, 3), r.uni(-3, 3))); std::vector<Vector> q; for (int i = r.range(0, 4); i--;) q.push_back(Vector(r.uni(-3, 3), r.uni(-3, 3))); return {"a soup of polygons, crossing and open ones too", SAFE, [=] { for (auto& x : p) caught([&] { sheet->mesh.drawing.drawPolygon(x); }); for (auto& x : q) sheet->mesh.drawing.drawRegion(x, {x.y}); auto S = sheet->generateSystem(u < 1, .1, n * 8); sheet->setVoltage(S, Vector(u, v), 1); sheet->setVoltage(S, Vector(-u, v), 0); sheet->solve(S); }}; }
        default: return {"a sheet of crossing boundary and missing region in a stack", REFUSED, [=] { auto s = std::make_shared<MultiLayerCurrentDensitySimulation>(2); square(s->meshes[n % 2].drawing); s->generateSystem(false, .1, 20); }};
    }
}

static std::string refuse(Ctx& c, const Bad& b) {
    std::string w = caught(b.f); if (b.want == REFUSED) c.check(!w.empty(), "accepted", "%s was accepted", b.what.c_str()); c.note(w.empty() ? "accepted" : "refused"); return w;
}
VF_SUITE(soups, 250, 5000) {   // drawings of anything, meshed and solved
    for (int k = 0; k < 3; k++) { Bad b = make(c.rng, c.rng.range(50, 52)); std::string w = refuse(c, b); c.sample("%s: %s", b.what.c_str(), w.empty() ? "accepted" : w.c_str()); c.nontrivial(mix(hashstr(b.what.c_str()), c.idx)); }
}
VF_SUITE(faults, 1060, 12000) {   // one kind after the other, each at least 20 times
    Bad b = make(c.rng, c.idx % KINDS); std::string w = refuse(c, b); c.sample("%s: %s", b.what.c_str(), w.empty() ? "accepted" : w.c_str()); c.nontrivial(hashstr(b.what.c_str()));
}
VF_SUITE(between, 120, 2000) {   // reference simulations before, between and after runs of faults: every result the same, bit by bit
    uint64_t seed = c.rng.next(); RunOpt o; o.nt = c.thorough ? 400 : 60; Rec a = run_scenario(seed, o); std::string list;
    for (int t = c.rng.range(1, 3); t--;) {
        for (int i = c.rng.range(1, 6); i--;) { Bad b = make(c.rng, c.rng.range(0, KINDS - 1)); refuse(c, b); list += (list.empty() ? "" : "; ") + b.what; }
        Rec b = run_scenario(seed, o); std::string d = differs(a, b); c.check(d.empty(), "between", "after %s the %s of another simulation differs", list.c_str(), d.c_str()); c.note("results compared", a.h.size());
    }
    c.sample("kind %d: %s", a.kind, list.c_str()); c.nontrivial(a.all());
}
VF_SUITE(survivor, 160, 2500) {   // the simulation that refused a call is as it was before
    SceneOpt so; so.max_shapes = 3; Scene s = random_scene(c.rng, so); double area = s.tri_area(c.rng.logu(10, c.thorough ? 600 : 150)); int q = std::min(25, (int)(s.minang * .4)); uint64_t ds = c.rng.next(); int n = 0;
    auto refused = [&](const char* what, const std::function<void()>& f) { n++; c.check(!caught(f).empty(), "accepted", "%s was accepted", what); };
    Vector out = s.off + Vector(1, .3) * (1e3 * std::sqrt(s.total)); int cut = c.rng.range(1, 5); auto wrong = [&](size_t k) { return c.rng.chance(.5) && k > (size_t)cut ? k - cut : k + cut; };
    if (c.rng.chance(.6)) {
        CurrentDensitySimulation sim; { Rng r(ds); draw_scene(r, sim.mesh.drawing, s, [&](int f) { return CurrentDensityProp{1. + s.faces[f].mat}; }); }
        bool first = c.rng.chance(.5); CurrentDensitySimulation fresh(sim);
        if (first) { auto keep = sim.mesh.drawing.regions; sim.mesh.drawing.regions.clear(); refused("a sheet without regions", [&] { sim.generateSystem(false, area, q); }); sim.mesh.drawing.regions = keep; }
        auto sys = sim.generateSystem(false, area, q), want = fresh.generateSystem(false, area, q); c.check(mesh_bits(sim.mesh.data) == mesh_bits(fresh.mesh.data) && system_bits(sys) == system_bits(want), "repaired", "a sheet that was refused and completed differs from one that was drawn at once");
        auto& L = s.faces[0].loop; sim.setVoltage(sys, L[0], 1); sim.setVoltage(sys, L[L.size() / 2], 0); auto V = sim.solve(sys); uint64_t db = drawing_bits(sim.mesh.drawing), mb = mesh_bits(sim.mesh.data), sb = system_bits(sys), vb = 0; for (double v : V) vb = mixd(vb, v);
        std::vector<double> W(wrong(V.size()), 1.); System<double> other(wrong(V.size())); for (uint32_t i = 0; i < other.A.m; i++) other.A(i, i) = 1;
        refused("a gradient of another size", [&] { sim.mesh.computeGrad(W); }); refused("a curl of another size", [&] { sim.mesh.computeCurl(W); }); refused("a system of another size", [&] { sim.solve(other); });
        refused("a node that does not exist", [&] { sys.addDirichletBoundaryCondition((uint32_t)V.size() + c.rng.range(0, 3), 5); }); refused("an entry outside the matrix", [&] { sys.A(0, V.size()) = 1; });
        refused("the area of nothing", [&] { sim.mesh.computeAreaIntegral(out); }); refused("an unknown polygon", [&] { sim.mesh.drawing.getPolygonProp(Polygon(std::vector<Vector>{out, out + Vector(1, 0), out + Vector(0, 1)})); });
        refused("a polygon without points", [&] { sim.mesh.drawing.drawPolygon(std::vector<Vector>()); });
        c.check(db == drawing_bits(sim.mesh.drawing) && mb == mesh_bits(sim.mesh.data) && sb == system_bits(sys), "survivor", "refused calls changed the simulation"); auto V2 = sim.solve(sys); uint64_t v2 = 0; for (double v : V2) v2 = mixd(v2, v); c.check(vb == v2, "survivor", "the solution after refused calls differs");
        uint64_t again = mb; if (c.rng.chance(.5)) { sim.generateSystem(false, area, q); again = mesh_bits(sim.mesh.data); } c.check(again == mb, "survivor", "the mesh after refused calls differs");
    } else {
        int k = c.rng.range(2, 3); MultiLayerCurrentDensitySimulation sim(k), fresh(k); for (int i = 0; i < k; i++) for (auto* m : {&sim, &fresh}) { Rng r(ds); draw_scene(r, m->meshes[i].drawing, s, [&](int f) { return CurrentDensityProp{1. + s.faces[f].mat}; }); }
        CurrentDensityInterconnection link{s.faces[0].marker, s.faces.back().marker, 0, (uint64_t)k - 1, c.rng.logu(.1, 10)}; fresh.interconnections.push_back(link); auto bad = link; (c.rng.chance(.5) ? bad.layer1_id : bad.layer2_id) = k + c.rng.range(0, 5);
        sim.interconnections.push_back(bad); refused("an interconnection of no layer", [&] { sim.generateSystem(false, area, q); }); sim.interconnections[0] = link;
        auto sys = sim.generateSystem(false, area, q), want = fresh.generateSystem(false, area, q); c.check(system_bits(sys) == system_bits(want), "repaired", "a stack that was refused and corrected differs from one that was right at once"); uint64_t sb = system_bits(sys);
        refused("a layer that does not exist", [&] { sim.setVoltage(sys, s.faces[0].marker, 3, k + c.rng.range(0, 5)); }); std::vector<double> W(wrong(sys.b.size()), 1.); refused("a power density of another size", [&] { sim.computePowerDensity(W); }); c.check(sb == system_bits(sys), "survivor", "a refused voltage changed the system");
        auto& L = s.faces[0].loop; for (auto* x : {&sys, &want}) { sim.setVoltage(*x, L[0], 1, 0); sim.setVoltage(*x, L[L.size() / 2], 0, k - 1); } auto V = sim.solve(sys), V2 = fresh.solve(want); c.check(V == V2 && V.size() == sys.b.size(), "survivor", "the solution after refused calls differs");
    }
    c.note("refused calls", n); c.sample("%s, %d refused calls", s.text.c_str(), n); c.nontrivial(scene_hash(s));
}
// coordinates next to zero: the squares of their differences underflow
VF_SUITE(underflow, 60, 1500) {
    auto& r = c.rng; auto tiny = [&] { double v = r.chance(.3) ? 0 : r.chance(.3) ? 6.9e-310 : r.chance(.3) ? 5e-324 : r.logu(1e-300, 1e-75); return r.chance(.3) ? -v : v; }; auto some = [&] { return r.chance(.5) ? tiny() : r.uni(-.5, .5); };
    int n = r.range(1, 2); MultiLayerCurrentDensitySimulation s(n); std::string out = "meshed"; c.sample("%d layers", n);
    try {
        for (int l = 0; l < n; l++) {
            auto& d = s.meshes[l].drawing; double x = r.chance(.4) ? tiny() : r.chance(.5) ? -1 : -r.uni(0, 2), y = r.chance(.4) ? tiny() : r.chance(.5) ? -1 : -r.uni(0, 2); d.drawRectangle(Vector(x, y), Vector(x + r.uni(1, 3), y + r.uni(1, 3))); d.drawRegion(Vector(x + .9, y + .9), {1});
            if (r.chance(.3)) d.drawPoint(Vector(tiny() + .2, some() + .2)); if (r.chance(.3)) d.drawPoint(Vector(tiny(), some())); if (r.chance(.15)) { double t = std::fabs(tiny()); d.drawPolygon(std::vector<Vector>{{0, 0}, {t, 0}, {t, t}}); }
        }
        for (int i = r.range(0, 3); i--;) s.interconnections.push_back({Vector(tiny(), some()), Vector(some(), tiny()), (uint64_t)r.range(0, n - 1), (uint64_t)r.range(0, n - 1), 1.});
        auto y = s.generateSystem(r.chance(.3), r.chance(.5) ? .1 : .01, r.chance(.5) ? 30 : 20);
        for (auto& [k, v] : y.A.elems) if (!std::isfinite(v)) c.fail("underflow", "the system of a drawing with coordinates next to zero has the entry %g", v);
        c.nontrivial(mix(c.idx, y.A.elems.size()));
    } catch (std::exception& e) { out = e.what(); c.nontrivial(mix(c.idx, out.size())); }
    c.eval(); c.note(out == "meshed" ? "drawings next to zero meshed" : "drawings next to zero refused");
}
// refining points around a corner when two boundaries (nearly) touch: the ring of points collapses into the corner
VF_SUITE(collapse, 60, 1500) {
    auto& r = c.rng; int n = r.range(1, 2); MultiLayerCurrentDensitySimulation s(n); std::string out = "meshed"; c.sample("%d layers", n); double sc = r.chance(.3) ? r.logu(1e-6, 1e6) : 1;
    auto off = [&] { return r.chance(.4) ? 0. : (r.chance(.5) ? 1 : -1) * sc * r.logu(1e-19, 1e-9); };
    try {
        for (int l = 0; l < n; l++) {
            auto& d = s.meshes[l].drawing; double x = r.chance(.5) ? 0 : sc * r.uni(-3, 0), y = r.chance(.5) ? 0 : sc * r.uni(-3, 0), w = sc * r.uni(1, 3), h = sc * r.uni(1, 3);
            d.drawRectangle(Vector(x, y), Vector(x + w, y + h)); d.drawRegion(Vector(x + .45 * w, y + .55 * h), {1});
            for (int k = r.range(1, 3); k--;) { double t = r.uni(.1, .9); switch (r.range(0, 3)) {
                case 0: d.drawPoint(Vector(x + off(), y + t * h)); break; case 1: d.drawPoint(Vector(x + t * w, y + off())); break; case 2: d.drawPoint(Vector(x + w + off(), y + t * h)); break;
                default: d.drawPoint(Vector(x + t * w, y + h + off())); } }
        }
        auto y = s.generateSystem(true, sc * sc * (r.chance(.5) ? .1 : .02), r.chance(.5) ? 30 : 20);
        for (auto& [k, v] : y.A.elems) if (!std::isfinite(v)) c.fail("collapse", "the system of a drawing with touching boundaries has the entry %g", v);
        c.nontrivial(mix(c.idx, y.A.elems.size()));
    } catch (std::exception& e) { out = e.what(); c.nontrivial(mix(c.idx, out.size())); }
    c.eval(); c.note(out == "meshed" ? "drawings with touching boundaries meshed" : "drawings with touching boundaries refused");
}
VF_MAIN
