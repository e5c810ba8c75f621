// Whole simulations with every observable result hashed: for comparing runs with one another (histories, processes, threads).
#pragma once
#include "meshmon.hpp"
#include <memory>
namespace vf {
struct Rec {
    std::vector<std::pair<std::string, uint64_t>> h; std::vector<std::shared_ptr<void>> alive; long triangles = 0; int kind = -1; std::string text;
    void add(const std::string& n, uint64_t v) { h.push_back({n, v}); }
    void add(const std::string& n, const std::vector<double>& v) { uint64_t x = v.size(); for (double d : v) x = mixd(x, d); add(n, x); }
    void add(const std::string& n, const std::vector<Vector>& v) { uint64_t x = v.size(); for (auto& d : v) x = mixd(mixd(x, d.x), d.y); add(n, x); }
    void add(const std::string& n, std::initializer_list<double> v) { add(n, std::vector<double>(v)); }
    uint64_t all() const { uint64_t x = h.size(); for (auto& p : h) x = mix(mix(x, hashstr(p.first.c_str())), p.second); return x; }
};
// the first difference, or ""
inline std::string differs(const Rec& a, const Rec& b) {
    for (size_t i = 0; i < a.h.size() && i < b.h.size(); i++) { if (a.h[i].first != b.h[i].first) return a.h[i].first + " / " + b.h[i].first; if (a.h[i].second != b.h[i].second) return a.h[i].first; }
    return a.h.size() == b.h.size() ? "" : "number of results";
}
template <class MD> uint64_t mesh_bits(const MD& m) {
    uint64_t h = mix(m.numberofpoints, m.numberoftriangles); for (int i = 0; i < m.numberofpoints; i++) h = mixd(mixd(h, m.pointlist[i].x), m.pointlist[i].y);
    for (int i = 0; i < m.numberoftriangles; i++) { for (int k = 0; k < 3; k++) h = mix(h, m.trianglelist[i].verts[k]); if (m.triangleattributelist) h = mixd(h, m.triangleattributelist[i]); } return h;
}
template <class D> uint64_t drawing_bits(const D& d) { uint64_t h = d.points.size(); for (auto& p : d.points) h = mixd(mixd(h, p.x), p.y); for (auto& s : d.segments) h = mix(mix(h, s.p1), s.p2); for (auto& g : d.regions) h = mix(mixd(mixd(h, g.first.x), g.first.y), g.second); for (auto& p : d.polygons) for (auto& q : p.points) h = mixd(mixd(h, q.x), q.y); return h; }
inline uint64_t system_bits(nikfemm::System<double>& s) { std::map<uint64_t, double> e(s.A.elems.begin(), s.A.elems.end()); uint64_t h = e.size(); for (auto& [k, v] : e) h = mixd(mix(h, k), v); for (double b : s.b) h = mixd(h, b); return h; }
inline uint64_t system_bits(nikfemm::System<nikfemm::NonLinearExpression>& s, size_t nt) { std::vector<double> mu(nt); for (size_t i = 0; i < nt; i++) mu[i] = 1e-6 * (1 + (i * 2654435761u % 1000) / 7.); std::map<uint64_t, nikfemm::NonLinearExpression> e(s.A.elems.begin(), s.A.elems.end()); uint64_t h = e.size(); for (auto& [k, v] : e) h = mixd(mix(h, k), v.evaluate(mu)); for (auto& b : s.b) h = mixd(h, b.evaluate(mu)); return h; }

struct RunOpt { bool resolve = false, copy = false, query = false; double nt = 300; int kind = -1; };
typedef std::function<void(bool, const char*, const std::string&)> Judge;   // (holds, key, message)

inline void run_magnetostatic(Rec& R, uint64_t seed, const RunOpt& o, const Judge& judge) {
    using namespace nikfemm; Rng r(mix(seed, 77)); SceneOpt so; so.max_shapes = 4; Scene s = random_scene(r, so); double sz = std::sqrt(s.total);
    std::vector<MagnetostaticProp> P; bool curves = r.chance(.3);
    for (int i = 0; i < 5; i++) { double a = r.uni(0, 6.28); MagnetostaticProp p{0, {0, 0}, magnetostatic_materials::air, {}}; switch (r.range(0, curves ? 4 : 3)) { case 1: p.J = r.uni(-5, 5) / s.total; break; case 2: p.M = Vector(cos(a), sin(a)) * (r.uni(.1, 2) / sz); p.mu = 1.3e-6; break; case 3: p.mu = r.logu(1e-5, 1e-3); break; case 4: p.bh_curve = {{0, 0}, {.5, 60}, {1.0, 200}, {1.4, 900}, {1.7, 5000}, {2.1, 60000}}; p.mu = 1e-3; p.J = r.uni(-1, 1) / s.total; break; default: p.J = .1 / s.total; } P.push_back(p); }
    auto sim = std::make_shared<MagnetostaticSimulation>(); draw_scene(r, sim->mesh.drawing, s, [&](int f) { return P[s.faces[f].mat % 5]; });
    double rr = 0; for (auto& f : s.faces) for (auto& v : f.loop) rr = std::max(rr, (v - s.faces[0].loop[0]).norm());   // the surrounding air counts, too
    double area = std::max(s.tri_area(r.logu(o.nt / 10, o.nt)), 7 * rr * rr / (8 * o.nt)); int q = std::min(30, (int)(s.minang * .4)); bool ref = r.chance(.2), rm = r.chance(.2) && few_refining_points(s, area);
    R.text = s.text; R.add("drawing", drawing_bits(sim->mesh.drawing));
    auto sys = sim->generateSystem(ref, area, q, rm); R.triangles += sim->mesh.data.numberoftriangles;
    R.add("mesh", mesh_bits(sim->mesh.data)); R.add("frame", {sim->mesh.center.x, sim->mesh.center.y, sim->mesh.radius, sim->mesh.epsilon}); R.add("system", system_bits(sys, sim->mesh.data.numberoftriangles));
    if (curves && sim->mesh.data.numberoftriangles > 3000 + 10 * o.nt) { R.alive.push_back(sim); return; }   // fine details: solving would take minutes
    auto before = drawing_bits(sim->mesh.drawing);
    auto A = sim->solve(sys); R.add("solution", A); auto B = sim->mesh.computeCurl(A); R.add("field", B); R.add("gradient", sim->mesh.computeGrad(A));
    std::vector<Vector> markers; for (auto& f : s.faces) markers.push_back(f.marker); Vector ctr(r.uni(-1, 1) * sz, r.uni(-1, 1) * sz);
    auto queries = [&](MagnetostaticSimulation& S, Rec& out) {
        for (size_t i = 0; i < markers.size() && i < 4; i++) { Vector p = markers[i]; auto st = S.computeStressIntegral(B, p, ctr); out.add("force", {st.Force.x, st.Force.y, st.Torque}); Vector b = S.mesh.computeBarycenter(p); out.add("mass", {S.mesh.computeAreaIntegral(p), S.mesh.computeMass(p, 3), b.x, b.y, S.mesh.computeInertiaMoment(p, ctr, 2)}); }
    };
    if (!s.tiling || s.faces.size() == 1) { Rec q1; queries(*sim, q1); for (auto& x : q1.h) R.h.push_back(x);
        if (o.query && judge) { Rec q2; queries(*sim, q2); judge(differs(q1, q2).empty(), "query-again", "asking again gives another " + differs(q1, q2)); }
        if (o.copy && judge) { MagnetostaticSimulation cp(*sim); Rec q2; queries(cp, q2); judge(differs(q1, q2).empty(), "copy-query", "a copied simulation gives another " + differs(q1, q2)); } }
    if (judge) {
        auto hash = [](const std::vector<double>& v) { uint64_t h = v.size(); for (double d : v) h = mixd(h, d); return h; };
        judge(before == drawing_bits(sim->mesh.drawing), "solve-changes-drawing", "solving or asking changed the drawing");
        judge(R.h[1].second == mesh_bits(sim->mesh.data), "solve-changes-mesh", "solving or asking changed the mesh");
        if (o.resolve) { judge(R.h[3].second == system_bits(sys, sim->mesh.data.numberoftriangles), "solve-changes-system", "solving changed the system"); judge(hash(sim->solve(sys)) == hash(A), "solve-again", "solving again gave another solution"); }
        if (o.copy) { MagnetostaticSimulation cp(*sim); auto s2 = System<NonLinearExpression>(sys); judge(hash(cp.solve(s2)) == hash(A), "copy-solve", "a copied simulation has another solution"); }
    }
    R.alive.push_back(sim);
}
inline void run_conduction(Rec& R, uint64_t seed, const RunOpt& o, const Judge& judge, bool layered) {
    using namespace nikfemm; Rng r(mix(seed, 78)); int n = layered ? r.range(1, 3) : 1; std::vector<Scene> S; std::vector<double> sg; for (int i = 0; i < 5; i++) sg.push_back(r.logu(.1, 1e3));
    double smallest = 1e300, biggest = 0; int q = 30; for (int i = 0; i < n; i++) { SceneOpt so; so.max_shapes = 4; S.push_back(random_scene(r, so)); smallest = std::min(smallest, S[i].total); biggest = std::max(biggest, S[i].total); q = std::min(q, (int)(S[i].minang * .4)); }
    double area = std::max(smallest / r.logu(o.nt / 30, o.nt), biggest / (o.nt * 4)); bool ref = r.chance(.15) && q >= 15; R.text = S[0].text;
    auto hash = [](const std::vector<double>& v) { uint64_t h = v.size(); for (double d : v) h = mixd(h, d); return h; };
    if (!layered) {
        auto sim = std::make_shared<CurrentDensitySimulation>(r.chance(.5) ? 1. : r.logu(1e-3, 1)); draw_scene(r, sim->mesh.drawing, S[0], [&](int f) { return CurrentDensityProp{sg[S[0].faces[f].mat % 5]}; });
        auto sys = sim->generateSystem(ref, area, q); auto& m = sim->mesh.data; R.triangles += m.numberoftriangles; R.add("drawing", drawing_bits(sim->mesh.drawing)); R.add("mesh", mesh_bits(m)); R.add("system", system_bits(sys));
        auto& L = S[0].faces[0].loop; sim->setVoltage(sys, L[0], r.uni(-3, 3)); sim->setVoltage(sys, L[L.size() / 2], r.uni(-3, 3)); auto sb = system_bits(sys); R.add("system with electrodes", sb);
        auto V = sim->solve(sys); R.add("solution", V); R.add("gradient", sim->mesh.computeGrad(V));
        if (judge) { judge(R.h[1].second == mesh_bits(m), "solve-changes-mesh", "solving changed the mesh"); if (o.resolve) { judge(sb == system_bits(sys), "solve-changes-system", "solving changed the system"); judge(hash(sim->solve(sys)) == hash(V), "solve-again", "solving again gave another solution"); }
            if (o.copy) { CurrentDensitySimulation cp(*sim); auto s2 = System<double>(sys); judge(hash(cp.solve(s2)) == hash(V), "copy-solve", "a copied simulation has another solution"); }
            if (o.query && !ref) { CurrentDensitySimulation cp(*sim); auto mb = mesh_bits(m); auto s2 = cp.generateSystem(false, area, q); judge(mesh_bits(cp.mesh.data) == mb, "generate-again", "meshing the same drawing again gave another mesh"); judge(system_bits(s2) == R.h[2].second, "generate-again-system", "assembling the same drawing again gave another system"); } }
        R.alive.push_back(sim); return;
    }
    auto sim = std::make_shared<MultiLayerCurrentDensitySimulation>(n, std::vector<double>(n, r.logu(1e-3, 1)));
    for (int i = 0; i < n; i++) draw_scene(r, sim->meshes[i].drawing, S[i], [&](int f) { return CurrentDensityProp{sg[S[i].faces[f].mat % 5]}; });
    for (int k = r.range(0, 3); k--;) { int a = r.range(0, n - 1), b = r.range(0, n - 1); sim->interconnections.push_back({S[a].faces[0].marker, S[b].faces.back().marker, (uint64_t)a, (uint64_t)b, r.logu(.1, 10)}); }
    auto sys = sim->generateSystem(ref, area, q); for (int i = 0; i < n; i++) { R.triangles += sim->meshes[i].data.numberoftriangles; R.add("mesh", mesh_bits(sim->meshes[i].data)); } R.add("system", system_bits(sys));
    for (int i = 0; i < n; i++) { auto& L = S[i].faces[0].loop; sim->setVoltage(sys, L[0], r.uni(-3, 3), i); sim->setVoltage(sys, L[L.size() / 2], r.uni(-3, 3), i); } auto sb = system_bits(sys); R.add("system with electrodes", sb);
    auto V = sim->solve(sys); R.add("solution", V); auto W = sim->computePowerDensity(V); R.add("power", W);
    if (judge) { for (int i = 0; i < n; i++) judge(R.h[i].second == mesh_bits(sim->meshes[i].data), "solve-changes-mesh", "solving changed a mesh"); if (o.resolve) { judge(sb == system_bits(sys), "solve-changes-system", "solving changed the system"); judge(hash(sim->solve(sys)) == hash(V), "solve-again", "solving again gave another solution"); }
        if (o.query) judge(hash(sim->computePowerDensity(V)) == hash(W), "query-again", "asking again gives another power density");
        if (o.copy) { MultiLayerCurrentDensitySimulation cp(*sim); auto s2 = System<double>(sys); auto V2 = cp.solve(s2); judge(hash(V2) == hash(V), "copy-solve", "a copied simulation has another solution"); judge(hash(cp.computePowerDensity(V2)) == hash(W), "copy-query", "a copied simulation has another power density"); } }
    R.alive.push_back(sim);
}
// drawings, circles, polygons and sparse algebra on their own
inline void run_parts(Rec& R, uint64_t seed) {
    using namespace nikfemm; Rng r(mix(seed, 79)); SceneOpt so; so.circles = true; Scene s = random_scene(r, so); auto d = std::make_shared<Drawing<CurrentDensityProp>>(); draw_scene(r, *d, s, [&](int f) { return CurrentDensityProp{1. + f}; }); R.text = s.text; R.add("drawing", drawing_bits(*d)); R.add("gap", {d->getCurrentEpsilon()});
    Circle e = Circle::getEnclosingCircle(d->points), m = Circle::getMinimumEnclosingCircle(d->points); R.add("enclosing circle", {e.center.x, e.center.y, e.radius}); R.add("smallest circle", {m.center.x, m.center.y, m.radius});
    for (auto& p : d->polygons) try { R.add("property", {d->getPolygonProp(p).sigma}); } catch (std::exception& e) { R.add("no property", hashstr(e.what())); }
    int n = r.range(5, 60); MatCOOSymmetric<double> A(n); std::vector<double> b(n), x0(n); for (int i = 0; i < n; i++) { A(i, i) = 5; b[i] = r.normal(); if (i) A(i - 1, i) = r.uni(-1, 0); if (i > 4 && r.chance(.5)) A(i - 4, i) = r.uni(-1, 1); }
    MatCSRSymmetric M(A); R.add("matrix", M.val); auto x = x0; conjugateGradientSolver(M, b, x, 1e-10, 500); R.add("cg", x); x = x0; preconditionedJacobiConjugateGradientSolver(M, b, x, 1e-10, 500); R.add("jacobi", x); x = x0; preconditionedSSORConjugateGradientSolver(M, b, x, 1.5, 1e-10, 500); R.add("ssor", x);
    R.alive.push_back(d);
}
inline Rec run_scenario(uint64_t seed, const RunOpt& o = RunOpt(), const Judge& judge = nullptr) {
    Rec R; R.kind = o.kind >= 0 ? o.kind : (int)(seed % 4); if (R.kind == 0) run_magnetostatic(R, seed, o, judge); else if (R.kind < 3) run_conduction(R, seed, o, judge, R.kind == 2); else run_parts(R, seed); return R;
}
}
