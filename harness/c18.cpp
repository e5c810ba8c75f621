// C18: magnetic forces and torques obey mechanics.
#include "meshmon.hpp"
#include "shell.hpp"
#include <complex>
using namespace nikfemm;
using namespace vf;
typedef std::complex<double> cd; static const double MU_0 = 4e-7 * PI;
static MagnetostaticProp air(int f) { return {0, {0, 0}, (float)MU_0, {}}; }
// a scene with at least one body strictly inside another polygon
static int pick_body(Ctx& c, const Scene& s) { std::vector<int> b; for (size_t i = 0; i < s.faces.size(); i++) if (s.faces[i].parent >= 0) b.push_back(i); if (b.empty()) throw CaseSkip(); return b[c.rng.range(0, b.size() - 1)]; }
static std::string fmtv(Vector v) { return fmt("(%.6g,%.6g)", v.x, v.y); }


static Vector bary(const MagnetostaticMesh& m, int t) { auto& v = m.data.trianglelist[t].verts; return (m.data.pointlist[v[0]] + m.data.pointlist[v[1]] + m.data.pointlist[v[2]]) / 3 + m.center; }
static int refine(Ctx& c, Scene& s, MagnetostaticSimulation& sim, double nt) { sim.generateSystem(false, s.tri_area(nt), std::min(30, (int)(s.minang * .4))); return sim.mesh.data.numberoftriangles; }
static double extent(const std::vector<Vector>& L) { double d = 0; for (auto& p : L) for (auto& q : L) d = std::max(d, Vector::distance(p, q)); return d; }
static void agree(Ctx& c, MagnetostaticSimulation& sim, const std::vector<Vector>& B, Vector p, Vector ctr, Vector F, double T) {
    auto s = sim.computeStressIntegral(B, p, ctr); c.check(Vector::distance(s.Force, F) <= 1e-9 * F.norm() && close(s.Torque, T, 1e-9, 0), "combined", "separately force %s torque %.9g, together %s and %.9g", fmtv(F).c_str(), T, fmtv(s.Force).c_str(), s.Torque);
    double d = sim.depth; sim.depth *= 3; Vector F3 = sim.computeForceIntegrals(B, p); double T3 = sim.computeTorqueIntegral(B, p, ctr); sim.depth = d;
    c.check(Vector::distance(F3, F * 3) <= 1e-9 * F3.norm() && close(T3, 3 * T, 1e-9, 0), "depth", "at three times the depth force %s becomes %s, torque %.9g becomes %.9g", fmtv(F).c_str(), fmtv(F3).c_str(), T, T3);
}
// a uniform field exerts nothing, whatever the shapes
VF_SUITE(uniform, 90, 1200) {
    SceneOpt o; o.min_shapes = 2; o.tiling = false; Scene s = random_scene(c.rng, o); int b = c.rng.range(0, s.faces.size() - 1); MagnetostaticSimulation sim; sim.mesh.depth = sim.depth = c.rng.logu(1e-2, 1e2); draw_scene(c.rng, sim.mesh.drawing, s, air);
    if (c.rng.chance(.1)) { auto L = s.faces[c.rng.range(0, s.faces.size() - 1)].loop; std::rotate(L.begin(), L.begin() + c.rng.range(0, L.size() - 1), L.end()); sim.mesh.drawing.drawPolygon(L); c.note("bodies drawn twice"); }
    refine(c, s, sim, c.rng.logu(30, 1500)); Vector p = s.faces[b].marker; double L = extent(s.faces[b].loop);
    double a = c.rng.uni(0, 2 * PI), m = c.rng.chance(.1) ? 0 : c.rng.logu(1e-6, 1e2); std::vector<Vector> B(sim.mesh.data.numberoftriangles, Vector(m * cos(a), m * sin(a))); Vector o2 = p + Vector(c.rng.uni(-2, 2), c.rng.uni(-2, 2)) * L;
    double unit = m * m / MU_0 * L * sim.depth, far = std::max(std::fabs(p.x), std::fabs(p.y)) + L; Vector F = sim.computeForceIntegrals(B, p); double T = sim.computeTorqueIntegral(B, p, o2);
    c.sample("%s body %d, %d triangles", s.text.c_str(), b, sim.mesh.data.numberoftriangles);
    if (unit > 0) c.worst("force in a uniform field", F.norm() / unit), c.worst("torque in a uniform field", std::fabs(T) / unit / far);
    c.check(F.norm() <= 1e-6 * unit, "uniform-force", "a uniform field exerts the force %s, unit %.3g", fmtv(F).c_str(), unit); c.check(std::fabs(T) <= 1e-6 * unit * far, "uniform-torque", "a uniform field exerts the torque %.6g, unit %.3g", T, unit * far);
    c.nontrivial(scene_hash(s));
}
// the static field of line currents, one of them inside the body: the force is that on the line current
VF_SUITE(poles, 45, 400) {
    SceneOpt o; o.min_shapes = 2; o.tiling = false; o.max_shapes = 5; Scene s = random_scene(c.rng, o); auto& F = s.faces; int b = c.rng.range(0, F.size() - 1), par = F[b].parent; MagnetostaticSimulation sim; sim.mesh.depth = sim.depth = c.rng.logu(1e-2, 1e2); draw_scene(c.rng, sim.mesh.drawing, s, air);
    double nt = c.rng.logu(400, 2500); int n = refine(c, s, sim, nt); if (n > 40000) throw CaseSkip();
    struct Pole { Vector z; double I; }; std::vector<Pole> in{{F[b].marker, c.rng.uni(1, 3)}}, out; double size = extent(F[b].loop);
    if (par >= 0) for (int k = c.rng.range(1, 3); k--;) { double t = c.rng.uni(0, 2 * PI), S = extent(F[par].loop); Vector z; do { t += .1; z = F[par].marker + Vector(cos(t), sin(t)) * S * c.rng.uni(.8, 2); } while (inside(F[par].loop, z) || loopdist(z, F[par].loop) < .2 * S); out.push_back({z, c.rng.uni(-1, 1) * 10 * S / size}); }
    for (size_t i = 0; i < F.size(); i++) if (F[i].parent == par && (int)i != b && (out.empty() || c.rng.chance(.5))) out.push_back({F[i].marker, c.rng.uni(-3, 3)});
    if (out.empty()) out.push_back({F[b].marker + Vector(1e3 * size, 0), c.rng.uni(-1e3, 1e3)});
    auto field = [&](Vector p, const std::vector<Pole>& P) { Vector B(0, 0); for (auto& q : P) { double x = p.x - q.z.x, y = p.y - q.z.y, r2 = x * x + y * y, k = MU_0 * q.I / 2 / PI / r2; B += Vector(-y * k, x * k); } return B; };
    auto& m = sim.mesh; std::vector<Vector> B; for (int t = 0; t < n; t++) { Vector p = bary(m, t); B.push_back(field(p, in) + field(p, out)); }
    Vector e = field(in[0].z, out), ref = Vector(-e.y, e.x) * in[0].I * sim.depth, p = F[b].marker, f = sim.computeForceIntegrals(B, p), ctr = p + Vector(c.rng.uni(-1, 1), c.rng.uni(-1, 1)) * size; double T = sim.computeTorqueIntegral(B, p, ctr), Tr = (p - ctr) ^ ref;
    // discretisation: the field energy around the body, times the square of (triangle size / clearance)
    double own = 1e300, gap = 1e300; for (auto& q : F) own = std::min(own, loopdist(p, F[b].loop)); for (size_t i = 0; i < F.size(); i++) if ((int)i != b && (F[i].parent == par || (int)i == par)) gap = std::min(gap, loop_loop_dist(F[b].loop, F[i].loop)), own = std::min(own, loopdist(F[i].marker, F[i].loop));
    c.note("line current cases"); double h = std::sqrt(s.total / nt), Bi = MU_0 * in[0].I / 2 / PI / own, q = std::min(1.0, h * h / own / own), scale = (Bi * Bi / MU_0 * own * sim.depth + ref.norm());
    double er = Vector::distance(f, ref) / scale, et = std::fabs(T - Tr) / scale / size; c.worst("force error, line currents", er); c.worst("torque error, line currents", et); c.worst("force error over resolution", er / q); c.worst("torque error over resolution", et / q);
    if (getenv("DBG")) printf("D own %g gap %g h %g size %g par %d body %d Bi %g\n", own, gap, h, size, par, b, Bi);
    c.check(er <= .15 * q + 1e-6, "line-force", "the force on a line current is %s, computed %s (%.3g of the scale, resolution %.3g)", fmtv(ref).c_str(), fmtv(f).c_str(), er, q); c.check(et <= .15 * q + 1e-6, "line-torque", "the torque on a line current is %.6g, computed %.6g (%.3g of the scale, resolution %.3g)", Tr, T, et, q);
    if (getenv("DBG")) printf("D %s nt %d q %.3g er %.3g %.3g et %.3g %.3g\n", s.text.c_str(), n, q, er, er / q, et, et / q);
    c.sample("%s body %d, %d triangles, force %s", s.text.c_str(), b, n, fmtv(ref).c_str());
    if (c.rng.chance(.3)) agree(c, sim, B, p, ctr, f, T); c.nontrivial(scene_hash(s));
}
// whole simulations: forces on conductors are those of the computed field on their currents; all forces and torques balance
VF_SUITE(simulations, 20, 220) {
    SceneOpt o; o.min_shapes = 2; o.max_shapes = 5; o.tiling = false; o.nested = false; Scene s = random_scene(c.rng, o); auto& F = s.faces; MagnetostaticSimulation sim; sim.mesh.depth = sim.depth = c.rng.logu(1e-1, 1e1);
    bool balanced = c.rng.chance(.5); std::vector<MagnetostaticProp> mats(F.size()); double net = 0; int kind = c.rng.range(0, 2);   // 0: conductors only
    for (size_t i = 0; i < F.size(); i++) { double I = c.rng.uni(.5, 3) * (c.rng.chance(.5) ? -1 : 1); if (balanced && i + 1 == F.size()) I = -net; net += I; double t = c.rng.uni(0, 2 * PI), M = c.rng.uni(.3, 1) * 3 / std::sqrt(F[i].area); int k = kind == 0 ? 0 : c.rng.range(0, 2); mats[i] = k == 0 ? MagnetostaticProp{I / F[i].area, {0, 0}, (float)MU_0, {}} : k == 1 ? MagnetostaticProp{0, {M * cos(t), M * sin(t)}, (float)(1.05 * MU_0), {}} : MagnetostaticProp{0, {0, 0}, (float)(c.rng.logu(2, 1000) * MU_0), {}}; if (k) net -= I; }
    draw_scene(c.rng, sim.mesh.drawing, s, [&](int f) { return mats[f]; });
    double D = 0; for (auto& f : F) for (auto& g : F) for (auto& p : f.loop) for (auto& q : g.loop) D = std::max(D, Vector::distance(p, q));
    double least = 1e300; for (auto& f : F) least = std::min(least, f.area); double nt = c.rng.logu(200, 800); nt = std::max(nt, 25 * s.total / least); if (nt > 2500) throw CaseSkip(); auto sys = sim.generateSystem(false, s.tri_area(nt), std::min(30, (int)(s.minang * .4))); int n = sim.mesh.data.numberoftriangles; auto A = sim.solve(sys); auto B = sim.mesh.computeCurl(A);
    Vector sumF(0, 0), c0 = F[0].marker + Vector(c.rng.uni(-1, 1), c.rng.uni(-1, 1)) * D; double sumT = 0, scF = 0, scT = 0; std::vector<Vector> lor(F.size(), Vector(0, 0)); std::vector<double> lorT(F.size(), 0), e(F.size(), 0); std::vector<int> N(F.size(), 0);
    double Bm2 = 0;
    for (int t = 0; t < n; t++) { Vector p = bary(sim.mesh, t); int f = face_of(s, p); if (f < 0) continue; bool ext = false; for (int k = 0; k < 3; k++) { Vector v = sim.mesh.data.pointlist[sim.mesh.data.trianglelist[t].verts[k]] + sim.mesh.center; ext = ext || loopdist(v, F[f].loop) > 1e-6 * D && !inside(F[f].loop, v); } if (ext) continue; double w = (double)fabsl(tri2(sim.mesh.data, t)) / 2 * sim.depth; Vector q = Vector(-B[t].y, B[t].x) * mats[f].J * w; N[f]++; lor[f] += q; lorT[f] += (p - c0) ^ q; e[f] += B[t].normSquared() / MU_0 * w; }
    int Nm = *std::min_element(N.begin(), N.end());
    for (size_t i = 0; i < F.size(); i++) {
        Vector f = sim.computeForceIntegrals(B, F[i].marker); double T = sim.computeTorqueIntegral(B, F[i].marker, c0); double L = std::sqrt(F[i].area), sc = e[i] / L + f.norm();
        sumF += f; sumT += T; scF += sc; scT += sc * (Vector::distance(F[i].marker, c0) + L);
        if (mats[i].J != 0) { double ef = Vector::distance(f, lor[i]) / sc, et = std::fabs(T - lorT[i]) / (sc * (Vector::distance(F[i].marker, c0) + L)); c.worst("force against Lorentz", ef); c.worst("torque against Lorentz", et); c.worst("force against Lorentz, times triangles", ef * Nm); c.worst("torque against Lorentz, times triangles", et * Nm); c.note("conductors"); double tol = std::min(.3, 10.0 / Nm); c.check(ef <= tol, "lorentz-force", "the currents of body %zu feel %s, the computed force is %s (%.3g of the scale, allowed %.3g)", i, fmtv(lor[i]).c_str(), fmtv(f).c_str(), ef, tol); c.check(et <= tol, "lorentz-torque", "the currents of body %zu feel the torque %.6g, computed %.6g (%.3g of the scale, allowed %.3g)", i, lorT[i], T, et, tol); if (getenv("DBG")) printf("L %s n %d ef*N %.3g ef %.3g et %.3g  %s %s sc %.3g\n", s.text.c_str(), N[i], ef * Nm, ef, et, fmtv(f).c_str(), fmtv(lor[i]).c_str(), sc); }
        if (!i) agree(c, sim, B, F[0].marker, c0, f, T);
    }
    double ef = scF > 0 ? sumF.norm() / scF : sumF.norm(), et = scT > 0 ? std::fabs(sumT) / scT : std::fabs(sumT); c.worst("unbalanced force", ef); c.worst("unbalanced torque", et); c.worst("unbalanced force, times least triangles", ef * Nm); c.worst("unbalanced torque, times least triangles", et * Nm); if (getenv("DBG")) fprintf(stderr, "S kind %d bal %d n %d ef %.3g et %.3g\n", kind, balanced, Nm, ef, et);
    double tol = std::min(.4, (kind ? 20.0 : 4.0) / Nm); if (!balanced) tol = std::max(tol, .18);   // a net current returns through the far boundary, which is not round
    c.check(ef <= tol, "balance-force", "the forces add up to %s, %.3g of the scale (allowed %.3g)", fmtv(sumF).c_str(), ef, tol); c.check(et <= tol, "balance-torque", "the torques add up to %.6g, %.3g of the scale (allowed %.3g)", sumT, et, tol);
    { double k = c.rng.logu(.2, 20); auto B2 = B; for (auto& v : B2) v = v * k; Vector f = sim.computeForceIntegrals(B, F[0].marker), f2 = sim.computeForceIntegrals(B2, F[0].marker); double d = (f2 / (k * k) - f).norm(), sc = e[0] / std::sqrt(F[0].area) + f.norm(); if (sc > 0) c.worst("force against square of the field, times triangles", d / sc * Nm); c.check(d <= tol * sc, "square", "the force %s becomes %s at %.3g times the field", fmtv(f).c_str(), fmtv(f2).c_str(), k); }
    c.sample("%s, %d triangles", s.text.c_str(), n); c.nontrivial(scene_hash(s));
}
VF_MAIN
